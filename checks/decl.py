"""Declarations for the macros, well-formed and with one fault each, and what the compiler says to them.

Every declaration stands in a module of its own.  Many modules go into one file, `rustc` runs the macros
on all of them, and its diagnostics are assigned to the modules by line."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import time

from lib import TARGET, Inconclusive, Lock, cargo

# ---------------------------------------------------------------- the crate under test


def artifacts():
    """Builds laps with its macros; gives the arguments for rustc that make it available."""
    with Lock():
        r = cargo("hdecl", ["build", "--offline", "--message-format=json"])
    lib = None
    for line in r.stdout.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "laps":
                lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    if r.returncode != 0 or lib is None:
        raise Inconclusive("hdecl does not build:\n" + r.stdout[-3000:])
    return ["--extern", f"laps={lib}", "-L", "dependency=" + os.path.dirname(lib), "-L", "dependency=" + os.path.join(TARGET, "debug", "deps")]


# ---------------------------------------------------------------- declarations

PRELUDE = "#![allow(dead_code, unused, non_camel_case_types)]\n"
OTHERS = ["/// A word.", "#[allow(dead_code)]", "#[doc(hidden)]", "#[cfg(all())]", "/** Some\n  text. */"]
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lam", "Mu"]


class Decl:
    """Text of one module; `lines` within the text that a diagnostic has to point at, or None."""

    def __init__(self, what, kind):
        self.what = what  # a word for the rule
        self.kind = kind  # "good", "bad" (the macro has to object), "type" (the compiler has to), "any" (no panic)
        self.text = ""
        self.culprit = None
        self.culprit_lines = None

    def add(self, s, culprit=False):
        start = self.text.count("\n") + 1
        self.text += s + "\n"
        if culprit:
            self.culprit_lines = (start, self.text.count("\n"))


def maybe(r, p, xs):
    return r.choice(xs) if r.random() < p else None


def vis(r):
    return r.choice(["", "", "pub ", "pub(crate) ", "pub(super) "])


# -- Tokenize

PAYLOADS = [  # type, pattern, parser or None, parser for bytes
    ("i64", "[0-9]+", None, "|b: &[u8]| Some(b.len() as i64)"),
    ("String", "[a-z]+", None, "|b: &[u8]| String::from_utf8(b.to_vec()).ok()"),
    ("f64", "[0-9]+\\\\.[0-9]+", "|s: &str| s.parse().ok()", "|_: &[u8]| None"),
    ("usize", "#+", "|s: &str| Some(s.len())", "|b: &[u8]| Some(b.len())"),
    ("char", "'.'", "|s: &str| s.chars().nth(1)", "|b: &[u8]| b.get(1).map(|b| *b as char)"),
    ("bool", "yes|no", "|s: &str| Some(s == \"yes\")", "|b: &[u8]| Some(b == b\"yes\")"),
]
UNITS = ["if", "else", "==", "\\\\+", "while", "\\\\(", "[A-Z][A-Z0-9]*", "->", "x{2,3}", "(?:ab)+c"]
SKIPS = [" +", "\\\\t", "//[ -~]*", "[\\\\r\\\\n]"]


def tokenize(r, what, kind):
    bytes_mode = what == "bytes-no-parser" or what not in ("good",) and r.random() < 0.25 or r.random() < 0.3
    pay, units, skips = PAYLOADS[:], UNITS[:], SKIPS[:]
    if bytes_mode:
        pay = [p for p in pay if p[0] != "char"]
    for x in (pay, units, skips):
        r.shuffle(x)
    names = NAMES[:]
    r.shuffle(names)

    def payload():
        ty, rx, p, pb = pay.pop()
        p = pb if bytes_mode else p if p and r.random() < 0.5 or ty in ("usize", "char", "bool") else None
        return dict(main=[f'#[regex("{rx}"{", " + p if p else ""})]'], fields=f"({ty})", ty=ty, rx=rx)

    def unit():
        rx = units.pop()
        return dict(main=[f'#[regex("{rx}")]'], fields=r.choice(["", "", "", "()"]), rx=rx)

    def skip():
        rx = skips.pop()
        return dict(main=[f'#[skip("{rx}")]'], fields=r.choice(["", "", "()"]), rx=rx)

    def eof():
        return dict(main=["#[eof]"], fields=r.choice(["", "", "()"]))

    def bare():
        return dict(main=[], fields=r.choice(["", "()"]))

    vs = [unit() for _ in range(r.randint(1, 4))] + [payload() for _ in range(r.randint(0, 3))]
    vs += [skip() for _ in range(r.randint(0, 2))] + [bare() for _ in range(r.randint(0, 1))]
    has_eof = r.random() < 0.7
    if has_eof:
        vs.append(eof())
    head = []
    if bytes_mode:
        head.append("#[char_type(u8)]")
    elif r.random() < 0.3:
        head.append("#[char_type(char)]")
    if r.random() < 0.3:
        head.append(f"#[enable_par({r.choice(['true', 'false'])})]")
    item = "enum"
    bad = None
    placed = True
    arg = ""
    if what == "two-attributes":
        bad = r.choice([unit, payload, skip, eof])()
        arg = r.choice(['#[regex("q")]', '#[skip("q+")]', "#[eof]"])
        if bad["fields"] not in ("", "()"):
            arg = '#[regex("q")]'
        bad["main"].insert(r.randint(0, 1), arg)
    elif what == "two-eofs":
        if not has_eof:
            vs.append(eof())
        vs.append(eof())
    elif what == "bytes-no-parser":
        bad = payload()
        bad["main"] = [f'#[regex("{bad["rx"]}")]']
    elif what == "parser-on-unit":
        bad = unit()
        f = r.choice(["|_: &str| Some(())", "std::convert::identity", "parse_it", "|b: &[u8]| Some(())"])
        bad["main"] = [f'#[regex("{bad["rx"]}", {f})]']
    elif what == "payload-on-skip-or-eof":
        bad = r.choice([skip, eof])()
        bad["fields"] = r.choice(["(u128)", "(&'static str)", "(Vec<u8>)"])
    elif what == "variant-shape":
        bad = r.choice([unit, skip, eof, bare])()
        bad["fields"] = r.choice(["(u128, u16)", " { x: u128 }", " {}", "(u128, u16, u8)", " { a: u128, b: u8 }"])
    elif what == "pattern-syntax":
        arg = r.choice(["(", "[z-a]", "*", "a{3,1}", "[a", "a)", "(?P<n>", "\\\\", "\\\\p{NoSuchClass}", "x**{", "(?z)a", "[[:nope:]"])
        bad = r.choice([unit, skip])()
        bad["main"] = [re.sub(r'\("[^"]*"', lambda m: f'("{arg}"', bad["main"][0])]
    elif what == "pattern-unsupported":
        arg = r.choice(["\\\\bx", "^a", "a$", "x\\\\B", "\\\\Aa", "[^\\\\x00-\\\\x{10ffff}]", "[a&&b]"])
        if bytes_mode and "x00" in arg:
            arg = "^a"
        x = r.choice([unit, skip])()
        x["main"] = [re.sub(r'\("[^"]*"', lambda m: f'("{arg}"', x["main"][0])]
        vs.append(x)
    elif what == "attribute-arguments":
        arg = r.choice(["#[regex()]", "#[regex(5)]", "#[regex(x)]", '#[regex("a" "b")]', '#[regex("a",)]', "#[regex('a')]", '#[regex("a", |s: &str| None, 3)]',
                        "#[skip()]", "#[skip(7)]", '#[skip("a", 1)]', '#[skip("a" b)]', '#[regex(b"a")]'])
        bad = bare()
        bad["main"] = [arg]
        placed = False
    elif what == "no-pattern":
        vs = [v for v in vs if not any("regex" in a or "skip" in a for a in v["main"])]
        arg = str(len(vs))
    elif what == "empty-pattern":
        vs = [v for v in vs if not any("regex" in a or "skip" in a for a in v["main"])]
        for _ in range(r.randint(1, 2)):
            arg = r.choice(["", "()", "(?:|)", "a{0}", "(?:){3}", "()*"])
            vs.append(dict(main=[f'#[{r.choice(["regex", "skip"])}("{arg}")]'], fields=""))
    elif what == "char-type":
        head = [h for h in head if "char_type" not in h]
        arg = r.choice(["u16", "i8", "String", "&str", "()", "[u8]", "u32", "&u8", "(char)", "Vec<u8>", "byte", "u8, char", "", "Char", '"char"', "std::string::String"])
        head.append(f"#[char_type({arg})]")
    elif what == "enable-par":
        head = [h for h in head if "enable_par" not in h]
        arg = r.choice(["", "yes", "1", '"true"', "true, false", "True", "!true", "auto"])
        head.append(f"#[enable_par({arg})]")
    elif what == "two-head-attributes":
        arg = r.choice(["char_type", "enable_par"])
        head = [h for h in head if arg not in h]
        x = {"char_type": "u8" if bytes_mode else "char", "enable_par": r.choice(["true", "false"])}[arg]
        y = {"char_type": r.choice(["u8", "char"]), "enable_par": r.choice(["true", "false"])}[arg]
        head += [f"#[{arg}({x})]", f"#[{arg}({y})]"]
    elif what == "not-an-enum":
        item = arg = r.choice(["unit", "tuple", "struct", "union"])
    r.shuffle(head)
    r.shuffle(vs)
    if bad is not None:
        vs.insert(r.randint(0, len(vs)), bad)
    d = Decl(what, kind)
    d.key = (what, arg, bytes_mode, len(vs), vs.index(bad) if bad in vs else -1, tuple(head), tuple(v["main"][0][:6] if v["main"] else "" for v in vs))
    d.add("use laps::prelude::*;")
    if item == "enum" and r.random() < 0.6 and what != "variant-shape" and vs and what not in ("payload-on-skip-or-eof",):
        d.add("#[token_kind]")
        d.add(r.choice(["#[derive(Debug, Tokenize)]", "#[derive(Debug)]\n#[derive(Tokenize)]"]))
    else:
        d.add("#[derive(Tokenize)]")
    for h in head:
        d.add(h)
    if item == "unit":
        d.add("struct Kinds;")
    elif item == "tuple":
        d.add("struct Kinds(u8, String);")
    elif item == "struct":
        d.add("struct Kinds { a: u8 }")
    elif item == "union":
        d.add("union Kinds { a: u8, b: u16 }")
    else:
        d.add(f"{vis(r)}enum Kinds {{")
        for name, v in zip(names, vs):
            attrs = v["main"][:]
            for o in r.sample(OTHERS, r.choice([0, 0, 1, 2])):
                attrs.insert(r.randint(0, len(attrs)), o)
            d.add("\n".join(attrs + [f"{name}{v['fields']},"]), culprit=placed and v is bad)
        d.add("}")
    return d


# -- Spanned


def spanned(r, what, kind):
    d = Decl(what, kind)
    d.add("use laps::prelude::*;")
    d.add("type T = laps::token::Token<u8>;")
    d.add("struct NoSpan;")
    names = [n.lower() for n in NAMES]
    r.shuffle(names)
    n_other = r.randint(0, 3)

    def field(ts, twice=False, ty=None):
        ty = ty or ("Option<T>" if ts else r.choice(["T", "Box<T>", "(T, T)"]))
        attrs = ["#[try_span]"] * (2 if twice else 1 if ts else 0)
        for o in r.sample(OTHERS[:3], r.choice([0, 0, 1])):
            attrs.insert(r.randint(0, len(attrs)), o)
        return attrs, ty

    def fields():
        fs = [field(True) for _ in range(r.choice([0, 0, 1, 2]))] + [field(False) for _ in range(r.randint(1, 2))]
        r.shuffle(fs)
        return fs

    def body(fs, named):
        if named:
            ns = names[:]
            return " {\n" + "".join("  " + " ".join(self_nl(a)) + f"{n}: {t},\n" for n, (a, t) in zip(ns, fs)) + "}"
        return "(\n" + "".join("  " + " ".join(self_nl(a)) + f"{t},\n" for a, t in fs) + ")"

    def self_nl(attrs):
        return [a + "\n " for a in attrs] + [""]

    shape = r.choice(["named", "tuple", "enum"])
    fs = fields()
    culprit = False
    unit_body = None
    arg = ""
    if what == "no-fields":
        unit_body = arg = r.choice(["", " {}", "()"])
        culprit = True
    elif what == "empty-enum":
        shape = "enum"
    elif what == "union":
        shape = "union"
    elif what == "two-try-spans":
        i = r.randint(0, len(fs))
        fs.insert(i, field(True, twice=True))
        arg = i
    elif what == "all-try-span":
        fs = [field(True) for _ in range(r.randint(1, 3))]
    elif what == "option-without-try-span":
        # spans of the fields before the first and after the last plain one are asked for
        f = field(False, ty="Option<T>")
        i = r.choice([0, len(fs)])
        fs.insert(i, f)
        arg = i
    elif what == "field-without-span":
        i = r.choice([0, len(fs)])
        fs.insert(i, field(False, ty=r.choice(["NoSpan", "u32", "String", "Option<NoSpan>", "(T, NoSpan)"])))
        arg = i
    named = r.random() < 0.5
    d.key = (what, shape, arg, named if shape == "enum" else "", n_other if shape == "enum" else 0, tuple(len(a) for a, _ in fs))
    d.add("#[derive(Spanned)]")
    if shape == "union":
        d.add("union U { a: u8, b: u16 }")
    elif shape == "enum":
        d.add(f"{vis(r)}enum E {{")
        if what != "empty-enum":
            at = r.randint(0, n_other)
            for i in range(n_other + 1):
                name = NAMES[i]
                if i == at:
                    d.add(name + (unit_body if unit_body is not None else body(fs, named)) + ",", culprit=kind == "bad" and what in ("no-fields", "two-try-spans"))
                else:
                    d.add(name + body(fields(), r.random() < 0.5) + ",")
        d.add("}")
    else:
        b = unit_body if unit_body is not None else body(fs, shape == "named")
        d.add(f"{vis(r)}struct S{b}{'' if b.rstrip().endswith('}') else ';'}")
    return d


# -- Parse, token_ast, token_kind

KIND = """#[token_kind]
#[derive(Debug)]
pub enum Kinds {
  Int(i64),
  Op(char),
  Unit,
}
type Token = laps::token::Token<Kinds>;
"""
AST = """token_ast! {
  #[derive(Debug)]
  pub macro @T<Kinds> {
    [int] => { kind: Kinds::Int(_), prompt: "integer" },
    [+] => { kind: Kinds::Op('+') },
    [-] => { kind: Kinds::Op('-') },
  }
}
"""


def parse(r, what, kind):
    d = Decl(what, kind)
    d.add("use laps::prelude::*;")
    d.add(KIND + AST + "struct Plain;")
    tys = ["@T![int]", "@T![+]", "@T![-]", "Option<@T![int]>", "Vec<@T![+]>", "Box<@T![-]>"]
    n = r.randint(1, 3)
    fs = [r.choice(tys) for _ in range(n)]
    attrs = ["#[token(Token)]"]
    if r.random() < 0.4:
        attrs.append("#[starts_with(@T![int])]")
    shape = r.choice(["named", "tuple", "enum"])
    arg = ""
    if what == "union":
        shape = "union"
    elif what == "two-attributes":
        arg = r.choice(["token", "starts_with"])
        attrs = [a for a in attrs if arg not in a]
        attrs += {"token": ["#[token(Token)]"] * 2, "starts_with": ["#[starts_with(@T![int])]", r.choice(["#[starts_with(@T![int])]", "#[starts_with(@T![+], @T![-])]"])]}[arg]
    elif what == "attribute-arguments":
        which, arg = r.choice([("token", ""), ("token", "5"), ("token", "Token, Token"), ("token", '"Token"'), ("token", "Token Token"),
                               ("starts_with", ""), ("starts_with", "A B"), ("starts_with", ","), ("starts_with", "@T![+] @T![-]")])
        attrs = [a for a in attrs if which not in a] + [f"#[{which}({arg})]"]
    elif what == "field-without-parse":
        i = r.randint(0, len(fs))
        ty = r.choice(["Plain", "u32", "Vec<Plain>", "Option<u8>", "(@T![+], Plain)"])
        fs.insert(i, ty)
        arg = (i, ty)
    for o in r.sample(OTHERS[:3], r.choice([0, 1])):
        attrs.append(o)
    r.shuffle(attrs)
    d.key = (what, shape, arg, tuple(attrs), tuple(fs))
    d.add("#[derive(Parse)]")
    for a in attrs:
        d.add(a)
    tup = "(" + ", ".join(fs) + ")"
    nam = " { " + ", ".join(f"{NAMES[i].lower()}: {t}" for i, t in enumerate(fs)) + " }"
    if shape == "union":
        d.add("union U { a: u8, b: u16 }")
    elif shape == "named":
        d.add(f"{vis(r)}struct S{nam}")
    elif shape == "tuple":
        d.add(f"{vis(r)}struct S{tup};")
    else:
        vs = [f"A{r.choice([tup, nam])}", "B(@T![-])"] + (["C(@T![int], @T![int])"] if r.random() < 0.5 else [])
        r.shuffle(vs)
        d.add(f"{vis(r)}enum E {{ {', '.join(vs)} }}")
    return d


ARMS = [
    ("int", "Kinds::Int(_)", "", '"integer"'), ("0", "Kinds::Int(i)", "if *i == 0", '"zero"'), ("+", "Kinds::Op('+')", "", ""),
    ("-", "Kinds::Op('-')", "", '"minus"'), ("->", "Kinds::Op('>')", "", ""), ("addop", "Kinds::Op('+' | '-')", "", '"plus or minus"'),
    ("unit", "Kinds::Unit", "", ""), ("not in", "| Kinds::Op('!') | Kinds::Op('?')", "", '"not in"'),
]


def token_ast(r, what, kind):
    d = Decl(what, kind)
    d.add("use laps::prelude::*;")
    d.add(KIND)
    arms = r.sample(ARMS, r.randint(1, 5))

    def arm(t, pat, guard, prompt):
        tail = f", prompt: {prompt}" + r.choice(["", ","]) if prompt else ""
        return f"[{t}] => {{ kind: {pat}{' ' + guard if guard else ''}{tail} }}"

    texts = [arm(*a) for a in arms]
    i = r.randrange(len(texts))
    t, pat, guard, prompt = arms[i]
    derives = r.choice(["#[derive(Debug)]", "#[derive(Debug, Clone, PartialEq)]", "/// Tokens.\n  #[derive(Debug)]"])
    v = r.choice(["", "pub ", "pub(crate) "])
    head = "macro @T<Kinds>"
    arg = ""
    bad_arm = False
    if what == "guard-without-prompt":
        texts[i] = f"[{t}] => {{ kind: Kinds::Int(i) {r.choice(['if *i > 3', 'if true', 'if i.is_positive()'])} }}"
    elif what == "arm":
        pairs = {
            "kind-name": f"[{t}] => {{ {r.choice(['kinds', 'token', 'pat', 'Kind'])}: {pat} }}",
            "prompt-name": f"[{t}] => {{ kind: {pat}, {r.choice(['prompts', 'name', 'Prompt', 'message'])}: \"x\" }}",
            "prompt-type": f"[{t}] => {{ kind: {pat}, prompt: {r.choice(['5', 'x', '', 'Some(1)'])} }}",
            "no-kind": f"[{t}] => {{ {pat} }}",
            "empty": f"[{t}] => {{ }}",
            "no-arrow": f"[{t}] {{ kind: {pat} }}",
            "parens": f"({t}) => {{ kind: {pat} }}",
            "bare": f"{t} => {{ kind: {pat} }}",
            "extra": f"[{t}] => {{ kind: {pat}, prompt: \"x\", {r.choice(['prompt: 3', 'more: 4', '5', 'kind: Kinds::Unit'])} }}",
            "no-colon": f"[{t}] => {{ kind = {pat} }}",
            "prompt-first": f"[{t}] => {{ prompt: \"x\", kind: {pat} }}",
        }
        arg = r.choice(sorted(pairs))
        texts[i] = pairs[arg]
        bad_arm = True
    elif what == "head":
        arg = head = r.choice(["macro @T", "macro @T<>", "macro @T<Kinds, Kinds>", "macro @T<'static>", "enum @T<Kinds>", "@T<Kinds>", "macro <Kinds>",
                               "macro @T(Kinds)", "macro @T<Kinds> -> u8", "macro @T<Kinds, 3>", "macro"])
    elif what == "no-arms":
        texts = []
    elif what == "separators":
        texts = [arm(*a) for a in r.sample(ARMS, r.randint(2, 5))]
    d.key = (what, arg, len(texts), i, v, derives, tuple(a[0] for a in arms))
    d.add("token_ast! {\n  " + derives + f"\n  {v}{head} {{")
    for k, x in enumerate(texts):
        sep = "," if k + 1 < len(texts) or r.random() < 0.5 else ""
        if what == "separators":
            sep = r.choice([";", "", "|"]) if k + 1 < len(texts) else ""
        d.add(f"    {x}{sep}", culprit=bad_arm and k == i)
    d.add("  }\n}")
    return d


def token_kind(r, what, kind):
    d = Decl(what, kind)
    d.add("use laps::prelude::*;")
    arg = ""
    attr = "#[token_kind]"
    vs = ["Int(i64)", "Str(String)", "Unit", "Pair(u8, u8)", "Named { a: u16 }", "Zero()", "Doc(f64)", "Ch(char)"]
    vs = r.sample(vs, r.randint(1, 6))
    item = "enum K { " + ", ".join(r.choice(["", "#[allow(dead_code)] ", "/// Words. \n"]) + v for v in vs) + " }"
    if what == "arguments":
        arg = r.choice(["u8", "a = 1", '"x"', "Debug", "name, other", "()"])
        attr = f"#[token_kind({arg})]"
    elif what == "not-an-enum":
        item = arg = r.choice(["struct K;", "struct K(u8);", "struct K { a: u8 }", "union K { a: u8 }", "fn k() {}", "mod k {}", "trait K {}", "type K = u8;", "const K: u8 = 1;", "impl Foo {}"])
    d.key = (what, arg, tuple(vs))
    d.add(attr)
    if what == "good" and r.random() < 0.5:
        d.add("#[derive(Debug)]")
    d.add(f"{vis(r) if not item.startswith('impl') else ''}{item}")
    return d


GOOD = [(tokenize, 4), (spanned, 2), (parse, 2), (token_ast, 2), (token_kind, 1)]
BAD = [(tokenize, w) for w in ("two-attributes", "two-eofs", "bytes-no-parser", "parser-on-unit", "payload-on-skip-or-eof", "variant-shape", "pattern-syntax",
                               "pattern-unsupported", "attribute-arguments", "no-pattern", "char-type", "enable-par", "two-head-attributes", "not-an-enum")]
BAD += [(spanned, w) for w in ("no-fields", "empty-enum", "union", "two-try-spans", "all-try-span")]
BAD += [(parse, w) for w in ("union", "two-attributes", "attribute-arguments")]
BAD += [(token_ast, w) for w in ("guard-without-prompt", "arm", "head", "no-arms", "separators")]
BAD += [(token_kind, w) for w in ("arguments", "not-an-enum")]
TYPE = [(spanned, "option-without-try-span"), (spanned, "field-without-span"), (parse, "field-without-parse")]


def generate(seed, case):
    """The declarations of one file: either faults for the macros or faults for the compiler, among good ones."""
    r = random.Random(f"{seed}/{case}")
    typed = case % 4 == 3
    ds = []
    for _ in range(60):
        x = r.random()
        if x < 0.35 or typed and x < 0.5:
            g = r.choices([g for g, _ in GOOD], [w for _, w in GOOD])[0]
            ds.append(g(r, "good", "good"))
        elif typed:
            g, w = r.choice(TYPE)
            ds.append(g(r, w, "type"))
        elif x < 0.39:
            ds.append(tokenize(r, "empty-pattern", "any"))
        else:
            g, w = r.choice(BAD)
            ds.append(g(r, w, "bad"))
    for i, d in enumerate(ds):
        d.text = d.text.replace("@T", f"Tok{i}")  # macros are exported under their names
    return ds


# ---------------------------------------------------------------- the compiler


def compile_file(args, path):
    """Gives the errors as (message, line, text); line 0 for errors without a place."""
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "-A", "warnings", "-o", path + ".rmeta", *args, path]
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
    errs = []
    for line in p.stderr.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("level") != "error" or m["message"].startswith("aborting due to"):
            continue
        places = [s for s in m["spans"] if s["is_primary"]] or m["spans"]
        note = " ".join(c["message"] for c in m["children"])
        ls = {s["line_start"] for s in places} | {e["span"]["line_start"] for s in places for e in [s["expansion"]] if e}
        errs.append((m["message"] + (" / " + note if note else ""), ls or {0}, m.get("rendered") or ""))
    if p.returncode not in (0, 1) or p.returncode == 1 and not errs:
        raise Inconclusive(f"rustc ended with {p.returncode} on {path}: {p.stderr[-2000:]}")
    return errs


def judge(args, dirname, case, ds):
    """Compiles the declarations of one case; gives (violations, counters)."""
    text = PRELUDE
    spans = []
    for i, d in enumerate(ds):
        text += f"mod m{i} {{\n"
        start = text.count("\n")
        text += d.text
        spans.append((start, text.count("\n")))
        text += "}\n"
    path = os.path.join(dirname, f"c{case}.rs")
    with open(path, "w") as f:
        f.write(text)
    errs = compile_file(args, path)
    mine = [[] for _ in ds]
    loose = []
    for msg, lines, full in errs:
        at = [i for i, (a, b) in enumerate(spans) if any(a < x <= b + 1 or x == a for x in lines)]
        for i in at:
            mine[i].append((msg, {x - spans[i][0] for x in lines}, full))
        if not at:
            loose.append(msg)
    out, n = [], {}
    for d, m in zip(ds, mine):
        n[d.kind] = n.get(d.kind, 0) + 1
        shown = lambda: f"declaration ({d.what}):\n{d.text}" + "".join("\n" + f for _, _, f in m[:2])
        if any("panicked" in x for x, _, _ in m):
            out.append("a macro panicked on a " + shown())
        elif d.kind == "good":
            if m:
                out.append("rejected a well-formed " + shown())
        elif d.kind in ("bad", "type"):
            if not m:
                # perhaps the compiler would object later than it got in this file
                one = os.path.join(dirname, f"c{case}-{d.what}.rs")
                head = PRELUDE + "mod m {\n"
                with open(one, "w") as f:
                    f.write(head + d.text + "}\n")
                m += [(msg, {x - head.count("\n") for x in lines}, full) for msg, lines, full in compile_file(args, one)]
                n["compiled alone"] = n.get("compiled alone", 0) + 1
            if not m:
                out.append("accepted a malformed " + shown())
            elif d.culprit_lines and not any(d.culprit_lines[0] <= x <= d.culprit_lines[1] for _, ls, _ in m for x in ls):
                out.append(f"the diagnostics do not point at the variant or rule at fault (lines {d.culprit_lines[0]} to {d.culprit_lines[1]}) of a " + shown())
            else:
                n["errors placed"] = n.get("errors placed", 0) + 1
    if loose:
        n["errors elsewhere"] = n.get("errors elsewhere", 0) + len(loose)
    return out, n, loose


def run(cases_quick, cases_thorough):
    def go(prop, tier, seed, r, case):
        args = artifacts()
        tmp = os.path.join(TARGET, "run", f"{prop}-{os.getpid()}")
        os.makedirs(tmp, exist_ok=True)
        todo = range(cases_quick if tier == "quick" else cases_thorough)
        if case is not None and case >= 0:
            for d in generate(seed, case):
                print(f"// {d.kind}: {d.what}\n{d.text}")
            todo = [case]
        start, limit = time.time(), 400 if tier == "quick" else 5000
        r.rule = ("each case is a file of 60 declarations, well-formed ones and ones with exactly one fault, each in a module of its own; distinct and "
                  "non-trivial: declarations with a fault that differ in the fault, its place and what surrounds it")
        keys = set()

        def one(c):
            if time.time() - start > limit:
                return c, None, None
            ds = generate(seed, c)
            return c, ds, judge(args, tmp, c, ds)

        try:
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for c, ds, res in ex.map(one, todo):
                    if ds is None:
                        r.extra["stopped_by_time_limit"] = True
                        continue
                    out, n, loose = res
                    r.evaluations += len(ds)
                    keys |= {hashlib.sha1(repr(d.key).encode()).digest()[:8] for d in ds if d.kind != "good"}
                    for k, v in n.items():
                        r.counters[k] = r.counters.get(k, 0) + v
                    for d in ds:
                        k = f"fault: {d.what}" if d.kind != "good" else "well-formed"
                        r.counters[k] = r.counters.get(k, 0) + 1
                    r.samples += [d.text for d in ds if d.kind == "bad"][:1]
                    r.violations += [(m, {"case": c}) for m in out]
                    r.extra["cases"] = r.extra.get("cases", 0) + 1
        except subprocess.TimeoutExpired as e:
            raise Inconclusive(str(e))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        r.distinct = len(keys)

    return go
