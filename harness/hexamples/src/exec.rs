//! Runs an example program.

use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

extern "C" {
  fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

pub struct Out {
  pub code: i32,
  pub stdout: String,
  pub stderr: String,
}

pub const CPU_S: u64 = 20;

/// `Err`: it crashed.
pub fn run(name: &str, args: &[&str], input: &[u8]) -> Result<Out, String> {
  let exe = std::env::current_exe().unwrap().parent().unwrap().join(name);
  let mut c = Command::new(exe);
  c.args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0").env("NO_COLOR", "1");
  unsafe {
    c.pre_exec(|| {
      // CPU seconds, address space, core file
      setrlimit(0, &[CPU_S, CPU_S + 1]);
      setrlimit(9, &[4 << 30, 4 << 30]);
      setrlimit(4, &[0, 0]);
      Ok(())
    });
  }
  let mut p = c.spawn().unwrap_or_else(|e| vmon::fatal(&format!("harness: {name} does not start: {e}")));
  let mut stdin = p.stdin.take().unwrap();
  let input = input.to_vec();
  let feed = std::thread::spawn(move || {
    let _ = stdin.write_all(&input);
  });
  let o = p.wait_with_output().unwrap_or_else(|e| vmon::fatal(&format!("harness: {name}: {e}")));
  let _ = feed.join();
  let text = |b: Vec<u8>| String::from_utf8(b).map_err(|_| format!("{name} prints invalid UTF-8"));
  let (stdout, stderr) = (text(o.stdout)?, text(o.stderr)?);
  match o.status.signal() {
    Some(24) => return Err(format!("{name} is still running after {CPU_S} s of CPU time")),
    Some(s) => return Err(format!("{name} was ended by signal {s}: {}", tail(&stderr))),
    None => {}
  }
  let code = o.status.code().unwrap();
  if code == 101 && stderr.contains("panicked at") {
    return Err(format!("{name} panicked: {}", tail(&stderr)));
  }
  Ok(Out { code, stdout, stderr })
}

pub fn tail(s: &str) -> String {
  let n = s.chars().count();
  s.chars().skip(n.saturating_sub(400)).collect()
}
