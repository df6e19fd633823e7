//! Monitors of the stages of the regex compiler (X08) and of the automata they are made of (X09).

mod fa;
#[path = "../../hregex/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../hregex/src/re.rs"]
#[allow(dead_code)]
mod re;
mod stages;

use vmon::{CountingAlloc, Prop};

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

fn main() {
  vmon::worker_main(
    &[
      Prop { id: "X08", run: stages::x08, rule: "random expressions built directly (over a 12-symbol type, bytes and characters; unsorted, overlapping and adjacent ranges, nested groups, tags) and from patterns; all stages walked together, every symbol group from every reached joint state; non-trivial: at least one word accepted and one refused", alloc_mib: 16384, cpu_s: 60 },
      Prop { id: "X09", run: fa::x09, rule: "random histories of operations on automata of both kinds against sets of states and edges, then closures over random state sets and the textual dump read back; every history is non-trivial", alloc_mib: 4096, cpu_s: 30 },
    ],
    false,
  );
}
