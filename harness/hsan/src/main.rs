//! Workloads of M01 (undefined behaviour: run by Miri and under AddressSanitizer) and M02 (data
//! races: run by Miri with random schedules and under ThreadSanitizer).

mod mem;
mod thr;

use vmon::Prop;

fn main() {
  vmon::worker_main(
    &[
      Prop {
        id: "M01",
        run: mem::run,
        rule: "one batch of operations on a reader (random bytes, chunking, failures, sources that lie about counts), on symbols, on compiled patterns with boundary symbols, on a derived lexer and parser, on literals or on diagnostics, run under an interpreter or sanitizer; non-trivial: something was delivered or matched",
        alloc_mib: 0,
        cpu_s: 0,
      },
      Prop {
        id: "M02",
        run: thr::run,
        rule: "one set of threads that log through shared spans, lex and parse with shared tables, hand tokens and trees over, match with shared matchers and construct matchers at the same time (serially and in parallel), with random delays, run under a race detector; non-trivial: at least two threads overlapped",
        alloc_mib: 0,
        cpu_s: 600,
      },
    ],
    false,
  );
}
