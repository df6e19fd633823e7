//! Monitors of readers, spans, diagnostics, token streams and literal helpers.

mod diag;
mod lits;
mod readers;
mod spans;
mod toks;

#[global_allocator]
static ALLOC: vmon::CountingAlloc = vmon::CountingAlloc;

fn main() {
  // diagnostics without colours; what the code under test prints is only looked at on purpose
  std::env::set_var("NO_COLOR", "1");
  if !std::env::args().any(|a| a == "--case") {
    diag::quiet();
  }
  let mut props = Vec::new();
  props.extend(readers::props());
  props.extend(lits::props());
  props.extend(toks::props());
  props.extend(diag::props());
  props.extend(spans::props());
  vmon::worker_main(&props, false)
}
