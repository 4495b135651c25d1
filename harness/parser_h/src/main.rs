mod extra;
mod gen;
mod grammars;
mod laws;
mod model;
mod props;
fn main() {
  vcommon::run_main(props::property, props::IDS)
}
