//! C17: the same results over inputs of hundreds of thousands of elements, on the stack a thread has by default.
mod lists;
mod shapes;
use vcommon::{facet, Property};

const IDS: &[&str] = &["C17"];

fn property(id: &str) -> Option<Property> {
    (id == "C17").then(|| Property {
    id: "C17",
    rule: "Inputs of up to 300,000 generated elements (12,000,000 characters at most), complete or spoilt at one place, under every \
           repetition, list and chain of the library over nine kinds of element, then under grammars made of them; value and consumed \
           length against a closed form of the generated list, on a thread of 2 MB of stack. Non-trivial = more than 1,000 elements.",
    assumptions: vec![
      "elements do not recurse; nesting deeper than the stack is out of scope",
      "the harness is built with opt-level 1: an unoptimised build uses more stack per call",
    ],
    facets: vec![
      facet("repetitions", 300, 6000, lists::case(lists::Group::Many), lists::check_char).on_default_stack(),
      facet("lists", 300, 6000, lists::case(lists::Group::Sep), lists::check_char).on_default_stack(),
      facet("chains", 300, 6000, lists::case(lists::Group::Chain), lists::check_char).on_default_stack(),
      facet("bytes", 200, 4000, lists::case(lists::Group::All), lists::check_byte).on_default_stack(),
      facet("takes", 200, 4000, shapes::take_case(), shapes::take_check).on_default_stack(),
      facet("rows", 150, 3000, shapes::rows_case(), shapes::rows_check).on_default_stack(),
      facet("texts", 100, 2000, shapes::text_case(), shapes::text_check).on_default_stack(),
    ],
  })
}

fn main() {
    vcommon::run_main(property, IDS)
}
