// Layer names as text: name_to_string and string_to_name.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::io;
verus! {
global size_of usize == 8;
@@include text.inc

@@include names.inc
@@include names_fn.inc
fn main() {}
}
