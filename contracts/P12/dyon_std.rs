// P12: the functions that make and read text.
use super::*;
use crate::verif::*;
//@include rt.inc.rs
pub fn load_text(t: &str) -> Result<Variable, String> { data::load_data(t) }
