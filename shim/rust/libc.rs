#![allow(non_camel_case_types)]
pub use std::os::raw::*;
pub type size_t = usize;
pub type ssize_t = isize;
pub const EXIT_SUCCESS: c_int = 0;
pub const EXIT_FAILURE: c_int = 1;
