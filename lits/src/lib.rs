pub use {fixnum, fixnum_narrow};
