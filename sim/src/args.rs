//! chopper reads its options from the process arguments. The binary is started with many padding
//! arguments; a simulated run overwrites the argv slots (std stops at the first null pointer).
use std::ffi::CString;
use std::os::raw::{c_char, c_int};

static mut ARGC: c_int = 0;
static mut ARGV: *mut *const c_char = std::ptr::null_mut();

extern "C" fn grab(argc: c_int, argv: *mut *const c_char, _env: *const *const c_char) {
    unsafe {
        ARGC = argc;
        ARGV = argv;
    }
}
#[used]
#[link_section = ".init_array.00098"]
static GRAB: extern "C" fn(c_int, *mut *const c_char, *const *const c_char) = grab;

pub const PAD: &str = "__pad";
pub const PAD_N: usize = 420;

pub fn set_args(args: &[String]) {
    unsafe {
        assert!((args.len() as c_int) < ARGC, "too many simulated arguments ({})", args.len());
        for (i, a) in args.iter().enumerate() {
            *ARGV.add(i) = CString::new(a.as_str()).unwrap().into_raw();
        }
        *ARGV.add(args.len()) = std::ptr::null();
    }
}
