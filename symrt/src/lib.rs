//! Interface between harnesses and the symbolic executor. The functions are
//! external on purpose: the optimiser must not see through them.
mod raw {
    unsafe extern "C" {
        pub fn __sym_is_symbolic_run() -> i32;
        pub fn __sym_var(n: *const u8, len: u64, lo: i64, hi: i64) -> i64;
        pub fn __sym_assume(c: i32);
        pub fn __sym_check(c: i32, l: *const u8, n: u64, known: i32, kl: *const u8, kn: u64);
        pub fn __sym_cover(l: *const u8, n: u64);
        pub fn __sym_panic_ok(v: i32);
        pub fn __sym_panic_known(c: i32, l: *const u8, n: u64);
        pub fn __sym_obs(l: *const u8, n: u64, v: i64);
        pub fn __sym_end();
        pub fn __sym_conc(v: i64) -> i64;
        pub fn __sym_is_sym(v: i64) -> i32;
        pub fn __sym_arg(i: i64) -> i64;
        pub fn __sym_unplace(v: i64) -> i64;
        pub fn __sym_unplace_f(v: u64, w: i64) -> u64;
        pub fn __sym_print(l: *const u8, n: u64);
        pub fn __sym_print_val(l: *const u8, n: u64, v: i64);
        pub fn __sym_file(p: *const u8, n: u64, d: *const u8, l: u64);
    }
}
/// true under the symbolic executor, false in a native replay
pub fn symbolic() -> bool { unsafe { raw::__sym_is_symbolic_run() != 0 } }
/// a fresh input in lo..=hi
pub fn int(name: &str, lo: i64, hi: i64) -> i64 { unsafe { raw::__sym_var(name.as_ptr(), name.len() as u64, lo, hi) } }
pub fn size(name: &str, lo: usize, hi: usize) -> usize { int(name, lo as i64, hi as i64) as usize }
pub fn any_i64(name: &str) -> i64 { int(name, i64::MIN, i64::MAX) }
pub fn any_u8(name: &str) -> u8 { int(name, 0, 255) as u8 }
pub fn any_u32(name: &str) -> u32 { int(name, 0, u32::MAX as i64) as u32 }
pub fn flag(name: &str) -> bool { int(name, 0, 1) != 0 }
pub fn any_f32(name: &str) -> f32 { f32::from_bits(any_u32(name)) }
pub fn any_f64(name: &str) -> f64 { f64::from_bits(any_i64(name) as u64) }
/// a fresh input in lo..=hi, case-split so that it is concrete on every path
pub fn pick(name: &str, lo: i64, hi: i64) -> i64 { conc(int(name, lo, hi)) }
pub fn assume(c: bool) { unsafe { raw::__sym_assume(c as i32) } }
pub fn check(c: bool, label: &str) { check_known(c, label, false, "") }
/// a failure inside `region` is the known finding `id`, outside it a violation
pub fn check_known(c: bool, label: &str, region: bool, id: &str) { unsafe { raw::__sym_check(c as i32, label.as_ptr(), label.len() as u64, region as i32, id.as_ptr(), id.len() as u64) } }
/// reachability witness: the driver fails the check when no path gets here
pub fn cover(label: &str) { unsafe { raw::__sym_cover(label.as_ptr(), label.len() as u64) } }
/// whether a panic from here on is an accepted rejection
pub fn panic_ok(v: bool) { unsafe { raw::__sym_panic_ok(v as i32) } }
/// a panic from here on is the known finding `id` for inputs inside `region`
pub fn panic_known(region: bool, id: &str) { unsafe { raw::__sym_panic_known(region as i32, id.as_ptr(), id.len() as u64) } }
/// a computed value, compared between the symbolic run and native replays
pub fn obs(label: &str, v: i64) { unsafe { raw::__sym_obs(label.as_ptr(), label.len() as u64, v) } }
pub fn end() { unsafe { raw::__sym_end() } }
pub fn conc(v: i64) -> i64 { unsafe { raw::__sym_conc(v) } }
pub fn is_sym(v: i64) -> bool { unsafe { raw::__sym_is_sym(v) != 0 } }
pub fn arg(i: i64) -> i64 { unsafe { raw::__sym_arg(i) } }
/// value behind an integer found in generated text
pub fn unplace(v: i64) -> i64 { unsafe { raw::__sym_unplace(v) } }
pub fn unplace_f32(v: f64) -> f32 { f32::from_bits(unsafe { raw::__sym_unplace_f(v.to_bits(), 32) } as u32) }
pub fn unplace_f64(v: f64) -> f64 { f64::from_bits(unsafe { raw::__sym_unplace_f(v.to_bits(), 64) }) }
pub fn print(s: &str) { unsafe { raw::__sym_print(s.as_ptr(), s.len() as u64) } }
pub fn print_val(s: &str, v: i64) { unsafe { raw::__sym_print_val(s.as_ptr(), s.len() as u64, v) } }
/// register a file of the simulated file system (no effect natively)
pub fn file(path: &str, data: &[u8]) { unsafe { raw::__sym_file(path.as_ptr(), path.len() as u64, data.as_ptr(), data.len() as u64) } }

#[macro_export]
macro_rules! entries {
    ($($name:ident => $body:path;)*) => {
        $(#[unsafe(no_mangle)] #[inline(never)] pub extern "C" fn $name() { $body() })*
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            match a.as_str() { $(stringify!($name) => $name(),)* _ => { eprintln!("no such entry {a}"); std::process::exit(2) } }
        }
    };
}
