//! The file system seen by the code under test, both under the executor and in
//! native replays: these definitions take precedence over libc's. Every
//! non-empty path exists; "/m/l" is a symbolic link to "/mo", "/m/j" to "/o", "/m/k" to
//! "/m/s". A read below the root returns registered contents, or OUTSIDE.
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_long};
pub struct Fs { files: Vec<(Vec<u8>, Vec<u8>)>, pub data: Vec<u8>, fds: Vec<(usize, i64)>, pub opened: Vec<Vec<u8>>, pub cwd: &'static [u8], pub missing: bool, pub nommap: bool, pub root: &'static [u8] }
static mut FS: Option<Fs> = None;
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs { unsafe { FS.get_or_insert_with(|| Fs { files: vec![], data: vec![], fds: vec![], opened: vec![], cwd: b"/m", missing: false, nommap: false, root: b"/m" }) } }
pub fn put(path: &[u8], data: Vec<u8>) { fs().files.push((path.to_vec(), data)); }
const DATA: usize = usize::MAX;
unsafe extern "C" { fn __errno_location() -> *mut c_int; fn malloc(n: usize) -> *mut c_void; fn syscall(n: i64, a: usize, b: usize, c: i64, d: i64, e: i64, f: i64) -> i64; }
fn fail(e: c_int) -> c_int { unsafe { *__errno_location() = e; } -1 }
fn cstr(p: *const c_char) -> Vec<u8> { let mut v = vec![]; let mut i = 0; loop { let b = unsafe { *p.add(i) } as u8; if b == 0 { return v; } v.push(b); i += 1; } }
/// reference resolution: absolute, no ".", "..", "//" or symbolic link left
pub fn resolve(p: &[u8]) -> Option<Vec<u8>> {
    if p.is_empty() { return None; }
    let mut cur: Vec<Vec<u8>> = vec![];
    if p[0] != b'/' { for c in fs().cwd.split(|b| *b == b'/') { if !c.is_empty() { cur.push(c.to_vec()); } } }
    let mut comp: Vec<u8> = vec![];
    let n = p.len();
    for i in 0..=n {
        if i < n && p[i] != b'/' { comp.push(p[i]); continue; }
        match comp.len() {
            0 => {}
            1 if comp[0] == b'.' => {}
            2 if comp[0] == b'.' && comp[1] == b'.' => { cur.pop(); }
            1 => {
                let inm = cur.len() == 1 && cur[0] == b"m";
                if inm && comp[0] == b'l' { cur = vec![b"mo".to_vec()]; } // shares a prefix with "/m"
                else if inm && comp[0] == b'j' { cur = vec![b"o".to_vec()]; }
                else if inm && comp[0] == b'k' { cur.push(b"s".to_vec()); }
                else { cur.push(comp.clone()); }
            }
            _ => cur.push(comp.clone()),
        }
        comp.clear();
    }
    let mut o = vec![];
    for c in cur { o.push(b'/'); o.extend_from_slice(&c); }
    if o.is_empty() { o.push(b'/'); }
    Some(o)
}
pub fn inside(p: &[u8]) -> bool { match resolve(p) { None => true, Some(r) => { let root = fs().root; r.len() >= root.len() && &r[..root.len()] == root && (r.len() == root.len() || r[root.len()] == b'/') } } }
#[unsafe(no_mangle)] pub extern "C" fn open64(p: *const c_char, _fl: c_int, _m: c_int) -> c_int {
    let path = cstr(p);
    if path.is_empty() { return fail(2); }
    let f = fs();
    let known = f.files.iter().position(|x| x.0.len() == path.len() && x.0 == path);
    if known.is_none() { f.opened.push(path); if f.missing { return fail(2); } }
    f.fds.push((known.unwrap_or(DATA), 0));
    f.fds.len() as c_int - 1 + 500
}
fn bytes(fd: c_int) -> &'static Vec<u8> { let f = fs(); let k = f.fds[(fd - 500) as usize].0; if k == DATA { &f.data } else { &f.files[k].1 } }
#[unsafe(no_mangle)] pub unsafe extern "C" fn read(fd: c_int, p: *mut u8, n: usize) -> isize {
    if fd < 500 { return fail(9) as isize; }
    let b = bytes(fd);
    let pos = &mut fs().fds[(fd - 500) as usize].1;
    let mut k = 0;
    while k < n && *pos < b.len() as i64 { unsafe { *p.add(k) = b[*pos as usize]; } k += 1; *pos += 1; }
    k as isize
}
#[unsafe(no_mangle)] pub extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if fd < 500 { return fail(9) as i64; }
    let len = bytes(fd).len() as i64;
    let pos = &mut fs().fds[(fd - 500) as usize].1;
    let base = match wh { 0 => 0, 1 => *pos, _ => len };
    match base.checked_add(off) { Some(x) if x >= 0 => { *pos = x; x } _ => fail(22) as i64 }
}
#[unsafe(no_mangle)] pub extern "C" fn close(_fd: c_int) -> c_int { 0 }
#[unsafe(no_mangle)] pub unsafe extern "C" fn statx(_d: c_int, _p: *const c_char, _f: c_int, _m: u32, _b: *mut u8) -> c_int { fail(38) }
#[unsafe(no_mangle)] pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut u8) -> c_int {
    if fd < 500 { return fail(9); }
    let n = bytes(fd).len();
    unsafe { std::ptr::write_bytes(st, 0, 144); *(st.add(24) as *mut u32) = 0o100644; *(st.add(48) as *mut i64) = n as i64; }
    0
}
unsafe fn statpath(p: *const c_char, st: *mut u8) -> c_int {
    let path = cstr(p);
    if path.is_empty() || fs().missing { return fail(2); }
    let n = fs().data.len();
    unsafe { std::ptr::write_bytes(st, 0, 144); *(st.add(24) as *mut u32) = 0o100644; *(st.add(48) as *mut i64) = n as i64; }
    0
}
#[unsafe(no_mangle)] pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut u8) -> c_int { unsafe { statpath(p, st) } }
#[unsafe(no_mangle)] pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut u8) -> c_int { unsafe { statpath(p, st) } }
#[unsafe(no_mangle)] pub unsafe extern "C" fn mmap64(_a: *mut c_void, len: usize, _p: c_int, _f: c_int, fd: c_int, off: i64) -> *mut c_void {
    if fd < 500 { return unsafe { syscall(9, _a as usize, len, _p as i64, _f as i64, fd as i64, off) } as *mut c_void; }
    if fs().nommap && fs().fds[(fd - 500) as usize].0 == DATA { return fail(19) as isize as *mut c_void; }
    let b = bytes(fd);
    let q = unsafe { malloc(len + 1) } as *mut u8;
    for i in 0..len { let k = off as usize + i; unsafe { *q.add(i) = if k < b.len() { b[k] } else { 0 }; } }
    q as *mut c_void
}
#[unsafe(no_mangle)] pub extern "C" fn munmap(_a: *mut c_void, _l: usize) -> c_int { 0 }
#[unsafe(no_mangle)] pub extern "C" fn sysconf(n: c_int) -> c_long { if n == 30 { 4096 } else { -1 } }
#[unsafe(no_mangle)] pub extern "C" fn realpath(p: *const c_char, _out: *mut c_char) -> *mut c_char {
    let path = cstr(p);
    if fs().missing && !path.is_empty() && path != fs().root { fail(2); return std::ptr::null_mut(); }
    match resolve(&path) {
        None => { fail(2); std::ptr::null_mut() }
        Some(r) => { let q = unsafe { malloc(r.len() + 1) } as *mut u8; for (i, b) in r.iter().enumerate() { unsafe { *q.add(i) = *b; } } unsafe { *q.add(r.len()) = 0; } q as *mut c_char }
    }
}
