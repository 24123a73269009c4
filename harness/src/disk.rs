//! A disk with one file and a standard output, with chosen failures: the C library calls that the
//! standard library makes to write a file. The symbolic executor resolves these calls to this module; the
//! native replay links it in place of the C library's and passes other files through.
#![allow(non_snake_case, static_mut_refs, clippy::all)]
type I = i32;
type C = *const u8;

/// Outcome of a `write` call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum W { Full, Half, One, Zero, Interrupted, Broken }
/// Outcome of an `open` call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum O { Fine, Missing, Denied, Interrupted }

pub struct Disk { pub active: bool, pub file: Option<Vec<u8>>, pub stdout: Vec<u8>, pub opens: Vec<O>, pub writes: Vec<W>, pub opened: u32, pub at: usize, pub failed: bool, pub writable: bool, pub other: bool, pub append: bool, pub capture: bool, pub dirs: Vec<Vec<u8>>, pub path: Vec<u8> }
pub static mut D: Disk = Disk { active: false, file: None, stdout: vec![], opens: vec![], writes: vec![], opened: 0, at: 0, failed: false, writable: false, other: false, append: false, capture: false, dirs: vec![], path: vec![] };
pub const PATH: &str = "/verif-disk/out.rs";
const ROOT: &[u8] = b"/verif-disk";
const FD: I = 1 << 20;

/// The next `open` and `write` calls meet these outcomes, then everything works.
pub fn insert(file: Option<Vec<u8>>, opens: Vec<O>, writes: Vec<W>) { unsafe { D = Disk { active: true, file, stdout: vec![], opens, writes, opened: 0, at: 0, failed: false, writable: false, other: false, append: false, capture: false, dirs: vec![], path: PATH.as_bytes().to_vec() } } }
pub fn file() -> Option<Vec<u8>> { unsafe { D.file.clone() } }
/// The path of the file.
pub fn place(p: &str) { unsafe { D.path = p.as_bytes().to_vec(); } }
/// An outcome that cannot be recovered from was met.
pub fn failed() -> bool { unsafe { D.failed } }
pub fn opened() -> u32 { unsafe { D.opened } }

#[cfg(verif_sym)]
static mut ERRNO: I = 0;
#[cfg(verif_sym)]
pub unsafe extern "C" fn __errno_location() -> *mut I { std::ptr::addr_of_mut!(ERRNO) }
#[cfg(not(verif_sym))]
extern "C" { fn __errno_location() -> *mut I; fn syscall(n: i64, ...) -> i64; }

unsafe fn fail(e: I) -> isize { *__errno_location() = e; -1 }
unsafe fn cstr(p: C) -> &'static [u8] { let mut n = 0; while *p.add(n) != 0 { n += 1; } std::slice::from_raw_parts(p, n) }

const WRONLY: I = 1;
const RDWR: I = 2;
const CREAT: I = 0o100;
const EXCL: I = 0o200;
const TRUNC: I = 0o1000;
const APPEND: I = 0o2000;

#[cfg_attr(not(verif_sym), no_mangle)]
pub unsafe extern "C" fn open64(path: C, flags: I, _mode: u32) -> I {
    if !D.active || cstr(path) != D.path.as_slice() {
        #[cfg(not(verif_sym))]
        return through(syscall(257, -100i64, path, flags as i64, _mode as i64)) as I;
        #[cfg(verif_sym)]
        return fail(2) as I;
    }
    if !is_dir(parent(cstr(path))) { D.failed = true; return fail(2) as I; }
    let o = if D.opens.is_empty() { O::Fine } else { D.opens.remove(0) };
    match o {
        O::Missing => { D.failed = true; return fail(2) as I; }
        O::Denied => { D.failed = true; return fail(13) as I; }
        O::Interrupted => return fail(4) as I,
        O::Fine => {}
    }
    if D.file.is_some() && flags & EXCL != 0 { return fail(17) as I; }
    if D.file.is_none() { if flags & CREAT == 0 { return fail(2) as I; } D.file = Some(vec![]); }
    if flags & TRUNC != 0 { D.file = Some(vec![]); }
    D.opened += 1;
    D.at = 0;
    D.append = flags & APPEND != 0;
    D.writable = flags & (WRONLY | RDWR) != 0;
    FD
}
#[cfg_attr(not(verif_sym), no_mangle)]
pub unsafe extern "C" fn write(fd: I, p: C, n: usize) -> isize {
    if !D.active || (fd != FD && !(fd == 1 && D.capture)) {
        #[cfg(not(verif_sym))]
        return through(syscall(1, fd as i64, p, n)) as isize;
        #[cfg(verif_sym)]
        return n as isize;
    }
    if fd == FD && !D.writable { D.failed = true; return fail(9); }
    let o = if D.writes.is_empty() { W::Full } else { D.writes.remove(0) };
    let n = match o {
        W::Full => n,
        W::Half => (n + 1) / 2,
        W::One => if n > 0 { 1 } else { 0 },
        W::Zero => { if n > 0 { D.failed = true; } 0 }
        W::Interrupted => return fail(4),
        W::Broken => { D.failed = true; return fail(28); }
    };
    let b = std::slice::from_raw_parts(p, n);
    if fd == 1 { D.stdout.extend_from_slice(b); return n as isize; }
    let f = D.file.as_mut().unwrap();
    if D.append { D.at = f.len(); }
    let m = std::cmp::min(f.len() - D.at, n);
    f[D.at..D.at + m].copy_from_slice(&b[..m]);
    f.extend_from_slice(&b[m..]);
    D.at += n;
    n as isize
}
#[cfg_attr(not(verif_sym), no_mangle)]
pub unsafe extern "C" fn close(fd: I) -> I {
    if D.active && fd == FD { return 0; }
    #[cfg(not(verif_sym))]
    return through(syscall(3, fd as i64)) as I;
    #[cfg(verif_sym)]
    return 0;
}
#[cfg_attr(not(verif_sym), no_mangle)]
pub unsafe extern "C" fn fsync(fd: I) -> I {
    if D.active && fd == FD { return 0; }
    #[cfg(not(verif_sym))]
    return through(syscall(74, fd as i64)) as I;
    #[cfg(verif_sym)]
    return 0;
}
#[cfg_attr(not(verif_sym), no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: I, n: i64) -> I {
    if D.active && fd == FD { if let Some(f) = &mut D.file { f.resize(n as usize, 0); } return 0; }
    #[cfg(not(verif_sym))]
    return through(syscall(77, fd as i64, n)) as I;
    #[cfg(verif_sym)]
    return 0;
}
#[cfg_attr(not(verif_sym), no_mangle)]
pub unsafe extern "C" fn lseek64(fd: I, off: i64, whence: I) -> i64 {
    if D.active && fd == FD {
        let base = match whence { 0 => 0, 1 => D.at as i64, _ => D.file.as_ref().map(|f| f.len()).unwrap_or(0) as i64 };
        D.at = (base + off) as usize;
        return D.at as i64;
    }
    #[cfg(not(verif_sym))]
    return through(syscall(8, fd as i64, off, whence as i64));
    #[cfg(verif_sym)]
    return 0;
}
#[cfg(not(verif_sym))]
unsafe fn through(r: i64) -> i64 { r }
/// Directories: `/verif-disk` exists.
#[cfg_attr(not(verif_sym), no_mangle)]
pub unsafe extern "C" fn mkdir(path: C, _mode: u32) -> I {
    let p = cstr(path);
    if !D.active || !p.starts_with(ROOT) {
        #[cfg(not(verif_sym))]
        return through(syscall(83, path, _mode as i64)) as I;
        #[cfg(verif_sym)]
        return fail(2) as I;
    }
    if is_dir(p) { return fail(17) as I; }
    if !is_dir(parent(p)) { return fail(2) as I; }
    D.dirs.push(p.to_vec());
    0
}
unsafe fn is_dir(p: &[u8]) -> bool { p == ROOT || D.dirs.iter().any(|d| d == p) }
fn parent(p: &[u8]) -> &[u8] { let mut i = p.len(); while i > 0 && p[i - 1] != b'/' { i -= 1; } &p[..if i > 0 { i - 1 } else { 0 }] }
/// What has been written to the standard output since `capture`.
pub fn capture() { unsafe { D.capture = true; } }
pub fn stdout() -> Vec<u8> { unsafe { D.capture = false; D.stdout.clone() } }
/// `statx` of the directories and the file.
pub unsafe fn stat(path: C, buf: *mut u8) -> I {
    let p = cstr(path);
    let dir = is_dir(p);
    if !dir && !(p == D.path.as_slice() && D.file.is_some()) { return fail(2) as I; }
    std::ptr::write_bytes(buf, 0, 256);
    (buf as *mut u32).write(0x7ff);
    (buf.add(16) as *mut u32).write(1);
    (buf.add(28) as *mut u16).write(if dir { 0o040755 } else { 0o100644 });
    if let Some(f) = &D.file { if !dir { (buf.add(40) as *mut u64).write(f.len() as u64); } }
    0
}
#[cfg(not(verif_sym))]
#[no_mangle]
pub unsafe extern "C" fn statx(fd: I, path: C, flags: I, mask: u32, buf: *mut u8) -> I {
    if D.active && cstr(path).starts_with(ROOT) { return stat(path, buf); }
    through(syscall(332, fd as i64, path, flags as i64, mask as i64, buf)) as I
}
