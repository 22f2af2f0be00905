//! A file system of a few files in memory, below `/vfs/`, on which every call may be cut short,
//! interrupted or fail.  These functions take the place of libc's in the code under test: linked
//! in statically, the standard library calls them.  Everything outside `/vfs/` is left to the
//! system in native replays, and does not exist in the executor.
use crate::rsx::*;

pub struct File { pub name: Vec<u8>, pub data: Vec<u8>, pub live: bool }
struct Open { file: usize, pos: usize, append: bool, can_read: bool, can_write: bool }
struct State { on: bool, out: Vec<u8>, err: Vec<u8>, files: Vec<File>, dirs: Vec<Vec<u8>>, open: Vec<Option<Open>>, left: usize, hard: bool, calls: usize }
static mut FS: State = State { on: false, out: vec![], err: vec![], files: vec![], dirs: vec![], open: vec![], left: 0, hard: false, calls: 0 };
const BASE: i32 = 1000;
const ENOENT: i32 = 2;
const EINTR: i32 = 4;
const EIO: i32 = 5;
const EBADF: i32 = 9;
const EACCES: i32 = 13;
const EISDIR: i32 = 21;
const ENOSPC: i32 = 28;
const EINVAL: i32 = 22;

fn fs() -> &'static mut State { unsafe { &mut *std::ptr::addr_of_mut!(FS) } }
extern "C" { fn __errno_location() -> *mut i32; }
fn fail(e: i32) -> i32 { unsafe { *__errno_location() = e } -1 }

/// Start with these files; up to `faults` calls deviate from doing all that was asked.
pub fn start(files: &[(&str, &[u8])], faults: usize) {
    let f = files.iter().map(|(n, d)| File { name: n.as_bytes().to_vec(), data: d.to_vec(), live: true }).collect();
    *fs() = State { on: true, out: vec![], err: vec![], files: f, dirs: vec![], open: vec![], left: faults, hard: false, calls: 0 };
}
/// The content of a file, if it exists.
pub fn content(name: &str) -> Option<Vec<u8>> { content_of(name.as_bytes()) }
pub fn content_of(name: &[u8]) -> Option<Vec<u8>> { fs().files.iter().find(|f| f.live && f.name == name).map(|f| f.data.clone()) }
/// Did some call fail for good?
pub fn failed() -> bool { fs().hard }
/// the first file has this name, whatever its bytes
pub fn name_first(n: &[u8]) { fs().files[0].name = n.to_vec() }
pub fn files() -> usize { fs().files.iter().filter(|f| f.live).count() }
/// what has been written to standard output and standard error
pub fn printed() -> (&'static [u8], &'static [u8]) { (&fs().out, &fs().err) }
fn print(fd: i32, b: &[u8]) {
    if !fs().on { return }
    if fd == 1 { fs().out.extend_from_slice(b) }
    if fd == 2 { fs().err.extend_from_slice(b) }
}
pub fn still_open() -> usize { fs().open.iter().filter(|o| o.is_some()).count() }
pub fn deviations(faults: usize) -> usize { faults - fs().left }

/// which of n ways this call goes; 0 is the ordinary one
fn way(n: usize) -> usize {
    let s = fs();
    s.calls += 1;
    if s.left == 0 { return 0 }
    let w = pick(n);
    if w > 0 { s.left -= 1 }
    w
}
fn hard(e: i32) -> i32 { fs().hard = true; fail(e) }

unsafe fn path(p: *const u8) -> Option<Vec<u8>> {
    if !fs().on || p.is_null() { return None }
    let mut v = vec![];
    let mut i = 0;
    while *p.add(i) != 0 { v.push(*p.add(i)); i += 1 }
    // the working directory is /vfs
    let v = if v.starts_with(b"/vfs/") { v } else if v.starts_with(b"/") { return None } else { [b"/vfs/", &v[..]].concat() };
    let Some(d) = v[5..].iter().rposition(|c| *c == b'/') else { return Some(v) };
    // nothing is in a directory that does not exist, as this one does not
    Some(walk(&v, d + 5).unwrap_or([&v[..], b"/?"].concat()))
}
/// the file a path leads to, through directories that exist
fn walk(v: &[u8], last: usize) -> Option<Vec<u8>> {
    let mut at = b"/vfs".to_vec();
    for c in v[5..last].split(|c| *c == b'/') {
        match c {
            b"" | b"." => continue,
            b".." => { let up = at.iter().rposition(|c| *c == b'/')?; if up == 0 { return None } at.truncate(up) }
            _ => { at.push(b'/'); at.extend_from_slice(c) }
        }
        if !directory(&at) { return None }
    }
    at.push(b'/');
    at.extend_from_slice(&v[last + 1..]);
    Some(at)
}
/// directories are those that were made and those that something is in
fn directory(n: &[u8]) -> bool {
    n == b"/vfs" || fs().dirs.iter().any(|d| d == n) || fs().files.iter().any(|f| f.live && f.name.len() > n.len() && f.name[n.len()] == b'/' && f.name.starts_with(n))
}
/// is there a place for this file?
fn placed(n: &[u8]) -> Result<(), i32> {
    let d = n.iter().rposition(|c| *c == b'/').unwrap_or(0);
    if d > 4 && !directory(&n[..d]) { return Err(ENOENT) }
    if matches!(&n[d + 1..], b"" | b"." | b"..") || directory(n) { return Err(EISDIR) }
    Ok(())
}
fn find(n: &[u8]) -> Option<usize> { fs().files.iter().position(|f| f.live && f.name == n) }
fn opened(fd: i32) -> bool { fs().on && fd >= BASE }
fn at(fd: i32) -> Option<&'static mut Open> { fs().open.get_mut((fd - BASE) as usize).and_then(|o| o.as_mut()) }

#[cfg(feature = "native")]
extern "C" { fn syscall(n: i64, ...) -> i64; }
/// a call that is none of ours
macro_rules! system { ($e:expr, $($a:expr),*) => {{
    #[cfg(feature = "native")]
    { return syscall($($a),*) as _ }
    #[cfg(not(feature = "native"))]
    { return $e as _ }
}} }

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    let Some(n) = path(p) else { system!(fail(ENOENT), 257i64, -100i64, p, flags as i64, mode as i64) };
    // directories that are not there, and those that are
    if let Err(e) = placed(&n) { return hard(e) }
    match way(3) { 1 => return fail(EINTR), 2 => return hard(EACCES), _ => {} }
    let s = fs();
    let (acc, create, excl, trunc, append) = (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
    let i = match find(&n) {
        Some(_) if create && excl => return hard(17),
        Some(i) => i,
        None if create => { s.files.push(File { name: n, data: vec![], live: true }); s.files.len() - 1 }
        None => return hard(ENOENT),
    };
    if trunc && acc != 0 { s.files[i].data = vec![] }
    s.open.push(Some(Open { file: i, pos: 0, append, can_read: acc != 1, can_write: acc != 0 }));
    BASE + s.open.len() as i32 - 1
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if !opened(fd) { system!(fail(EBADF), 0i64, fd as i64, b, n) }
    let Some(o) = at(fd) else { return hard(EBADF) as isize };
    if !o.can_read { return hard(EBADF) as isize }
    let d = &fs().files[o.file].data;
    let have = d.len() - o.pos.min(d.len());
    let mut k = n.min(have);
    if k == 0 { if n > 0 && way(2) == 1 { return fail(EINTR) as isize } return 0 }
    match way(5) { 1 => return fail(EINTR) as isize, 2 => return hard(EIO) as isize, 3 => k = 1, 4 => k = (k + 1) / 2, _ => {} }
    for i in 0..k { *b.add(i) = d[o.pos + i] }
    o.pos += k;
    k as isize
}
unsafe fn put(fd: i32, b: *const u8, k: usize) {
    let Some(o) = at(fd) else { return };
    let d = &mut fs().files[o.file].data;
    if o.append { o.pos = d.len() }
    if o.pos == d.len() { d.extend_from_slice(std::slice::from_raw_parts(b, k)) } else {
        for i in 0..k {
            while d.len() <= o.pos + i { d.push(0) }
            d[o.pos + i] = *b.add(i);
        }
    }
    o.pos += k;
}
/// how much of n bytes is written, or an error
fn writable(fd: i32, n: usize) -> Result<usize, isize> {
    let Some(o) = at(fd) else { return Err(hard(EBADF) as isize) };
    if !o.can_write { return Err(hard(EBADF) as isize) }
    if n == 0 { return Ok(0) }
    match way(6) {
        1 => Err(fail(EINTR) as isize),
        2 => Err(hard(ENOSPC) as isize),
        3 => Ok(1),
        4 => Ok((n + 1) / 2),
        5 => { fs().hard = true; Ok(0) }
        _ => Ok(n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    print(fd, std::slice::from_raw_parts(b, n));
    if !opened(fd) { system!(n, 1i64, fd as i64, b, n) }
    match writable(fd, n) { Ok(k) => { put(fd, b, k); k as isize } Err(e) => e }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const (*const u8, usize), c: i32) -> isize {
    let mut n = 0;
    for i in 0..c as usize { n += (*v.add(i)).1 }
    for i in 0..c as usize { let (b, m) = *v.add(i); print(fd, std::slice::from_raw_parts(b, m)) }
    if !opened(fd) { system!(n, 20i64, fd as i64, v, c as i64) }
    let k = match writable(fd, n) { Ok(k) => k, Err(e) => return e };
    let mut left = k;
    for i in 0..c as usize {
        let (b, m) = *v.add(i);
        put(fd, b, m.min(left));
        left -= m.min(left);
    }
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if !opened(fd) { system!(fail(EBADF), 8i64, fd as i64, off, whence as i64) }
    let Some(o) = at(fd) else { return fail(EBADF) as i64 };
    // a stream has no position; that is no error in reading it
    if way(2) == 1 { return fail(29) as i64 }
    let base = match whence { 0 => 0, 1 => o.pos as i64, _ => fs().files[o.file].data.len() as i64 };
    if base + off < 0 { return fail(EINVAL) as i64 }
    o.pos = (base + off) as usize;
    o.pos as i64
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if !opened(fd) { system!(fail(EBADF), 3i64, fd as i64) }
    let w = way(2);
    match fs().open.get_mut((fd - BASE) as usize) { Some(o) if o.is_some() => *o = None, _ => return fail(EBADF) }
    // what has been written is in the file all the same
    if w == 1 { fail(EINTR) } else { 0 }
}
fn mode(i: usize) -> u32 { if i == usize::MAX { 0o40755 } else { 0o100644 } }
/// sizes are only a hint: they may be 0 as they are for /proc
fn size(i: usize) -> u64 { if i == usize::MAX { return 4096 } match way(2) { 1 => 0, _ => fs().files[i].data.len() as u64 } }
unsafe fn stat_at(fd: i32, p: *const u8) -> Result<usize, i32> {
    if opened(fd) { return at(fd).map(|o| o.file).ok_or(EBADF) }
    match path(p) { Some(n) => match find(&n) { Some(i) => Ok(i), None if directory(&n) => Ok(usize::MAX), None => Err(ENOENT) }, None => Err(0) }
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, p: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    let i = match stat_at(fd, p) {
        Ok(i) => i,
        Err(0) => system!(fail(ENOENT), 332i64, fd as i64, p, flags as i64, mask as i64, out),
        Err(e) => return fail(e),
    };
    let n = size(i);
    for k in 0..256 { *out.add(k) = 0 }
    *(out as *mut u32) = 0x7ff;
    *(out.add(28) as *mut u16) = mode(i) as u16;
    *(out.add(40) as *mut u64) = n;
    0
}
unsafe fn old_stat(i: usize, out: *mut u8) -> i32 {
    let n = size(i);
    for k in 0..144 { *out.add(k) = 0 }
    *(out.add(24) as *mut u32) = mode(i);
    *(out.add(48) as *mut u64) = n;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, out: *mut u8) -> i32 {
    match stat_at(fd, std::ptr::null()) { Ok(i) => old_stat(i, out), Err(_) => system!(fail(EBADF), 5i64, fd as i64, out) }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const u8, out: *mut u8) -> i32 {
    match stat_at(-1, p) { Ok(i) => old_stat(i, out), Err(0) => system!(fail(ENOENT), 4i64, p, out), Err(e) => fail(e) }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if !opened(fd) { system!(fail(EBADF), 77i64, fd as i64, n) }
    let Some(o) = at(fd) else { return hard(EBADF) };
    if way(2) == 1 { return hard(EIO) }
    fs().files[o.file].data.resize(n as usize, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if !opened(fd) { system!(fail(EBADF), 74i64, fd as i64) }
    if way(2) == 1 { return hard(EIO) }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { if opened(fd) { fsync(fd) } else { system!(fail(EBADF), 75i64, fd as i64) } }
#[cfg(feature = "native")]
extern "C" { static environ: *const *const u8; }
/// the home directory is /vfs/home; other variables are those of the system, in the executor there are none
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const u8) -> *const u8 {
    let mut k = 0;
    while *n.add(k) != 0 { k += 1 }
    let n = std::slice::from_raw_parts(n, k);
    if fs().on && n == b"HOME" { return b"/vfs/home\0".as_ptr() }
    #[cfg(feature = "native")]
    {
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let mut i = 0;
            while i < k && *(*e).add(i) == n[i] { i += 1 }
            if i == k && *(*e).add(k) == b'=' { return (*e).add(k + 1) }
            e = e.add(1);
        }
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, mode: u32) -> i32 {
    let Some(n) = path(p) else { system!(fail(ENOENT), 83i64, p, mode as i64) };
    if find(&n).is_some() || directory(&n) { return fail(17) }
    if let Err(e) = placed(&n) { return fail(e) }
    if way(2) == 1 { return hard(EACCES) }
    fs().dirs.push(n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
    let Some(n) = path(p) else { system!(fail(ENOENT), 87i64, p) };
    match find(&n) { Some(i) => { fs().files[i].live = false; 0 } None => fail(ENOENT) }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    let (Some(x), Some(y)) = (path(a), path(b)) else { system!(fail(ENOENT), 82i64, a, b) };
    let Some(i) = find(&x) else { return hard(ENOENT) };
    if way(2) == 1 { return hard(EACCES) }
    if let Err(e) = placed(&y) { return hard(e) }
    if let Some(j) = find(&y) { if i != j { fs().files[j].live = false } }
    fs().files[i].name = y;
    0
}
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_: i32, b: *mut u8, n: usize) -> i32 {
    let m = b"a system error\0";
    if n < m.len() { return 34 }
    for i in 0..m.len() { *b.add(i) = m[i] }
    0
}
