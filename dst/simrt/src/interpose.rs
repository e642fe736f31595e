//! libc symbols redefined in the executable. Calls from threads that are not simulated, and
#![allow(unknown_lints)]
#![allow(invalid_runtime_symbol_definitions)]
#![allow(non_upper_case_globals, non_snake_case, clippy::all)]
//! calls on paths / descriptors outside of the simulated disk, go to the kernel unchanged.

use crate::disk::{is_sim_path, normalize, parent, DiskOp, OpenFile, FD_BASE};
use crate::rt::*;
use libc::*;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

static REAL_PTHREAD_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_PTHREAD_JOIN: AtomicUsize = AtomicUsize::new(0);

pub fn init() {
    unsafe {
        REAL_PTHREAD_CREATE.store(dlsym(RTLD_NEXT, c"pthread_create".as_ptr()) as usize, Ordering::SeqCst);
        REAL_PTHREAD_JOIN.store(dlsym(RTLD_NEXT, c"pthread_join".as_ptr()) as usize, Ordering::SeqCst);
    }
    std::hint::black_box(LINK);
}

/// keeps every interposer in the link
#[allow(clippy::type_complexity)]
static LINK: &[usize] = &[];

#[inline]
pub unsafe fn raw(n: c_long, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn set_errno(e: c_int) {
    *__errno_location() = e;
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}
unsafe fn fail(e: c_int) -> c_int {
    set_errno(e);
    -1
}
macro_rules! sys {
    ($n:expr) => { ret(raw($n, [0;6])) };
    ($n:expr, $($a:expr),+) => {{
        let v = [$($a as usize),+];
        let mut a = [0usize; 6];
        a[..v.len()].copy_from_slice(&v);
        ret(raw($n, a))
    }};
}

unsafe fn sim_path(p: *const c_char) -> Option<String> {
    me()?;
    if p.is_null() {
        return None;
    }
    let _g = Guard::new();
    let s = CStr::from_ptr(p).to_str().ok()?;
    if s.is_empty() || !is_sim_path(s) {
        return None;
    }
    Some(normalize(s))
}

#[inline]
fn sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE && is_sim_thread()
}

/// account one faultable disk call; Err(errno) if it must fail
fn gate(k: u32) -> Result<(), c_int> {
    point();
    let _g = Guard::new();
    let r = rt();
    let n = r.disk.calls;
    r.disk.calls += 1;
    r.disk.call_kinds.push(k);
    r.stats.disk_calls += 1;
    r.mono += 1000 + r.clock.below(200_000);
    if r.plan.crash_at == Some(n) {
        r.stats.crashes += 1;
        (r.die)(Fate::Crash);
    }
    for f in &r.plan.io_faults {
        if f.kinds & k != 0 && n >= f.at && n - f.at < f.len {
            r.stats.io_errors += 1;
            r.disk.injected.push((n, k, f.errno));
            return Err(f.errno);
        }
    }
    if k & (kind::READ | kind::WRITE) != 0 && r.plan.eintr_ppm > 0 {
        let p = r.plan.eintr_ppm;
        if r.choose(S_IO, 2, p) == 1 {
            r.stats.eintr += 1;
            return Err(EINTR);
        }
    }
    Ok(())
}

unsafe fn do_open(path: &str, flags: c_int) -> c_int {
    let acc = flags & O_ACCMODE;
    let wr = acc != O_RDONLY || flags & (O_CREAT | O_TRUNC) != 0;
    if let Err(e) = gate(if wr { kind::OPEN_W } else { kind::OPEN_R }) {
        return fail(e);
    }
    let _g = Guard::new();
    let d = &mut rt().disk;
    let is_dir = d.dirs.contains_key(path);
    if is_dir {
        if wr {
            return fail(EISDIR);
        }
        let fd = d.next_fd;
        d.next_fd += 1;
        d.fds.insert(fd, OpenFile { ino: None, path: path.into(), pos: 0, read: true, write: false, append: false });
        return fd;
    }
    if flags & O_DIRECTORY != 0 {
        return fail(if d.files.contains_key(path) { ENOTDIR } else { ENOENT });
    }
    let ino = match d.files.get(path).copied() {
        Some(i) => {
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                return fail(EEXIST);
            }
            if flags & O_TRUNC != 0 && acc != O_RDONLY {
                d.exec(DiskOp::Trunc(i, 0));
            }
            i
        }
        None => {
            if flags & O_CREAT == 0 {
                return fail(ENOENT);
            }
            let pa = parent(path);
            if !d.dirs.contains_key(&pa) {
                return fail(if d.files.contains_key(&pa) { ENOTDIR } else { ENOENT });
            }
            let i = d.inodes.len();
            d.exec(DiskOp::Create(path.into(), i));
            i
        }
    };
    let fd = d.next_fd;
    d.next_fd += 1;
    d.fds.insert(
        fd,
        OpenFile {
            ino: Some(ino),
            path: path.into(),
            pos: 0,
            read: acc != O_WRONLY,
            write: acc != O_RDONLY,
            append: flags & O_APPEND != 0,
        },
    );
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(s) => do_open(&s, flags),
        None => {
            if me().is_some() && !p.is_null() {
                let _g = Guard::new();
                if let Ok("/dev/urandom" | "/dev/random") = CStr::from_ptr(p).to_str() {
                    let d = &mut rt().disk;
                    let fd = d.next_fd;
                    d.next_fd += 1;
                    d.fds.insert(fd, OpenFile { ino: None, path: "/dev/urandom".into(), pos: 0, read: true, write: false, append: false });
                    return fd;
                }
            }
            sys!(SYS_openat, AT_FDCWD as isize, p, flags as isize, mode) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if dfd == AT_FDCWD || (!p.is_null() && *p == b'/' as c_char) {
        open(p, flags, mode)
    } else {
        sys!(SYS_openat, dfd as isize, p, flags as isize, mode) as c_int
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(dfd, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: mode_t) -> c_int {
    open(p, O_CREAT | O_WRONLY | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim_fd(fd) {
        let _g = Guard::new();
        return if rt().disk.fds.remove(&fd).is_some() { 0 } else { fail(EBADF) };
    }
    sys!(SYS_close, fd as isize) as c_int
}

unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, at: Option<u64>) -> isize {
    {
        let _g = Guard::new();
        match rt().disk.fds.get(&fd) {
            Some(o) if o.path == "/dev/urandom" => {
                fill_entropy(buf, n);
                return n as isize;
            }
            Some(o) if o.ino.is_none() => return fail(EISDIR) as isize,
            Some(o) if !o.read => return fail(EBADF) as isize,
            Some(_) => {}
            None => return fail(EBADF) as isize,
        }
    }
    if let Err(e) = gate(kind::READ) {
        return fail(e) as isize;
    }
    let _g = Guard::new();
    let r = rt();
    let mut n = n;
    if n > 1 && r.plan.short_ppm > 0 {
        let p = r.plan.short_ppm;
        let c = r.choose(S_IO, 5, p);
        if c > 0 {
            r.stats.short_io += 1;
            n = (n * c / 5).max(1);
        }
    }
    let d = &mut r.disk;
    let o = d.fds.get_mut(&fd).unwrap();
    let f = &d.inodes[o.ino.unwrap()];
    let pos = at.unwrap_or(o.pos) as usize;
    let m = if pos >= f.len() { 0 } else { n.min(f.len() - pos) };
    if m > 0 {
        std::ptr::copy_nonoverlapping(f[pos..].as_ptr(), buf, m);
    }
    if at.is_none() {
        o.pos += m as u64;
    }
    m as isize
}

unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, at: Option<u64>) -> isize {
    {
        let _g = Guard::new();
        match rt().disk.fds.get(&fd) {
            Some(o) if o.write => {}
            _ => return fail(EBADF) as isize,
        }
    }
    if n == 0 {
        return 0;
    }
    if let Err(e) = gate(kind::WRITE) {
        // a full disk takes what fits before it fails: half of the buffer was written
        return fail(e) as isize;
    }
    let _g = Guard::new();
    let r = rt();
    let mut n = n;
    if n > 1 && r.plan.short_ppm > 0 {
        let p = r.plan.short_ppm;
        let c = r.choose(S_IO, 5, p);
        if c > 0 {
            r.stats.short_io += 1;
            n = (n * c / 5).max(1);
        }
    }
    let d = &mut r.disk;
    let o = d.fds.get(&fd).unwrap().clone();
    let ino = o.ino.unwrap();
    let pos = if o.append { d.inodes[ino].len() as u64 } else { at.unwrap_or(o.pos) };
    let data = std::slice::from_raw_parts(buf, n).to_vec();
    d.exec(DiskOp::Write(ino, pos, data));
    if at.is_none() {
        d.fds.get_mut(&fd).unwrap().pos = pos + n as u64;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        return do_read(fd, buf as *mut u8, n, None);
    }
    sys!(SYS_read, fd as isize, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sim_fd(fd) {
        return do_write(fd, buf as *const u8, n, None);
    }
    sys!(SYS_write, fd as isize, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if sim_fd(fd) {
        return do_read(fd, buf as *mut u8, n, Some(off as u64));
    }
    sys!(SYS_pread64, fd as isize, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if sim_fd(fd) {
        return do_write(fd, buf as *const u8, n, Some(off as u64));
    }
    sys!(SYS_pwrite64, fd as isize, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sim_fd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return do_read(fd, v.iov_base as *mut u8, v.iov_len, None);
            }
        }
        return 0;
    }
    sys!(SYS_readv, fd as isize, iov, n as isize)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sim_fd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return do_write(fd, v.iov_base as *const u8, v.iov_len, None);
            }
        }
        return 0;
    }
    sys!(SYS_writev, fd as isize, iov, n as isize)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if sim_fd(fd) {
        let _g = Guard::new();
        let d = &mut rt().disk;
        let Some(o) = d.fds.get_mut(&fd) else { return fail(EBADF) as off64_t };
        let len = o.ino.map(|i| d.inodes[i].len()).unwrap_or(0) as i64;
        let p = match whence {
            SEEK_SET => off,
            SEEK_CUR => o.pos as i64 + off,
            SEEK_END => len + off,
            _ => -1,
        };
        if p < 0 {
            return fail(EINVAL) as off64_t;
        }
        o.pos = p as u64;
        return p;
    }
    sys!(SYS_lseek, fd as isize, off, whence as isize) as off64_t
}

enum Ent {
    Dir,
    File(usize),
}
fn lookup(p: &str) -> Option<Ent> {
    let d = &rt().disk;
    if d.dirs.contains_key(p) {
        Some(Ent::Dir)
    } else {
        d.files.get(p).map(|i| Ent::File(d.inodes[*i].len()))
    }
}
fn lookup_fd(fd: c_int) -> Option<Ent> {
    let d = &rt().disk;
    d.fds.get(&fd).map(|o| match o.ino {
        Some(i) => Ent::File(d.inodes[i].len()),
        None => Ent::Dir,
    })
}
unsafe fn put_stat(e: Option<Ent>, st: *mut stat64) -> c_int {
    let Some(e) = e else { return fail(ENOENT) };
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
    match e {
        Ent::Dir => (*st).st_mode = S_IFDIR | 0o755,
        Ent::File(n) => {
            (*st).st_mode = S_IFREG | 0o644;
            (*st).st_size = n as i64;
        }
    }
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    0
}

#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
    if let Some(s) = sim_path(p) {
        let _g = Guard::new();
        return put_stat(lookup(&s), st);
    }
    sys!(SYS_stat, p, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    if let Some(s) = sim_path(p) {
        let _g = Guard::new();
        return put_stat(lookup(&s), st);
    }
    sys!(SYS_lstat, p, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut stat64) -> c_int {
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if sim_fd(fd) {
        let _g = Guard::new();
        return put_stat(lookup_fd(fd), st);
    }
    sys!(SYS_fstat, fd as isize, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, p: *const c_char, flags: c_int, mask: c_uint, st: *mut statx) -> c_int {
    let ent = if sim_fd(dfd) && (p.is_null() || *p == 0) {
        let _g = Guard::new();
        Some(lookup_fd(dfd))
    } else {
        sim_path(p).map(|s| {
            let _g = Guard::new();
            lookup(&s)
        })
    };
    if let Some(e) = ent {
        let Some(e) = e else { return fail(ENOENT) };
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*st).stx_mask = STATX_BASIC_STATS;
        (*st).stx_blksize = 4096;
        (*st).stx_nlink = 1;
        match e {
            Ent::Dir => (*st).stx_mode = (S_IFDIR | 0o755) as u16,
            Ent::File(n) => {
                (*st).stx_mode = (S_IFREG | 0o644) as u16;
                (*st).stx_size = n as u64;
            }
        }
        return 0;
    }
    sys!(SYS_statx, dfd as isize, p, flags as isize, mask, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if let Some(s) = sim_path(p) {
        let _g = Guard::new();
        return if lookup(&s).is_some() { 0 } else { fail(ENOENT) };
    }
    sys!(SYS_access, p, mode as isize) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dfd: c_int, p: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if let Some(s) = sim_path(p) {
        let _g = Guard::new();
        return if lookup(&s).is_some() { 0 } else { fail(ENOENT) };
    }
    sys!(SYS_faccessat, dfd as isize, p, mode as isize, flags as isize) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if let Some(s) = sim_path(p) {
        if let Err(e) = gate(kind::MKDIR) {
            return fail(e);
        }
        let _g = Guard::new();
        let d = &mut rt().disk;
        if d.dirs.contains_key(&s) || d.files.contains_key(&s) {
            return fail(EEXIST);
        }
        if !d.dirs.contains_key(&parent(&s)) {
            return fail(ENOENT);
        }
        d.exec(DiskOp::Mkdir(s));
        return 0;
    }
    sys!(SYS_mkdir, p, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if let Some(s) = sim_path(p) {
        if let Err(e) = gate(kind::UNLINK) {
            return fail(e);
        }
        let _g = Guard::new();
        let d = &mut rt().disk;
        if d.dirs.contains_key(&s) {
            return fail(EISDIR);
        }
        if !d.files.contains_key(&s) {
            return fail(ENOENT);
        }
        d.exec(DiskOp::Unlink(s));
        return 0;
    }
    sys!(SYS_unlink, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if let Some(s) = sim_path(p) {
        if let Err(e) = gate(kind::UNLINK) {
            return fail(e);
        }
        let _g = Guard::new();
        let d = &mut rt().disk;
        if !d.dirs.contains_key(&s) {
            return fail(ENOENT);
        }
        let pre = format!("{s}/");
        if d.files.keys().chain(d.dirs.keys()).any(|k| k.starts_with(&pre)) {
            return fail(ENOTEMPTY);
        }
        d.exec(DiskOp::Unlink(s));
        return 0;
    }
    sys!(SYS_rmdir, p) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => {
            if let Err(e) = gate(kind::RENAME) {
                return fail(e);
            }
            let _g = Guard::new();
            let d = &mut rt().disk;
            if !d.files.contains_key(&a) && !d.dirs.contains_key(&a) {
                return fail(ENOENT);
            }
            if !d.dirs.contains_key(&parent(&b)) {
                return fail(ENOENT);
            }
            if d.files.contains_key(&a) && d.dirs.contains_key(&b) {
                return fail(EISDIR);
            }
            d.exec(DiskOp::Rename(a, b));
            0
        }
        (None, None) => sys!(SYS_rename, a, b) as c_int,
        _ => fail(EXDEV),
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(_d1: c_int, a: *const c_char, _d2: c_int, b: *const c_char) -> c_int {
    rename(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(a), Some(b)) => {
            if let Err(e) = gate(kind::RENAME) {
                return fail(e);
            }
            let _g = Guard::new();
            let d = &mut rt().disk;
            if !d.files.contains_key(&a) {
                return fail(ENOENT);
            }
            if d.files.contains_key(&b) {
                return fail(EEXIST);
            }
            d.exec(DiskOp::Link(a, b));
            0
        }
        (None, None) => sys!(SYS_link, a, b) as c_int,
        _ => fail(EXDEV),
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if sim_fd(fd) {
        if let Err(e) = gate(kind::WRITE) {
            return fail(e);
        }
        let _g = Guard::new();
        let d = &mut rt().disk;
        let Some(ino) = d.fds.get(&fd).and_then(|o| o.ino) else { return fail(EBADF) };
        d.exec(DiskOp::Trunc(ino, len as u64));
        return 0;
    }
    sys!(SYS_ftruncate, fd as isize, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn do_sync(fd: c_int) -> c_int {
    if let Err(e) = gate(kind::SYNC) {
        return fail(e);
    }
    let _g = Guard::new();
    let d = &mut rt().disk;
    match d.fds.get(&fd).cloned() {
        Some(o) => {
            match o.ino {
                Some(i) => d.exec(DiskOp::Fsync(i)),
                None => d.exec(DiskOp::FsyncDir(o.path)),
            }
            0
        }
        None => fail(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return do_sync(fd);
    }
    sys!(SYS_fsync, fd as isize) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sim_fd(fd) {
        return do_sync(fd);
    }
    sys!(SYS_fdatasync, fd as isize) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    sys!(SYS_flock, fd as isize, op as isize) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if sim_fd(fd) {
        return 0;
    }
    sys!(SYS_fchmod, fd as isize, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if sim_path(p).is_some() {
        return 0;
    }
    sys!(SYS_chmod, p, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if sim_fd(fd) {
        let _g = Guard::new();
        let d = &mut rt().disk;
        let Some(o) = d.fds.get(&fd).cloned() else { return fail(EBADF) };
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => {
                let n = d.next_fd;
                d.next_fd += 1;
                d.fds.insert(n, o);
                n
            }
            F_GETFL => {
                if o.write {
                    O_RDWR
                } else {
                    O_RDONLY
                }
            }
            _ => 0,
        };
    }
    sys!(SYS_fcntl, fd as isize, cmd as isize, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint,
) -> ssize_t {
    if sim_fd(a) || sim_fd(b) {
        return fail(ENOSYS) as ssize_t;
    }
    sys!(SYS_copy_file_range, a as isize, ao, b as isize, bo, n, f)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if sim_fd(a) || sim_fd(b) {
        return fail(ENOSYS) as ssize_t;
    }
    sys!(SYS_sendfile, a as isize, b as isize, o, n)
}

// ---- time, entropy ---------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if me().is_some() {
        let (s, n) = clock_now(clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE);
        (*ts).tv_sec = s;
        (*ts).tv_nsec = n;
        return 0;
    }
    sys!(SYS_clock_gettime, clk as isize, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    if me().is_some() {
        let (s, n) = clock_now(true);
        (*tv).tv_sec = s;
        (*tv).tv_usec = n / 1000;
        return 0;
    }
    sys!(SYS_gettimeofday, tv, 0usize) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
unsafe fn sim_sleep(id: usize, req: *const timespec) {
    let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let t = rt().mono + d;
    sleep_until(id, t);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(id) = me() {
        sim_sleep(id, req);
        return 0;
    }
    sys!(SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(id) = me() {
        if flags & TIMER_ABSTIME != 0 {
            let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            sleep_until(id, t);
        } else {
            sim_sleep(id, req);
        }
        return 0;
    }
    -(raw(SYS_clock_nanosleep, [clk as usize, flags as usize, req as usize, rem as usize, 0, 0])) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if me().is_some() {
        point();
        return 0;
    }
    sys!(SYS_sched_yield) as c_int
}

unsafe fn fill_entropy(buf: *mut u8, n: usize) {
    let _g = Guard::new();
    let r = rt();
    r.stats.entropy_reads += 1;
    for i in 0..n {
        *buf.add(i) = r.entropy.next() as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if me().is_some() {
        fill_entropy(buf as *mut u8, n);
        return n as ssize_t;
    }
    sys!(SYS_getrandom, buf, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    getrandom(buf, n, 0);
    0
}

// ---- futex, semaphores, threads ------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if let Some(id) = me() {
        match n {
            SYS_futex => {
                let op = b as c_int & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
                match op {
                    FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                        let ts = d as *const timespec;
                        let deadline = if ts.is_null() {
                            None
                        } else {
                            let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                            Some(if op == FUTEX_WAIT { rt().mono + t } else { t })
                        };
                        let e = futex_wait(id, a, c as u32, deadline);
                        if e != 0 {
                            set_errno(e);
                            return -1;
                        }
                        return 0;
                    }
                    FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                        return futex_wake(a, c as u32) as c_long;
                    }
                    _ => {}
                }
            }
            SYS_getrandom => {
                fill_entropy(a as *mut u8, b);
                return b as c_long;
            }
            SYS_clock_gettime => {
                return clock_gettime(a as clockid_t, b as *mut timespec) as c_long;
            }
            _ => {}
        }
    }
    ret(raw(n, [a, b, c, d, e, f])) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut pthread_t,
    attr: *const pthread_attr_t,
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut pthread_t,
        *const pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int;
    let mut p = REAL_PTHREAD_CREATE.load(Ordering::SeqCst);
    if p == 0 {
        p = dlsym(RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
    }
    let real: F = std::mem::transmute(p);
    if me().is_some() {
        let r = {
            let _g = Guard::new();
            let id = thread_register();
            let s = Box::into_raw(Box::new(ThreadStart { start, arg, id }));
            let r = real(th, attr, thread_tramp, s as *mut c_void);
            assert_eq!(r, 0, "pthread_create failed in the simulator");
            thread_set_pthread(id, *th as u64);
            r
        };
        point();
        return r;
    }
    real(th, attr, start, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: pthread_t, ret: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
    let mut p = REAL_PTHREAD_JOIN.load(Ordering::SeqCst);
    if p == 0 {
        p = dlsym(RTLD_NEXT, c"pthread_join".as_ptr()) as usize;
    }
    let real: F = std::mem::transmute(p);
    if let Some(id) = me() {
        let t = thread_find(th as u64);
        if let Some(t) = t {
            thread_join(id, t);
        }
    }
    real(th, ret)
}
#[no_mangle]
pub unsafe extern "C" fn sem_init(s: *mut sem_t, pshared: c_int, v: c_uint) -> c_int {
    let _ = pshared;
    if me().is_some() {
        let _g = Guard::new();
        rt().sems.insert(s as usize, v);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sem_wait(s: *mut sem_t) -> c_int {
    if let Some(id) = me() {
        crate::rt::sem_wait(id, s as usize);
        return 0;
    }
    loop {
        sys!(SYS_pause);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sem_post(s: *mut sem_t) -> c_int {
    if is_sim_thread() {
        crate::rt::sem_post(s as usize);
    }
    0
}

/// seeds of the hash maps of the foldhash crate (ASLR in reality)
#[no_mangle]
pub extern "C" fn sim_hash_seed() -> u64 {
    if is_sim_thread() {
        let _g = Guard::new();
        rt().hash.next()
    } else {
        1
    }
}
