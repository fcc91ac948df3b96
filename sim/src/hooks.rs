//! The seam: this executable defines the C library's file system entry points itself, so the
//! unmodified standard library, rabuf and siamesedb call into the simulated disk for every path
//! under disk::ROOT and every simulated descriptor. Everything else goes to the kernel.
#![allow(clippy::missing_safety_doc)]
#![allow(invalid_runtime_symbol_definitions)]
use crate::disk::*;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};

pub const FD_BASE: i32 = 1_000_000;

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_OPEN: c_long = 2;
const SYS_CLOSE: c_long = 3;
const SYS_STAT: c_long = 4;
const SYS_FSTAT: c_long = 5;
const SYS_LSTAT: c_long = 6;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD: c_long = 17;
const SYS_PWRITE: c_long = 18;
const SYS_READV: c_long = 19;
const SYS_WRITEV: c_long = 20;
const SYS_FCNTL: c_long = 72;
const SYS_FLOCK: c_long = 73;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_TRUNCATE: c_long = 76;
const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_MKDIR: c_long = 83;
const SYS_RMDIR: c_long = 84;
const SYS_UNLINK: c_long = 87;
const SYS_SYNC_FILE_RANGE: c_long = 277;
const SYS_FALLOCATE: c_long = 285;
const SYS_OPENAT: c_long = 257;
const SYS_STATX: c_long = 332;
const SYS_ACCESS: c_long = 21;
const SYS_COPY_FILE_RANGE: c_long = 326;
const SYS_MMAP: c_long = 9;
const SYS_LINKAT: c_long = 265;
const SYS_FCHMOD: c_long = 91;
const SYS_CHMOD: c_long = 90;
const SYS_SENDFILE: c_long = 40;
const ENOSYS: i32 = 38;

const O_ACCMODE: i32 = 3;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;
const O_DIRECTORY: i32 = 0o200000;

static mut WORLD: Option<Box<World>> = None;

#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { WORLD.get_or_insert_with(|| Box::new(World::new())) }
}
#[allow(static_mut_refs)]
pub fn reset_world() {
    unsafe {
        WORLD = Some(Box::new(World::new()));
    }
}

unsafe fn err(e: i32) -> c_int {
    *__errno_location() = e;
    -1
}

unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_bytes();
    if !s.starts_with(ROOT.as_bytes()) {
        return None;
    }
    let s = String::from_utf8_lossy(s).to_string();
    let mut parts: Vec<&str> = vec![];
    for c in s.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                parts.pop();
            }
            x => parts.push(x),
        }
    }
    Some(format!("/{}", parts.join("/")))
}

fn unsupported(what: &str) {
    let w = world();
    if w.unsupported.is_none() {
        w.unsupported = Some(what.to_string());
    }
}

fn parent(p: &str) -> &str {
    match p.rfind('/') {
        Some(0) | None => "/",
        Some(i) => &p[..i],
    }
}

fn path_arg(p: &str) -> u64 {
    let mut h = 0u64;
    for b in p.bytes() {
        h = h.wrapping_mul(31).wrapping_add(b as u64);
    }
    h
}

unsafe fn do_open(path: String, flags: c_int) -> c_int {
    let w = world();
    if let Dec::Err(e) = w.decide(C_OPEN, "open", path_arg(&path), 0) {
        return err(e);
    }
    let inode = match w.disk.tree.get(&path) {
        Some(Node::Dir { .. }) => {
            if flags & O_ACCMODE != 0 {
                return err(EISDIR);
            }
            // directory handle, good for fsync only
            usize::MAX
        }
        Some(Node::File(i)) => {
            if flags & O_DIRECTORY != 0 {
                return err(ENOTDIR);
            }
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                return err(EEXIST);
            }
            let i = *i;
            if flags & O_TRUNC != 0 {
                w.disk.inodes[i].set_len(0);
            }
            i
        }
        None => {
            if flags & O_CREAT == 0 {
                return err(ENOENT);
            }
            match w.disk.tree.get(parent(&path)) {
                Some(Node::Dir { .. }) => (),
                Some(_) => return err(ENOTDIR),
                None => return err(ENOENT),
            }
            let i = w.disk.inodes.len();
            w.disk.inodes.push(Inode::default());
            w.disk.tree.insert(path, Node::File(i));
            i
        }
    };
    let acc = flags & O_ACCMODE;
    let o = w.next_ofd;
    w.next_ofd += 1;
    w.ofds.insert(
        o,
        Ofd {
            inode,
            pos: 0,
            append: flags & O_APPEND != 0,
            readable: acc == 0 || acc == 2,
            writable: acc == 1 || acc == 2,
        },
    );
    let fd = w.next_fd;
    w.next_fd += 1;
    w.fds.insert(fd, o);
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    match sim_path(path) {
        Some(p) => do_open(p, flags),
        None => syscall(SYS_OPEN, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    match sim_path(path) {
        Some(p) => do_open(p, flags),
        None => syscall(SYS_OPENAT, dir, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mode: u32,
) -> c_int {
    openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_CLOSE, fd) as c_int;
    }
    let w = world();
    match w.fds.remove(&fd) {
        Some(o) => {
            if !w.fds.values().any(|x| *x == o) {
                w.ofds.remove(&o);
            }
            0
        }
        None => err(EBADF),
    }
}

fn ofd(fd: c_int) -> Option<usize> {
    world().fds.get(&fd).copied()
}

unsafe fn do_read(fd: c_int, buf: *mut c_void, n: usize, at: Option<i64>) -> isize {
    let w = world();
    let o = match ofd(fd) {
        Some(o) => o,
        None => return err(EBADF) as isize,
    };
    let (inode, pos, ok) = {
        let f = &w.ofds[&o];
        (f.inode, at.map(|a| a as u64).unwrap_or(f.pos), f.readable)
    };
    if inode == usize::MAX {
        return err(EISDIR) as isize;
    }
    if !ok {
        return err(EBADF) as isize;
    }
    let mut n = n;
    match w.decide(C_READ, "read", pos ^ ((inode as u64) << 48), n) {
        Dec::Err(e) => return err(e) as isize,
        Dec::Short(m) => n = m,
        Dec::Go => (),
    }
    let slice = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    let r = w.disk.inodes[inode].read_at(pos, slice);
    w.c.bytes_read += r as u64;
    if at.is_none() {
        w.ofds.get_mut(&o).unwrap().pos += r as u64;
    }
    r as isize
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: usize, at: Option<i64>) -> isize {
    let w = world();
    let o = match ofd(fd) {
        Some(o) => o,
        None => return err(EBADF) as isize,
    };
    let (inode, mut pos, ok, app) = {
        let f = &w.ofds[&o];
        (
            f.inode,
            at.map(|a| a as u64).unwrap_or(f.pos),
            f.writable,
            f.append,
        )
    };
    if !ok || inode == usize::MAX {
        return err(EBADF) as isize;
    }
    if app {
        pos = w.disk.inodes[inode].len;
    }
    let mut n = n;
    match w.decide(C_WRITE, "write", pos ^ ((inode as u64) << 48), n) {
        Dec::Err(e) => return err(e) as isize,
        Dec::Short(m) => {
            // a write that is followed by a crash or a failure stops where a kernel stops: at a
            // sector boundary of the file, not inside a sector
            let end = (pos + m as u64) / SECTOR as u64 * SECTOR as u64;
            if !w.sector_shorts {
                n = m;
            } else if end > pos {
                n = (end - pos) as usize;
            }
        }
        Dec::Go => (),
    }
    let slice = std::slice::from_raw_parts(buf as *const u8, n);
    w.disk.inodes[inode].write_at(pos, slice);
    w.c.bytes_written += n as u64;
    if at.is_none() {
        w.ofds.get_mut(&o).unwrap().pos = pos + n as u64;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if fd < FD_BASE {
        return syscall(SYS_READ, fd, buf, n) as isize;
    }
    do_read(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd < FD_BASE {
        return syscall(SYS_WRITE, fd, buf, n) as isize;
    }
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    if fd < FD_BASE {
        return syscall(SYS_PREAD, fd, buf, n, off) as isize;
    }
    do_read(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if fd < FD_BASE {
        return syscall(SYS_PWRITE, fd, buf, n, off) as isize;
    }
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite(fd, buf, n, off)
}

#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    if fd < FD_BASE {
        return syscall(SYS_READV, fd, iov, cnt) as isize;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
            return do_read(fd, v.base, v.len, None);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    if fd < FD_BASE {
        return syscall(SYS_WRITEV, fd, iov, cnt) as isize;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
            return do_write(fd, v.base, v.len, None);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd < FD_BASE {
        return syscall(SYS_LSEEK, fd, off, whence) as i64;
    }
    let w = world();
    let o = match ofd(fd) {
        Some(o) => o,
        None => return err(EBADF) as i64,
    };
    let f = w.ofds.get_mut(&o).unwrap();
    let len = if f.inode == usize::MAX {
        0
    } else {
        w.disk.inodes[f.inode].len
    };
    let base = match whence {
        0 => 0i64,
        1 => f.pos as i64,
        2 => len as i64,
        _ => return err(EINVAL) as i64,
    };
    let np = base + off;
    if np < 0 {
        return err(EINVAL) as i64;
    }
    f.pos = np as u64;
    np
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek(fd, off, whence)
}

unsafe fn do_ftruncate(fd: c_int, len: i64) -> c_int {
    let w = world();
    let o = match ofd(fd) {
        Some(o) => o,
        None => return err(EBADF),
    };
    let inode = w.ofds[&o].inode;
    if inode == usize::MAX || len < 0 {
        return err(EINVAL);
    }
    if let Dec::Err(e) = w.decide(
        C_TRUNC,
        "ftruncate",
        len as u64 ^ ((inode as u64) << 48),
        0,
    ) {
        return err(e);
    }
    w.disk.inodes[inode].set_len(len as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_FTRUNCATE, fd, len) as c_int;
    }
    do_ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: i64) -> c_int {
    if sim_path(path).is_some() {
        unsupported("truncate");
        return err(EINVAL);
    }
    syscall(SYS_TRUNCATE, path, len) as c_int
}

unsafe fn do_fsync(fd: c_int, what: &'static str) -> c_int {
    let w = world();
    let o = match ofd(fd) {
        Some(o) => o,
        None => return err(EBADF),
    };
    let inode = w.ofds[&o].inode;
    if let Dec::Err(e) = w.decide(C_SYNC, what, inode as u64, 0) {
        return err(e);
    }
    if inode == usize::MAX {
        for n in w.disk.tree.values_mut() {
            if let Node::Dir { durable } = n {
                *durable = true;
            }
        }
        for i in w.disk.inodes.iter_mut() {
            i.entry_durable = true;
        }
    } else {
        w.disk.inodes[inode].sync();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_FSYNC, fd) as c_int;
    }
    do_fsync(fd, "fsync")
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_FDATASYNC, fd) as c_int;
    }
    do_fsync(fd, "fdatasync")
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, off: i64, n: i64, fl: u32) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_SYNC_FILE_RANGE, fd, off, n, fl) as c_int;
    }
    // write-out without a durability guarantee
    0
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_FALLOCATE, fd, mode, off, len) as c_int;
    }
    if mode != 0 {
        unsupported("fallocate mode");
        return err(EINVAL);
    }
    let w = world();
    let o = match ofd(fd) {
        Some(o) => o,
        None => return err(EBADF),
    };
    let inode = w.ofds[&o].inode;
    if w.disk.inodes[inode].len < (off + len) as u64 {
        return do_ftruncate(fd, off + len);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: i64, len: i64) -> c_int {
    if fallocate64(fd, 0, off, len) == 0 {
        0
    } else {
        *__errno_location()
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_FLOCK, fd, op) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_FCNTL, fd, cmd, arg) as c_int;
    }
    let w = world();
    let o = match ofd(fd) {
        Some(o) => o,
        None => return err(EBADF),
    };
    match cmd {
        0 | 1030 => {
            let n = w.next_fd;
            w.next_fd += 1;
            w.fds.insert(n, o);
            n
        }
        1 => 1,
        3 => 2,
        2 | 4 | 5 | 6 | 7 | 36 | 37 | 38 => 0,
        _ => {
            unsupported("fcntl");
            err(EINVAL)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}

unsafe fn fill_stat(st: *mut u8, dir: bool, len: u64, ino: u64) {
    std::ptr::write_bytes(st, 0, 144);
    *(st.add(8) as *mut u64) = ino;
    *(st.add(16) as *mut u64) = 1;
    *(st.add(24) as *mut u32) = if dir { 0o040755 } else { 0o100644 };
    *(st.add(48) as *mut u64) = len;
    *(st.add(56) as *mut u64) = 4096;
    *(st.add(64) as *mut u64) = len.div_ceil(512);
}
fn lookup(p: &str) -> Option<(bool, u64, u64)> {
    let w = world();
    match w.disk.tree.get(p) {
        Some(Node::Dir { .. }) => Some((true, 4096, 1)),
        Some(Node::File(i)) => Some((false, w.disk.inodes[*i].len, 2 + *i as u64)),
        None => None,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut c_void) -> c_int {
    match sim_path(path) {
        Some(p) => match lookup(&p) {
            Some((d, l, i)) => {
                fill_stat(st as *mut u8, d, l, i);
                0
            }
            None => err(ENOENT),
        },
        None => syscall(SYS_STAT, path, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut c_void) -> c_int {
    stat64(path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut c_void) -> c_int {
    if sim_path(path).is_some() {
        return stat64(path, st);
    }
    syscall(SYS_LSTAT, path, st) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut c_void) -> c_int {
    lstat64(path, st)
}
fn fd_info(fd: c_int) -> Option<(bool, u64, u64)> {
    let w = world();
    let o = ofd(fd)?;
    let i = w.ofds[&o].inode;
    if i == usize::MAX {
        Some((true, 4096, 1))
    } else {
        Some((false, w.disk.inodes[i].len, 2 + i as u64))
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut c_void) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_FSTAT, fd, st) as c_int;
    }
    match fd_info(fd) {
        Some((d, l, i)) => {
            fill_stat(st as *mut u8, d, l, i);
            0
        }
        None => err(EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut c_void) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn statx(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mask: u32,
    buf: *mut c_void,
) -> c_int {
    let info = if dir >= FD_BASE {
        let name = if path.is_null() { &[][..] } else { CStr::from_ptr(path).to_bytes() };
        match world().dir_fds.get(&dir) {
            Some(d) if !name.is_empty() && name[0] != b'/' => Some(lookup(&format!("{}/{}", d, String::from_utf8_lossy(name)))),
            _ => Some(fd_info(dir)),
        }
    } else {
        sim_path(path).map(|p| lookup(&p))
    };
    match info {
        Some(Some((d, l, i))) => {
            let st = buf as *mut u8;
            std::ptr::write_bytes(st, 0, 256);
            *(st as *mut u32) = 0x7ff;
            *(st.add(4) as *mut u32) = 4096;
            *(st.add(16) as *mut u32) = 1;
            *(st.add(28) as *mut u16) = if d { 0o040755 } else { 0o100644 };
            *(st.add(32) as *mut u64) = i;
            *(st.add(40) as *mut u64) = l;
            *(st.add(48) as *mut u64) = l.div_ceil(512);
            0
        }
        Some(None) => err(ENOENT),
        None => syscall(SYS_STATX, dir, path, flags, mask, buf) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    match sim_path(path) {
        Some(p) => {
            if lookup(&p).is_some() {
                0
            } else {
                err(ENOENT)
            }
        }
        None => syscall(SYS_ACCESS, path, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: u32) -> c_int {
    match sim_path(path) {
        Some(p) => {
            let w = world();
            if let Dec::Err(e) = w.decide(C_OPEN, "mkdir", path_arg(&p), 0) {
                return err(e);
            }
            if w.disk.tree.contains_key(&p) {
                return err(EEXIST);
            }
            match w.disk.tree.get(parent(&p)) {
                Some(Node::Dir { .. }) => (),
                Some(_) => return err(ENOTDIR),
                None => return err(ENOENT),
            }
            w.disk.tree.insert(p, Node::Dir { durable: false });
            0
        }
        None => syscall(SYS_MKDIR, path, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    match sim_path(path) {
        Some(p) => {
            let w = world();
            let pre = format!("{}/", p);
            if w.disk.tree.keys().any(|k| k.starts_with(&pre)) {
                return err(ENOTEMPTY);
            }
            if w.disk.tree.remove(&p).is_none() {
                return err(ENOENT);
            }
            0
        }
        None => syscall(SYS_RMDIR, path) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    match sim_path(path) {
        Some(p) => {
            let w = world();
            if let Dec::Err(e) = w.decide(C_OPEN, "unlink", path_arg(&p), 0) {
                return err(e);
            }
            match w.disk.tree.get(&p) {
                Some(Node::File(_)) => {
                    w.disk.tree.remove(&p);
                    0
                }
                Some(_) => err(EISDIR),
                None => err(ENOENT),
            }
        }
        None => syscall(SYS_UNLINK, path) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(x), Some(y)) => {
            let w = world();
            if let Dec::Err(e) = w.decide(C_OPEN, "rename", path_arg(&x), 0) {
                return err(e);
            }
            match w.disk.tree.remove(&x) {
                Some(n) => {
                    w.disk.tree.insert(y, n);
                    0
                }
                None => err(ENOENT),
            }
        }
        (None, None) => syscall(SYS_RENAME, a, b) as c_int,
        _ => {
            unsupported("rename across the simulation boundary");
            err(EINVAL)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    fi: c_int,
    oi: *mut i64,
    fo: c_int,
    oo: *mut i64,
    n: usize,
    fl: u32,
) -> isize {
    if fi < FD_BASE && fo < FD_BASE {
        return syscall(SYS_COPY_FILE_RANGE, fi, oi, fo, oo, n, fl) as isize;
    }
    // the standard library copies by hand then
    err(ENOSYS) as isize
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(
    a: *mut c_void,
    n: usize,
    prot: c_int,
    fl: c_int,
    fd: c_int,
    off: i64,
) -> *mut c_void {
    if fd >= FD_BASE {
        unsupported("mmap of a database file");
        *__errno_location() = EINVAL;
        return -1isize as *mut c_void;
    }
    syscall(SYS_MMAP, a, n, prot, fl, fd, off) as *mut c_void
}

// ----- directories ---------------------------------------------------------------------------

/// struct dirent64 of the C library
#[repr(C)]
struct Dirent {
    ino: u64,
    off: i64,
    reclen: u16,
    typ: u8,
    name: [u8; 256],
}
const DIR_MAGIC: u64 = 0x5349_4d44_4952_0001;
struct SimDir {
    magic: u64,
    fd: c_int,
    entries: Vec<(String, bool, u64)>,
    at: usize,
    cur: Dirent,
}
static mut SIM_DIRS: Vec<usize> = vec![];
#[allow(static_mut_refs)]
unsafe fn sim_dir<'a>(d: *mut c_void) -> Option<&'a mut SimDir> {
    if SIM_DIRS.contains(&(d as usize)) {
        Some(&mut *(d as *mut SimDir))
    } else {
        None
    }
}
extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}
unsafe fn next_fn(name: &CStr) -> *mut c_void {
    dlsym(-1isize as *mut c_void, name.as_ptr())
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let p = match sim_path(path) {
        Some(p) => p,
        None => {
            let f: extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(next_fn(c"opendir"));
            return f(path);
        }
    };
    match lookup(&p) {
        Some((true, _, _)) => (),
        x => {
            err(if x.is_some() { ENOTDIR } else { ENOENT });
            return std::ptr::null_mut();
        }
    }
    let fd = do_open(p.clone(), O_DIRECTORY);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    let pre = format!("{}/", p);
    let w = world();
    let mut entries: Vec<(String, bool, u64)> = vec![(".".into(), true, 1), ("..".into(), true, 1)];
    for (k, n) in w.disk.tree.iter() {
        if let Some(r) = k.strip_prefix(&pre) {
            if !r.contains('/') {
                let (d, i) = match n {
                    Node::Dir { .. } => (true, 1),
                    Node::File(i) => (false, 2 + *i as u64),
                };
                entries.push((r.to_string(), d, i));
            }
        }
    }
    let d = Box::new(SimDir {
        magic: DIR_MAGIC,
        fd,
        entries,
        at: 0,
        cur: Dirent { ino: 0, off: 0, reclen: 280, typ: 0, name: [0; 256] },
    });
    let d = Box::into_raw(d);
    w.dir_fds.insert(fd, p);
    SIM_DIRS.push(d as usize);
    d as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    match sim_dir(d) {
        Some(s) => {
            debug_assert_eq!(s.magic, DIR_MAGIC);
            if s.at >= s.entries.len() {
                return std::ptr::null_mut();
            }
            let w = world();
            if let Dec::Err(e) = w.decide(C_READ, "readdir", s.at as u64, 0) {
                err(e);
                return std::ptr::null_mut();
            }
            let (name, dir, ino) = &s.entries[s.at];
            s.at += 1;
            s.cur.ino = *ino;
            s.cur.off = s.at as i64;
            s.cur.typ = if *dir { 4 } else { 8 };
            let n = name.len().min(255);
            s.cur.name[..n].copy_from_slice(&name.as_bytes()[..n]);
            s.cur.name[n] = 0;
            &mut s.cur as *mut Dirent as *mut c_void
        }
        None => {
            let f: extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(next_fn(c"readdir64"));
            f(d)
        }
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if let Some(s) = sim_dir(d) {
        let fd = s.fd;
        SIM_DIRS.retain(|x| *x != d as usize);
        drop(Box::from_raw(d as *mut SimDir));
        world().dir_fds.remove(&fd);
        return close(fd);
    }
    let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next_fn(c"closedir"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if let Some(s) = sim_dir(d) {
        return s.fd;
    }
    let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next_fn(c"dirfd"));
    f(d)
}
/// the resolved path, in memory that the caller frees
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, to: *mut c_char) -> *mut c_char {
    match sim_path(path) {
        Some(p) => {
            if lookup(&p).is_none() {
                err(ENOENT);
                return std::ptr::null_mut();
            }
            if !to.is_null() {
                unsupported("realpath into a buffer");
                return std::ptr::null_mut();
            }
            extern "C" {
                fn malloc(n: usize) -> *mut c_void;
            }
            let m = malloc(p.len() + 1) as *mut u8;
            std::ptr::copy_nonoverlapping(p.as_ptr(), m, p.len());
            *m.add(p.len()) = 0;
            m as *mut c_char
        }
        None => {
            let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next_fn(c"realpath"));
            f(path, to)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, fl: c_int) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(x), Some(y)) => {
            let w = world();
            if let Dec::Err(e) = w.decide(C_OPEN, "link", path_arg(&x), 0) {
                return err(e);
            }
            if w.disk.tree.contains_key(&y) {
                return err(EEXIST);
            }
            match w.disk.tree.get(&x) {
                Some(Node::File(i)) => {
                    let i = *i;
                    w.disk.tree.insert(y, Node::File(i));
                    0
                }
                Some(_) => err(EACCES),
                None => err(ENOENT),
            }
        }
        (None, None) => syscall(SYS_LINKAT, da, a, db, b, fl) as c_int,
        _ => {
            unsupported("link across the simulation boundary");
            err(EINVAL)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(-100, a, -100, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: u32) -> c_int {
    if fd < FD_BASE {
        return syscall(SYS_FCHMOD, fd, mode) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: u32) -> c_int {
    match sim_path(path) {
        Some(p) => {
            if lookup(&p).is_some() {
                0
            } else {
                err(ENOENT)
            }
        }
        None => syscall(SYS_CHMOD, path, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: usize) -> isize {
    if o < FD_BASE && i < FD_BASE {
        return syscall(SYS_SENDFILE, o, i, off, n) as isize;
    }
    // the standard library copies by hand then
    err(ENOSYS) as isize
}
