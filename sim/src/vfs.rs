//! A simulated file system, advisory locks and clock below the real std / fs4 / brec code:
//! the libc entry points they call are defined here. Paths under /simfs/ (and descriptors
//! opened there) live in the simulated world of the running simulation; everything else goes
//! to the kernel. Clock and sleep are virtual inside simulated tasks only.

use crate::core::*;
use crate::coro;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{CStr, c_char, c_int, c_long, c_void};

pub const ROOT: &str = "/simfs/";
const FD0: c_int = 1_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Open,
    Flock,
    Read,
    Write,
    Seek,
    Stat,
}

/// One planned failure: the n-th system call of this kind made by `task` on a path ending in `suffix`.
#[derive(Clone)]
pub struct Fail {
    pub op: Op,
    pub task: usize,
    pub suffix: &'static str,
    pub after: u64,
    pub errno: i32,
}

#[derive(Default)]
struct Inode {
    data: Vec<u8>,
    /// Counts the changes of the content.
    version: u64,
    dir: bool,
    /// Open file descriptions holding the lock.
    excl: Option<usize>,
    shared: Vec<usize>,
    /// When the lock became free.
    freed: u64,
    /// How long the lock had been free when it was taken last.
    idle: u64,
}

struct Ofd {
    ino: usize,
    pos: u64,
    owner: usize,
    refs: u32,
    append: bool,
    readable: bool,
    writable: bool,
    path: String,
}

#[derive(Default)]
pub struct World {
    inodes: Vec<Inode>,
    names: BTreeMap<String, usize>,
    ofds: Vec<Option<Ofd>>,
    fds: BTreeMap<c_int, usize>,
    next_fd: c_int,
    pub fails: Vec<Fail>,
    /// Countdown to the next short transfer.
    pub shorts: Option<u64>,
    pub short_bits: u64,
    /// Offset of the wall clock against the monotonic one (may jump).
    pub wall: i64,
    /// When it jumps, and by how much.
    jumps: Vec<(u64, i64)>,
    pub calls: u64,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn start() {
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            next_fd: FD0,
            wall: 1_700_000_000_000_000_000,
            ..Default::default()
        })
    });
}

/// The wall clock is set now and then during the next `span` ns, forwards or backwards, by little or much.
pub fn jumps(span: u64) {
    for _ in 0..range(1, 4) {
        let at = now() + pick(span + 1);
        let by = (1 + logsize(42)) as i64;
        let by = if chance(1, 2) { by } else { -by };
        fault("wall_clock_jump", by.unsigned_abs());
        world(|w| w.jumps.push((at, by)));
    }
}

pub fn reset() {
    WORLD.with(|w| *w.borrow_mut() = None);
}

fn with<T>(f: impl FnOnce(&mut World) -> T) -> Option<T> {
    WORLD
        .try_with(|w| w.try_borrow_mut().ok().and_then(|mut w| w.as_mut().map(f)))
        .ok()
        .flatten()
}

pub fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    with(f).expect("simulated file system")
}

pub fn put(path: &str, data: Vec<u8>) {
    world(|w| {
        let ino = w.inodes.len();
        w.inodes.push(Inode { data, ..Default::default() });
        w.names.insert(path.to_string(), ino);
    })
}

pub fn mkdir(path: &str) {
    world(|w| {
        let ino = w.inodes.len();
        w.inodes.push(Inode { dir: true, ..Default::default() });
        w.names.insert(path.to_string(), ino);
    })
}

pub fn content(path: &str) -> Option<Vec<u8>> {
    world(|w| w.names.get(path).map(|i| w.inodes[*i].data.clone()))
}

/// Number of changes of a file and its size, if there is one.
pub fn version(path: &str) -> Option<(u64, u64)> {
    world(|w| w.names.get(path).map(|i| (w.inodes[*i].version, w.inodes[*i].data.len() as u64)))
}

/// Are these bytes in the file at this position?
pub fn holds(path: &str, at: u64, bytes: &[u8]) -> bool {
    world(|w| {
        w.names
            .get(path)
            .map(|i| w.inodes[*i].data.get(at as usize..).is_some_and(|d| d.starts_with(bytes)))
            .unwrap_or(false)
    })
}

/// Is anyone holding the lock of this file?
pub fn locked(path: &str) -> bool {
    world(|w| {
        w.names
            .get(path)
            .map(|i| w.inodes[*i].excl.is_some() || !w.inodes[*i].shared.is_empty())
            .unwrap_or(false)
    })
}

/// Number of open descriptions owned by a task.
pub fn open_of(task: usize) -> usize {
    world(|w| w.ofds.iter().flatten().filter(|o| o.owner == task).count())
}

/// The kernel's cleanup after a process died.
pub fn kill(task: usize) {
    world(|w| {
        for i in 0..w.ofds.len() {
            if w.ofds[i].as_ref().map(|o| o.owner == task).unwrap_or(false) {
                w.drop_ofd(i);
                w.fds.retain(|_, o| *o != i);
            }
        }
    })
}

impl Inode {
    fn unlock(&mut self, o: usize) {
        let held = self.excl.is_some() || !self.shared.is_empty();
        if self.excl == Some(o) {
            self.excl = None;
        }
        self.shared.retain(|s| *s != o);
        if held && self.excl.is_none() && self.shared.is_empty() {
            self.freed = now();
        }
    }
}

/// Since when nobody holds the lock of this file (None: somebody does, or there is no file).
pub fn free_since(path: &str) -> Option<u64> {
    world(|w| {
        let n = &w.inodes[*w.names.get(path)?];
        if n.excl.is_some() || !n.shared.is_empty() { None } else { Some(n.freed) }
    })
}

/// For how long the lock, which is held now, had been free before.
pub fn idle_before(path: &str) -> Option<u64> {
    world(|w| {
        let n = &w.inodes[*w.names.get(path)?];
        n.excl.map(|_| n.idle)
    })
}

impl World {
    fn drop_ofd(&mut self, i: usize) {
        if let Some(o) = self.ofds[i].take() {
            let n = &mut self.inodes[o.ino];
            n.unlock(i);
        }
    }
    fn fault(&mut self, op: Op, path: &str) -> Option<i32> {
        let task = coro::current();
        for i in 0..self.fails.len() {
            let f = &mut self.fails[i];
            if f.op == op && f.task == task && path.ends_with(f.suffix) {
                if f.after == 0 {
                    let e = f.errno;
                    self.fails.remove(i);
                    return Some(e);
                }
                f.after -= 1;
            }
        }
        None
    }
    fn short(&mut self, n: usize) -> usize {
        match self.shorts.as_mut() {
            Some(0) if n > 1 => {
                let k = 1 + pick(n as u64 - 1) as usize;
                self.shorts = gap(self.short_bits);
                fault("short_transfer", k as u64);
                k
            }
            Some(0) => n,
            Some(c) => {
                *c -= 1;
                n
            }
            None => n,
        }
    }
}

fn err(e: i32) -> c_long {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn name(e: i32) -> &'static str {
    match e {
        libc::EINTR => "eintr_syscall",
        libc::EIO => "eio_syscall",
        libc::ENOSPC => "enospc_syscall",
        libc::EMFILE => "emfile_open",
        libc::EACCES => "eacces_open",
        libc::ENOLCK => "enolck_flock",
        _ => "failed_syscall",
    }
}

fn simulated() -> bool {
    active() && with(|_| ()).is_some()
}

/// A scheduling point in front of a simulated system call; true if the caller is dead.
fn enter(kind: &'static str, a: u64) -> bool {
    if coro::dead() {
        coro::step_ffi();
        return true;
    }
    if io_op_ffi() {
        return true;
    }
    coro::step_ffi();
    if !coro::dead() {
        ev(kind, coro::current() as u64, a);
    }
    coro::dead()
}

/// The same without a log entry (reads and seeks are frequent).
fn enter_quiet() -> bool {
    if coro::dead() {
        coro::step_ffi();
        return true;
    }
    if io_op_ffi() {
        return true;
    }
    coro::step_ffi();
    coro::dead()
}

unsafe fn vpath(p: *const c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = unsafe { CStr::from_ptr(p) }.to_bytes();
    if s.starts_with(ROOT.as_bytes()) && simulated() {
        Some(String::from_utf8_lossy(s).into_owned())
    } else {
        None
    }
}

fn is_vfd(fd: c_int) -> bool {
    fd >= FD0 && simulated()
}

fn do_open(path: String, flags: c_int) -> c_int {
    if enter("open", hash_bytes(path.as_bytes()) & 0xffff) {
        return err(libc::EIO) as c_int;
    }
    let r = world(|w| {
        if let Some(e) = w.fault(Op::Open, &path) {
            return Err(e);
        }
        let ino = match w.names.get(&path) {
            Some(i) => {
                if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                    return Err(libc::EEXIST);
                }
                if w.inodes[*i].dir && flags & (libc::O_WRONLY | libc::O_RDWR) != 0 {
                    return Err(libc::EISDIR);
                }
                *i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                let i = w.inodes.len();
                w.inodes.push(Inode::default());
                w.names.insert(path.clone(), i);
                i
            }
        };
        if flags & libc::O_TRUNC != 0 {
            w.inodes[ino].data.clear();
        }
        let acc = flags & libc::O_ACCMODE;
        let o = w.ofds.len();
        w.ofds.push(Some(Ofd {
            ino,
            pos: 0,
            owner: coro::current(),
            refs: 1,
            append: flags & libc::O_APPEND != 0,
            readable: acc != libc::O_WRONLY,
            writable: acc != libc::O_RDONLY,
            path: path.clone(),
        }));
        let fd = w.next_fd;
        w.next_fd += 1;
        w.fds.insert(fd, o);
        Ok(fd)
    });
    match r {
        Ok(fd) => fd,
        Err(e) => {
            if e != libc::ENOENT && e != libc::EEXIST {
                fault(name(e), 0);
            }
            err(e) as c_int
        }
    }
}

fn do_close(fd: c_int) -> c_int {
    if enter("close", 0) {
        return 0;
    }
    world(|w| match w.fds.remove(&fd) {
        None => err(libc::EBADF) as c_int,
        Some(o) => {
            let last = {
                let f = w.ofds[o].as_mut().expect("ofd");
                f.refs -= 1;
                f.refs == 0
            };
            if last {
                w.drop_ofd(o);
            }
            0
        }
    })
}

/// `at`: explicit offset (pread/pwrite) or the description's own position.
fn do_read(fd: c_int, buf: &mut [u8], at: Option<u64>) -> isize {
    if buf.is_empty() {
        return 0;
    }
    // reads are frequent (8 bytes at a time): a scheduling point, but no log entry
    if enter_quiet() {
        return err(libc::EIO) as isize;
    }
    let r = world(|w| {
        let Some(o) = w.fds.get(&fd).copied() else { return Err(libc::EBADF) };
        let (ino, pos, path, ok) = {
            let f = w.ofds[o].as_ref().expect("ofd");
            (f.ino, at.unwrap_or(f.pos), f.path.clone(), f.readable)
        };
        if !ok {
            return Err(libc::EBADF);
        }
        if let Some(e) = w.fault(Op::Read, &path) {
            return Err(e);
        }
        let len = w.inodes[ino].data.len() as u64;
        let n = (len.saturating_sub(pos) as usize).min(buf.len());
        let n = if n > 0 { w.short(n) } else { 0 };
        buf[..n].copy_from_slice(&w.inodes[ino].data[pos as usize..pos as usize + n]);
        if at.is_none() {
            w.ofds[o].as_mut().expect("ofd").pos = pos + n as u64;
        }
        Ok(n)
    });
    match r {
        Ok(n) => n as isize,
        Err(e) => {
            fault(name(e), 0);
            err(e) as isize
        }
    }
}

fn do_write(fd: c_int, buf: &[u8], at: Option<u64>) -> isize {
    if buf.is_empty() {
        return 0;
    }
    if enter("write", buf.len() as u64) {
        // the dead do not write, but they must not spin either
        return buf.len() as isize;
    }
    let r = world(|w| {
        let Some(o) = w.fds.get(&fd).copied() else { return Err(libc::EBADF) };
        let (ino, pos, path, append, ok) = {
            let f = w.ofds[o].as_ref().expect("ofd");
            (f.ino, at.unwrap_or(f.pos), f.path.clone(), f.append, f.writable)
        };
        if !ok {
            return Err(libc::EBADF);
        }
        if let Some(e) = w.fault(Op::Write, &path) {
            return Err(e);
        }
        let pos = if append { w.inodes[ino].data.len() as u64 } else { pos };
        let n = w.short(buf.len());
        let d = &mut w.inodes[ino].data;
        let end = pos as usize + n;
        if d.len() < end {
            d.resize(end, 0);
        }
        d[pos as usize..end].copy_from_slice(&buf[..n]);
        w.inodes[ino].version += 1;
        if at.is_none() {
            w.ofds[o].as_mut().expect("ofd").pos = pos + n as u64;
        }
        Ok(n)
    });
    match r {
        Ok(n) => n as isize,
        Err(e) => {
            fault(name(e), 0);
            err(e) as isize
        }
    }
}

fn do_seek(fd: c_int, off: i64, whence: c_int) -> i64 {
    if enter_quiet() {
        return err(libc::EIO);
    }
    let r = world(|w| {
        let Some(o) = w.fds.get(&fd).copied() else { return Err(libc::EBADF) };
        let path = w.ofds[o].as_ref().expect("ofd").path.clone();
        if let Some(e) = w.fault(Op::Seek, &path) {
            return Err(e);
        }
        let ino = w.ofds[o].as_ref().expect("ofd").ino;
        let len = w.inodes[ino].data.len() as i64;
        let f = w.ofds[o].as_mut().expect("ofd");
        let p = match whence {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => f.pos as i64 + off,
            libc::SEEK_END => len + off,
            _ => return Err(libc::EINVAL),
        };
        if p < 0 {
            return Err(libc::EINVAL);
        }
        f.pos = p as u64;
        Ok(p)
    });
    match r {
        Ok(p) => p,
        Err(e) => err(e),
    }
}

fn do_flock(fd: c_int, op: c_int) -> c_int {
    loop {
        if enter("flock", op as u64) {
            return err(libc::EIO) as c_int;
        }
        let r = world(|w| {
            let Some(o) = w.fds.get(&fd).copied() else { return Err(libc::EBADF) };
            let (ino, path) = {
                let f = w.ofds[o].as_ref().expect("ofd");
                (f.ino, f.path.clone())
            };
            if let Some(e) = w.fault(Op::Flock, &path) {
                fault(name(e), 0);
                return Err(e);
            }
            let n = &mut w.inodes[ino];
            match op & !libc::LOCK_NB {
                libc::LOCK_UN => {
                    n.unlock(o);
                    Ok(())
                }
                libc::LOCK_EX => {
                    if n.excl.is_none_or(|x| x == o) && n.shared.iter().all(|s| *s == o) {
                        if n.excl.is_none() && n.shared.is_empty() {
                            n.idle = now() - n.freed;
                        }
                        n.shared.clear();
                        n.excl = Some(o);
                        Ok(())
                    } else {
                        Err(libc::EWOULDBLOCK)
                    }
                }
                libc::LOCK_SH => {
                    if n.excl.is_none_or(|x| x == o) {
                        n.excl = None;
                        if !n.shared.contains(&o) {
                            n.shared.push(o);
                        }
                        Ok(())
                    } else {
                        Err(libc::EWOULDBLOCK)
                    }
                }
                _ => Err(libc::EINVAL),
            }
        });
        match r {
            Ok(()) => return 0,
            Err(libc::EWOULDBLOCK) if op & libc::LOCK_NB == 0 && coro::in_task() => {
                // a blocking lock: the process waits in the kernel
                coro::sleep(1_000_000);
            }
            Err(e) => return err(e) as c_int,
        }
    }
}

fn look(path: Option<&str>, fd: c_int) -> Result<(u32, i64, u64), i32> {
    world(|w| {
        let ino = match path {
            Some(p) => {
                if let Some(e) = w.fault(Op::Stat, p) {
                    return Err(e);
                }
                match w.names.get(p) {
                    Some(i) => *i,
                    None => return Err(libc::ENOENT),
                }
            }
            None => match w.fds.get(&fd) {
                Some(o) => w.ofds[*o].as_ref().expect("ofd").ino,
                None => return Err(libc::EBADF),
            },
        };
        let n = &w.inodes[ino];
        let mode = if n.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
        Ok((mode, n.data.len() as i64, ino as u64 + 10))
    })
}

unsafe fn do_stat(path: Option<&str>, fd: c_int, st: *mut libc::stat) -> c_int {
    if enter("stat", 0) {
        return err(libc::EIO) as c_int;
    }
    match look(path, fd) {
        Err(e) => err(e) as c_int,
        Ok((mode, size, ino)) => {
            unsafe {
                std::ptr::write_bytes(st, 0, 1);
                (*st).st_mode = mode;
                (*st).st_size = size;
                (*st).st_ino = ino;
                (*st).st_nlink = 1;
            }
            0
        }
    }
}

fn do_unlink(path: &str) -> c_int {
    if enter("unlink", 0) {
        return err(libc::EIO) as c_int;
    }
    world(|w| match w.names.remove(path) {
        Some(_) => 0,
        None => err(libc::ENOENT) as c_int,
    })
}

fn do_rename(a: &str, b: &str) -> c_int {
    if enter("rename", 0) {
        return err(libc::EIO) as c_int;
    }
    world(|w| match w.names.remove(a) {
        Some(i) => {
            w.names.insert(b.to_string(), i);
            0
        }
        None => err(libc::ENOENT) as c_int,
    })
}

fn do_trunc(fd: c_int, len: i64) -> c_int {
    if enter("ftruncate", len as u64) {
        return err(libc::EIO) as c_int;
    }
    world(|w| {
        let Some(o) = w.fds.get(&fd).copied() else { return err(libc::EBADF) as c_int };
        let ino = w.ofds[o].as_ref().expect("ofd").ino;
        w.inodes[ino].data.resize(len as usize, 0);
        w.inodes[ino].version += 1;
        0
    })
}

macro_rules! raw {
    ($n:expr $(, $a:expr)*) => {{
        let mut args = [0i64; 6];
        let mut at = 0;
        $( args[at] = $a as i64; at += 1; )*
        let _ = at;
        raw_ret($n, args)
    }};
}

// ---------------------------------------------------------------- libc entry points

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    match unsafe { vpath(p) } {
        Some(s) => do_open(s, flags),
        None => unsafe { raw!(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe { open64(p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    match unsafe { vpath(p) } {
        Some(s) => do_open(s, flags),
        None => unsafe { raw!(libc::SYS_openat, dir, p, flags, mode) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    unsafe { openat64(dir, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD0 {
        if is_vfd(fd) { do_close(fd) } else { 0 }
    } else {
        unsafe { raw!(libc::SYS_close, fd) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if is_vfd(fd) {
        do_read(fd, unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) }, None)
    } else {
        unsafe { raw!(libc::SYS_read, fd, buf, n) as isize }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    if is_vfd(fd) {
        do_read(fd, unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) }, Some(off as u64))
    } else {
        unsafe { raw!(libc::SYS_pread64, fd, buf, n, off) as isize }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if is_vfd(fd) {
        let v = unsafe { std::slice::from_raw_parts(v, n as usize) };
        match v.iter().find(|x| x.iov_len > 0) {
            None => 0,
            Some(x) => do_read(fd, unsafe { std::slice::from_raw_parts_mut(x.iov_base as *mut u8, x.iov_len) }, None),
        }
    } else {
        unsafe { raw!(libc::SYS_readv, fd, v, n) as isize }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if is_vfd(fd) {
        do_write(fd, unsafe { std::slice::from_raw_parts(buf as *const u8, n) }, None)
    } else {
        unsafe { raw!(libc::SYS_write, fd, buf, n) as isize }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if is_vfd(fd) {
        do_write(fd, unsafe { std::slice::from_raw_parts(buf as *const u8, n) }, Some(off as u64))
    } else {
        unsafe { raw!(libc::SYS_pwrite64, fd, buf, n, off) as isize }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if is_vfd(fd) {
        let v = unsafe { std::slice::from_raw_parts(v, n as usize) };
        let mut all = Vec::new();
        for x in v {
            all.extend_from_slice(unsafe { std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len) });
        }
        do_write(fd, &all, None)
    } else {
        unsafe { raw!(libc::SYS_writev, fd, v, n) as isize }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if is_vfd(fd) {
        do_seek(fd, off, whence)
    } else {
        unsafe { raw!(libc::SYS_lseek, fd, off, whence) }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    unsafe { lseek64(fd, off, whence) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if is_vfd(fd) {
        do_flock(fd, op)
    } else {
        unsafe { raw!(libc::SYS_flock, fd, op) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if is_vfd(fd) {
        match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => world(|w| match w.fds.get(&fd).copied() {
                None => err(libc::EBADF) as c_int,
                Some(o) => {
                    w.ofds[o].as_mut().expect("ofd").refs += 1;
                    let n = w.next_fd;
                    w.next_fd += 1;
                    w.fds.insert(n, o);
                    n
                }
            }),
            libc::F_GETFD => {
                // std asks before it closes; the descriptors of a ghost are gone already
                if coro::dead() || world(|w| w.fds.contains_key(&fd)) {
                    libc::FD_CLOEXEC
                } else {
                    err(libc::EBADF) as c_int
                }
            }
            libc::F_GETFL => libc::O_RDWR,
            _ => 0,
        }
    } else if fd >= FD0 {
        libc::FD_CLOEXEC
    } else {
        unsafe { raw!(libc::SYS_fcntl, fd, cmd, arg) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    unsafe { fcntl(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat) -> c_int {
    if is_vfd(fd) {
        unsafe { do_stat(None, fd, st) }
    } else {
        unsafe { raw!(libc::SYS_fstat, fd, st) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat) -> c_int {
    unsafe { fstat64(fd, st) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat) -> c_int {
    match unsafe { vpath(p) } {
        Some(s) => unsafe { do_stat(Some(&s), -1, st) },
        None => unsafe { raw!(libc::SYS_newfstatat, libc::AT_FDCWD, p, st, 0) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat) -> c_int {
    match unsafe { vpath(p) } {
        Some(s) => unsafe { do_stat(Some(&s), -1, st) },
        None => unsafe {
            raw!(libc::SYS_newfstatat, libc::AT_FDCWD, p, st, libc::AT_SYMLINK_NOFOLLOW) as c_int
        },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(
    dir: c_int,
    p: *const c_char,
    flags: c_int,
    mask: u32,
    out: *mut libc::statx,
) -> c_int {
    let path = unsafe { vpath(p) };
    let by_fd = is_vfd(dir) && !p.is_null() && unsafe { *p } == 0;
    if path.is_none() && !by_fd {
        return unsafe { raw!(libc::SYS_statx, dir, p, flags, mask, out) as c_int };
    }
    if enter("statx", 0) {
        return err(libc::EIO) as c_int;
    }
    match look(path.as_deref(), dir) {
        Err(e) => err(e) as c_int,
        Ok((mode, size, ino)) => {
            unsafe {
                std::ptr::write_bytes(out, 0, 1);
                (*out).stx_mask = libc::STATX_BASIC_STATS;
                (*out).stx_mode = mode as u16;
                (*out).stx_size = size as u64;
                (*out).stx_ino = ino;
                (*out).stx_nlink = 1;
            }
            0
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    match unsafe { vpath(p) } {
        Some(s) => match look(Some(&s), -1) {
            Ok(_) => 0,
            Err(e) => err(e) as c_int,
        },
        None => unsafe { raw!(libc::SYS_faccessat, libc::AT_FDCWD, p, mode) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if is_vfd(fd) {
        do_trunc(fd, len)
    } else {
        unsafe { raw!(libc::SYS_ftruncate, fd, len) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if is_vfd(fd) {
        enter("fsync", 0);
        0
    } else {
        unsafe { raw!(libc::SYS_fsync, fd) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if is_vfd(fd) {
        enter("fsync", 0);
        0
    } else {
        unsafe { raw!(libc::SYS_fdatasync, fd) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match unsafe { vpath(p) } {
        Some(s) => do_unlink(&s),
        None => unsafe { raw!(libc::SYS_unlink, p) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (unsafe { vpath(a) }, unsafe { vpath(b) }) {
        (Some(a), Some(b)) => do_rename(&a, &b),
        _ => unsafe { raw!(libc::SYS_rename, a, b) as c_int },
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    match unsafe { vpath(p) } {
        // the simulated tree has no links
        Some(s) => match look(Some(&s), -1) {
            Ok(_) => unsafe { if out.is_null() { libc::strdup(p) } else { libc::strcpy(out, p) } },
            Err(e) => {
                err(e);
                std::ptr::null_mut()
            }
        },
        None => unsafe {
            let f = libc::dlsym(libc::RTLD_NEXT, c"realpath".as_ptr());
            let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(f);
            f(p, out)
        },
    }
}

fn virtual_time() -> bool {
    active() && coro::in_task()
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if virtual_time() {
        let mut ns = now() as i64;
        if id == libc::CLOCK_REALTIME {
            ns += with(|w| {
                let now = now();
                w.wall + w.jumps.iter().filter(|(at, _)| *at <= now).map(|(_, by)| *by).sum::<i64>()
            })
            .unwrap_or(0);
        }
        unsafe {
            (*ts).tv_sec = ns / 1_000_000_000;
            (*ts).tv_nsec = ns % 1_000_000_000;
        }
        0
    } else {
        unsafe { raw!(libc::SYS_clock_gettime, id, ts) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if virtual_time() {
        let ns = unsafe { (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64 };
        ev("sleep", coro::current() as u64, ns);
        coro::sleep(ns);
        0
    } else {
        unsafe { raw!(libc::SYS_nanosleep, req, rem) as c_int }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if virtual_time() {
        let mut ns = unsafe { (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64 };
        if flags & libc::TIMER_ABSTIME != 0 {
            ns = ns.saturating_sub(now());
        }
        ev("sleep", coro::current() as u64, ns);
        coro::sleep(ns);
        0
    } else {
        // returns the error number instead of setting errno
        let r = unsafe { raw!(libc::SYS_clock_nanosleep, id, flags, req, rem) };
        if r == 0 { 0 } else { unsafe { *libc::__errno_location() } }
    }
}

/// The real system call. (`syscall` itself is replaced below.)
unsafe fn raw_ret(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!(
            "syscall",
            inlateout("rax") n => r,
            in("rdi") a[0],
            in("rsi") a[1],
            in("rdx") a[2],
            in("r10") a[3],
            in("r8") a[4],
            in("r9") a[5],
            lateout("rcx") _,
            lateout("r11") _,
            options(nostack)
        );
    }
    if r < 0 && r >= -4095 {
        unsafe { *libc::__errno_location() = -r as c_int };
        -1
    } else {
        r
    }
}

/// Threads of the simulation share one real thread: waiting for a lock of the standard library
/// must let the others run instead of blocking all of them. Waking stays real, a waiting task
/// looks again by itself.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const CMD: i64 = 127;
    let cmd = b & CMD & !(libc::FUTEX_CLOCK_REALTIME as i64);
    if n == libc::SYS_futex
        && (cmd == libc::FUTEX_WAIT as i64 || cmd == libc::FUTEX_WAIT_BITSET as i64)
        && virtual_time()
        && !coro::dead()
    {
        let cell = unsafe { &*(a as *const std::sync::atomic::AtomicU32) };
        if cell.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
            return err(libc::EAGAIN);
        }
        let mut until = None;
        if d != 0 {
            let ts = unsafe { &*(d as *const libc::timespec) };
            let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
            until = Some(if cmd == libc::FUTEX_WAIT as i64 { now() + ns } else { ns });
        }
        ev("futex", coro::current() as u64, 0);
        coro::sleep(until.map_or(1_000, |u| u.saturating_sub(now()).min(1_000)));
        if until.is_some_and(|u| now() >= u) {
            return err(libc::ETIMEDOUT);
        }
        return 0;
    }
    unsafe { raw_ret(n, [a, b, c, d, e, f]) }
}
