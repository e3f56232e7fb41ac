//! What the code under test asks the operating system to do with its files: the calls that change files are
//! defined here, so every one made by this process comes through this file, and those below a watched
//! directory are recorded in order. The calls themselves are carried out unchanged, unless one of them is asked to
//! fail.
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t};
use std::{
    collections::BTreeMap,
    ffi::{CStr, OsStr},
    os::unix::ffi::OsStrExt,
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Arc, Mutex, RwLock,
    },
    time::{Duration, Instant},
};

#[derive(Debug, Clone)]
pub enum Op {
    Create(PathBuf),
    Mkdir(PathBuf),
    Write(PathBuf, u64, Vec<u8>),
    Trunc(PathBuf, u64),
    Sync(PathBuf),
    Rename(PathBuf, PathBuf),
    Unlink(PathBuf),
    /// Something the test did or was told, by its number.
    Mark(usize),
}
/// How a call fails.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fault {
    /// It has no effect, and those after it work again.
    Once,
    /// A write is carried out in part; the next one fails, and those after it work again.
    Short,
    /// A write is carried out in part; from then on nothing can be written.
    Full,
}
pub type Calls = BTreeMap<PathBuf, usize>;
/// The call with this number of those on a file, and how it fails.
pub type Spot = (PathBuf, usize, Fault);
/// Waits until no file below a directory is open: some are closed by a thread that nobody waits for.
pub fn settle(dir: &Path) {
    let dir = dir.canonicalize().expect("directory");
    let end = Instant::now() + Duration::from_secs(10);
    let open = || {
        std::fs::read_dir("/proc/self/fd").is_ok_and(|fds| fds.flatten().any(|f| std::fs::read_link(f.path()).is_ok_and(|p| p.starts_with(&dir))))
    };
    while open() && Instant::now() < end {
        std::thread::sleep(Duration::from_micros(200));
    }
}
#[derive(Default)]
struct Trouble {
    /// Changing calls so far, of each file: those of one file come in a certain order.
    calls: Calls,
    /// The call that is to fail.
    at: Option<Spot>,
    /// What was made to fail.
    hit: Option<String>,
    /// The writes that fail next.
    failing: usize,
}
/// What becomes of a call.
enum Fate {
    Done,
    Cut(usize),
    Refused(c_int),
}
#[derive(Default)]
struct Record {
    ops: Mutex<Vec<Op>>,
    trouble: Mutex<Trouble>,
}
impl Record {
    fn fate(&self, what: &str, path: &Path, write: Option<usize>) -> Fate {
        let mut t = self.trouble.lock().unwrap();
        let calls = t.calls.entry(path.to_owned()).or_default();
        let n = *calls;
        *calls += 1;
        if write.is_some() && t.failing > 0 {
            t.failing -= 1;
            return Fate::Refused(libc::ENOSPC);
        }
        match t.at.clone() {
            Some((p, at, fault)) if at == n && p == path => {
                t.hit = Some(format!("{what} {}", path.display()));
                match (fault, write) {
                    (Fault::Short | Fault::Full, Some(len)) => {
                        t.failing = if fault == Fault::Full { usize::MAX } else { 1 };
                        if len > 1 {
                            Fate::Cut(len / 2)
                        } else {
                            Fate::Refused(libc::ENOSPC)
                        }
                    }
                    _ => Fate::Refused(libc::EIO),
                }
            }
            _ => Fate::Done,
        }
    }
    fn refuses(&self, what: &str, path: &Path) -> bool {
        match self.fate(what, path, None) {
            Fate::Refused(e) => {
                errno(e);
                true
            }
            _ => false,
        }
    }
}
fn errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
type Sink = Arc<Record>;
static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static ROOTS: RwLock<Vec<(PathBuf, Sink)>> = RwLock::new(Vec::new());

pub struct Watch {
    root: PathBuf,
    sink: Sink,
}
impl Watch {
    /// Records what happens below `root` from now on; the paths recorded are relative to it.
    pub fn new(root: &Path) -> Self {
        let root = root.canonicalize().expect("watched directory");
        let sink = Sink::default();
        ROOTS.write().unwrap().push((root.clone(), sink.clone()));
        ACTIVE.fetch_add(1, SeqCst);
        Self { root, sink }
    }
    pub fn mark(&self, n: usize) {
        self.sink.ops.lock().unwrap().push(Op::Mark(n));
    }
    pub fn take(self) -> Vec<Op> {
        std::mem::take(&mut self.sink.ops.lock().unwrap())
    }
    /// From now on calls are counted from 0, and the one with this number fails.
    pub fn arm(&self, at: Option<Spot>) {
        *self.sink.trouble.lock().unwrap() = Trouble { at, ..Default::default() };
    }
    /// Calls since it was armed, and which of them was made to fail.
    pub fn disarm(&self) -> (Calls, Option<String>) {
        let t = std::mem::take(&mut *self.sink.trouble.lock().unwrap());
        (t.calls, t.hit)
    }
    pub fn hit(&self) -> bool {
        self.sink.trouble.lock().unwrap().hit.is_some()
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        ACTIVE.fetch_sub(1, SeqCst);
        ROOTS.write().unwrap().retain(|r| r.0 != self.root);
    }
}

fn sink(path: &Path) -> Option<(PathBuf, Sink)> {
    ROOTS.read().unwrap().iter().find_map(|(r, s)| Some((path.strip_prefix(r).ok()?.to_owned(), s.clone())))
}
fn fd_path(fd: c_int) -> Option<PathBuf> {
    let link = format!("/proc/self/fd/{fd}\0");
    let mut buf = [0u8; 1024];
    let n = unsafe { libc::readlink(link.as_ptr() as *const c_char, buf.as_mut_ptr() as *mut c_char, buf.len()) };
    (n > 0).then(|| PathBuf::from(OsStr::from_bytes(&buf[..n as usize])))
}
fn fd_sink(fd: c_int) -> Option<(PathBuf, Sink)> {
    if ACTIVE.load(SeqCst) == 0 {
        return None;
    }
    sink(&fd_path(fd)?)
}
unsafe fn c_path(dir: c_int, p: *const c_char) -> Option<(PathBuf, Sink)> {
    if ACTIVE.load(SeqCst) == 0 || p.is_null() {
        return None;
    }
    let p = Path::new(OsStr::from_bytes(unsafe { CStr::from_ptr(p) }.to_bytes()));
    if p.is_absolute() {
        // the watched directory's own name is already canonical
        sink(p)
    } else if dir == libc::AT_FDCWD {
        None
    } else {
        sink(&fd_path(dir)?.join(p))
    }
}
fn put(s: &Sink, op: Op) {
    s.ops.lock().unwrap().push(op);
}
fn exists(dir: c_int, p: *const c_char) -> bool {
    unsafe { libc::syscall(libc::SYS_faccessat, dir, p, libc::F_OK) == 0 }
}
unsafe fn wrote(fd: c_int, at: Option<u64>, parts: &[(*const c_void, usize)], call: impl FnOnce() -> ssize_t) -> ssize_t {
    let Some((path, s)) = fd_sink(fd) else { return call() };
    let explicit = at.is_some();
    let mut cut = None;
    match s.fate("write to", &path, Some(parts.iter().map(|p| p.1).sum())) {
        Fate::Done => {}
        Fate::Cut(n) => cut = Some(n),
        Fate::Refused(e) => {
            errno(e);
            return -1;
        }
    }
    let at = at.unwrap_or_else(|| unsafe {
        if libc::fcntl(fd, libc::F_GETFL) & libc::O_APPEND != 0 {
            let mut st: libc::stat64 = std::mem::zeroed();
            libc::fstat64(fd, &mut st);
            st.st_size as u64
        } else {
            libc::lseek64(fd, 0, libc::SEEK_CUR) as u64
        }
    });
    let r = match cut {
        // only simple writes are cut
        Some(n) if parts.len() == 1 => unsafe { libc::syscall(libc::SYS_pwrite64, fd, parts[0].0, n, at) as ssize_t },
        _ => call(),
    };
    if cut.is_some() && !explicit && parts.len() == 1 && r > 0 && unsafe { libc::fcntl(fd, libc::F_GETFL) } & libc::O_APPEND == 0 {
        unsafe { libc::lseek64(fd, (at + r as u64) as off64_t, libc::SEEK_SET) };
    }
    if r > 0 {
        let mut data = vec![];
        for (p, n) in parts {
            data.extend_from_slice(unsafe { std::slice::from_raw_parts(*p as *const u8, *n) });
        }
        data.truncate(r as usize);
        put(&s, Op::Write(path, at, data));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    wrote(fd, None, &[(p, n)], || libc::syscall(libc::SYS_write, fd, p, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: size_t, at: off64_t) -> ssize_t {
    wrote(fd, Some(at as u64), &[(p, n)], || libc::syscall(libc::SYS_pwrite64, fd, p, n, at) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    let parts: Vec<_> = std::slice::from_raw_parts(v, n as usize).iter().map(|v| (v.iov_base as *const c_void, v.iov_len)).collect();
    wrote(fd, None, &parts, || libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t)
}
unsafe fn synced(fd: c_int, nr: libc::c_long) -> c_int {
    let s = fd_sink(fd);
    if s.as_ref().is_some_and(|(p, s)| s.refuses("sync of", p)) {
        return -1;
    }
    let r = libc::syscall(nr, fd) as c_int;
    if let (0, Some((path, s))) = (r, s) {
        put(&s, Op::Sync(path));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    synced(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    synced(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let s = fd_sink(fd);
    if s.as_ref().is_some_and(|(p, s)| s.refuses("truncation of", p)) {
        return -1;
    }
    let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    if let (0, Some((path, s))) = (r, s) {
        put(&s, Op::Trunc(path, len as u64));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
unsafe fn opened(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let s = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 { c_path(dir, p) } else { None };
    let was = s.is_some() && exists(dir, p);
    if !was && s.as_ref().is_some_and(|(p, s)| s.refuses("creation of", p)) {
        return -1;
    }
    let r = libc::syscall(libc::SYS_openat, dir, p, flags, mode) as c_int;
    if let (true, Some((path, s))) = (r >= 0, s) {
        if !was {
            put(&s, Op::Create(path));
        } else if flags & libc::O_TRUNC != 0 {
            put(&s, Op::Trunc(path, 0));
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    opened(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    opened(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    opened(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    opened(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    let s = c_path(libc::AT_FDCWD, p);
    if !exists(libc::AT_FDCWD, p) && s.as_ref().is_some_and(|(p, s)| s.refuses("creation of", p)) {
        return -1;
    }
    let r = libc::syscall(libc::SYS_mkdir, p, mode) as c_int;
    if let (0, Some((path, s))) = (r, s) {
        put(&s, Op::Mkdir(path));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (x, y) = (c_path(libc::AT_FDCWD, a), c_path(libc::AT_FDCWD, b));
    if x.as_ref().is_some_and(|(p, s)| s.refuses("renaming of", p)) {
        return -1;
    }
    let r = libc::syscall(libc::SYS_rename, a, b) as c_int;
    if let (0, Some((from, s)), Some((to, _))) = (r, x, y) {
        put(&s, Op::Rename(from, to));
    }
    r
}
unsafe fn removed(dir: c_int, p: *const c_char, flags: c_int) -> c_int {
    let s = c_path(dir, p);
    if s.as_ref().is_some_and(|(p, s)| s.refuses("removal of", p)) {
        return -1;
    }
    let r = libc::syscall(libc::SYS_unlinkat, dir, p, flags) as c_int;
    if let (0, Some((path, s))) = (r, s) {
        put(&s, Op::Unlink(path));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    removed(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    removed(libc::AT_FDCWD, p, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, p: *const c_char, flags: c_int) -> c_int {
    removed(dir, p, flags)
}
