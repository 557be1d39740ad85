//! A simulated disk behind the C library's file functions. While a simulated
//! process is active, every path belongs to this disk, and any operation may
//! fail, be interrupted, come up short, or be the last one before a crash.
use dsim::*;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn syscall(n: c_long, ...) -> c_long;
}
pub const EIO: i32 = 5;
const ENOENT: i32 = 2;
const EINTR: i32 = 4;
const EBADF: i32 = 9;
const EACCES: i32 = 13;
const EEXIST: i32 = 17;
const EXDEV: i32 = 18;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EINVAL: i32 = 22;
const EMFILE: i32 = 24;
const ENOTTY: i32 = 25;
const ENOSPC: i32 = 28;
const EROFS: i32 = 30;
const ENOSYS: i32 = 38;
const ENOTEMPTY: i32 = 39;
const EDQUOT: i32 = 122;
const FIRST_FD: i32 = 4000;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct File {
    pub data: Vec<u8>,
    /// What survives losing power.
    pub durable: Option<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir,
    File(usize),
}
#[derive(Clone, Default)]
pub struct Disk {
    pub tree: BTreeMap<String, Node>,
    pub files: Vec<File>,
    /// Bytes left, if limited.
    pub room: Option<usize>,
}
impl Disk {
    pub fn mkdirs(&mut self, p: &str) {
        let mut at = String::new();
        for c in p.split('/').filter(|c| !c.is_empty()) {
            at.push('/');
            at.push_str(c);
            self.tree.entry(at.clone()).or_insert(Node::Dir);
        }
    }
    pub fn put(&mut self, p: &str, data: &[u8]) {
        if let Some((d, _)) = p.rsplit_once('/') {
            self.mkdirs(d);
        }
        self.files.push(File { data: data.to_vec(), durable: Some(data.to_vec()) });
        self.tree.insert(p.to_string(), Node::File(self.files.len() - 1));
    }
    pub fn get(&self, p: &str) -> Option<&[u8]> {
        match self.tree.get(p)? {
            Node::File(i) => Some(&self.files[*i].data),
            Node::Dir => None,
        }
    }
    fn under<'a>(&'a self, p: &str) -> impl Iterator<Item = (&'a String, &'a Node)> + 'a {
        let pre = format!("{p}/");
        self.tree.range(pre.clone()..).take_while(move |(k, _)| k.starts_with(&pre))
    }
    /// Names directly in a directory.
    pub fn list(&self, p: &str) -> Vec<(String, bool)> {
        self.under(p)
            .filter_map(|(k, n)| {
                let rest = &k[p.len() + 1..];
                (!rest.contains('/')).then(|| (rest.to_string(), *n == Node::Dir))
            })
            .collect()
    }
    /// Everything below a directory, with contents.
    pub fn snapshot(&self, p: &str) -> BTreeMap<String, Option<Vec<u8>>> {
        self.under(p)
            .map(|(k, n)| {
                (k.clone(), match n {
                    Node::Dir => None,
                    Node::File(i) => Some(self.files[*i].data.clone()),
                })
            })
            .collect()
    }
    pub fn remove_tree(&mut self, p: &str) {
        let all: Vec<String> = self.under(p).map(|(k, _)| k.clone()).collect();
        for k in all {
            self.tree.remove(&k);
        }
        self.tree.remove(p);
    }
    /// Loses what wasn't safely stored.
    pub fn lose_power(&mut self) {
        let mut torn = vec![false; self.files.len()];
        for i in 0..self.files.len() {
            let f = &mut self.files[i];
            if f.durable.as_ref() == Some(&f.data) {
                continue;
            }
            torn[i] = true;
            let old = f.durable.take().unwrap_or_default();
            let n = f.data.len();
            f.data = match weighted(&[3, 2, 2, 2, 1, 1]) {
                0 => std::mem::take(&mut f.data),
                1 => {
                    fault("unsynced file lost its end");
                    f.data[..choose(n + 1)].to_vec()
                }
                2 => {
                    fault("unsynced file came back empty");
                    Vec::new()
                }
                3 => {
                    fault("unsynced file came back with zeroes");
                    let at = choose(n + 1);
                    let mut d = f.data[..at].to_vec();
                    d.resize(n, 0);
                    d
                }
                4 => {
                    fault("unsynced file came back with its old content");
                    old
                }
                _ => {
                    fault("unsynced file came back with rubbish");
                    (0..n.min(4096)).map(|i| (i as u8) ^ 0x5a).collect()
                }
            };
            f.durable = Some(f.data.clone());
        }
        let gone: Vec<String> = self
            .tree
            .iter()
            .filter(|(_, n)| matches!(n, Node::File(i) if torn[*i] && self.files[*i].data.is_empty()))
            .map(|(k, _)| k.clone())
            .collect();
        for k in gone {
            if chance(1, 2) {
                fault("unsynced file is gone");
                self.tree.remove(&k);
            }
        }
    }
}

/// How a simulated process fares.
#[derive(Clone, Copy, Default, Debug)]
pub struct Weather {
    /// Per mille of operations that fail for good.
    pub fail_pm: usize,
    /// Per mille of operations that are interrupted or come up short.
    pub short_pm: usize,
    /// This operation fails.
    pub fail_at: Option<usize>,
    /// This one of its kind fails.
    pub fail_nth: Option<(Kind, usize)>,
    /// Before this one of its kind the process or the machine dies.
    pub crash_nth: Option<(Kind, usize)>,
    /// Before this operation the process or the machine dies.
    pub crash_at: Option<usize>,
    /// From this operation on, everything of the kind fails.
    pub broken_from: Option<usize>,
}
#[derive(Clone)]
struct Open {
    ino: usize,
    pos: usize,
    append: bool,
    write: bool,
    read: bool,
    path: String,
}
struct Listing {
    names: Vec<(String, bool)>,
    next: usize,
    fd: i32,
    ent: Dirent,
}
#[repr(C)]
struct Dirent {
    ino: u64,
    off: i64,
    reclen: u16,
    kind: u8,
    name: [u8; 256],
}
pub struct State {
    pub disk: Disk,
    pub weather: Weather,
    pub ops: usize,
    /// Operations so far by kind.
    pub by_kind: [usize; KINDS.len()],
    pub hard_faults: usize,
    pub soft_faults: usize,
    /// The disk as it was when the process died; what it did from then on didn't happen.
    pub crashed: Option<Disk>,
    open: BTreeMap<i32, Open>,
    next_fd: i32,
    cwd: String,
}
pub static STATE: SimCell<Option<State>> = SimCell::new(None);
static mut ACTIVE: bool = false;
static mut INSIDE: bool = false;

fn active() -> bool {
    unsafe { ACTIVE && !INSIDE }
}
/// Runs `f` as a process on the disk.
pub fn process<R>(disk: Disk, weather: Weather, cwd: &str, f: impl FnOnce() -> R) -> (R, State) {
    STATE.with(|s| {
        *s = Some(State {
            disk,
            weather,
            ops: 0,
            by_kind: [0; KINDS.len()],
            hard_faults: 0,
            soft_faults: 0,
            crashed: None,
            open: BTreeMap::new(),
            next_fd: FIRST_FD,
            cwd: cwd.to_string(),
        })
    });
    unsafe { ACTIVE = true };
    let r = f();
    unsafe { ACTIVE = false };
    (r, STATE.with(|s| s.take()).expect("state"))
}
/// Runs `f` on the state; what it does itself isn't simulated.
fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    unsafe { INSIDE = true };
    let r = STATE.with(|s| f(s.as_mut().expect("no simulated process")));
    unsafe { INSIDE = false };
    r
}
fn errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn text(p: *const c_char) -> String {
    String::from_utf8_lossy(unsafe { CStr::from_ptr(p) }.to_bytes()).into_owned()
}
fn sys(n: c_long, a: [usize; 6]) -> isize {
    unsafe { syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]) as isize }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Look,
    OpenRead,
    Create,
    Read,
    Write,
    MakeDir,
    ListDir,
    Change,
    Sync,
}
pub const KINDS: [Kind; 9] = [
    Kind::Look, Kind::OpenRead, Kind::Create, Kind::Read, Kind::Write, Kind::MakeDir, Kind::ListDir, Kind::Change, Kind::Sync,
];
impl State {
    fn abs(&self, p: &str) -> String {
        let p = if p.starts_with('/') { p.to_string() } else { format!("{}/{p}", self.cwd) };
        let mut out: Vec<&str> = Vec::new();
        for c in p.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        format!("/{}", out.join("/"))
    }
    fn at(&self, dirfd: i32, p: &str) -> String {
        if p.starts_with('/') || dirfd == -100 {
            return self.abs(p);
        }
        match self.open.get(&dirfd) {
            Some(o) => self.abs(&format!("{}/{p}", o.path)),
            None => self.abs(p),
        }
    }
    /// An operation begins: the error it is to fail with, if any.
    fn op(&mut self, k: Kind, what: &str) -> Result<(), i32> {
        if self.crashed.is_some() {
            return Err(EIO);
        }
        let i = self.ops;
        self.ops += 1;
        if self.ops > 200_000 {
            violation("hang", "a generator performed 200000 file operations without ending");
        }
        let w = self.weather;
        let nth = self.by_kind[k as usize];
        self.by_kind[k as usize] += 1;
        if w.crash_at == Some(i) || w.crash_nth == Some((k, nth)) {
            ev!("dies before operation {i}, {what}");
            self.crashed = Some(self.disk.clone());
            return Err(EIO);
        }
        let hard = w.fail_at == Some(i)
            || w.fail_nth == Some((k, nth))
            || w.broken_from.map_or(false, |b| i >= b)
            || (w.fail_pm > 0 && chance(w.fail_pm, 1000));
        if hard {
            let es: &[i32] = match k {
                Kind::Look => &[EIO, EACCES],
                Kind::OpenRead => &[EIO, EACCES, EMFILE],
                Kind::Create => &[ENOSPC, EIO, EACCES, EROFS, EMFILE, EDQUOT],
                Kind::Read => &[EIO],
                Kind::Write => &[ENOSPC, EIO, EDQUOT],
                Kind::MakeDir => &[ENOSPC, EIO, EACCES, EROFS],
                Kind::ListDir => &[EIO, EACCES, EMFILE],
                Kind::Change => &[EIO, EACCES, EROFS],
                Kind::Sync => &[EIO],
            };
            let e = pick(es);
            self.hard_faults += 1;
            fault(match k {
                Kind::Look => "file information unavailable",
                Kind::OpenRead => "opening failed",
                Kind::Create => "creating a file failed",
                Kind::Read => "reading failed",
                Kind::Write => "writing failed",
                Kind::MakeDir => "creating a directory failed",
                Kind::ListDir => "listing a directory failed",
                Kind::Change => "renaming or removing failed",
                Kind::Sync => "syncing failed",
            });
            ev!("operation {i}, {what}, fails with error {e}");
            return Err(e);
        }
        if w.short_pm > 0 && matches!(k, Kind::OpenRead | Kind::Create | Kind::Read | Kind::Write) && chance(w.short_pm, 1000) {
            self.soft_faults += 1;
            fault("interrupted by a signal");
            return Err(EINTR);
        }
        Ok(())
    }
    /// Less than asked for, now and then.
    fn shortened(&mut self, n: usize) -> usize {
        if n > 1 && self.weather.short_pm > 0 && chance(self.weather.short_pm, 1000) {
            self.soft_faults += 1;
            fault("short read or write");
            return range(1, n - 1);
        }
        n
    }
    fn parent_ok(&self, p: &str) -> Result<(), i32> {
        let d = p.rsplit_once('/').map_or("", |x| x.0);
        if d.is_empty() {
            return Ok(());
        }
        match self.disk.tree.get(d) {
            Some(Node::Dir) => Ok(()),
            Some(_) => Err(ENOTDIR),
            None => {
                let mut at = String::new();
                for c in d.split('/').filter(|c| !c.is_empty()) {
                    at = format!("{at}/{c}");
                    if matches!(self.disk.tree.get(&at), Some(Node::File(_))) {
                        return Err(ENOTDIR);
                    }
                }
                Err(ENOENT)
            }
        }
    }
    fn node(&self, p: &str) -> Result<Node, i32> {
        if p == "/" {
            return Ok(Node::Dir);
        }
        self.parent_ok(p)?;
        self.disk.tree.get(p).cloned().ok_or(ENOENT)
    }
    fn grab_fd(&mut self, o: Open) -> i32 {
        self.next_fd += 1;
        self.open.insert(self.next_fd, o);
        self.next_fd
    }
    fn open(&mut self, p: String, flags: i32) -> Result<i32, i32> {
        let (acc, creat, excl, trunc, append, dir) =
            (flags & 3, flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0, flags & 0o200000 != 0);
        let k = if creat || acc != 0 { Kind::Create } else { Kind::OpenRead };
        self.op(k, &format!("opening {p}"))?;
        let node = self.node(&p);
        let ino = match node {
            Ok(Node::Dir) if acc != 0 || creat => return Err(EISDIR),
            Ok(Node::Dir) => usize::MAX,
            Ok(Node::File(_)) if dir => return Err(ENOTDIR),
            Ok(Node::File(_)) if creat && excl => return Err(EEXIST),
            Ok(Node::File(i)) => {
                if trunc {
                    self.free(self.disk.files[i].data.len());
                    self.disk.files[i].data.clear();
                }
                i
            }
            Err(ENOENT) if creat => {
                self.parent_ok(&p)?;
                if self.disk.room == Some(0) {
                    self.hard_faults += 1;
                    fault("disk full");
                    return Err(ENOSPC);
                }
                self.disk.files.push(File::default());
                let i = self.disk.files.len() - 1;
                self.disk.tree.insert(p.clone(), Node::File(i));
                i
            }
            Err(e) => return Err(e),
        };
        Ok(self.grab_fd(Open { ino, pos: 0, append, write: acc != 0, read: acc != 1, path: p }))
    }
    fn listing(&mut self, fd: i32) -> *mut Listing {
        let a = self.open[&fd].path.clone();
        let mut names = vec![(".".to_string(), true), ("..".to_string(), true)];
        let mut rest = self.disk.list(&a);
        if rest.len() > 1 && chance(1, 2) {
            rest.reverse()
        }
        names.extend(rest);
        let ent = Dirent { ino: 0, off: 0, reclen: 280, kind: 0, name: [0; 256] };
        Box::into_raw(Box::new(Listing { names, next: 0, fd, ent }))
    }
    fn free(&mut self, n: usize) {
        if let Some(r) = &mut self.disk.room {
            *r += n;
        }
    }
    fn read(&mut self, fd: i32, b: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
        let Some(o) = self.open.get(&fd).cloned() else { return Err(EBADF) };
        if o.ino == usize::MAX {
            return Err(EISDIR);
        }
        if !o.read {
            return Err(EBADF);
        }
        self.op(Kind::Read, &format!("reading {}", o.path))?;
        let pos = at.unwrap_or(o.pos);
        let left = self.disk.files[o.ino].data.len().saturating_sub(pos);
        let n = self.shortened(left.min(b.len()));
        b[..n].copy_from_slice(&self.disk.files[o.ino].data[pos..pos + n]);
        if at.is_none() {
            self.open.get_mut(&fd).expect("open").pos += n;
        }
        Ok(n)
    }
    fn write(&mut self, fd: i32, b: &[u8], at: Option<usize>) -> Result<usize, i32> {
        let Some(o) = self.open.get(&fd).cloned() else { return Err(EBADF) };
        if !o.write || o.ino == usize::MAX {
            return Err(EBADF);
        }
        self.op(Kind::Write, &format!("writing {} bytes to {}", b.len(), o.path))?;
        let mut n = self.shortened(b.len());
        let len = self.disk.files[o.ino].data.len();
        let pos = at.unwrap_or(if o.append { len } else { o.pos });
        let grow = (pos + n).saturating_sub(len);
        if let Some(r) = self.disk.room {
            if grow > r {
                fault("disk full");
                if self.hard_faults == 0 {
                    ev!("the disk is full while writing to {}", o.path);
                }
                self.hard_faults += 1;
                n -= grow - r;
                if n == 0 {
                    return Err(ENOSPC);
                }
            }
        }
        let grow = (pos + n).saturating_sub(len);
        if let Some(r) = &mut self.disk.room {
            *r -= grow;
        }
        let d = &mut self.disk.files[o.ino].data;
        if d.len() < pos + n {
            d.resize(pos + n, 0);
        }
        d[pos..pos + n].copy_from_slice(&b[..n]);
        if at.is_none() {
            self.open.get_mut(&fd).expect("open").pos = pos + n;
        }
        Ok(n)
    }
    fn remove(&mut self, p: &str, dir: bool) -> Result<i32, i32> {
        self.op(Kind::Change, &format!("removing {p}"))?;
        match (self.node(p)?, dir) {
            (Node::Dir, false) => Err(EISDIR),
            (Node::File(_), true) => Err(ENOTDIR),
            (Node::Dir, true) => {
                if !self.disk.list(p).is_empty() {
                    return Err(ENOTEMPTY);
                }
                self.disk.tree.remove(p);
                Ok(0)
            }
            (Node::File(i), false) => {
                self.free(self.disk.files[i].data.len());
                self.disk.tree.remove(p);
                Ok(0)
            }
        }
    }
    fn rename(&mut self, a: &str, b: &str) -> Result<i32, i32> {
        self.op(Kind::Change, &format!("renaming {a} to {b}"))?;
        let n = self.node(a)?;
        self.parent_ok(b)?;
        match (&n, self.disk.tree.get(b)) {
            (Node::File(_), Some(Node::Dir)) => return Err(EISDIR),
            (Node::Dir, Some(Node::File(_))) => return Err(ENOTDIR),
            (Node::Dir, Some(Node::Dir)) if !self.disk.list(b).is_empty() => return Err(ENOTEMPTY),
            _ => {}
        }
        let below: Vec<(String, Node)> = self.disk.under(a).map(|(k, n)| (k.clone(), n.clone())).collect();
        for (k, n) in below {
            self.disk.tree.remove(&k);
            self.disk.tree.insert(format!("{b}{}", &k[a.len()..]), n);
        }
        self.disk.tree.remove(a);
        self.disk.tree.insert(b.to_string(), n);
        Ok(0)
    }
    fn sync(&mut self, fd: i32) -> Result<i32, i32> {
        let Some(o) = self.open.get(&fd).cloned() else { return Err(EBADF) };
        self.op(Kind::Sync, &format!("syncing {}", o.path))?;
        if o.ino != usize::MAX {
            let f = &mut self.disk.files[o.ino];
            f.durable = Some(f.data.clone());
        }
        Ok(0)
    }
    fn truncate(&mut self, fd: i32, n: usize) -> Result<i32, i32> {
        let Some(o) = self.open.get(&fd).cloned() else { return Err(EBADF) };
        self.op(Kind::Write, &format!("resizing {}", o.path))?;
        if o.ino == usize::MAX || !o.write {
            return Err(EINVAL);
        }
        self.disk.files[o.ino].data.resize(n, 0);
        Ok(0)
    }
    fn info(&mut self, p: &str) -> Result<(bool, usize, usize), i32> {
        self.op(Kind::Look, &format!("looking at {p}"))?;
        Ok(match self.node(p)? {
            Node::Dir => (true, 4096, p.len() + 77),
            Node::File(i) => (false, self.disk.files[i].data.len(), 1000 + i),
        })
    }
    fn info_fd(&mut self, fd: i32) -> Result<(bool, usize, usize), i32> {
        let Some(o) = self.open.get(&fd).cloned() else { return Err(EBADF) };
        self.op(Kind::Look, &format!("looking at {}", o.path))?;
        Ok(if o.ino == usize::MAX { (true, 4096, o.path.len() + 77) } else { (false, self.disk.files[o.ino].data.len(), 1000 + o.ino) })
    }
}
fn ret(r: Result<i32, i32>) -> c_int {
    match r {
        Ok(v) => v,
        Err(e) => {
            errno(e);
            -1
        }
    }
}
fn ret_n(r: Result<usize, i32>) -> isize {
    match r {
        Ok(v) => v as isize,
        Err(e) => {
            errno(e);
            -1
        }
    }
}

extern "C" {
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}
/// The C library's own function.
macro_rules! real {
    ($n:literal, fn($($t:ty),*) -> $r:ty) => {{
        let p = dlsym(-1isize as *mut c_void, concat!($n, "\0").as_ptr() as *const c_char);
        std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}
macro_rules! export {
    ($(fn $f:ident($($a:ident: $t:ty),*) -> $r:ty { $($body:tt)* })*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f($($a: $t),*) -> $r { $($body)* }
    )*}
}
const AT_FDCWD: c_int = -100;
export! {
    fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { openat64(AT_FDCWD, p, flags, mode) }
    fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { openat64(AT_FDCWD, p, flags, mode) }
    fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { openat64(d, p, flags, mode) }
    fn creat64(p: *const c_char, mode: c_uint) -> c_int { openat64(AT_FDCWD, p, 0o1101, mode) }
    fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
        if !active() { return sys(257, [d as usize, p as usize, flags as usize, mode as usize, 0, 0]) as c_int }
        let t = text(p);
        ret(with(|s| { let a = s.at(d, &t); s.open(a, flags) }))
    }
    fn close(fd: c_int) -> c_int {
        if !active() || fd < FIRST_FD { return sys(3, [fd as usize, 0, 0, 0, 0, 0]) as c_int }
        ret(with(|s| s.open.remove(&fd).map(|_| 0).ok_or(EBADF)))
    }
    fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
        if !active() || fd < FIRST_FD { return sys(0, [fd as usize, b as usize, n, 0, 0, 0]) }
        let b = std::slice::from_raw_parts_mut(b as *mut u8, n);
        ret_n(with(|s| s.read(fd, b, None)))
    }
    fn pread64(fd: c_int, b: *mut c_void, n: usize, at: i64) -> isize {
        if !active() || fd < FIRST_FD { return sys(17, [fd as usize, b as usize, n, at as usize, 0, 0]) }
        let b = std::slice::from_raw_parts_mut(b as *mut u8, n);
        ret_n(with(|s| s.read(fd, b, Some(at as usize))))
    }
    fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
        if active() && (fd == 1 || fd == 2) {
            if verbose() { with(|_| ev!("prints {:?}", String::from_utf8_lossy(std::slice::from_raw_parts(b as *const u8, n)))) }
            return n as isize
        }
        if !active() || fd < FIRST_FD { return sys(1, [fd as usize, b as usize, n, 0, 0, 0]) }
        let b = std::slice::from_raw_parts(b as *const u8, n);
        ret_n(with(|s| s.write(fd, b, None)))
    }
    fn pwrite64(fd: c_int, b: *const c_void, n: usize, at: i64) -> isize {
        if !active() || fd < FIRST_FD { return sys(18, [fd as usize, b as usize, n, at as usize, 0, 0]) }
        let b = std::slice::from_raw_parts(b as *const u8, n);
        ret_n(with(|s| s.write(fd, b, Some(at as usize))))
    }
    fn writev(fd: c_int, v: *const [usize; 2], n: c_int) -> isize {
        if !active() || (fd < FIRST_FD && fd != 1 && fd != 2) { return sys(20, [fd as usize, v as usize, n as usize, 0, 0, 0]) }
        let v = std::slice::from_raw_parts(v, n as usize);
        let total: usize = v.iter().map(|x| x[1]).sum();
        if fd < FIRST_FD { return total as isize }
        let mut all = Vec::with_capacity(total);
        for x in v { all.extend_from_slice(std::slice::from_raw_parts(x[0] as *const u8, x[1])) }
        ret_n(with(|s| s.write(fd, &all, None)))
    }
    fn readv(fd: c_int, v: *const [usize; 2], n: c_int) -> isize {
        if !active() || fd < FIRST_FD { return sys(19, [fd as usize, v as usize, n as usize, 0, 0, 0]) }
        let v = std::slice::from_raw_parts(v, n as usize);
        let Some(x) = v.iter().find(|x| x[1] > 0) else { return 0 };
        let b = std::slice::from_raw_parts_mut(x[0] as *mut u8, x[1]);
        ret_n(with(|s| s.read(fd, b, None)))
    }
    fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
        if !active() || fd < FIRST_FD { return sys(8, [fd as usize, off as usize, whence as usize, 0, 0, 0]) as i64 }
        let r = with(|s| {
            let Some(o) = s.open.get(&fd) else { return Err(EBADF) };
            let base = match whence { 0 => 0, 1 => o.pos as i64, 2 if o.ino != usize::MAX => s.disk.files[o.ino].data.len() as i64, _ => return Err(EINVAL) };
            let to = base + off;
            if to < 0 { return Err(EINVAL) }
            s.open.get_mut(&fd).expect("open").pos = to as usize;
            Ok(to as usize)
        });
        ret_n(r) as i64
    }
    fn fsync(fd: c_int) -> c_int {
        if !active() || fd < FIRST_FD { return sys(74, [fd as usize, 0, 0, 0, 0, 0]) as c_int }
        ret(with(|s| s.sync(fd)))
    }
    fn fdatasync(fd: c_int) -> c_int {
        if !active() || fd < FIRST_FD { return sys(75, [fd as usize, 0, 0, 0, 0, 0]) as c_int }
        ret(with(|s| s.sync(fd)))
    }
    fn ftruncate64(fd: c_int, n: i64) -> c_int {
        if !active() || fd < FIRST_FD { return sys(77, [fd as usize, n as usize, 0, 0, 0, 0]) as c_int }
        ret(with(|s| s.truncate(fd, n as usize)))
    }
    fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
        if !active() { return sys(83, [p as usize, mode as usize, 0, 0, 0, 0]) as c_int }
        let t = text(p);
        ret(with(|s| {
            let a = s.abs(&t);
            s.op(Kind::MakeDir, &format!("creating directory {a}"))?;
            if a == "/" || s.disk.tree.contains_key(&a) { return Err(EEXIST) }
            s.parent_ok(&a)?;
            s.disk.tree.insert(a, Node::Dir);
            Ok(0)
        }))
    }
    fn rmdir(p: *const c_char) -> c_int {
        if !active() { return sys(84, [p as usize, 0, 0, 0, 0, 0]) as c_int }
        let t = text(p);
        ret(with(|s| { let a = s.abs(&t); s.remove(&a, true) }))
    }
    fn unlink(p: *const c_char) -> c_int { unlinkat(AT_FDCWD, p, 0) }
    fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
        if !active() { return sys(263, [d as usize, p as usize, fl as usize, 0, 0, 0]) as c_int }
        let t = text(p);
        ret(with(|s| { let a = s.at(d, &t); s.remove(&a, fl & 0x200 != 0) }))
    }
    fn rename(a: *const c_char, b: *const c_char) -> c_int {
        if !active() { return sys(82, [a as usize, b as usize, 0, 0, 0, 0]) as c_int }
        let (a, b) = (text(a), text(b));
        ret(with(|s| { let (a, b) = (s.abs(&a), s.abs(&b)); s.rename(&a, &b) }))
    }
    fn stat64(p: *const c_char, st: *mut c_void) -> c_int {
        if !active() { return sys(4, [p as usize, st as usize, 0, 0, 0, 0]) as c_int }
        let t = text(p);
        let r = with(|s| { let a = s.abs(&t); s.info(&a) });
        fill_stat(r, st)
    }
    fn lstat64(p: *const c_char, st: *mut c_void) -> c_int {
        if !active() { return sys(6, [p as usize, st as usize, 0, 0, 0, 0]) as c_int }
        stat64(p, st)
    }
    fn fstat64(fd: c_int, st: *mut c_void) -> c_int {
        if !active() || fd < FIRST_FD { return sys(5, [fd as usize, st as usize, 0, 0, 0, 0]) as c_int }
        fill_stat(with(|s| s.info_fd(fd)), st)
    }
    fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, st: *mut c_void) -> c_int {
        if !active() || (d >= 0 && d < FIRST_FD) { return sys(332, [d as usize, p as usize, fl as usize, mask as usize, st as usize, 0]) as c_int }
        // As std tests whether the call exists.
        if p.is_null() || st.is_null() { errno(14); return -1 }
        let t = text(p);
        let r = with(|s| if t.is_empty() { s.info_fd(d) } else { let a = s.at(d, &t); s.info(&a) });
        match r {
            Err(e) => { errno(e); -1 }
            Ok((dir, size, ino)) => {
                let b = st as *mut u8;
                std::ptr::write_bytes(b, 0, 256);
                *(b as *mut u32) = 0x7ff;
                *(b.add(4) as *mut u32) = 4096;
                *(b.add(16) as *mut u32) = 1;
                *(b.add(28) as *mut u16) = if dir { 0o40755 } else { 0o100644 };
                *(b.add(32) as *mut u64) = ino as u64;
                *(b.add(40) as *mut u64) = size as u64;
                *(b.add(48) as *mut u64) = (size as u64 + 511) / 512;
                0
            }
        }
    }
    fn access(p: *const c_char, mode: c_int) -> c_int {
        if !active() { return sys(21, [p as usize, mode as usize, 0, 0, 0, 0]) as c_int }
        let t = text(p);
        ret(with(|s| { let a = s.abs(&t); s.info(&a).map(|_| 0) }))
    }
    fn faccessat(d: c_int, p: *const c_char, mode: c_int, fl: c_int) -> c_int {
        if !active() { return sys(269, [d as usize, p as usize, mode as usize, fl as usize, 0, 0]) as c_int }
        access(p, mode)
    }
    fn chmod(p: *const c_char, mode: c_uint) -> c_int {
        if !active() { return sys(90, [p as usize, mode as usize, 0, 0, 0, 0]) as c_int }
        access(p, 0)
    }
    fn fchmod(fd: c_int, mode: c_uint) -> c_int {
        if !active() || fd < FIRST_FD { return sys(91, [fd as usize, mode as usize, 0, 0, 0, 0]) as c_int }
        0
    }
    fn posix_fallocate64(fd: c_int, a: i64, n: i64) -> c_int {
        if !active() || fd < FIRST_FD { return ENOSYS }
        match with(|s| { let len = s.info_fd(fd)?.1.max((a + n) as usize); s.truncate(fd, len) }) { Ok(_) => 0, Err(e) => e }
    }
    fn opendir(p: *const c_char) -> *mut c_void {
        let t = text(p);
        if !active() { return real!("opendir", fn(*const c_char) -> *mut c_void)(p) }
        match with(|s| {
            let a = s.abs(&t);
            s.op(Kind::ListDir, &format!("opening directory {a}"))?;
            match s.node(&a)? {
                Node::Dir => {}
                Node::File(_) => return Err(ENOTDIR),
            }
            let fd = s.grab_fd(Open { ino: usize::MAX, pos: 0, append: false, write: false, read: true, path: a });
            Ok(s.listing(fd))
        }) {
            Ok(l) => l as *mut c_void,
            Err(e) => { errno(e); std::ptr::null_mut() }
        }
    }
    fn fdopendir(fd: c_int) -> *mut c_void {
        if !active() || fd < FIRST_FD { return real!("fdopendir", fn(c_int) -> *mut c_void)(fd) }
        match with(|s| {
            let p = match s.open.get(&fd) { Some(o) if o.ino == usize::MAX => o.path.clone(), _ => return Err(ENOTDIR) };
            s.op(Kind::ListDir, &format!("opening directory {p}"))?;
            Ok(s.listing(fd))
        }) {
            Ok(l) => l as *mut c_void,
            Err(e) => { errno(e); std::ptr::null_mut() }
        }
    }
    fn readdir64(d: *mut c_void) -> *mut c_void {
        if !active() { return real!("readdir64", fn(*mut c_void) -> *mut c_void)(d) }
        let l = &mut *(d as *mut Listing);
        match with(|s| {
            let p = s.open.get(&l.fd).map(|o| o.path.clone()).unwrap_or_default();
            s.op(Kind::ListDir, &format!("reading directory {p}"))
        }) {
            Err(e) => { errno(e); return std::ptr::null_mut() }
            Ok(()) => {}
        }
        let Some((n, dir)) = l.names.get(l.next) else { return std::ptr::null_mut() };
        l.next += 1;
        l.ent.ino = l.next as u64;
        l.ent.kind = if *dir { 4 } else { 8 };
        l.ent.name = [0; 256];
        l.ent.name[..n.len()].copy_from_slice(n.as_bytes());
        &mut l.ent as *mut Dirent as *mut c_void
    }
    fn closedir(d: *mut c_void) -> c_int {
        if !active() { return real!("closedir", fn(*mut c_void) -> c_int)(d) }
        let l = Box::from_raw(d as *mut Listing);
        with(|s| s.open.remove(&l.fd));
        0
    }
    fn dirfd(d: *mut c_void) -> c_int {
        if !active() { return real!("dirfd", fn(*mut c_void) -> c_int)(d) }
        (*(d as *mut Listing)).fd
    }
    fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
        let t = text(p);
        if !active() { return real!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char)(p, out) }
        match with(|s| { let a = s.abs(&t); s.info(&a).map(|_| a) }) {
            Err(e) => { errno(e); std::ptr::null_mut() }
            Ok(a) => {
                extern "C" { fn malloc(n: usize) -> *mut c_void; }
                let b = if out.is_null() { malloc(a.len() + 1) as *mut u8 } else { out as *mut u8 };
                std::ptr::copy_nonoverlapping(a.as_ptr(), b, a.len());
                *b.add(a.len()) = 0;
                b as *mut c_char
            }
        }
    }
    fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
        if !active() { return if sys(79, [b as usize, n, 0, 0, 0, 0]) < 0 { std::ptr::null_mut() } else { b } }
        let c = with(|s| s.cwd.clone());
        if c.len() + 1 > n { errno(34); return std::ptr::null_mut() }
        std::ptr::copy_nonoverlapping(c.as_ptr(), b as *mut u8, c.len());
        *b.add(c.len()) = 0;
        b
    }
    fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, fl: c_uint) -> isize {
        if !active() { return sys(326, [a as usize, ao as usize, b as usize, bo as usize, n, fl as usize]) }
        errno(EXDEV);
        -1
    }
    fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: usize) -> isize {
        if !active() { return sys(40, [a as usize, b as usize, o as usize, n, 0, 0]) }
        errno(EINVAL);
        -1
    }
    fn link(_a: *const c_char, _b: *const c_char) -> c_int { errno(ENOSYS); -1 }
    fn linkat(_a: c_int, _b: *const c_char, _c: c_int, _d: *const c_char, _e: c_int) -> c_int { errno(ENOSYS); -1 }
    fn symlink(_a: *const c_char, _b: *const c_char) -> c_int { errno(ENOSYS); -1 }
    fn readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize {
        if !active() { return sys(89, [p as usize, b as usize, n, 0, 0, 0]) }
        errno(EINVAL);
        -1
    }
    fn isatty(fd: c_int) -> c_int {
        let _ = fd;
        errno(ENOTTY);
        0
    }
}
unsafe fn fill_stat(r: Result<(bool, usize, usize), i32>, st: *mut c_void) -> c_int {
    match r {
        Err(e) => {
            errno(e);
            -1
        }
        Ok((dir, size, ino)) => {
            let b = st as *mut u8;
            std::ptr::write_bytes(b, 0, 144);
            *(b.add(8) as *mut u64) = ino as u64;
            *(b.add(16) as *mut u64) = 1;
            *(b.add(24) as *mut u32) = if dir { 0o40755 } else { 0o100644 };
            *(b.add(48) as *mut i64) = size as i64;
            *(b.add(56) as *mut i64) = 4096;
            *(b.add(64) as *mut i64) = (size as i64 + 511) / 512;
            0
        }
    }
}
