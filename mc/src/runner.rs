//! Runs the instrumented qlc: single runs, and a fork server for long explorations.
use crate::ctl::*;
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};

pub static QLC: OnceLock<PathBuf> = OnceLock::new();
static SCRATCH: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub static RUNS: AtomicUsize = AtomicUsize::new(0);

pub fn scratch() -> &'static PathBuf {
    SCRATCH.get_or_init(|| {
        let base = if Path::new("/dev/shm").is_dir() && std::fs::write("/dev/shm/.qlcmc_probe", "x").is_ok() {
            let _ = std::fs::remove_file("/dev/shm/.qlcmc_probe");
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        };
        let p = base.join(format!("qlcmc-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        p
    })
}
pub fn cleanup() {
    if let Some(p) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(p);
    }
}

pub const NONE: i32 = 0;
pub const F_ERRNO: i32 = 1;
pub const F_SHORT: i32 = 2;
pub const F_CRASH_BEFORE: i32 = 3;
pub const F_CRASH_AFTER: i32 = 4;
pub const F_TORN: i32 = 5;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Status {
    Exit(i32),
    Signal(i32),
}
#[derive(Clone, Debug)]
pub struct IoRec {
    pub kind: u8,
    pub wr: bool,
    pub denied: bool,
    /// 2: attributes by descriptor, 3: of a path to be resolved
    pub how: u8,
    pub faulted: bool,
    pub res: i32,
    pub path: String,
}
pub const IO_OPEN: u8 = 1;
pub const IO_READ: u8 = 2;
pub const IO_WRITE: u8 = 3;
pub const IO_OPENDIR: u8 = 4;
pub const IO_READDIR: u8 = 5;
pub const IO_STAT: u8 = 11;

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    pub end: u32,
    pub stdout: String,
    pub stderr: String,
    pub io: Vec<IoRec>,
    pub n_io: usize,
    pub denied: u32,
    pub n_threads: u32,
}
impl Outcome {
    /// Some(reason) when qlc did not end by itself with status 0, 1 or 2.
    pub fn abnormal(&self) -> Option<String> {
        if self.stderr.contains("panicked at") {
            let at = self.stderr.lines().skip_while(|l| !l.contains("panicked at")).take(2).collect::<Vec<_>>().join(" ");
            return Some(format!("panic: {at}"));
        }
        match (&self.status, self.end) {
            (Status::Exit(252), 2) => Some("deadlock: every thread waits for ever".into()),
            (Status::Exit(253), 3) => Some("livelock: the threads only wait for each other".into()),
            (Status::Exit(250), 4) => Some("no end within the step horizon".into()),
            (Status::Exit(0..=2), _) => None,
            (Status::Signal(14), _) => Some("no end within the time limit (runs for ever)".into()),
            (Status::Signal(s), _) => Some(format!(
                "killed by signal {s}{}",
                if self.stderr.contains("overflowed its stack") { " (stack overflow)" } else { "" }
            )),
            (Status::Exit(c), _) => Some(format!("exit status {c}")),
        }
    }
    pub fn code(&self) -> i32 {
        match self.status {
            Status::Exit(c) => c,
            Status::Signal(s) => 128 + s,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Env {
    pub sched: bool,
    pub hashseed: u64,
    pub dirperm: u32,
    pub dtype_unknown: bool,
    pub faults: Vec<(i32, i32, i32)>, // at, kind, arg
    pub short_all: u32,
    pub alarm_s: u32,
    /// standard output fails after so many bytes with this error number
    pub out_stop: Option<(u32, i32)>,
    /// standard output takes at most so many bytes at once (0: any)
    pub out_piece: u32,
    /// further environment variables
    pub vars: &'static [(&'static str, &'static str)],
}
impl Default for Env {
    fn default() -> Env {
        Env { sched: true, hashseed: 7, dirperm: 0, dtype_unknown: false, faults: vec![], short_all: 0, alarm_s: 20, out_stop: None, out_piece: 0, vars: &[] }
    }
}
/// Runs ended by their time limit so far.
pub static HANGS: AtomicUsize = AtomicUsize::new(0);
/// Once many runs had no end the rest need not show it with the same patience: all that can come of
/// it is one more violation beside many.
pub fn patience(alarm_s: u32) -> u32 {
    if HANGS.load(Ordering::Relaxed) < 24 {
        alarm_s
    } else {
        alarm_s.min(2)
    }
}
impl Env {
    fn put(&self, c: &mut Ctl) {
        c.sched = self.sched as u32;
        c.n_prefix = 0;
        c.alarm_s = patience(self.alarm_s);
        c.hashseed = self.hashseed;
        c.dirperm = self.dirperm;
        c.dtype_unknown = self.dtype_unknown as u32;
        c.f_at = [-1, -1];
        c.f_kind = [0, 0];
        c.f_arg = [0, 0];
        for (i, f) in self.faults.iter().take(2).enumerate() {
            c.f_at[i] = f.0;
            c.f_kind[i] = f.1;
            c.f_arg[i] = f.2;
        }
        c.short_all = self.short_all;
        c.out_stop = self.out_stop.map_or(0, |s| s.0 + 1);
        c.out_errno = self.out_stop.map_or(0, |s| s.1);
        c.out_piece = self.out_piece;
        c.max_points = u32::MAX;
    }
}

/// One worker's scratch space: `dir` is the only place its runs may write.
pub struct Slot {
    pub id: usize,
    pub dir: PathBuf,
    pub shm: Shm,
    aux: PathBuf,
}
impl Slot {
    pub fn new() -> Slot {
        let id = NEXT.fetch_add(1, Ordering::SeqCst);
        let aux = scratch().join(format!("s{id}"));
        std::fs::create_dir_all(&aux).unwrap();
        let dir = aux.join("w");
        std::fs::create_dir_all(&dir).unwrap();
        let shm = Shm::new(&aux.join("ctl"));
        Slot { id, dir, shm, aux }
    }
    pub fn reset(&self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        std::fs::create_dir_all(&self.dir).unwrap();
    }
    fn command(&self, cwd: &Path, args: &[String]) -> Command {
        let mut c = Command::new(QLC.get().unwrap());
        c.current_dir(cwd)
            .args(args)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("NO_COLOR", "1")
            .env("MC_WROOT", &self.dir)
            .env("MC_SHM", &self.shm.path)
            .stdin(Stdio::null());
        c
    }
    fn io(&self) -> (Vec<IoRec>, usize) {
        let c = self.shm.c();
        let n = c.n_io as usize;
        let v = c.io[..n.min(MAXIO)]
            .iter()
            .map(|e| {
                let z = e.path.iter().position(|b| *b == 0).unwrap_or(PATHN);
                IoRec {
                    kind: e.kind,
                    wr: e.wr == 1,
                    how: e.wr,
                    denied: e.denied != 0,
                    faulted: e.faulted != 0,
                    res: e.res,
                    path: String::from_utf8_lossy(&e.path[..z]).into_owned(),
                }
            })
            .collect();
        (v, n)
    }
    pub fn run(&self, cwd: &Path, args: &[String], env: &Env) -> Outcome {
        RUNS.fetch_add(1, Ordering::Relaxed);
        env.put(self.shm.c());
        let mut cmd = self.command(cwd, args);
        if !env.vars.is_empty() {
            cmd.env_remove("NO_COLOR").envs(env.vars.iter().copied());
        }
        let out = cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).output().expect("run qlc");
        let status = match out.status.code() {
            Some(c) => Status::Exit(c),
            None => Status::Signal(out.status.signal().unwrap_or(0)),
        };
        if status == Status::Signal(14) {
            HANGS.fetch_add(1, Ordering::Relaxed);
        }
        let (io, n_io) = self.io();
        let c = self.shm.c();
        Outcome {
            status,
            end: c.end,
            stdout: String::from_utf8_lossy(&out.stdout).into_owned(),
            stderr: String::from_utf8_lossy(&out.stderr).into_owned(),
            io,
            n_io,
            denied: c.denied,
            n_threads: c.n_threads,
        }
    }
}

static SPAWN: Mutex<()> = Mutex::new(());
/// A fork server: runs of one command line in one directory, cheaply.
pub struct Server<'a> {
    pub slot: &'a Slot,
    child: Child,
    to: i32,
    from: i32,
    out: PathBuf,
    err: PathBuf,
}
impl<'a> Server<'a> {
    pub fn new(slot: &'a Slot, cwd: &Path, args: &[String]) -> Server<'a> {
        let _g = SPAWN.lock().unwrap();
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        unsafe {
            assert_eq!(pipe2(a.as_mut_ptr(), 0o2000000), 0);
            assert_eq!(pipe2(b.as_mut_ptr(), 0o2000000), 0);
        }
        let out = slot.aux.join("out");
        let err = slot.aux.join("err");
        Env::default().put(slot.shm.c());
        let mut cmd = slot.command(cwd, args);
        cmd.env("MC_SERVER", format!("{},{},{},{}", a[0], b[1], out.display(), err.display()));
        let (r, w) = (a[0], b[1]);
        unsafe {
            cmd.pre_exec(move || {
                fcntl(r, 2, 0 as i32);
                fcntl(w, 2, 0 as i32);
                Ok(())
            });
        }
        let child = cmd.stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn server");
        unsafe {
            close(a[0]);
            close(b[1]);
        }
        Server { slot, child, to: a[1], from: b[0], out, err }
    }
    /// Runs once with the control block as the caller has set it.
    pub fn go(&mut self) -> Status {
        RUNS.fetch_add(1, Ordering::Relaxed);
        unsafe {
            assert_eq!(write(self.to, b"r".as_ptr() as *const _, 1), 1);
            let mut st = 0i32;
            let n = read(self.from, &mut st as *mut i32 as *mut _, 4);
            assert_eq!(n, 4, "fork server died");
            if st & 0x7f == 0 {
                Status::Exit((st >> 8) & 0xff)
            } else {
                if st & 0x7f == 14 {
                    HANGS.fetch_add(1, Ordering::Relaxed);
                }
                Status::Signal(st & 0x7f)
            }
        }
    }
    pub fn outcome(&self, status: Status) -> Outcome {
        let (io, n_io) = self.slot.io();
        let c = self.slot.shm.c();
        let rd = |p: &Path| {
            let mut v = Vec::new();
            if let Ok(mut f) = std::fs::File::open(p) {
                let _ = f.read_to_end(&mut v);
            }
            String::from_utf8_lossy(&v).into_owned()
        };
        Outcome { status, end: c.end, stdout: rd(&self.out), stderr: rd(&self.err), io, n_io, denied: c.denied, n_threads: c.n_threads }
    }
    pub fn run(&mut self, env: &Env) -> Outcome {
        env.put(self.slot.shm.c());
        let st = self.go();
        self.outcome(st)
    }
}
impl Drop for Server<'_> {
    fn drop(&mut self) {
        unsafe {
            close(self.to);
            close(self.from);
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ------------------------------------------------------------------ trees
pub type Tree = BTreeMap<String, Vec<u8>>;
pub fn put(dir: &Path, rel: &str, bytes: impl AsRef<[u8]>) {
    let p = dir.join(rel);
    if let Some(d) = p.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&p, bytes).unwrap_or_else(|e| panic!("{}: {e}", p.display()));
}
/// Every entry below dir: files with contents, directories with a trailing slash, symlinks as text.
pub fn tree(dir: &Path) -> Tree {
    fn go(base: &Path, d: &Path, out: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let Ok(ft) = e.file_type() else { continue };
            if ft.is_symlink() {
                out.insert(rel, format!("-> {:?}", std::fs::read_link(&p)).into_bytes());
            } else if ft.is_dir() {
                out.insert(format!("{rel}/"), vec![]);
                go(base, &p, out);
            } else if ft.is_file() {
                out.insert(rel, std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut t = Tree::new();
    go(dir, dir, &mut t);
    t
}
pub fn args(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

// ------------------------------------------------------------------ parallel map
pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}
/// Applies f to every item on all cores; each worker owns a slot.  Results keep the order.
pub fn par<T: Sync, R: Send>(items: &[T], f: impl Fn(&Slot, usize, &T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<Option<R>>> = items.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..workers().min(items.len().max(1)) {
            s.spawn(|| {
                let slot = Slot::new();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    let r = f(&slot, i, &items[i]);
                    *out[i].lock().unwrap() = Some(r);
                }
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}
/// Pure parallel map, no slot.
pub fn pmap<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let w = workers();
    let size = items.len().div_ceil(w).max(1);
    std::thread::scope(|s| {
        let h: Vec<_> = items
            .chunks(size)
            .enumerate()
            .map(|(c, v)| {
                let f = &f;
                s.spawn(move || v.iter().enumerate().map(|(i, x)| f(c * size + i, x)).collect::<Vec<R>>())
            })
            .collect();
        h.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}
