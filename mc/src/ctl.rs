//! The control block shared with the runtime in rt/mcrt.c, and the few libc calls it needs.
use std::ffi::{c_char, c_int, c_void, CString};
use std::path::Path;

pub const MAXPTS: usize = 65536;
pub const MAXPRE: usize = 65536;
pub const MAXIO: usize = 4096;
pub const PATHN: usize = 240;
pub const MAGIC: u32 = 0x4d43_5254;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Point {
    pub nalts: u8,
    pub chosen: u8,
    pub cur_enabled: u8,
    pub kind: u8,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Io {
    pub kind: u8,
    pub wr: u8,
    pub denied: u8,
    pub faulted: u8,
    pub res: i32,
    pub path: [u8; PATHN],
}
#[repr(C)]
pub struct Ctl {
    pub magic: u32,
    pub sched: u32,
    pub n_prefix: u32,
    pub alarm_s: u32,
    pub hashseed: u64,
    pub dirperm: u32,
    pub dtype_unknown: u32,
    pub f_at: [i32; 2],
    pub f_kind: [i32; 2],
    pub f_arg: [i32; 2],
    pub short_all: u32,
    pub max_points: u32,
    pub out_stop: u32,
    pub out_errno: i32,
    pub out_piece: u32,
    pub prefix: [u8; MAXPRE],
    pub n_points: u32,
    pub n_io: u32,
    pub end: u32,
    pub n_threads: u32,
    pub switches: u32,
    pub diverged: u32,
    pub denied: u32,
    pub steps: u32,
    pub points: [Point; MAXPTS],
    pub io: [Io; MAXIO],
}

extern "C" {
    fn open(path: *const c_char, flags: c_int, ...) -> c_int;
    fn ftruncate(fd: c_int, n: i64) -> c_int;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn munmap(a: *mut c_void, n: usize) -> c_int;
    pub fn close(fd: c_int) -> c_int;
    pub fn pipe2(fds: *mut c_int, flags: c_int) -> c_int;
    pub fn fcntl(fd: c_int, cmd: c_int, ...) -> c_int;
    pub fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
    pub fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
}

pub struct Shm {
    ptr: *mut Ctl,
    pub path: String,
}
unsafe impl Send for Shm {}
impl Shm {
    pub fn new(path: &Path) -> Shm {
        let s = path.to_str().unwrap().to_string();
        let c = CString::new(s.clone()).unwrap();
        unsafe {
            let fd = open(c.as_ptr(), 0o2 | 0o100 | 0o2000000, 0o600 as c_int);
            assert!(fd >= 0, "cannot create {s}");
            assert_eq!(ftruncate(fd, std::mem::size_of::<Ctl>() as i64), 0);
            let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Ctl>(), 3, 1, fd, 0);
            close(fd);
            assert!(p as isize != -1, "mmap failed");
            let ptr = p as *mut Ctl;
            (*ptr).magic = MAGIC;
            (*ptr).f_at = [-1, -1];
            Shm { ptr, path: s }
        }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn c(&self) -> &mut Ctl {
        unsafe { &mut *self.ptr }
    }
}
impl Drop for Shm {
    fn drop(&mut self) {
        unsafe {
            munmap(self.ptr as *mut c_void, std::mem::size_of::<Ctl>());
        }
    }
}
pub const ADDR_NOTE: &str = "control block layout must match rt/mcrt.c";
