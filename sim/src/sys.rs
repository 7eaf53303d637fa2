//! The few C library calls the simulator needs itself.

use std::os::raw::{c_int, c_void};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    fn close(fd: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn kill(pid: c_int, sig: c_int) -> c_int;
    fn prctl(op: c_int, ...) -> c_int;
    fn poll(fds: *mut PollFd, n: u64, timeout: c_int) -> c_int;
}
#[repr(C)]
struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}

pub enum Child {
    Done(Vec<u8>),
    Hung,
    Died,
}

/// Time of the processor a process and its children have used, in milliseconds.
fn cpu_ms(pid: u32) -> u64 {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<u64> = t.rsplit(')').next().unwrap_or("").split(' ').map(|x| x.parse().unwrap_or(0)).collect();
    // user and system time, also of the children that ended, in hundredths of a second
    let own: u64 = (12..16).map(|k| f.get(k).copied().unwrap_or(0) * 10).sum();
    let children = std::fs::read_to_string(format!("/proc/{pid}/task/{pid}/children")).unwrap_or_default();
    own + children.split_whitespace().filter_map(|c| c.parse().ok()).map(cpu_ms).sum::<u64>()
}

/// Tells a process that hangs from one on a busy machine: it has used so much time of the processor,
/// or it has used none for so long.
pub struct Patience {
    pid: u32,
    start: u64,
    used: u64,
    idle: std::time::Instant,
    looked: std::time::Instant,
}
impl Patience {
    pub fn new(pid: u32) -> Patience {
        let (now, used) = (std::time::Instant::now(), cpu_ms(pid));
        Patience { pid, start: used, used, idle: now, looked: now }
    }
    pub fn over(&mut self, ms: u64) -> bool {
        if self.looked.elapsed().as_millis() < 500 {
            return false;
        }
        self.looked = std::time::Instant::now();
        let used = cpu_ms(self.pid);
        if used != self.used {
            self.used = used;
            self.idle = self.looked;
        }
        used.saturating_sub(self.start) >= ms || self.idle.elapsed().as_millis() as u64 >= ms
    }
}

/// Runs `f` in a forked copy of this (single-threaded) process and returns the bytes it produces.
pub fn in_child(timeout_ms: u64, f: impl FnOnce() -> Vec<u8>) -> Child {
    unsafe {
        let mut fds = [0 as c_int; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            harness_error("pipe failed");
        }
        let pid = fork();
        if pid < 0 {
            harness_error("fork failed");
        }
        if pid == 0 {
            // not to outlive a worker that is killed
            prctl(1, 9);
            close(fds[0]);
            let mut out = f();
            out.push(b'.');
            let mut at = 0;
            while at < out.len() {
                let n = write(fds[1], out[at..].as_ptr() as *const c_void, out.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut patience = Patience::new(pid as u32);
        let mut got = vec![];
        let mut buf = [0u8; 65536];
        let mut hung = false;
        loop {
            let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
            if poll(&mut p, 1, 1000) <= 0 {
                hung = patience.over(timeout_ms);
                if hung {
                    break;
                }
                continue;
            }
            let n = read(fds[0], buf.as_mut_ptr() as *mut c_void, buf.len());
            if n <= 0 {
                break;
            }
            got.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        if hung {
            kill(pid, 9);
        }
        let mut st: c_int = 0;
        waitpid(pid, &mut st, 0);
        if hung || st >> 8 == 77 {
            return Child::Hung;
        }
        if got.pop() != Some(b'.') {
            return Child::Died;
        }
        Child::Done(got)
    }
}

/// Ends the process at once.
pub fn leave(code: i32) -> ! {
    unsafe { _exit(code) }
}

/// Removed when the process that made it gives up.
pub static SCRATCH: std::sync::Mutex<Option<std::path::PathBuf>> = std::sync::Mutex::new(None);

pub fn harness_error(m: &str) -> ! {
    if let Some(d) = SCRATCH.lock().ok().and_then(|mut x| x.take()) {
        let _ = std::fs::remove_dir_all(d);
    }
    eprintln!("HARNESS-ERROR: {m}");
    std::process::exit(2)
}

/// Waits for data or the end of a pipe, from that process.
pub fn readable(fd: i32, pid: u32, timeout_ms: u64) -> bool {
    let mut patience = None;
    let mut pf = PollFd { fd, events: 1, revents: 0 };
    loop {
        if unsafe { poll(&mut pf, 1, 1000) } > 0 {
            return true;
        }
        if patience.get_or_insert_with(|| Patience::new(pid)).over(timeout_ms) {
            return false;
        }
    }
}

/// Reads until the end of the pipe; false: it does not come.
pub fn read_all(p: &mut std::process::ChildStdout, out: &mut Vec<u8>, pid: u32, timeout_ms: u64) -> bool {
    use std::os::fd::AsRawFd;
    let fd = p.as_raw_fd();
    let mut buf = [0u8; 65536];
    loop {
        if !readable(fd, pid, timeout_ms) {
            return false;
        }
        let n = unsafe { read(fd, buf.as_mut_ptr() as *mut c_void, buf.len()) };
        if n <= 0 {
            return true;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
}
