//! Shared run machinery: event log, verdicts.

use crate::rng::Fnv;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};

pub static VERBOSE: AtomicBool = AtomicBool::new(false);

/// The event log of one run. Its hash identifies the execution; the text is only kept for replays.
pub struct Log {
    hash: Fnv,
    pub steps: u64,
    /// simulated time
    pub sim_ns: u64,
    pub text: Option<Vec<String>>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
}

impl Log {
    pub fn new() -> Log {
        Log {
            hash: Fnv::new(),
            steps: 0,
            sim_ns: 0,
            text: if VERBOSE.load(Ordering::Relaxed) { Some(vec![]) } else { None },
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            nontrivial: false,
        }
    }
    pub fn ev(&mut self, tag: &'static str, a: u64, b: u64) {
        self.steps += 1;
        self.hash.bytes(tag.as_bytes());
        self.hash.u64(a);
        self.hash.u64(b);
        if let Some(t) = &mut self.text {
            if t.len() < 2000 {
                t.push(format!("{tag} {a} {b}"));
            }
        }
    }
    pub fn ev_s(&mut self, tag: &'static str, what: &str) {
        self.steps += 1;
        self.hash.bytes(tag.as_bytes());
        self.hash.bytes(what.as_bytes());
        self.hash.u8(0xff);
        if let Some(t) = &mut self.text {
            if t.len() < 2000 {
                t.push(format!("{tag} {what}"));
            }
        }
    }
    pub fn fault(&mut self, kind: &str) {
        match self.faults.get_mut(kind) {
            Some(c) => *c += 1,
            None => {
                self.faults.insert(kind.to_string(), 1);
            }
        }
    }
    pub fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_insert(0) += 1;
    }
    pub fn hash_in(&mut self, x: u64) {
        self.hash.u64(x);
    }
    pub fn hash(&self) -> u64 {
        self.hash.0
    }
}

pub enum Stop {
    /// class, detail
    Bad(&'static str, String),
    /// the scenario is outside the property's scope
    Invalid,
}
pub type R = Result<(), Stop>;

pub fn bad<T>(class: &'static str, detail: String) -> Result<T, Stop> {
    Err(Stop::Bad(class, detail))
}

pub fn show(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let t: String = t.chars().take(160).collect();
    format!("{t:?} ({} bytes)", b.len())
}

/// Runs code under test; a panic becomes its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<StepBudget>() {
            format!("no progress: {}", s.0)
        } else {
            "panic".to_string()
        }
    })
}

/// Panic payload used by the simulated environment when the code under test asks for too much.
pub struct StepBudget(pub &'static str);

pub fn kind_of(name: &str) -> std::io::Error {
    use std::io::{Error, ErrorKind::*};
    match name {
        "EINTR" => Error::from(Interrupted),
        "EINTR-os" => Error::from_raw_os_error(4),
        "EINTR-own" => Error::new(Interrupted, Mine),
        "reset" => Error::from(ConnectionReset),
        "pipe" => Error::from(BrokenPipe),
        "wouldblock" => Error::from(WouldBlock),
        "timeout" => Error::from(TimedOut),
        "eof" => Error::from(UnexpectedEof),
        "other" => Error::from(Other),
        "perm" => Error::from(PermissionDenied),
        "invaliddata" => Error::from(InvalidData),
        "invalidinput" => Error::from(InvalidInput),
        "notfound" => Error::from(NotFound),
        "oom" => Error::from(OutOfMemory),
        "full" => Error::from(StorageFull),
        "aborted" => Error::from(ConnectionAborted),
        "eio" => Error::from_raw_os_error(5),
        "enospc" => Error::from_raw_os_error(28),
        "eagain" => Error::from_raw_os_error(11),
        "writezero" => Error::from(WriteZero),
        "custom" => Error::new(NotConnected, Mine),
        "own-eof" => Error::new(UnexpectedEof, Mine),
        "own-data" => Error::new(InvalidData, Mine),
        "esomething" => Error::from_raw_os_error(133),
        _ => Error::from(Other),
    }
}
/// An error of the caller's own, which it may want to find again in what it is given.
#[derive(Debug)]
struct Mine;
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("injected")
    }
}
impl std::error::Error for Mine {}

/// What a caller can tell an error by: kind, operating system code, payload (and whether it is its own).
#[derive(Clone, PartialEq)]
pub struct Ident(pub std::io::ErrorKind, Option<i32>, Option<(bool, String)>);
pub fn ident(e: &std::io::Error) -> Ident {
    Ident(e.kind(), e.raw_os_error(), e.get_ref().map(|x| (x.is::<Mine>(), x.to_string())))
}
impl std::fmt::Debug for Ident {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Ident(k, None, None) => write!(f, "{k:?}"),
            Ident(k, Some(n), _) => write!(f, "{k:?} (code {n})"),
            Ident(k, None, Some((mine, x))) => write!(f, "{k:?} ({x:?}{})", if *mine { ", own" } else { "" }),
        }
    }
}

/// An interruption comes as a bare kind, from the system, or made by a source or sink of the caller's.
pub const EINTR: &[&str] = &["EINTR", "EINTR", "EINTR-os", "EINTR-own"];
pub fn is_eintr(name: &str) -> bool {
    EINTR.contains(&name)
}
pub const HARD: &[&str] = &[
    "reset", "pipe", "wouldblock", "timeout", "eof", "other", "perm", "invaliddata", "invalidinput", "notfound", "oom", "full",
    "aborted", "eio", "enospc", "eagain", "writezero", "custom", "own-eof", "own-data", "esomething",
];
