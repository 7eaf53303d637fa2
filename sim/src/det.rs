//! D01: hash-seed independence. D02: isolation of calls under every interleaving.

use crate::core::*;
use crate::gen;
use crate::json::{i, ints, obj, s, strs, V};
use crate::rng::Rng;
use crate::sink::{make, Doc};
use crate::steps::{arm, Pause};
use crate::sys::{in_child, Child};
use minifier::{css, html, js, json};
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Write};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

// ---------------------------------------------------------------- hash seeds

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    static HASH_DRAWS: Cell<u64> = const { Cell::new(0) };
}

/// The standard library draws the keys of its hash tables through this symbol: the simulator's
/// definition comes first, so that every key is the simulator's choice.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = Rng::new(HASH_SEED.with(|x| x.get()));
    HASH_DRAWS.with(|x| x.set(x.get() + 1));
    for k in 0..len {
        *buf.add(k) = r.next() as u8;
    }
    len as isize
}

pub fn set_hash_seed(x: u64) {
    HASH_SEED.with(|c| c.set(x));
}

/// Order in which a table with this thread's keys walks a fixed set, as a witness of the seed.
fn walk_order() -> Vec<u32> {
    let m: std::collections::HashSet<u32> = (0..16).collect();
    m.into_iter().collect()
}

pub fn hash_seam_works() -> bool {
    let f = |x: u64| {
        std::thread::spawn(move || {
            set_hash_seed(x);
            (walk_order(), HASH_DRAWS.with(|c| c.get()))
        })
        .join()
        .unwrap()
    };
    let (a, b, c) = (f(1), f(1), f(2));
    a == b && a.0 != c.0 && a.1 > 0
}

/// A library call without callbacks; the result as text.
pub fn pure_call(kind: &str, text: &str, name: &str) -> String {
    let r = guarded(|| -> Result<String, &'static str> {
        let toks = |clean: bool| -> Result<js::Tokens<'_>, &'static str> {
            let t = js::tokenize(text)?;
            Ok(if clean { js::clean_tokens(t) } else { t })
        };
        let sep = || js::Token::Char(js::ReservedChar::Backline);
        Ok(match kind {
            "agg" => js::aggregate_strings(toks(true)?).to_string(),
            "agg-raw" => js::aggregate_strings(toks(false)?).to_string(),
            "agg-sep" => js::aggregate_strings_with_separation(toks(true)?, sep()).to_string(),
            "arr" => js::aggregate_strings_into_array(toks(true)?, name).to_string(),
            "arr-raw" => js::aggregate_strings_into_array(toks(false)?, name).to_string(),
            "arr-sep" => js::aggregate_strings_into_array_with_separation(toks(true)?, name, sep()).to_string(),
            "arr-filter" => js::aggregate_strings_into_array_filter(toks(true)?, name, |t, p| p < 2 || !t[p - 1].eq_char(js::ReservedChar::OpenParenthese)).to_string(),
            "arr-sep-filter" => js::aggregate_strings_into_array_with_separation_filter(toks(true)?, name, sep(), |_, p| p % 3 != 0).to_string(),
            // filters whose answer depends on what they were asked before
            "arr-limit" => {
                let left = std::cell::Cell::new(2 + text.len() % 7);
                let f = |_: &js::Tokens<'_>, _| {
                    left.set(left.get().saturating_sub(1));
                    left.get() > 0
                };
                js::aggregate_strings_into_array_filter(toks(true)?, name, f).to_string()
            }
            "arr-moody" => {
                let (mood, m) = (std::cell::Cell::new(text.len()), 2 + text.len() % 3);
                let f = |_: &js::Tokens<'_>, p: usize| {
                    mood.set(mood.get().wrapping_mul(31).wrapping_add(p));
                    (mood.get() >> 3) % m != 0
                };
                js::aggregate_strings_into_array_with_separation_filter(toks(true)?, name, sep(), f).to_string()
            }
            "agg-arr" => js::aggregate_strings_into_array(js::aggregate_strings(toks(true)?), name).to_string(),
            "arr-arr" => js::aggregate_strings_into_array(js::aggregate_strings_into_array(toks(true)?, name), "second").to_string(),
            "except" => js::clean_tokens_except(toks(false)?, |t| t.get_char() != Some(js::ReservedChar::Backline)).to_string(),
            "replace" => js::replace_tokens_with(toks(true)?, |t| if t.is_string() { Some(js::Token::Other("S")) } else { None }).to_string(),
            "replace-nth" => {
                let n = std::cell::Cell::new(0);
                let f = |t: &js::Token<'_>| {
                    n.set(n.get() + t.is_string() as usize);
                    t.is_string().then(|| js::Token::CreatedVar(format!("n{}", n.get())))
                };
                js::replace_tokens_with(toks(true)?, f).to_string()
            }
            "varpos" => {
                let t = toks(true)?;
                (0..t.len()).map(|p| format!("{:?};", js::get_variable_name_and_value_positions(&t, p))).collect()
            }
            "debug" => format!("{:?}", toks(false)?),
            "js" => js::minify(text)?.to_string(),
            "css" => css::minify(text)?.to_string(),
            "json" => json::minify(text).to_string(),
            "html" => html::minify(text),
            _ => "?".into(),
        })
    });
    match r {
        Ok(Ok(x)) => format!("ok:{x}"),
        Ok(Err(e)) => format!("err:{e}"),
        Err(m) => format!("panic:{m}"),
    }
}

const AGG: &[&str] = &["agg", "agg", "agg-raw", "agg-sep", "arr", "arr", "arr-raw", "arr-sep", "arr-filter", "arr-sep-filter", "arr-limit", "arr-moody", "agg-arr", "arr-arr"];
const OTHER: &[&str] = &["except", "replace", "replace-nth", "varpos", "js", "css", "json", "html", "debug"];

fn text_for(r: &mut Rng, kind: &str, name: &str) -> Vec<String> {
    match kind {
        "css" => gen::css_text(r),
        "json" => gen::json_doc(r, false),
        "html" => gen::html_text(r),
        "js" | "except" | "varpos" | "replace" | "replace-nth" | "debug" if r.one_in(2) => gen::js_text(r),
        _ => gen::js_strings(r, name),
    }
}

// ---------------------------------------------------------------- D01

pub fn gen_d01(r: &mut Rng, thorough: bool) -> V {
    let kind = if r.one_in(8) { r.pick(OTHER) } else { r.pick(AGG) };
    let name = r.pick(&["R", "strs", "r_aa", "ARR"]);
    let n = if thorough { 8 } else { 4 };
    obj(vec![
        ("kind", s(kind)),
        ("name", s(name)),
        ("text", strs(&text_for(r, kind, name))),
        ("seeds", ints(&(0..n).map(|_| (r.next() >> 16) as usize).collect::<Vec<_>>())),
    ])
}

pub fn run_d01(sc: &V, log: &mut Log) -> R {
    let text = sc.get("text").joined();
    let (kind, name) = (sc.get("kind").str(), sc.get("name").str());
    let mut first: Option<(u64, String, Vec<u32>)> = None;
    let mut result = Ok(());
    for sd in sc.get("seeds").ints() {
        let seed = sd as u64;
        let (t, k, n) = (text.as_str(), kind, name);
        // a fresh thread draws fresh hash keys
        let (a, b, w) = std::thread::scope(|sp| {
            sp.spawn(move || {
                set_hash_seed(seed);
                let a = pure_call(k, t, n);
                // and again, with the next keys of the same thread
                let b = pure_call(k, t, n);
                (a, b, walk_order())
            })
            .join()
            .unwrap()
        });
        log.fault("hash seeding");
        log.ev("seed", seed, crate::rng::mix(a.len() as u64, w.iter().fold(0u64, |x, y| x.wrapping_mul(31).wrapping_add(*y as u64))));
        if a != b {
            result = bad("repetition-differs", format!("{kind}: {} then {}", diff(&a, &b), ""));
            break;
        }
        match &first {
            None => first = Some((seed, a, w)),
            Some((s0, x, w0)) => {
                if *w0 != w {
                    log.probe("tables walked in another order");
                }
                if *x != a {
                    result = bad("seed-dependent", format!("{kind} under hash seeds {s0} and {seed}: {}", diff(x, &a)));
                    break;
                }
            }
        }
    }
    if let Some((_, x, _)) = &first {
        log.ev_s("result", x);
        log.nontrivial = x.starts_with("ok:") && x.len() > 4;
        if x.contains("r_ba") || x.contains("[1]") {
            log.probe("several strings aggregated");
        }
        if x.starts_with("panic") {
            log.probe("call panics");
        }
    }
    result
}

fn diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |t: &str| -> String { String::from_utf8_lossy(&t.as_bytes()[k.saturating_sub(10).min(t.len())..]).chars().take(60).collect() };
    format!("results differ at byte {k}: {:?} / {:?}", cut(a), cut(b))
}

// ---------------------------------------------------------------- D02

/// Who may run: exactly one task at a time, chosen by the scenario at every callback, and - in the build
/// with scheduling points - within library code, too.
struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}
struct State {
    running: usize,
    alive: Vec<bool>,
    /// waits for a lock
    blocked: Vec<bool>,
    stuck: u32,
    choices: Vec<usize>,
    at: usize,
    /// after how many blocks, or accesses to shared memory, each task is interrupted, and how often that
    /// has happened
    pre: Vec<Vec<i64>>,
    shared: bool,
    pre_at: Vec<usize>,
    waits: u64,
    interrupted: u64,
    turn_over: bool,
    trace: Vec<u8>,
    switches: u64,
}

const MAX_PREEMPTIONS: usize = 300;

impl Sched {
    fn new(n: usize, choices: Vec<usize>, mut pre: Vec<Vec<i64>>, shared: bool) -> Arc<Sched> {
        pre.resize(n, vec![]);
        Arc::new(Sched {
            m: Mutex::new(State {
                running: usize::MAX,
                alive: vec![true; n],
                blocked: vec![false; n],
                stuck: 0,
                choices,
                at: 0,
                pre,
                shared,
                pre_at: vec![0; n],
                waits: 0,
                interrupted: 0,
                turn_over: false,
                trace: vec![],
                switches: 0,
            }),
            cv: Condvar::new(),
        })
    }
    fn pick(st: &mut State) {
        let mut live: Vec<usize> = (0..st.alive.len()).filter(|k| st.alive[*k] && !st.blocked[*k]).collect();
        if live.is_empty() {
            st.blocked.iter_mut().for_each(|x| *x = false);
            live = (0..st.alive.len()).filter(|k| st.alive[*k]).collect();
            if live.is_empty() {
                st.running = usize::MAX;
                return;
            }
            // every task waits for another
            st.stuck += 1;
            if st.stuck > 1_500 {
                crate::sys::leave(DEADLOCK);
            }
            if st.stuck > 50 {
                // perhaps for a thread of the library's own
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
        }
        // a task that has been interrupted very often may be waiting for another one
        let me = st.running;
        let fair = st.turn_over && st.pre_at.get(me).is_some_and(|k| *k >= MAX_PREEMPTIONS || st.pre[me].is_empty());
        st.turn_over = false;
        if fair {
            live = vec![*live.iter().find(|k| **k > me).unwrap_or(&live[0])];
        }
        let c = if st.choices.is_empty() { 0 } else { st.choices[st.at % st.choices.len()] };
        st.at += 1;
        let next = live[c % live.len()];
        if next != st.running {
            st.switches += 1;
        }
        st.running = next;
        if st.trace.len() < 100_000 {
            st.trace.push(next as u8);
        }
    }
    fn wait(&self, me: usize) {
        let _p = Pause::new();
        let mut st = self.m.lock().unwrap();
        while st.running != me {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn yield_now(&self, me: usize) {
        self.give_way(me, false);
    }
    fn give_way(&self, me: usize, blocked: bool) {
        let _o = Outside::new();
        let mut st = self.m.lock().unwrap();
        if blocked {
            st.blocked[me] = true;
            st.waits += 1;
        } else {
            st.blocked.iter_mut().for_each(|x| *x = false);
            st.stuck = 0;
        }
        Sched::pick(&mut st);
        self.cv.notify_all();
        while st.running != me {
            st = self.cv.wait(st).unwrap();
        }
        // the lock goes before the thread is a task again
        drop(st);
    }
    fn finish(&self, me: usize) {
        let _p = Pause::new();
        let mut st = self.m.lock().unwrap();
        st.alive[me] = false;
        st.blocked.iter_mut().for_each(|x| *x = false);
        st.stuck = 0;
        Sched::pick(&mut st);
        self.cv.notify_all();
    }
    /// How long the task may run now.
    fn allowance(&self, me: usize) -> i64 {
        let _o = Outside::new();
        let mut st = self.m.lock().unwrap();
        let k = st.pre_at[me];
        let n = st.pre[me].len();
        // at least so often that nobody spins for ever
        if n == 0 || k >= MAX_PREEMPTIONS {
            return 20_000;
        }
        st.pre_at[me] += 1;
        let left = st.pre[me][k % n].max(1);
        if st.shared { -left } else { left }
    }
}

const DEADLOCK: i32 = 77;

type Task = (Arc<Sched>, usize);
thread_local! {
    /// set while the thread runs library code as a task of the scheduler
    static TASK: RefCell<Option<Task>> = const { RefCell::new(None) };
}
pub fn is_task() -> bool {
    let _p = Pause::new();
    TASK.try_with(|x| x.try_borrow().map_or(false, |x| x.is_some())).unwrap_or(false)
}
/// Runs the simulator's code within a callback of library code.
struct Outside(Option<Task>, #[allow(dead_code)] Pause);
impl Outside {
    fn new() -> Outside {
        let p = Pause::new();
        Outside(TASK.with(|x| x.borrow_mut().take()), p)
    }
}
impl Drop for Outside {
    fn drop(&mut self) {
        let t = self.0.take();
        TASK.with(|x| *x.borrow_mut() = t);
    }
}

/// The thread has used up its allowance.
pub fn preempted() {
    // nothing of the simulator's own may count against the next one
    if let Some(n) = next_turn() {
        arm(n);
    }
}
#[inline(never)]
fn next_turn() -> Option<i64> {
    let o = Outside::new();
    let (s, me) = o.0.as_ref()?;
    {
        let mut st = s.m.lock().unwrap();
        st.interrupted += 1;
        st.turn_over = true;
    }
    s.yield_now(*me);
    Some(s.allowance(*me))
}
/// The thread has to wait for a lock.
pub fn blocked() {
    let o = Outside::new();
    if let Some((s, me)) = &o.0 {
        s.give_way(*me, true);
    }
}
/// Runs library code as a task.
fn as_task<T>(t: &Option<Task>, f: impl FnOnce() -> T) -> T {
    let Some((s, me)) = t else { return f() };
    let old = TASK.with(|x| x.borrow_mut().replace((s.clone(), *me)));
    let n = s.allowance(*me);
    struct Back(Option<Task>, i64);
    impl Drop for Back {
        fn drop(&mut self) {
            arm(0);
            let old = self.0.take();
            TASK.with(|x| *x.borrow_mut() = old);
            arm(self.1);
        }
    }
    let _b = Back(old, arm(n));
    f()
}
/// Two tasks that count without a lock lose counts exactly as the scheduler says.
pub fn scheduling_points_work() -> bool {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    if !cfg!(steps) {
        return true;
    }
    let run = |pre: i64, shared: bool| {
        COUNT.store(0, Relaxed);
        let sched = Sched::new(2, vec![1, 0], vec![vec![pre]; 2], shared);
        std::thread::scope(|sp| {
            for me in 0..2 {
                let sched = &sched;
                sp.spawn(move || {
                    sched.wait(me);
                    as_task(&Some((sched.clone(), me)), || {
                        for _ in 0..4 {
                            let n = COUNT.load(Relaxed);
                            COUNT.store(n + 1, Relaxed);
                        }
                    });
                    sched.finish(me);
                });
            }
            let mut st = sched.m.lock().unwrap();
            Sched::pick(&mut st);
            sched.cv.notify_all();
        });
        let n = sched.m.lock().unwrap().interrupted;
        (COUNT.load(Relaxed), n)
    };
    let (a, b) = (run(1, true), run(3, true));
    a == run(1, true) && a.0 < 8 && a.1 >= 15 && b.0 > a.0 && run(2, false).1 > 0 && run(1000, true) == (8, 0)
}

/// What a callback point does: give way to another task, run a nested call, panic.
#[derive(Clone)]
struct Point {
    sched: Option<(Arc<Sched>, usize)>,
    left: std::rc::Rc<Cell<i64>>,
    panic_at: i64,
    nested: Option<(i64, V)>,
    nested_out: std::rc::Rc<RefCell<Vec<(V, String)>>>,
}

impl Point {
    fn new(op: &V, sched: &Option<(Arc<Sched>, usize)>) -> Point {
        let n = op.get("nested");
        Point {
            sched: sched.clone(),
            left: std::rc::Rc::new(Cell::new(0)),
            panic_at: if op.get("panic").is_null() { -1 } else { op.get("panic").int() },
            nested: if n.is_null() { None } else { Some((op.get("nested_at").int(), n.clone())) },
            nested_out: Default::default(),
        }
    }
    fn hit(&self) {
        let _o = Outside::new();
        let k = self.left.get();
        self.left.set(k + 1);
        if k > 200_000 {
            std::panic::panic_any(StepBudget("callbacks without end"));
        }
        if let Some((s, me)) = &self.sched {
            s.yield_now(*me);
        }
        if let Some((at, op)) = &self.nested {
            if *at == k {
                let r = do_op(op, &self.sched);
                self.nested_out.borrow_mut().extend(r);
            }
        }
        if k == self.panic_at {
            std::panic::panic_any("callback panic".to_string());
        }
    }
}

/// Lets a value be used by another thread while its owner waits.
struct Carried<T>(T);
unsafe impl<T> Send for Carried<T> {}
impl<T> Carried<T> {
    fn open(self) -> T {
        self.0
    }
}

/// Runs `f` on another thread, with other hash keys, while this one waits.
fn elsewhere<T>(hop: bool, f: impl FnOnce() -> T) -> T {
    if !hop {
        return f();
    }
    let _o = Outside::new();
    let t = _o.0.clone();
    let c = Carried(f);
    let r = std::thread::scope(|s| {
        s.spawn(move || {
            set_hash_seed(HASH + 1);
            Carried(as_task(&t, c.open()))
        })
        .join()
    });
    match r {
        Ok(x) => x.open(),
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// An error that holds memory of its own.
fn loaded(kind: &str) -> io::Error {
    io::Error::new(kind_of(kind).kind(), "the caller's own words".repeat(3))
}

struct YSource {
    p: Point,
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    /// every n-th call fails
    every: usize,
    calls: usize,
}
impl Read for YSource {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.p.hit();
        self.calls += 1;
        if self.every > 0 && self.calls % self.every == 0 {
            return Err(loaded(if self.calls % 2 == 0 { "EINTR" } else { "reset" }));
        }
        let n = buf.len().min(self.data.len() - self.pos).min(if self.chunk == 0 { usize::MAX } else { self.chunk });
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct YSink {
    p: Point,
    got: std::rc::Rc<RefCell<Vec<u8>>>,
    chunk: usize,
    fail_at: usize,
}
impl Write for YSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.p.hit();
        let mut g = self.got.borrow_mut();
        if self.fail_at > 0 && g.len() >= self.fail_at {
            return Err(loaded("full"));
        }
        let n = buf.len().min(if self.chunk == 0 { usize::MAX } else { self.chunk });
        g.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl std::fmt::Write for YSink {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        self.p.hit();
        let mut g = self.got.borrow_mut();
        if self.fail_at > 0 && g.len() >= self.fail_at {
            return Err(std::fmt::Error);
        }
        g.extend_from_slice(t.as_bytes());
        Ok(())
    }
}

/// The operation without the calls nested in its callbacks, done once, on one thread.
fn stripped(op: &V) -> V {
    match op {
        V::O(o) => V::O(o.iter().filter(|x| !matches!(x.0.as_str(), "nested" | "nested_at" | "hop" | "times" | "place" | "fresh" | "use")).cloned().collect()),
        x => x.clone(),
    }
}

const ROOM: usize = 1 << 14;
thread_local! {
    /// operations after which a source, a sink or a closure given to the library still lives
    static KEPT: Cell<u64> = const { Cell::new(0) };
    /// which round it is
    static FRESH: Cell<u64> = const { Cell::new(0) };
    static PLACE: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) };
}
fn put(mut at: *mut u8, text: &str) -> *const u8 {
    assert!(text.len() <= ROOM);
    if at.is_null() {
        at = Box::leak(vec![0u8; ROOM].into_boxed_slice()).as_mut_ptr();
        PLACE.with(|x| x.set(at));
    }
    unsafe { std::ptr::copy_nonoverlapping(text.as_ptr(), at, text.len()) };
    at
}
enum Text {
    Own(String),
    Placed(usize, *const u8),
}
impl std::ops::Deref for Text {
    type Target = str;
    fn deref(&self) -> &str {
        match self {
            Text::Own(x) => x,
            Text::Placed(n, p) => unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(*p, *n)) },
        }
    }
}

/// Results that several operations format, each the same value. Types that may not be used by several threads at
/// once are left out.
static VALUES: OnceLock<Vec<(String, String, SharedDoc)>> = OnceLock::new();
struct SharedDoc(&'static Doc<'static>);
unsafe impl Sync for SharedDoc {}
unsafe impl Send for SharedDoc {}
struct IsSync<T>(std::marker::PhantomData<T>);
trait NotSync {
    const YES: bool = false;
}
impl<T> NotSync for IsSync<T> {}
impl<T: Sync> IsSync<T> {
    const YES: bool = true;
}
fn share_values(ops: &[&V]) {
    let mut all: Vec<(String, String, SharedDoc)> = vec![];
    let mut left: Vec<&V> = ops.to_vec();
    while let Some(op) = left.pop() {
        if !op.get("nested").is_null() {
            left.push(op.get("nested"));
        }
        let (kind, text) = (op.get("kind").str(), op.get("text").joined());
        let may = match kind {
            "fmt-json" => IsSync::<json::Minified<'static>>::YES,
            "fmt-css" => IsSync::<minifier::css::Minified<'static>>::YES,
            "fmt-js" => IsSync::<js::Minified<'static>>::YES,
            "fmt-tokens" | "fmt-aggregated" | "fmt-array" => IsSync::<js::Tokens<'static>>::YES,
            _ => false,
        };
        if !may || !op.get("use").bool() || all.iter().any(|x| x.0 == kind && x.1 == text) {
            continue;
        }
        let at: &'static str = Box::leak(text.clone().into_boxed_str());
        if let Some(d) = make(&kind[4..], at) {
            all.push((kind.to_string(), text, SharedDoc(Box::leak(Box::new(d)))));
        }
    }
    let _ = VALUES.set(all);
}

/// One operation with callbacks: everything observable about it, as text; then the same for the
/// calls nested in it.
fn do_op(op: &V, sched: &Option<(Arc<Sched>, usize)>) -> Vec<(V, String)> {
    let p = Point::new(op, sched);
    let mut text = op.get("text").joined();
    let kind = op.get("kind").str();
    // a text never seen before, of the same size
    let fresh = FRESH.with(|x| x.get());
    if fresh > 0 && op.get("fresh").bool() {
        let n = format!("v{fresh:07}");
        match kind.rsplit('-').next().unwrap_or("") {
            "stream" | "json" => text.push_str(&format!(" \"{n}\" ")),
            "css" => text.push_str(&format!(" .{n} > #{n} {{ --{n} : \"{n}\" ; }} /*! {n} */ ")),
            "html" => text.push_str(&format!(" <p id=\"{n}\">  {n} </p> ")),
            _ => text.push_str(&format!("; /*! {n} */ var {n} = [\"string {n}\", \"string {n}\", \"string {n}\", /{n}/g] ; ")),
        }
    }
    // texts that take each other's place in memory
    let text = if op.get("place").us() > 0 { Text::Placed(text.len(), PLACE.with(|x| put(x.get(), &text))) } else { Text::Own(text) };
    let mut name = op.get("name").str().to_string();
    if fresh > 0 && op.get("fresh").int() > 1 {
        name.push_str(&format!("{fresh:07}"));
    }
    let name = name.as_str();
    let chunk = op.get("chunk").us();
    let out: std::rc::Rc<RefCell<Vec<u8>>> = Default::default();
    let mut notes: Vec<String> = vec![];
    // every how many steps the value is handed to another thread
    let hop = op.get("hop").us();
    let r = guarded(|| as_task(sched, || match kind {
        "stream" => {
            let src = YSource { p: p.clone(), data: text.as_bytes().to_vec(), pos: 0, chunk, every: op.get("every").us(), calls: 0 };
            let mut rd = json::minify_from_read(src);
            let sizes: Vec<usize> = op.get("sizes").ints().into_iter().filter(|x| *x > 0).collect();
            let stop = if op.get("abandon").is_null() { usize::MAX } else { op.get("abandon").us() };
            let mut k = 0;
            while k < stop && k < 20_000 {
                let n = if sizes.is_empty() { 64 } else { sizes[k % sizes.len()].min(100_000) };
                k += 1;
                let mut buf = vec![0; n];
                let got = elsewhere(hop > 0 && k % hop == 0, || rd.read(&mut buf));
                match got {
                    Ok(0) => break,
                    Ok(m) => out.borrow_mut().extend_from_slice(&buf[..m]),
                    Err(e) => out.borrow_mut().extend_from_slice(format!("<{:?}>", e.kind()).as_bytes()),
                }
                if let Some((sc, me)) = sched {
                    sc.yield_now(*me);
                }
            }
        }
        "write-json" | "write-css" | "write-js" => {
            if let Some(m) = make(&kind[6..], &text) {
                let k = YSink { p: p.clone(), got: out.clone(), chunk, fail_at: op.get("fail_at").us() };
                let r = elsewhere(hop > 0, move || m.write(k));
                notes.push(format!("{:?}", r.map_err(|e| e.kind())));
            }
        }
        "fmt-json" | "fmt-css" | "fmt-js" | "fmt-tokens" | "fmt-aggregated" | "fmt-array" => {
            let all = if op.get("use").bool() { VALUES.get() } else { None };
            let mine;
            let value: Option<&dyn std::fmt::Display> = match all.and_then(|v| v.iter().find(|x| x.0 == kind && x.1 == *text)) {
                Some(x) => Some(x.2.0),
                None => {
                    mine = make(&kind[4..], &text);
                    mine.as_ref().map(|m| m as &dyn std::fmt::Display)
                }
            };
            if let Some(m) = value {
                for turn in 0..2 {
                    let mut k = YSink { p: p.clone(), got: out.clone(), chunk: 0, fail_at: op.get("fail_at").us() };
                    let r = elsewhere(hop > 0 && turn % hop == 0, || std::fmt::write(&mut k, format_args!("{m}")));
                    notes.push(format!("{r:?}"));
                }
            }
        }
        "filter" | "filter-sep" => {
            if let Ok(t) = js::tokenize(&text) {
                let t = js::clean_tokens(t);
                let f = |_: &js::Tokens<'_>, pos: usize| {
                    p.hit();
                    pos % 3 != 0
                };
                let t = if kind == "filter" {
                    js::aggregate_strings_into_array_filter(t, name, f)
                } else {
                    js::aggregate_strings_into_array_with_separation_filter(t, name, js::Token::Char(js::ReservedChar::Backline), f)
                };
                out.borrow_mut().extend_from_slice(t.to_string().as_bytes());
            }
        }
        "clean-cb" => {
            if let Ok(t) = js::tokenize(&text) {
                let t = js::clean_tokens_except(t, |x| {
                    p.hit();
                    x.get_char() != Some(js::ReservedChar::Backline)
                });
                out.borrow_mut().extend_from_slice(t.to_string().as_bytes());
            }
        }
        "replace-cb" => {
            if let Ok(t) = js::tokenize(&text) {
                let t = js::replace_tokens_with(t, |x| {
                    p.hit();
                    if x.is_string() {
                        Some(js::Token::Other("S"))
                    } else {
                        None
                    }
                });
                out.borrow_mut().extend_from_slice(t.to_string().as_bytes());
            }
        }
        "apply-cb" => {
            if let Ok(t) = js::tokenize(&text) {
                let t = t.apply(|t| {
                    p.hit();
                    js::aggregate_strings(js::clean_tokens(t))
                });
                out.borrow_mut().extend_from_slice(t.to_string().as_bytes());
            }
        }
        k => {
            p.hit();
            let x = pure_call(k, &text, name);
            out.borrow_mut().extend_from_slice(x.as_bytes());
        }
    }));
    if std::rc::Rc::strong_count(&p.left) != 1 || std::rc::Rc::strong_count(&out) != 1 {
        KEPT.with(|x| x.set(x.get() + 1));
    }
    let mut res = match r {
        Ok(()) => "returned".to_string(),
        Err(m) => format!("panic {m}"),
    };
    res.push_str(&format!(" {notes:?} {} ", String::from_utf8_lossy(&out.borrow())));
    let mut all = vec![(stripped(op), res)];
    all.extend(p.nested_out.borrow().iter().cloned());
    all
}

const CB: &[&str] = &[
    "stream", "stream", "stream", "stream", "write-json", "write-css", "write-js", "write-js", "fmt-json", "fmt-css", "fmt-js", "fmt-tokens", "fmt-aggregated", "fmt-array",
    "filter", "filter-sep", "clean-cb", "replace-cb", "apply-cb",
];

fn gen_op(r: &mut Rng, pool: &[Vec<String>; 5], depth: usize, only: Option<&'static str>) -> V {
    let mine = if only.is_some() { 5 } else { 2 };
    let plain = r.one_in(5);
    let kind = if let Some(k) = only {
        k
    } else if plain { if r.one_in(2) { r.pick(AGG) } else { r.pick(OTHER) } } else { r.pick(CB) };
    let mut o = obj(vec![("kind", s(kind))]);
    let own = r.one_in(mine);
    let text = match kind {
        "stream" | "write-json" | "fmt-json" | "json" => if own { gen::json_doc(r, false) } else { pool[0].clone() },
        "write-css" | "fmt-css" | "css" => if own { gen::css_text(r) } else { pool[1].clone() },
        "html" => if own { gen::html_text(r) } else { pool[2].clone() },
        "write-js" | "fmt-js" | "fmt-tokens" | "js" | "clean-cb" | "except" => if own { gen::js_text(r) } else { pool[3].clone() },
        _ => if own { gen::js_strings(r, "R") } else { pool[4].clone() },
    };
    o.set("text", strs(&text));
    o.set("name", s(r.pick(&["R", "R", "Q"])));
    o.set("chunk", i(r.choose(&[0, 1, 2, 3, 7])));
    if kind == "stream" {
        o.set("sizes", ints(&(0..r.range(1, 3)).map(|_| r.choose(&[1, 2, 5, 16, 64, 1000])).collect::<Vec<_>>()));
        if r.one_in(4) {
            o.set("every", i(r.range(2, 6)));
        }
        if r.one_in(5) {
            o.set("abandon", i(r.below(6)));
        }
    }
    if (kind.starts_with("write") || kind.starts_with("fmt")) && r.one_in(4) {
        o.set("fail_at", i(r.range(1, 40)));
    }
    if kind.starts_with("fmt") && !own && r.one_in(2) {
        o.set("use", V::B(true));
    }
    if r.one_in(7) {
        o.set("panic", i(r.below(8)));
    }
    if matches!(kind.split('-').next(), Some("stream" | "write" | "fmt")) && r.one_in(5) {
        o.set("hop", i(r.range(1, 3)));
    }
    if depth == 2 && r.one_in(25) && o.get("text").joined().len() < 150 {
        let n = r.choose(&[2, 3, 20, 70, 300]);
        // each html call compiles a dozen patterns
        o.set("times", i(if kind == "html" { n.min(20) } else { n }));
    }
    if depth > 0 && r.one_in(5) {
        o.set("nested_at", i(r.below(5)));
        o.set("nested", gen_op(r, pool, depth - 1, only));
    }
    o
}

/// Calls of one kind on alike texts of one length, which follow each other in the same place.
fn gen_series(r: &mut Rng) -> V {
    let lang = r.below(4);
    let text = |r: &mut Rng| match lang {
        0 => gen::json_doc(r, false),
        1 => gen::css_text(r),
        2 => gen::js_text(r),
        _ => gen::js_strings(r, "R"),
    };
    let kinds: &[&str] = match lang {
        0 => &["json", "write-json", "fmt-json", "stream"],
        1 => &["css", "write-css", "fmt-css"],
        2 => &["js", "write-js", "fmt-js", "fmt-tokens", "clean-cb", "debug"],
        _ => AGG,
    };
    let base = text(r);
    let mut texts: Vec<Vec<String>> = vec![base.clone()];
    for _ in 0..r.range(1, 5) {
        let mut t = match r.below(3) {
            0 => text(r),
            1 => base.clone(),
            _ => base[..r.below(base.len() + 1)].to_vec(),
        };
        for _ in 0..r.below(3) {
            t = gen::broken(r, &t);
        }
        texts.push(t);
    }
    let len = texts.iter().map(|t| t.iter().map(|x| x.len()).sum::<usize>()).max().unwrap();
    if len > ROOM {
        texts.clear();
    }
    let one = r.pick(kinds);
    let mut ops = vec![];
    for mut t in texts {
        let n: usize = t.iter().map(|x| x.len()).sum();
        if n < len {
            t.push(" ".repeat(len - n));
        }
        let kind = if r.one_in(3) { r.pick(kinds) } else { one };
        ops.push(obj(vec![("kind", s(kind)), ("text", strs(&t)), ("name", s("R")), ("chunk", i(0)), ("place", i(1))]));
    }
    V::A(ops)
}

pub fn gen_d02(r: &mut Rng, _t: bool) -> V {
    // texts shared by several operations, next to their own ones
    let mut pool = [gen::json_doc(r, false), gen::css_text(r), gen::html_text(r), gen::js_text(r), gen::js_strings(r, "R")];
    // calls of one kind, of the same texts or nearly, meet in the same code
    let alike: &[&'static str] = match r.below(16) {
        0 | 1 => AGG,
        2 | 3 => &["css", "write-css", "fmt-css"],
        4 | 5 => &["js", "write-js", "fmt-js", "fmt-tokens", "except", "clean-cb"],
        6 => &["json", "write-json", "fmt-json", "stream"],
        9 => &["fmt-json", "fmt-css", "fmt-js", "fmt-tokens", "fmt-aggregated", "fmt-array"],
        10 => std::slice::from_ref(r.choose(&[&"fmt-json", &"fmt-css", &"fmt-js", &"fmt-tokens"])),
        7 => &["html"],
        8 => &["filter", "filter-sep", "arr", "arr-filter"],
        _ => &[],
    };
    let few = !alike.is_empty() && r.one_in(2);
    if few {
        pool.iter_mut().for_each(|t| t.truncate(10));
    }
    let n = if alike.is_empty() { r.choose(&[1, 2, 2, 3, 4]) } else { r.choose(&[2, 2, 3]) };
    let mut tasks: Vec<V> = vec![];
    let mut other = pool.clone();
    for t in &mut other {
        if few && r.one_in(2) {
            // refused, where anything is
            t.push("/*".into());
        } else {
            *t = gen::broken(r, t);
        }
    }
    for _ in 0..n {
        let mut ops = vec![];
        for _ in 0..if few { r.range(1, 7) } else { r.range(1, 4) } {
            let only = if alike.is_empty() { None } else { Some(r.pick(alike)) };
            let texts = if r.one_in(4) { &other } else { &pool };
            let mut o = gen_op(r, texts, if few { 0 } else { 2 }, only);
            if few && r.one_in(2) {
                // nothing but the call
                if let V::O(f) = &mut o {
                    f.retain(|x| matches!(x.0.as_str(), "kind" | "text" | "name" | "chunk" | "use"));
                }
            }
            ops.push(o);
        }
        tasks.push(V::A(ops));
    }
    if alike.is_empty() && r.one_in(4) {
        let k = r.below(tasks.len());
        tasks[k] = gen_series(r);
    }
    let n = r.choose(&[1, 4, 16, 64]);
    let sched = ints(&(0..n).map(|_| r.below(12)).collect::<Vec<_>>());
    // after how many blocks of code, or accesses to shared memory, a task is interrupted
    let mut pre = vec![];
    let shared = r.one_in(2);
    if !alike.is_empty() || r.one_in(2) {
        for _ in 0..tasks.len() {
            pre.push(ints(&match r.below(4) {
                _ if shared => (0..r.range(1, 7)).map(|_| r.choose(&[1, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 30, 50])).collect(),
                0 => vec![],
                1 => vec![r.choose(&[1, 2, 5, 11, 23, 50, 111, 300, 1000])],
                2 => (0..r.range(1, 6)).map(|_| r.range(1, 60)).collect::<Vec<_>>(),
                _ => (0..r.range(1, 6)).map(|_| { let m = r.choose(&[30, 300, 3000, 20_000]); r.range(1, m) }).collect::<Vec<_>>(),
            }));
        }
    }
    obj(vec![("tasks", V::A(tasks)), ("sched", sched), ("pre", V::A(pre)), ("shared", V::B(shared))])
}

const HASH: u64 = 77;
const HANG_MS: u64 = 25_000;

fn alone(op: &V) -> Result<String, Stop> {
    match in_child(HANG_MS, || {
        let op = op.clone();
        std::thread::spawn(move || {
            set_hash_seed(HASH);
            do_op(&op, &None)
        })
        .join()
        .map(|x| x[0].1.clone().into_bytes())
        .unwrap_or_default()
    }) {
        Child::Done(b) => Ok(String::from_utf8_lossy(&b).into_owned()),
        // an operation that does not even end alone is not this property's subject
        _ => Err(Stop::Invalid),
    }
}

pub fn run_d02(sc: &V, log: &mut Log) -> R {
    let tasks: Vec<Vec<V>> = sc.get("tasks").arr().iter().map(|t| t.arr().to_vec()).collect();
    if tasks.is_empty() || tasks.len() > 8 {
        return Err(Stop::Invalid);
    }
    let choices = sc.get("sched").ints();
    let pre: Vec<Vec<i64>> = sc.get("pre").arr().iter().map(|x| x.ints().into_iter().map(|n| n.min(1_000_000) as i64).collect()).collect();
    let shared = sc.get("shared").bool();
    let mut seen: Vec<(V, String)> = vec![];
    let t2 = tasks.clone();
    let child = in_child(HANG_MS, || {
        let n = t2.len();
        set_hash_seed(HASH);
        share_values(&t2.iter().flatten().collect::<Vec<_>>());
        let sched = Sched::new(n, choices, pre, shared);
        let results: Arc<Mutex<Vec<Vec<V>>>> = Arc::new(Mutex::new(vec![vec![]; n]));
        let mut hs = vec![];
        for (me, ops) in t2.into_iter().enumerate() {
            let (sched, results) = (sched.clone(), results.clone());
            hs.push(std::thread::spawn(move || {
                set_hash_seed(HASH);
                sched.wait(me);
                let pair = Some((sched.clone(), me));
                for o in &ops {
                    let mut r = do_op(o, &pair);
                    for _ in 1..o.get("times").us().min(2_000) {
                        let again = do_op(o, &pair);
                        if again != r {
                            r.extend(again);
                            break;
                        }
                    }
                    let r = V::A(r.into_iter().map(|(o, x)| V::A(vec![o, V::S(x)])).collect());
                    results.lock().unwrap()[me].push(r);
                    sched.yield_now(me);
                }
                sched.finish(me);
            }));
        }
        {
            let mut st = sched.m.lock().unwrap();
            Sched::pick(&mut st);
            sched.cv.notify_all();
        }
        for h in hs {
            let _ = h.join();
        }
        let st = sched.m.lock().unwrap();
        let res = results.lock().unwrap();
        let mut f = crate::rng::Fnv::new();
        f.bytes(&st.trace);
        obj(vec![
            ("switches", i(st.switches as usize)),
            ("preemptions", i(st.interrupted as usize)),
            ("waits", i(st.waits as usize)),
            ("yields", i(st.at)),
            ("trace", s(&format!("{:016x}", f.0))),
            ("results", V::A(res.iter().map(|t| V::A(t.clone())).collect())),
        ])
        .dump()
        .into_bytes()
    });
    let bytes = match &child {
        Child::Done(b) => b.clone(),
        Child::Hung | Child::Died => {
            // does each operation finish alone?
            for o in tasks.iter().flatten() {
                alone(o)?;
            }
            return match child {
                Child::Hung => bad("deadlock", "the operations do not finish together, although each finishes alone".into()),
                _ => bad("crash", "the process dies running operations together, although each finishes alone".into()),
            };
        }
    };
    let Some(v) = V::parse(&String::from_utf8_lossy(&bytes)) else {
        crate::sys::harness_error("unreadable child result")
    };
    log.ev("yields", v.get("yields").us() as u64, v.get("switches").us() as u64);
    log.ev_s("schedule", v.get("trace").str());
    for (t, ops) in tasks.iter().enumerate() {
        let got = v.get("results").arr().get(t).map(|x| x.arr().to_vec()).unwrap_or_default();
        if got.len() != ops.len() {
            return bad("lost", format!("task {t} finished {} of {} operations", got.len(), ops.len()));
        }
        for (k, list) in got.iter().enumerate() {
            for (depth, pair) in list.arr().iter().enumerate() {
                let (o, g) = (&pair.arr()[0], pair.arr()[1].str());
                // the same operation alone, in a process that has done nothing else
                let hit = seen.iter().find(|x| x.0 == *o).map(|x| x.1.clone());
                let e = match hit {
                    Some(e) => e,
                    None => {
                        let e = alone(o)?;
                        seen.push((o.clone(), e.clone()));
                        e
                    }
                };
                log.ev_s("result", g);
                if g != e {
                    let what = if depth > 0 { "nested in it, " } else { "" };
                    return bad("influenced", format!("task {t} operation {k}, {what}{}: alone / together: {}", o.get("kind").str(), diff(&e, g)));
                }
                if e.starts_with("panic callback") {
                    log.fault("callback panic");
                }
                if depth > 0 {
                    log.probe("nested call");
                }
                let full = &ops[k];
                if depth == 0 && full.get("hop").us() > 0 {
                    log.probe("value handed to another thread");
                }
                if depth == 0 && full.get("use").bool() {
                    log.probe("value shared by several operations");
                }
                if depth == 0 && full.get("place").us() > 0 {
                    log.probe("text in the place of an earlier one");
                }
                if depth == 0 && full.get("times").us() > 20 {
                    log.probe("call repeated many times");
                }
                if !o.get("abandon").is_null() {
                    log.fault("abandoned stream");
                }
                if o.get("every").us() > 0 {
                    log.fault("source failures");
                }
                if o.get("fail_at").us() > 0 {
                    log.fault("sink failure");
                }
            }
        }
    }
    let ops: usize = tasks.iter().map(|t| t.len()).sum();
    log.nontrivial = ops > 1 || v.get("switches").us() > 1;
    let n = v.get("preemptions").us();
    if n > 0 {
        log.fault(if shared { "preemption at a shared access" } else { "preemption within a call" });
    }
    if v.get("waits").us() > 0 {
        log.probe("a task waits for a lock another one holds");
    }
    if v.get("switches").us() > 3 {
        log.probe("several switches between tasks");
    }
    Ok(())
}

// ---------------------------------------------------------------- D03

pub fn gen_d03(r: &mut Rng, _t: bool) -> V {
    let pool = [gen::json_doc(r, false), gen::css_text(r), gen::html_text(r), gen::js_text(r), gen::js_strings(r, "R")];
    let mut ops = vec![];
    for _ in 0..r.choose(&[1, 1, 2, 3]) {
        let mut o = gen_op(r, &pool, 1, None);
        if let V::O(f) = &mut o {
            f.retain(|x| !matches!(x.0.as_str(), "hop" | "times" | "place" | "use"));
        }
        if r.one_in(2) {
            o.set("fresh", i(r.choose(&[1, 2])));
        }
        if r.one_in(3) && o.get("panic").is_null() && CB.contains(&o.get("kind").str()) {
            o.set("panic", i(r.below(6)));
        }
        ops.push(o);
    }
    obj(vec![("ops", V::A(ops))])
}

fn count_of(dir: &str) -> usize {
    std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0)
}

pub fn run_d03(sc: &V, log: &mut Log) -> R {
    let ops = sc.get("ops").arr().to_vec();
    if ops.is_empty() || ops.len() > 20 {
        return Err(Stop::Invalid);
    }
    let todo = ops.clone();
    let child = in_child(HANG_MS, move || {
        set_hash_seed(HASH);
        let mut seen: Vec<Vec<String>> = vec![];
        for o in &todo {
            seen.push(do_op(o, &None).into_iter().map(|x| x.1).collect());
        }
        let round = || {
            for o in &todo {
                do_op(o, &None);
            }
        };
        let mut levels: Vec<(usize, i64)> = Vec::with_capacity(64);
        let before = (count_of("/proc/self/task"), count_of("/proc/self/fd"));
        crate::alloc::reset();
        crate::alloc::on();
        let mut done = 0;
        let mut run_to = |n: usize, levels: &mut Vec<(usize, i64)>| {
            while done < n {
                done += 1;
                FRESH.with(|x| x.set(done as u64));
                round();
            }
            levels.push((n, crate::alloc::live()));
        };
        for n in [8, 16, 24] {
            run_to(n, &mut levels);
        }
        if levels[2].1 > levels[0].1 {
            // a store that fills up once, or one that grows for ever?
            for n in [64, 256, 1024] {
                run_to(n, &mut levels);
            }
        }
        crate::alloc::pause();
        let after = (count_of("/proc/self/task"), count_of("/proc/self/fd"));
        obj(vec![
            ("levels", V::A(levels.iter().map(|x| V::A(vec![i(x.0), V::I(x.1)])).collect())),
            ("kept", i(KEPT.with(|x| x.get()) as usize)),
            ("threads", V::B(before.0 != after.0)),
            ("files", V::B(before.1 != after.1)),
            ("results", V::A(seen.iter().map(|x| strs(x)).collect())),
        ])
        .dump()
        .into_bytes()
    });
    let bytes = match child {
        Child::Done(b) => b,
        c => {
            for o in &ops {
                alone(o)?;
            }
            return match c {
                Child::Hung => bad("deadlock", "the operations do not finish when repeated, although each finishes once".into()),
                _ => bad("crash", "the process dies repeating operations, although each finishes once".into()),
            };
        }
    };
    let Some(v) = V::parse(&String::from_utf8_lossy(&bytes)) else {
        crate::sys::harness_error("unreadable child result")
    };
    for r in v.get("results").arr() {
        for x in r.arr() {
            log.ev_s("result", x.str());
            if x.str().starts_with("panic callback") {
                log.fault("callback panic");
            } else if x.str().starts_with("panic") {
                log.probe("call panics");
            }
        }
    }
    for o in &ops {
        log.ev_s("op", o.get("kind").str());
        if o.get("fresh").bool() {
            log.probe("each round a text of its own");
        }
        if !o.get("abandon").is_null() {
            log.fault("abandoned stream");
        }
        if o.get("every").us() > 0 {
            log.fault("source failures");
        }
        if o.get("fail_at").us() > 0 {
            log.fault("sink failure");
        }
    }
    log.nontrivial = true;
    if v.get("kept").us() > 0 {
        return bad("kept", format!("a source, sink or closure given to the library still lives after {} operations have ended", v.get("kept").us()));
    }
    if v.get("threads").bool() || v.get("files").bool() {
        return bad("kept", "threads or open files are left when the operations have ended".into());
    }
    let l: Vec<(usize, i64)> = v.get("levels").arr().iter().map(|x| (x.arr()[0].us(), x.arr()[1].int())).collect();
    if l.len() > 3 {
        log.probe("memory grew for a while");
        if l[3].1 < l[4].1 && l[4].1 < l[5].1 {
            return bad(
                "leak",
                format!("memory in use grows for ever when the same operations are repeated: {}", l.iter().map(|x| format!("{} bytes after {} rounds", x.1, x.0)).collect::<Vec<_>>().join(", ")),
            );
        }
    }
    Ok(())
}
