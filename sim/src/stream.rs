//! S01..S05: the streaming JSON reader between a simulated source and a simulated caller.

use crate::alloc;
use crate::core::*;
use crate::gen;
use crate::json::{hex, i, ints, obj, s, strs, unhex, V};
use crate::model::{json_min, json_valid, Machine};
use crate::rng::Rng;
use minifier::json::{minify, minify_from_read};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, ErrorKind, IoSliceMut, Read};
use std::rc::Rc;

// ---------------------------------------------------------------- source

#[derive(Default)]
pub struct SrcState {
    pub calls: u64,
    pub bytes: u64,
    pub empty_calls: u64,
    pub eof_signals: u64,
    pub short_reads: u64,
    /// kinds of the failures that fired, in order
    pub fired: Vec<(String, Ident)>,
    /// the reader told its caller that the stream is over: more data would now be available
    pub reader_ended: bool,
    pub calls_after_end: u64,
    pub split_char: u64,
    pub mid_char_fault: u64,
}

pub struct Source {
    data: Vec<u8>,
    pos: usize,
    chunks: Vec<usize>,
    ci: usize,
    /// (offset, kind, how often)
    faults: Vec<(usize, String, usize)>,
    perm: Option<(usize, String)>,
    after: Vec<u8>,
    cap: u64,
    pub st: Rc<RefCell<SrcState>>,
}

impl Source {
    pub fn new(data: Vec<u8>, plan: &V) -> Source {
        let faults: Vec<(usize, String, usize)> = plan
            .get("faults")
            .arr()
            .iter()
            .filter(|f| f.arr().len() == 3)
            .map(|f| (f.arr()[0].us(), f.arr()[1].str().to_string(), f.arr()[2].us().min(1000)))
            .collect();
        let total: usize = faults.iter().map(|f| f.2).sum();
        let p = plan.get("perm");
        let perm = if p.arr().len() == 2 && p.arr()[0].us() <= data.len() {
            Some((p.arr()[0].us(), p.arr()[1].str().to_string()))
        } else {
            None
        };
        Source {
            cap: 4 * (data.len() + total) as u64 + 4000,
            data,
            pos: 0,
            chunks: plan.get("chunks").ints(),
            ci: 0,
            faults,
            perm,
            after: plan.get("after").str().as_bytes().to_vec(),
            st: Rc::new(RefCell::new(SrcState::default())),
        }
    }
    pub fn hard_total(&self) -> usize {
        self.faults.iter().filter(|f| !is_eintr(&f.1)).map(|f| f.2).sum()
    }
    pub fn fault_total(&self) -> usize {
        self.faults.iter().map(|f| f.2).sum()
    }
    fn in_char(&self) -> bool {
        self.pos < self.data.len() && self.data[self.pos] & 0xC0 == 0x80
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut st = self.st.borrow_mut();
        st.calls += 1;
        if st.calls > self.cap {
            drop(st);
            std::panic::panic_any(StepBudget("the source is asked for data without end"));
        }
        if st.reader_ended {
            st.calls_after_end += 1;
            let n = self.after.len().min(buf.len());
            buf[..n].copy_from_slice(&self.after[..n]);
            return Ok(n);
        }
        if buf.is_empty() {
            st.empty_calls += 1;
            return Ok(0);
        }
        if let Some((off, kind)) = &self.perm {
            if self.pos >= *off {
                let e = kind_of(kind);
                if st.fired.len() < 10_000 {
                    st.fired.push((kind.clone(), ident(&e)));
                }
                return Err(e);
            }
        }
        let in_char = self.in_char();
        for f in self.faults.iter_mut() {
            if f.0 == self.pos && f.2 > 0 {
                f.2 -= 1;
                let e = kind_of(&f.1);
                st.fired.push((f.1.clone(), ident(&e)));
                if in_char {
                    st.mid_char_fault += 1;
                }
                return Err(e);
            }
        }
        if self.pos >= self.data.len() {
            st.eof_signals += 1;
            return Ok(0);
        }
        let mut n = if self.chunks.is_empty() { usize::MAX } else { self.chunks[self.ci % self.chunks.len()] };
        self.ci += 1;
        if n == 0 {
            n = usize::MAX;
        }
        n = n.min(buf.len()).min(self.data.len() - self.pos);
        for f in &self.faults {
            if f.2 > 0 && f.0 > self.pos {
                n = n.min(f.0 - self.pos);
            }
        }
        if let Some((off, _)) = &self.perm {
            n = n.min(*off - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        st.bytes += n as u64;
        if n < buf.len() {
            st.short_reads += 1;
        }
        drop(st);
        if self.in_char() {
            self.st.borrow_mut().split_char += 1;
        }
        Ok(n)
    }
}

// ---------------------------------------------------------------- caller

#[derive(Default)]
struct Step {
    errs: Vec<Ident>,
    end: bool,
    bad: Option<(&'static str, String)>,
}

/// One caller operation. Delivered bytes are appended to `out`.
fn apply<T: Read>(rd: &mut T, op: &V, out: &mut Vec<u8>, expected_len: usize) -> Step {
    let mut st = Step::default();
    let a = op.arr();
    let name = a.first().map(|x| x.str()).unwrap_or("");
    let n = a.get(1).map(|x| x.us()).unwrap_or(0).min(1 << 20);
    match name {
        "r" => {
            let mut buf = vec![0xAA; n];
            match rd.read(&mut buf) {
                Ok(k) if k > n => st.bad = Some(("overrun", format!("read reports {k} bytes in a buffer of {n}"))),
                Ok(0) if n > 0 => st.end = true,
                Ok(k) => out.extend_from_slice(&buf[..k]),
                Err(e) => {
                    st.errs.push(ident(&e));
                    if n == 0 {
                        st.bad = Some(("zero-read", format!("a read into an empty buffer fails: {e}")));
                    }
                }
            }
        }
        "v" => {
            let sizes: Vec<usize> = a.get(1).map(|x| x.ints()).unwrap_or_default().iter().map(|x| (*x).min(4096)).collect();
            let total: usize = sizes.iter().sum();
            let mut bufs: Vec<Vec<u8>> = sizes.iter().map(|k| vec![0xAA; *k]).collect();
            let mut sl: Vec<IoSliceMut> = bufs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
            match rd.read_vectored(&mut sl) {
                Ok(k) if k > total => st.bad = Some(("overrun", format!("read_vectored reports {k} bytes in buffers of {total}"))),
                Ok(0) if total > 0 => st.end = true,
                Ok(mut k) => {
                    for b in &bufs {
                        let m = k.min(b.len());
                        out.extend_from_slice(&b[..m]);
                        k -= m;
                    }
                }
                Err(e) => st.errs.push(ident(&e)),
            }
        }
        "t" => {
            if n > 0 {
                let mut v = vec![];
                match rd.by_ref().take(n as u64).read_to_end(&mut v) {
                    Ok(_) => st.end = v.len() < n,
                    Err(e) => st.errs.push(ident(&e)),
                }
                out.extend_from_slice(&v);
            }
        }
        "b" => {
            let mut it = rd.by_ref().bytes();
            for _ in 0..n {
                match it.next() {
                    Some(Ok(b)) => out.push(b),
                    Some(Err(e)) => {
                        st.errs.push(ident(&e));
                        break;
                    }
                    None => {
                        st.end = true;
                        break;
                    }
                }
            }
        }
        "x" => {
            let m = n.min(expected_len.saturating_sub(out.len()));
            if m > 0 {
                let mut buf = vec![0xAA; m];
                match rd.read_exact(&mut buf) {
                    Ok(()) => out.extend_from_slice(&buf),
                    Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
                        st.bad = Some(("truncated", format!("read_exact of {m} of the remaining {} bytes hits the end", expected_len - out.len())))
                    }
                    Err(e) => st.errs.push(ident(&e)),
                }
            }
        }
        "e" => {
            let mut v = vec![];
            match rd.read_to_end(&mut v) {
                Ok(_) => st.end = true,
                Err(e) => st.errs.push(ident(&e)),
            }
            out.extend_from_slice(&v);
        }
        "s" => {
            let mut v = String::new();
            match rd.read_to_string(&mut v) {
                Ok(_) => st.end = true,
                Err(e) => st.errs.push(ident(&e)),
            }
            out.extend_from_slice(v.as_bytes());
        }
        "c" => {
            let mut v = vec![];
            match std::io::copy(rd, &mut v) {
                Ok(_) => st.end = true,
                Err(e) => st.errs.push(ident(&e)),
            }
            out.extend_from_slice(&v);
        }
        "B" => {
            let mut br = BufReader::with_capacity(n.max(1), rd.by_ref());
            loop {
                match br.fill_buf() {
                    Ok(b) if b.is_empty() => {
                        st.end = true;
                        break;
                    }
                    Ok(b) => {
                        let k = b.len();
                        out.extend_from_slice(b);
                        br.consume(k);
                    }
                    Err(e) => {
                        let soft = e.kind() == ErrorKind::Interrupted;
                        st.errs.push(ident(&e));
                        if !soft || st.errs.len() > 8 {
                            break;
                        }
                    }
                }
            }
        }
        _ => {}
    }
    st
}

fn op(name: &str, n: usize) -> V {
    V::A(vec![s(name), i(n)])
}

fn gen_ops(r: &mut Rng, lossless_only: bool) -> V {
    let n = r.range(1, 6);
    let mut v = vec![];
    let style = r.below(4);
    // sizes around the powers of two
    let edge = r.one_in(12);
    for _ in 0..n {
        let size = match style {
            _ if edge => (1usize << r.range(6, 17)) + r.below(3) - 1,
            0 => r.range(1, 4),
            1 => r.choose(&[1, 2, 3, 5, 7, 16, 31, 32, 33, 64]),
            2 => r.choose(&[64, 100, 1000, 4096, 8192, 70000]),
            _ => r.range(1, 40),
        };
        v.push(match r.below(14) {
            0..=6 => op("r", size),
            7 => op("r", 0),
            8 => V::A(vec![s("v"), ints(&(0..r.range(1, 4)).map(|_| r.below(6)).collect::<Vec<_>>())]),
            9 => op("t", size),
            10 => op("b", size.min(50)),
            11 if !lossless_only => op("x", size),
            12 if r.one_in(3) => match r.below(if lossless_only { 3 } else { 4 }) {
                0 => op("e", 0),
                1 => op("c", 0),
                2 => op("B", r.choose(&[1, 2, 3, 7, 64, 8192])),
                _ => op("s", 0),
            },
            _ => op("r", size),
        });
    }
    V::A(v)
}

fn gen_chunks(r: &mut Rng) -> V {
    let n = match r.below(5) {
        0 => return V::A(vec![]),
        1 => return ints(&[1]),
        _ => r.range(1, 6),
    };
    let m = r.choose(&[2, 3, 5, 16, 100]);
    ints(&(0..n).map(|_| if r.one_in(8) { 0 } else { r.range(1, m) }).collect::<Vec<_>>())
}

/// Offsets worth failing at: inside characters, at the ends, anywhere.
fn interesting(r: &mut Rng, data: &[u8]) -> usize {
    let n = data.len();
    match r.below(8) {
        0 => 0,
        1 => n,
        2 => n.saturating_sub(1),
        3 | 4 => {
            let inside: Vec<usize> = (0..n).filter(|k| data[*k] & 0xC0 == 0x80).collect();
            if inside.is_empty() {
                r.below(n + 1)
            } else {
                inside[r.below(inside.len())]
            }
        }
        5 => {
            let q: Vec<usize> = (0..n).filter(|k| matches!(data[*k], b'"' | b'\\' | b' ')).collect();
            if q.is_empty() {
                r.below(n + 1)
            } else {
                q[r.below(q.len())] + r.below(2)
            }
        }
        _ => r.below(n + 1),
    }
}

fn gen_faults(r: &mut Rng, data: &[u8], eintr_only: bool) -> V {
    let n = r.choose(&[0, 1, 1, 1, 2, 2, 3, 5, 8]);
    let eintr_pct = if eintr_only { 100 } else { r.choose(&[0, 20, 50]) };
    V::A(
        (0..n)
            .map(|_| {
                let kind = if r.pct(eintr_pct) { r.pick(EINTR) } else { r.pick(HARD) };
                V::A(vec![i(interesting(r, data)), s(kind), i(r.choose(&[1, 1, 1, 2, 3]))])
            })
            .collect(),
    )
}

fn note_source(log: &mut Log, st: &SrcState) {
    for (k, _) in &st.fired {
        log.fault(&format!("source:{k}"));
    }
    if st.short_reads > 0 {
        *log.faults.entry("source:short-read".into()).or_insert(0) += st.short_reads;
    }
    if st.split_char > 0 {
        log.probe("source split a character");
    }
    if st.mid_char_fault > 0 {
        log.probe("failure inside a character");
    }
}

/// The common loop of S01, S02 and S04.
struct Drive {
    out: Vec<u8>,
    surfaced: Vec<Ident>,
    reads: u64,
}

#[allow(clippy::too_many_arguments)]
fn drive(src: Source, ops: &V, expected: &[u8], log: &mut Log, strict: bool, allow_faults: bool) -> Result<Drive, Stop> {
    let st = src.st.clone();
    let perm = src.perm.clone();
    let data_len = src.data.len() as u64;
    let mut d = Drive { out: vec![], surfaced: vec![], reads: 0 };
    let budget = expected.len() + src.fault_total() + 64;
    let warm = 2 * expected.len() + 64;
    let mut rd = minify_from_read(src);
    let res = drive_loop(&mut rd, ops, expected, log, strict, allow_faults, &st, &perm, &mut d, warm, budget);
    {
        let st = st.borrow();
        note_source(log, &st);
        log.ev("source", st.calls, st.bytes);
    }
    res?;
    if strict {
        let st = st.borrow();
        // polls: one per failure, one per non-empty delivery, and a few that find the end
        let bound = data_len + st.fired.len() as u64 + 16;
        if st.calls > bound {
            return bad("too-many-source-reads", format!("{} source reads for {} bytes and {} failures", st.calls, st.bytes, st.fired.len()));
        }
    }
    Ok(d)
}

#[allow(clippy::too_many_arguments)]
fn drive_loop<T: Read>(
    rd: &mut T,
    ops: &V,
    expected: &[u8],
    log: &mut Log,
    strict: bool,
    allow_faults: bool,
    st: &Rc<RefCell<SrcState>>,
    perm: &Option<(usize, String)>,
    d: &mut Drive,
    warm: usize,
    budget: usize,
) -> R {
    let ops = ops.arr();
    let fallback = op("r", 4096);
    let mut k = 0;
    let mut perm_errs = 0;
    loop {
        let o = if k < warm && !ops.is_empty() { &ops[k % ops.len()] } else { &fallback };
        k += 1;
        // a string cannot start inside a character
        let to_end = op("e", 0);
        let o = if o.arr().first().map(|x| x.str()) == Some("s") && std::str::from_utf8(&d.out).is_err() { &to_end } else { o };
        if k > warm + budget {
            return bad("no-progress", format!("{} bytes after {k} caller operations", d.out.len()));
        }
        let before = d.out.len();
        let zero = o.arr().first().map(|x| x.str()) == Some("r") && o.arr().get(1).map(|x| x.us()) == Some(0);
        let calls = st.borrow().calls;
        d.reads += 1;
        let step = match guarded(|| apply(rd, o, &mut d.out, expected.len())) {
            Ok(x) => x,
            Err(m) => {
                let c = if m.starts_with("no progress") { "no-progress" } else { "panic" };
                return bad(c, format!("{m} in operation {} after {} bytes", o.dump(), before));
            }
        };
        log.ev("op", (d.out.len() - before) as u64, (step.errs.len() as u64) << 1 | step.end as u64);
        if let Some((c, m)) = step.bad {
            return bad(c, m);
        }
        if zero {
            log.probe("zero-length read");
            if strict && st.borrow().calls != calls {
                return bad("zero-read", "a read into an empty buffer asks the source for data".into());
            }
        }
        if d.out.len() > expected.len() || d.out[before..] != expected[before..d.out.len()] {
            let at = (before..d.out.len()).find(|x| *x >= expected.len() || d.out[*x] != expected[*x]).unwrap_or(before);
            let lo = at.saturating_sub(20);
            return bad(
                "wrong-bytes",
                format!(
                    "byte {at} of the output is wrong: got ...{}, expected ...{}",
                    show(&d.out[lo..d.out.len().min(at + 40)]),
                    show(&expected[lo.min(expected.len())..expected.len().min(at + 40)])
                ),
            );
        }
        for e in &step.errs {
            if e.0 != ErrorKind::Interrupted {
                perm_errs += 1;
            }
            d.surfaced.push(e.clone());
        }
        if allow_faults {
            check_order(st, perm, d, false)?;
        } else if let Some(e) = step.errs.first() {
            return bad("spurious-error", format!("{e:?} without any source failure"));
        }
        if step.end {
            if perm.is_some() && d.out.len() < expected.len() {
                return bad("clean-end", format!("end of stream after {} of {} bytes although the source keeps failing", d.out.len(), expected.len()));
            }
            if let (Some((off, _)), true) = (perm, d.out.len() == expected.len()) {
                // all output was delivered, yet the source never said that it was over
                return bad("clean-end", format!("end of stream although the source fails from byte {off} on"));
            }
            if d.out.len() < expected.len() {
                return bad("truncated", format!("end of stream after {} of {} bytes", d.out.len(), expected.len()));
            }
            if st.borrow().eof_signals == 0 {
                return bad("truncated", "end of stream before the source ended".into());
            }
            break;
        }
        if perm.is_some() && perm_errs >= 8 {
            log.probe("gave up on a permanently failing source");
            return Ok(());
        }
    }
    // the end is final
    st.borrow_mut().reader_ended = true;
    for n in [8usize, 0, 1, 4096] {
        let mut buf = vec![0; n];
        match guarded(|| rd.read(&mut buf)) {
            Ok(Ok(0)) => {}
            Ok(x) => return bad("end-not-final", format!("a read after the end returns {x:?}")),
            Err(m) => return bad("panic", format!("{m} in a read after the end")),
        }
    }
    if st.borrow().calls_after_end > 0 && strict {
        return bad("source-polled-after-end", "the source is asked for data after the end was reported".into());
    }
    if allow_faults {
        check_order(st, perm, d, true)?;
    }
    Ok(())
}

/// Reported failures are the source's failures, in order, once; interruptions may be absorbed.
fn check_order(st: &Rc<RefCell<SrcState>>, perm: &Option<(usize, String)>, d: &Drive, all: bool) -> R {
    let st = st.borrow();
    let fired: Vec<&Ident> = st.fired.iter().map(|x| &x.1).filter(|k| k.0 != ErrorKind::Interrupted).collect();
    let got: Vec<&Ident> = d.surfaced.iter().filter(|k| k.0 != ErrorKind::Interrupted).collect();
    let eintr_fired = st.fired.len() - fired.len();
    let eintr_got = d.surfaced.len() - got.len();
    if eintr_got > eintr_fired {
        return bad("error-order", format!("{eintr_got} interruptions reported, {eintr_fired} happened"));
    }
    if perm.is_some() {
        // a reader may repeat the last failure of a source that will not recover
        let m = got.len().min(fired.len());
        if got[..m] != fired[..m] || got[m..].iter().any(|k| Some(k.0) != fired.last().map(|f| f.0)) {
            return bad("error-order", format!("reported {got:?}, happened {:?}", &fired[..fired.len().min(12)]));
        }
        return Ok(());
    }
    if got.len() > fired.len() || got[..] != fired[..got.len()] {
        return bad("error-order", format!("reported {got:?}, happened {fired:?}"));
    }
    if all && got.len() != fired.len() {
        return bad("error-swallowed", format!("reported {got:?}, happened {fired:?}"));
    }
    Ok(())
}

fn doc_of(sc: &V) -> String {
    let doc = sc.get("doc").joined();
    match sc.get("times").us().min(1 << 14) {
        n if n > 1 && doc.len() * n <= 8 << 20 => format!("[{}]", vec![doc; n].join(",")),
        _ => doc,
    }
}

/// Now and then megabytes of it.
fn swell(r: &mut Rng, sc: &mut V, every: usize) {
    if r.one_in(every) {
        let len = doc_of(sc).len().max(1);
        let want = (1usize << r.range(15, 21)) + r.below(1000);
        sc.set("times", i((want / len + 1).min(1 << 14)));
    }
}

// ---------------------------------------------------------------- S01

pub fn gen_s01(r: &mut Rng, thorough: bool) -> V {
    let big = r.one_in(if thorough { 15 } else { 40 });
    let doc = gen::json_doc(r, big);
    let mut sc = obj(vec![("doc", strs(&doc)), ("chunks", gen_chunks(r)), ("ops", gen_ops(r, false))]);
    swell(r, &mut sc, 3000);
    sc
}

pub fn run_s01(sc: &V, log: &mut Log) -> R {
    let doc = doc_of(sc);
    if !json_valid(&doc) {
        return Err(Stop::Invalid);
    }
    let expected = json_min(&doc);
    log.ev("doc", doc.len() as u64, expected.len() as u64);
    let src = Source::new(doc.clone().into_bytes(), sc);
    drive(src, sc.get("ops"), expected.as_bytes(), log, false, false)?;
    match guarded(|| minify(&doc).to_string()) {
        Ok(x) if x == expected => {}
        Ok(x) => return bad("in-memory-differs", format!("in-memory gives {}, expected {}", show(x.as_bytes()), show(expected.as_bytes()))),
        Err(m) => return bad("panic", format!("{m} in the in-memory minifier")),
    }
    let mut v = vec![];
    match guarded(|| minify(&doc).write(&mut v)) {
        Ok(Ok(())) if v == expected.as_bytes() => {}
        Ok(x) => return bad("writer-differs", format!("{x:?}, {}", show(&v))),
        Err(m) => return bad("panic", format!("{m} in the writer")),
    }
    log.nontrivial = doc.len() > 4;
    if doc.len() != expected.len() {
        log.probe("whitespace removed");
    }
    if doc.contains('\\') {
        log.probe("escape in a string");
    }
    if !doc.is_ascii() {
        log.probe("multi-byte character");
    }
    Ok(())
}

// ---------------------------------------------------------------- S02

pub fn gen_s02(r: &mut Rng, _thorough: bool) -> V {
    let big = r.one_in(60);
    let doc = gen::json_doc(r, big);
    let data = doc.concat().into_bytes();
    let perm = if r.one_in(4) {
        V::A(vec![i(interesting(r, &data)), s(r.pick(HARD))])
    } else {
        V::Null
    };
    obj(vec![
        ("doc", strs(&doc)),
        ("chunks", gen_chunks(r)),
        ("faults", gen_faults(r, &data, false)),
        ("perm", perm),
        ("ops", gen_ops(r, true)),
    ])
}

pub fn run_s02(sc: &V, log: &mut Log) -> R {
    let doc = doc_of(sc);
    if !json_valid(&doc) {
        return Err(Stop::Invalid);
    }
    for o in sc.get("ops").arr() {
        // these may lose data on a failure by their contract
        if matches!(o.arr().first().map(|x| x.str()), Some("x") | Some("s")) {
            return Err(Stop::Invalid);
        }
    }
    let expected = json_min(&doc);
    log.ev("doc", doc.len() as u64, expected.len() as u64);
    let src = Source::new(doc.clone().into_bytes(), sc);
    let st = src.st.clone();
    let hard = src.hard_total();
    let perm = src.perm.is_some();
    let d = drive(src, sc.get("ops"), expected.as_bytes(), log, false, true)?;
    let fired = st.borrow().fired.iter().filter(|x| x.1.0 != ErrorKind::Interrupted).count();
    log.nontrivial = !st.borrow().fired.is_empty();
    if !perm && fired > 0 && fired == hard && !d.out.is_empty() {
        log.probe("recovered from every failure");
    }
    if st.borrow().fired.first().is_some() && st.borrow().bytes == 0 {
        log.probe("failed before any data");
    }
    Ok(())
}

// ---------------------------------------------------------------- S03

const BAD_SEQ: &[&[u8]] = &[
    b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80",
    b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3\"",
    b"\xe2\x82\"", b"\xf0\x9f\"",
];

pub fn gen_s03(r: &mut Rng, _thorough: bool) -> V {
    let doc = if r.one_in(4) { gen::json_soup(r) } else { gen::json_doc(r, false) };
    let data = doc.concat().into_bytes();
    let n = data.len();
    let mut dm = vec![];
    for _ in 0..r.choose(&[0, 1, 1, 1, 1, 2, 3]) {
        let off = interesting(r, &data);
        dm.push(match r.below(6) {
            0 => V::A(vec![s("flip"), i(off), i(r.below(8))]),
            1 => V::A(vec![s("del"), i(off), i(r.range(1, 4))]),
            2 => V::A(vec![s("cut"), i(off)]),
            3 => V::A(vec![s("set"), i(off), s(&hex(&[r.below(256) as u8]))]),
            _ => V::A(vec![s("ins"), i(off.min(n)), s(&hex(BAD_SEQ[r.below(BAD_SEQ.len())]))]),
        });
    }
    obj(vec![
        ("doc", strs(&doc)),
        ("damage", V::A(dm)),
        ("chunks", gen_chunks(r)),
        ("faults", if r.one_in(4) { gen_faults(r, &data, true) } else { V::A(vec![]) }),
        ("ops", gen_ops(r, true)),
    ])
}

pub fn damage(data: &mut Vec<u8>, dm: &V) -> usize {
    let mut done = 0;
    for d in dm.arr() {
        let a = d.arr();
        if a.len() < 2 {
            continue;
        }
        let off = a[1].us();
        match a[0].str() {
            "flip" if off < data.len() && a.len() == 3 => data[off] ^= 1 << (a[2].us() % 8),
            "del" if off < data.len() && a.len() == 3 => {
                let e = (off + a[2].us()).min(data.len());
                data.drain(off..e);
            }
            "cut" if off < data.len() => data.truncate(off),
            "set" if off < data.len() && a.len() == 3 => data[off] = unhex(a[2].str()).first().copied().unwrap_or(0),
            "ins" if off <= data.len() && a.len() == 3 => {
                let ins = unhex(a[2].str());
                data.splice(off..off, ins);
            }
            _ => continue,
        }
        done += 1;
    }
    done
}

pub fn run_s03(sc: &V, log: &mut Log) -> R {
    for o in sc.get("ops").arr() {
        if matches!(o.arr().first().map(|x| x.str()), Some("x")) {
            return Err(Stop::Invalid);
        }
    }
    let mut data = doc_of(sc).into_bytes();
    if data.len() > 1 << 20 {
        return Err(Stop::Invalid);
    }
    let done = damage(&mut data, sc.get("damage"));
    for _ in 0..done {
        log.fault("damage");
    }
    let (valid, intact) = match std::str::from_utf8(&data) {
        Ok(t) => (true, t.to_string()),
        Err(e) => (false, String::from_utf8(data[..e.valid_up_to()].to_vec()).unwrap()),
    };
    log.ev("damaged", data.len() as u64, valid as u64);
    let expected = match guarded(|| minify(&intact).to_string()) {
        Ok(x) => x.into_bytes(),
        Err(m) => return bad("panic", format!("{m} in the in-memory minifier")),
    };
    let mut plan = sc.clone();
    plan.set("perm", V::Null);
    // only interruptions here
    if plan.get("faults").arr().iter().any(|f| !f.arr().get(1).is_some_and(|k| is_eintr(k.str()))) {
        return Err(Stop::Invalid);
    }
    let data_len = data.len();
    let src = Source::new(data, &plan);
    if valid {
        log.probe("damage left valid text");
        drive(src, sc.get("ops"), &expected, log, false, true)?;
        log.nontrivial = done > 0;
        return Ok(());
    }
    log.nontrivial = true;
    let st = src.st.clone();
    let cap = 40 * (expected.len() + 64);
    let mut rd = minify_from_read(src);
    let mut out = vec![];
    let ops = sc.get("ops").arr().to_vec();
    let fallback = op("r", 4096);
    let mut k = 0;
    let mut after = 0;
    // every further report takes at least one byte, or the end inside a character
    let left = data_len + plan.get("faults").arr().len() + 64;
    let mut failed = false;
    let mut ended = false;
    let res = loop {
        let own = if failed { after < 6 && !ended } else { k < 2 * expected.len() + 64 };
        let o = if own && !ops.is_empty() { &ops[k % ops.len()] } else { &fallback };
        k += 1;
        if !failed && k > cap {
            break bad("no-progress", format!("{} bytes after {k} caller operations", out.len()));
        }
        let before = out.len();
        let step = match guarded(|| apply(&mut rd, o, &mut out, usize::MAX)) {
            Ok(x) => x,
            Err(m) => break bad(if m.starts_with("no progress") { "no-progress" } else { "panic" }, format!("{m} in operation {}", o.dump())),
        };
        log.ev("op", (out.len() - before) as u64, (step.errs.len() as u64) << 1 | step.end as u64);
        if let Some((c, m)) = step.bad {
            break bad(c, m);
        }
        if failed {
            // of what follows only that it comes to an end
            after += 1;
            if ended && (!step.end || out.len() > before || !step.errs.is_empty()) {
                break bad("end-not-final", format!("after the end: {} bytes, errors {:?}", out.len() - before, step.errs));
            }
            if step.end {
                if ended {
                    break Ok(());
                }
                ended = true;
            }
            if after > left {
                break bad("no-end", format!("no end of stream in {after} operations after the report"));
            }
            continue;
        }
        let hard: Vec<&Ident> = step.errs.iter().filter(|e| e.0 != ErrorKind::Interrupted).collect();
        if hard.is_empty() {
            if !expected.starts_with(&out) {
                break bad("wrong-bytes", format!("delivered {} of damaged data; intact part minifies to {}", show(&out), show(&expected)));
            }
            if step.end {
                break bad("damage-passed-off", format!("clean end after {} bytes although the bytes are not valid UTF-8", out.len()));
            }
            continue;
        }
        if hard[0].0 != ErrorKind::InvalidData {
            break bad("wrong-kind", format!("invalid UTF-8 reported as {:?}", hard[0]));
        }
        if !expected.starts_with(&out) {
            break bad("wrong-bytes", format!("delivered {} of damaged data; intact part minifies to {}", show(&out), show(&expected)));
        }
        failed = true;
        log.probe("invalid data reported");
    };
    let st = st.borrow();
    note_source(log, &st);
    res
}

// ---------------------------------------------------------------- S04

pub fn gen_s04(r: &mut Rng, _thorough: bool) -> V {
    let big = r.one_in(60);
    let doc = gen::json_doc(r, big);
    let data = doc.concat().into_bytes();
    let faults = if r.one_in(2) { gen_faults(r, &data, false) } else { V::A(vec![]) };
    let mut ops = vec![];
    for _ in 0..r.range(1, 8) {
        ops.push(match r.below(6) {
            0 | 1 => op("r", 0),
            2 => V::A(vec![s("v"), ints(&(0..r.range(1, 4)).map(|_| r.below(4)).collect::<Vec<_>>())]),
            3 => op("r", r.range(1, 3)),
            4 => op("r", r.choose(&[1, 2, 8, 64, 5000])),
            _ if r.one_in(12) => op("r", (1usize << r.range(6, 17)) + r.below(3) - 1),
            _ => op("b", r.range(1, 5)),
        });
    }
    let mut sc = obj(vec![("doc", strs(&doc)), ("chunks", gen_chunks(r)), ("faults", faults), ("ops", V::A(ops))]);
    if r.one_in(2) {
        sc.set("after", s(r.pick(&[" ", "1", "\"more\"", "[1, 2]", "{\"a\": 1}"])));
    }
    sc
}

pub fn run_s04(sc: &V, log: &mut Log) -> R {
    for o in sc.get("ops").arr() {
        if !matches!(o.arr().first().map(|x| x.str()), Some("r") | Some("v") | Some("b")) {
            return Err(Stop::Invalid);
        }
    }
    let mut plan = sc.clone();
    plan.set("perm", V::Null);
    let doc = doc_of(sc);
    if !json_valid(&doc) {
        return Err(Stop::Invalid);
    }
    let expected = json_min(&doc);
    log.ev("doc", doc.len() as u64, expected.len() as u64);
    let src = Source::new(doc.into_bytes(), &plan);
    drive(src, sc.get("ops"), expected.as_bytes(), log, true, true)?;
    log.nontrivial = true;
    if !sc.get("after").str().is_empty() {
        log.probe("source would deliver after its end");
    }
    Ok(())
}

// ---------------------------------------------------------------- S05

/// An endless (or very long) stream: head, then body over and over. Makes no allocation while read.
struct Endless {
    head: Vec<u8>,
    body: Vec<u8>,
    pos: u64,
    limit: u64,
    chunks: Vec<usize>,
    ci: usize,
    every: u64,
    burst: u64,
    left: u64,
    kinds: Vec<ErrorKind>,
    st: Rc<RefCell<EndlessState>>,
}
#[derive(Default)]
struct EndlessState {
    calls: u64,
    pulled: u64,
    faults: u64,
    cap: u64,
    /// addresses of the stack at which the source was called
    low: usize,
    high: usize,
}

impl Endless {
    fn byte(head: &[u8], body: &[u8], pos: u64) -> u8 {
        if pos < head.len() as u64 {
            head[pos as usize]
        } else {
            body[((pos - head.len() as u64) % body.len() as u64) as usize]
        }
    }
}

impl Read for Endless {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let was = alloc::pause();
        let mut st = self.st.borrow_mut();
        st.calls += 1;
        let here = &was as *const _ as usize;
        if st.calls == 1 {
            (st.low, st.high) = (here, here);
        }
        st.low = st.low.min(here);
        st.high = st.high.max(here);
        if st.calls > st.cap {
            drop(st);
            std::panic::panic_any(StepBudget("the source is asked for data without end"));
        }
        if buf.is_empty() {
            alloc::resume(was);
            return Ok(0);
        }
        // a burst of failures once every `every` source reads
        if self.every > 0 && st.calls % self.every == 0 && self.left == 0 && st.faults < 400_000 + self.burst {
            self.left = self.burst + 1;
        }
        if self.left > 0 {
            self.left -= 1;
            if self.left > 0 {
                st.faults += 1;
                let k = self.kinds[(st.faults as usize) % self.kinds.len()];
                alloc::resume(was);
                return Err(std::io::Error::from(k));
            }
        }
        let mut n = if self.chunks.is_empty() { usize::MAX } else { self.chunks[self.ci % self.chunks.len()] };
        self.ci += 1;
        if n == 0 {
            n = usize::MAX;
        }
        n = n.min(buf.len()).min((self.limit - self.pos) as usize);
        for b in buf[..n].iter_mut() {
            *b = Endless::byte(&self.head, &self.body, self.pos);
            self.pos += 1;
        }
        st.pulled += n as u64;
        alloc::resume(was);
        Ok(n)
    }
}

/// Source bytes per output byte, at most about.
fn sparse(body: &[u8]) -> u64 {
    let kept = body.iter().filter(|b| !b.is_ascii_whitespace()).count().max(1);
    body.len() as u64 / kept as u64 + 1
}

pub fn gen_s05(r: &mut Rng, thorough: bool) -> V {
    let st = r.below(9);
    let (head, body): (String, String) = match st {
        0 => ("[".into(), gen::json_doc(r, false).concat() + r.pick(&[",", ", ", ",\n\n  "])),
        1 => ("\"".into(), r.pick(&["a", "é", "😀", "\\\"", "\\\\", " ", "\\u0041", "x y "]).to_string()),
        2 => (String::new(), r.pick(&["[", "[ ", "[\n", "{\"a\":", "{ \"é\" : "]).to_string()),
        3 => ("[".into(), format!("{}1,", r.pick(&[" ", "\n", "\t\n"]).repeat(if r.one_in(4) { r.range(20_000, 100_000) } else { r.range(1, 5000) }))),
        4 => ("[".into(), format!("{}\"{}\",", "\n\t".repeat(r.range(0, 3)), r.pick(&["😀", "abc", "\\\\"]).repeat(r.range(1, 3000)))),
        5 => (String::new(), format!("{} ", r.pick(&["1", "\"a\"", "null", "{}", "[1, 2]"]))),
        6 => ("[".into(), (0..r.range(1, 40)).map(|k| format!("{{\"k{k}\" : [ {k}, \"v {k}\\\"\" ]}},\n")).collect()),
        // pure whitespace for a bounded while, between much and little output
        7 => ("[".into(), format!("{}{}", "1234567890,".repeat(r.range(1, 200)), " \n".repeat(r.range(1, 10000)))),
        _ => ("{".into(), format!("\"{}\": {},", "k".repeat(r.range(1, 200)), r.choose(&["1", "true", "\"x\""]))),
    };
    let total = if thorough { r.choose(&[1 << 20, 4 << 20, 16 << 20]) } else { r.choose(&[1 << 17, 1 << 18, 1 << 20, 3 << 20]) };
    let sizes: Vec<usize> = match r.below(4) {
        0 => vec![r.choose(&[1, 2, 3, 5])],
        1 => vec![r.choose(&[64, 1000, 4096, 8192])],
        2 => vec![65536],
        _ => (0..r.range(2, 5)).map(|_| r.choose(&[1, 3, 17, 100, 1000, 5000])).collect(),
    };
    let sizes = if sizes.iter().max().unwrap_or(&1) * sparse(body.as_bytes()) as usize > 2 << 20 { vec![r.choose(&[1, 64, 300])] } else { sizes };
    let faulty = r.one_in(2);
    // many failures in a row, once or twice
    let storm = faulty && r.one_in(8);
    obj(vec![
        ("head", s(&head)),
        ("body", s(&body)),
        ("total", i(if sizes.iter().all(|x| *x < 8) { total.min(1 << 18) } else { total })),
        ("sizes", ints(&sizes)),
        ("chunks", if r.one_in(3) { ints(&[1]) } else { gen_chunks(r) }),
        ("every", i(if storm { r.choose(&[2, 100, 1000]) } else if faulty { r.choose(&[2, 3, 10, 100]) } else { 0 })),
        ("burst", i(if storm { r.choose(&[1000, 20_000, 200_000]) } else { r.choose(&[1, 1, 2, 5]) })),
        ("eintr", i(r.choose(&[0, 1, 2]))),
    ])
}

pub fn run_s05(sc: &V, log: &mut Log) -> R {
    let head = sc.get("head").str().as_bytes().to_vec();
    let body = sc.get("body").str().as_bytes().to_vec();
    let sizes: Vec<usize> = sc.get("sizes").ints().into_iter().filter(|x| *x > 0).collect();
    if body.is_empty() || sizes.is_empty() || body.len() > 200_010 || !body.iter().any(|b| !b.is_ascii_whitespace()) {
        return Err(Stop::Invalid);
    }
    let total = sc.get("total").us().clamp(1 << 16, 64 << 20) as u64;
    let max_buf = *sizes.iter().max().unwrap();
    if max_buf > 1 << 20 {
        return Err(Stop::Invalid);
    }
    let kinds = match sc.get("eintr").us() {
        0 => vec![ErrorKind::WouldBlock],
        1 => vec![ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::TimedOut],
        _ => vec![ErrorKind::Interrupted],
    };
    let burst = sc.get("burst").us().clamp(1, 300_000) as u64;
    let work = total + max_buf as u64 * sparse(&body) + (1 << 20);
    if max_buf as u64 * sparse(&body) > 16 << 20 {
        return Err(Stop::Invalid);
    }
    let st = Rc::new(RefCell::new(EndlessState { cap: (1 + burst.min(50)) * work + 1_500_000, ..Default::default() }));
    let src = Endless {
        head: head.clone(),
        body: body.clone(),
        pos: 0,
        limit: u64::MAX,
        chunks: sc.get("chunks").ints(),
        ci: 0,
        every: sc.get("every").us() as u64,
        burst,
        left: 0,
        kinds,
        st: st.clone(),
    };
    let every = sc.get("every").us();
    if every == 1 {
        return Err(Stop::Invalid);
    }
    log.ev("endless", body.len() as u64, total);
    // the model follows the delivered bytes through the stream
    let mut m = Machine::default();
    let mut need = 0u64;
    let mut buf = vec![0u8; max_buf];
    let ahead_bound = (1u64 << 20) + 4 * max_buf as u64;
    let peak_bound = (1i64 << 20) + 16 * max_buf as i64;
    let growth_bound = (32i64 << 10) + 2 * max_buf as i64;
    let mut k = 0usize;
    let mut delivered = 0u64;
    let mut live_quarter = [0i64; 5];
    let mut next_q = 1u64;
    let mut idle = 0;
    let mut reads = 0u64;
    alloc::reset();
    let mut rd = Some(minify_from_read(src));
    let res = loop {
        let pulled = st.borrow().pulled;
        while next_q <= 4 && pulled * 4 >= total * next_q {
            live_quarter[next_q as usize] = alloc::live();
            next_q += 1;
        }
        if pulled >= total {
            break Ok(());
        }
        let n = sizes[k % sizes.len()];
        k += 1;
        reads += 1;
        let calls0 = st.borrow().calls;
        let was = alloc::on();
        let g = guarded(|| match rd.as_mut().unwrap().read(&mut buf[..n]) {
            Ok(x) => Ok(x),
            // the error is released while allocations are counted
            Err(e) => Err(e.kind()),
        });
        alloc::resume(was);
        let g = match g {
            Ok(x) => x,
            Err(msg) => break bad(if msg.starts_with("no progress") { "no-progress" } else { "panic" }, msg),
        };
        let got = match g {
            Ok(0) => break bad("clean-end", format!("end of an endless stream after {delivered} bytes")),
            Ok(x) if x > n => break bad("overrun", format!("{x} bytes in a buffer of {n}")),
            Ok(x) => x,
            Err(_) => 0,
        };
        idle = if got == 0 { idle + 1 } else { 0 };
        if idle > 1_500_000 {
            break bad("no-progress", "1500000 caller reads without data".into());
        }
        let mut wrong = None;
        let pulled = st.borrow().pulled;
        for b in &buf[..got] {
            // advance the model to the next kept byte
            loop {
                if need >= pulled {
                    wrong = Some('?' as u8);
                    break;
                }
                let c = Endless::byte(&head, &body, need);
                need += 1;
                if m.keep(c as char) {
                    if c != *b {
                        wrong = Some(c);
                    }
                    break;
                }
            }
            delivered += 1;
            if wrong.is_some() {
                break;
            }
        }
        if let Some(c) = wrong {
            break bad("wrong-bytes", format!("byte {delivered} of the output is not {:?}", c as char));
        }
        let s2 = st.borrow();
        if s2.pulled > need + ahead_bound {
            break bad("read-ahead", format!("{} bytes taken from the source, {need} are enough for the {delivered} bytes delivered", s2.pulled));
        }
        let deep = s2.high - s2.low;
        drop(s2);
        if deep > 512 << 10 {
            break bad("stack", format!("the source is called {deep} bytes deeper on the stack than before"));
        }
        if alloc::peak() > peak_bound {
            break bad("memory", format!("{} bytes of heap held during a read, caller buffers are at most {max_buf}", alloc::peak()));
        }
        if reads % 64 == 0 {
            log.ev("read", got as u64, st.borrow().calls - calls0);
        }
    };
    log.ev("end", delivered, st.borrow().calls);
    let (faults, pulled, calls) = {
        let s2 = st.borrow();
        (s2.faults, s2.pulled, s2.calls)
    };
    let _ = calls;
    if faults > 0 {
        *log.faults.entry("source:transient-failure".into()).or_insert(0) += faults;
    }
    // leak the reader rather than run its destructor after a panic
    if res.is_err() {
        std::mem::forget(rd.take());
    }
    let peak = alloc::peak();
    res?;
    let growth = live_quarter[4] - live_quarter[2];
    if growth > growth_bound {
        return bad("memory-growth", format!("heap held grows from {} to {} bytes between the middle and the end of {pulled} bytes", live_quarter[2], live_quarter[4]));
    }
    log.nontrivial = true;
    if faults > 1000 {
        log.probe("over 1000 failures survived");
    }
    if burst > 500 && faults > 500 {
        log.probe("a storm of failures survived");
    }
    if pulled > 1 << 20 {
        log.probe("over 1 MiB streamed");
    }
    if peak > 4 * max_buf as i64 + 256 {
        log.probe("heap over 4 caller buffers");
    }
    Ok(())
}
