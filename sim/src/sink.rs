//! W01..W03: writers and formatters against simulated destinations.

use crate::core::*;
use crate::gen;
use crate::json::{i, ints, obj, s, V};
use crate::rng::{Fnv, Rng};
use minifier::{css, js, json};
use std::fmt::{self, Write as FmtWrite};
use std::io::{self, ErrorKind};

// ---------------------------------------------------------------- what is written

pub enum Doc<'a> {
    Json(json::Minified<'a>),
    Css(css::Minified<'a>),
    Js(js::Minified<'a>),
    Tokens(js::Tokens<'a>),
}

/// None: the minifier does not accept the text.
pub fn make<'a>(lang: &str, text: &'a str) -> Option<Doc<'a>> {
    guarded(|| match lang {
        "json" => Some(Doc::Json(json::minify(text))),
        "css" => css::minify(text).ok().map(Doc::Css),
        "js" => js::minify(text).ok().map(Doc::Js),
        "tokens" => js::simple_minify(text).ok().map(Doc::Tokens),
        "cleaned" => js::tokenize(text).ok().map(|t| Doc::Tokens(js::clean_tokens(t))),
        "aggregated" => js::tokenize(text).ok().map(|t| Doc::Tokens(js::aggregate_strings(js::clean_tokens(t)))),
        "separated" => js::tokenize(text).ok().map(|t| Doc::Tokens(js::aggregate_strings_with_separation(js::clean_tokens(t), js::Token::Char(js::ReservedChar::Backline)))),
        "made" => js::tokenize(text).ok().map(|t| Doc::Tokens(made(text, &t))),
        "array" => js::tokenize(text).ok().map(|t| Doc::Tokens(js::aggregate_strings_into_array(js::clean_tokens(t), "R"))),
        _ => None,
    })
    .ok()
    .flatten()
}

/// A list a caller put together: the tokens of a text, among others that no text gives.
fn made<'a>(text: &'a str, t: &js::Tokens<'a>) -> js::Tokens<'a> {
    use js::{ReservedChar as C, Token as T};
    const CHARS: &[C] = &[
        C::Comma, C::OpenParenthese, C::CloseParenthese, C::OpenCurlyBrace, C::CloseCurlyBrace, C::OpenBracket, C::CloseBracket, C::Colon,
        C::SemiColon, C::Dot, C::Quote, C::DoubleQuote, C::ExclamationMark, C::QuestionMark, C::Slash, C::Modulo, C::Star, C::Minus, C::Plus,
        C::EqualSign, C::Backslash, C::Space, C::Tab, C::Backline, C::LessThan, C::SuperiorThan, C::Pipe, C::Ampersand, C::BackTick,
    ];
    let mut h = Fnv::new();
    h.bytes(text.as_bytes());
    let mut r = Rng::new(h.0);
    let mut v: Vec<T<'a>> = vec![];
    for k in 0..=t.len() {
        while r.one_in(3) {
            v.push(match r.below(12) {
                0 => T::CreatedVar(format!("r_é{k}")),
                1 => T::CreatedVarDecl(format!("r_{k}=\"x\"")),
                2 => T::Number(r.choose(&[0, 7, 1234567890123, usize::MAX])),
                3 => T::FloatingNumber(r.pick(&["0.5", ".25", "1.", "1e-7"])),
                4 => T::License(r.pick(&["", " l ", "é\n*"])),
                5 => T::Comment("/* c */"),
                6 => T::String(r.pick(&["\"\"", "'é'", "`a ${b}`"])),
                7 => T::Other("ö"),
                8 => T::Regex { regex: "a/é", is_global: r.one_in(2), is_interactive: r.one_in(2) },
                _ => T::Char(r.choose(CHARS)),
            });
        }
        if k < t.len() {
            v.push(t[k].clone());
        }
    }
    js::Tokens::from(&v[..])
}

impl fmt::Display for Doc<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Doc::Json(x) => x.fmt(f),
            Doc::Css(x) => x.fmt(f),
            Doc::Js(x) => x.fmt(f),
            Doc::Tokens(x) => x.fmt(f),
        }
    }
}

impl Doc<'_> {
    pub fn write<W: io::Write>(self, w: W) -> io::Result<()> {
        match self {
            Doc::Json(x) => x.write(w),
            Doc::Css(x) => x.write(w),
            Doc::Js(x) => x.write(w),
            // token lists have no writer of their own
            Doc::Tokens(x) => {
                let mut w = w;
                write!(w, "{x}")
            }
        }
    }
}

// ---------------------------------------------------------------- byte sink

pub struct Sink {
    pub got: Vec<u8>,
    accept: Vec<usize>,
    ai: usize,
    /// (offset, kind, how often); kind "zero": accepts nothing
    faults: Vec<(usize, String, usize)>,
    perm: bool,
    broken: Option<String>,
    pub fired: Vec<(String, Ident)>,
    pub calls: u64,
    pub short: u64,
    pub vectored: u64,
    /// every write as offered and as taken
    pub trace: Fnv,
    cap: u64,
}

impl Sink {
    pub fn new(plan: &V, expect: usize) -> Sink {
        let faults: Vec<(usize, String, usize)> = plan
            .get("faults")
            .arr()
            .iter()
            .filter(|f| f.arr().len() == 3)
            .map(|f| (f.arr()[0].us(), f.arr()[1].str().to_string(), f.arr()[2].us().min(20_000)))
            .collect();
        let total: usize = faults.iter().map(|x| x.2).sum();
        Sink {
            got: vec![],
            accept: plan.get("accept").ints(),
            ai: 0,
            perm: plan.get("perm").bool(),
            broken: None,
            fired: vec![],
            calls: 0,
            short: 0,
            vectored: 0,
            trace: Fnv::new(),
            cap: 8 * (expect + total) as u64 + 4000,
            faults,
        }
    }
    fn fail(&mut self, kind: &str) -> io::Result<usize> {
        self.trace.bytes(kind.as_bytes());
        if kind == "zero" {
            self.fired.push((kind.into(), ident(&ErrorKind::WriteZero.into())));
            return Ok(0);
        }
        let e = kind_of(kind);
        self.fired.push((kind.into(), ident(&e)));
        Err(e)
    }
    pub fn first_hard(&self) -> Option<&(String, Ident)> {
        self.fired.iter().find(|k| k.1.0 != ErrorKind::Interrupted)
    }
}

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > self.cap {
            std::panic::panic_any(StepBudget("the sink is written to without end"));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(k) = self.broken.clone() {
            return self.fail(&k);
        }
        let at = self.got.len();
        let mut hit = None;
        for f in self.faults.iter_mut() {
            if f.0 == at && f.2 > 0 {
                f.2 -= 1;
                hit = Some(f.1.clone());
                break;
            }
        }
        if let Some(k) = hit {
            if self.perm && !is_eintr(&k) {
                self.broken = Some(k.clone());
            }
            return self.fail(&k);
        }
        let mut n = if self.accept.is_empty() { usize::MAX } else { self.accept[self.ai % self.accept.len()] };
        self.ai += 1;
        if n == 0 {
            n = usize::MAX;
        }
        n = n.min(buf.len());
        for f in &self.faults {
            if f.2 > 0 && f.0 > at {
                n = n.min(f.0 - at);
            }
        }
        if n < buf.len() {
            self.short += 1;
        }
        self.trace.u64(buf.len() as u64);
        self.trace.u64(n as u64);
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    /// Takes from several buffers as if they were one.
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.vectored += (bufs.len() > 1) as u64;
        self.write(&all)
    }
    /// What fails here fails for good reasons only: an interruption would have to be retried.
    fn flush(&mut self) -> io::Result<()> {
        self.calls += 1;
        if self.calls > self.cap {
            std::panic::panic_any(StepBudget("the sink is flushed without end"));
        }
        let at = self.got.len();
        let hit = match &self.broken {
            Some(k) => Some(k.clone()),
            None => self.faults.iter_mut().find(|f| f.0 == at && f.2 > 0 && !is_eintr(&f.1)).map(|f| {
                f.2 -= 1;
                f.1.clone()
            }),
        };
        match hit {
            Some(k) if k != "zero" => {
                if self.perm {
                    self.broken = Some(k.clone());
                }
                self.fail(&k).map(|_| ())
            }
            _ => Ok(()),
        }
    }
}

fn note_sink(log: &mut Log, k: &Sink) {
    for (x, _) in &k.fired {
        log.fault(&format!("sink:{x}"));
    }
    if k.short > 0 {
        *log.faults.entry("sink:short-write".into()).or_insert(0) += k.short;
    }
    if k.vectored > 0 {
        log.probe("several buffers in one write");
    }
    log.hash_in(k.trace.0);
    log.steps += k.calls;
    log.ev("sink", k.calls, k.got.len() as u64);
}

fn gen_accept(r: &mut Rng) -> V {
    match r.below(5) {
        0 => V::A(vec![]),
        1 => ints(&[1]),
        _ => {
            let m = r.choose(&[2, 3, 8, 50]);
            ints(&(0..r.range(1, 5)).map(|_| if r.one_in(6) { 0 } else { r.range(1, m) }).collect::<Vec<_>>())
        }
    }
}

fn text_of(sc: &V) -> String {
    let t = sc.get("text").joined();
    match sc.get("repeat").us().min((300 << 10) / t.len().max(1)) {
        0 | 1 => t,
        n => t.repeat(n),
    }
}

/// Now and then a text that is longer than any buffer a writer may have.
fn sometimes_long(r: &mut Rng, sc: &mut V, every: usize) {
    let len = text_of(sc).len();
    if len > 0 && r.one_in(every) {
        let want = r.choose(&[2_000, 2_000, 9_000, 9_000, 20_000, 70_000, 140_000]);
        sc.set("repeat", i((want / len + 1).min(4000)));
    }
}

/// The string form, or Invalid when there is none.
fn string_form(lang: &str, text: &str) -> Result<String, Stop> {
    let m = make(lang, text).ok_or(Stop::Invalid)?;
    guarded(|| m.to_string()).map_err(|_| Stop::Invalid)
}

// ---------------------------------------------------------------- W01

pub fn gen_w01(r: &mut Rng, _t: bool) -> V {
    let mut sc = gen::any_text(r);
    sometimes_long(r, &mut sc, 40);
    sc.set("accept", gen_accept(r));
    let len = text_of(&sc).len();
    let n = r.choose(&[0, 1, 2, 5, 10]);
    sc.set("faults", V::A((0..n).map(|_| V::A(vec![i(r.below(len + 1)), s(r.pick(EINTR)), i(if r.one_in(60) { r.choose(&[100, 1_000, 12_000]) } else { r.range(1, 3) })])).collect()));
    sc
}

pub fn run_w01(sc: &V, log: &mut Log) -> R {
    if sc.get("faults").arr().iter().any(|f| !f.arr().get(1).is_some_and(|x| is_eintr(x.str()))) {
        return Err(Stop::Invalid);
    }
    let (lang, text) = (sc.get("lang").str(), text_of(sc));
    let expect = string_form(lang, &text)?;
    log.ev("text", text.len() as u64, expect.len() as u64);
    let mut sink = Sink::new(sc, expect.len());
    let m = make(lang, &text).ok_or(Stop::Invalid)?;
    let res = guarded(|| m.write(&mut sink));
    note_sink(log, &sink);
    log.nontrivial = sink.short > 0 || !sink.fired.is_empty();
    log.probe(match lang {
        "json" => "json",
        "css" => "css",
        _ => "js",
    });
    match res {
        Err(m) => bad(if m.starts_with("no progress") { "no-progress" } else { "panic" }, m),
        Ok(Err(e)) => bad("spurious-error", format!("{e:?} after {} of {} bytes", sink.got.len(), expect.len())),
        Ok(Ok(())) if sink.got != expect.as_bytes() => bad("wrong-bytes", format!("sink holds {}, string form is {}", show(&sink.got), show(expect.as_bytes()))),
        Ok(Ok(())) => Ok(()),
    }
}

// ---------------------------------------------------------------- W02

pub fn gen_w02(r: &mut Rng, _t: bool) -> V {
    let mut sc = gen::any_text(r);
    sometimes_long(r, &mut sc, 40);
    sc.set("accept", gen_accept(r));
    let len = string_form(sc.get("lang").str(), &text_of(&sc)).map(|x| x.len()).unwrap_or(0);
    let mut faults = vec![];
    for _ in 0..r.choose(&[1, 1, 1, 2, 3]) {
        let kind = if r.one_in(5) { "zero" } else { r.pick(HARD) };
        let off = match r.below(6) {
            0 => 0,
            1 => len.saturating_sub(1),
            _ => r.below(len.max(1)),
        };
        faults.push(V::A(vec![i(off), s(kind), i(r.choose(&[1, 1, 2]))]));
    }
    if r.one_in(3) {
        faults.push(V::A(vec![i(r.below(len + 1)), s(r.pick(EINTR)), i(2)]));
    }
    sc.set("faults", V::A(faults));
    sc.set("perm", V::B(r.one_in(2)));
    sc
}

pub fn run_w02(sc: &V, log: &mut Log) -> R {
    let (lang, text) = (sc.get("lang").str(), text_of(sc));
    let expect = string_form(lang, &text)?;
    log.ev("text", text.len() as u64, expect.len() as u64);
    let mut sink = Sink::new(sc, expect.len());
    let m = make(lang, &text).ok_or(Stop::Invalid)?;
    let res = guarded(|| m.write(&mut sink));
    note_sink(log, &sink);
    let hard = sink.first_hard();
    log.nontrivial = hard.is_some();
    if hard.is_some() && !sink.got.is_empty() {
        log.probe("failed after some bytes");
    }
    if lang == "js" && hard.is_some() {
        log.probe("js sink failure");
    }
    let res = match res {
        Err(m) => return bad(if m.starts_with("no progress") { "no-progress" } else { "panic" }, m),
        Ok(x) => x,
    };
    if !expect.as_bytes().starts_with(&sink.got) {
        return bad("not-a-prefix", format!("sink holds {}, string form is {}", show(&sink.got), show(expect.as_bytes())));
    }
    match (hard, res) {
        (Some(k), Ok(())) => bad("error-swallowed", format!("success although the sink failed with {:?} and holds {} of {} bytes", k.1, sink.got.len(), expect.len())),
        (Some((_, k)), Err(e)) if e.kind() != k.0 => bad("wrong-kind", format!("{:?} instead of {k:?}", ident(&e))),
        // a sink that accepts nothing gives no error of its own
        (Some((n, k)), Err(e)) if n != "zero" && ident(&e) != *k => bad("other-error", format!("{:?} instead of the sink's {k:?}", ident(&e))),
        (None, Err(e)) => bad("spurious-error", format!("{e:?}")),
        (None, Ok(())) if sink.got.len() != expect.len() => bad("wrong-bytes", format!("{} of {} bytes written", sink.got.len(), expect.len())),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- W03

/// A `fmt::Write` destination that fails when its `at`-th byte would be exceeded.
pub struct FmtSink {
    pub got: String,
    at: usize,
    left: usize,
    partial: bool,
    pub failed: u64,
    calls: u64,
    cap: u64,
}
impl FmtSink {
    fn new(at: usize, times: usize, partial: bool, expect: usize) -> FmtSink {
        FmtSink { got: String::new(), at, left: times, partial, failed: 0, calls: 0, cap: 8 * expect as u64 + 4000 }
    }
}
impl fmt::Write for FmtSink {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        self.calls += 1;
        if self.calls > self.cap {
            std::panic::panic_any(StepBudget("formatting never ends"));
        }
        if t.is_empty() {
            return Ok(());
        }
        if self.left > 0 && self.got.len() + t.len() > self.at {
            if self.left < usize::MAX {
                self.left -= 1;
            }
            self.failed += 1;
            if self.partial {
                let mut k = self.at.saturating_sub(self.got.len()).min(t.len());
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                self.got.push_str(&t[..k]);
            }
            return Err(fmt::Error);
        }
        self.got.push_str(t);
        Ok(())
    }
}

pub fn gen_w03(r: &mut Rng, _t: bool) -> V {
    let n = r.choose(&[1, 1, 2]);
    let docs: Vec<V> = (0..n)
        .map(|_| {
            let mut d = gen::any_text(r);
            sometimes_long(r, &mut d, 200);
            if d.get("lang").str() == "js" && r.one_in(2) {
                let l = r.pick(&["tokens", "cleaned", "aggregated", "array", "separated", "made", "made"]);
                d.set("lang", s(l));
                if r.one_in(2) {
                    d.set("text", crate::json::strs(&gen::js_strings(r, "R")));
                }
            }
            d
        })
        .collect();
    let mut ops = vec![];
    for _ in 0..r.range(1, 8) {
        let d = r.below(n);
        let len = string_form(docs[d].get("lang").str(), &text_of(&docs[d])).map(|x| x.len()).unwrap_or(0);
        if r.one_in(3) {
            ops.push(V::A(vec![s("full"), i(d)]));
        } else {
            ops.push(V::A(vec![s("fail"), i(d), i(r.below(len.max(1))), i(r.choose(&[0, 1, 1, 2])), i(r.below(2))]));
        }
    }
    obj(vec![("docs", V::A(docs)), ("ops", V::A(ops)), ("accept", gen_accept(r))])
}

pub fn run_w03(sc: &V, log: &mut Log) -> R {
    let texts: Vec<(String, String)> = sc.get("docs").arr().iter().map(|d| (d.get("lang").str().to_string(), text_of(d))).collect();
    if texts.is_empty() {
        return Err(Stop::Invalid);
    }
    let mut expect = vec![];
    let mut live = vec![];
    for (l, t) in &texts {
        expect.push(string_form(l, t)?);
        live.push(make(l, t).ok_or(Stop::Invalid)?);
    }
    let mut last_failed = false;
    for o in sc.get("ops").arr() {
        let a = o.arr();
        let d = a.get(1).map(|x| x.us()).unwrap_or(0);
        if d >= live.len() || a.is_empty() {
            continue;
        }
        match a[0].str() {
            "full" => {
                let x = match guarded(|| live[d].to_string()) {
                    Ok(x) => x,
                    Err(m) => return bad("panic", format!("{m} while formatting")),
                };
                log.ev("full", d as u64, x.len() as u64);
                if x != expect[d] {
                    return bad("not-repeatable", format!("{} instead of {}", show(x.as_bytes()), show(expect[d].as_bytes())));
                }
                if last_failed {
                    log.probe("complete formatting right after a failed one");
                }
                last_failed = false;
            }
            "fail" if a.len() == 5 => {
                let times = if a[3].us() == 0 { usize::MAX } else { a[3].us() };
                let mut k = FmtSink::new(a[2].us(), times, a[4].us() == 1, expect[d].len());
                let res = match guarded(|| write!(k, "{}", live[d])) {
                    Ok(x) => x,
                    Err(m) => return bad("panic", format!("{m} while formatting")),
                };
                log.ev("fail", k.got.len() as u64, k.failed);
                if !expect[d].starts_with(&k.got) {
                    return bad("not-a-prefix", format!("emitted {}, text is {}", show(k.got.as_bytes()), show(expect[d].as_bytes())));
                }
                if k.failed > 0 {
                    log.fault("destination failure");
                    log.nontrivial = true;
                    last_failed = true;
                    if res.is_ok() {
                        return bad("error-swallowed", format!("formatting succeeds although its destination failed after {} bytes", k.got.len()));
                    }
                } else if res.is_err() || k.got != expect[d] {
                    return bad("not-repeatable", format!("{res:?}, {}", show(k.got.as_bytes())));
                }
            }
            _ => {}
        }
    }
    for (d, m) in live.into_iter().enumerate() {
        let mut plan = obj(vec![]);
        plan.set("accept", sc.get("accept").clone());
        let mut sink = Sink::new(&plan, expect[d].len());
        match guarded(|| m.write(&mut sink)) {
            Ok(Ok(())) if sink.got == expect[d].as_bytes() => {}
            Ok(x) => return bad("final-write", format!("{x:?}, {} instead of {}", show(&sink.got), show(expect[d].as_bytes()))),
            Err(m) => return bad("panic", format!("{m} in the final write")),
        }
        note_sink(log, &sink);
    }
    Ok(())
}
