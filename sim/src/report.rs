//! C07: reports that cannot be printed. C08: what lies around the command does not matter.

use super::*;
use crate::json::ints;

// ---------------------------------------------------------------- C07

pub fn gen_c07(r: &mut Rng, _t: bool) -> V {
    let mut sc = if r.one_in(150) {
        let failing = r.one_in(2);
        gen_bulk(r, failing)
    } else {
        let pct = r.choose(&[0, 10, 30]);
        gen_batch(r, pct)
    };
    let n = sc.get("inputs").arr().len();
    let mut v = vec![];
    if r.one_in(3) {
        v.push(hard_fault(r, n));
    }
    if r.one_in(8) {
        v.push(obj(vec![("act", s("quota")), ("k", i(r.below(200)))]));
    }
    sc.set("faults", V::A(v));
    let mut p = vec![];
    for _ in 0..r.choose(&[1, 1, 2, 3]) {
        let fd = r.choose(&[1, 1, 2]);
        p.push(obj(vec![
            ("fd", i(fd)),
            ("at", i(r.choose(&[0, 0, 1, 1, 2, 3, 4, 8, 20]))),
            ("e", i(r.choose(&[32, 32, 28, 5, 11, 9, 6, 27, 0]))),
            ("sticky", V::B(r.pct(60))),
        ]));
    }
    // started with a descriptor closed, as some daemons start their children
    if r.one_in(8) {
        p = vec![obj(vec![("fd", i(r.choose(&[0, 1, 1, 2, 2]))), ("closed", V::B(true))])];
        if r.one_in(3) {
            p.push(obj(vec![("fd", i(r.choose(&[0, 1, 2]))), ("closed", V::B(true))]));
        }
    }
    sc.set("print", V::A(p));
    if r.one_in(4) {
        sc.set("soft", V::A(vec![soft_fault(r)]));
    }
    sc
}

/// Failures bound to a file and a kind of call, which calls that come or go elsewhere cannot move.
fn resolve_by_file(faults: &V, w: &World, trace: &[Op]) -> Vec<String> {
    let mut out = vec![];
    for l in resolve(faults, w, trace) {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "err" | "errs" => {
                let Some(o) = f[1].parse::<usize>().ok().and_then(|k| trace.get(k)) else { continue };
                // as the plan writes it
                let mut p = String::new();
                for b in &o.path {
                    if *b < 32 || *b == b'%' || *b == 127 {
                        p.push_str(&format!("%{b:02x}"));
                    } else if b.is_ascii() {
                        p.push(*b as char);
                    } else {
                        p.clear();
                        break;
                    }
                }
                if !p.is_empty() && !p.starts_with(CWD) && p.len() < 250 {
                    out.push(format!("errf {}\t{}\t{p}", f[2], o.name));
                }
            }
            "quota" => out.push(l),
            _ => {}
        }
    }
    out
}

pub fn run_c07(sc: &V, log: &mut Log) -> R {
    let w = world(sc)?;
    let sx = scratch();
    let res = (|| {
        sx.fill(&w);
        let base = sx.run(&w, 0, 0, &[], log)?;
        let disk = resolve_by_file(sc.get("faults"), &w, &base.ops);
        let quiet = if disk.is_empty() {
            base
        } else {
            sx.fill(&w);
            sx.run(&w, 0, 0, &disk, log)?
        };
        let mut plan = disk;
        let mut deaf = [false; 3];
        for p in sc.get("print").arr() {
            let fd = p.get("fd").us();
            if fd > 2 || (fd == 0 && !p.get("closed").bool()) {
                return Err(Stop::Invalid);
            }
            deaf[fd] = true;
            if p.get("closed").bool() {
                log.fault("standard descriptor closed at start");
                log.nontrivial = true;
                plan.push(format!("closed {fd}"));
                continue;
            }
            plan.push(format!("errstd {fd} {} {} {}", p.get("at").us(), p.get("e").us(), p.get("sticky").bool() as u8));
        }
        plan.extend(resolve(sc.get("soft"), &w, &quiet.ops).into_iter().filter(|l| l.starts_with("short") && !l.starts_with("short ") || l.starts_with("eintr")));
        sx.fill(&w);
        let r = sx.run(&w, 0, 0, &plan, log)?;
        note(&w, &r, log);
        let lost = r.ops.iter().filter(|o| o.inj == "print").count();
        if lost > 0 {
            log.nontrivial = true;
            if quiet.code != Some(0) {
                log.probe("some inputs failed as well");
            }
            if r.ops.iter().skip_while(|o| o.inj != "print").any(|o| o.name == "openw") {
                log.probe("work left when a report was lost");
            }
        }
        if r.code.is_none() || r.code == Some(101) || r.stderr.contains("panicked at") {
            if quiet.code.is_some() && quiet.code != Some(101) {
                return bad("gave-up", format!("exit {:?} signal {:?} because a report could not be printed: {}", r.code, r.signal, show(r.stderr.as_bytes())));
            }
            return Ok(());
        }
        for (p, n) in &quiet.after {
            if r.after.get(p) != Some(n) {
                return bad("work-lost", format!("{p:?} holds {}, and {} when every report can be printed", what(r.after.get(p)), what(Some(n))));
            }
        }
        if let Some(p) = r.after.keys().find(|p| !quiet.after.contains_key(*p)) {
            return bad("work-lost", format!("{p:?} appears only when a report cannot be printed"));
        }
        if r.code == Some(0) && quiet.code != Some(0) {
            return bad("false-success", format!("exit status 0 when a report cannot be printed, {:?} otherwise", quiet.code));
        }
        // a stream that loses writes may hold torn lines
        if !deaf[1] {
            check_done(&w, &r)?;
            if done_lines(&r.stdout) != done_lines(&quiet.stdout) {
                return bad("report-lost", "standard output can be printed to, yet differs from a run where standard error can be printed to as well".into());
            }
        }
        if !deaf[2] {
            for x in &w.inputs {
                let name = format!("{:?}", x.path);
                if quiet.stderr.contains(&name) && !r.stderr.contains(&name) {
                    return bad("report-lost", format!("standard error can be printed to, yet does not name {name}: {}", show(r.stderr.as_bytes())));
                }
                if !quiet.stderr.contains(&name) && r.stderr.contains(&name) {
                    return bad("report-moved", format!("standard error names {name} only because standard output cannot be printed to: {}", show(r.stderr.as_bytes())));
                }
            }
        }
        Ok(())
    })();
    fin(&sx);
    res
}

fn what(n: Option<&Node>) -> String {
    match n {
        Some(Node::File(d)) => show(d),
        Some(Node::Dir) => "a directory".into(),
        Some(Node::Link(t)) => format!("a link to {t:?}"),
        None => "nothing".into(),
    }
}

// ---------------------------------------------------------------- C08

const ENV: &[(&str, &[&str])] = &[
    ("LANG", &["C", "tr_TR.UTF-8", "ja_JP.SJIS"]),
    ("LC_ALL", &["C", "POSIX", "de_DE.UTF-8"]),
    ("TZ", &["UTC", "Asia/Kathmandu", ":/proc/nonexistent"]),
    ("HOME", &["/proc/nonexistent", "", "."]),
    ("TMPDIR", &["/proc/nonexistent", ".", ""]),
    ("PWD", &["/proc/nonexistent", "sub"]),
    ("TERM", &["dumb", "xterm-256color", ""]),
    ("NO_COLOR", &["1"]),
    ("COLUMNS", &["1", "0", "100000"]),
    ("RUST_BACKTRACE", &["1", "full"]),
    ("SOURCE_DATE_EPOCH", &["0", "1"]),
    ("CI", &["true"]),
    ("NODE_ENV", &["development"]),
    ("DEBUG", &["1", "*"]),
];

/// Names of a working directory that a program might read something into.
const DIR_NAMES: &[&str] = &[
    "a.min", "x.min.css", "min", "dist", "build", "target", "node_modules", "vendor", "tests", ".git", ".hidden", "tmp", "x.css", "a.js", "css", "js", "json", "x y", "\u{e9}t\u{e9}", "-d", "[x]", "x*", "~", "$HOME", "..a", "a.",
    "{x}", "x.tmp", "backup~", "public", "src", "assets", "static",
];

pub fn gen_c08(r: &mut Rng, _t: bool) -> V {
    let pct = r.choose(&[0, 15, 40]);
    let mut sc = gen_batch(r, pct);
    let n = sc.get("inputs").arr().len();
    let mut alt = obj(vec![]);
    if r.one_in(2) {
        alt.set("order", ints(&(0..n).map(|_| r.below(100)).collect::<Vec<_>>()));
    }
    if r.one_in(2) {
        alt.set("clock", V::A(vec![V::I(r.choose(&[100_000_000, 1_000_000_000, 1_700_000_000, 2_147_483_640, 3_999_999_999])), V::I(r.choose(&[0, 1, 1000, 2_000_000, 900_000_000]))]));
    }
    if r.one_in(2) {
        alt.set("ages", V::A((0..r.range(1, 5)).map(|_| V::I(r.choose(&[0, 1, 10, 1000, 100_000, -1, -50, -100_000]))).collect()));
    }
    if r.one_in(2) {
        alt.set("pid", i(r.choose(&[1, 2, 77, 40_000])));
    }
    if r.one_in(2) {
        alt.set("env", i(r.range(1, 1_000_000)));
    }
    if r.one_in(2) {
        let mut v = vec![];
        for _ in 0..r.range(1, 4) {
            let (k, m) = r.choose(ENV);
            v.push(s(&format!("{k}={}", r.pick(m))));
        }
        alt.set("vars", V::A(v));
    }
    if r.one_in(3) {
        alt.set("umask", i(r.choose(&[0o000, 0o027, 0o077])));
    }
    if r.one_in(3) {
        alt.set("tty", V::B(true));
    }
    if r.one_in(3) {
        alt.set("stdin", strs(&[r.pick(&["", "y\n", "n\n", "a { b : c }"]).to_string()]));
    }
    if r.one_in(3) {
        alt.set("reverse", V::B(true));
    }
    if r.one_in(3) {
        alt.set("dir", s(r.pick(DIR_NAMES)));
        if sc.get("out").is_null() && r.one_in(2) {
            // an input whose name shows it
            let mut inputs = sc.get("inputs").arr().to_vec();
            let k = r.below(n);
            if !inputs[k].str().starts_with(CWD) {
                inputs[k] = s(&format!("{CWD}/{}", inputs[k].str()));
            }
            sc.set("inputs", V::A(inputs));
        }
    }
    if r.one_in(4) {
        alt.set("nofile", i(r.choose(&[24, 64, 500])));
    }
    if r.one_in(2) {
        alt.set("soft", V::A((0..r.range(1, 2)).map(|_| soft_fault(r)).collect()));
    }
    if r.one_in(3) {
        alt.set("old", ints(&(0..r.range(1, 3)).map(|_| r.below(100)).collect::<Vec<_>>()));
        alt.set("old_text", strs(&[match r.below(3) {
            0 => String::new(),
            1 => "older".into(),
            _ => "older and longer ".repeat(60),
        }]));
    }
    if r.one_in(4) {
        alt.set("beside", strs(&[r.pick(&[".minifierrc", "minifier.toml", "Cargo.toml", "package.json", "zz.min.css", ".gitignore", "zz.css"]).to_string()]));
    }
    if r.one_in(2) {
        // files of any content where the command looks for some in vain
        alt.set("probed", strs(&[r.pick(&["", "1\n", "{\"type\":\"js\"}", "a.css\n*.js\n"]).to_string()]));
    }
    if r.one_in(3) {
        alt.set("modes", ints(&(0..r.range(1, 3)).map(|_| r.choose(&[0o400, 0o444, 0o555, 0o600, 0o640, 0o644, 0o755, 0o777])).collect::<Vec<_>>()));
    }
    if r.one_in(4) {
        alt.set("linked", ints(&(0..r.range(1, 2)).map(|_| r.below(100)).collect::<Vec<_>>()));
    }
    if r.one_in(4) {
        alt.set("hard", ints(&(0..r.range(1, 2)).map(|_| r.below(100)).collect::<Vec<_>>()));
    }
    if r.one_in(4) {
        alt.set("called", s(r.pick(&["jsmin", "cssmin", "min-json", "/usr/bin/css", "js", "", "-sh", "minifier.exe", "a b"])));
    }
    if n > 1 && r.one_in(4) {
        alt.set("split", V::B(true));
    }
    sc.set("alt", alt);
    sc
}

/// Where the contents of an input are.
fn target(w: &World, k: usize) -> Option<(PathBuf, PathBuf)> {
    let x = &w.inputs[k % w.inputs.len()];
    let at = place(&w.initial, &x.path, true)?;
    if is_output(w, &at) || !matches!(w.initial.get(&at), Some(Node::File(_))) {
        return None;
    }
    let parent = at.parent().unwrap_or(Path::new("")).to_path_buf();
    Some((at, parent))
}

pub fn run_c08(sc: &V, log: &mut Log) -> R {
    let w = world(sc)?;
    let alt = sc.get("alt");
    // the same command somewhere else
    let mut sc2 = sc.clone();
    let mut files = sc.get("files").arr().to_vec();
    let ages = big_ints(alt.get("ages"));
    for (k, f) in files.iter_mut().enumerate() {
        if !ages.is_empty() {
            f.set("age", V::I(ages[k % ages.len()]));
        }
    }
    let mut extra: BTreeSet<PathBuf> = BTreeSet::new();
    for k in alt.get("old").ints() {
        let x = &w.inputs[k % w.inputs.len()];
        let Some(o) = &x.out else { continue };
        let Some(name) = o.to_str() else { continue };
        let parent = o.parent().unwrap_or(Path::new(""));
        let has_parent = parent.as_os_str().is_empty() || w.initial.get(parent) == Some(&Node::Dir);
        if x.bad.is_none() && !x.may_fail && !name.contains('%') && has_parent && !w.initial.contains_key(o) && extra.insert(o.clone()) {
            files.push(obj(vec![("p", s(name)), ("text", alt.get("old_text").clone())]));
        }
    }
    for b in alt.get("beside").arr() {
        let p = PathBuf::from(b.str());
        if !w.initial.contains_key(&p) && extra.insert(p) {
            files.push(obj(vec![("p", s(b.str())), ("text", strs(&["noise = { }".into()]))]));
        }
    }
    sc2.set("files", V::A(files));
    let mut inputs: Vec<(usize, V)> = sc.get("inputs").arr().iter().cloned().map(|x| (0, x)).collect();
    let order = alt.get("order").ints();
    for (k, x) in inputs.iter_mut().enumerate() {
        if !order.is_empty() {
            x.0 = order[k % order.len()];
        }
    }
    inputs.sort_by_key(|x| x.0);
    sc2.set("inputs", V::A(inputs.into_iter().map(|x| x.1).collect()));
    if !alt.get("clock").is_null() {
        sc2.set("clock", alt.get("clock").clone());
    }
    sc2.set("nofile", alt.get("nofile").clone());
    let mut w2 = world(&sc2)?;
    for x in alt.get("vars").arr() {
        if let Some((k, v)) = x.str().split_once('=') {
            if !k.is_empty() && !k.starts_with("LD_") && !k.starts_with("SIM_") {
                w2.env.push((k.into(), v.into()));
                log.fault("environment variable");
            }
        }
    }
    if alt.get("env").us() > 0 {
        w2.extra.push(format!("env {}", alt.get("env").us()));
        log.fault("environment answers");
    }
    if !alt.get("umask").is_null() {
        w2.extra.push(format!("umask {}", alt.get("umask").us() & 0o077));
        log.fault("umask");
    }
    if alt.get("tty").bool() {
        w2.extra.push("tty 1".into());
        log.fault("terminal");
    }
    for k in alt.get("linked").ints() {
        // the contents are somewhere else, the name is a link
        let Some((at, parent)) = target(&w2, k) else { continue };
        let data = parent.join(format!("zz-data{k}"));
        if w2.initial.contains_key(&data) || w2.attrs.get(&at).is_some_and(|a| a.0.is_some()) {
            continue;
        }
        let age = w2.attrs.get(&at).map_or(1000, |a| a.1);
        let Some(n) = w2.initial.insert(at.clone(), Node::Link(PathBuf::from(format!("zz-data{k}")))) else { continue };
        w2.attrs.insert(data.clone(), (None, age));
        w2.initial.insert(data.clone(), n);
        extra.insert(data);
        extra.insert(at);
        log.fault("input behind a link");
    }
    for k in alt.get("hard").ints() {
        let Some((at, parent)) = target(&w2, k) else { continue };
        let name = parent.join(format!("zz-same{k}"));
        if !w2.initial.contains_key(&name) && !w2.hard.iter().any(|x| x.1 == name) {
            w2.hard.push((at, name.clone()));
            extra.insert(name);
            log.fault("input with a second name");
        }
    }
    let modes = alt.get("modes").ints();
    if !modes.is_empty() {
        for k in 0..w2.inputs.len() {
            let Some((at, _)) = target(&w2, k) else { continue };
            let old = w2.attrs.get(&at).copied().unwrap_or((None, 1000));
            if old.0.is_none() && !extra.contains(&at) {
                w2.attrs.insert(at, (Some(modes[k % modes.len()] as u32 & 0o777 | 0o400), old.1));
                log.fault("permissions of an input");
            }
        }
    }
    if !alt.get("called").is_null() {
        w2.called = Some(os(alt.get("called").str()));
        log.fault("name of the command");
    }
    w2.reverse = alt.get("reverse").bool();
    let dir = os(alt.get("dir").str());
    if !dir.is_empty() && dir.as_bytes().len() < 100 && !dir.as_bytes().contains(&b'/') && dir != "." && dir != ".." && dir != "beside" {
        w2.dir = dir;
        log.fault("name of the working directory");
    }
    if !alt.get("stdin").is_null() {
        w2.stdin = Some(alt.get("stdin").joined());
        log.fault("standard input");
    }
    for (k, n) in [("clock", "clock"), ("ages", "file times"), ("order", "order of inputs"), ("reverse", "order of creation"), ("pid", "process id and randomness"), ("old", "earlier outputs"), ("nofile", "limit on open files")] {
        if !alt.get(k).is_null() {
            log.fault(n);
        }
    }
    let sx = scratch();
    let res = (|| {
        let mut extra = extra;
        sx.fill(&w);
        let a = sx.run(&w, 0, 0, &[], log)?;
        let plan: Vec<String> = resolve(alt.get("soft"), &w, &a.ops);
        if !alt.get("probed").is_null() {
            for o in a.ops.iter().filter(|o| o.ret < 0 && o.err == 2 && o.inj == "-") {
                let Some(p) = place(&w.initial, Path::new(&OsString::from_vec(o.path.clone())), false) else { continue };
                let parent = p.parent().unwrap_or(Path::new(""));
                let has_parent = parent.as_os_str().is_empty() || w2.initial.get(parent) == Some(&Node::Dir);
                let ours = w.inputs.iter().any(|x| x.path == p || x.out.as_ref().is_some_and(|y| y.starts_with(&p)) || place(&w.initial, &x.path, true).is_some_and(|y| y.starts_with(&p)) || x.path.starts_with(&p));
                if has_parent && !ours && p.file_name().is_some_and(|n| n.len() <= 255) && !w2.initial.contains_key(&p) && !a.after.contains_key(&p) {
                    w2.initial.insert(p.clone(), Node::File(alt.get("probed").joined().into_bytes()));
                    extra.insert(p);
                    log.fault("a file where the command looks for one");
                }
            }
        }
        sx.fill(&w2);
        let b = if alt.get("split").bool() && w2.inputs.len() > 1 {
            // one command for each input
            let mut all: Option<Ran> = None;
            for k in 0..w2.inputs.len() {
                let mut one = sc2.clone();
                one.set("inputs", V::A(vec![sc2.get("inputs").arr()[k].clone()]));
                w2.args = world(&one)?.args;
                let r = sx.run(&w2, 0, alt.get("pid").us() + k, &plan, log)?;
                all = Some(match all {
                    None => r,
                    Some(mut b) => {
                        b.stdout.push_str(&r.stdout);
                        b.stderr.push_str(&r.stderr);
                        b.ops.extend(r.ops);
                        b.after = r.after;
                        if b.code == Some(0) || r.signal.is_some() {
                            b.code = r.code;
                            b.signal = r.signal;
                        }
                        b
                    }
                });
            }
            log.fault("one command for each input");
            all.ok_or(Stop::Invalid)?
        } else {
            sx.run(&w2, 0, alt.get("pid").us(), &plan, log)?
        };
        note(&w2, &b, log);
        log.nontrivial = !matches!(alt, V::O(o) if o.is_empty());
        let (da, db): (BTreeSet<_>, BTreeSet<_>) = (done_lines(&a.stdout).into_iter().collect(), done_lines(&b.stdout).into_iter().collect());
        if let Some(x) = da.symmetric_difference(&db).next() {
            return bad("other-result", format!("{:?} is reported as done, with output {:?}, in one of two runs on the same files: {} / {}", x.0, x.1, show(a.stderr.as_bytes()), show(b.stderr.as_bytes())));
        }
        if a.code != b.code || a.signal != b.signal {
            return bad("other-status", format!("exit {:?} {:?} and exit {:?} {:?} on the same files", a.code, a.signal, b.code, b.signal));
        }
        let done: BTreeSet<&PathBuf> = w.inputs.iter().filter(|x| da.iter().any(|d| d.0 == x.path)).filter_map(|x| x.out.as_ref()).collect();
        let all: BTreeSet<&PathBuf> = a.after.keys().chain(b.after.keys()).collect();
        for p in all {
            if extra.contains(p) && !done.contains(p) {
                continue;
            }
            if a.after.get(p) != b.after.get(p) {
                return bad("other-result", format!("{p:?} holds {} in one run and {} in another on the same files", what(a.after.get(p)), what(b.after.get(p))));
            }
        }
        Ok(())
    })();
    fin(&sx);
    res
}
