//! C06: several runs of the command at the same time, interleaved call by call by the scenario.

use super::*;
use std::io::{PipeReader, PipeWriter, Read, Write};
use std::os::fd::AsRawFd;
use std::process::Child;

extern "C" {
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
}
const F_SETFD: i32 = 2;

struct Proc {
    child: Child,
    ready: PipeReader,
    grant: PipeWriter,
    blocked: bool,
    logf: PathBuf,
    outf: PathBuf,
    errf: PathBuf,
}

/// Waits until the process announces its next call or ends; false: neither within the limit.
fn settle(p: &mut Proc) -> bool {
    if !crate::sys::readable(p.ready.as_raw_fd(), p.child.id(), 20_000) {
        return false;
    }
    let mut b = [0u8; 1];
    p.blocked = matches!(p.ready.read(&mut b), Ok(1));
    true
}

/// Runs the commands together; `sched` says, call by call, which of the waiting ones goes on.
/// Returns the runs, the order of the calls, and whether a process got stuck.
fn together(sx: &Scratch, ws: &[World], plans: &[Vec<String>], sched: &[usize], burst: usize) -> (Vec<Ran>, Vec<u8>, bool) {
    let mut ps: Vec<Proc> = vec![];
    let mut hung = false;
    for (k, w) in ws.iter().enumerate() {
        let mut plan = plans[k].clone();
        plan.splice(0..0, w.settings(0, k));
        let (mut c, logf, errf) = sx.command(w, &plan, &k.to_string());
        let outf = sx.root.join(format!("stdout{k}"));
        let err = |e: std::io::Error| -> ! { crate::sys::harness_error(&format!("fleet: {e}")) };
        let out = fs::File::create(&outf).unwrap_or_else(|e| err(e));
        c.stdout(out);
        let (ready, theirs_w) = std::io::pipe().unwrap_or_else(|e| err(e));
        let (theirs_r, grant) = std::io::pipe().unwrap_or_else(|e| err(e));
        let (fr, fw) = (theirs_r.as_raw_fd(), theirs_w.as_raw_fd());
        c.env("SIM_CTL", format!("{fr},{fw}"));
        unsafe {
            c.pre_exec(move || {
                fcntl(fr, F_SETFD, 0);
                fcntl(fw, F_SETFD, 0);
                Ok(())
            });
        }
        let child = c.spawn().unwrap_or_else(|e| err(e));
        drop((theirs_r, theirs_w));
        let mut p = Proc { child, ready, grant, blocked: false, logf, outf, errf };
        hung |= !settle(&mut p);
        ps.push(p);
    }
    let mut order: Vec<u8> = vec![];
    let mut at = 0;
    let mut last = 0;
    let mut left = 0;
    while !hung {
        let can: Vec<usize> = (0..ps.len()).filter(|k| ps[*k].blocked).collect();
        if can.is_empty() {
            break;
        }
        let next = if left > 0 && ps[last].blocked {
            left -= 1;
            last
        } else {
            let c = if sched.is_empty() { 0 } else { sched[at % sched.len()] };
            at += 1;
            // a choice may stand for a whole burst of calls
            left = if burst > 0 { (c / 8) % burst } else { 0 };
            can[c % can.len()]
        };
        last = next;
        order.push(next as u8);
        ps[next].blocked = false;
        if ps[next].grant.write_all(&[b'g']).is_err() {
            continue;
        }
        hung |= !settle(&mut ps[next]);
        if order.len() > 5_000_000 {
            hung = true;
        }
    }
    let mut rs = vec![];
    for p in &mut ps {
        if hung {
            let _ = p.child.kill();
        }
        let st = p.child.wait().unwrap_or_else(|e| crate::sys::harness_error(&format!("wait: {e}")));
        rs.push((st, fs::read(&p.outf).unwrap_or_default()));
    }
    let rs = rs.into_iter().zip(&ps).map(|((st, out), p)| sx.collect(&out, st, &p.logf, &p.errf, hung)).collect();
    (rs, order, hung)
}

pub fn gen_c06(r: &mut Rng, _t: bool) -> V {
    let n = r.choose(&[2, 2, 2, 3, 4]);
    let mut files: Vec<V> = vec![];
    let mut runs: Vec<V> = vec![];
    let same = r.one_in(3);
    let shared_out = r.pick(&["outdir", "new/deep", ""]);
    for k in 0..n {
        if same && k > 0 {
            runs.push(runs[0].clone());
            continue;
        }
        let mut inputs: Vec<String> = vec![];
        let single = !same && shared_out == "new/deep";
        for j in 0..if single { 1 } else { r.range(1, 3) } {
            let lang = r.choose(&[Lang::Css, Lang::Js, Lang::Json]);
            let dir = r.pick(&["", "", "sub/", "sub/deep/"]);
            let p = format!("{dir}{}{k}{j}.{}", r.pick(&["a", "b", "é"]), lang.name());
            if !same && r.one_in(10) {
                inputs.push(p);
                continue;
            }
            let mut f = good_content(r, lang);
            f.set("p", s(&p));
            if f.get("repeat").us() > 10 {
                f.set("repeat", i(10));
            }
            if f.get("size").us() > 1 << 16 {
                f.set("size", i(1 << 16));
            }
            files.push(f);
            if r.one_in(4) {
                let mut o = PathBuf::from(&p);
                o.set_extension(format!("min.{}", lang.name()));
                if shared_out.is_empty() {
                    files.push(obj(vec![("p", s(&o.to_string_lossy())), ("text", strs(&["earlier output ".repeat(r.range(1, 40))]))]));
                }
            }
            inputs.push(p);
        }
        let out = match shared_out {
            "" => V::Null,
            "outdir" => s("outdir"),
            d if single || inputs.len() == 1 => s(&format!("{d}/{}/out{k}", r.pick(&["x", "y"]))),
            _ => V::Null,
        };
        let mut run = obj(vec![("inputs", strs(&inputs)), ("type", V::Null), ("out", out)]);
        let soft = if r.one_in(3) { 1 } else { 0 };
        let hard = if !same && r.one_in(4) { 1 } else { 0 };
        run.set("faults", gen_faults(r, inputs.len(), soft, hard));
        if !same && r.one_in(5) {
            let act = r.pick(&["before", "after", "torn"]);
            run.set("kill", obj(vec![("act", s(act)), ("sel", s(r.pick(&["any", "write", "openw", "mkdir"]))), ("at", i(r.below(64))), ("k", i(r.below(20)))]));
        }
        runs.push(run);
    }
    if shared_out == "outdir" {
        files.push(obj(vec![("p", s("outdir")), ("dir", V::B(true))]));
    }
    for b in ["keep.css", "keep.min.js", "sub/keep.txt", "outdir/keep"] {
        if r.one_in(3) && (b != "outdir/keep" || shared_out == "outdir") {
            files.push(obj(vec![("p", s(b)), ("text", strs(&[format!("bystander {b} {{ }}")]))]));
        }
    }
    let len = r.choose(&[3, 8, 40, 200]);
    obj(vec![
        ("files", V::A(files)),
        ("runs", V::A(runs)),
        ("sched", V::A((0..len).map(|_| i(r.below(64))).collect())),
        ("burst", i(r.choose(&[0, 0, 2, 4, 8]))),
    ])
}

pub fn run_c06(sc: &V, log: &mut Log) -> R {
    let runs = sc.get("runs").arr();
    if runs.is_empty() || runs.len() > 6 {
        return Err(Stop::Invalid);
    }
    let mut ws = vec![];
    for run in runs {
        let mut one = run.clone();
        one.set("files", sc.get("files").clone());
        ws.push(world(&one)?);
    }
    let text = |v: &V| V::A(vec![v.get("inputs").clone(), v.get("type").clone(), v.get("out").clone()]).dump();
    let same = runs.len() > 1 && runs.iter().all(|x| text(x) == text(&runs[0]));
    if !same {
        // no output of one run may be, hold or lie below anything another one uses
        for a in 0..ws.len() {
            for b in 0..ws.len() {
                if a == b {
                    continue;
                }
                for x in &ws[a].inputs {
                    let Some(o) = &x.out else { continue };
                    for y in &ws[b].inputs {
                        let p = place(&ws[b].initial, &y.path, true).unwrap_or_default();
                        if y.out.as_ref().is_some_and(|q| q.starts_with(o)) || p.starts_with(o) || y.path.starts_with(o) {
                            return Err(Stop::Invalid);
                        }
                    }
                    if let Some(d) = runs[b].get("out").arr().first().map(|x| x.str()).or(Some(runs[b].get("out").str())) {
                        let d = PathBuf::from(os(d));
                        // whether this is a directory must not depend on the other run
                        if !d.as_os_str().is_empty() && o.starts_with(&d) && ws[b].initial.get(&d) != Some(&Node::Dir) {
                            return Err(Stop::Invalid);
                        }
                    }
                }
            }
        }
    } else if runs.iter().any(|x| !x.get("kill").is_null() || x.get("faults").arr().iter().any(|f| f.get("act").str() == "err")) {
        return Err(Stop::Invalid);
    }
    let sx = scratch();
    let res = (|| {
        // each alone, for the placement of its faults and for comparison
        let mut plans = vec![];
        let mut bases = vec![];
        for (k, w) in ws.iter().enumerate() {
            sx.fill(w);
            let base = sx.run(w, 0, k, &[], log)?;
            let mut f = runs[k].get("faults").arr().to_vec();
            if !runs[k].get("kill").is_null() {
                f.push(runs[k].get("kill").clone());
            }
            plans.push(resolve(&V::A(f), w, &base.ops));
            bases.push(base);
        }
        sx.fill(&ws[0]);
        let (rs, order, hung) = together(&sx, &ws, &plans, &sc.get("sched").ints(), sc.get("burst").us());
        log.hash_in({
            let mut h = Fnv::new();
            h.bytes(&order);
            h.0
        });
        if log.text.is_some() {
            let t: String = order.iter().map(|x| (b'A' + x) as char).collect();
            log.ev_s("order of calls", &t);
        }
        for r in &rs {
            record(r, log);
        }
        if hung {
            return bad("hang", "the commands do not finish together".into());
        }
        let switches = order.windows(2).filter(|x| x[0] != x[1]).count();
        log.ev("switches", switches as u64, order.len() as u64);
        log.nontrivial = switches > 0;
        if switches > 10 {
            log.probe("more than ten switches between processes");
        }
        if same {
            log.probe("the same command several times");
        }
        let any_killed = rs.iter().any(crashed);
        let mut all = World {
            inputs: vec![],
            initial: ws[0].initial.clone(),
            args: vec![],
            staged: vec![],
            attrs: Default::default(),
            clock: (0, 0),
            nofile: 0,
            extra: vec![],
            env: vec![],
            stdin: None,
            reverse: false,
            dir: Default::default(),
            called: None,
            hard: vec![],
        };
        for w in &ws {
            for x in &w.inputs {
                all.inputs.push(Input { path: x.path.clone(), out: x.out.clone(), bad: x.bad, may_fail: x.may_fail, fresh: x.fresh.clone() });
            }
        }
        check_bystanders(&all, &rs[0].after, any_killed, &rs.iter().flat_map(|r| r.ops.iter()).cloned().collect::<Vec<_>>())?;
        for (k, (w, r)) in ws.iter().zip(&rs).enumerate() {
            check_done(w, r)?;
            if crashed(r) {
                log.fault("kill");
                continue;
            }
            check_no_panic(r)?;
            if hard_fired(r) > 0 {
                log.fault("failure in one of the runs");
                continue;
            }
            let names = |r: &Ran| {
                let mut v: Vec<PathBuf> = done_lines(&r.stdout).into_iter().map(|d| d.0).collect();
                v.sort();
                v
            };
            let (got, alone) = (names(r), names(&bases[k]));
            if got != alone {
                return bad("others-disturbed", format!("run {k} has {got:?} done, alone it has {alone:?}; its messages: {}", show(r.stderr.as_bytes())));
            }
            if r.code != bases[k].code {
                return bad("others-disturbed", format!("run {k} exits with {:?}, alone with {:?}", r.code, bases[k].code));
            }
            for x in &w.inputs {
                let Some(o) = &x.out else { continue };
                if r.after.get(o) != bases[k].after.get(o) {
                    return bad("output-differs", format!("{o:?} of run {k} is not what the run leaves alone"));
                }
            }
        }
        Ok(())
    })();
    sx.wipe();
    res
}
