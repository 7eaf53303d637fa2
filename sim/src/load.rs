//! C09: what a batch takes does not grow with its length.

use super::*;

/// Contents of at least this many bytes: one kept for each file is far more than what is allowed.
const LEAST: usize = 6 << 10;
const PER_INPUT: i64 = 1024;
const SLACK: i64 = 32 << 10;
const STACK: i64 = 16 << 10;
const FILES: i64 = 12;

pub fn gen_c09(r: &mut Rng, _t: bool) -> V {
    let mut units = vec![];
    for _ in 0..r.choose(&[1, 1, 2, 2, 3]) {
        let lang = r.choose(&[Lang::Css, Lang::Js, Lang::Json]);
        let mut u = good_content(r, lang);
        for k in ["repeat", "size", "bom"] {
            if let V::O(o) = &mut u {
                o.retain(|x| x.0 != k);
            }
        }
        if r.one_in(6) {
            // a text that stays as long as it is
            u.set("text", strs(&["ab".to_string()]));
        }
        u.set("lang", s(lang.name()));
        u.set("least", i(LEAST + r.below(3 * LEAST)));
        let bad = if r.one_in(2) { r.pick(&["missing", "not UTF-8", "unclosed", "directory", "output is a directory", "no rights", "type"]) } else { "" };
        if !bad.is_empty() {
            u.set("bad", s(bad));
        } else if r.one_in(3) {
            let (op, e) = r.choose(&[("openr", 13), ("openr", 24), ("read", 5), ("read", 12), ("openw", 28), ("openw", 13), ("openw", 24), ("write", 28), ("write", 5), ("write", 27), ("close", 5), ("statx", 5)]);
            u.set("fail", V::A(vec![s(op), i(e)]));
        }
        if r.one_in(3) {
            u.set("old", V::B(true));
        }
        units.push(u);
    }
    let n = r.range(24, 32);
    let mut sc = obj(vec![("units", V::A(units)), ("few", i(n)), ("many", i(n * r.range(2, 3)))]);
    sc.set("grouped", V::B(r.one_in(3)));
    if r.one_in(3) {
        sc.set("out", s(r.pick(&["outdir", "out dir/x"])));
    }
    let mut soft = vec![];
    for _ in 0..r.choose(&[0, 0, 1, 2]) {
        soft.push(match r.below(6) {
            0 => obj(vec![("act", s("shortr")), ("k", i(r.choose(&[97, 1000, 5000])))]),
            1 => obj(vec![("act", s("shortw")), ("k", i(r.choose(&[97, 1000, 5000])))]),
            2 => obj(vec![("act", s("eintr")), ("k", i(r.range(2, 5)))]),
            3 => obj(vec![("act", s("quota")), ("k", i(r.below(1 << 18)))]),
            _ => obj(vec![("act", s("print")), ("fd", i(r.range(1, 2))), ("at", i(r.below(30))), ("e", i(r.choose(&[28, 5, 32, 11])))]),
        });
    }
    sc.set("faults", V::A(soft));
    sc
}

/// The batch with so many copies of each unit, and its settings.
fn batch(sc: &V, copies: usize) -> Result<(V, Vec<String>), Stop> {
    let units = sc.get("units").arr();
    let out = sc.get("out").str().to_string();
    let mut files = vec![];
    let mut inputs = vec![];
    let mut plan = vec![];
    if !out.is_empty() {
        files.push(obj(vec![("p", s(&out)), ("dir", V::B(true))]));
    }
    let order: Vec<(usize, usize)> = if sc.get("grouped").bool() {
        (0..units.len()).flat_map(|j| (0..copies).map(move |k| (j, k))).collect()
    } else {
        (0..copies).flat_map(|k| (0..units.len()).map(move |j| (j, k))).collect()
    };
    for (j, k) in order {
        let u = &units[j];
        let lang = Lang::from(u.get("lang").str()).ok_or(Stop::Invalid)?;
        let bad = u.get("bad").str();
        let name = format!("u{j}-{k:04}.{}", if bad == "type" { "txt" } else { lang.name() });
        let output = format!("{}u{j}-{k:04}.min.{}", if out.is_empty() { String::new() } else { format!("{out}/") }, lang.name());
        let mut f = u.clone();
        f.set("p", s(&name));
        let len = content(u).len().max(1);
        let times = u.get("least").us().clamp(LEAST, 8 * LEAST).div_ceil(len);
        f.set("repeat", i(times));
        match bad {
            "not UTF-8" => f.set("damage", V::A(vec![V::A(vec![s("ins"), i(times * len * (k % 7) / 7), s("ff")])])),
            "unclosed" => f.set("text", strs(&[u.get("text").joined(), match lang { Lang::Css => "/*! ", Lang::Js => "\"x", Lang::Json => "[\"" }.to_string()])),
            "directory" => f = obj(vec![("p", s(&name)), ("dir", V::B(true))]),
            "output is a directory" => files.push(obj(vec![("p", s(&output)), ("dir", V::B(true))])),
            "no rights" => f.set("mode", i(0)),
            _ => {}
        }
        if u.get("old").bool() && bad != "output is a directory" {
            files.push(obj(vec![("p", s(&output)), ("text", strs(&["earlier".to_string()]))]));
        }
        if bad != "missing" {
            files.push(f);
        }
        if let [op, e] = u.get("fail").arr() {
            let on = if matches!(op.str(), "openr" | "read") { &name } else { &output };
            plan.push(format!("errf {}\t{}\t{on}", e.int(), op.str()));
        }
        inputs.push(name);
    }
    for f in sc.get("faults").arr() {
        let k = f.get("k").us();
        match f.get("act").str() {
            "shortr" | "shortw" => plan.push(format!("{} {}", f.get("act").str(), k.max(64))),
            "eintr" => plan.push(format!("eintr {}", k.max(2))),
            "quota" => plan.push(format!("quota {k}")),
            "print" => plan.push(format!("errstd {} {} {} 1", f.get("fd").us().clamp(1, 2), f.get("at").us(), f.get("e").int())),
            _ => {}
        }
    }
    let out = if out.is_empty() { V::Null } else { s(&out) };
    Ok((obj(vec![("files", V::A(files)), ("inputs", strs(&inputs)), ("type", V::Null), ("out", out)]), plan))
}

pub fn run_c09(sc: &V, log: &mut Log) -> R {
    let few = sc.get("few").us().clamp(16, 60);
    let many = sc.get("many").us().clamp(few + 16, 200);
    let units = sc.get("units").arr().len();
    if units == 0 || units > 3 || units * many > 250 {
        return Err(Stop::Invalid);
    }
    let sx = scratch();
    let res = (|| {
        let run = |n: usize, log: &mut Log| -> Result<(Need, usize, usize), Stop> {
            let (b, plan) = batch(sc, n)?;
            let w = world(&b)?;
            sx.fill(&w);
            let r = sx.run(&w, 0, 0, &plan, log)?;
            check_no_panic(&r)?;
            check_done(&w, &r)?;
            note(&w, &r, log);
            if r.ops.iter().any(|o| o.inj != "-") {
                log.probe("with faults");
            }
            // calls that were interrupted or cut short count for one, reports not at all
            let ops = r.ops.iter().filter(|o| (o.inj == "-" || o.inj == "err") && o.path.first() != Some(&b'<')).count();
            match r.need {
                Some(x) => Ok((x, ops, w.inputs.len())),
                None => bad("panic", format!("exit {:?} signal {:?}", r.code, r.signal)),
            }
        };
        let (a, ops_a, n_a) = run(few, log)?;
        let (b, ops_b, n_b) = run(many, log)?;
        log.nontrivial = true;
        let more = (n_b - n_a) as i64;
        if b.heap > a.heap + PER_INPUT * more + SLACK {
            return bad("memory-grows", format!("{} bytes in use at once for {n_a} inputs, {} for {n_b} of the same kinds", a.heap, b.heap));
        }
        if b.stack > a.stack + STACK {
            return bad("memory-grows", format!("{} bytes of stack in use for {n_a} inputs, {} for {n_b} of the same kinds", a.stack, b.stack));
        }
        if b.files > a.files + FILES {
            return bad("files-stay-open", format!("{} files open at once for {n_a} inputs, {} for {n_b} of the same kinds", a.files, b.files));
        }
        // only where the last files fare as the first
        let mixed = sc.get("faults").arr().iter().any(|f| matches!(f.get("act").str(), "quota" | "print"));
        let linear = |x: f64| x * n_b as f64 / n_a as f64 * 1.25 + 100.0;
        if !mixed && ops_b as f64 > linear(ops_a as f64) {
            return bad("work-grows", format!("{ops_a} file calls for {n_a} inputs, {ops_b} for {n_b} of the same kinds"));
        }
        if !mixed && b.allocs[0] as f64 > linear(a.allocs[0] as f64) {
            return bad("work-grows", format!("{} allocations for {n_a} inputs, {} for {n_b} of the same kinds", a.allocs[0], b.allocs[0]));
        }
        Ok(())
    })();
    fin(&sx);
    res
}
