//! C01..C05: the real command line binary over a simulated disk (system-call shim).

use crate::core::*;
use crate::gen;
use crate::json::{hex, i, obj, s, strs, unhex, V};
use crate::rng::{Fnv, Rng};
use crate::stream::damage;
use minifier::{css, js, json};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[path = "fleet.rs"]
pub mod fleet;
#[path = "load.rs"]
pub mod load;
#[path = "report.rs"]
pub mod report;

// ---------------------------------------------------------------- scenario vocabulary

/// Paths are text; `%XX` stands for a byte that is not UTF-8.
fn os(p: &str) -> OsString {
    os_bytes(p.as_bytes())
}

fn os_bytes(b: &[u8]) -> OsString {
    let mut out = vec![];
    let mut k = 0;
    while k < b.len() {
        if b[k] == b'%' && k + 2 < b.len() && b[k + 1..k + 3].iter().all(|x| x.is_ascii_hexdigit()) {
            out.extend(unhex(std::str::from_utf8(&b[k + 1..k + 3]).unwrap()));
            k += 3;
        } else {
            out.push(b[k]);
            k += 1;
        }
    }
    OsString::from_vec(out)
}

fn content(f: &V) -> Vec<u8> {
    let mut data = if f.get("hex").is_null() { f.get("text").joined().into_bytes() } else { unhex(f.get("hex").str()) };
    let n = f.get("repeat").us().clamp(1, 4000).min((256 << 10) / data.len().max(1));
    if n > 1 {
        data = data.repeat(n);
    }
    if f.get("crlf").bool() {
        data = String::from_utf8_lossy(&data).replace('\n', "\r\n").into_bytes();
    }
    // blank up to a given size, the text last
    let n = f.get("size").us().min(3 << 20);
    if n > data.len() {
        data.splice(0..0, std::iter::repeat_n([b' ', b'\n'], n).flatten().take(n - data.len()));
    }
    if f.get("bom").bool() {
        data.splice(0..0, [0xEF, 0xBB, 0xBF]);
    }
    damage(&mut data, f.get("damage"));
    data
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Lang {
    Css,
    Js,
    Json,
}
impl Lang {
    fn from(x: &str) -> Option<Lang> {
        match x {
            "css" => Some(Lang::Css),
            "js" => Some(Lang::Js),
            "json" => Some(Lang::Json),
            _ => None,
        }
    }
    fn name(self) -> &'static str {
        match self {
            Lang::Css => "css",
            Lang::Js => "js",
            Lang::Json => "json",
        }
    }
}

/// What the library makes of a content; None: it cannot be minified.
fn minified(lang: Lang, data: &[u8]) -> Option<Vec<u8>> {
    let t = std::str::from_utf8(data).ok()?;
    guarded(|| match lang {
        Lang::Css => css::minify(t).ok().map(|m| m.to_string()),
        Lang::Js => js::minify(t).ok().map(|m| m.to_string()),
        Lang::Json => Some(json::minify(t).to_string()),
    })
    .ok()
    .flatten()
    .map(|x| x.into_bytes())
}

#[derive(Clone, PartialEq, Debug)]
enum Node {
    Dir,
    File(Vec<u8>),
    Link(PathBuf),
}
type Tree = BTreeMap<PathBuf, Node>;

/// Stands for the working directory at the front of an absolute path.
const CWD: &str = "{cwd}";

/// The place a path leads to, relative to the working directory: dots and links resolved as the kernel
/// does. None: it leads nowhere. Missing names are taken for directories still to be made.
fn place(tree: &Tree, p: &Path, follow_last: bool) -> Option<PathBuf> {
    let mut todo: Vec<OsString> = p.components().rev().map(|c| c.as_os_str().to_owned()).collect();
    if todo.last().is_some_and(|x| x == CWD) {
        todo.pop();
    }
    let mut cur = PathBuf::new();
    let mut links = 0;
    while let Some(c) = todo.pop() {
        if c == "." {
            continue;
        }
        if c == ".." {
            if cur.as_os_str().is_empty() || tree.get(&cur) != Some(&Node::Dir) {
                return None;
            }
            cur.pop();
            continue;
        }
        cur.push(c);
        match tree.get(&cur) {
            Some(Node::Link(t)) if follow_last || !todo.is_empty() => {
                links += 1;
                if links > 30 || t.is_absolute() {
                    return None;
                }
                cur.pop();
                todo.extend(t.components().rev().map(|c| c.as_os_str().to_owned()));
            }
            Some(Node::File(_)) if !todo.is_empty() => return None,
            _ => {}
        }
    }
    Some(cur)
}

struct Input {
    /// as given on the command line
    path: PathBuf,
    /// where the output belongs in the tree
    out: Option<PathBuf>,
    /// cannot succeed, whatever the disk does
    bad: Option<&'static str>,
    /// access rights may make it fail
    may_fail: bool,
    /// acceptable output contents: of the initial content and of those other processes put there
    fresh: Vec<Vec<u8>>,
}

struct World {
    inputs: Vec<Input>,
    initial: Tree,
    args: Vec<OsString>,
    staged: Vec<(PathBuf, Vec<u8>)>,
    /// access rights and seconds before the start of the run it was last written
    attrs: BTreeMap<PathBuf, (Option<u32>, i64)>,
    clock: (i64, i64),
    nofile: usize,
    /// more settings for the shim, environment variables, standard input
    extra: Vec<String>,
    env: Vec<(OsString, OsString)>,
    stdin: Option<String>,
    /// files are created in the opposite order
    reverse: bool,
    /// what the working directory is called
    dir: OsString,
    /// what the command is called
    called: Option<OsString>,
    /// second names of files
    hard: Vec<(PathBuf, PathBuf)>,
}

impl World {
    fn settings(&self, at: i64, pid: usize) -> Vec<String> {
        let mut v = vec![format!("clock {} {}", self.clock.0 + at, self.clock.1), format!("pid {}", 1000 + pid)];
        if self.nofile > 0 {
            v.push(format!("nofile {}", self.nofile.max(16)));
        }
        v.extend(self.extra.iter().cloned());
        v
    }
    fn place(&self, now: &Tree, p: &Path) -> Option<PathBuf> {
        place(now, p, true)
    }
}

trait ConcatOs {
    fn concat_os(self) -> OsString;
}
impl ConcatOs for [OsString; 2] {
    fn concat_os(self) -> OsString {
        let [mut a, b] = self;
        a.push(b);
        a
    }
}

fn big_ints(v: &V) -> Vec<i64> {
    v.arr().iter().map(|x| x.int()).collect()
}

/// Paths in the tree are relative to the working directory of the command.
fn world(sc: &V) -> Result<World, Stop> {
    let mut initial: Tree = BTreeMap::new();
    let mut attrs = BTreeMap::new();
    for f in sc.get("files").arr() {
        let p = PathBuf::from(os(f.get("p").str()));
        if p.as_os_str().is_empty() || p.file_name().is_none() || p.components().any(|c| !matches!(c, std::path::Component::Normal(_))) || p.starts_with(CWD) {
            return Err(Stop::Invalid);
        }
        let mut q = p.clone();
        while q.pop() && !q.as_os_str().is_empty() {
            if matches!(initial.get(&q), Some(Node::File(_) | Node::Link(_))) {
                return Err(Stop::Invalid);
            }
            initial.insert(q.clone(), Node::Dir);
        }
        let n = if f.get("dir").bool() {
            Node::Dir
        } else if !f.get("link").is_null() {
            let t = PathBuf::from(os(f.get("link").str()));
            if t.as_os_str().is_empty() || t.is_absolute() {
                return Err(Stop::Invalid);
            }
            Node::Link(t)
        } else {
            Node::File(content(f))
        };
        if initial.contains_key(&p) && initial.get(&p) != Some(&n) {
            return Err(Stop::Invalid);
        }
        if matches!(n, Node::File(_)) && initial.contains_key(&p) {
            return Err(Stop::Invalid);
        }
        let mode = if f.get("mode").is_null() { None } else { Some(f.get("mode").us() as u32 & 0o777) };
        attrs.insert(p.clone(), (mode, if f.get("age").is_null() { 1000 } else { f.get("age").int() }));
        initial.insert(p, n);
    }
    let forced = if sc.get("type").is_null() { None } else { Some(Lang::from(sc.get("type").str()).ok_or(Stop::Invalid)?) };
    let out_arg = if sc.get("out").is_null() { None } else { Some(PathBuf::from(os(sc.get("out").str()))) };
    // the ways to give options
    let style = sc.get("style").us() % 4;
    let mut options: Vec<OsString> = vec![];
    let mut option = |short: &str, long: &str, v: OsString| match style {
        1 => options.push([format!("--{long}=").into(), v].concat_os()),
        2 => options.push([format!("-{short}").into(), v].concat_os()),
        _ => options.extend([format!("-{short}").into(), v]),
    };
    if let Some(t) = forced {
        option("t", "type", t.name().into());
    }
    if let Some(o) = &out_arg {
        if o.as_os_str().is_empty() || o.is_absolute() || o.as_os_str().as_bytes().starts_with(b"-") {
            return Err(Stop::Invalid);
        }
        option("o", "out", o.into());
    }
    let last = style == 3 && !sc.get("inputs").arr().iter().any(|n| n.str().starts_with('-'));
    let mut args: Vec<OsString> = if last { vec![] } else { options.clone() };
    if !last {
        args.push("--".into());
    }
    // a directory or a file whose rights do not allow everything
    let restricted = |p: &Path| {
        let mut q = p.to_path_buf();
        loop {
            if attrs.get(&q).is_some_and(|a| a.0.is_some()) {
                return true;
            }
            if !q.pop() {
                return false;
            }
        }
    };
    let mut inputs: Vec<Input> = vec![];
    let mut places: Vec<Option<PathBuf>> = vec![];
    let mut seen = BTreeSet::new();
    let mut staged = vec![];
    let out_dir = out_arg.as_ref().and_then(|o| place(&initial, o, true)).is_some_and(|o| o.as_os_str().is_empty() || initial.get(&o) == Some(&Node::Dir));
    for n in sc.get("inputs").arr() {
        let path = PathBuf::from(os(n.str()));
        if path.as_os_str().is_empty() || path.is_absolute() || path.file_name().is_none() || !seen.insert(path.clone().into_os_string()) {
            return Err(Stop::Invalid);
        }
        // where below the output directory such an input belongs is nobody's promise
        if out_dir && path.components().any(|c| !matches!(c, std::path::Component::Normal(_)) || c.as_os_str() == CWD) {
            return Err(Stop::Invalid);
        }
        let ext = path.extension().map(|e| e.to_ascii_lowercase());
        let lang = forced.or_else(|| ext.as_ref().and_then(|e| e.to_str()).and_then(Lang::from));
        let at = place(&initial, &path, true);
        let node = at.as_ref().and_then(|a| initial.get(a));
        let mut bad = match (lang, node) {
            (None, _) => Some("type"),
            (_, None) => Some("missing"),
            (_, Some(Node::Dir)) => Some("directory"),
            (_, Some(Node::Link(_))) => return Err(Stop::Invalid),
            (Some(l), Some(Node::File(d))) => {
                if std::str::from_utf8(d).is_err() {
                    Some("not UTF-8")
                } else if minified(l, d).is_none() {
                    Some("not minifiable")
                } else {
                    None
                }
            }
        };
        let out = lang.map(|l| {
            let mut p = match &out_arg {
                None => path.clone(),
                Some(o) if out_dir => o.join(&path),
                Some(o) => return o.clone(),
            };
            p.set_extension(format!("min.{}", l.name()));
            p
        });
        let mut may_fail = at.as_ref().is_some_and(|a| restricted(a));
        let out = match out {
            None => None,
            Some(o) => {
                let end = place(&initial, &o, false);
                match &end {
                    // an existing link as output is nobody's promise either
                    Some(e) if matches!(initial.get(e), Some(Node::Link(_))) => return Err(Stop::Invalid),
                    Some(e) if initial.get(e) == Some(&Node::Dir) => bad = bad.or(Some("output is a directory")),
                    Some(_) => {}
                    None => {
                        if bad.is_none() && o.components().any(|c| c.as_os_str() == "..") {
                            return Err(Stop::Invalid);
                        }
                        bad = bad.or(Some("output below a file"));
                    }
                }
                may_fail |= end.as_ref().is_some_and(|e| restricted(e));
                end
            }
        };
        let mut fresh = vec![];
        if let (Some(l), Some(Node::File(d))) = (lang, node) {
            fresh.extend(minified(l, d));
            for (k, a) in sc.get("actors").arr().iter().enumerate() {
                if PathBuf::from(os(a.get("to").str())) == path && !a.get("unlink").bool() {
                    let d = content(a);
                    fresh.extend(minified(l, &d));
                    staged.push((PathBuf::from(format!("v{k}")), d));
                }
            }
        }
        args.push(path.clone().into());
        inputs.push(Input { path, out, bad, may_fail, fresh });
        places.push(at);
    }
    if inputs.is_empty() {
        return Err(Stop::Invalid);
    }
    if last {
        args.extend(options);
    }
    // outputs must be distinct, no input may be another's output, and none may lie below another
    let outs: BTreeSet<&PathBuf> = inputs.iter().filter_map(|x| x.out.as_ref()).collect();
    if outs.len() != inputs.iter().filter(|x| x.out.is_some()).count() {
        return Err(Stop::Invalid);
    }
    if inputs.len() <= 40 {
        for a in 0..inputs.len() {
            for b in 0..inputs.len() {
                let Some(o) = &inputs[a].out else { continue };
                if a != b && inputs[b].out.as_ref().is_some_and(|x| x.starts_with(o)) {
                    return Err(Stop::Invalid);
                }
                if let Some(p) = &places[b] {
                    if p.starts_with(o) || (o.starts_with(p) && o != p && !initial.contains_key(p)) {
                        return Err(Stop::Invalid);
                    }
                }
                if inputs[b].path.starts_with(o) {
                    return Err(Stop::Invalid);
                }
            }
        }
    } else if places.iter().flatten().any(|p| outs.contains(p)) {
        return Err(Stop::Invalid);
    }
    let clock = big_ints(sc.get("clock"));
    let clock = (clock.first().copied().unwrap_or(1_700_000_000).clamp(100_000_000, 4_000_000_000), clock.get(1).copied().unwrap_or(1000).clamp(0, 1_000_000_000));
    Ok(World { inputs, initial, args, staged, attrs, clock, nofile: sc.get("nofile").us(), extra: vec![], env: vec![], stdin: None, reverse: false, dir: "cwd".into(), called: None, hard: vec![] })
}

// ---------------------------------------------------------------- running the binary

struct Scratch {
    root: PathBuf,
    unprivileged: bool,
    /// name of the working directory
    name: std::cell::RefCell<OsString>,
}

fn base_dir() -> PathBuf {
    match std::env::var_os("MINSIM_SCRATCH") {
        Some(x) => PathBuf::from(x),
        None => crate::sys::harness_error("MINSIM_SCRATCH is not set"),
    }
}

/// Creates the directory all workers share (called by the supervisor), with the binary and the shim.
pub fn prepare_scratch() -> PathBuf {
    let parent = if fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    // every process's directory has a name of the same length: absolute paths do not change lengths
    let mut root = parent.join(format!("minsim-{:010}", std::process::id()));
    if fs::create_dir(&root).is_err() {
        root = std::env::temp_dir().join(format!("minsim-{:010}", std::process::id()));
        if fs::create_dir(&root).is_err() {
            crate::sys::harness_error("cannot create a scratch directory");
        }
    }
    let _ = fs::set_permissions(&root, fs::Permissions::from_mode(0o755));
    root
}

pub fn install_binaries(root: &Path) {
    for (var, name) in [("MINSIM_CLI", "minifier"), ("MINSIM_SHIM", "shim.so")] {
        let Some(from) = std::env::var_os(var) else { crate::sys::harness_error(&format!("{var} is not set")) };
        let to = root.join(name);
        if let Err(e) = fs::copy(&from, &to) {
            crate::sys::harness_error(&format!("cannot copy {from:?}: {e}"));
        }
        let _ = fs::set_permissions(&to, fs::Permissions::from_mode(0o755));
    }
}

fn scratch() -> Scratch {
    let root = base_dir().join(format!("w{:010}", std::process::id()));
    let _ = fs::create_dir_all(&root);
    let _ = fs::set_permissions(&root, fs::Permissions::from_mode(0o777));
    // the command runs as an unprivileged user where the sandbox allows it
    let unprivileged = std::env::var_os("MINSIM_UNPRIV").is_some();
    Scratch { root, unprivileged, name: std::cell::RefCell::new("cwd".into()) }
}

pub fn can_drop_privileges(root: &Path) -> bool {
    Command::new(root.join("minifier"))
        .arg("--version")
        .uid(65534)
        .gid(65534)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map(|s| s.success())
        .unwrap_or(false)
}

#[derive(Clone)]
struct Op {
    name: String,
    path: Vec<u8>,
    ret: i64,
    err: i64,
    inj: String,
}

struct Ran {
    stdout: String,
    stderr: String,
    code: Option<i32>,
    signal: Option<i32>,
    ops: Vec<Op>,
    after: Tree,
    need: Option<Need>,
    /// it made so many calls that the shim ended it
    runaway: bool,
}

/// What a run that came to its end took: most bytes allocated at once, most files open at once, the
/// number of allocations of each class, and the deepest stack of the main thread.
#[derive(Clone, Copy)]
struct Need {
    heap: i64,
    files: i64,
    allocs: [i64; 4],
    stack: i64,
}

impl Scratch {
    fn cwd(&self) -> PathBuf {
        self.root.join("tree/work").join(&*self.name.borrow())
    }
    fn wipe(&self) {
        let t = self.root.join("tree");
        if t.exists() {
            let _ = fs::remove_dir_all(&t);
        }
        let t = self.root.join("stage");
        if t.exists() {
            let _ = fs::remove_dir_all(&t);
        }
    }
    fn fill(&self, w: &World) {
        let (tree, staged) = (&w.initial, &w.staged);
        self.wipe();
        *self.name.borrow_mut() = w.dir.clone();
        let cwd = self.cwd();
        let mk = |p: &Path| {
            fs::create_dir_all(p).unwrap_or_else(|e| crate::sys::harness_error(&format!("{p:?}: {e}")));
        };
        mk(&cwd);
        mk(&self.root.join("stage"));
        for d in ["tree", "tree/work", "stage"] {
            let _ = fs::set_permissions(self.root.join(d), fs::Permissions::from_mode(0o777));
        }
        let _ = fs::set_permissions(&cwd, fs::Permissions::from_mode(0o777));
        let own = |q: &Path| {
            if self.unprivileged {
                let _ = std::os::unix::fs::lchown(q, Some(65534), Some(65534));
            }
        };
        let mut nodes: Vec<(&PathBuf, &Node)> = tree.iter().collect();
        if w.reverse {
            nodes.reverse();
        }
        for (p, n) in nodes {
            let q = cwd.join(p);
            if let Some(d) = q.parent() {
                mk(d);
            }
            match n {
                Node::Dir => mk(&q),
                Node::File(d) => {
                    fs::write(&q, d).unwrap_or_else(|e| crate::sys::harness_error(&format!("{q:?}: {e}")));
                }
                Node::Link(t) => std::os::unix::fs::symlink(t, &q).unwrap_or_else(|e| crate::sys::harness_error(&format!("{q:?}: {e}"))),
            }
            own(&q);
        }
        for (old, new) in &w.hard {
            fs::hard_link(cwd.join(old), cwd.join(new)).unwrap_or_else(|e| crate::sys::harness_error(&format!("{old:?} {new:?}: {e}")));
        }
        // rights and times last, the innermost first
        for (p, n) in tree.iter().rev() {
            let q = cwd.join(p);
            if matches!(n, Node::Link(_)) {
                continue;
            }
            let (mode, age) = w.attrs.get(p).copied().unwrap_or((None, 1000));
            set_time(&q, w.clock.0 - age);
            let _ = fs::set_permissions(&q, fs::Permissions::from_mode(mode.unwrap_or(if *n == Node::Dir { 0o777 } else { 0o666 })));
        }
        // a bystander beside the working directory
        let _ = fs::write(self.root.join("tree/work/beside"), b"beside");
        for (p, d) in staged {
            let q = self.root.join("stage").join(p);
            let _ = fs::write(&q, d);
            let _ = fs::set_permissions(&q, fs::Permissions::from_mode(0o666));
            own(&q);
        }
    }
    fn snapshot(&self) -> Tree {
        let mut t = BTreeMap::new();
        snap(&self.cwd(), Path::new(""), &mut t);
        // anything outside the working directory shows up under a name no scenario uses
        let mut outer = BTreeMap::new();
        snap_shallow(&self.root.join("tree"), &mut outer);
        snap_shallow(&self.root.join("tree/work"), &mut outer);
        for (p, n) in outer {
            let name = p.file_name().unwrap_or_default().to_owned();
            if name == "work" || name == *self.name.borrow() || (name == "beside" && n == Node::File(b"beside".to_vec())) {
                continue;
            }
            t.insert(Path::new("..").join(name), n);
        }
        t
    }
    /// An input or unrelated file or directory whose permissions or time of modification (that of files)
    /// are no longer what they were.
    fn attributes(&self, w: &World) -> Option<String> {
        for (p, n) in &w.initial {
            if matches!(n, Node::Link(_)) || (is_output(w, p) && matches!(n, Node::File(_))) {
                continue;
            }
            let Ok(m) = fs::symlink_metadata(self.cwd().join(p)) else { continue };
            let (mode, age) = w.attrs.get(p).copied().unwrap_or((None, 1000));
            let mode = mode.unwrap_or(if *n == Node::Dir { 0o777 } else { 0o666 });
            let is = m.permissions().mode() & 0o7777;
            if is != mode {
                return Some(format!("{p:?} had permissions {mode:o}, has {is:o}"));
            }
            let time = (w.clock.0 - age).max(0);
            if *n != Node::Dir && m.mtime() != time {
                return Some(format!("{p:?} was last modified at {time}, now at {}", m.mtime()));
            }
        }
        None
    }
    /// The command, and where its log and messages go.
    fn command(&self, w: &World, plan: &[String], tag: &str) -> (Command, PathBuf, PathBuf) {
        let planf = self.root.join(format!("plan{tag}"));
        let logf = self.root.join(format!("log{tag}"));
        let errf = self.root.join(format!("stderr{tag}"));
        let _ = fs::write(&planf, plan.join("\n") + "\n");
        let _ = fs::write(&logf, b"");
        let _ = fs::set_permissions(&logf, fs::Permissions::from_mode(0o666));
        let err = fs::File::create(&errf).unwrap_or_else(|e| crate::sys::harness_error(&format!("{errf:?}: {e}")));
        let base = base_dir();
        let mut c = Command::new(base.join("minifier"));
        let here = self.cwd();
        let here = here.as_os_str().as_bytes();
        let real = |a: &OsString| {
            let b = a.as_bytes();
            match (0..b.len()).find(|k| b[*k..].starts_with(CWD.as_bytes())) {
                Some(k) => OsString::from_vec([&b[..k], here, &b[k + CWD.len()..]].concat()),
                None => a.clone(),
            }
        };
        if let Some(n) = &w.called {
            std::os::unix::process::CommandExt::arg0(&mut c, n);
        }
        c.args(w.args.iter().map(real))
            .env_clear()
            .env("LD_PRELOAD", base.join("shim.so"))
            .env("SIM_PLAN", &planf)
            .env("SIM_LOG", &logf)
            .env("SIM_ROOT", self.root.join("tree"))
            .envs(w.env.iter().map(|(k, v)| (k, v)))
            .current_dir(self.cwd())
            .stdin(Stdio::null())
            .stderr(err);
        if let Some(t) = &w.stdin {
            let f = self.root.join(format!("stdin{tag}"));
            let _ = fs::write(&f, t);
            if let Ok(f) = fs::File::open(&f) {
                c.stdin(f);
            }
        }
        if self.unprivileged {
            c.uid(65534).gid(65534);
        }
        (c, logf, errf)
    }
    fn collect(&self, out: &[u8], st: std::process::ExitStatus, logf: &Path, errf: &Path, hung: bool) -> Ran {
        let here = self.cwd();
        let here = here.as_os_str().as_bytes();
        let mut ops = vec![];
        let (mut need, mut runaway) = (None, false);
        let text = fs::read(logf).unwrap_or_default();
        for l in text.split(|b| *b == b'\n') {
            // names need not be Unicode; every other field is ASCII
            let bytes: Vec<&[u8]> = l.split(|b| *b == b'\t').collect();
            let f: Vec<&str> = bytes.iter().map(|x| std::str::from_utf8(x).unwrap_or("")).collect();
            if f[0] == "heap" && f.len() == 8 {
                let n: Vec<i64> = f[1..].iter().map(|x| x.parse().unwrap_or(0)).collect();
                need = Some(Need { heap: n[0], files: n[1], allocs: [n[2], n[3], n[4], n[5]], stack: n[6] });
                continue;
            }
            runaway |= f[0] == "runaway";
            if f.len() == 6 {
                ops.push(Op { name: f[1].into(), path: scrub(&os_bytes(bytes[2]).into_vec(), here), ret: f[3].parse().unwrap_or(0), err: f[4].parse().unwrap_or(0), inj: f[5].into() });
            }
        }
        if ops.is_empty() && !hung {
            crate::sys::harness_error("the shim recorded no operation");
        }
        Ran {
            stdout: String::from_utf8_lossy(&scrub(out, here)).into_owned(),
            stderr: no_thread_ids(&String::from_utf8_lossy(&scrub(&fs::read(errf).unwrap_or_default(), here))),
            code: st.code(),
            signal: st.signal(),
            ops,
            after: self.snapshot(),
            need,
            runaway,
        }
    }
    /// `at`: seconds from the scenario's start on the simulated clock; `pid`: tells processes apart.
    fn run(&self, w: &World, at: i64, pid: usize, plan: &[String], log: &mut Log) -> Result<Ran, Stop> {
        let mut plan = plan.to_vec();
        plan.splice(0..0, w.settings(at, pid));
        let (mut c, logf, errf) = self.command(w, &plan, "");
        c.stdout(Stdio::piped());
        let mut child = match c.spawn() {
            Ok(x) => x,
            Err(e) => crate::sys::harness_error(&format!("cannot run the command: {e}")),
        };
        let mut out = vec![];
        let mut pipe = child.stdout.take().unwrap();
        let hung = !crate::sys::read_all(&mut pipe, &mut out, child.id(), 20_000);
        if hung {
            let _ = child.kill();
        }
        let st = child.wait().unwrap_or_else(|e| crate::sys::harness_error(&format!("wait: {e}")));
        let r = self.collect(&out, st, &logf, &errf, hung);
        if r.runaway {
            return bad("hang", "the command goes on and on: it was ended after ten million calls, or a hundred thousand that failed one after another".into());
        }
        record(&r, log);
        if hung {
            return bad("hang", "the command does not finish".into());
        }
        Ok(r)
    }
}

fn record(r: &Ran, log: &mut Log) {
    let mut h = Fnv::new();
    for o in &r.ops {
        h.bytes(o.name.as_bytes());
        h.bytes(&o.path);
        h.u64(o.ret as u64);
        h.u64(o.err as u64);
        h.bytes(o.inj.as_bytes());
        if log.text.is_some() {
            log.ev_s("op", &format!("{} {:?} -> {} errno {} {}", o.name, String::from_utf8_lossy(&o.path), o.ret, o.err, o.inj));
        } else {
            log.steps += 1;
        }
        match o.inj.as_str() {
            "-" => {}
            "err" => log.fault(&format!("{}: {}", o.name, errno_name(o.err))),
            "eintr" => log.fault(&format!("{}: EINTR", o.name)),
            x => log.fault(&format!("{}: {}", o.name, x)),
        }
    }
    for (p, n) in &r.after {
        h.bytes(p.as_os_str().as_bytes());
        if let Node::File(d) = n {
            h.bytes(d);
        }
    }
    h.bytes(r.stdout.as_bytes());
    h.bytes(r.stderr.as_bytes());
    log.hash_in(h.0);
    if log.text.is_some() {
        log.ev_s("stdout", &r.stdout);
        log.ev_s("stderr", &r.stderr);
        log.ev_s("exit", &format!("{:?} {:?}", r.code, r.signal));
    }
}

/// Replaces the working directory, whose name differs between processes.
fn scrub(b: &[u8], here: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut k = 0;
    while k < b.len() {
        if b[k] == b'/' && b[k..].starts_with(here) {
            out.extend_from_slice(CWD.as_bytes());
            k += here.len();
        } else {
            out.push(b[k]);
            k += 1;
        }
    }
    out
}

fn set_time(p: &Path, secs: i64) {
    if let Ok(f) = fs::File::open(p) {
        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(secs.max(0) as u64);
        let _ = f.set_times(fs::FileTimes::new().set_modified(t).set_accessed(t));
    }
}

fn snap(dir: &Path, rel: &Path, t: &mut Tree) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = rel.join(e.file_name());
        let q = e.path();
        match e.file_type() {
            Ok(f) if f.is_dir() => {
                t.insert(p.clone(), Node::Dir);
                snap(&q, &p, t);
            }
            Ok(f) if f.is_symlink() => {
                t.insert(p, Node::Link(fs::read_link(&q).unwrap_or_default()));
            }
            _ => {
                t.insert(p, Node::File(fs::read(&q).unwrap_or_else(|_| b"<unreadable>".to_vec())));
            }
        }
    }
}
fn snap_shallow(dir: &Path, t: &mut Tree) {
    let Ok(rd) = fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let q = e.path();
        let n = if q.is_dir() { Node::Dir } else { Node::File(fs::read(&q).unwrap_or_default()) };
        t.insert(q, n);
    }
}

fn errno_name(e: i64) -> String {
    for (n, v) in ERRNO {
        if *v == e {
            return n.to_string();
        }
    }
    e.to_string()
}
const ERRNO: &[(&str, i64)] = &[
    ("EIO", 5), ("EACCES", 13), ("ENOSPC", 28), ("EMFILE", 24), ("EROFS", 30), ("ENOENT", 2), ("ELOOP", 40), ("EDQUOT", 122),
    ("ESTALE", 116), ("ENOMEM", 12), ("EFBIG", 27), ("EINTR", 4), ("EPERM", 1), ("EAGAIN", 11), ("ENOTDIR", 20), ("ETXTBSY", 26), ("ENFILE", 23), ("ENAMETOOLONG", 36),
];

// ---------------------------------------------------------------- faults, placed on a recorded trace

/// Allocations that fail, placed among those of the given run.
fn starve(faults: &V, base: &Ran) -> Vec<String> {
    let mut out = vec![];
    for f in faults.arr().iter().filter(|f| f.get("act").str() == "oom") {
        let c = f.get("class").us() % 4;
        let n = base.need.map_or(0, |n| n.allocs[c]);
        if n > 0 {
            out.push(format!("oom {} {c}", f.get("at").int().rem_euclid(n)));
        }
    }
    out
}

fn oom(r: &mut Rng) -> V {
    obj(vec![("act", s("oom")), ("class", i(r.choose(&[0, 0, 1, 1, 2, 3]))), ("at", i(r.below(1000)))])
}

/// Out of memory the standard library ends a program; some allocations may fail and be reported.
fn starved(r: &Ran) -> bool {
    r.ops.iter().any(|o| o.inj == "oom")
}

/// Turns the scenario's faults into shim directives, at operations of the given trace.
fn resolve(faults: &V, w: &World, trace: &[Op]) -> Vec<String> {
    let mut out = vec![];
    let most = w.initial.values().map(|n| if let Node::File(d) = n { d.len() } else { 0 }).chain(w.staged.iter().map(|x| x.1.len())).max().unwrap_or(0);
    for f in faults.arr() {
        let act = f.get("act").str();
        let k = f.get("k").us();
        match act {
            "quota" => {
                out.push(format!("{act} {k}"));
                continue;
            }
            "shortr" | "shortw" => {
                // some thousands of transfers are enough
                out.push(format!("{act} {}", k.max(1).max(most / 4000)));
                continue;
            }
            "eintr" => {
                out.push(format!("eintr {}", k.max(2)));
                continue;
            }
            "stale" => {
                let Some(x) = w.inputs.get(f.get("on").us() % w.inputs.len().max(1)) else { continue };
                let Some(p) = place(&w.initial, &x.path, true) else { continue };
                let p: String = p.as_os_str().as_bytes().iter().map(|b| if b.is_ascii_graphic() && *b != b'%' { (*b as char).to_string() } else { format!("%{b:02x}") }).collect();
                if p.len() < 290 {
                    out.push(if f.get("pipe").bool() { format!("stale -1\t{p}") } else { format!("stale {}\t{p}", k.min(1 << 20)) });
                }
                continue;
            }
            _ => {}
        }
        let sel = f.get("sel").str();
        let on = f.get("on");
        // "name": every kind of call is as likely as the others, however often it is made
        let mut at = f.get("at").us();
        let mut names: Vec<&str> = trace.iter().filter(|o| o.path.first() != Some(&b'<')).map(|o| o.name.as_str()).collect();
        names.sort_unstable();
        names.dedup();
        let sel = if sel == "name" && !names.is_empty() {
            let n = names[at % names.len()];
            at /= names.len();
            n
        } else {
            sel
        };
        let of: Vec<usize> = (0..trace.len())
            .filter(|n| {
                let o = &trace[*n];
                let std = o.path.first() == Some(&b'<');
                let kind = match sel {
                    "any" => true,
                    "file" => !std,
                    "open" => o.name.starts_with("open"),
                    "meta" => !std && !matches!(o.name.as_str(), "read" | "write" | "openr" | "openw"),
                    x => o.name == x && (x != "write" || !std || act == "err-std"),
                };
                let who = on.is_null() || w.inputs.get(on.us() % w.inputs.len().max(1)).is_some_and(|x| {
                    o.path.as_slice() == x.path.as_os_str().as_bytes() || x.out.as_ref().is_some_and(|p| p.as_os_str().as_bytes() == o.path.as_slice())
                });
                // hard failures of the standard streams are outside the properties
                let allowed = act != "err" || !std;
                kind && who && allowed
            })
            .collect();
        if of.is_empty() {
            continue;
        }
        let n = of[at % of.len()];
        out.push(match act {
            "err" => format!("{} {n} {}", if f.get("sticky").bool() { "errs" } else { "err" }, f.get("e").int()),
            "jump" => format!("jump {n} {k}"),
            "interrupt" => {
                if !matches!(trace[n].name.as_str(), "read" | "write" | "openr" | "openw") {
                    continue;
                }
                format!("intr {n}")
            }
            "short" => format!("short {n} {}", k.max(1)),
            "before" => format!("before {n}"),
            "after" => format!("after {n}"),
            "torn" => format!("torn {n} {k}"),
            _ => continue,
        });
    }
    out
}

fn errno_for(r: &mut Rng, sel: &str) -> i64 {
    let menu: &[i64] = match sel {
        "openr" => &[5, 13, 24, 2, 40, 12, 23, 116],
        "openw" => &[13, 28, 30, 24, 122, 5, 1, 26],
        "read" => &[5, 116, 12, 11],
        "write" => &[28, 5, 122, 27, 11],
        "mkdir" => &[13, 28, 30, 5, 122],
        "statx" => &[13, 5, 2, 40],
        _ => &[5, 28, 13],
    };
    r.choose(menu)
}

fn hard_fault(r: &mut Rng, n_inputs: usize) -> V {
    let sel = r.pick(&["openr", "openw", "read", "read", "write", "write", "mkdir", "statx", "meta", "file", "name", "name"]);
    let mut f = obj(vec![("act", s("err")), ("sel", s(sel)), ("at", i(r.below(if sel == "name" { 640 } else { 64 }))), ("e", V::I(errno_for(r, sel)))]);
    if r.one_in(3) {
        f.set("on", i(r.below(n_inputs)));
    }
    if r.one_in(4) {
        f.set("sticky", V::B(true));
    }
    f
}

fn soft_fault(r: &mut Rng) -> V {
    match r.below(7) {
        6 if r.one_in(2) => obj(vec![("act", s("stale")), ("on", i(r.below(8))), ("pipe", V::B(true))]),
        6 => obj(vec![("act", s("stale")), ("on", i(r.below(8))), ("k", i(r.choose(&[0, 0, 1, 5, 100, 4096, 1 << 20])))]),
        0 => obj(vec![("act", s("shortr")), ("k", i(r.choose(&[1, 2, 3, 7, 30, 1000])))]),
        1 => obj(vec![("act", s("shortw")), ("k", i(r.choose(&[1, 2, 3, 7, 30, 1000])))]),
        2 => obj(vec![("act", s("eintr")), ("k", i(r.range(2, 5)))]),
        3 => obj(vec![("act", s("short")), ("sel", s(r.pick(&["read", "write"]))), ("at", i(r.below(64))), ("k", i(r.choose(&[1, 2, 5, 100])))]),
        _ => obj(vec![("act", s("interrupt")), ("sel", s(r.pick(&["read", "write", "openr", "openw"]))), ("at", i(r.below(64)))]),
    }
}

// ---------------------------------------------------------------- workloads

const STEMS: &[&str] = &["a", "b", "main", "x y", "é", "q'u", "d\"q", "st.ail", "v.min", "UP", "n\\b", "日本", "tab\tx", "p=1", "z%FFz", "-o", "--", "new\nline", " end ", "[x]*?", ".hid", "~", "$HOME", "%CC%81", "css", "min"];
const DIRS: &[&str] = &["", "", "", "sub/", "sub/deep/", "d ir/", "o.ther/"];

fn good_content(r: &mut Rng, lang: Lang) -> V {
    let text = match lang {
        Lang::Css => gen::css_text(r),
        Lang::Js => if r.one_in(3) { gen::js_strings(r, "R") } else { gen::js_text(r) },
        Lang::Json => gen::json_doc(r, false),
    };
    let mut f = obj(vec![("text", strs(&text))]);
    if r.one_in(12) {
        f.set("repeat", i(r.choose(&[2, 10, 60, 300])));
    } else if r.one_in(300) {
        f.set("repeat", i(r.choose(&[1500, 4000])));
    }
    if r.one_in(20) {
        f.set("text", strs(&[]));
    }
    if r.one_in(20) {
        f.set("crlf", i(1));
    }
    if r.one_in(20) {
        f.set("bom", i(1));
    }
    if r.one_in(30) {
        let k = if r.one_in(20) { 20 } else { r.choose(&[12, 12, 13, 13, 14, 15, 16, 16, 17]) };
        f.set("size", i((1 << k) + r.below(3) - 1));
    }
    f
}

fn gen_batch(r: &mut Rng, bad_pct: usize) -> V {
    let n = r.choose(&[1, 1, 2, 2, 3, 4, 5]);
    let mut files: Vec<V> = vec![];
    let mut inputs: Vec<String> = vec![];
    let force = if r.one_in(4) { Some(r.choose(&[Lang::Css, Lang::Js, Lang::Json])) } else { None };
    let style = r.below(10);
    let out: Option<&str> = match style {
        0 | 1 => Some("outdir"),
        2 => Some("out dir/x"),
        3 if n == 1 => Some("one.out"),
        4 if n == 1 => Some("new/deep/one.out"),
        _ => None,
    };
    let out_is_dir = style <= 2;
    if out_is_dir && out.is_some() {
        files.push(obj(vec![("p", s(out.unwrap())), ("dir", V::B(true))]));
    }
    let mut stems: Vec<usize> = (0..STEMS.len()).collect();
    for k in 0..n {
        let stem = STEMS[stems.remove(r.below(stems.len()))];
        let lang = force.unwrap_or(r.choose(&[Lang::Css, Lang::Js, Lang::Json]));
        let dir = r.pick(DIRS);
        let ext = match r.below(12) {
            0 => lang.name().to_uppercase(),
            2 => r.pick(match lang {
                Lang::Css => &["Css", "cSS"],
                Lang::Js => &["Js", "jS"],
                Lang::Json => &["Json", "jSON"],
            }).to_string(),
            1 if force.is_some() => r.pick(&["txt", "css", "x"]).to_string(),
            _ => lang.name().to_string(),
        };
        // a name nearly as long as they may be: some room is left for names of files in the making
        let long = if r.one_in(40) { "n".repeat(200 + r.below(16)) } else { String::new() };
        let mut p = format!("{dir}{stem}{long}.{ext}");
        let mut f = good_content(r, lang);
        let mut exists = true;
        if r.pct(bad_pct) {
            match r.below(11) {
                0 => exists = false,
                1 => f = obj(vec![("dir", V::B(true))]),
                2 => p = format!("{dir}{stem}.{}", r.pick(&["txt", "cs", "%FFcss", "css~", "html"])),
                3 => p = format!("{dir}{stem}"),
                4 => p = format!("{dir}{stem}.%FF"),
                5 | 6 => {
                    // bytes damaged on the disk
                    let len = content(&f).len();
                    let mut dm = vec![];
                    for _ in 0..r.range(1, 3) {
                        dm.push(match r.below(4) {
                            0 => V::A(vec![s("flip"), i(r.below(len.max(1))), i(r.below(8))]),
                            1 => V::A(vec![s("cut"), i(r.below(len.max(1)))]),
                            2 => V::A(vec![s("ins"), i(r.below(len + 1)), s(&hex(&[0x80 + r.below(128) as u8]))]),
                            _ => V::A(vec![s("del"), i(r.below(len.max(1))), i(r.range(1, 3))]),
                        });
                    }
                    f.set("damage", V::A(dm));
                }
                7 | 8 => {
                    let t = match lang {
                        Lang::Css => r.pick(&["a { b: \"unclosed", "/* unclosed", ".", "# { }", "@", ":", "a { b: 'x }", "/*! é"]),
                        Lang::Js => r.pick(&["`${`${", "a = `x ${ b ", "/* é", "a; // é", "/.\n//", "\"", "'", "a = /[/", "`", "${", "x = `${`${`"]),
                        Lang::Json => r.pick(&["{\"a", "\\", "\u{0}", "[\"\\", "{,}"]),
                    };
                    let deep = r.one_in(6);
                    f.set("text", strs(&[if deep && lang == Lang::Js { "`${".repeat(600) } else { t.to_string() }]));
                }
                9 => {
                    // something in the way of the output
                    if out.is_none() {
                        let mut o = PathBuf::from(&p);
                        o.set_extension(format!("min.{}", lang.name()));
                        if let Some(o) = o.to_str() {
                            files.push(obj(vec![("p", s(o)), ("dir", V::B(true))]));
                        }
                    }
                }
                _ => {
                    if out_is_dir && !dir.is_empty() && out.is_some() {
                        // a file where a directory is needed
                        let d = format!("{}/{}", out.unwrap(), dir.split('/').next().unwrap());
                        if !files.iter().any(|x| x.get("p").str() == d || x.get("p").str().starts_with(&format!("{d}/"))) {
                            files.push(obj(vec![("p", s(&d)), ("text", strs(&["in the way".into()]))]));
                        }
                    } else {
                        exists = false;
                    }
                }
            }
        }
        let _ = k;
        if exists {
            let mut e = obj(vec![("p", s(&p))]);
            if let V::O(o) = f {
                for (k, v) in o {
                    e.set(&k, v);
                }
            }
            files.push(e);
        }
        // an output left from an earlier run
        if r.one_in(3) && out.is_none() {
            let mut o = PathBuf::from(&p);
            o.set_extension(format!("min.{}", lang.name()));
            if let Some(o) = o.to_str() {
                if !files.iter().any(|x| x.get("p").str() == o) {
                    let old = match r.below(3) {
                        0 => "old".to_string(),
                        1 => "old output, much longer than the new one ".repeat(40),
                        _ => String::new(),
                    };
                    files.push(obj(vec![("p", s(o)), ("text", strs(&[old]))]));
                }
            }
        }
        inputs.push(p);
    }
    if let (Some("one.out"), true) = (out, r.one_in(2)) {
        files.push(obj(vec![("p", s("one.out")), ("text", strs(&["previous".repeat(50)]))]));
    }
    // bystanders
    for b in ["keep.css", "sub/keep.txt", "keep.min.js", "outdir/keep", "keep.css.min", "a.min", "a.css.tmp", "sub/.hidden"] {
        if r.one_in(3) && (b != "outdir/keep" || out == Some("outdir")) {
            files.push(obj(vec![("p", s(b)), ("text", strs(&[format!("bystander {b} {{ }}")]))]));
        }
    }
    for f in files.iter_mut() {
        if r.one_in(6) {
            // also from the future
            f.set("age", V::I(r.choose(&[0, 10, 100_000, -50, -100_000])));
        }
        if r.one_in(60) {
            let dir = f.get("dir").bool();
            f.set("mode", i(if dir { r.choose(&[0o555, 0o000, 0o300]) } else { r.choose(&[0o444, 0o000, 0o200]) }));
        }
    }
    // other ways to say where an input is
    for p in inputs.iter_mut() {
        if out_is_dir && out.is_some() {
            break;
        }
        match r.below(24) {
            0 => *p = format!("./{p}"),
            1 => *p = format!("{CWD}/{p}"),
            2 => match p.split_once('/') {
                Some((d, _)) => *p = format!("{d}/../{p}"),
                None => *p = format!("hop/.././{p}"),
            },
            3 if !p.contains('/') => {
                // through a link to the file, or to its directory
                let Some(k) = files.iter().position(|f| f.get("p").str() == *p) else { continue };
                if r.one_in(2) {
                    files[k].set("p", s(&format!("store/{p}")));
                    files.push(obj(vec![("p", s(p)), ("link", s(&r.pick(&["store/{}", "./store/../store/{}", "nowhere/{}"]).replace("{}", p)))]));
                } else {
                    files[k].set("p", s(&format!("store/{p}")));
                    if !files.iter().any(|f| f.get("p").str() == "ln") {
                        files.push(obj(vec![("p", s("ln")), ("link", s("store"))]));
                    }
                    *p = format!("ln/{p}");
                }
            }
            _ => {}
        }
    }
    if inputs.iter().any(|p| p.starts_with("hop/")) {
        files.push(obj(vec![("p", s("hop")), ("dir", V::B(true))]));
    }
    let out_text = out.map(|o| if r.one_in(8) { format!("{CWD}/{o}") } else if r.one_in(12) { format!("./{o}") } else { o.to_string() });
    let mut sc = obj(vec![("files", V::A(files)), ("inputs", strs(&inputs)), ("type", force.map(|l| s(l.name())).unwrap_or(V::Null)), ("out", out_text.map(|o| s(&o)).unwrap_or(V::Null))]);
    sc.set("faults", V::A(vec![]));
    if r.one_in(4) {
        sc.set("style", i(r.below(4)));
    }
    if r.one_in(4) {
        sc.set("clock", V::A(vec![V::I(r.choose(&[1_000_000_000, 1_700_000_000, 2_147_483_640, 3_900_000_000])), V::I(r.choose(&[0, 1, 1000, 2_000_000]))]));
    }
    sc
}

/// Many files in one command, most of them alike; now and then with few file handles allowed.
fn gen_bulk(r: &mut Rng, failing: bool) -> V {
    let n = r.choose(&[60, 100, 255, 256, 257, 512]);
    let good = r.choose(&[0, 0, 1, 2, 5]);
    let kind = if failing { r.below(4) } else { 4 };
    let name = |k: usize| match kind {
        1 => format!("f{k}.txt"),
        _ => format!("f{k}.{}", ["css", "js", "json"][k % 3]),
    };
    let text = ["a { b : c }\n", "var a = 1 ;\n", "[ 1 , 2 ]\n"];
    let mut files = vec![];
    let mut inputs = vec![];
    for k in 0..n {
        let p = name(k);
        match kind {
            0 | 1 => {}
            2 => files.push(obj(vec![("p", s(&p)), ("hex", s("ff"))])),
            3 => files.push(obj(vec![("p", s(&p)), ("dir", V::B(true))])),
            _ => files.push(obj(vec![("p", s(&p)), ("text", strs(&[text[k % 3].to_string()]))])),
        }
        inputs.push(p);
    }
    for k in 0..good {
        let p = format!("good{k}.js");
        files.push(obj(vec![("p", s(&p)), ("text", strs(&["let x = 2 ;\n".to_string()]))]));
        inputs.insert(r.below(inputs.len() + 1), p);
    }
    let mut sc = obj(vec![("files", V::A(files)), ("inputs", strs(&inputs)), ("type", V::Null), ("out", V::Null), ("faults", V::A(vec![]))]);
    if r.one_in(2) {
        sc.set("nofile", i(r.choose(&[24, 32, 50])));
    }
    sc
}

fn gen_faults(r: &mut Rng, n: usize, soft: usize, hard: usize) -> V {
    let mut v: Vec<V> = (0..soft).map(|_| soft_fault(r)).collect();
    for _ in 0..hard {
        v.push(hard_fault(r, n));
    }
    V::A(v)
}

// ---------------------------------------------------------------- reading the reports

/// Parses a path printed with `{:?}`.
fn undebug(t: &str) -> Option<(OsString, usize)> {
    let b: Vec<(usize, char)> = t.char_indices().collect();
    if b.first()?.1 != '"' {
        return None;
    }
    let mut out: Vec<u8> = vec![];
    let mut k = 1;
    while k < b.len() {
        let c = b[k].1;
        if c == '"' {
            return Some((OsString::from_vec(out), b[k].0 + 1));
        }
        if c == '\\' {
            k += 1;
            match b.get(k)?.1 {
                'n' => out.push(b'\n'),
                't' => out.push(b'\t'),
                'r' => out.push(b'\r'),
                '0' => out.push(0),
                'x' => {
                    let h: String = [b.get(k + 1)?.1, b.get(k + 2)?.1].iter().collect();
                    out.push(u8::from_str_radix(&h, 16).ok()?);
                    k += 2;
                }
                'u' => {
                    let mut h = String::new();
                    k += 2;
                    while b.get(k)?.1 != '}' {
                        h.push(b[k].1);
                        k += 1;
                    }
                    let c = char::from_u32(u32::from_str_radix(&h, 16).ok()?)?;
                    out.extend(c.to_string().bytes());
                }
                c => out.extend(c.to_string().bytes()),
            }
            k += 1;
            continue;
        }
        out.extend(c.to_string().bytes());
        k += 1;
    }
    None
}

/// (input, named output) of each complete "done" line
fn done_lines(stdout: &str) -> Vec<(PathBuf, Option<PathBuf>)> {
    let mut v = vec![];
    for l in stdout.split_inclusive('\n') {
        if !l.ends_with('\n') {
            continue;
        }
        if let Some((p, end)) = undebug(l) {
            let rest = &l[end..];
            if !rest.contains("done") {
                continue;
            }
            let out = rest.find('"').and_then(|q| undebug(&rest[q..])).map(|x| PathBuf::from(x.0));
            v.push((PathBuf::from(p), out));
        }
    }
    v
}

fn hard_fired(r: &Ran) -> usize {
    r.ops.iter().filter(|o| (o.inj == "err" && o.err != 4) || o.inj == "full").count()
}

fn crashed(r: &Ran) -> bool {
    r.signal == Some(9)
}

fn check_no_panic(r: &Ran) -> R {
    if r.code == Some(101) || r.stderr.contains("panicked at") || (r.signal.is_some() && !crashed(r)) {
        return bad("panic", format!("exit {:?} signal {:?}: {}", r.code, r.signal, show(r.stderr.as_bytes())));
    }
    Ok(())
}

/// Every input reported as done: its named output holds exactly its minified content.
fn check_done(w: &World, r: &Ran) -> R {
    for (p, o) in done_lines(&r.stdout) {
        let Some(x) = w.inputs.iter().find(|x| x.path == p) else {
            return bad("phantom-done", format!("{p:?} is reported as done and was not an input"));
        };
        let Some(o) = o else {
            return bad("phantom-done", format!("{p:?} is reported as done without an output"));
        };
        let got = match w.place(&r.after, &o).and_then(|o| r.after.get(&o)) {
            Some(Node::File(d)) => d,
            _ => return bad("done-but-missing", format!("{p:?} is reported as done, but {o:?} is no file")),
        };
        if !x.fresh.contains(got) {
            return bad(
                "done-but-wrong",
                format!("{p:?} is reported as done, {o:?} holds {} instead of {}", show(got), x.fresh.first().map(|f| show(f)).unwrap_or("nothing".into())),
            );
        }
    }
    Ok(())
}

fn note(w: &World, r: &Ran, log: &mut Log) {
    let d = done_lines(&r.stdout).len();
    log.ev("done", d as u64, w.inputs.len() as u64);
    for x in &w.inputs {
        if let Some(b) = x.bad {
            log.probe(b);
        }
    }
    if d > 0 && d < w.inputs.len() {
        log.probe("batch partly done");
    }
    if w.inputs.iter().any(|x| x.out.as_ref().is_some_and(|o| w.initial.contains_key(o))) {
        log.probe("output existed before");
    }
    if r.ops.iter().any(|o| o.name == "mkdir") {
        log.probe("parent directories created");
    }
    if w.inputs.len() > 40 {
        log.probe("batch of more than 40 files");
    }
    if w.initial.values().any(|n| matches!(n, Node::Link(_))) {
        log.probe("symbolic links");
    }
    if w.inputs.iter().any(|x| x.path.starts_with(CWD)) {
        log.probe("absolute path");
    }
    if w.inputs.iter().any(|x| x.may_fail) {
        log.probe("restricted access rights");
    }
    log.sim_ns += r.ops.len() as u64 * w.clock.1 as u64 * 1000;
}

fn actors(sc: &V, trace: &[Op], input: Option<usize>) -> Vec<String> {
    let mut v = vec![];
    for (k, a) in sc.get("actors").arr().iter().enumerate() {
        let to = a.get("to").str();
        if to.contains('%') || to.contains('\t') || to.starts_with(CWD) {
            continue;
        }
        let n = if trace.is_empty() { 0 } else { a.get("at").us() % trace.len() };
        let n = match input {
            Some(i) => i,
            None => n,
        };
        if a.get("unlink").bool() {
            v.push(format!("unlink {n}\t{to}"));
        } else {
            v.push(format!("rename {n}\t../../../stage/v{k}\t{to}"));
        }
    }
    v
}

/// Fault-free first (its trace is where the faults are placed), then with the faults.
fn two_phases(sc: &V, log: &mut Log, w: &World, sx: &Scratch, mut check: impl FnMut(&Ran, bool, &mut Log) -> R) -> R {
    sx.fill(w);
    let base = sx.run(w, 0, 0, &[], log)?;
    check(&base, false, log)?;
    let mut plan = resolve(sc.get("faults"), w, &base.ops);
    plan.extend(starve(sc.get("faults"), &base));
    plan.extend(actors(sc, &base.ops, None));
    if plan.is_empty() {
        note(w, &base, log);
        return Ok(());
    }
    sx.fill(w);
    let r = sx.run(w, 0, 0, &plan, log)?;
    note(w, &r, log);
    check(&r, true, log)
}

fn fin(sx: &Scratch) {
    sx.wipe();
}

// ---------------------------------------------------------------- C01

pub fn gen_c01(r: &mut Rng, _t: bool) -> V {
    if r.one_in(150) {
        let failing = r.one_in(2);
        return gen_bulk(r, failing);
    }
    let mut sc = gen_batch(r, 12);
    let n = sc.get("inputs").arr().len();
    let hard = if r.one_in(3) { r.range(1, 2) } else { 0 };
    let soft = r.choose(&[0, 1, 1, 2, 3]);
    sc.set("faults", gen_faults(r, n, soft, hard));
    if r.one_in(3) {
        let k = r.below(n);
        let name = sc.get("inputs").arr()[k].str().to_string();
        if let Some(l) = Lang::from(sc.get("type").str()).or_else(|| Path::new(&name).extension().and_then(|e| e.to_str()).and_then(|e| Lang::from(&e.to_lowercase()))) {
            let mut a = good_content(r, l);
            a.set("to", s(&name));
            a.set("at", i(r.below(64)));
            if r.one_in(5) {
                a.set("unlink", V::B(true));
            }
            sc.set("actors", V::A(vec![a]));
        }
    }
    if r.one_in(10) {
        let f = sc.get("faults").clone();
        let mut v = f.arr().to_vec();
        v.push(obj(vec![("act", s("quota")), ("k", i(r.below(200)))]));
        sc.set("faults", V::A(v));
    }
    sc
}

pub fn run_c01(sc: &V, log: &mut Log) -> R {
    let w = world(sc)?;
    let sx = scratch();
    let acts = !sc.get("actors").arr().is_empty();
    let res = two_phases(sc, log, &w, &sx, |r, faulty, log| {
        check_done(&w, r)?;
        let hard = hard_fired(r);
        if hard == 0 && !(acts && faulty) {
            let done = done_lines(&r.stdout);
            for x in &w.inputs {
                if x.bad.is_none() && !x.may_fail && !done.iter().any(|d| d.0 == x.path) {
                    return bad("not-done", format!("{:?} is valid and nothing but short transfers and interruptions happened, yet it is not done: {}", x.path, show(r.stderr.as_bytes())));
                }
            }
        }
        if faulty {
            log.nontrivial = true;
        }
        Ok(())
    });
    fin(&sx);
    res
}

// ---------------------------------------------------------------- C02

pub fn gen_c02(r: &mut Rng, _t: bool) -> V {
    if r.one_in(150) {
        let failing = true;
        return gen_bulk(r, failing);
    }
    let mut sc = gen_batch(r, 35);
    let n = sc.get("inputs").arr().len();
    let hard = r.choose(&[0, 1, 1, 1, 2]);
    let soft = if r.one_in(5) { 1 } else { 0 };
    sc.set("faults", gen_faults(r, n, soft, hard));
    if r.one_in(12) {
        let mut v = sc.get("faults").arr().to_vec();
        v.push(obj(vec![("act", s("quota")), ("k", i(r.below(200)))]));
        sc.set("faults", V::A(v));
    }
    sc
}

pub fn run_c02(sc: &V, log: &mut Log) -> R {
    let w = world(sc)?;
    let sx = scratch();
    let res = two_phases(sc, log, &w, &sx, |r, faulty, log| {
        check_no_panic(r)?;
        let done = done_lines(&r.stdout);
        let hard = hard_fired(r);
        let mut failed_good = 0;
        for x in &w.inputs {
            let is_done = done.iter().any(|d| d.0 == x.path);
            if is_done {
                continue;
            }
            if x.bad.is_none() && !x.may_fail {
                failed_good += 1;
            }
            let name = format!("{:?}", x.path);
            if !r.stderr.contains(&name) {
                return bad("unnamed-failure", format!("{name} is not done ({}) and standard error does not name it: {}", x.bad.unwrap_or("disk failure"), show(r.stderr.as_bytes())));
            }
        }
        if failed_good > hard {
            return bad("others-affected", format!("{failed_good} valid inputs failed, {hard} system calls failed; stderr {}", show(r.stderr.as_bytes())));
        }
        check_done(&w, r)?;
        if w.inputs.iter().any(|x| x.bad.is_some()) || (faulty && hard > 0) {
            log.nontrivial = true;
        }
        Ok(())
    });
    fin(&sx);
    res
}

// ---------------------------------------------------------------- C03

pub fn gen_c03(r: &mut Rng, t: bool) -> V {
    let mut sc = gen_c02(r, t);
    // old outputs everywhere
    if r.one_in(2) {
        let mut files = sc.get("files").arr().to_vec();
        let inputs: Vec<String> = sc.get("inputs").arr().iter().map(|x| x.str().to_string()).collect();
        let ty = sc.get("type").str().to_string();
        if sc.get("out").is_null() {
            for p in inputs {
                let mut o = PathBuf::from(p.trim_start_matches("{cwd}/").trim_start_matches("./"));
                if o.components().any(|c| !matches!(c, std::path::Component::Normal(_))) || o.starts_with("ln") {
                    continue;
                }
                let e = o.extension().map(|e| e.to_string_lossy().to_lowercase()).unwrap_or_default();
                let l = if ty.is_empty() { e } else { ty.clone() };
                if Lang::from(&l).is_none() {
                    continue;
                }
                o.set_extension(format!("min.{l}"));
                let o = o.to_string_lossy().into_owned();
                if !files.iter().any(|x| x.get("p").str() == o) {
                    files.push(obj(vec![("p", s(&o)), ("text", strs(&[format!("earlier output {o}")]))]));
                }
            }
        }
        sc.set("files", V::A(files));
    }
    if r.one_in(2) {
        shadows(r, &mut sc);
    }
    if r.one_in(3) {
        sc.set("taken", V::B(true));
    }
    sc
}

/// Unrelated files whose names are an output's (or an input's) with something before or after it.
fn shadows(r: &mut Rng, sc: &mut V) {
    const NAMES: &[&str] = &[
        "{}.tmp", "{}.bak", "{}~", "{}.old", "{}.orig", "{}.new", "{}.part", "{}.lock", "{}.map", "{}.gz", "{}.swp", ".{}.swp", ".{}.tmp", ".{}", "#{}#", "tmp.{}", "{}.1", "{}.0", "{}.7",
        "{}.77.tmp", "{}.tmp.1", "~{}", "_{}", "{}.bak.1", "{}.cache", "{}.stale", "{}.tmp-1", "{}2", "{}.d", "{}.a1b2c3", "{s}.tmp", "{s}.bak", "{s}.min.map", "{s}.min", "{s}.min.old", ".{s}.tmp", "{s}.orig.css", "{s}.lock", "{s}.tmp.js",
    ];
    let Ok(w) = world(sc) else { return };
    if w.inputs.is_empty() {
        return;
    }
    let mut files = sc.get("files").arr().to_vec();
    let mut taken: BTreeSet<PathBuf> = w.initial.keys().cloned().collect();
    for _ in 0..r.range(1, 6) {
        let x = &w.inputs[r.below(w.inputs.len())];
        let of = match &x.out {
            Some(o) if !r.one_in(4) => o.clone(),
            _ => match place(&w.initial, &x.path, true) {
                Some(p) => p,
                None => continue,
            },
        };
        let (Some(name), Some(parent)) = (of.file_name(), of.parent()) else { continue };
        let name = name.as_bytes();
        let stem = &name[..name.iter().position(|b| *b == b'.').filter(|k| *k > 0).unwrap_or(name.len())];
        let t = r.choose(NAMES);
        let mut new = vec![];
        let (cut, by) = match t.find("{s}") {
            Some(k) => ((k, k + 3), stem),
            None => (t.find("{}").map(|k| (k, k + 2)).unwrap_or((0, 0)), name),
        };
        new.extend_from_slice(&t.as_bytes()[..cut.0]);
        new.extend_from_slice(by);
        new.extend_from_slice(&t.as_bytes()[cut.1..]);
        let p = parent.join(OsString::from_vec(new.clone()));
        let has_parent = parent.as_os_str().is_empty() || w.initial.get(parent) == Some(&Node::Dir);
        if !has_parent || new.len() > 255 || w.inputs.iter().any(|y| y.out.as_ref() == Some(&p)) || !taken.insert(p.clone()) {
            continue;
        }
        let text: String = p.as_os_str().as_bytes().iter().map(|b| if b.is_ascii_graphic() && *b != b'%' { (*b as char).to_string() } else { format!("%{b:02x}") }).collect();
        let mut f = obj(vec![("p", s(&text))]);
        if r.one_in(8) {
            f.set("dir", V::B(true));
        } else {
            f.set("text", strs(&[r.pick(&["unrelated", "unrelated", "", "1\n", "12345\n", "{\"a\":1}"]).to_string()]));
            if r.one_in(3) {
                f.set("age", V::I(r.choose(&[0, 10, 100_000, -50, -100_000])));
            }
        }
        files.push(f);
    }
    sc.set("files", V::A(files));
}

/// Names the command writes to, removes or looks for in vain on its way which are no output's: as they
/// might be taken by an unrelated file.
fn way_names(w: &World, r: &Ran) -> BTreeSet<PathBuf> {
    let mut v = BTreeSet::new();
    for o in &r.ops {
        let looked = o.ret < 0 && o.err == 2 && o.inj == "-";
        if !looked && !matches!(o.name.as_str(), "openw" | "rename" | "renameat" | "renameat2" | "unlink" | "unlinkat" | "link" | "linkat" | "symlink" | "mkdir" | "truncate" | "truncate64" | "rmdir") {
            continue;
        }
        let Some(p) = place(&w.initial, Path::new(&OsString::from_vec(o.path.clone())), false) else { continue };
        let parent = p.parent().unwrap_or(Path::new(""));
        let has_parent = parent.as_os_str().is_empty() || w.initial.get(parent) == Some(&Node::Dir);
        let ours = w.inputs.iter().any(|x| x.out.as_ref().is_some_and(|y| y.starts_with(&p)) || place(&w.initial, &x.path, true).is_some_and(|y| y.starts_with(&p)) || x.path.starts_with(&p));
        if has_parent && !ours && p.file_name().is_some_and(|n| n.len() <= 255) && !w.initial.contains_key(&p) {
            v.insert(p);
        }
    }
    v
}

/// Whether a call was about this file, by whatever name.
fn is_at(w: &World, o: &Op, p: &Path) -> bool {
    o.path == p.as_os_str().as_bytes() || place(&w.initial, Path::new(&OsString::from_vec(o.path.clone())), !o.name.starts_with("unlink")).is_some_and(|q| q == p)
}

fn is_output(w: &World, p: &Path) -> bool {
    w.inputs.iter().any(|x| x.out.as_deref() == Some(p))
}

/// Inputs and unrelated files and directories are as before; nothing else appeared, except, with
/// `extras`, files that an interrupted run may leave behind.
fn check_bystanders(w: &World, now: &Tree, extras: bool, ops: &[Op]) -> R {
    for (p, n) in &w.initial {
        if is_output(w, p) && matches!(n, Node::File(_)) {
            continue;
        }
        match now.get(p) {
            Some(m) if m == n => {}
            Some(m) => return bad("bystander-changed", format!("{p:?} changed to {}", match m { Node::Dir => "a directory".into(), Node::Link(t) => format!("a link to {t:?}"), Node::File(d) => show(d) })),
            None => return bad("bystander-removed", format!("{p:?} is gone")),
        }
    }
    for (p, n) in now {
        if w.initial.contains_key(p) || is_output(w, p) {
            continue;
        }
        let parent_of_output = *n == Node::Dir && w.inputs.iter().any(|x| x.out.as_ref().is_some_and(|o| o.starts_with(p) && o != p));
        // the command tried to remove it and the simulator did not let it
        let stuck = ops.iter().any(|q| q.name.starts_with("unlink") && q.ret < 0 && q.inj == "err" && is_at(w, q, p));
        if !parent_of_output && !extras && !stuck {
            return bad("stray-file", format!("{p:?} appeared"));
        }
    }
    Ok(())
}

pub fn run_c03(sc: &V, log: &mut Log) -> R {
    let mut w = world(sc)?;
    let mut names = BTreeSet::new();
    let sx = scratch();
    let mut res = two_phases(sc, log, &w, &sx, |r, faulty, log| {
        if !faulty {
            names = way_names(&w, r);
        }
        check_bystanders(&w, &r.after, false, &r.ops)?;
        if let Some(t) = sx.attributes(&w) {
            return bad("attributes-changed", t);
        }
        let done = done_lines(&r.stdout);
        for x in &w.inputs {
            let Some(o) = &x.out else { continue };
            let old = w.initial.get(o);
            let new = r.after.get(o);
            if old == new {
                continue;
            }
            let is_done = done.iter().any(|d| d.0 == x.path);
            let me = place(&w.initial, &x.path, true).unwrap_or(x.path.clone());
            let unread = !is_done && r.ops.iter().any(|q| q.ret < 0 && q.err != 4 && matches!(q.name.as_str(), "openr" | "read") && is_at(&w, q, &me));
            if x.bad.is_some() || unread {
                return bad(
                    "output-touched",
                    format!("{:?} cannot be read or minified ({}), yet its output {o:?} changed to {}", x.path, x.bad.unwrap_or("read failure"), match new {
                        Some(Node::File(d)) => show(d),
                        Some(Node::Dir) => "a directory".into(),
                        Some(Node::Link(_)) => "a link".into(),
                        None => "nothing".into(),
                    }),
                );
            }
            match new {
                Some(Node::File(d)) => {
                    if !x.fresh.iter().any(|f| f.starts_with(d)) {
                        return bad("output-mixed", format!("{o:?} holds {}, new content is {}", show(d), x.fresh.first().map(|f| show(f)).unwrap_or_default()));
                    }
                }
                Some(Node::Dir | Node::Link(_)) => return bad("output-mixed", format!("{o:?} is no file any more")),
                None => log.probe("output absent after a failure"),
            }
            if !is_done {
                log.probe("output partly written");
            }
        }
        if old_outputs(&w) {
            log.probe("earlier outputs present");
        }
        if (faulty && hard_fired(r) > 0) || w.inputs.iter().any(|x| x.bad.is_some()) {
            log.nontrivial = true;
        }
        Ok(())
    });
    if res.is_ok() && !names.is_empty() && sc.get("taken").bool() {
        // another process at another time finds the names taken
        for p in names {
            w.initial.insert(p, Node::File(b"unrelated".to_vec()));
        }
        log.fault("unrelated file under a name the command uses");
        res = (|| {
            sx.fill(&w);
            let r = sx.run(&w, 12_345, 77, &[], log)?;
            check_bystanders(&w, &r.after, false, &r.ops)?;
            match sx.attributes(&w) {
                Some(t) => bad("attributes-changed", t),
                None => Ok(()),
            }
        })();
    }
    fin(&sx);
    res
}

fn old_outputs(w: &World) -> bool {
    w.inputs.iter().any(|x| x.out.as_ref().is_some_and(|o| matches!(w.initial.get(o), Some(Node::File(_)))))
}

// ---------------------------------------------------------------- C04

pub fn gen_c04(r: &mut Rng, _t: bool) -> V {
    let mut sc = gen_batch(r, 10);
    if r.one_in(3) {
        shadows(r, &mut sc);
    }
    let n = sc.get("inputs").arr().len();
    let mut crashes = vec![];
    for _ in 0..r.choose(&[1, 1, 2, 3]) {
        if r.one_in(8) {
            crashes.push(V::A(vec![oom(r)]));
            continue;
        }
        let act = r.pick(&["before", "after", "torn", "torn"]);
        let sel = if act == "torn" { "write" } else { r.pick(&["any", "any", "openw", "write", "mkdir", "meta", "read", "name"]) };
        let mut c = obj(vec![("act", s(act)), ("sel", s(sel)), ("at", i(r.below(128))), ("k", i(r.choose(&[0, 1, 2, 5, 20, 1000])))]);
        if r.one_in(4) {
            c.set("on", i(r.below(n)));
        }
        let mut one = vec![c];
        if r.one_in(4) {
            one.push(soft_fault(r));
        }
        crashes.push(V::A(one));
    }
    let gaps = crashes.iter().map(|_| V::I(r.choose(&[0, 1, 1, 60, 86_400, -3_600, -90_000]))).collect();
    sc.set("crashes", V::A(crashes));
    sc.set("gaps", V::A(gaps));
    sc
}

pub fn run_c04(sc: &V, log: &mut Log) -> R {
    let w = world(sc)?;
    let sx = scratch();
    let res = (|| {
        sx.fill(&w);
        let base = sx.run(&w, 0, 0, &[], log)?;
        let mut plans = vec![];
        for c in sc.get("crashes").arr() {
            let mut p = resolve(c, &w, &base.ops);
            p.extend(starve(c, &base));
            if !p.is_empty() {
                plans.push(p);
            }
        }
        if plans.is_empty() {
            return Err(Stop::Invalid);
        }
        sx.fill(&w);
        // time passes, or the clock is set back, before the next attempt
        let gaps = big_ints(sc.get("gaps"));
        let mut at = 0;
        for (k, p) in plans.iter().enumerate() {
            let r = sx.run(&w, at, k, p, log)?;
            let gap = gaps.get(k).copied().unwrap_or(1).clamp(-100_000_000, 100_000_000);
            at += gap;
            if gap < 0 {
                log.fault("clock set back");
            } else {
                log.sim_ns += gap as u64 * 1_000_000_000;
            }
            if starved(&r) {
                log.nontrivial = true;
                log.probe(if r.signal.is_some() { "ended for lack of memory" } else { "went on after an allocation failed" });
            }
            if crashed(&r) {
                log.fault("kill");
                log.nontrivial = true;
                if r.ops.last().is_some_and(|o| o.inj == "torn") {
                    log.probe("killed in the middle of a write");
                }
                if !done_lines(&r.stdout).is_empty() {
                    log.probe("killed after some inputs were done");
                }
            }
            check_bystanders(&w, &r.after, true, &r.ops)?;
            check_done(&w, &r)?;
        }
        // the same command again, undisturbed
        let r = sx.run(&w, at, plans.len(), &[], log)?;
        check_bystanders(&w, &r.after, true, &r.ops)?;
        check_done(&w, &r)?;
        for x in &w.inputs {
            let Some(o) = &x.out else { continue };
            if r.after.get(o) != base.after.get(o) {
                let t = |n: Option<&Node>| match n {
                    Some(Node::File(d)) => show(d),
                    Some(Node::Dir) => "a directory".into(),
                    Some(Node::Link(_)) => "a link".into(),
                    None => "nothing".into(),
                };
                return bad("rerun-differs", format!("after the rerun {o:?} holds {}, an undisturbed run leaves {}", t(r.after.get(o)), t(base.after.get(o))));
            }
        }
        note(&w, &r, log);
        Ok(())
    })();
    fin(&sx);
    res
}

// ---------------------------------------------------------------- C05

pub fn gen_c05(r: &mut Rng, _t: bool) -> V {
    if r.one_in(60) {
        let failing = r.pct(90);
        return gen_bulk(r, failing);
    }
    let pct = r.choose(&[0, 0, 20, 50]);
    let mut sc = gen_batch(r, pct);
    let n = sc.get("inputs").arr().len();
    let hard = r.choose(&[0, 0, 1, 1, 2]);
    let soft = if r.one_in(3) { 1 } else { 0 };
    sc.set("faults", gen_faults(r, n, soft, hard));
    if r.one_in(12) {
        let mut v = sc.get("faults").arr().to_vec();
        v.push(obj(vec![("act", s("quota")), ("k", i(r.below(200)))]));
        sc.set("faults", V::A(v));
    }
    if r.one_in(16) {
        let mut v = sc.get("faults").arr().to_vec();
        v.push(oom(r));
        sc.set("faults", V::A(v));
    }
    sc
}

pub fn run_c05(sc: &V, log: &mut Log) -> R {
    let w = world(sc)?;
    let sx = scratch();
    let res = two_phases(sc, log, &w, &sx, |r, faulty, log| {
        let done = done_lines(&r.stdout);
        let mut missing = vec![];
        for x in &w.inputs {
            let complete = x.out.as_ref().is_some_and(|o| matches!(r.after.get(o), Some(Node::File(d)) if x.fresh.contains(d)));
            if x.bad.is_some() || !complete || !done.iter().any(|d| d.0 == x.path) {
                missing.push(format!("{:?} ({})", x.path, x.bad.unwrap_or("disk failure")));
            }
        }
        let ok = r.code == Some(0);
        if ok && !missing.is_empty() {
            return bad("false-success", format!("exit status 0 although {} of {} inputs were not minified: {}", missing.len(), w.inputs.len(), missing.join(", ")));
        }
        if !ok && missing.is_empty() && !(starved(r) && r.signal.is_some()) {
            return bad("false-failure", format!("exit {:?} signal {:?} although every input was minified", r.code, r.signal));
        }
        log.probe(if ok { "status zero" } else { "status not zero" });
        if faulty || !missing.is_empty() {
            log.nontrivial = true;
        }
        Ok(())
    });
    fin(&sx);
    res
}

/// Removes this process's part of the scratch directory.
pub fn leave() {
    if let Some(b) = std::env::var_os("MINSIM_SCRATCH") {
        let d = PathBuf::from(b).join(format!("w{:010}", std::process::id()));
        if d.is_dir() {
            let _ = fs::remove_dir_all(&d);
        }
    }
}

/// A panic message names the thread by a number that differs between processes.
fn no_thread_ids(t: &str) -> String {
    let mut out = String::new();
    for (k, part) in t.split("thread 'main' (").enumerate() {
        if k == 0 {
            out.push_str(part);
        } else {
            out.push_str("thread 'main' (");
            out.push_str(part.trim_start_matches(|c: char| c.is_ascii_digit()));
        }
    }
    out
}
