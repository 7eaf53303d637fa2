//! Workload generators. Texts are produced as lists of pieces so that minimisation can drop pieces.

use crate::json::{obj, s, strs, V};
use crate::rng::Rng;

// ---------------------------------------------------------------- JSON

const WS: &[&str] = &[" ", "\n", "\t", "\r", "\r\n", "  ", "\n\n", " \t "];
const STR_PIECES: &[&str] = &[
    "a", "key", "x y", " ", "  ", "\\\"", "\\\\", "\\\\\\\"", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t",
    "\\u0041", "\\u0022", "\\u005c", "\\ud83d\\ude00", "{", "}", "[", "]", ",", ":", "//", "/*", "'", "\\\" ",
    "\\\\ ", " \\\"", "0", "null", "\u{7f}", "\u{a0}", "\u{85}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{feff}",
    "\u{80}", "\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "é", "ß",
    "日本語", "€", "😀", "𝄞", "e\u{301}", "\u{200b}", "\u{1680}", "\u{fffd}",
];
const ESCAPES: &[&str] = &["\\\"", "\\\\", "\\\\\\\"", "\\/", "\\n", "\\u0022", "\\u005c", "\\t"];
const WIDE: &[&str] = &["é", "€", "😀", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{80}", "日", "\u{a0}", "\u{3000}"];
const NUMS: &[&str] = &["0", "-0", "1", "42", "-7", "0.5", "1e5", "1E+5", "2.5e-3", "123456789012345678901234567890", "-0.0E-0"];

/// What a run's texts look like: drawn once per run.
#[derive(Clone)]
pub struct JsonStyle {
    ws_pct: usize,
    long_ws: bool,
    esc_pct: usize,
    wide_pct: usize,
    max_pieces: usize,
    deep: usize,
}

impl JsonStyle {
    pub fn new(r: &mut Rng) -> JsonStyle {
        JsonStyle {
            ws_pct: r.choose(&[0, 10, 30, 60, 90]),
            long_ws: r.one_in(6),
            esc_pct: r.choose(&[0, 5, 30, 80]),
            wide_pct: r.choose(&[0, 10, 40, 90]),
            max_pieces: r.choose(&[1, 2, 4, 8, 20]),
            deep: r.choose(&[1, 2, 3, 6, 12]),
        }
    }
}

fn json_ws(r: &mut Rng, st: &JsonStyle, out: &mut Vec<String>) {
    if r.pct(st.ws_pct) {
        let w = r.pick(WS);
        if st.long_ws && r.one_in(4) {
            out.push(w.repeat(r.range(2, 60)));
        } else {
            out.push(w.to_string());
        }
    }
}

/// Any character a JSON string may hold, by leading byte, so that every class of encodings is met.
pub fn any_char(r: &mut Rng) -> String {
    if r.one_in(4) {
        let c = (0x20 + r.below(0x60)) as u8 as char;
        return if matches!(c, '"' | '\\') { "a".into() } else { c.to_string() };
    }
    let lead = 0xC2 + r.below(0xF5 - 0xC2) as u32;
    let cont = |r: &mut Rng| r.choose(&[0, 1, 0x1f, 0x20, 0x3e, 0x3f, 0x10, 0x0f, 0x2f, 0x30]) as u32 + if r.one_in(2) { r.below(64) as u32 } else { 0 };
    let mut x = match lead {
        0xC2..=0xDF => lead & 0x1f,
        0xE0..=0xEF => lead & 0x0f,
        _ => lead & 0x07,
    };
    let n = if lead < 0xE0 { 1 } else if lead < 0xF0 { 2 } else { 3 };
    for _ in 0..n {
        x = x << 6 | cont(r) & 0x3f;
    }
    char::from_u32(x).filter(|c| *c as u32 >= 0x80).map_or("ü".into(), |c| c.to_string())
}

fn json_string(r: &mut Rng, st: &JsonStyle, out: &mut Vec<String>) {
    out.push("\"".into());
    let n = r.below(st.max_pieces + 1);
    for _ in 0..n {
        let p = if r.pct(st.esc_pct) {
            if r.one_in(8) { format!("\\u{:04x}", r.below(1 << 16)) } else { r.pick(ESCAPES).to_string() }
        } else if r.one_in(5) {
            any_char(r)
        } else if r.pct(st.wide_pct) {
            r.pick(WIDE).to_string()
        } else {
            r.pick(STR_PIECES).to_string()
        };
        if r.one_in(40) {
            let n = if r.one_in(30) { r.choose(&[127, 255, 256, 257, 512, 1030]) } else { r.range(2, 30) };
            out.push(p.repeat(n));
        } else {
            out.push(p);
        }
    }
    out.push("\"".into());
}

fn json_scalar(r: &mut Rng, st: &JsonStyle, out: &mut Vec<String>) {
    match r.below(10) {
        0 => out.push("true".into()),
        1 => out.push("false".into()),
        2 => out.push("null".into()),
        3 => out.push(r.pick(NUMS).to_string()),
        4 => {
            let digits = |r: &mut Rng| {
                let most = if r.one_in(10) { 60 } else { 5 };
                let n = r.range(1, most);
                (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>()
            };
            let mut n = if r.one_in(3) { "-" } else { "" }.to_string();
            n.push_str(Some(digits(r).trim_start_matches('0')).filter(|x| !x.is_empty()).unwrap_or("0"));
            if r.one_in(3) {
                n.push_str(&format!(".{}", digits(r)));
            }
            if r.one_in(3) {
                n.push_str(&format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), digits(r)));
            }
            out.push(n);
        }
        _ => json_string(r, st, out),
    }
}

fn json_value(r: &mut Rng, st: &JsonStyle, depth: usize, budget: &mut usize, out: &mut Vec<String>) {
    if *budget > 0 {
        *budget -= 1;
    }
    if depth == 0 || *budget == 0 || r.one_in(3) {
        return json_scalar(r, st, out);
    }
    let object = r.pct(50);
    out.push(if object { "{" } else { "[" }.into());
    json_ws(r, st, out);
    let n = r.below(5);
    for k in 0..n {
        if k > 0 {
            out.push(",".into());
            json_ws(r, st, out);
        }
        if object {
            json_string(r, st, out);
            json_ws(r, st, out);
            out.push(":".into());
            json_ws(r, st, out);
        }
        json_value(r, st, depth - 1, budget, out);
        json_ws(r, st, out);
    }
    out.push(if object { "}" } else { "]" }.into());
}

/// A number of things at which counters and buffers have their limits.
fn limit(r: &mut Rng) -> usize {
    let k = match r.below(40) {
        0 => 16,
        1..=3 => r.choose(&[12, 13]),
        4 => return r.choose(&[100, 1000, 10_000]),
        _ => r.choose(&[5, 6, 7, 7, 8, 8, 8, 9, 10, 11]),
    };
    (1 << k) + r.below(4) - 1
}

/// Just so many of one thing.
fn json_many(r: &mut Rng) -> Vec<String> {
    let n = limit(r);
    let (open, unit, close) = match r.below(12) {
        0 => ("\"", "\\\\".to_string(), "\""),
        1 => ("\"", r.pick(ESCAPES).to_string(), "\""),
        2 => ("\"", any_char(r), "\""),
        3 => ("\"", r.pick(WIDE).to_string(), "\""),
        4 => ("[1,", r.pick(WS).to_string(), "2]"),
        5 => ("[0", format!(",{}", r.pick(&["\"\"", "\"a b\"", " 1", "[]", "{}", "null"])), "]"),
        6 => ("{\"\":0", format!(",{}\"{}\" : {}", r.pick(&["", " "]), r.pick(&["k", "", "é", "\\\\"]), r.pick(&["1", "\" \"", "[ ]"])), "}"),
        7 => ("", "1".to_string(), "0"),
        8 => ("-0.", "1".to_string(), ""),
        9 => ("\"", " ".to_string(), "\""),
        10 => ("\"x", r.pick(STR_PIECES).to_string(), "\""),
        _ => {
            let (a, b) = r.choose(&[("[", "]"), ("{\"a\": ", "}"), ("[ ", " ]")]);
            return vec![a.repeat(n), "\" x\"".into(), b.repeat(n)];
        }
    };
    let mut v = vec![open.to_string(), unit.repeat(n), close.to_string()];
    if r.one_in(3) {
        v.insert(0, "[\"a\\\"b\", ".into());
        v.push(" , \" z \"]".into());
    }
    v
}

/// A valid JSON text in pieces.
pub fn json_doc(r: &mut Rng, big: bool) -> Vec<String> {
    if r.one_in(250) {
        return json_many(r);
    }
    let st = JsonStyle::new(r);
    let mut out = vec![];
    json_ws(r, &st, &mut out);
    match r.below(20) {
        0 => {
            // deep nesting
            let n = if r.one_in(30) { r.choose(&[127, 128, 129, 255, 256, 257, 600]) } else { r.range(1, if big { 3000 } else { 60 }) };
            for _ in 0..n {
                out.push("[".into());
                json_ws(r, &st, &mut out);
            }
            json_scalar(r, &st, &mut out);
            for _ in 0..n {
                json_ws(r, &st, &mut out);
                out.push("]".into());
            }
        }
        1 => {
            // one long string around usual buffer sizes
            let n = if big { r.range(1000, 20000) } else { r.range(20, 200) };
            let p = match r.below(4) {
                0 => r.pick(WIDE).to_string(),
                1 => r.pick(STR_PIECES).to_string(),
                2 => any_char(r),
                _ => r.pick(ESCAPES).to_string(),
            };
            out.push("\"".into());
            out.push("a".repeat(r.below(4)));
            for _ in 0..10 {
                out.push(p.repeat(n / 10));
            }
            out.push("\"".into());
        }
        2 | 3 => json_scalar(r, &st, &mut out),
        _ => {
            let mut budget = if big { r.range(100, 2000) } else { r.choose(&[2, 5, 15, 40]) };
            if big {
                out.push("[".into());
                let mut first = true;
                while budget > 1 {
                    if !first {
                        out.push(",".into());
                    }
                    first = false;
                    json_ws(r, &st, &mut out);
                    json_value(r, &st, st.deep, &mut budget, &mut out);
                }
                out.push("]".into());
            } else {
                json_value(r, &st, st.deep, &mut budget, &mut out);
            }
        }
    }
    json_ws(r, &st, &mut out);
    out
}

/// JSON-like text, valid or not: for properties that do not need validity.
pub fn json_soup(r: &mut Rng) -> Vec<String> {
    let n = r.range(0, 30);
    (0..n)
        .map(|_| match r.below(6) {
            0 => r.pick(WS).to_string(),
            1 => r.pick(&["{", "}", "[", "]", ",", ":", "\"", "\"", "\"", "\\"]).to_string(),
            2 => r.pick(WIDE).to_string(),
            3 => r.pick(ESCAPES).to_string(),
            4 => r.pick(&["\u{1}", "\u{b}", "\u{c}", "\u{0}", "\u{1f}", "\u{7f}", "\u{85}"]).to_string(),
            _ => r.pick(STR_PIECES).to_string(),
        })
        .collect()
}

// ---------------------------------------------------------------- CSS

const CSS_SEL: &[&str] = &["a", ".foo", "#id", "ul > li", "a:hover", "p::before", "input[type=\"text\"]", "[a~=b]", "[a|=b]", "[a$='x']", "[a^=b]", "[a*=b]", "a + b", "a ~ b", "*", "h1, h2 ,h3", ".é", "div .x .y", "a:not(.b)", "@font-face", "tr:nth-child(2n + 1)", "*[dir=\"ltr\"]"];
const CSS_DECL: &[&str] = &["color: red", "margin: 0 1px 2em", "width: calc(100% - (2px + 1em))", "background: url(data:image/png;base64,AA==)", "content: \"a b\\\" c\"", "content: 'é'", "color: #fff !important", "--var: { a }", "font-family: \"A B\", serif", "transform: translate(-50%, 1.5px)", "filter: a(b=1)", "width:calc( 1px*2 )", "margin: -1px", "background:url(\"x y.png\") no-repeat"];
const CSS_MISC: &[&str] = &["/* c */", "/*! lic */", "/*! ! */", "/* é */", "@charset \"utf-8\";", "@import url(foo.css);", "@media screen and (max-width: 10px) {", "@media (a:1) and (b:2), print {", "}", "{", ";", " ", "\n", "\t", ">", "$", "\\", "|", "~", "^", "=", "%", ",", "(", ")", "\u{a0}", "/", "*", "\"", "'", "/*"];

/// One token of some length, or so many in a row.
fn css_many(r: &mut Rng) -> Vec<String> {
    let n = limit(r).min(8200);
    let (open, unit, close) = r.choose(&[
        ("/*! ", "l ", "*/"), ("/* ", "c", " */"), ("a{content:\"", "é ", "\"}"), ("a{content:'", "x", "'}"), ("a", "b", "{c:d}"), (".", "é", " {c:d}"),
        ("a{b:c;", "d:e ;", "}"), ("", "a { b : c }\n", ""), ("a,", "b ,", "c{d:e}"), ("a{b:url(", "x", ")}"), ("a{b:", "(", "c}"), ("@media x{", "a{b:c}", "}"),
        ("a{b:", " 1px", "}"), ("", " ", "a{b:c}"), ("a{b:c", "\n", "}"), ("a{b:calc(1px", " + 2px", ")}"),
    ]);
    let mut v = vec![open.to_string(), unit.repeat(n), close.to_string()];
    if r.one_in(3) {
        v.insert(0, "p > q { r : s }".into());
        v.push(" t { u : v }".into());
    }
    v
}

pub fn css_text(r: &mut Rng) -> Vec<String> {
    if r.one_in(150) {
        return css_many(r);
    }
    let mut out = vec![];
    let soup = r.one_in(4);
    for _ in 0..r.range(0, 14) {
        if soup || r.one_in(4) {
            if soup || r.one_in(3) {
                out.push(r.pick(CSS_MISC).to_string());
            } else {
                out.push(r.pick(&["/* c */", "/*! lic */", "@charset \"utf-8\";", "\n", " ", "/*! é ! */"]).to_string());
            }
            continue;
        }
        let media = r.one_in(6);
        if media {
            out.push(r.pick(&["@media screen and (max-width: 10px) {", "@supports (a:b) {", "@media print{"]).to_string());
        }
        out.push(r.pick(CSS_SEL).to_string());
        out.push(r.pick(&[" {", "{", "\n{\n  "]).to_string());
        for _ in 0..r.below(5) {
            out.push(r.pick(CSS_DECL).to_string());
            out.push(r.pick(&[";", " ; ", ";\n  ", "; /* x */ "]).to_string());
        }
        out.push("}".into());
        if media {
            out.push("\n}".into());
        }
        if r.one_in(2) {
            out.push("\n".into());
        }
    }
    out
}

// ---------------------------------------------------------------- JavaScript

const JS_STMT: &[&str] = &[
    "var a = 1;", "let x = 'str', y = \"a b\";", "const z = `t ${ a + 1 } é`;", "function f(a, b) { return a + b; }",
    "if (a == b && c !== d || !e) { x++; } else { y--; }", "for (var i = 0; i < 10; ++i) { continue; }",
    "while (true) { break; }", "do { a -= 1; } while (a >= 0)", "switch (a) { case 1: b(); break; default: c(); }",
    "try { f(); } catch (e) { throw new Error('x'); } finally { g(); }", "var r = /ab+c\\/[a-z/]/gi;",
    "var r2 = /\"\\.x/g;", "x.replace(/\\s/gm, \"\");", "var o = { a: 1, 'b': [1, 2.5, .3, 0x1F, 1e5], c: null, d: undefined };",
    "a = b ? c : d;", "x = y => y * 2;", "typeof a === \"undefined\";", "delete a[b];", "a instanceof B;", "'a' in o;",
    "class A extends B { constructor() { super(); this.x = 1; } static get y() { return 2; } }",
    "\"use strict\";", "x |= 1; y ^= 2; z &= 3; w %= 4; v <<= 1; u >>= 2; t /= 3; s *= 4;",
    "a = b / c / d;", "var π = 3.14;", "async function g() { await h(); }", "yield x;", "return;", "export default a;",
    "import b from 'b';", "void 0;", "a = +b - -c;", "x = y ** 2;", "label: for (;;) { break label; }", "a = (b, c);",
    "var re = /(?:)/u;", "eval('1');", "public_ = private_;", "x = {};", "f`tpl`;", "1..toString();", "a >= b; a <= b; a != b;", "a === b;",
    "/foo/.test(x);", "x = [/a/i, /b/y, /c/s];", "a = false;", "private x; protected y; public z;", "debugger; with (a) { b; }",
    "enum E { A } interface I { } class J implements I { }", "import * as q from \"q\"; export { q };", "var e = `a ${b} c ${`d ${e}`} f`;",
    "x = a > b < c >= d <= e;", "x = a & b | c ^ d, ~e;", "/*! first */ a; /*! second */ b;", "x = {get a() { return 1; }, set a(v) { }};",
];
const JS_MISC: &[&str] = &[
    " ", "\n", "\t", "\r\n", "// line comment\n", "/* block */", "/*! license */", "/** doc */", "/*! é */\n", ";", ",", "(", ")", "{", "}",
    "[", "]", "=", "+", "-", "*", "/", "%", "<", ">", "!", "?", ":", ".", "&", "|", "^", "~", "\"", "'", "`", "\\", "$", "_", "#", "@", "0", "1.", ".5",
    "é", "日", "😀", "\u{2028}", "\u{a0}", "return", "var", "let", "new", "in", "of", "typeof", "else", "${", "\"é\"", "'\\''", "//", "/*",
];

/// One token of some length, or so many in a row.
fn js_many(r: &mut Rng) -> Vec<String> {
    let n = limit(r).min(8200);
    let (open, unit, close) = r.choose(&[
        ("/*! ", "l ", "*/"), ("/* ", "c", " */"), ("x = \"", "é ", "\";"), ("x = '", "\\'", "';"), ("x = `", "a ", "`;"), ("var ", "b", " = 1;"), ("x = /", "a", "/gi;"),
        ("x = 1", "0", ";"), ("x = 0.", "5", ";"), ("", "a = b ;\n", ""), ("f(a", ", b", ");"), ("x = ", "(", "1"), ("", ";", ""), ("", "\n", "a;"), ("x = [", "\"s\", ", "1];"),
        ("x = 1", " + y", ";"), ("", "/*! l */", "a"), ("// ", "c", "\na;"), ("x = [", "/a/g,", "1];"), ("var é", "é", ";"),
    ]);
    let mut v = vec![open.to_string(), unit.repeat(n), close.to_string()];
    if r.one_in(3) {
        v.insert(0, "let p = 'q' ;\n".into());
        v.push("\nif (t) { u ( ) }".into());
    }
    v
}

pub fn js_text(r: &mut Rng) -> Vec<String> {
    if r.one_in(150) {
        return js_many(r);
    }
    let mut out = vec![];
    let soup = r.one_in(4);
    for _ in 0..r.range(0, 14) {
        if soup {
            out.push(r.pick(JS_MISC).to_string());
        } else {
            out.push(r.pick(JS_STMT).to_string());
            if r.one_in(3) {
                out.push(r.pick(&["\n", " ", "\n\n", "// c\n", "/* c */", "/*! l */", "\t"]).to_string());
            }
        }
    }
    out
}

/// A script with many repeated strings, so that aggregation has work to do.
pub fn js_strings(r: &mut Rng, array: &str) -> Vec<String> {
    let words = ["alpha", "betaa", "gamma", "delta", "omega", "sigma", "theta", "kappa"];
    let many = r.one_in(16);
    // more than the tables have room for at first
    let very_many = r.one_in(600);
    let n = if very_many { r.range(900, 1500) } else if many { r.range(25, 140) } else { r.range(2, 24) };
    let rep = if many || very_many { 1 } else { r.range(1, 3) };
    let twins = r.one_in(5);
    let same_len = r.pct(60);
    let pool: Vec<String> = (0..n)
        .map(|i| {
            // in one pair of quotes and in the other
            let i = if twins { i / 2 * 2 } else { i };
            let w = words[i % words.len()];
            let body = if same_len {
                format!("{w} string {:02}", i)
            } else {
                format!("{} {i}", w.repeat(1 + i % 3))
            };
            let body = if r.one_in(12) { format!("é{body}") } else { body };
            if r.one_in(5) {
                format!("'{body}'")
            } else {
                format!("\"{body}\"")
            }
        })
        .collect();
    let mut out = vec![];
    // already existing declarations
    if r.one_in(2) {
        match r.below(4) {
            0 => {
                let k = r.range(0, pool.len().min(4));
                out.push(format!("var {array}=[{}];", pool[..k].join(",")));
            }
            1 => {
                out.push(format!("var r_aa={};", pool[0]));
                if r.one_in(2) {
                    out.push(format!("var r_ba={};", pool[1]));
                }
            }
            2 => {
                for k in 0..r.range(1, 6) {
                    let c = (b'a' + k as u8) as char;
                    let v = if r.one_in(3) { "1".to_string() } else { pool[k % pool.len()].clone() };
                    out.push(format!("{} r_{c}a={v};", r.pick(&["var", "let", "const"])));
                }
            }
            _ => {
                out.push("/*! license */".into());
                out.push(format!("var other=[{}];", pool.join(",")));
            }
        }
    }
    let mut uses: Vec<usize> = vec![];
    for i in 0..n {
        for _ in 0..=rep + r.below(3) {
            uses.push(i);
        }
    }
    // seeded shuffle
    for i in (1..uses.len()).rev() {
        let j = r.below(i + 1);
        uses.swap(i, j);
    }
    for u in uses {
        let p = &pool[u];
        out.push(match r.below(6) {
            0 => format!("var v{u}={p};"),
            1 => format!("f({p});"),
            2 => format!("x[{p}]={p};"),
            3 => format!("var o={{k:{p},{p}:1}};"),
            4 => format!("a+={p}+b;"),
            _ => format!("if(a==={p}){{g({p})}}"),
        });
    }
    out
}

// ---------------------------------------------------------------- HTML

const HTML: &[&str] = &["<html>", "</html>", "<p class=\"a  b\">", "</p>", "  ", "\n", "text é", "<!-- c -->", "<!--[if IE]> x <![endif]-->", "<pre>  keep\n </pre>", "<script> var a = 1; </script>", "<style> a { b : c } </style>", "<br/>", "<textarea> x  y </textarea>", "&amp;", "<", ">", "<a href='x'>", "</a>"];

pub fn html_text(r: &mut Rng) -> Vec<String> {
    (0..r.range(0, 20)).map(|_| r.pick(HTML).to_string()).collect()
}

/// language + text
pub fn any_text(r: &mut Rng) -> V {
    match r.below(3) {
        0 => {
            let t = if r.one_in(4) { json_soup(r) } else { let b = r.one_in(40); json_doc(r, b) };
            obj(vec![("lang", s("json")), ("text", strs(&t))])
        }
        1 => obj(vec![("lang", s("css")), ("text", strs(&css_text(r)))]),
        _ => obj(vec![("lang", s("js")), ("text", strs(&js_text(r)))]),
    }
}

/// A text like this one, with one change.
pub fn broken(r: &mut Rng, t: &[String]) -> Vec<String> {
    let mut t = t.to_vec();
    if !t.is_empty() {
        let k = r.below(t.len());
        match r.below(4) {
            0 => drop(t.remove(k)),
            1 => {
                // another character of the same width
                let swap = |c: char| if c == 'a' { 'b' } else if c.is_ascii_alphanumeric() { 'a' } else { c };
                t[k] = t[k].chars().map(swap).collect();
            }
            2 => t.insert(k, r.pick(&["/*", "*/", "\"", " ", "{", "}", "'"]).to_string()),
            _ => {
                let j = r.below(t.len());
                t.swap(k, j);
            }
        }
    }
    t
}
