//! C21: JavaScript plugins, explored by running the binary on enumerated programs.

use crate::cli::*;
use crate::cli_props::fresh;
use crate::core_props::{bodies, product, section, seqs};
use crate::json::{self, V};
use crate::model::{err, Arg, Exec, Env, Fail, Files, PluginCall, Plugins, T, R};
use crate::plugins::{place, PLACES};
use crate::rt::{hash, Case, Outcome, Rt, Shard, Tier};
use crate::site::{files_json, json_files, Mode, Site, MD, ROOT};
use std::cell::Cell;
use std::rc::Rc;

/// What `text(i)` returns, as JavaScript and as the text which has to be output (None: nothing).
const TEXTS: [(&str, Option<&str>); 19] = [
    ("undefined", None),
    ("null", Some("null")),
    ("\"\"", Some("")),
    ("\"s\"", Some("s")),
    ("0", Some("0")),
    ("-0", Some("0")),
    ("1.5", Some("1.5")),
    ("-7", Some("-7")),
    ("1e21", Some("1e+21")),
    ("true", Some("true")),
    ("false", Some("false")),
    ("[]", Some("")),
    ("[1,[2,\"x\"]]", Some("1,2,x")),
    ("{}", Some("[object Object]")),
    ("\"é😀{{ $x }}<b>\\\\{{ }}\"", Some("é😀{{ $x }}<b>\\{{ }}")),
    ("{ toString: () => \"own\" }", Some("own")),
    ("\"a\\nb\\r\\n\\tc\\u0000d\"", Some("a\nb\r\n\tc\0d")),
    ("void 0", None),
    ("\"x\".repeat(70000)", Some("LONG")),
];

const FUNCTIONS: &str = r#"
    { name: "show", fn: (...a) => JSON.stringify(a) },
    { name: "set", fn: (k, v) => { STUART.set(k, v); } },
    { name: "get", fn: (k) => { const v = STUART.get(k); return v === undefined ? "undefined" : JSON.stringify(v); } },
    { name: "text", fn: (i) => table[i] },
    { name: "count", fn: function () { return ++n; } },
    { name: "who", fn: () => own + globalThis.shared + typeof globalThis.other },
    { name: "boom", fn: () => { throw new Error("x"); } },
    { name: "late", fn: (k) => { STUART.set(k, "late"); throw "x"; } },
    { name: "swap", fn: (a, b) => { const x = STUART.get(a), y = STUART.get(b); STUART.set(a, y); STUART.set(b, x); return JSON.stringify(STUART.get(a)) + "/" + JSON.stringify(y); } },
    { name: "exch", fn: (a, b) => { const x = STUART.get(a), y = STUART.get(b); STUART.set(a, y); STUART.set(b, x); } },
    { name: "own", fn: (k) => { const v = STUART.get(k); if (v !== null && typeof v === "object") { v.added = 1; v[0] = "changed"; } } },
    { name: "end", fn: () => "END" },
    { name: "else", fn: () => "ELSE" },
    { name: "for", fn: () => "FOR" },
    { name: "begin", fn: (a) => "BEGIN" + a },
    { name: "ifeq", fn: (a, b) => "IFEQ" + (a === b) }
"#;

/// The two plugins: same functions, different state.
fn scripts() -> Files {
    let mut f = Files::new();
    let table: Vec<&str> = TEXTS.iter().map(|t| t.0).collect();
    for (p, start, evil) in [("p", 0, ""), ("q", 100, "globalThis.other = 1;\nArray.prototype.toString = () => \"evil\";\nObject.prototype.toJSON = undefined;\nJSON.parse = () => \"evil\";\n")] {
        f.insert(
            format!("{}.mjs", p),
            format!("let n = {};\nconst own = \"{}\";\nglobalThis.shared = own;\n{}const table = [{}];\nexport default {{ name: \"{}\", version: \"1.0.0\", functions: [{}] }};\n", start, p, evil, table.join(", "), p, FUNCTIONS).into_bytes(),
        );
    }
    let mut toml = Conf { strip: Some(false), ..Default::default() }.toml();
    toml.push_str("\n[dependencies]\np = \"./p.mjs\"\nq = \"./q.mjs\"\n");
    f.insert("stuart.toml".into(), toml.into_bytes());
    f
}

fn key(args: &[V]) -> Option<String> {
    args.first().and_then(|v| v.str()).map(|s| s.to_string())
}

/// What the plugins mean.
fn model() -> Plugins {
    let mut p = Plugins::default();
    for (plugin, start) in [("p", 0u32), ("q", 100)] {
        let n = Rc::new(Cell::new(start));
        for f in ["show", "set", "get", "text", "count", "who", "boom", "late", "swap", "own", "end", "else", "for", "begin", "ifeq"] {
            let n = n.clone();
            let call: Box<PluginCall> = Box::new(move |c, x: &mut Exec, env: &mut Env, out: &mut Vec<u8>, t: &T| -> R<()> {
                let mut args = vec![];
                for a in &c.pos {
                    args.push(match a {
                        Arg::Str(s) => V::s(s),
                        Arg::Int(i) => V::Num(*i as f64),
                        Arg::Var(v) => match env.lookup(v) {
                            Some(v) => v,
                            None => return err(x.at(t), "undefined argument"),
                        },
                        Arg::Ident(_) => return err(x.at(t), "argument without a value"),
                    });
                }
                let set = |env: &mut Env, k: &str, v: V| {
                    let s = env.scopes.last_mut().unwrap();
                    match s.iter_mut().find(|(n, _)| n == k) {
                        Some(e) => e.1 = v,
                        None => s.push((k.to_string(), v)),
                    }
                };
                let text = match f {
                    "show" => V::Arr(args).print(),
                    "set" => {
                        let (Some(k), Some(v)) = (key(&args), args.get(1)) else { return Err(Fail::Unspec("set")) };
                        set(env, &k, v.clone());
                        return Ok(());
                    }
                    "get" => {
                        let Some(k) = key(&args) else { return Err(Fail::Unspec("get")) };
                        env.lookup(&k).map(|v| v.print()).unwrap_or("undefined".into())
                    }
                    "text" => {
                        let Some(V::Num(i)) = args.first() else { return Err(Fail::Unspec("text")) };
                        match TEXTS.get(*i as usize) {
                            Some((_, Some("LONG"))) => "x".repeat(70000),
                            Some((_, Some(t))) if plugin == "q" && t.contains(',') => return Err(Fail::Unspec("evil")),
                            Some((js, Some(t))) => {
                                if plugin == "q" && js.starts_with('[') {
                                    return Err(Fail::Unspec("evil"));
                                }
                                t.to_string()
                            }
                            _ => return Ok(()),
                        }
                    }
                    "count" => {
                        n.set(n.get() + 1);
                        n.get().to_string()
                    }
                    "who" => format!("{}{}{}", plugin, plugin, if plugin == "q" { "number" } else { "undefined" }),
                    "boom" | "late" => return err(x.at(t), "exception"),
                    "swap" => {
                        let (Some(a), Some(b)) = (key(&args), args.get(1).and_then(|v| v.str()).map(|s| s.to_string())) else { return Err(Fail::Unspec("swap")) };
                        let (Some(v), Some(w)) = (env.lookup(&a), env.lookup(&b)) else { return Err(Fail::Unspec("swap of undefined")) };
                        set(env, &a, w.clone());
                        set(env, &b, v.clone());
                        format!("{}/{}", if a == b { &v } else { &w }.print(), w.print())
                    }
                    "own" => return Ok(()),
                    "end" => "END".into(),
                    "else" => "ELSE".into(),
                    "for" => "FOR".into(),
                    "begin" => match key(&args) {
                        Some(k) => format!("BEGIN{}", k),
                        None => return Err(Fail::Unspec("begin")),
                    },
                    _ => format!("IFEQ{}", args.len() > 1 && args[0] == args[1]),
                };
                out.extend_from_slice(text.as_bytes());
                Ok(())
            });
            p.calls.push((vec![f.to_string(), format!("{}::{}", plugin, f)], call));
        }
    }
    p
}

/// Several sites in one build, each a set of content files in a directory of its own.
struct Programs {
    sites: Vec<Files>,
}

fn all_files(sites: &[(usize, &Files)]) -> Files {
    let mut f = scripts();
    for (i, s) in sites {
        for (k, d) in at(s, *i) {
            f.insert(format!("content/{}", k), d);
        }
    }
    f
}

/// The files of a site in the directory of its own, to which `@` stands for in its text.
fn at(f: &Files, i: usize) -> Files {
    let dir = format!("{}/", i);
    f.iter().map(|(k, d)| (format!("{}{}", dir, k), String::from_utf8(d.clone()).unwrap().replace('@', &dir).into_bytes())).collect()
}

impl Programs {
    fn build(&self, rt: &mut Rt, pick: &[usize]) -> (Want, Run, Files) {
        let list: Vec<(usize, &Files)> = pick.iter().map(|i| (*i, &self.sites[*i])).collect();
        let files = all_files(&list);
        let conf = Conf { strip: Some(false), ..Default::default() };
        let env = vec![("STUART_ENV".to_string(), "production".to_string())];
        let w = want(&files, &[], &Files::new(), &conf, &env, &model());
        let (_, p) = fresh(rt);
        write_all(&p, &files);
        let r = stuart(rt, &p, &["build"]);
        (w, r, snapshot(&p.join("dist")))
    }
    fn model(f: &Files, i: usize) -> R<Files> {
        let env = vec![("STUART_ENV".to_string(), "production".to_string())];
        crate::model::build_dirs(&at(f, i), &[], &env, &model())
    }
}

impl Case for Programs {
    fn json(&self) -> V {
        V::Obj(vec![("sites".into(), V::Arr(self.sites.iter().map(files_json).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        crate::model::STEPS.with(|s| s.set(0));
        let mut o = Outcome { class: Some("programs"), ..Default::default() };
        let mut good = vec![];
        let mut wrong = vec![];
        for (i, f) in self.sites.iter().enumerate() {
            match Self::model(f, i) {
                Ok(x) => {
                    o.states.push(hash(format!("{:?}", x).as_bytes()));
                    good.push(i);
                }
                Err(Fail::Err { why, .. }) => {
                    o.states.push(hash(why.as_bytes()));
                    wrong.push(i);
                }
                Err(Fail::Unspec(_)) => (),
            }
        }
        o.traces = (good.len() + wrong.len()) as u64;
        if !good.is_empty() {
            rt.beat();
            let (w, r, dist) = self.build(rt, &good);
            let mut bad = r.orderly();
            match &w {
                Want::Ok(e) if bad.is_none() => bad = if r.ok() { check_output(e, &dist) } else { Some(format!("valid pages fail to build: {}", r.plain_err())) },
                Want::Ok(_) => (),
                x => panic!("programs which are valid alone are not together: {:?}", x),
            }
            if let Some(b) = bad {
                // find one which fails alone
                for i in &good {
                    rt.beat();
                    let (w, r, dist) = self.build(rt, &[*i]);
                    let Want::Ok(e) = &w else { unreachable!() };
                    let b = match r.orderly() {
                        None if r.ok() => check_output(e, &dist),
                        None => Some(format!("a valid page fails to build: {}", r.plain_err())),
                        b => b,
                    };
                    if let Some(b) = b {
                        o.viol = Some((files_json(&self.sites[*i]).print(), cut(&b)));
                        return o;
                    }
                }
                o.viol = Some((format!("together {}", hash(self.json().print().as_bytes())), format!("wrong only when built together: {}", cut(&b))));
                return o;
            }
        }
        for i in wrong {
            rt.beat();
            let (_, r, _) = self.build(rt, &[i]);
            let b = match r.orderly() {
                None if r.ok() => Some("an invalid page builds".to_string()),
                b => b,
            };
            if let Some(b) = b {
                o.viol = Some((files_json(&self.sites[i]).print(), cut(&b)));
                return o;
            }
        }
        o.steps = crate::model::STEPS.with(|s| s.get()).max(1);
        o
    }
}

fn cut(s: &str) -> String {
    s.chars().take(2000).collect()
}

/// Values which go into JavaScript and come back.
struct Values {
    list: Vec<V>,
}

impl Case for Values {
    fn json(&self) -> V {
        V::Obj(vec![("values".into(), V::Arr(self.list.clone()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: self.list.len() as u64, steps: 6 * self.list.len() as u64, class: Some("values"), ..Default::default() };
        let mut page = String::from("{{ import($v, \"v.json\") }}");
        for i in 0..self.list.len() {
            // passed as an argument, read, set and read in several ways
            page += &format!("{{{{ p::show($v.{i}) }}}}\n{{{{ p::get(\"v.{i}\") }}}}\n{{{{ p::set(\"w\", $v.{i}) }}}}{{{{ q::get(\"w\") }}}}\n{{{{ p::own(\"w\") }}}}{{{{ p::show(\"a\", $w, 2) }}}}\n{{{{ for($k, \"one.json\") }}}}{{{{ q::set(\"w\", $v.{i}) }}}}{{{{ q::show($w) }}}}\n{{{{ end(for) }}}}{{{{ p::set(\"w\", 1) }}}}{{{{ q::set(\"u\", $v.{i}) }}}}{{{{ p::exch(\"w\", \"u\") }}}}{{{{ q::show($w, $u) }}}}\n{{{{ p::set(\"w\", 1) }}}}{{{{ p::get(\"w\") }}}}\n");
        }
        let (_, p) = fresh(rt);
        write_all(&p, &scripts());
        put(&p, "content/root.html", ROOT.as_bytes());
        put(&p, "content/v.json", V::Arr(self.list.clone()).print().as_bytes());
        put(&p, "content/one.json", b"[1]");
        put(&p, "content/p.html", section(&page).as_bytes());
        let r = stuart(rt, &p, &["build"]);
        let mut bad = r.orderly();
        let mut key = "build".to_string();
        if bad.is_none() && !r.ok() {
            bad = Some(format!("the page fails to build: {}", r.plain_err()));
        }
        if bad.is_none() {
            let got = std::fs::read_to_string(p.join("dist/p.html")).unwrap_or_default();
            let lines: Vec<&str> = got.lines().collect();
            'all: for (i, v) in self.list.iter().enumerate() {
                let one = V::Arr(vec![v.clone()]);
                let three = V::Arr(vec![V::s("a"), v.clone(), V::Num(2.0)]);
                let number = V::Num(1.0);
                let two = V::Arr(vec![v.clone(), number.clone()]);
                let want = [&one, v, v, &three, &one, &two, &number];
                for (k, w) in want.iter().enumerate() {
                    let line = lines.get(i * want.len() + k).copied().unwrap_or("");
                    let ok = json::parse(line).is_ok_and(|g| g.same(w));
                    o.states.push(hash(line.as_bytes()));
                    if !ok {
                        key = v.print();
                        bad = Some(format!("step {}: {:?} instead of {}", k, line, w.print()));
                        break 'all;
                    }
                }
            }
        }
        o.viol = bad.map(|b| (key, cut(&b)));
        o
    }
}

/// Values which scripts construct: JavaScript and the JSON it stands for (None: not expressible).
struct Made {
    list: Vec<(String, V)>,
}

impl Case for Made {
    fn json(&self) -> V {
        V::Obj(vec![("made".into(), V::Arr(self.list.iter().map(|(j, v)| V::Arr(vec![V::s(j), v.clone()])).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: self.list.len() as u64, steps: 3 * self.list.len() as u64, class: Some("constructed values"), ..Default::default() };
        let mut page = String::new();
        for i in 0..self.list.len() {
            page += &format!("{{{{ make({i}) }}}}{{{{ show($w) }}}}\n{{{{ ifeq(1, 1) }}}}{{{{ make({i}) }}}}{{{{ get(\"w\") }}}}{{{{ end(ifeq) }}}}\n{{{{ lit({i}) }}}}\n");
        }
        let (_, p) = fresh(rt);
        let mut files = scripts();
        let l: Vec<String> = self.list.iter().map(|x| format!("() => ({})", x.0)).collect();
        files.insert(
            "p.mjs".into(),
            format!(
                "const l = [{}];\nexport default {{ name: \"p\", version: \"1\", functions: [{{ name: \"make\", fn: (i) => {{ STUART.set(\"w\", l[i]()) }} }}, {{ name: \"lit\", fn: (i) => {{ STUART.set(\"x\", 0); STUART.set(\"x\", l[i]()); return JSON.stringify(STUART.get(\"x\")); }} }}, {{ name: \"show\", fn: (v) => JSON.stringify(v) }}, {{ name: \"get\", fn: (k) => JSON.stringify(STUART.get(k)) }}] }};\n",
                l.join(",\n")
            )
            .into_bytes(),
        );
        let mut toml = Conf { strip: Some(false), ..Default::default() }.toml();
        toml.push_str("\n[dependencies]\np = \"./p.mjs\"\n");
        files.insert("stuart.toml".into(), toml.into_bytes());
        write_all(&p, &files);
        put(&p, "content/root.html", ROOT.as_bytes());
        put(&p, "content/p.html", section(&page).as_bytes());
        let r = stuart(rt, &p, &["build"]);
        let mut bad = r.orderly();
        let mut key = "build".to_string();
        if bad.is_none() && !r.ok() {
            bad = Some(format!("the page fails to build: {}", r.plain_err()));
        }
        if bad.is_none() {
            let got = std::fs::read_to_string(p.join("dist/p.html")).unwrap_or_default();
            let lines: Vec<&str> = got.lines().collect();
            for (i, (js, v)) in self.list.iter().enumerate() {
                for k in 0..3 {
                    let line = lines.get(i * 3 + k).copied().unwrap_or("");
                    o.states.push(hash(line.as_bytes()));
                    if bad.is_none() && !json::parse(line).is_ok_and(|g| g.same(v)) {
                        key = js.clone();
                        bad = Some(format!("{} set as a variable is {:?} instead of {}", js, line, v.print()));
                    }
                }
            }
        }
        o.viol = bad.map(|b| (key, cut(&b)));
        o
    }
}

/// Functions which are called in ways that must not end the build in a disorderly manner.
struct Odd {
    body: String,
}

impl Case for Odd {
    fn json(&self) -> V {
        V::Obj(vec![("odd".into(), V::s(&self.body))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, steps: 1, class: Some("odd script"), ..Default::default() };
        let (_, p) = fresh(rt);
        let mut toml = Conf::default().toml();
        toml.push_str("\n[dependencies]\np = \"./p.mjs\"\n");
        put(&p, "stuart.toml", toml.as_bytes());
        put(&p, "p.mjs", self.body.as_bytes());
        put(&p, "content/root.html", ROOT.as_bytes());
        put(&p, "content/p.html", section("{{ f(\"x\") }}").as_bytes());
        let r = stuart(rt, &p, &["build"]);
        o.states.push(hash(format!("{:?}{}", r.code, r.plain_err()).as_bytes()));
        let mut bad = r.orderly();
        if bad.is_none() && r.ok() {
            bad = Some("the build succeeds".into());
        }
        o.viol = bad.map(|b| (self.body.clone(), cut(&b)));
        o
    }
}

/// A plugin with n functions which are all called, with n arguments and with texts of n characters.
struct Sized {
    n: usize,
}

impl Case for Sized {
    fn json(&self) -> V {
        V::Obj(vec![("size".into(), V::Num(self.n as f64))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let n = self.n;
        let few = n.min(1100);
        let mut o = Outcome { traces: 1, steps: few as u64 + 4, class: Some("sizes"), ..Default::default() };
        let (_, p) = fresh(rt);
        let mut toml = Conf { strip: Some(false), ..Default::default() }.toml();
        toml.push_str("\n[dependencies]\np = \"./p.mjs\"\n");
        put(&p, "stuart.toml", toml.as_bytes());
        let fns: String = (0..few).map(|i| format!("{{ name: \"f{}\", fn: (x) => \"<{} \" + x + \">\" }},\n", i, i)).collect();
        let body = format!(
            "/*{}*/\nexport default {{ name: \"p\", version: \"1\", functions: [{} {{ name: \"count\", fn: (...a) => a.length + \":\" + a.join(\",\") }}, {{ name: \"len\", fn: (s) => s.length + s }}, {{ name: \"rep\", fn: (k) => \"é\".repeat(k) }}, {{ name: \"sets\", fn: (k) => {{ for (let i = 0; i < k; i++) STUART.set(\"v\" + i, i + \"!\") }} }}] }};\n",
            "c".repeat(n), fns
        );
        put(&p, "p.mjs", body.as_bytes());
        put(&p, "content/root.html", ROOT.as_bytes());
        let args: Vec<String> = (0..few).map(|i| i.to_string()).collect();
        let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let mut page: String = (0..few).map(|i| format!("{{{{ f{}({}) }}}}", i, i * 3)).collect();
        page += &format!("|{{{{ count({}) }}}}|{{{{ p::len(\"{}\") }}}}|{{{{ rep({}) }}}}|{{{{ sets({}) }}}}", args.join(", "), s, n, few);
        page += &(0..few).map(|i| format!("{{{{ $v{} }}}}", i)).collect::<String>();
        put(&p, "content/p.html", section(&page).as_bytes());
        let mut want: String = (0..few).map(|i| format!("<{} {}>", i, i * 3)).collect();
        want += &format!("|{}:{}|{}{}|{}|", few, args.join(","), n, s, "é".repeat(n));
        want += &(0..few).map(|i| format!("{}!", i)).collect::<String>();
        let r = stuart(rt, &p, &["build"]);
        let mut bad = r.orderly();
        if bad.is_none() && !r.ok() {
            bad = Some(format!("the page fails to build: {}", r.plain_err()));
        }
        if bad.is_none() {
            let got = std::fs::read_to_string(p.join("dist/p.html")).unwrap_or_default();
            o.states.push(hash(got.as_bytes()));
            if got != want {
                let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let near = |x: &str| String::from_utf8_lossy(&x.as_bytes()[at.min(x.len())..(at + 60).min(x.len())]).into_owned();
                bad = Some(format!("size {}: the page differs at byte {}: {:?} instead of {:?}", n, at, near(&got), near(&want)));
            }
        }
        o.viol = bad.map(|b| (format!("size {}", n), cut(&b)));
        o
    }
}

pub fn c21_json(v: &V) -> Box<dyn Case> {
    if let Some(V::Num(n)) = v.get("size") {
        return Box::new(Sized { n: *n as usize });
    }
    if let Some(b) = v.get("odd") {
        return Box::new(Odd { body: b.str().unwrap().into() });
    }
    if let Some(l) = v.get("values") {
        return Box::new(Values { list: l.arr().unwrap().to_vec() });
    }
    if let Some(l) = v.get("made") {
        return Box::new(Made { list: l.arr().unwrap().iter().map(|x| (x.arr().unwrap()[0].str().unwrap().to_string(), x.arr().unwrap()[1].clone())).collect() });
    }
    Box::new(Programs { sites: v.get("sites").and_then(|s| s.arr()).unwrap_or(&[]).iter().map(json_files).collect() })
}

pub fn c21_bounds(t: Tier) -> String {
    format!(
        "every JSON value of depth <= {} over 18 atoms and 9 keys through 7 exchanges; every value constructed of 13 JavaScript atoms to depth 2; 19 results x 14 positions; every sequence of <= {} of 20 operations on variables, state and blocks of two plugins; two calls at all gaps of every block tree of <= {} blocks; {} scripts which throw; sizes (functions, arguments, variables, texts, scripts) up to 100000; every scalar value in strings and keys, {} characters alone in arguments, names, variables and scripts; 1372 numbers around the powers of 2 and 10",
        t.pick(2, 3),
        t.pick(4, 5),
        t.pick(2, 3),
        odd().len(),
        crate::chars::few(t).len()
    )
}

fn odd() -> Vec<String> {
    let f = |b: &str| format!("export default {{ name: \"p\", version: \"1\", functions: [{{ name: \"f\", fn: {} }}] }};\n", b);
    let mut v: Vec<String> = [
        "() => { throw new Error(\"x\") }",
        "() => { throw \"s\" }",
        "() => { throw undefined }",
        "() => { throw null }",
        "() => { throw {} }",
        "() => { throw Symbol() }",
        "() => { throw { toString() { throw 1 } } }",
        "() => nope",
        "() => null.x",
        "(a) => a()",
        "() => { function g() { return g() + 1 } return g() }",
        "() => { STUART.nope() }",
        "() => { STUART.set(\"v\", { get a() { throw 1 } }); throw 2 }",
        "(a) => JSON.parse(a)",
        "() => new Array(-1)",
        "() => { throw new TypeError(\"é😀\\n\\n\") }",
        "function () { \"use strict\"; undeclared = 1 }",
        "() => 1n + 1",
        "() => decodeURIComponent(\"%\")",
        "class {}",
    ]
    .iter()
    .map(|b| f(b))
    .collect();
    // scripts which do not load
    for s in ["", "export default {", "throw 1", "throw new Error(\"x\")", "export const a = 1;", "export default null;", "export default undefined;", "export default 1;", "import \"./none.mjs\"; export default {};", "export default { name: \"p\", version: \"1\" };"] {
        v.push(s.into());
    }
    for fns in ["null", "undefined", "[null]", "[undefined]", "[{}]", "[{ name: \"f\" }]", "[{ name: \"f\", fn: 1 }]", "[{ name: \"f\", fn: null }]", "[{ fn: () => 1 }]", "[{ name: \"g\", fn: () => 1 }]", "[]", "{}"] {
        v.push(format!("export default {{ name: \"p\", version: \"1\", functions: {} }};\n", fns));
    }
    v
}

pub fn c21(s: &mut Shard) {
    // values
    let atoms: Vec<V> = vec![
        V::Null, V::Bool(true), V::Bool(false), V::Num(0.0), V::Num(1.0), V::Num(-7.0), V::Num(1.5), V::Num(1e21), V::Num(9007199254740991.0), V::Num(-0.000001), V::Num(2147483647.0), V::Num(2147483648.0), V::Num(4294967295.0), V::Num(4294967296.0), V::Num(-2147483648.0), V::Num(-2147483649.0), V::s(""), V::s("a"), V::s("é😀"), V::s("\"\\\n\u{0}\u{2028}"), V::s("{{ $v }}\\{{"), V::Arr(vec![]), V::Obj(vec![]),
    ];
    let keys = ["a", "", "é", "__proto__", "constructor", "length", "0", "toString", "a.b"];
    let grow = |inner: &[V]| -> Vec<V> {
        let mut v = vec![];
        for a in inner {
            v.push(V::Arr(vec![a.clone()]));
            for k in keys {
                v.push(V::Obj(vec![(k.into(), a.clone())]));
            }
            for b in &atoms {
                v.push(V::Arr(vec![a.clone(), b.clone()]));
                v.push(V::Obj(vec![("z".into(), a.clone()), ("0".into(), b.clone())]));
                v.push(V::Obj(vec![("b".into(), b.clone()), ("a".into(), a.clone())]));
            }
        }
        v
    };
    let one = grow(&atoms);
    let mut all = atoms.clone();
    all.extend(one.iter().cloned());
    let two: Vec<V> = grow(&one).into_iter().enumerate().filter(|(i, _)| s.tier != Tier::Quick || i % 64 < 10).map(|x| x.1).collect();
    all.extend(two);
    all.push(V::Arr((0..300).map(|i| V::Num(i as f64)).collect()));
    all.push(V::Obj((0..300).map(|i| (format!("k{}", i), V::Num(i as f64))).collect()));
    let mut deep = V::s("bottom");
    for i in 0..60 {
        deep = if i % 2 == 0 { V::Arr(vec![deep]) } else { V::Obj(vec![("d".into(), deep)]) };
    }
    all.push(deep);
    for c in all.chunks(400) {
        s.one(&Values { list: c.to_vec() });
    }
    // sizes
    for n in crate::ladders::lengths(s.tier) {
        s.one(&Sized { n });
        let text: String = (0..n).map(|i| ['a', 'é', '😀', '"'][(i * i + i / 4) % 4]).collect();
        let mut list = vec![V::s(&text), V::Obj(vec![(text, V::Bool(true))])];
        if n <= 1025 {
            list.push(V::Arr((0..n).map(|i| V::Num(i as f64)).collect()));
            list.push(V::Obj((0..n).map(|i| (format!("k{}", (i * 7) % 1031), V::s("v"))).collect()));
        }
        if n <= 100 {
            list.push((0..n).fold(V::s("bottom"), |d, i| if i % 2 == 0 { V::Arr(vec![d]) } else { V::Obj(vec![("d".into(), d)]) }));
        }
        s.one(&Values { list });
    }
    // characters
    for b in crate::chars::blocks(s.tier) {
        let x: String = b.into_iter().collect();
        s.one(&Values { list: vec![V::s(&x), V::Obj(vec![(x, V::Null)])] });
    }
    let alone: Vec<char> = crate::chars::few(s.tier).into_iter().filter(|c| *c != '"').collect();
    for c in alone.chunks(128) {
        let mut t = String::from("{{ p::set(\"v\", \"0\") }}");
        for c in c {
            t += &format!("{{{{ p::show(\"{c}\", \"a{c}b\") }}}}{{{{ p::set(\"v\", \"{c}\") }}}}{{{{ $v }}}}{{{{ q::get(\"v\") }}}}{{{{ q::begin(\"{c}x\") }}}}{{{{ p::get(\"{c}\") }}}}\n");
        }
        let mut f = Files::new();
        f.insert("p.html".into(), section(&t).into_bytes());
        f.insert("root.html".into(), ROOT.as_bytes().to_vec());
        s.one(&Programs { sites: vec![f] });
        // the same characters from scripts, written in three ways
        let mut made = vec![];
        for c in c {
            let mut u = [0u16; 2];
            let hex: String = c.encode_utf16(&mut u).iter().map(|u| format!("\\u{:04x}", u)).collect();
            made.push((format!("\"{}\"", hex), V::s(&c.to_string())));
            made.push((format!("String.fromCodePoint({})", *c as u32), V::s(&c.to_string())));
            made.push((format!("{{ \"a{}\": \"{}b\" }}", hex, hex), V::Obj(vec![(format!("a{}", c), V::s(&format!("{}b", c)))])));
            if !matches!(c, '\n' | '\r' | '\\' | '\0') {
                made.push((format!("\"<{}>\"", c), V::s(&format!("<{}>", c))));
            }
        }
        s.one(&Made { list: made });
    }
    let mut nums: Vec<V> = vec![];
    for e in -30..=30 {
        for m in ["1", "-1", "1.5", "9.999999999999999", "123456789", "-7.25", "0.1"] {
            nums.push(V::Num(format!("{}e{}", m, e).parse().unwrap()));
        }
    }
    for b in 0..=62u32 {
        for d in -2..=2i64 {
            nums.push(V::Num(((1i64 << b) + d) as f64));
            nums.push(V::Num(-((1i64 << b) + d) as f64));
            nums.push(V::Num((((1i64 << b) + d) as f64) / 8.0));
        }
    }
    for c in nums.chunks(250) {
        s.one(&Values { list: c.to_vec() });
    }
    let made: Vec<(String, V)> = nums.iter().map(|v| (v.print(), v.clone())).collect();
    for c in made.chunks(250) {
        s.one(&Made { list: c.to_vec() });
    }
    // constructed values
    let js: [(&str, Option<V>); 13] = [
        ("1", Some(V::Num(1.0))),
        ("\"s\"", Some(V::s("s"))),
        ("null", Some(V::Null)),
        ("undefined", None),
        ("() => 1", None),
        ("Symbol(\"y\")", None),
        ("true", Some(V::Bool(true))),
        ("-0.5", Some(V::Num(-0.5))),
        ("[]", Some(V::Arr(vec![]))),
        ("{}", Some(V::Obj(vec![]))),
        ("[undefined, 2]", Some(V::Arr(vec![V::Null, V::Num(2.0)]))),
        ("{ u: undefined, d: 3 }", Some(V::Obj(vec![("d".into(), V::Num(3.0))]))),
        ("class {}", None),
    ];
    let mut made: Vec<(String, V)> = vec![];
    let jskeys = ["a", "\"\"", "1", "\"x y\"", "é"];
    let names = ["a", "", "1", "x y", "é"];
    for (a, v) in &js {
        if let Some(v) = v {
            made.push((a.to_string(), v.clone()));
        }
        for (b, w) in &js {
            let arr = |x: &Option<V>| x.clone().unwrap_or(V::Null);
            made.push((format!("[{}, {}]", a, b), V::Arr(vec![arr(v), arr(w)])));
            made.push((format!("[[{}], {{ k: {} }}]", a, b), V::Arr(vec![V::Arr(vec![arr(v)]), V::Obj(w.iter().map(|w| ("k".to_string(), w.clone())).collect())])));
            for k in 0..jskeys.len() {
                for l in 0..jskeys.len() {
                    if k != l {
                        let mut o = vec![];
                        if let Some(v) = v {
                            o.push((names[k].to_string(), v.clone()));
                        }
                        if let Some(w) = w {
                            o.push((names[l].to_string(), w.clone()));
                        }
                        made.push((format!("{{ {}: {}, {}: {} }}", jskeys[k], a, jskeys[l], b), V::Obj(o)));
                    }
                }
            }
        }
    }
    for (j, v) in [
        ("[1, , 3]", V::Arr(vec![V::Num(1.0), V::Null, V::Num(3.0)])),
        ("new Array(2)", V::Arr(vec![V::Null, V::Null])),
        ("Object.create({ inherited: 1 }, { own: { value: 2, enumerable: true } })", V::Obj(vec![("own".into(), V::Num(2.0))])),
        ("Object.create(null)", V::Obj(vec![])),
        ("({ get x() { return 5 } })", V::Obj(vec![("x".into(), V::Num(5.0))])),
        ("Array.from({ length: 100 }, (_, i) => i)", V::Arr((0..100).map(|i| V::Num(i as f64)).collect())),
        ("\"\\u00e9\\ud83d\\ude00\"", V::s("é😀")),
        ("JSON.parse('{\"__proto__\": 1}')", V::Obj(vec![("__proto__".into(), V::Num(1.0))])),
        ("Object.freeze([Object.freeze({ a: 1 })])", V::Arr(vec![V::Obj(vec![("a".into(), V::Num(1.0))])])),
        ("{ length: 2, 0: \"a\" }", V::Obj(vec![("length".into(), V::Num(2.0)), ("0".into(), V::s("a"))])),
        ("Object.assign([1], { extra: 2 })", V::Arr(vec![V::Num(1.0)])),
    ] {
        made.push((j.into(), v));
    }
    // large ones, around the sizes at which counters and buffers end
    for k in [127usize, 128, 255, 256, 257, 1023, 1024, 1025, 4097, 32769, 65535, 65536, 65537, 100_000] {
        let arr = (format!("Array.from({{ length: {} }}, (_, i) => i)", k), V::Arr((0..k).map(|i| V::Num(i as f64)).collect()));
        let text = (format!("\"a\\u00e9\".repeat({})", k), V::s(&"aé".repeat(k)));
        let m = k.min(4097);
        let obj = (format!("Object.fromEntries(Array.from({{ length: {} }}, (_, i) => [\"k\" + i, i]))", m), V::Obj((0..m).map(|i| (format!("k{}", i), V::Num(i as f64))).collect()));
        let key = (format!("({{ [\"k\".repeat({})]: 1 }})", k), V::Obj(vec![("k".repeat(k), V::Num(1.0))]));
        for v in [&arr, &text, &obj, &key] {
            s.one(&Values { list: vec![v.1.clone()] });
        }
        s.one(&Made { list: vec![arr, text, obj, key] });
    }
    for depth in [2usize, 10, 64, 100, 120] {
        let mut v = V::Num(1.0);
        for i in 0..depth {
            v = if i % 2 == 0 { V::Arr(vec![v]) } else { V::Obj(vec![("k".into(), v)]) };
        }
        s.one(&Values { list: vec![v.clone()] });
        s.one(&Made { list: vec![(format!("((d) => {{ let v = 1; for (let i = 0; i < d; i++) v = i % 2 ? {{ k: v }} : [v]; return v; }})({})", depth), v)] });
    }
    for c in made.chunks(400) {
        s.one(&Made { list: c.to_vec() });
    }
    // results in every position
    let mut batch: Vec<Files> = vec![];
    let site = || Site::new(Mode::Output).with("root.html", ROOT).with("md.html", MD).with("two.json", "[\"1\",\"2\"]").with("none.json", "[]");
    let local = |t: Site| -> Files {
        let r = |d: Vec<u8>| ["two.json", "none.json", "d/"].iter().fold(String::from_utf8(d).unwrap(), |s, n| s.replace(&format!("\"{}\"", n), &format!("\"@{}\"", n))).into_bytes();
        t.files.into_iter().map(|(k, d)| (k, r(d))).collect()
    };
    for p in ["p", "q"] {
        for i in 0..TEXTS.len() {
            for k in 0..PLACES {
                batch.push(local(place(site(), k, &format!("{{{{ {}::text({}) }}}}", p, i))));
            }
        }
    }
    for k in 0..PLACES {
        for t in ["{{ p::count() }}{{ q::count() }}{{ p::count() }}", "{{ p::who() }}{{ q::who() }}", "{{ p::boom() }}", "{{ p::set(\"k\", \"a\") }}{{ p::late(\"k\") }}", "{{ p::show(\"s\", -5, $env.STUART_ENV) }}", "{{ p::show($nope) }}", "{{ p::show() }}", "{{ p::nope() }}", "{{ p::get(\"env.STUART_ENV\") }}{{ p::get(\"nope\") }}{{ p::get(\"self\") }}"] {
            batch.push(local(place(site(), k, t)));
        }
    }
    for b in batch {
        s.one(&Programs { sites: vec![b] });
    }
    for o in odd() {
        s.one(&Odd { body: o });
    }
    // histories
    let ops = [
        "{{ p::set(\"v\", \"1\") }}", "{{ p::set(\"v\", $j) }}", "{{ q::set(\"w\", $v) }}", "{{ q::set(\"i\", 3) }}", "[{{ $v }}]", "[{{ p::get(\"v\") }}{{ q::get(\"v\") }}]", "[{{ q::get(\"v.k.0\") }}]", "[{{ $i }}]", "{{ import($v, \"@two.json\") }}", "{{ for($i, \"@two.json\") }}", "{{ end(for) }}", "{{ ifdefined($v) }}",
        "{{ else() }}", "{{ end(ifdefined) }}", "{{ ifeq($v, $w) }}=", "{{ end(ifeq) }}", "{{ p::swap(\"v\", \"w\") }}", "{{ q::own(\"v\") }}", "{{ for($x, $v) }}<{{ p::show($x) }}", "{{ p::else() }}{{ q::end() }}",
    ];
    let size = 150;
    let mut batch: Vec<Files> = vec![];
    let n = s.tier.pick(4, 5);
    let flush = |batch: &mut Vec<Files>, s: &mut Shard| {
        s.one(&Programs { sites: std::mem::take(batch) });
    };
    let page = |t: &str| -> Files {
        let mut f = Files::new();
        let t = format!("{{{{ import($j, \"@two.json\") }}}}{}|{{{{ p::get(\"v\") }}}}{{{{ q::get(\"w\") }}}}{{{{ p::get(\"i\") }}}}", t);
        f.insert("p.html".into(), section(&t).into_bytes());
        f.insert("root.html".into(), ROOT.as_bytes().to_vec());
        f.insert("two.json".into(), b"[\"1\",{\"k\":[\"x\",null]}]".to_vec());
        f
    };
    seqs(ops.len(), n, &mut |q| {
        let t: String = q.iter().map(|i| ops[*i]).collect();
        let bal = |o: &[&str], c: &str| o.iter().map(|o| t.matches(o).count()).sum::<usize>() == t.matches(c).count();
        if !bal(&["{{ for("], "end(for)") || !bal(&["{{ ifdefined("], "end(ifdefined)") || !bal(&["{{ ifeq("], "end(ifeq)") || t.starts_with("{{ end") || t.starts_with("{{ else") {
            return;
        }
        let f = page(&t);
        // errors are built one by one: only for short sequences
        if q.len() > 2 && !matches!(Programs::model(&f, batch.len()), Ok(_)) {
            return;
        }
        batch.push(f);
        if batch.len() == size {
            flush(&mut batch, s);
        }
    });
    flush(&mut batch, s);
    // calls in all structures of blocks
    let kinds: [(&str, &str, bool); 7] = [
        ("{{ ifeq(1,1) }}", "{{ end(ifeq) }}", true),
        ("{{ ifne(1,1) }}", "{{ end(ifne) }}", true),
        ("{{ ifdefined($env) }}", "{{ end(ifdefined) }}", false),
        ("{{ ifdefined($q) }}", "{{ end(ifdefined) }}", true),
        ("{{ begin(\"s\") }}", "{{ end(\"s\") }}", false),
        ("{{ for($i, \"@two.json\") }}", "{{ end(for) }}", false),
        ("{{ for($i, \"@none.json\") }}", "{{ end(for) }}", false),
    ];
    let calls = ["{{ p::end() }}", "{{ p::else() }}", "{{ p::begin(\"s\") }}", "{{ p::for() }}", "{{ p::ifeq(1, 1) }}", "{{ q::text(3) }}", "{{ p::set(\"q\", 1) }}", "{{ p::get(\"q\") }}"];
    let mut batch: Vec<Files> = vec![];
    for n in 1..=s.tier.pick(2, 3) {
        for t in bodies(n, &kinds) {
            let gaps = t.matches('#').count();
            product(&[gaps, calls.len(), gaps, calls.len()], &mut |i| {
                let (a, c, b, e) = (i[0], i[1], i[2], i[3]);
                if b < a || (b == a && e == c) || (n == 3 && e != (c + 2) % calls.len()) {
                    return;
                }
                let mut o = String::new();
                for (k, part) in t.split('#').enumerate() {
                    if k > 0 {
                        o.push((b'A' + k as u8 - 1) as char);
                        if k - 1 == a {
                            o.push_str(calls[c]);
                        }
                        if k - 1 == b {
                            o.push_str(calls[e]);
                        }
                    }
                    o.push_str(part);
                }
                let mut f = Files::new();
                f.insert("p.html".into(), section(&o).into_bytes());
                f.insert("root.html".into(), ROOT.as_bytes().to_vec());
                f.insert("two.json".into(), b"[\"1\",\"2\"]".to_vec());
                f.insert("none.json".into(), b"[]".to_vec());
                batch.push(f);
                if batch.len() == size {
                    flush(&mut batch, s);
                }
            });
        }
    }
    flush(&mut batch, s);
}
