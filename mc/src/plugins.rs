//! Plugin sets for the in-process checks: the real static plugins and their meaning in the model.
use crate::core_props::{product, section, seqs};
use crate::json::V;
use crate::model::{err, Arg, Call, Custom, PluginCall, PluginParse, Plugins};
use crate::rt::{Shard, Tier};
use crate::site::{Mode, Site, MD, ROOT};
use humphrey_json::prelude::*;
use humphrey_json::Value;
use std::path::Path;
use stuart_core::error::TracebackError;
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, RawArgument, RawFunction};
use stuart_core::plugins::{NodeParser, NodeProcessor, Plugin};
use stuart_core::process::{ProcessError, ProcessOutput, Scope};
use stuart_core::{Environment, Stuart};

/// What a plugin function does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    /// outputs its plugin, name and arguments
    Show,
    /// `set($v, value)`
    Set,
    /// `get($v)`: outputs the variable's JSON
    Get,
    /// fails when called
    Fail,
    /// is rejected when parsed
    Bad,
}

type Spec = (&'static str, &'static [(&'static str, Do)], &'static [&'static str]);

/// The plugins of a set: name, functions, parsers.
fn spec(set: u8) -> Vec<Spec> {
    use Do::*;
    const P: Spec = (
        "p",
        &[("f", Show), ("show", Show), ("set", Set), ("get", Get), ("fail", Fail), ("bad", Bad), ("ff", Show), ("q", Show), ("end", Show), ("else", Show), ("begin", Show), ("for", Show), ("ifeq", Show), ("insert", Show), ("p", Show)],
        &["up"],
    );
    const Q: Spec = ("q", &[("f", Show), ("p", Show), ("only_q", Show), ("set", Set), ("ifne", Fail), ("é", Show)], &["env", "html"]);
    const R: Spec = ("pq_1", &[("f", Show), ("only_r", Show), ("f2", Show), ("set_r", Set), ("get_r", Get)], &["ren", "keep", "md", "json"]);
    const S: Spec = ("p", &[("g", Show), ("fail2", Fail)], &["bin"]);
    match set {
        0 => vec![],
        1 => vec![P],
        2 => vec![P, Q],
        3 => vec![Q, P],
        4 => vec![R, Q, P],
        5 => vec![P, R, Q],
        // a plugin in two parts
        6 => vec![S, P],
        7 => vec![P, S, R],
        // a plugin without any functions, one without parsers
        8 => vec![("p", &[], &["up"]), ("q", &[("f", Show)], &[])],
        _ => vec![Q, R],
    }
}
pub const SETS: u8 = 10;

fn show_args(pos: &[Arg], named: &[(String, Arg)]) -> String {
    let one = |a: &Arg| format!("{:?}", a);
    let mut v: Vec<String> = pos.iter().map(one).collect();
    v.extend(named.iter().map(|(k, a)| format!("{}={}", k, one(a))));
    v.join("|")
}

fn custom(ext: &str, data: &[u8], path: &str) -> Option<Custom> {
    if data.starts_with(b"!parse") {
        return None;
    }
    let stem = Path::new(path).file_stem().unwrap().to_string_lossy().to_string();
    let fails = data.starts_with(b"!process");
    let up: Vec<u8> = data.iter().map(|b| b.to_ascii_uppercase()).collect();
    let meta = V::Obj(vec![("type".into(), V::s("custom")), ("length".into(), V::Num(data.len() as f64))]);
    let (name, data, sees_env) = match ext {
        "up" => (Some(format!("{}.out", stem)), Some(up), false),
        "env" => (None, Some(data.to_vec()), true),
        "ren" => (Some(format!("{}.html", stem)), None, false),
        "bin" => (None, Some([data, b"\xff\0{{ $x }}"].concat()), false),
        // keep, and the extensions which belong to built-in types
        _ => (None, None, false),
    };
    Some(Custom { name, data, fails, sees_env, meta })
}

pub fn with_model<T>(set: u8, f: impl FnOnce(&Plugins) -> T) -> T {
    let mut p = Plugins::default();
    for (plugin, functions, parsers) in spec(set) {
        for (name, what) in functions {
            let what = *what;
            let who = format!("{}.{}", plugin, name);
            let call: Box<PluginCall> = Box::new(move |c: &Call, x, env, out, t| {
                match what {
                    Do::Show => out.extend_from_slice(format!("<{} {}>", who, show_args(&c.pos, &c.named)).as_bytes()),
                    Do::Set => {
                        let (Some(Arg::Var(v)), Some(a)) = (c.pos.first(), c.pos.get(1)) else { return err(x.at(t), "arguments of set") };
                        let val = match a {
                            Arg::Str(s) => V::s(s),
                            Arg::Int(i) => V::Num(*i as f64),
                            Arg::Var(w) => match env.lookup(w) {
                                Some(v) => v,
                                None => return err(x.at(t), "undefined"),
                            },
                            Arg::Ident(_) => V::Arr(vec![V::s("a"), V::Obj(vec![("k".into(), V::s("o"))])]),
                        };
                        let scope = env.scopes.last_mut().unwrap();
                        match scope.iter_mut().find(|(n, _)| n == v) {
                            Some(e) => e.1 = val,
                            None => scope.push((v.clone(), val)),
                        }
                    }
                    Do::Get => {
                        let Some(Arg::Var(v)) = c.pos.first() else { return err(x.at(t), "arguments of get") };
                        let s = env.lookup(v).map(|v| v.print()).unwrap_or("undefined".into());
                        out.extend_from_slice(s.as_bytes());
                    }
                    Do::Fail => return err(x.at(t), "the function fails"),
                    Do::Bad => unreachable!(),
                }
                Ok(())
            });
            p.calls.push((vec![name.to_string(), format!("{}::{}", plugin, name)], call));
        }
        for e in parsers {
            let f: Box<PluginParse> = Box::new(move |d, path| custom(e, d, path));
            p.parsers.push((vec!["zzz", *e], f));
        }
    }
    f(&p)
}

struct Fun {
    plugin: &'static str,
    name: &'static str,
    what: Do,
}

#[derive(Debug)]
struct Called {
    plugin: &'static str,
    name: &'static str,
    what: Do,
    pos: Vec<RawArgument>,
    named: Vec<(String, RawArgument)>,
}

impl FunctionParser for Fun {
    fn name(&self) -> &str {
        self.name
    }
    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        if self.what == Do::Bad {
            return Err(ParseError::GenericSyntaxError);
        }
        Ok(Box::new(Called { plugin: self.plugin, name: self.name, what: self.what, pos: raw.positional_args, named: raw.named_args }))
    }
}

fn arg(a: &RawArgument) -> Arg {
    match a {
        RawArgument::Variable(v) => Arg::Var(v.clone()),
        RawArgument::String(v) => Arg::Str(v.clone()),
        RawArgument::Integer(v) => Arg::Int(*v),
        RawArgument::Ident(v) => Arg::Ident(v.clone()),
    }
}

impl Function for Called {
    fn name(&self) -> &str {
        self.name
    }
    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        let token = scope.tokens.current().unwrap().clone();
        let pos: Vec<Arg> = self.pos.iter().map(arg).collect();
        let named: Vec<(String, Arg)> = self.named.iter().map(|(k, a)| (k.clone(), arg(a))).collect();
        let wrong = || token.traceback(ProcessError::InvalidDate);
        match self.what {
            Do::Show => scope.output(format!("<{}.{} {}>", self.plugin, self.name, show_args(&pos, &named))).map_err(|e| token.traceback(e)),
            Do::Set => {
                let (Some(Arg::Var(v)), Some(a)) = (pos.first(), pos.get(1)) else { return Err(wrong()) };
                let val = match a {
                    Arg::Str(s) => Value::String(s.clone()),
                    Arg::Int(i) => Value::Number(*i as f64),
                    Arg::Var(w) => scope.get_variable(w).ok_or_else(wrong)?,
                    Arg::Ident(_) => json!(["a", { "k": "o" }]),
                };
                scope.stack.last_mut().unwrap().add_variable(v, val);
                Ok(())
            }
            Do::Get => {
                let Some(Arg::Var(v)) = pos.first() else { return Err(wrong()) };
                let s = scope.get_variable(v).map(|v| v.serialize()).unwrap_or("undefined".into());
                scope.output(s).map_err(|e| token.traceback(e))
            }
            Do::Fail => Err(wrong()),
            Do::Bad => unreachable!(),
        }
    }
}

struct Files(&'static str);

struct Parsed(Custom);

impl NodeParser for Files {
    fn extensions(&self) -> Vec<&'static str> {
        // the last of several counts as well
        vec!["zzz", self.0]
    }
    fn parse(&self, contents: &[u8], path: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        match custom(self.0, contents, &path.to_string_lossy()) {
            Some(c) => Ok(Box::new(Parsed(c))),
            None => Err("cannot parse".into()),
        }
    }
}

impl NodeProcessor for Parsed {
    fn process(&self, processor: &Stuart, env: Environment) -> Result<ProcessOutput, String> {
        let c = &self.0;
        if c.fails {
            return Err("cannot process".into());
        }
        let _ = processor;
        let mut data = c.data.clone();
        if c.sees_env {
            let e = env.vars.iter().find(|(k, _)| k == "STUART_ENV").map(|x| x.1.as_str()).unwrap_or("?");
            data.get_or_insert_with(Vec::new).extend(format!("[root {} md {} env {}]", env.root.is_some(), env.md.is_some(), e).into_bytes());
        }
        Ok(ProcessOutput { new_contents: data, new_name: c.name.clone() })
    }
    fn to_json(&self) -> Value {
        json!({ "type": "custom" })
    }
}

pub fn real(set: u8) -> Vec<Plugin> {
    spec(set)
        .into_iter()
        .map(|(plugin, functions, parsers)| Plugin {
            name: plugin.into(),
            version: "1".into(),
            functions: functions.iter().map(|(name, what)| Box::new(Fun { plugin, name, what: *what }) as Box<dyn FunctionParser>).collect(),
            parsers: parsers.iter().map(|e| Box::new(Files(e)) as Box<dyn NodeParser>).collect(),
        })
        .collect()
}

// ---------------------------------------------------------------- C20

pub fn c20_bounds(t: Tier) -> String {
    format!(
        "{} plugin sets x 48 called names x 14 positions; every list of <= {} of 14 arguments; every sequence of <= {} of 17 variable operations; all pairs of calls at the gaps of every block tree of <= {} blocks; 30 file names x 6 contents x 4 trees x all plugin sets",
        SETS,
        t.pick(3, 4),
        t.pick(4, 5),
        t.pick(2, 3)
    )
        + &crate::contexts::bounds(t, "C20")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

fn site(set: u8) -> Site {
    let mut s = Site::new(Mode::Output).with("root.html", ROOT).with("md.html", MD).with("two.json", "[\"1\",\"2\"]").with("none.json", "[]");
    s.plugins = set;
    s
}

/// Puts a template text at one of the places where tags may appear.
pub fn place(mut s: Site, k: usize, t: &str) -> Site {
    let b = |pre: &str, post: &str| section(&format!("a{}b{}c{}d", pre, t, post));
    match k {
        0 => s.set("p.html", section(&format!("a{}b", t))),
        1 => s.set("p.html", format!("{}{}", t, section("a"))),
        2 => s.set("p.html", b("{{ for($i, \"two.json\") }}", "{{ end(for) }}")),
        3 => s.set("p.html", b("{{ for($i, \"none.json\") }}", "{{ end(for) }}")),
        4 => s.set("p.html", b("{{ ifeq(1, 1) }}", "{{ end(ifeq) }}")),
        5 => s.set("p.html", b("{{ ifeq(1, 2) }}", "{{ end(ifeq) }}")),
        6 => s.set("p.html", b("{{ ifne(1, 1) }}n{{ else() }}", "{{ end(ifne) }}")),
        7 => s.set("p.html", b("{{ ifgt(2, 1) }}n{{ else() }}", "{{ end(ifgt) }}")),
        8 => s.set("p.html", b("{{ ifdefined($env) }}", "{{ else() }}n{{ end(ifdefined) }}")),
        9 => s.set("p.html", b("{{ ifdefined($zz) }}", "{{ else() }}n{{ end(ifdefined) }}")),
        10 => {
            s.set("root.html", format!("r{}{}", t, ROOT));
            s.set("p.html", section("a"));
        }
        11 => {
            s.set("md.html", format!("{{{{ begin(\"x\") }}}}{}{{{{ $self.content }}}}{{{{ end(\"x\") }}}}", t));
            s.set("p.md", "text");
        }
        12 => s.set("p.md", format!("---\nk: \"v\"\n---\ntext {} more", t)),
        _ => {
            s.set("d/p.md", format!("text {} more", t));
            s.set("p.html", section("{{ for($p, \"d/\") }}{{ $p.content }}{{ end(for) }}"));
        }
    }
    s
}
pub const PLACES: usize = 14;

pub fn c20(s: &mut Shard) {
    let names = [
        "f", "p::f", "q::f", "pq_1::f", "show", "p::show", "ff", "p::ff", "q", "p::q", "q::p", "p", "p::p", "only_q", "q::only_q", "p::only_q", "only_r", "pq_1::only_r", "q::only_r", "p::g", "g", "f2", "pq_1::f2", "p::fail", "fail", "p::fail2", "p::bad", "bad", "p::end", "p::else", "p::begin", "p::for",
        "p::ifeq", "p::insert", "q::ifne", "q::é", "é", "x::f", "::f", "p:f", "p:::f", "p::", "p::f::f", "q::p::f", "P::f", "p::F", "pq::f", "f::p",
    ];
    for set in 0..SETS {
        for n in names {
            for k in 0..PLACES {
                for args in ["", "\"k\", 2"] {
                    s.one(&place(site(set), k, &format!("{{{{ {}({}) }}}}", n, args)));
                }
            }
        }
    }
    // arguments
    let args = ["$v", "$v.x.0", "\"s\"", "\"\"", "\"a, b) = }} é\"", "0", "-7", "2147483647", "for", "ifeq", "k=1", "k=\"x=y\"", "_1=$v.y", "k=for"];
    seqs(args.len(), s.tier.pick(3, 4), &mut |q| {
        let a: Vec<&str> = q.iter().map(|i| args[*i]).collect();
        for (sep, set, name) in [(", ", 1, "p::show"), (" ,\n ", 3, "show")] {
            if s.owns() {
                s.run(&place(site(set), 0, &format!("{{{{ {}({}) }}}}", name, a.join(sep))));
            }
        }
    });
    // variables
    let ops = [
        "{{ p::set($v, \"1\") }}", "{{ p::set($v, $w) }}", "{{ set_r($w, \"2\") }}", "{{ q::set($i, \"3\") }}", "{{ p::set($v, for) }}", "{{ p::set($n, 5) }}", "[{{ $v }}]", "[{{ p::get($v) }}]", "[{{ p::get($v.1.k) }}{{ get_r($n) }}]", "[{{ $i }}]", "{{ import($v, \"two.json\") }}", "{{ for($i, \"two.json\") }}", "{{ end(for) }}",
        "{{ ifdefined($v) }}", "{{ else() }}", "{{ end(ifdefined) }}", "{{ ifeq($v, $w) }}=", "{{ end(ifeq) }}",
    ];
    seqs(ops.len(), s.tier.pick(4, 5), &mut |q| {
        let t: String = q.iter().map(|i| ops[*i]).collect();
        // only balanced programs say anything new here
        let depth = |o: &str, c: &str| t.matches(o).count() == t.matches(c).count();
        if !depth("{{ for(", "end(for)") || !depth("{{ ifdefined(", "end(ifdefined)") || !depth("{{ ifeq(", "end(ifeq)") {
            return;
        }
        if s.owns() {
            s.run(&place(site(5), 0, &format!("{}|{{{{ p::get($v) }}}}{{{{ p::get($w) }}}}{{{{ p::get($i) }}}}", t)));
        }
    });
    // calls inside all structures of blocks
    let kinds: [(&str, &str, bool); 8] = [
        ("{{ ifeq(1,1) }}", "{{ end(ifeq) }}", true),
        ("{{ ifne(1,1) }}", "{{ end(ifne) }}", true),
        ("{{ ifeq(1,2) }}", "{{ end(ifeq) }}", false),
        ("{{ ifdefined($env) }}", "{{ end(ifdefined) }}", true),
        ("{{ ifdefined($q) }}", "{{ end(ifdefined) }}", true),
        ("{{ begin(\"s\") }}", "{{ end(\"s\") }}", false),
        ("{{ for($i, \"two.json\") }}", "{{ end(for) }}", false),
        ("{{ for($i, \"none.json\") }}", "{{ end(for) }}", false),
    ];
    let calls = ["{{ p::end() }}", "{{ p::end(for) }}", "{{ p::else() }}", "{{ p::begin(\"s\") }}", "{{ p::for($i, \"two.json\") }}", "{{ p::ifeq(1, 1) }}", "{{ p::f($i) }}", "{{ fail() }}", "{{ p::set($q, \"1\") }}"];
    for n in 1..=s.tier.pick(2, 3) {
        for t in crate::core_props::bodies(n, &kinds) {
            let gaps: Vec<usize> = t.match_indices('#').map(|x| x.0).collect();
            for a in 0..gaps.len() {
                for c in calls {
                    for b in a..gaps.len() {
                        for e in calls {
                            if (n == 3 && (a != b || c != e)) || !s.owns() {
                                continue;
                            }
                            let mut o = String::new();
                            let mut k = 0;
                            for ch in t.chars() {
                                if ch != '#' {
                                    o.push(ch);
                                    continue;
                                }
                                o.push((b'A' + k as u8) as char);
                                if k == a {
                                    o.push_str(c);
                                }
                                if k == b && (b > a || c != e) {
                                    o.push_str(e);
                                }
                                k += 1;
                            }
                            s.run(&place(site(2), 0, &o));
                        }
                    }
                }
            }
        }
    }
    // parsers
    let files = [
        "a.up", "a.UP", "a.up.up", "a.up.txt", "a.b.up", ".up", "up", "a.up2", "a.u", "d/a.up", "d/e/a.up", "é b.up", "a.env", "d/a.env", "d/e/a.env", "a.ren", "d/a.ren", "a.keep", "a.bin", "a.zzz", "a.html", "a.md", "a.json", "a.txt", "root.up", "md.up", "root.env", "a.", "a.css", "d.up/a.txt",
    ];
    let contents: [&[u8]; 6] = [b"text {{ $x", b"", b"!parse", b"!process", b"\xff\xfe", b"[1]"];
    product(&[SETS as usize, files.len(), contents.len(), 4], &mut |i| {
        if !s.owns() {
            return;
        }
        let mut x = Site::new(Mode::Output);
        x.plugins = i[0] as u8;
        match i[3] {
            0 => x = site(x.plugins),
            1 => (),
            2 => {
                x.set("d/root.html", ROOT);
                x.set("d/e/md.html", MD);
            }
            _ => {
                x = site(x.plugins);
                x.set("b.up", "other");
                x.set("d/b.ren", "other");
                x.set("p.html", section("{{ for($p, \"d/\") }}{{ $p.content }}{{ end(for) }}{{ for($i, \"two.json\") }}{{ $i }}{{ end(for) }}"));
                x.set("d/m.md", "m");
                x.stuart_env = "development".into();
            }
        }
        x.set(files[i[1]], contents[i[2]]);
        s.run(&x);
    });
    crate::contexts::run(s, "C20");
    crate::ladders::run(s, "C20");
    crate::chars::run(s, "C20");
}
