//! Size ladders: the same structure at every size up to a bound and on both sides of the powers of two, because
//! the other explorations enumerate all shapes but only small ones.
//! (An algorithm may change its behaviour with size: buffers, counters, sorting, recursion.)

use crate::cli::Conf;
use crate::cli_props::Tree;
use crate::core_props::section;
use crate::json::V;
use crate::rt::{Shard, Tier};
use crate::site::{Mode, Site, MD, ROOT};

/// Numbers of things: levels, items, files, arguments.
pub fn counts(t: Tier) -> Vec<usize> {
    match t {
        Tier::Quick => (0..=40).chain([47, 48, 49, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]).collect(),
        Tier::Thorough | Tier::Deep => (0..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025]).collect(),
    }
}

/// Lengths of texts.
pub fn lengths(t: Tier) -> Vec<usize> {
    let big = [511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100_000];
    let mut v: Vec<usize> = counts(t).into_iter().filter(|n| *n < 400).collect();
    v.extend(big);
    v
}

pub fn bounds(t: Tier) -> String {
    format!(
        "; size ladders: every count 0..{} and the neighbours of the powers of two up to {}, text lengths up to 100000",
        t.pick(40, 300), t.pick(300, 1025)
    )
}

fn b() -> Site {
    Site::new(Mode::Output).with("root.html", ROOT).with("md.html", MD)
}

pub fn put(s: &mut Shard, what: &str, n: usize, mk: impl FnOnce() -> Site) {
    if s.owns() {
        let mut c = mk();
        c.key = Some(format!("{}, size {}", what, n));
        s.run(&c);
    }
}

/// Blocks nested more than a hundred times need not be supported (only survived, see C02).
fn nest(s: &mut Shard, what: &str, n: usize, mk: impl FnOnce() -> Site) {
    if n <= 100 {
        put(s, what, n, mk);
    }
}

pub fn tree(s: &mut Shard, what: &str, n: usize, mk: impl FnOnce() -> Tree) {
    if s.owns() {
        let mut c = mk();
        c.key = Some(format!("{}, size {}", what, n));
        s.run(&c);
    }
}

/// n texts, joined
fn rep(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}

pub fn strs(v: impl Iterator<Item = String>) -> String {
    V::Arr(v.map(|x| V::s(&x)).collect()).print()
}

/// What every function which takes a variable makes of the members of the object at a path.
pub fn uses(p: &str) -> String {
    let q = |c: &str| format!("{{{{ {}({}) }}}}", c.split(' ').next().unwrap(), c.split_once(' ').unwrap().1);
    let cond = |c: &str, f: &str| format!("{}Y{{{{ else() }}}}N{{{{ end({}) }}}}", q(&format!("{} {}", f, c)), f);
    let mut o = format!("[{{{{ {p}.s }}}}|");
    for (f, args) in [
        ("ifdefined", format!("{p}.s")), ("ifdefined", format!("{p}.z")), ("ifdefined", format!("{p}")), ("ifdefined", format!("{p}.l.1")), ("ifdefined", format!("{p}.l.2")), ("ifeq", format!("{p}.s, \"2021-02-03\"")), ("ifeq", format!("\"2021-02-03\", {p}.s")),
        ("ifeq", format!("{p}.s, {p}.s")), ("ifne", format!("{p}.n, 5")), ("ifne", format!("5, {p}.n")), ("ifgt", format!("{p}.n, 4")), ("iflt", format!("{p}.n, {p}.n")), ("ifge", format!("6, {p}.n")), ("ifle", format!("{p}.n, 5")),
    ] {
        o += &cond(&args, f);
    }
    o + &format!("|{{{{ excerpt({p}.s, 4) }}}}|{{{{ timetoread({p}.s) }}}}|{{{{ dateformat({p}.s, \"%d.%m.\") }}}}|{{{{ for($q, {p}.l) }}}}<{{{{ $q.k }}}}>{{{{ end(for) }}}}{{{{ for($q, {p}.l, sortby=$q.k) }}}}<{{{{ $q.k }}}}>{{{{ end(for) }}}}]")
}

/// An object for which these are defined.
pub const USED: &str = "{\"s\":\"2021-02-03\",\"n\":5,\"l\":[{\"k\":\"b\"},{\"k\":\"a\"}]}";

const UNITS: [&str; 11] = ["a", "é", "😀", "\n", "\r\n", "{", "}", "\\", " ", "<", "\"\t"];

/// A text of n characters which repeats nothing at short distances.
fn prose(n: usize) -> String {
    (0..n).map(|i| if i % 7 == 6 { ' ' } else { (b'a' + ((i * i + i / 26) % 26) as u8) as char }).collect()
}

pub fn run(s: &mut Shard, id: &str) {
    let t = s.tier;
    let cs = counts(t);
    let ls = lengths(t);
    match id {
        "C01" => {
            let md = section("{{ $self.content }}|{{ $self.markdown }}");
            let text = |s: &mut Shard, what: &str, n: usize, x: &dyn Fn() -> String| {
                for place in 0..4 {
                    put(s, &format!("{} (place {})", what, place), n, || {
                        let e = Site::new(Mode::Output);
                        match place {
                            0 => e.with("root.html", "<{{ insert(\"x\") }}>").with("p.html", section(&x())),
                            1 => e.with("root.html", format!("{}{{{{ insert(\"x\") }}}}", x())).with("p.html", section("P")),
                            2 => e.with("root.html", format!("{{{{ insert(\"x\") }}}}{}", x())).with("p.html", section("P")),
                            _ => e.with("root.html", ROOT).with("md.html", &md).with("p.md", x()),
                        }
                    });
                }
            };
            for n in &ls {
                let n = *n;
                for u in UNITS {
                    if n > 20_000 && !matches!(u, "a" | "é" | "\n") {
                        continue;
                    }
                    text(s, &format!("text of {:?}", u), n, &|| u.repeat(n));
                    if n <= 300 {
                        text(s, &format!("text of {:?} and a tag", u), n, &|| format!("{}{{{{ $env.STUART_ENV }}}}{}", u.repeat(n), u));
                    }
                }
                text(s, "prose", n, &|| prose(n));
            }
            for n in &cs {
                let n = *n;
                text(s, "tags", n, &|| rep(n, |i| format!("{}{{{{ $env.STUART_ENV }}}}", i)));
                text(s, "adjacent tags", n, &|| "{{ $env.STUART_ENV }}".repeat(n));
                text(s, "escapes", n, &|| rep(n, |i| format!("\\{{{{{} ", i)));
                text(s, "escapes and tags", n, &|| rep(n, |i| format!("\\{{{{ {} {{{{ $env.STUART_ENV }}}}\n", i)));
                text(s, "lines", n, &|| rep(n, |i| format!("line {}\r\n", i)));
            }
        }
        "C03" => {
            for n in &cs {
                let n = *n;
                let imp = "{{ import($v, \"v.json\") }}";
                let base = || b().with("v.json", "{\"a\":1,\"b\":\"s\"}").with("none.json", "[]").with("two.json", "[1,2]");
                for (what, o, c) in [
                    ("true", "{{ ifeq($v.a, 1) }}", "{{ end(ifeq) }}"), ("false", "{{ ifne($v.b, \"s\") }}", "{{ end(ifne) }}"), ("defined", "{{ ifdefined($v.b) }}", "{{ end(ifdefined) }}"),
                    ("undefined", "{{ ifdefined($v.c) }}", "{{ end(ifdefined) }}"), ("ge", "{{ ifge($v.a, 1) }}", "{{ end(ifge) }}"), ("lt", "{{ iflt(1, $v.a) }}", "{{ end(iflt) }}"),
                ] {
                    nest(s, &format!("nested {}", what), n, || base().with("p.html", section(&format!("{}<{}#{}>", imp, rep(n, |i| format!("{}{} ", o, i)), rep(n, |i| format!("/{}{}", i, c))))));
                    nest(s, &format!("nested {} with else", what), n, || {
                        base().with("p.html", section(&format!("{}<{}#{}>", imp, rep(n, |i| format!("{}{} ", o, i)), rep(n, |i| format!("/{}{{{{ else() }}}}E{}{}", i, i, c)))))
                    });
                    nest(s, &format!("in the else of {}", what), n, || {
                        base().with("p.html", section(&format!("{}<{}#{}>", imp, rep(n, |i| format!("{}{} {{{{ else() }}}}e{}", o, i, i)), rep(n, |i| format!("/{}{}", i, c)))))
                    });
                    put(s, &format!("sequence of {}", what), n, || base().with("p.html", section(&format!("{}<{}>", imp, rep(n, |i| format!("{}T{}{{{{ else() }}}}F{}{}", o, i, i, c))))));
                    put(s, &format!("long branches of {}", what), n, || {
                        base().with("p.html", section(&format!("{}<{}{}{{{{ else() }}}}{}{}>", imp, o, rep(n, |i| format!("{{{{ $v.b }}}}{}", i)), rep(n, |i| format!("{}{{{{ $v.b }}}}", i)), c)))
                    });
                }
                nest(s, "skipped structure", n, || {
                    base().with("p.html", section(&format!("{{{{ ifeq(1, 2) }}}}{}{}{{{{ else() }}}}E{{{{ end(ifeq) }}}}", "{{ ifeq(1, 1) }}{{ for($i, \"two.json\") }}{{ $x }}".repeat(n), "{{ end(for) }}{{ else() }}{{ end(ifeq) }}".repeat(n))))
                });
                nest(s, "mixed", n, || {
                    let o = ["{{ ifeq(1, 1) }}", "{{ for($i, \"none.json\") }}", "{{ ifdefined($env) }}", "{{ begin(\"q\") }}"];
                    let c = ["{{ end(ifeq) }}", "{{ end(for) }}", "{{ end(ifdefined) }}", "{{ end(\"q\") }}"];
                    base().with("p.html", section(&format!("<{}#{}>", rep(n, |i| format!("{}{} ", o[i % 4], i)), rep(n, |i| format!("/{}{}", n - 1 - i, c[(n - 1 - i) % 4])))))
                });
                // numbers and strings of every size as operands
                let x = "s".repeat(n);
                for (a, z) in [(x.clone(), x.clone()), (x.clone(), format!("{}t", x)), (format!("{}a", x), format!("{}b", x)), (format!("a{}", x), format!("b{}", x))] {
                    put(s, &format!("operands {:?}.. {:?}..", a.chars().next(), z.len() - a.len()), n, || {
                        base().with("w.json", format!("{{\"a\":\"{}\"}}", a)).with("p.html", section(&format!("{{{{ import($w, \"w.json\") }}}}{{{{ ifeq($w.a, \"{z}\") }}}}E{{{{ else() }}}}N{{{{ end(ifeq) }}}}{{{{ ifne(\"{z}\", $w.a) }}}}N{{{{ else() }}}}E{{{{ end(ifne) }}}}")))
                    });
                }
            }
            // integers around the powers of ten and two
            let mut v: Vec<i64> = (0..=31).flat_map(|k| [(1i64 << k) - 1, 1i64 << k, (1i64 << k) + 1]).chain((0..=9).map(|k| 10i64.pow(k))).filter(|x| *x < 1i64 << 31).collect();
            v.extend(v.clone().iter().map(|x| -x));
            v.sort();
            v.dedup();
            for (i, a) in v.iter().enumerate() {
                put(s, "integers", i, || {
                    let body = rep(v.len(), |j| format!("{{{{ iflt({}, $v.{}) }}}}<{{{{ else() }}}}>={{{{ end(iflt) }}}}{{{{ ifge($v.{}, {}) }}}}>={{{{ else() }}}}<{{{{ end(ifge) }}}}{{{{ ifeq({}, {}) }}}}={{{{ end(ifeq) }}}} ", a, j, j, a, a, v[j]));
                    b().with("v.json", V::Arr(v.iter().map(|x| V::Num(*x as f64)).collect()).print()).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", body)))
                });
            }
        }
        "C04" => {
            for n in &cs {
                let n = *n;
                let some = |n: usize| {
                    let mut v = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 1];
                    v.dedup();
                    v
                };
                // keys with many ties: a stable sort shows
                for (what, key) in [("ties", 3usize), ("equal", 1), ("distinct", 1_000_003)] {
                    let k = move |i: usize| format!("k{:07}", (i * 7919) % key);
                    for order in ["", ", order=\"asc\"", ", order=\"desc\""] {
                        for sort in ["", ", sortby=$i.k", ", sortby=$i.o.k"] {
                            if what != "ties" && sort.is_empty() {
                                continue;
                            }
                            put(s, &format!("{} {} {}", what, order, sort), n, || {
                                let list = format!("[{}]", (0..n).map(|i| format!("{{\"k\":\"{}\",\"n\":\"{}\",\"o\":{{\"k\":\"{}\"}}}}", k(i), i, k(i))).collect::<Vec<_>>().join(","));
                                b().with("l.json", list).with("p.html", section(&format!("<{{{{ for($i, \"l.json\"{}{}) }}}}{{{{ $i.n }}}} {{{{ end(for) }}}}>{{{{ import($w, \"l.json\") }}}}{{{{ for($i, $w{}{}) }}}}{{{{ $i.n }}}} {{{{ end(for) }}}}", sort, order, sort, order)))
                            });
                        }
                    }
                }
                for k in some(n) {
                    for l in some(n) {
                        put(s, &format!("skip {} limit {}", k, l), n, || {
                            b().with("l.json", strs((0..n).map(|i| i.to_string()))).with("p.html", section(&format!("{{{{ for($i, \"l.json\", skip={k}, limit={l}) }}}}{{{{ $i }}}} {{{{ end(for) }}}}|{{{{ for($i, \"l.json\", skip={k}, order=\"desc\") }}}}{{{{ $i }}}} {{{{ end(for) }}}}|{{{{ for($i, \"l.json\", limit={l}) }}}}{{{{ $i }}}} {{{{ end(for) }}}}")))
                        });
                    }
                }
                if n <= 300 {
                    for order in ["", ", order=\"desc\"", ", sortby=$i.t", ", sortby=$i.t, order=\"desc\"", ", sortby=$i.t, order=\"desc\", skip=1, limit=20"] {
                        put(s, &format!("files{}", order), n, || {
                            let mut c = b();
                            c.dirs.push("d".into());
                            for i in 0..n {
                                c.set(&format!("d/{}.md", (i * 37) % 1009), format!("---\nt: \"{}\"\nn: \"{}\"\n---\nB{}", i % 4, i, i));
                            }
                            c.with("p.html", section(&format!("{{{{ for($i, \"d/\"{}) }}}}{{{{ $i.n }}}}{{{{ $i.content }}}} {{{{ end(for) }}}}", order)))
                        });
                    }
                }
                if n <= 129 {
                    nest(s, "nested loops", n, || {
                        b().with("one.json", "[\"1\"]").with("p.html", section(&format!("{}#{}", rep(n, |i| format!("{{{{ for($v{}, \"one.json\") }}}}{}{{{{ $v{} }}}} ", i, i, i)), rep(n, |i| format!("/{}{{{{ end(for) }}}}", i)))))
                    });
                    put(s, "loop in loop", n, || b().with("l.json", strs((0..n).map(|i| i.to_string()))).with("p.html", section("{{ for($i, \"l.json\") }}{{ $i }}:{{ for($j, \"l.json\", limit=2) }}{{ $j }}{{ end(for) }} {{ end(for) }}")));
                }
                put(s, "loops in sequence", n, || b().with("l.json", "[\"a\",\"b\"]").with("p.html", section(&rep(n, |i| format!("{{{{ for($i, \"l.json\") }}}}{}{{{{ $i }}}}{{{{ end(for) }}}}", i)))));
                put(s, "long body", n, || b().with("l.json", "[\"a\",\"b\",\"c\"]").with("p.html", section(&format!("{{{{ for($i, \"l.json\", skip=1) }}}}{}{{{{ end(for) }}}}", rep(n, |i| format!("{}{{{{ $i }}}}", i))))));
            }
            for l in [2047u64, 65535, 65536, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296] {
                for o in ["skip", "limit"] {
                    put(s, &format!("{} option", o), l as usize, || b().with("l.json", "[\"a\",\"b\",\"c\"]").with("p.html", section(&format!("[{{{{ for($i, \"l.json\", {}={}) }}}}{{{{ $i }}}}{{{{ end(for) }}}}]", o, l))));
                }
            }
        }
        "C05" => {
            for n in &cs {
                let n = *n;
                put(s, "variables", n, || {
                    let mut c = b();
                    let mut v = String::new();
                    for i in 0..n {
                        c.set(&format!("v{}.json", i), format!("[\"<{}>\"]", i));
                        v += &format!("{{{{ import($v{}, \"v{}.json\") }}}}", i, i);
                    }
                    v += &rep(n, |i| format!("{{{{ $v{}.0 }}}}", i));
                    v += &format!("{{{{ ifdefined($v{}) }}}}LEAK{{{{ end(ifdefined) }}}}", n);
                    c.with("p.html", section(&v)).with("z.html", section("{{ ifdefined($v0) }}LEAK{{ end(ifdefined) }}"))
                });
                nest(s, "path depth", n, || {
                    let json = format!("{}\"V\"{}", "{\"a\":".repeat(n), "}".repeat(n));
                    let p = "$v".to_string() + &".a".repeat(n);
                    b().with("v.json", json).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}[{{{{ {p} }}}}]{{{{ ifdefined({p}.a) }}}}D{{{{ else() }}}}U{{{{ end(ifdefined) }}}}")))
                });
                nest(s, "path depth, uses", n, || {
                    let json = format!("{}{}{}", "{\"a\":".repeat(n), USED, "}".repeat(n));
                    let p = "$v".to_string() + &".a".repeat(n);
                    b().with("v.json", json).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", uses(&p))))
                });
                nest(s, "path depth, sorted by", n, || {
                    let o = |k: &str| format!("{}{{\"k\":\"{}\"}}{}", "{\"a\":".repeat(n), k, "}".repeat(n));
                    let p = ".a".repeat(n);
                    b().with("t.json", format!("[{},{},{}]", o("c"), o("a"), o("b"))).with("p.html", section(&format!("{{{{ for($x, \"t.json\", sortby=$x{p}.k) }}}}{{{{ $x{p}.k }}}}{{{{ end(for) }}}}")))
                });
                nest(s, "path of numbers, uses", n, || {
                    let json = format!("{}{}{}", "[0,{\"0\":".repeat(n), USED, "}]".repeat(n));
                    b().with("v.json", json).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", uses(&("$v".to_string() + &".1.0".repeat(n))))))
                });
                put(s, "name length, uses", n, || {
                    let name = "n".repeat(n + 1);
                    b().with("v.json", format!("{{\"{name}\":{USED}}}")).with("p.html", section(&format!("{{{{ import(${name}, \"v.json\") }}}}{}", uses(&format!("${name}.{name}")))))
                });
                nest(s, "scopes between, uses", n, || {
                    b().with("v.json", USED).with("one.json", "[{\"s\":\"x\"}]").with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}{}{}", "{{ for($w, \"one.json\") }}".repeat(n), uses("$v"), "{{ end(for) }}".repeat(n))))
                });
                put(s, "member, uses", n, || {
                    let o = format!("{{{}\"k{}\":{}}}", rep(n, |i| format!("\"k{}\":{{\"s\":1,\"n\":null,\"l\":[]}},", i)), n, USED);
                    b().with("v.json", o).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", uses(&format!("$v.k{}", n)))))
                });
                put(s, "item, uses", n, || {
                    let o = format!("[{}{}]", "{\"s\":1,\"n\":null,\"l\":[]},".repeat(n), USED);
                    b().with("v.json", o).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", uses(&format!("$v.{}", n)))))
                });
                nest(s, "list depth", n, || {
                    let json = format!("{}\"V\"{}", "[".repeat(n), "]".repeat(n));
                    b().with("v.json", json).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}[{{{{ $v{} }}}}]", ".0".repeat(n))))
                });
                put(s, "list index", n, || {
                    b().with("v.json", strs((0..=n).map(|i| format!("<{}>", i)))).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{{{{ $v.{} }}}}{{{{ $v.0 }}}}{{{{ ifdefined($v.{}) }}}}D{{{{ else() }}}}U{{{{ end(ifdefined) }}}}", n, n + 1)))
                });
                put(s, "object keys", n, || {
                    let o = V::Obj((0..=n).map(|i| (format!("k{}", i), V::s(&format!("<{}>", i)))).collect()).print();
                    b().with("v.json", o).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", rep(n + 1, |i| format!("{{{{ $v.k{} }}}}", i)))))
                });
                nest(s, "shadowing", n, || {
                    b().with("one.json", "[{\"a\":\"1\"}]").with("v.json", "{\"a\":\"0\",\"b\":\"B\"}").with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{{{{ $v.a }}}}{}{}{{{{ $v.a }}}}", "{{ for($v, \"one.json\") }}{{ $v.a }}".repeat(n), "{{ end(for) }}{{ $v.a }}".repeat(n))))
                });
                nest(s, "scope depth", n, || {
                    b().with("o.json", "[\"O\"]").with("p.html", section(&format!("{}{{{{ import($v, \"o.json\") }}}}{{{{ $v.0 }}}}{}{{{{ ifdefined($v) }}}}LEAK{{{{ end(ifdefined) }}}}", rep(n, |i| format!("{{{{ begin(\"s{}\") }}}}", i)), rep(n, |i| format!("{{{{ ifdefined($v) }}}}{}{{{{ end(ifdefined) }}}}{{{{ end(\"s{}\") }}}}", i, n - 1 - i)))))
                });
                let name = "n".repeat(n + 1);
                put(s, "name length", n, || {
                    b().with("v.json", format!("{{\"{name}\":\"V\",\"{name}n\":\"W\"}}")).with("p.html", section(&format!("{{{{ import(${name}, \"v.json\") }}}}{{{{ ${name}.{name} }}}}{{{{ ${name}.{name}n }}}}{{{{ ifdefined(${name}n) }}}}D{{{{ else() }}}}U{{{{ end(ifdefined) }}}}{{{{ ifdefined(${}) }}}}D{{{{ else() }}}}U{{{{ end(ifdefined) }}}}", if n == 0 { "x" } else { &name[1..] })))
                });
                put(s, "environment", n, || {
                    let mut c = b().with("p.html", section(&format!("{}{{{{ ifdefined($env.VV{}) }}}}LEAK{{{{ end(ifdefined) }}}}", rep(n, |i| format!("{{{{ $env.VV{} }}}}", i)), n)));
                    for i in 0..n {
                        c.env.push((format!("VV{}", i), format!("<{}>", i)));
                    }
                    c
                });
            }
            for n in &ls {
                let n = *n;
                for u in ["a", "é", "\n", "{{", "\\"] {
                    if n > 20_000 && u != "a" {
                        continue;
                    }
                    put(s, &format!("value of {:?}", u), n, || {
                        b().with("v.json", V::Obj(vec![("k".into(), V::s(&u.repeat(n)))]).print()).with("p.html", section("{{ import($v, \"v.json\") }}[{{ $v.k }}]"))
                    });
                }
                if n <= 65537 {
                    put(s, "environment value", n, || {
                        let mut c = b().with("p.html", section("[{{ $env.VALUE }}]"));
                        c.env.push(("VALUE".into(), prose(n)));
                        c
                    });
                }
            }
        }
        "C06" => {
            for n in cs.iter().filter(|n| **n <= 100) {
                let n = *n;
                let o = |i: usize| match i % 4 {
                    0 => format!("{{{{ begin(\"s{}\") }}}}", i),
                    1 => "{{ ifeq(1, 1) }}".to_string(),
                    2 => "{{ for($i, \"one.json\") }}".to_string(),
                    _ => "{{ ifdefined($env) }}".to_string(),
                };
                let c = |i: usize| match i % 4 {
                    0 => format!("{{{{ end(\"s{}\") }}}}", i),
                    1 => "{{ end(ifeq) }}".to_string(),
                    2 => "{{ end(for) }}".to_string(),
                    _ => "{{ end(ifdefined) }}".to_string(),
                };
                let mk = |ends: Vec<String>, place: usize| {
                    let x = format!("{}#{}", rep(n, o), ends.concat());
                    let e = b().with("one.json", "[1]");
                    match place {
                        0 => e.with("p.html", section("P") + &x),
                        1 => e.with("root.html", format!("R{}{{{{ insert(\"x\") }}}}", x)).with("p.html", section("P")),
                        _ => e.with("p.md", x),
                    }
                };
                let right: Vec<String> = (0..n).rev().map(c).collect();
                for place in 0..3 {
                    put(s, &format!("right (place {})", place), n, || mk(right.clone(), place));
                    put(s, &format!("one more end (place {})", place), n, || mk([right.clone(), vec![c(n)]].concat(), place));
                    // a fault at every level for small sizes, at the ends and the middle of the large ones
                    let at: Vec<usize> = if n <= 16 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
                    for k in at {
                        put(s, &format!("missing end {} (place {})", k, place), n, || {
                            let mut r = right.clone();
                            r.remove(k);
                            mk(r, place)
                        });
                        if k + 1 < n {
                            put(s, &format!("swapped ends {} (place {})", k, place), n, || {
                                let mut r = right.clone();
                                r.swap(k, k + 1);
                                mk(r, place)
                            });
                        }
                        put(s, &format!("wrong end {} (place {})", k, place), n, || {
                            let mut r = right.clone();
                            r[k] = c(n - k);
                            mk(r, place)
                        });
                    }
                }
                let name = "s".repeat(n);
                for (what, e) in [("same", name.clone()), ("longer", name.clone() + "s"), ("other end", name.clone().chars().skip(1).chain(['t']).collect()), ("other start", "t".to_string() + &name)] {
                    put(s, &format!("label {}", what), n, || b().with("p.html", format!("{{{{ begin(\"{}\") }}}}A{{{{ end(\"{}\") }}}}", name, e)));
                }
            }
        }
        "C07" => {
            for n in &cs {
                let n = *n;
                put(s, "sections", n, || {
                    b().with("root.html", rep(n, |i| format!("{}<{{{{ insert(\"s{}\") }}}}>", i, n - 1 - i))).with("p.html", rep(n, |i| format!("drop{{{{ begin(\"s{}\") }}}}[{}]{{{{ end(\"s{}\") }}}}", i, i, i)))
                });
                put(s, "missing last section", n, || {
                    b().with("root.html", rep(n + 1, |i| format!("{{{{ insert(\"s{}\") }}}}", i))).with("p.html", rep(n, |i| format!("{{{{ begin(\"s{}\") }}}}[{}]{{{{ end(\"s{}\") }}}}", i, i, i)))
                });
                put(s, "inserts", n, || b().with("root.html", rep(n, |i| format!("{}{{{{ insert(\"x\") }}}}", i))).with("p.html", section("P")));
                put(s, "insert in loop", n, || b().with("l.json", strs((0..n).map(|i| i.to_string()))).with("root.html", "<{{ for($i, \"l.json\") }}{{ $i }}{{ insert(\"x\") }}{{ end(for) }}>").with("p.html", section("P")));
                nest(s, "nested sections", n, || {
                    b().with("root.html", rep(n, |i| format!("{{{{ insert(\"s{}\") }}}}\n", i))).with("p.html", rep(n, |i| format!("{{{{ begin(\"s{}\") }}}}{}", i, i)) + &rep(n, |i| format!("/{{{{ end(\"s{}\") }}}}", n - 1 - i)))
                });
                let name = "n".repeat(n);
                put(s, "name length", n, || b().with("root.html", format!("{{{{ insert(\"{name}\") }}}}|{{{{ insert(\"{name}n\") }}}}")).with("p.html", format!("{{{{ begin(\"{name}\") }}}}A{{{{ end(\"{name}\") }}}}{{{{ begin(\"{name}n\") }}}}B{{{{ end(\"{name}n\") }}}}")));
                if n <= 300 {
                    put(s, "pages", n, || {
                        let mut c = b().with("root.html", "<{{ insert(\"x\") }}|{{ insert(\"y\") }}>").with("j.json", "[\"j\"]");
                        for i in 0..n {
                            c.set(&format!("d{}/p{}.html", i % 5, i), format!("{{{{ begin(\"x\") }}}}{}{{{{ import($v, \"j.json\") }}}}{{{{ end(\"x\") }}}}{{{{ begin(\"y\") }}}}{{{{ ifdefined($v) }}}}LEAK{{{{ end(ifdefined) }}}}y{}{{{{ end(\"y\") }}}}", i, i));
                        }
                        c
                    });
                    // templates, and imported files, among many others
                    for pre in ["a", "n", "z", "d/"] {
                        put(s, &format!("others at {}", pre), n, || {
                            let mut c = Site::new(Mode::Output).with("root.html", "top {{ insert(\"x\") }}").with("md.html", section("top {{ $self.content }}"));
                            for d in ["", "s/"] {
                                c.set(&format!("{d}root.html"), format!("{d} {{{{ insert(\"x\") }}}}"));
                                c.set(&format!("{d}md.html"), section(&format!("{d} {{{{ $self.content }}}}{{{{ import($j, \"{d}j.json\") }}}}{{{{ $j }}}}")));
                                c.set(&format!("{d}j.json"), format!("\"{d}\""));
                                c.set(&format!("{d}p.html"), section("page"));
                                c.set(&format!("{d}m.md"), "md");
                                for i in 0..n {
                                    c.set(&format!("{d}{pre}{i:04}{}", [".txt", ".html", ".md", "/x.txt"][i % 4]), ["text".into(), section("other"), "other".into(), "text".to_string()][i % 4].clone());
                                }
                            }
                            c
                        });
                    }
                    // nearest templates in a deep tree
                    let dir = |k: usize| "d/".repeat(k);
                    let mut at = vec![0, 1, n / 2, n.saturating_sub(1), n];
                    at.retain(|k| *k <= n);
                    at.dedup();
                    for k in at {
                        put(s, &format!("depth, templates at {}", k), n, || {
                            let mut c = Site::new(Mode::Output).with("root.html", "top {{ insert(\"x\") }}").with("md.html", "{{ begin(\"x\") }}top{{ $self.content }}{{ end(\"x\") }}");
                            c.set(&format!("{}root.html", dir(k)), format!("{} {{{{ insert(\"x\") }}}}", k));
                            c.set(&format!("{}md.html", dir(k)), format!("{{{{ begin(\"x\") }}}}{}{{{{ $self.content }}}}{{{{ end(\"x\") }}}}", k));
                            for j in [0, k.saturating_sub(1), k, n] {
                                c.set(&format!("{}p.html", dir(j)), section(&format!("page {}", j)));
                                c.set(&format!("{}m.md", dir(j)), format!("md {}", j));
                            }
                            c
                        });
                    }
                }
            }
            for n in &ls {
                let n = *n;
                put(s, "section length", n, || b().with("root.html", "<{{ insert(\"x\") }}{{ insert(\"x\") }}>").with("p.html", section(&prose(n))));
                put(s, "text outside sections", n, || b().with("p.html", format!("{}{}{}", prose(n), section("P"), prose(n))));
            }
        }
        "C08" => {
            let md = section("{{ $self.content }}|{{ $self.markdown }}");
            for n in &cs {
                let n = *n;
                for eol in ["\n", "\r\n"] {
                    put(s, &format!("keys {:?}", eol), n, || {
                        let v = rep(n, |i| format!("{{{{ $self.k{} }}}},", i));
                        b().with("md.html", section(&format!("{}{{{{ $self.content }}}}", v))).with("p.md", format!("---{eol}{}---{eol}body", rep(n, |i| format!("k{}: \"v {}\"{eol}", i, i))))
                    });
                }
                put(s, "key length", n, || {
                    let k = "k".repeat(n + 1);
                    b().with("md.html", section(&format!("{{{{ $self.{} }}}}{{{{ $self.content }}}}", k))).with("p.md", format!("---\n{}: \"v\"\n---\nbody", k))
                });
                if n <= 300 {
                    put(s, "files", n, || {
                        let mut c = b();
                        c.dirs.push("d".into());
                        for i in 0..n {
                            c.set(&format!("d/f{}.md", i), if i % 3 == 2 { format!("body {}", i) } else { format!("---\nt: \"T{}\"\n---\n*body* {}", i, i) });
                        }
                        c.with("p.html", section("{{ for($p, \"d/\") }}{{ ifdefined($p.t) }}{{ $p.t }}{{ end(ifdefined) }}:{{ $p.content }}:{{ $p.markdown }}{{ end(for) }}")).with("q.md", "{{ for($p, \"d/\") }}* {{ ifdefined($p.t) }}{{ $p.t }}{{ end(ifdefined) }}\n{{ end(for) }}")
                    });
                }
                for (what, u) in [("paragraphs", "p # *e*\n\n"), ("items", "- i #\n"), ("headings", "## h #\n"), ("code", "    c # {{ $env.STUART_ENV }}\n"), ("table", "| a # | b |\n"), ("notes", "[^#]: n\n\nx[^#]\n\n"), ("tasks", "- [ ] t #\n- [x] u #\n"), ("tags", "{{ $env.STUART_ENV }}#\n")] {
                    put(s, what, n, || {
                        let x = rep(n, |i| u.replace('#', &i.to_string()));
                        let x = if what == "table" { format!("| h | i |\n|---|---|\n{}", x) } else { x };
                        b().with("md.html", &md).with("p.md", x)
                    });
                }
                if n <= 129 {
                    put(s, "nested list", n, || b().with("md.html", &md).with("p.md", rep(n, |i| format!("{}- {}\n", "  ".repeat(i), i))));
                    put(s, "nested quote", n, || b().with("md.html", &md).with("p.md", "> ".repeat(n) + "q"));
                }
            }
            for n in &ls {
                let n = *n;
                for u in ["a", "é", ": ", " b"] {
                    put(s, &format!("front matter value of {:?}", u), n, || b().with("md.html", section("[{{ $self.k }}]{{ $self.content }}")).with("p.md", format!("---\nk: \"{}\"\nl: \"m\"\n---\nbody", u.repeat(n))));
                }
                put(s, "body", n, || b().with("md.html", &md).with("p.md", format!("---\nk: \"v\"\n---\n{}", prose(n))));
                put(s, "empty lines before the body", n, || b().with("md.html", &md).with("p.md", format!("---\nk: \"v\"\n---\n{}body", "\n".repeat(n))));
            }
        }
        "C09" => {
            for n in &ls {
                let n = *n;
                for u in ["a", "é", "😀", "<b>", "a<i>", " ", "&amp;", "<", ">"] {
                    if n > 20_000 && !matches!(u, "a" | "é") {
                        continue;
                    }
                    put(s, &format!("text of {:?}", u), n, || {
                        let x = u.repeat(n);
                        let c = x.chars().count();
                        let body = [0, 1, n.saturating_sub(1), n, n + 1, c.saturating_sub(1), c, c + 1, x.len(), 2147483647].iter().map(|k| format!("{{{{ excerpt($v.0, {}) }}}}|", k)).collect::<String>();
                        b().with("v.json", strs([x].into_iter())).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}{{{{ timetoread($v.0) }}}}", body)))
                    });
                }
                put(s, "words", n, || b().with("v.json", strs([rep(n, |i| format!("w{} ", i))].into_iter())).with("p.html", section("{{ import($v, \"v.json\") }}{{ timetoread($v.0) }}|{{ excerpt($v.0, 20) }}")));
                put(s, "tag length", n, || b().with("v.json", strs([format!("a<{}>b c", "t ".repeat(n))].into_iter())).with("p.html", section("{{ import($v, \"v.json\") }}{{ timetoread($v.0) }}|{{ excerpt($v.0, 3) }}")));
            }
            for n in &cs {
                let n = *n;
                put(s, "every length of one text", n, || b().with("v.json", strs([prose(n)].into_iter())).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", rep(n + 2, |k| format!("{{{{ excerpt($v.0, {}) }}}}|", k))))));
            }
        }
        "C10" => {
            for n in &cs {
                let n = *n;
                for (what, f) in [("letters", "a"), ("é", "é"), ("years", "%Y"), ("percents", "%%"), ("all", "%d.%m.%Y %A %B %j "), ("spaces", " ")] {
                    put(s, what, n, || b().with("v.json", "[\"2024-02-29\",\"2021-12-31 23:59\"]").with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{{{{ dateformat($v.0, \"{f}\") }}}}|{{{{ dateformat($v.1, \"{f}\") }}}}", f = f.repeat(n)))));
                }
                put(s, "calls", n, || b().with("v.json", strs((0..n).map(|i| format!("{:04}-{:02}-{:02}", 1900 + i, i % 12 + 1, i % 28 + 1)))).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", rep(n, |i| format!("{{{{ dateformat($v.{}, \"%d %b %Y\") }}}} ", i))))));
                put(s, "text after", n, || b().with("v.json", strs([format!("2024-02-29{}", "9".repeat(n))].into_iter())).with("p.html", section("{{ import($v, \"v.json\") }}{{ dateformat($v.0, \"%d\") }}")));
            }
        }
        "C11" => {
            for n in &ls {
                let n = *n;
                for u in ["a", "é", ",", ")", " ", "}}", "\n", "="] {
                    if n > 20_000 && u != "a" {
                        continue;
                    }
                    let x = u.repeat(n);
                    put(s, &format!("string of {:?}", u), n, || b().with("root.html", format!("{{{{ insert(\"{x}\") }}}}.")).with("p.html", format!("{{{{ begin(\"{x}\") }}}}A{{{{ ifeq(\"{x}\", \"{x}\") }}}}Y{{{{ end(ifeq) }}}}{{{{ end(\"{x}\") }}}}")));
                }
                for ws in [" ", "\n", "\t", "\r\n"] {
                    if n > 2000 {
                        continue;
                    }
                    let w = ws.repeat(n);
                    put(s, &format!("white space {:?}", ws), n, || b().with("l.json", "[\"a\",\"b\"]").with("p.html", section(&format!("{{{{{w}for({w}$i{w},{w}\"l.json\"{w},{w}skip=1{w}){w}}}}}{{{{{w}$i{w}}}}}{{{{{w}end({w}for{w}){w}}}}}"))));
                }
                put(s, "unknown name", n, || b().with("p.html", section(&format!("{{{{ {}() }}}}", "f".repeat(n)))));
                put(s, "name with a suffix", n, || b().with("p.html", section(&format!("{{{{ ifeq{}(1, 1) }}}}{{{{ end(ifeq) }}}}", "q".repeat(n)))));
                put(s, "digits", n, || b().with("v.json", "[\"abcdef\"]").with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{{{{ excerpt($v.0, {}1) }}}}", "0".repeat(n)))));
            }
            for n in &cs {
                let n = *n;
                for (what, a) in [("integers", "1"), ("strings", "\"s\""), ("variables", "$v")] {
                    for f in ["insert", "ifeq", "for", "else", "import", "excerpt"] {
                        put(s, &format!("{} of {}", what, f), n, || b().with("p.html", section(&format!("{{{{ {}({}) }}}}", f, vec![a; n].join(", ")))));
                    }
                }
                put(s, "unclosed", n, || b().with("p.html", section(&("x".repeat(n) + "{{ $env.STUART_ENV"))));
            }
            let mut v: Vec<i64> = (28..=33).flat_map(|k| [(1i64 << k) - 1, 1i64 << k, (1i64 << k) + 1]).collect();
            v.extend([999_999_999, 1_000_000_000, 9_999_999_999]);
            v.extend(v.clone().iter().map(|x| -x));
            for k in v {
                put(s, "integer", k.unsigned_abs() as usize, || b().with("p.html", section(&format!("{{{{ ifeq({k}, {k}) }}}}E{{{{ end(ifeq) }}}}{{{{ iflt({k}, 0) }}}}N{{{{ end(iflt) }}}}"))));
            }
        }
        "C12" => {
            for n in &cs {
                let n = *n;
                if n > 300 {
                    continue;
                }
                let d = "d/".repeat(n);
                let base = || {
                    let mut c = b().with("l.json", "[\"top\"]").with("d/l.json", "[\"in d\"]").with("e/l.json", "[\"in e\"]");
                    c.set(&format!("{}l.json", d), "[\"deep\"]");
                    c.set(&format!("{}m.md", d), "deep md");
                    c
                };
                for (what, p) in [
                    ("depth", format!("{}l.json", d)), ("below depth", format!("{}d/l.json", d)), ("rooted", format!("/{}l.json", d)), ("dots", format!("{}l.json", "./".repeat(n))), ("slashes", format!("d{}l.json", "/".repeat(n + 1))), ("up and down", format!("{}l.json", "d/../".repeat(n))), ("ups", format!("{}l.json", "../".repeat(n))), ("down and up", format!("{}{}l.json", d, "../".repeat(n))), ("down and up over", format!("{}{}l.json", d, "../".repeat(n + 1))),
                ] {
                    put(s, &format!("import {}", what), n, || base().with("p.html", section(&format!("{{{{ import($v, \"{}\") }}}}{{{{ $v.0 }}}}", p))));
                    put(s, &format!("for {}", what), n, || base().with("p.html", section(&format!("{{{{ for($v, \"{}\") }}}}{{{{ $v }}}}{{{{ end(for) }}}}", p))));
                    let q = p.trim_end_matches("l.json");
                    if q.ends_with('/') {
                        put(s, &format!("directory {}", what), n, || base().with("p.html", section(&format!("{{{{ for($v, \"{}\") }}}}{{{{ $v.content }}}}{{{{ end(for) }}}}", q))));
                    }
                }
                put(s, "name", n, || {
                    let f = "f".repeat(n.min(240) + 1);
                    b().with(&format!("{}.json", f), "[\"it\"]").with(&format!("f{}.json", f), "[\"other\"]").with("p.html", section(&format!("{{{{ import($v, \"{}.json\") }}}}{{{{ $v.0 }}}}", f)))
                });
                put(s, "many files", n, || {
                    let mut c = b();
                    for i in 0..n {
                        c.set(&format!("d{}/f{}.json", i % 7, i), format!("[\"<{}>\"]", i));
                    }
                    c.with("p.html", section(&rep(n, |i| format!("{{{{ import($v{}, \"d{}/f{}.json\") }}}}{{{{ $v{}.0 }}}}", i, i % 7, i, i))))
                });
            }
        }
        "C13" | "C19" => {
            let conf = |bits| Conf::of_bits(if id == "C19" { 4 + bits % 4 } else { bits });
            for n in &cs {
                let n = *n;
                if n > 300 {
                    continue;
                }
                tree(s, "files", n, || {
                    let mut c = Tree::base(conf(n % 4));
                    for i in 0..n {
                        match i % 6 {
                            0 => c.add(&format!("content/p{}.html", i), section(&i.to_string())),
                            1 => c.add(&format!("content/d{}/m.md", i), format!("---\nt: \"{}\"\n---\nbody", i)),
                            2 => c.add(&format!("static/s{}.css", i), i.to_string()),
                            3 => c.add(&format!("content/j{}.json", i), format!("[{}]", i)),
                            4 => c.add(&format!("temp/t{}", i), i.to_string()),
                            _ => c.add(&format!("content/raw{}.txt", i), i.to_string()),
                        }
                    }
                    c.prev = n % 2;
                    c
                });
                tree(s, "stale output", n, || {
                    let mut c = Tree::base(conf(n % 4));
                    c.add("content/index.html", section("i"));
                    c.add("static/old0/new", "new");
                    c.prev = 100 + n;
                    c
                });
                let d = "d/".repeat(n);
                for kind in ["content", "static", "temp"] {
                    tree(s, &format!("depth of {}", kind), n, || {
                        let mut c = Tree::base(conf(n % 4));
                        c.add(&format!("{}/{}x.txt", kind, d), "deep");
                        c.add(&format!("{}/{}e.md", if kind == "content" { "content" } else { "static" }, d), "deep md");
                        c.prev = 1;
                        c
                    });
                }
                for kind in ["content", "static"] {
                    tree(s, &format!("name length in {}", kind), n, || {
                        let mut c = Tree::base(conf(n % 4));
                        c.add(&format!("{}/{}.txt", kind, "n".repeat(n.min(240) + 1)), "x");
                        c.add(&format!("content/{}.html", "p".repeat(n.min(240) + 1)), section("P"));
                        c
                    });
                }
            }
            for n in &ls {
                let n = *n;
                if id == "C19" {
                    let x = prose(n);
                    tree(s, "name", n, || Tree::base(Conf { name: format!("n{}", x), author: Some(x.clone()), ..conf(0) }));
                    tree(s, "JSON string", n, || Tree::base(conf(0)).with("content/v.json", V::Obj(vec![(x.clone(), V::s(&x))]).print()));
                    tree(s, "front matter", n, || Tree::base(conf(0)).with("content/m.md", format!("---\nk: \"{}\"\n---\nb", x)));
                    if n <= 300 {
                        tree(s, "JSON depth", n.min(100), || Tree::base(conf(0)).with("content/v.json", format!("{}1{}", "[{\"k\":".repeat(n.min(100)), "}]".repeat(n.min(100)))));
                        tree(s, "keys", n, || Tree::base(conf(0)).with("content/m.md", format!("---\n{}---\nb", rep(n, |i| format!("k{}: \"v{}\"\n", i, i)))));
                        tree(s, "members", n, || Tree::base(conf(0)).with("content/v.json", V::Obj((0..n).map(|i| (format!("k{}", i), V::Num(i as f64))).collect()).print()));
                    }
                } else {
                    for kind in ["content", "static", "temp"] {
                        tree(s, &format!("size in {}", kind), n, || {
                            let mut c = Tree::base(conf(0));
                            c.add(&format!("{}/f.bin", kind), (0..n).map(|i| (i * 7 + i / 255) as u8).collect::<Vec<u8>>());
                            c
                        });
                    }
                    if n <= 8193 {
                        tree(s, "page size", n, || Tree::base(conf(1)).with("content/p.html", section(&prose(n))).with("content/m.md", prose(n)));
                    }
                }
            }
        }
        "C26" => {
            let site = |c: Conf| Tree::base(c).with("content/p.html", section("p")).with("content/d.json", "[1]").with("content/m.md", "M");
            for n in &ls {
                let n = *n;
                for bits in [0, 7] {
                    tree(s, &format!("author, settings {}", bits), n, || site(Conf { name: prose(n) + "n", author: Some(prose(n)), ..Conf::of_bits(bits) }));
                    for (what, x) in [("comment", format!("# {}\n", prose(n))), ("empty lines", "\n".repeat(n)), ("unknown setting", format!("[other]\nx = \"{}\"\n", prose(n)))] {
                        tree(s, &format!("{}, settings {}", what, bits), n, || {
                            let mut c = site(Conf::of_bits(bits));
                            c.manifest = Some((x.clone() + &c.conf.toml()).into_bytes());
                            c
                        });
                        tree(s, &format!("{} after, settings {}", what, bits), n, || {
                            let mut c = site(Conf::of_bits(bits));
                            c.manifest = Some((c.conf.toml() + &x).into_bytes());
                            c
                        });
                    }
                }
            }
            for n in cs.iter().filter(|n| **n <= 300) {
                tree(s, "unknown settings", *n, || {
                    let mut c = site(Conf::of_bits(7));
                    c.manifest = Some((c.conf.toml() + &rep(*n, |i| format!("k{} = {}\n", i, i)) + &rep(*n, |i| format!("[t{}]\nname = \"{}\"\n", i, i))).into_bytes());
                    c
                });
            }
        }
        "C14" => {
            // one conflict somewhere among n files
            for n in &cs {
                let n = *n;
                if n > 130 {
                    continue;
                }
                for (what, a, z) in [("page and static", "content/#.html", "static/#/index.html"), ("static and temp", "static/#", "temp/#"), ("file and directory", "content/#.txt", "static/#.txt/q"), ("Markdown and page", "content/#.md", "content/#.html")] {
                    let mut at = vec![0, n / 2, n.saturating_sub(1)];
                    at.dedup();
                    for k in at {
                        for bad in [false, true] {
                            tree(s, &format!("{} at {} {}", what, k, if bad { "conflict" } else { "none" }), n, || {
                                let mut c = Tree::base(Conf::of_bits(1));
                                for i in 0..n {
                                    for (p, kind) in [("content/f#.html", 0), ("static/s#", 1), ("temp/t#", 2)] {
                                        if i % 3 == kind {
                                            c.add(&p.replace('#', &i.to_string()), if kind == 0 { section("x") } else { "x".into() });
                                        }
                                    }
                                }
                                let name = format!("f{}c", k);
                                c.add(&a.replace('#', &name), if a.ends_with(".html") { section("A") } else { "A".into() });
                                if bad {
                                    c.add(&z.replace('#', &name), if z.starts_with("content") && z.ends_with(".html") { section("Z") } else { "Z".into() });
                                }
                                c.prev = 1;
                                c
                            });
                        }
                        // the same below k directories
                        let d = "d/".repeat(k);
                        tree(s, &format!("{} below {}", what, k), n, || {
                            let mut c = Tree::base(Conf::of_bits(1));
                            for (p, v) in [(a, "A"), (z, "Z")] {
                                let (top, f) = p.split_once('/').unwrap();
                                c.add(&format!("{}/{}{}", top, d, f.replace('#', "f")), if top == "content" && p.ends_with(".html") { section(v) } else { v.into() });
                            }
                            c.prev = 1;
                            c
                        });
                    }
                }
            }
        }
        "C20" => {
            for n in &ls {
                let n = *n;
                let with = |x: String| {
                    let mut c = b().with("two.json", "[\"a\",\"b\"]").with("p.html", section(&x));
                    c.plugins = 1;
                    c
                };
                if n <= 1025 {
                    put(s, "calls", n, || with(rep(n, |i| format!("{{{{ show({}) }}}}", i))));
                    put(s, "arguments", n, || with(format!("{{{{ p::show({}) }}}}", (0..n).map(|i| if i % 2 == 0 { i.to_string() } else { format!("\"{}\"", i) }).collect::<Vec<_>>().join(", "))));
                    put(s, "named arguments", n, || with(format!("{{{{ p::show({}) }}}}", (0..n).map(|i| format!("k{}={}", i, i)).collect::<Vec<_>>().join(", "))));
                    put(s, "variables", n, || with(rep(n, |i| format!("{{{{ set($v{}, \"<{}>\") }}}}", i, i)) + &rep(n, |i| format!("{{{{ $v{} }}}}", i))));
                    nest(s, "depth", n, || with(format!("{}{{{{ set($v, \"1\") }}}}{{{{ show($v) }}}}{}{{{{ get($v) }}}}", "{{ ifeq(1, 1) }}".repeat(n), "{{ end(ifeq) }}".repeat(n))));
                }
                put(s, "string argument", n, || with(format!("{{{{ show(\"{}\") }}}}", prose(n))));
                put(s, "file", n, || {
                    let mut c = with("P".into());
                    c.set("a.up", prose(n));
                    c
                });
            }
        }
        _ => unreachable!(),
    }
}
