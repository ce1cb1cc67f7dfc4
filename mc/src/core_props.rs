//! Properties of the template language and the builder, explored in process.

use crate::json::V;
use crate::rt::{Shard, Tier};
use crate::site::{Mode, Site, MD, ROOT};

/// Calls `f` with every sequence of at most `n` elements of 0..k (shortest first within a prefix order).
pub fn seqs(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(k: usize, n: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if cur.len() == n {
            return;
        }
        for i in 0..k {
            cur.push(i);
            go(k, n, cur, f);
            cur.pop();
        }
    }
    go(k, n, &mut vec![], f);
}

/// Calls `f` with every element of the product.
pub fn product(dims: &[usize], f: &mut dyn FnMut(&[usize])) {
    let mut cur = vec![0; dims.len()];
    if dims.iter().any(|d| *d == 0) {
        return;
    }
    loop {
        f(&cur);
        let mut i = dims.len();
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            cur[i] += 1;
            if cur[i] < dims[i] {
                break;
            }
            cur[i] = 0;
        }
    }
}

pub fn join(alpha: &[&str], s: &[usize]) -> String {
    s.iter().map(|i| alpha[*i]).collect()
}

fn base(mode: Mode) -> Site {
    Site::new(mode).with("root.html", ROOT).with("md.html", MD)
}

pub fn section(t: &str) -> String {
    format!("{{{{ begin(\"x\") }}}}{}{{{{ end(\"x\") }}}}", t)
}

// ---------------------------------------------------------------- C01

pub fn c01_bounds(t: Tier) -> String {
    format!(
        "every text of length <= {} over {{ }} \\ letter space LF CR 2-byte 4-byte, and every sequence of <= {} chunks of 13 (tags, escapes, braces, quotes, line ends), each as page text, root text before and after the insert, and Markdown body",
        (t.pick(5, 6) + t.more()), (t.pick(4, 5) + t.more())
    )
        + &crate::contexts::bounds(t, "C01")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

pub fn c01(s: &mut Shard) {
    const CH: [&str; 9] = ["{", "}", "\\", "a", " ", "\n", "\r", "é", "😀"];
    const CK: [&str; 13] = [
        "{{ $env.STUART_ENV }}", "{{$env.STUART_ENV}}", "{", "}", "}}", "\\", "\\{{", "\\\\{{", "\n", "\r\n", "é$", "\"x\"", "{{ begin(\"s\") }}{{ end(\"s\") }}",
    ];
    let md = section("{{ $self.content }}|{{ $self.markdown }}");
    let put = |s: &mut Shard, text: &str| {
        for place in 0..4 {
            if !s.owns() {
                continue;
            }
            let b = Site::new(Mode::Output);
            let site = match place {
                0 => b.with("root.html", "<{{ insert(\"x\") }}>").with("p.html", section(text)),
                1 => b.with("root.html", format!("{}{{{{ insert(\"x\") }}}}", text)).with("p.html", section("P")),
                2 => b.with("root.html", format!("{{{{ insert(\"x\") }}}}{}", text)).with("p.html", section("P")),
                _ => b.with("root.html", ROOT).with("md.html", &md).with("p.md", text),
            };
            s.run(&site);
        }
    };
    seqs(CH.len(), (s.tier.pick(5, 6) + s.tier.more()), &mut |q| put(s, &join(&CH, q)));
    seqs(CK.len(), (s.tier.pick(4, 5) + s.tier.more()), &mut |q| put(s, &join(&CK, q)));
    crate::contexts::run(s, "C01");
    crate::ladders::run(s, "C01");
    crate::chars::run(s, "C01");
}

// ---------------------------------------------------------------- C02

pub fn c02_bounds(t: Tier) -> String {
    format!(
        "every string of <= {} tokens of 20 after an opening brace pair, every argument text of <= {} tokens for each function (executed and not), every JSON text of <= {} tokens of 19, every front matter of <= {} lines of 12, every prefix of four rich files with five continuations, nesting ladders to depth 100000, every site of the quick explorations of C03 to C11 and C20, non-Unicode environments",
        (t.pick(4, 5) + t.more()), (t.pick(3, 4) + t.more()), (t.pick(4, 5) + t.more()), (t.pick(3, 4) + t.more())
    )
}

const RICH: [(&str, &str); 4] = [
    ("p.html", "{{ begin(\"x\") }}a\\{{b{{ import($d, \"data.json\") }}{{ for($i, $d.l, skip=0, limit=2, sortby=$i.k, order=\"desc\") }}<b>{{ $i.k }}</b>{{ ifeq($i.k, \"a\") }}é{{ else() }}{{ ifdefined($i.z) }}z{{ end(ifdefined) }}{{ end(ifeq) }}{{ end(for) }}{{ excerpt($d.s, 5) }}{{ timetoread($d.s) }}{{ dateformat($d.t, \"%d %B %Y\") }}{{ for($p, \"posts/\") }}{{ $p.content }}{{ end(for) }}{{ $env.STUART_ENV }}{{ end(\"x\") }}"),
    ("posts/q.md", "---\ntitle: \"T\"\ndate: \"2021-01-02\"\n---\n\n# H {{ $env.STUART_ENV }}\n\n{{ for($p, \"posts/\") }}{{ $p.title }}{{ end(for) }}\n\n| a | b |\n|---|---|\n| 1 | 2 |\n\n- [ ] x[^1]\n\n[^1]: n\n"),
    ("data.json", "{\"l\":[{\"k\":\"b\"},{\"k\":\"a\\u00e9\\n\"}],\"s\":\"<p>héllo wörld</p> x\",\"t\":\"2020-02-29 10:00\",\"n\":[-1.5e3,true,null,{}]}"),
    ("root.html", "<h>{{ insert(\"x\") }}</h>{{ ifne(1, 2) }}{{ insert(\"x\") }}{{ end(ifne) }}"),
];

fn rich(mode: Mode) -> Site {
    let mut b = base(mode);
    for (p, t) in RICH {
        b.set(p, t);
    }
    b
}

pub fn c02(s: &mut Shard) {
    const TK: [&str; 20] = [
        "{{", "}}", "$", "a", ".", "(", ")", ",", "\"", "=", " ", "\n", "1", "-", "begin", "for", "\\", "é", "skip", "x.json",
    ];
    const FN: [&str; 16] = crate::model::BUILTINS;
    const AT: [&str; 16] = ["$", "$d", "\"", "d/", "x.json", ",", "=", "skip", "sortby", "0", "99999999999", "-1", " ", ".", "é", "for"];
    seqs(TK.len(), (s.tier.pick(4, 5) + s.tier.more()), &mut |q| {
        if s.owns() {
            s.run(&base(Mode::NoCrash).with("p.html", format!("{{{{{}", join(&TK, q))));
        }
    });
    for f in FN {
        seqs(AT.len(), (s.tier.pick(3, 4) + s.tier.more()), &mut |q| {
            if s.owns() {
                let tag = format!("{{{{ {}({}) }}}}", f, join(&AT, q));
                s.run(&base(Mode::NoCrash).with("d.json", "{\"a\":[1,{}]}").with("p.html", format!("{{{{ import($d, \"d.json\") }}}}{}", tag)));
            }
        });
    }
    const JS: [&str; 19] = ["{", "}", "[", "]", "\"", ":", ",", "\\", "u", "d800", "0", "-", ".", "e", "null", "true", "a", " ", "é"];
    seqs(JS.len(), (s.tier.pick(4, 5) + s.tier.more()), &mut |q| {
        if s.owns() {
            s.run(&base(Mode::NoCrash).with("d.json", join(&JS, q)).with("p.html", section("{{ import($d, \"d.json\") }}")));
        }
    });
    const FM: [&str; 12] = ["---", "--- x", "----", "k: \"v\"", "k:\"", "k", ":", "", "k: v", "k: \"a\"b\"", " é: \"{{\"", "{{ $self.k }}"];
    for eol in ["\n", "\r\n", "\r"] {
        seqs(FM.len(), (s.tier.pick(3, 4) + s.tier.more()), &mut |q| {
            if s.owns() {
                let lines: Vec<&str> = q.iter().map(|i| FM[*i]).collect();
                s.run(&base(Mode::NoCrash).with("p.md", format!("---{}{}", eol, lines.join(eol))));
            }
        });
    }
    for (p, t) in RICH {
        let cuts: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
        for c in cuts {
            for tail in ["", "\"", "{{", "}}", "\\", "\u{feff}", "\"]}", ") }}"] {
                if s.owns() {
                    let mut site = rich(Mode::NoCrash);
                    site.set(p, format!("{}{}", &t[..c], tail));
                    s.run(&site);
                }
            }
        }
    }
    for depth in [1usize, 10, 100, 1000, 10_000, 100_000] {
        let ladder = |o: &str, c: &str| format!("{}{}", o.repeat(depth), c.repeat(depth));
        let l: Vec<(&str, String)> = vec![
            ("p.html", section(&ladder("{{ begin(\"y\") }}", "{{ end(\"y\") }}"))),
            ("p.html", section(&ladder("{{ ifeq(1,1) }}", "{{ end(ifeq) }}"))),
            ("p.html", section(&ladder("{{ ifeq(1,2) }}", "{{ end(ifeq) }}"))),
            ("p.html", section(&ladder("{{ ifdefined($env) }}", "{{ end(ifdefined) }}"))),
            ("p.html", section(&ladder("{{ for($a, \"one.json\") }}", "{{ end(for) }}"))),
            ("root.html", ladder("{{ ifeq(1,1) }}", "{{ end(ifeq) }}")),
            ("p.md", ladder("{{ ifeq(1,1) }}", "{{ end(ifeq) }}")),
            ("d.json", ladder("[", "]")),
            ("d.json", ladder("{\"a\":", "}")),
            ("p.md", ladder("> ", "")),
            ("p.md", ladder("[", "](x)")),
            ("p.md", ladder("*a ", "*")),
            ("p.md", ladder("<", ">")),
            ("p.html", section(&format!("{{{{ $env{} }}}}", ".a".repeat(depth)))),
            ("p.html", ladder("{{", "}}")),
        ];
        for (p, t) in l {
            // quadratic Markdown is slow, not a hang: keep it within reason
            if p == "p.md" && depth > 1000 && !t.starts_with("{{") {
                continue;
            }
            if s.owns() {
                let mut site = base(Mode::NoCrash).with("one.json", "[1]");
                site.key = Some(format!("nesting {} {}", p, t.chars().take(24).collect::<String>()));
                site.set(p, t);
                s.run(&site);
            }
        }
    }
    // every site of the other explorations of the template language: whatever they hold, the build does not panic
    let tier = std::mem::replace(&mut s.tier, Tier::Quick);
    crate::site::FORCE_NOCRASH.store(true, std::sync::atomic::Ordering::SeqCst);
    for f in [c03, c04, c05, c06, c07, c08, c09, c10, c11, crate::plugins::c20] {
        f(s);
    }
    crate::site::FORCE_NOCRASH.store(false, std::sync::atomic::Ordering::SeqCst);
    s.tier = tier;
    for name in [&b"A"[..], b"\xff", b"A\xc3\xa9", b"A\xc3"] {
        for val in [&b""[..], b"x", b"\xff\xfe", b"\xc3\xa9"] {
            s.one(&EnvCase { name: name.to_vec(), val: val.to_vec() });
        }
    }
}

/// A build in a process environment with arbitrary bytes.
struct EnvCase {
    name: Vec<u8>,
    val: Vec<u8>,
}

impl crate::rt::Case for EnvCase {
    fn json(&self) -> V {
        V::Obj(vec![("env_name".into(), crate::site::bytes_json(&self.name)), ("env_value".into(), crate::site::bytes_json(&self.val))])
    }
    fn run(&self, rt: &mut crate::rt::Rt) -> crate::rt::Outcome {
        use std::os::unix::ffi::OsStrExt;
        let k = std::ffi::OsStr::from_bytes(&self.name);
        std::env::set_var(k, std::ffi::OsStr::from_bytes(&self.val));
        let mut o = base(Mode::Output).with("p.html", section("{{ $env.STUART_ENV }}")).run(rt);
        std::env::remove_var(k);
        if let Some((key, w)) = o.viol.take() {
            o.viol = Some(("environment".into(), format!("{} ({})", w, key)));
        }
        o
    }
}

pub fn c02_json(v: &V) -> Box<dyn crate::rt::Case> {
    match v.get("env_name") {
        Some(n) => Box::new(EnvCase { name: crate::site::json_bytes(n), val: crate::site::json_bytes(v.get("env_value").unwrap()) }),
        None => Site::from_json(v),
    }
}

// ---------------------------------------------------------------- C03

/// All bodies with exactly `n` blocks; every gap carries a mark `#k#` to be replaced by text.
pub fn bodies(n: usize, kinds: &[(&str, &str, bool)]) -> Vec<String> {
    let mut memo: Vec<Vec<String>> = vec![vec!["#".into()]];
    for m in 1..=n {
        let mut v = vec![];
        // first block has a children, rest of the body has m-1-a blocks
        for a in 0..m {
            for (open, close, has_else) in kinds {
                let mut inners: Vec<String> = vec![];
                if *has_else {
                    for x in 0..=a {
                        for p in &memo[x] {
                            for q in &memo[a - x] {
                                inners.push(format!("{}{{{{ else() }}}}{}", p, q));
                            }
                        }
                    }
                } else {
                    inners = memo[a].clone();
                }
                for i in &inners {
                    for r in &memo[m - 1 - a] {
                        v.push(format!("#{}{}{}{}", open, i, close, r));
                    }
                }
            }
        }
        memo.push(v);
    }
    memo.pop().unwrap()
}

/// Replaces the marks by distinct letters, the one with index `poison` by `bad` too.
fn marks(t: &str, poison: Option<(usize, &str)>) -> String {
    let mut o = String::with_capacity(t.len() + 32);
    let mut k = 0;
    for c in t.chars() {
        if c == '#' {
            o.push((b'A' + (k % 26) as u8) as char);
            if let Some((p, bad)) = poison {
                if p == k {
                    o.push_str(bad);
                }
            }
            k += 1;
        } else {
            o.push(c);
        }
    }
    o
}

pub fn c03_bounds(t: Tier) -> String {
    format!("6 comparisons x all ordered pairs of 41 operands x (else, no else); ifdefined x 16 paths; every block tree of <= {} blocks over 10 block kinds (5 blocks: 6 kinds), with an erroneous or side-effecting tag at each single position", (t.pick(3, 4) + t.more()))
        + &crate::contexts::bounds(t, "C03")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

const VALUES: &str = r#"{"z":0,"o":1,"of":1.5,"ot":1.25,"m":-1,"mh":-0.5,"h":0.5,"big":2147483648,"max":2147483647,"min":-2147483648,"bigm":-2147483649,"e":1e20,"e2":2e20,"t":3000000000.5,"s":"a","es":"","n1":"1","long":"abc","acc":"é","sp":"a ","up":"A","null":null,"tr":true,"l":["a",1],"ob":{"k":"a","n":1},"zs":"0"}"#;

pub fn c03(s: &mut Shard) {
    let ops = ["ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"];
    let operands = [
        "0", "1", "-1", "2147483647", "-2147483648", "2", "\"\"", "\"a\"", "\"1\"", "\"abc\"", "\"é\"", "\"a \"", "$v.z", "$v.o", "$v.of", "$v.ot", "$v.m",
        "$v.mh", "$v.h", "$v.big", "$v.max", "$v.min", "$v.bigm", "$v.e", "$v.e2", "$v.t", "$v.s", "$v.es", "$v.n1", "$v.long", "$v.acc", "$v.sp", "$v.up",
        "$v.null", "$v.tr", "$v.l", "$v.l.0", "$v.ob.n", "$v.ob", "$w", "$v.q",
    ];
    let imp = "{{ import($v, \"v.json\") }}";
    for op in ops {
        for a in operands {
            for b in operands {
                for e in ["", "{{ else() }}N"] {
                    if s.owns() {
                        let t = section(&format!("{}{{{{ {}({}, {}) }}}}Y{}{{{{ end({}) }}}}.", imp, op, a, b, e, op));
                        let mut c = base(Mode::Output).with("v.json", VALUES).with("p.html", t);
                        c.key = Some(format!("{}({}, {})", op, a, b));
                        s.run(&c);
                    }
                }
            }
        }
    }
    for v in ["$v", "$v.z", "$v.null", "$v.q", "$v.es", "$v.tr", "$v.l", "$v.l.0", "$v.l.2", "$v.l.x", "$v.ob.k", "$v.ob.z", "$v.s.k", "$w", "$w.z", "$env", "$env.STUART_ENV", "$env.NOPE", "$self", "$v.null.x"] {
        for e in ["", "{{ else() }}N"] {
            s.one(&base(Mode::Output).with("v.json", VALUES).with("p.html", section(&format!("{}{{{{ ifdefined({}) }}}}Y{}{{{{ end(ifdefined) }}}}.", imp, v, e))));
        }
    }
    let kinds: [(&str, &str, bool); 10] = [
        ("{{ ifeq(1,1) }}", "{{ end(ifeq) }}", false),
        ("{{ ifeq(1,2) }}", "{{ end(ifeq) }}", false),
        ("{{ ifgt(2,1) }}", "{{ end(ifgt) }}", true),
        ("{{ ifne(1,1) }}", "{{ end(ifne) }}", true),
        ("{{ ifdefined($env) }}", "{{ end(ifdefined) }}", true),
        ("{{ ifdefined($q) }}", "{{ end(ifdefined) }}", true),
        ("{{ ifdefined($q) }}", "{{ end(ifdefined) }}", false),
        ("{{ begin(\"s\") }}", "{{ end(\"s\") }}", false),
        ("{{ for($i, \"two.json\") }}", "{{ end(for) }}", false),
        ("{{ for($i, \"none.json\") }}", "{{ end(for) }}", false),
    ];
    let root = "{{ insert(\"x\") }}{{ insert(\"s\") }}";
    let _ = root;
    let deep = s.tier == Tier::Deep;
    for n in 1..=s.tier.pick(3, 4) + s.tier.more() {
        let some = [kinds[0], kinds[2], kinds[3], kinds[7], kinds[8], kinds[9]];
        for t in bodies(n, if n < 5 { &kinds } else { &some }) {
            if !s.owns() {
                continue;
            }
            let m = t.matches('#').count();
            let bads: &[&str] = if n < 3 { &["{{ $undefined }}", "{{ import($e, \"two.json\") }}{{ import($e, \"two.json\") }}", "{{ insert(\"none\") }}"] } else if n == 3 || deep && n == 4 { &["{{ $undefined }}"] } else { &[] };
            let mut all: Vec<Option<(usize, &str)>> = vec![None];
            for b in bads {
                for k in 0..m {
                    all.push(Some((k, b)));
                }
            }
            for p in all {
                s.run(&base(Mode::Output).with("two.json", "[1,2]").with("none.json", "[]").with("p.html", section(&marks(&t, p))));
            }
        }
    }
    crate::contexts::run(s, "C03");
    crate::ladders::run(s, "C03");
    crate::chars::run(s, "C03");
}

// ---------------------------------------------------------------- C04

pub fn c04_bounds(t: Tier) -> String {
    format!("all lists of <= {} items over 5 item shapes x skip(5) x limit(5) x sortby(3) x order(3) x 4 array sources; all subsets of 7 directory entries x the same options; loop nests of depth 3 with sizes 0..2 and 6 bodies; 20 wrong sources", (t.pick(3, 4) + t.more()))
        + &crate::contexts::bounds(t, "C04")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

pub fn c04(s: &mut Shard) {
    let shapes = ["{\"k\":\"a\",\"n\":\"#\"}", "{\"k\":\"b\",\"n\":\"#\"}", "{\"n\":\"#\"}", "{\"k\":7,\"n\":\"#\",\"o\":{\"k\":\"b\"}}", "{\"k\":\"A\",\"n\":\"#\",\"o\":{\"k\":\"a\"}}"];
    let nums = ["", "0", "1", "2", "5"];
    let sorts = ["", "$i.k", "$i.o.k"];
    let orders = ["", "asc", "desc"];
    let opts = |k: usize, l: usize, so: usize, or: usize| {
        let mut o = String::new();
        if so > 0 {
            o += &format!(", sortby={}", sorts[so]);
        }
        if k > 0 {
            o += &format!(", skip={}", nums[k]);
        }
        if or > 0 {
            o += &format!(", order=\"{}\"", orders[or]);
        }
        if l > 0 {
            o += &format!(", limit={}", nums[l]);
        }
        o
    };
    let n = s.tier.pick(3, 4) + s.tier.more();
    seqs(shapes.len(), n, &mut |q| {
        let list = format!("[{}]", q.iter().enumerate().map(|(i, x)| shapes[*x].replace('#', &i.to_string())).collect::<Vec<_>>().join(","));
        product(&[5, 5, 3, 3], &mut |o| {
            if !s.owns() {
                return;
            }
            let op = opts(o[0], o[1], o[2], o[3]);
            // all sources in one page, each with text around it
            let t = format!(
                "{{{{ import($w, \"w.json\") }}}}1{{{{ for($i, \"l.json\"{op}) }}}}[{{{{ $i.n }}}}]{{{{ end(for) }}}}2{{{{ for($i, $w.p{op}) }}}}[{{{{ $i.n }}}}]{{{{ end(for) }}}}3{{{{ for($i, $w.q.1{op}) }}}}({{{{ $i.n }}}}{{{{ ifdefined($i.o) }}}}o{{{{ end(ifdefined) }}}}){{{{ end(for) }}}}4{{{{ import($l, \"l.json\") }}}}{{{{ for($l, $l{op}) }}}}[{{{{ $l.n }}}}]{{{{ end(for) }}}}5",
                op = op
            );
            s.run(&base(Mode::Output).with("l.json", &list).with("w.json", format!("{{\"p\":{},\"q\":[0,{}]}}", list, list)).with("p.html", section(&t)));
        });
    });
    // directories
    let entries = ["d/b.md", "d/a.md", "d/B.md", "d/a-1.md", "d/sub/x.md", "d/note.txt", "d/data.json"];
    for mask in 0..1usize << entries.len() {
        product(&[5, 5, 2, 3], &mut |o| {
            if s.tier == Tier::Quick && o[0] > 2 && o[1] > 2 {
                return;
            }
            if !s.owns() {
                return;
            }
            let op = opts(o[0], o[1], o[2], o[3]);
            let mut c = base(Mode::Output);
            c.dirs.push("d".into());
            for (i, e) in entries.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    let k = if i % 2 == 0 { "k: \"x\"\n" } else if i == 1 { "k: \"y\"\n" } else { "" };
                    c.set(e, if e.ends_with(".md") { format!("---\nn: \"{}\"\n{}---\n{}", e, k, i) } else { "[]".into() });
                }
            }
            c.set("p.html", section(&format!("1{{{{ for($i, \"d/\"{op}) }}}}[{{{{ $i.n }}}}{{{{ $i.content }}}}]{{{{ end(for) }}}}2", op = op)));
            s.run(&c);
        });
    }
    // nests
    let items = ["[]", "[\"1\"]", "[\"1\",\"2\"]"];
    let inner = ["{{ $a }}{{ $b }}{{ $c }}", "{{ begin(\"s\") }}{{ $c }}{{ end(\"s\") }}", "{{ ifeq($c, \"1\") }}y{{ else() }}n{{ end(ifeq) }}", "{{ import($z, \"l1.json\") }}{{ for($z, $z) }}{{ $z }}{{ end(for) }}", "", "{{ ifdefined($zz) }}{{ for($d, \"l0.json\") }}{{ end(for) }}{{ end(ifdefined) }}q"];
    product(&[3, 3, 3, 6, 2], &mut |o| {
        if !s.owns() {
            return;
        }
        let v = if o[4] == 0 { ["a", "b", "c"] } else { ["a", "a", "c"] };
        let body = if o[4] == 0 { inner[o[3]].to_string() } else { inner[o[3]].replace("$b", "$a") };
        let t = format!(
            "<{{{{ for(${}, \"l0.json\") }}}}({{{{ for(${}, \"l1.json\") }}}}[{{{{ for(${}, \"l2.json\") }}}}{}{{{{ end(for) }}}}]{{{{ end(for) }}}}){{{{ end(for) }}}}>",
            v[0], v[1], v[2], body
        );
        s.run(&base(Mode::Output).with("l0.json", items[o[0]]).with("l1.json", items[o[1]]).with("l2.json", items[o[2]]).with("p.html", section(&t)));
    });
    // what is not a list
    for src in ["\"missing.json\"", "\"missing/\"", "\"o.json\"", "\"n.json\"", "\"s.json\"", "\"d.json/\"", "\"d/\"", "\"d/x.json\"", "\"/\"", "\"./\"", "$w", "$w.o", "$w.s", "$w.n", "$w.z", "$none", "$w.l", "\"p.html/\"", "\"dir.json\"", "\"dir.json/\"", "$env"] {
        for body in ["", "x", "{{ $i }}"] {
            if s.owns() {
                s.run(&base(Mode::Output).with("o.json", "{}").with("n.json", "null").with("s.json", "\"a\"").with("w.json", "{\"o\":{},\"s\":\"x\",\"n\":null,\"l\":[]}").with("dir.json/a.md", "a").with("p.html", section(&format!("{{{{ import($w, \"w.json\") }}}}{{{{ for($i, {}) }}}}{}{{{{ end(for) }}}}", src, body))));
            }
        }
    }
    crate::contexts::run(s, "C04");
    crate::ladders::run(s, "C04");
    crate::chars::run(s, "C04");
}

// ---------------------------------------------------------------- sequences with pruning

/// Cuts a text there for the question whether any continuation is possible.
const TAIL: &str = "\u{1}";

/// A section around a text that may be continued.
fn open_section(t: &str) -> String {
    format!("{{{{ begin(\"x\") }}}}{}{}{{{{ end(\"x\") }}}}", t, TAIL)
}

/// Depth-first over token sequences; a sequence whose failure no continuation can repair is not extended.
/// What follows `TAIL` does not count for that.
fn dfs(s: &mut Shard, alpha: &[&str], n: usize, mk: &dyn Fn(&str) -> Site) {
    fn inside(s: &mut Shard, alpha: &[&str], n: usize, text: &str, mk: &dyn Fn(&str) -> Site) {
        let mut c = mk(text);
        let mut cut = c.clone();
        for (f, d) in cut.files.iter_mut() {
            if let Some(i) = d.iter().position(|b| *b == 1) {
                d.truncate(i);
                c.files.get_mut(f).unwrap().remove(i);
            }
        }
        let dead = matches!(cut.model(), Err(crate::model::Fail::Err { eof: false, .. }));
        s.run(&c);
        if dead || n == 0 {
            return;
        }
        for a in alpha {
            inside(s, alpha, n - 1, &format!("{}{}", text, a), mk);
        }
    }
    fn top(s: &mut Shard, alpha: &[&str], d: usize, n: usize, text: &str, mk: &dyn Fn(&str) -> Site) {
        if d == 0 || n == 0 {
            if s.owns() {
                inside(s, alpha, n, text, mk);
            }
            return;
        }
        if s.owns() {
            inside(s, &[], 0, text, mk);
        }
        for a in alpha {
            top(s, alpha, d - 1, n - 1, &format!("{}{}", text, a), mk);
        }
    }
    top(s, alpha, 2, n, "", mk);
}

pub fn c05_bounds(t: Tier) -> String {
    format!("every sequence of <= {} scope operations of 17 (imports, loops, sections, conditionals, variable outputs) in a page, <= {} in Markdown and in the root template, with probes for leaks in the root and a second page; every pair of 15 values bound to one name by 6 kinds of binder, seen by 13 uses; environment histories", (t.pick(5, 6) + t.more()), (t.pick(4, 5) + t.more()))
        + &crate::contexts::bounds(t, "C05")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

pub fn c05(s: &mut Shard) {
    let alpha = [
        "{{ import($a, \"o.json\") }}", "{{ import($b, \"l.json\") }}", "{{ import($a, \"l.json\") }}", "{{ begin(\"s\") }}", "{{ end(\"s\") }}", "{{ for($a, \"l.json\") }}",
        "{{ for($b, $b) }}", "{{ end(for) }}", "{{ ifdefined($a.p) }}", "{{ else() }}", "{{ end(ifdefined) }}", "[{{ $a.p }}]", "[{{ $b.1.p }}]", "[{{ $a.q.r }}]", "[{{ $a.n }}]", "[{{ $a.l.0 }}]", "[{{ $b.p }}]",
    ];
    let root = "{{ ifdefined($a) }}LEAK{{ end(ifdefined) }}{{ ifdefined($b) }}LEAK{{ end(ifdefined) }}{{ insert(\"x\") }}";
    let files = |m: Mode| {
        Site::new(m)
            .with("root.html", root)
            .with("md.html", format!("{{{{ ifdefined($a) }}}}LEAK{{{{ end(ifdefined) }}}}{}", MD))
            .with("o.json", "{\"p\":\"P\",\"q\":{\"r\":\"R\"},\"n\":null,\"l\":[\"x\",1]}")
            .with("l.json", "[{\"p\":\"1\",\"q\":{}},{\"p\":\"2\",\"n\":5}]")
    };
    dfs(s, &alpha, (s.tier.pick(5, 6) + s.tier.more()), &|t| files(Mode::Output).with("p.html", open_section(t)).with("z.html", "{{ begin(\"x\") }}{{ ifdefined($a) }}LEAK{{ end(ifdefined) }}{{ end(\"x\") }}"));
    dfs(s, &alpha, (s.tier.pick(4, 5) + s.tier.more()), &|t| files(Mode::Output).with("p.md", t).with("z.md", "{{ ifdefined($a) }}LEAK{{ end(ifdefined) }}"));
    dfs(s, &alpha, (s.tier.pick(4, 5) + s.tier.more()), &|t| files(Mode::Output).with("root.html", format!("<{}>{{{{ insert(\"x\") }}}}", t)).with("p.html", section("{{ import($a, \"o.json\") }}P")));
    // values
    for v in ["\"s\"", "\"\"", "null", "true", "false", "0", "1.5", "[]", "{}", "[\"a\",[\"b\"]]", "{\"\":\"e\",\"k\":{\"1\":\"one\",\"a-b\":\"x\"}}", "{\"k\":\"first\",\"k\":\"second\"}"] {
        for p in ["$v", "$v.0", "$v.1", "$v.1.0", "$v.k", "$v.k.1", "$v.k.k", "$v.", "$v..", "$v.-1", "$v.+1", "$v.01", "$v.1.", "$.v", "$v.k.0"] {
            if s.owns() {
                let mut c = base(Mode::Output).with("v.json", v).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}[{{{{ {} }}}}]", p)));
                c.key = Some(format!("{} of {}", p, v));
                s.run(&c);
            }
        }
    }
    // names bound twice, to any pair of values, by imports and loops
    let probes = [
        "[{{ ifdefined($v) }}D{{ else() }}U{{ end(ifdefined) }}]", "[{{ ifdefined($v.k) }}D{{ else() }}U{{ end(ifdefined) }}]", "[{{ $v }}]", "[{{ $v.k }}]", "[{{ for($x, $v) }}{{ $x }}{{ end(for) }}]",
        "[{{ for($x, $v.k) }}({{ $x }}){{ end(for) }}]", "[{{ ifeq($v.k, \"s\") }}E{{ else() }}N{{ end(ifeq) }}]", "[{{ ifne($v.k, $v.m) }}E{{ else() }}N{{ end(ifne) }}]", "[{{ excerpt($v.k, 1) }}]", "[{{ timetoread($v.k) }}]",
        "[{{ dateformat($v.k, \"%F\") }}]", "[{{ ifgt($v.k, 1) }}G{{ else() }}L{{ end(ifgt) }}]", "[{{ for($x, \"t.json\", sortby=$x.k) }}{{ $x.k }}{{ end(for) }}]",
    ];
    let vals = ["null", "false", "\"\"", "0", "[]", "{}", "\"s\"", "2", "{\"k\":\"s\"}", "{\"k\":null}", "{\"k\":[\"a\"],\"m\":2}", "[\"s\"]", "[null]", "{\"k\":\"2020-01-01\"}", "{\"k\":5}"];
    let binders = [
        ("{{ import($v, \"#.json\") }}", ""), ("{{ for($v, \"l#.json\") }}", "{{ end(for) }}"), ("{{ begin(\"v\") }}{{ import($v, \"#.json\") }}", "{{ end(\"v\") }}"),
        ("{{ ifeq(1, 1) }}{{ import($v, \"#.json\") }}{{ end(ifeq) }}", ""), ("{{ for($u, \"l#.json\") }}", "{{ end(for) }}"), ("", ""),
    ];
    product(&[binders.len(), binders.len(), vals.len(), vals.len()], &mut |o| {
        if (o[0] == 5 && o[2] > 0) || (o[1] == 5 && o[3] > 0) || (o[0] == 5 && o[1] == 5) {
            return;
        }
        for p in probes {
            if s.owns() {
                let (a, b) = (binders[o[0]], binders[o[1]]);
                let t = format!("{}{}{}{}{}{}", a.0.replace('#', "1"), b.0.replace('#', "2"), p, b.1, p.replace(['[', ']'], ""), a.1);
                let (v, w) = (vals[o[2]], vals[o[3]]);
                s.run(
                    &base(Mode::Output).with("1.json", v).with("2.json", w).with("l1.json", format!("[{}]", v)).with("l2.json", format!("[{}]", w))
                        .with("t.json", "[{\"k\":\"b\"},{\"k\":\"a\"}]").with("p.html", section(&t)),
                );
            }
        }
    });
    // environment
    let vals = ["", "x", "é\n", "{{ $self }}", "production"];
    for name in ["A", "STUART_ENV", "a_b", "Ω", "HOME"] {
        for val in vals {
            for se in ["production", "development", "benchmark", ""] {
                for ask in ["{{ $env.STUART_ENV }}", "{{ $env.A }}", "{{ ifdefined($env.A) }}d{{ else() }}u{{ end(ifdefined) }}", "{{ $env.Ω }}", "{{ ifeq($env.STUART_ENV, \"production\") }}p{{ else() }}q{{ end(ifeq) }}"] {
                    if s.owns() {
                        let mut c = base(Mode::Output).with("p.html", section(ask)).with("q.md", ask);
                        c.env.push((name.into(), val.into()));
                        c.stuart_env = se.into();
                        s.run(&c);
                    }
                }
            }
        }
    }
    crate::contexts::run(s, "C05");
    crate::ladders::run(s, "C05");
    crate::chars::run(s, "C05");
}

pub fn c06_bounds(t: Tier) -> String {
    format!("every sequence of <= {} block tags of 15 in a page, <= {} in a Markdown file, md.html and root.html, and of <= 4 tags of 25 with labels that resemble other names (sequences that no continuation can repair are not extended)", (t.pick(5, 6) + t.more()), (t.pick(4, 5) + t.more()))
        + &crate::contexts::bounds(t, "C06")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

pub fn c06(s: &mut Shard) {
    let alpha = [
        "{{ begin(\"a\") }}", "{{ end(\"a\") }}", "{{ begin(\"b\") }}", "{{ end(\"b\") }}", "{{ for($i, \"one.json\") }}", "{{ for($i, \"none.json\") }}", "{{ end(for) }}", "{{ ifeq(1, 1) }}",
        "{{ ifeq(1, 2) }}", "{{ else() }}", "{{ end(ifeq) }}", "{{ ifdefined($env) }}", "{{ end(ifdefined) }}", "{{ ifne(1, 1) }}", "{{ end(ifne) }}",
    ];
    let b = || base(Mode::Output).with("one.json", "[1]").with("none.json", "[]");
    dfs(s, &alpha, (s.tier.pick(5, 6) + s.tier.more()), &|t| b().with("p.html", format!("{{{{ begin(\"x\") }}}}{{{{ end(\"x\") }}}}{}", t)));
    dfs(s, &alpha, (s.tier.pick(4, 5) + s.tier.more()), &|t| b().with("p.html", open_section(t)));
    dfs(s, &alpha, (s.tier.pick(4, 5) + s.tier.more()), &|t| b().with("p.md", format!("A{}Z", t)));
    dfs(s, &alpha, (s.tier.pick(3, 5) + s.tier.more()), &|t| b().with("md.html", format!("{{{{ begin(\"x\") }}}}{{{{ end(\"x\") }}}}{}", t)).with("p.md", "P"));
    dfs(s, &alpha, (s.tier.pick(4, 5) + s.tier.more()), &|t| b().with("root.html", format!("A{}Z", t)).with("p.html", section("P")));
    dfs(s, &alpha, (s.tier.pick(3, 4) + s.tier.more()), &|t| b().with("root.html", format!("A{}Z", t)).with("p.md", "P"));
    // labels that resemble other names
    let alpha = [
        "{{ begin(\"i\") }}", "{{ end(\"i\") }}", "{{ for($i, \"one.json\") }}", "{{ end(for) }}", "{{ begin(\"for\") }}", "{{ end(\"for\") }}", "{{ begin(\"\") }}", "{{ end(\"\") }}", "{{ begin(\"gif\") }}", "{{ end(\"gif\") }}",
        "{{ ifeq(1, 1) }}", "{{ end(ifeq) }}", "{{ begin(\"ifeq\") }}", "{{ end(\"ifeq\") }}", "{{ begin(\"I\") }}", "{{ end(\"I\") }}", "{{ begin(\" i\") }}", "{{ end(\" i\") }}", "{{ begin(\"$i\") }}", "{{ end(\"$i\") }}", "{{ else() }}", "{{ begin(\"a:i\") }}", "{{ end(\"a:i\") }}", "{{ ifdefined($i) }}", "{{ end(ifdefined) }}",
    ];
    dfs(s, &alpha, (s.tier.pick(4, 5) + s.tier.more()), &|t| b().with("p.html", format!("{}A", t)));
    dfs(s, &alpha, (s.tier.pick(4, 5) + s.tier.more()), &|t| b().with("p.html", open_section(t)));
    dfs(s, &alpha, (s.tier.pick(3, 4) + s.tier.more()), &|t| b().with("root.html", format!("{}A{{{{ insert(\"i\") }}}}{{{{ insert(\"\") }}}}", t)).with("p.html", "{{ begin(\"i\") }}P{{ end(\"i\") }}"));
    crate::contexts::run(s, "C06");
    crate::ladders::run(s, "C06");
    crate::chars::run(s, "C06");
}

// ---------------------------------------------------------------- C07

pub fn c07_bounds(t: Tier) -> String {
    format!("roots: 7 variants (none and empty among them) at each of 3 directory levels; pages: 9 variants (HTML and Markdown) at each level, {}", t.pick("one page per build at each level plus all pairs", "all triples"))
        + &crate::contexts::bounds(t, "C07")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

pub fn c07(s: &mut Shard) {
    let roots = [
        None,
        Some(""),
        Some("1<{{ insert(\"x\") }}>"),
        Some("2<{{ insert(\"x\") }}|{{ insert(\"y\") }}|{{ insert(\"x\") }}>"),
        Some("3<{{ begin(\"x\") }}R{{ insert(\"x\") }}{{ end(\"x\") }}{{ insert(\"x\") }}>"),
        Some("static"),
        Some("5{{ for($i, \"two.json\") }}{{ insert(\"x\") }}{{ end(for) }}{{ ifdefined($self) }}{{ $self.t }}{{ end(ifdefined) }}"),
    ];
    let pages = [
        None,
        Some((".html", "drop{{ begin(\"x\") }}#X{{ end(\"x\") }}drop")),
        Some((".html", "{{ begin(\"y\") }}#Y{{ end(\"y\") }}{{ begin(\"x\") }}#X{{ end(\"x\") }}")),
        Some((".html", "{{ begin(\"x\") }}#1{{ end(\"x\") }}{{ begin(\"x\") }}#2{{ end(\"x\") }}")),
        Some((".html", "{{ begin(\"x\") }}#o{{ begin(\"y\") }}#i{{ end(\"y\") }}{{ end(\"x\") }}")),
        Some((".html", "{{ for($i, \"two.json\") }}{{ begin(\"x\") }}#{{ $i }}{{ end(\"x\") }}{{ end(for) }}")),
        Some((".html", "nothing")),
        Some((".html", "{{ begin(\"x\") }}#{{ insert(\"x\") }}{{ end(\"x\") }}")),
        Some((".md", "---\nt: \"#\"\n---\n#md")),
    ];
    let dirs = ["", "a/", "a/b/"];
    let mds = [None, Some(MD), Some("{{ begin(\"x\") }}M{{ $self.t }}{{ end(\"x\") }}{{ begin(\"y\") }}y{{ end(\"y\") }}"), Some("")];
    let r = roots.len();
    let p = pages.len();
    let thorough = s.tier != Tier::Quick;
    product(&[r, r, r, p, p, p, 4], &mut |o| {
        let used = o[3..6].iter().filter(|x| **x > 0).count();
        let has_md = o[3..6].contains(&8);
        if (!has_md && o[6] != 1) || used == 0 {
            return;
        }
        if !thorough && (used > 2 || (used == 2 && (o[0] > 3 || o[1] > 3 || o[2] > 3))) {
            return;
        }
        if thorough && used == 3 && (o[0] > 3 || o[1] > 3 || o[2] > 3) {
            return;
        }
        if !s.owns() {
            return;
        }
        let mut c = Site::new(Mode::Output).with("two.json", "[\"a\",\"b\"]");
        for l in 0..3 {
            if let Some(t) = roots[o[l]] {
                c.set(&format!("{}root.html", dirs[l]), t);
            }
            if let Some((e, t)) = pages[o[3 + l]] {
                c.set(&format!("{}p{}{}", dirs[l], l, e), t.replace('#', &l.to_string()));
            }
        }
        if let Some(m) = mds[o[6]] {
            c.set(if o[0] % 2 == 0 { "md.html" } else { "a/md.html" }, m);
        }
        s.run(&c);
    });
    // many pages with the same section in one directory: nothing leaks from one to the next
    let variants = ["{{ begin(\"x\") }}#{{ end(\"x\") }}", "none #", "{{ begin(\"y\") }}#{{ end(\"y\") }}{{ import($v, \"two.json\") }}", "{{ begin(\"x\") }}{{ ifdefined($v) }}LEAK{{ end(ifdefined) }}{{ end(\"x\") }}{{ begin(\"y\") }}{{ end(\"y\") }}"];
    for root in ["{{ insert(\"x\") }}", "{{ insert(\"y\") }}", "{{ begin(\"z\") }}{{ end(\"z\") }}r"] {
        seqs(variants.len(), 4, &mut |q| {
            if s.owns() {
                let mut c = Site::new(Mode::Output).with("root.html", root).with("two.json", "[\"a\"]");
                for (i, v) in q.iter().enumerate() {
                    c.set(&format!("{}.html", (b'a' + i as u8) as char), variants[*v].replace('#', &i.to_string()));
                }
                s.run(&c);
            }
        });
    }
    // directories with the names of templates, pages and data
    let names = ["root.html", "md.html", "p.html", "m.md", "j.json", "k.json", "index.html", "list", "list.md"];
    let inside: [&[(&str, &str)]; 4] = [&[], &[("x.txt", "x")], &[("root.html", "inner {{ insert(\"x\") }}"), ("q.html", "{{ begin(\"x\") }}q{{ end(\"x\") }}")], &[("md.html", "{{ begin(\"x\") }}inner {{ $self.content }}{{ end(\"x\") }}"), ("z.md", "---\nt: \"z\"\n---\nz"), ("j.json", "[1]")]];
    let pages = ["{{ begin(\"x\") }}#{{ end(\"x\") }}", "{{ begin(\"x\") }}{{ import($v, \"@j.json\") }}{{ $v }}{{ end(\"x\") }}", "{{ begin(\"x\") }}{{ for($v, \"@k.json\") }}{{ $v }}{{ end(for) }}{{ end(\"x\") }}", "{{ begin(\"x\") }}{{ for($v, \"@list/\") }}{{ $v.t }},{{ end(for) }}{{ end(\"x\") }}", "{{ begin(\"x\") }}{{ for($v, \"@/\") }}{{ $v.t }},{{ end(for) }}{{ end(\"x\") }}"];
    product(&[3, names.len(), inside.len(), pages.len(), 3, 3, 2], &mut |o| {
        if !s.owns() {
            return;
        }
        let mut c = Site::new(Mode::Output);
        // templates at the top, and once more at some level
        for l in [0, o[4]] {
            c.set(&format!("{}root.html", dirs[l]), format!("root {} {{{{ insert(\"x\") }}}}", l));
            c.set(&format!("{}md.html", dirs[l]), format!("{{{{ begin(\"x\") }}}}md {} {{{{ $self.content }}}}{{{{ end(\"x\") }}}}", l));
        }
        for l in 0..3 {
            c.set(&format!("{}r.html", dirs[l]), pages[0].replace('#', &l.to_string()));
            c.set(&format!("{}n.md", dirs[l]), format!("---\nt: \"{}\"\n---\nn{}", l, l));
            c.set(&format!("{}list/e.md", dirs[l]), format!("---\nt: \"e{}\"\n---\ne{}", l, l));
        }
        c.set(&format!("{}u.html", dirs[o[5]]), pages[o[3]].replace('@', dirs[o[0]].trim_start_matches('/')).replace("\"/\"", "\"list/\"").replace("//", "/"));
        if o[6] == 0 {
            for l in 0..3 {
                for (n, d) in [("j.json", "\"text\""), ("k.json", "[\"a\", \"b\"]")] {
                    c.set(&format!("{}{}", dirs[l], n), d);
                }
            }
        }
        // the directory takes the place of the file of this name
        let d = format!("{}{}", dirs[o[0]], names[o[1]]);
        if names[o[1]] != "list" {
            c.files.remove(&d);
            c.files.remove(&d);
        }
        if inside[o[2]].is_empty() {
            c.dirs.push(d.clone());
        }
        for (n, t) in inside[o[2]] {
            c.set(&format!("{}/{}", d, n), *t);
        }
        s.run(&c);
    });
    crate::contexts::run(s, "C07");
    crate::ladders::run(s, "C07");
    crate::chars::run(s, "C07");
}

// ---------------------------------------------------------------- C08

pub fn c08_bounds(t: Tier) -> String {
    format!("every front matter of <= {} lines of 18, LF and CRLF, x 3 bodies; every body of <= {} pieces of 14; directory loops from pages, md.html and Markdown over up to 3 files", (t.pick(3, 4) + t.more()), (t.pick(3, 4) + t.more()))
        + &crate::contexts::bounds(t, "C08")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

pub fn c08(s: &mut Shard) {
    let lines = [
        "---", "k: \"v\"", "k:\"w\"", "t: \"a: b\"", "e: \"\"", "q: \"x\"y\"", "d: \"2021-01-01\" ", " sp : \"v\"", "u: \"é😀\"", "bad", "bad: v", "bad: \"v", "", "content: \"c\"", "--- ", "tpl: \"{{ $env.STUART_ENV }}\"", "t: \"  a\t \"", "e: \" \"",
    ];
    let md = section("[{{ ifdefined($self.k) }}k={{ $self.k }}{{ end(ifdefined) }}|{{ ifdefined($self.t) }}t={{ $self.t }}{{ end(ifdefined) }}|{{ ifdefined($self.e) }}e={{ $self.e }}{{ end(ifdefined) }}|{{ ifdefined($self.q) }}q={{ $self.q }}{{ end(ifdefined) }}|{{ ifdefined($self.d) }}d={{ $self.d }}{{ end(ifdefined) }}|{{ ifdefined($self.sp) }}sp={{ $self.sp }}{{ end(ifdefined) }}|{{ ifdefined($self.u) }}u={{ $self.u }}{{ end(ifdefined) }}|{{ ifdefined($self.tpl) }}tpl={{ $self.tpl }}{{ end(ifdefined) }}|{{ $self.content }}|{{ $self.markdown }}]");
    for eol in ["\n", "\r\n"] {
        for body in ["", "# H\n\ntext", "a{{ $env.STUART_ENV }}b"] {
            for first in ["---", "", " ---", "----", "x"] {
                seqs(lines.len(), if first == "---" { (s.tier.pick(3, 4) + s.tier.more()) } else { 2 }, &mut |q| {
                    if !s.owns() {
                        return;
                    }
                    let mut l: Vec<&str> = vec![first];
                    l.extend(q.iter().map(|i| lines[*i]));
                    let mut t = l.join(eol);
                    if !body.is_empty() {
                        t = format!("{}{}{}", t, eol, body.replace('\n', eol));
                    }
                    s.run(&Site::new(Mode::Output).with("root.html", ROOT).with("md.html", &md).with("p.md", t));
                });
            }
        }
    }
    let pieces = [
        "para\n\n", "# h\n", "- a\n", "| a |\n|---|\n| b |\n", "```\n{{ $env.STUART_ENV }}\n```\n", "{{ $env.STUART_ENV }}", "<i>&amp;</i>", "\\*e\\*", "~~s~~ ", "{{ for($p, \"d/\") }}* {{ $p.t }}\n{{ end(for) }}", "{{ import($j, \"j.json\") }}", "{{ begin(\"s\") }}**b**{{ end(\"s\") }}", "\"q\" -- ...", "[x][1]\n\n[1]: u\n",
    ];
    seqs(pieces.len(), (s.tier.pick(3, 4) + s.tier.more()), &mut |q| {
        if s.owns() {
            s.run(&Site::new(Mode::Output).with("root.html", ROOT).with("md.html", section("{{ $self.content }}|{{ $self.markdown }}")).with("j.json", "[]").with("d/a.md", "---\nt: \"T\"\n---\nx").with("p.md", join(&pieces, q)));
        }
    });
    // loops over directories of Markdown from everywhere
    let contents = ["---\nt: \"#\"\n---\nbody #", "body #", "---\nt: \"#\"\n---\n{{ for($q, \"d/\") }}{{ ifdefined($q.t) }}<{{ $q.t }}>{{ end(ifdefined) }}{{ end(for) }}", "---\nt: \"#\"\n---\n{{ $self.t }}", "---\nt: \"#\"\n---\n{{ for($q, \"d/\") }}{{ $q.markdown }}{{ end(for) }}"];
    let uses = [
        ("p.html", "{{ begin(\"x\") }}{{ for($q, \"d/\") }}[{{ ifdefined($q.t) }}{{ $q.t }}{{ end(ifdefined) }}:{{ $q.content }}:{{ $q.markdown }}]{{ end(for) }}{{ end(\"x\") }}"),
        ("md.html", "{{ begin(\"x\") }}{{ for($q, \"d/\") }}[{{ ifdefined($q.t) }}{{ $q.t }}{{ end(ifdefined) }}:{{ $q.content }}]{{ end(for) }}{{ $self.content }}{{ end(\"x\") }}"),
        ("root.html", "{{ insert(\"x\") }}{{ for($q, \"d/\") }}[{{ $q.content }}]{{ end(for) }}"),
        ("e/q.md", "{{ for($q, \"d/\") }}[{{ ifdefined($q.t) }}{{ $q.t }}{{ end(ifdefined) }}{{ ifdefined($q.content) }}C{{ else() }}N{{ end(ifdefined) }}]{{ end(for) }}"),
        ("d/md.html", "{{ begin(\"x\") }}D{{ $self.content }}{{ end(\"x\") }}"),
    ];
    seqs(contents.len(), 3, &mut |q| {
        for (up, ut) in uses {
            if s.owns() {
                let mut c = Site::new(Mode::Output).with("root.html", ROOT).with("md.html", MD);
                c.dirs.push("d".into());
                for (i, v) in q.iter().enumerate() {
                    c.set(&format!("d/{}.md", ["b", "a", "c.x"][i]), contents[*v].replace('#', &i.to_string()));
                }
                c.set(up, ut);
                s.run(&c);
            }
        }
    });
    // names
    for name in ["a.md", ".md", "a.b.md", "a.html.md", "md.md", "a.MD", "a md.md", "é.md", "a.md.md", "a.markdown"] {
        s.one(&base(Mode::Output).with(name, "x").with("q.html", section("Q")));
    }
    crate::contexts::run(s, "C08");
    crate::ladders::run(s, "C08");
    crate::chars::run(s, "C08");
}

// ---------------------------------------------------------------- C09

pub fn c09_bounds(t: Tier) -> String {
    format!("every string of <= {} elements of 9 (letters, 2- and 4-byte characters, <, >, tags, white space) with every length 0..8; word counts 0..1300 with 5 separators; wrong variables", (t.pick(5, 6) + t.more()))
        + &crate::contexts::bounds(t, "C09")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

pub fn c09(s: &mut Shard) {
    let a = ["a", "é", "😀", "<", ">", " ", "\n", "<b>", "&amp;"];
    let esc = |t: &str| {
        let mut o = String::new();
        crate::json::esc(t, &mut o);
        o
    };
    seqs(a.len(), (s.tier.pick(5, 6) + s.tier.more()), &mut |q| {
        if !s.owns() {
            return;
        }
        let t = join(&a, q);
        let e = esc(&t);
        let e = if e.starts_with('"') { e } else { format!("\"{}\"", e) };
        let mut body = String::from("{{ import($v, \"v.json\") }}");
        for n in 0..=8 {
            body += &format!("{{{{ excerpt($v.t, {}) }}}}|", n);
        }
        body += "{{ timetoread($v.t) }}";
        s.run(&base(Mode::Output).with("v.json", format!("{{\"t\":{}}}", e)).with("p.html", section(&body)));
    });
    for words in (0..1300usize).filter(|w| *w < 5 || w % 50 < 3 || w % 200 > 196) {
        for sep in [" ", "\n", "  ", "\u{a0}", "\t "] {
            if s.owns() {
                let t = vec!["w<b>"; words].join(sep);
                s.run(&base(Mode::Output).with("v.json", format!("[{}]", esc_q(&t))).with("p.html", section("{{ import($v, \"v.json\") }}{{ timetoread($v.0) }} {{ excerpt($v.0, 1000) }}")));
            }
        }
    }
    for v in ["$v", "$v.n", "$v.z", "$v.q", "$v.l", "$w", "$v.s", "$v.tr", "$env"] {
        for f in ["excerpt(#, 3)", "timetoread(#)"] {
            s.one(&base(Mode::Output).with("v.json", "{\"n\":1,\"z\":null,\"l\":[],\"s\":\"str\",\"tr\":true}").with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{{{{ {} }}}}", f.replace('#', v)))));
        }
    }
    crate::contexts::run(s, "C09");
    crate::ladders::run(s, "C09");
    crate::chars::run(s, "C09");
}

fn esc_q(t: &str) -> String {
    V::s(t).print()
}

// ---------------------------------------------------------------- C10

pub fn c10_bounds(t: Tier) -> String {
    format!("every day {} in three notations x 20 formats; every minute of one day; every offset -23:59..+23:59 {}; all strftime specifiers x 40 moments; dates and something else at every distance up to 70 (thorough: 300); every text of <= {} elements of 14 in date positions", t.pick("1970-2030", "1600-2500"), t.pick("in steps of 15 min", "by minute"), (t.pick(4, 5) + t.more()))
        + &crate::contexts::bounds(t, "C10")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

const FMTS: [&str; 6] = ["%Y-%m-%d %H:%M:%S", "%d/%m/%y %j %U %W %G-W%V-%u", "%e %B %Y, %A", "%a %b %d %I:%M %p", "%s", "%FT%T%:z"];

fn dates(s: &mut Shard, list: &[String], fmts: &[&str]) {
    // one build for the whole list when all of them are specified to succeed; separately otherwise
    let page = |fm: &[&str]| {
        let mut b = String::from("{{ for($d, \"v.json\") }}");
        for f in fm {
            b += &format!("{{{{ dateformat($d, \"{}\") }}}}|", f);
        }
        section(&(b + "{{ end(for) }}"))
    };
    let good: Vec<String> = list.iter().filter(|d| fmts.iter().all(|f| matches!(crate::date::render(d, f), crate::date::D::Ok(_)))).map(|d| esc_q(d)).collect();
    if !good.is_empty() {
        s.run(&base(Mode::Output).with("v.json", format!("[{}]", good.join(","))).with("p.html", page(fmts)));
    }
    for d in list {
        for f in fmts {
            if !matches!(crate::date::render(d, f), crate::date::D::Ok(_)) {
                let mut c = base(Mode::Output).with("v.json", format!("[{}]", esc_q(d))).with("p.html", page(&[*f]));
                c.key = Some(format!("dateformat of {:?} with {:?}", d, f));
                s.run(&c);
            }
        }
    }
}

pub fn c10(s: &mut Shard) {
    use crate::date::{civil, days};
    let months = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
    let (y0, y1) = s.tier.pick((1970, 2030), (1600, 2500));
    for y in y0..=y1 {
        for m in 1..=12 {
            if !s.owns() {
                continue;
            }
            let mut l = vec![];
            for d in 1..=31i64 {
                l.push(format!("{:04}-{:02}-{:02}", y, m, d));
                l.push(format!("{} {}, {:04}", months[m as usize - 1], d, y));
                l.push(format!("{} {:02}, {:04}", &months[m as usize - 1][..3], d, y));
                if d <= crate::date::month_len(y, m) {
                    let n = days(y, m, d) * 86400 + d * 3601;
                    if n >= 1_000_000_000 {
                        l.push(n.to_string());
                    }
                }
            }
            dates(s, &l, &FMTS);
        }
    }
    for h in 0..26 {
        if !s.owns() {
            continue;
        }
        let mut l = vec![];
        for m in [0, 1, 29, 30, 59, 60, 61, 99] {
            l.push(format!("2024-02-29 {:02}:{:02}", h, m));
            for sec in [0, 1, 59, 61] {
                l.push(format!("2023-12-31 {:02}:{:02}:{:02}", h, m, sec));
                l.push(format!("2023-12-31T{:02}:{:02}:{:02}Z", h, m, sec));
                l.push(format!("2000-01-01T{:02}:{:02}:{:02}.25+01:30", h, m, sec));
            }
        }
        dates(s, &l, &FMTS[..2]);
    }
    let step = s.tier.pick(15, 1);
    for sign in ["+", "-"] {
        for oh in 0..24 {
            if !s.owns() {
                continue;
            }
            let mut l = vec![];
            let mut om = 0;
            while om < 60 {
                for d in ["2021-01-01T00:00:00", "2020-12-31T23:59:59", "2020-02-29T12:30:15.5", "1970-01-01T00:00:00"] {
                    l.push(format!("{}{}{:02}:{:02}", d, sign, oh, om));
                }
                om += step;
            }
            dates(s, &l, &["%F %T%.f %s"]);
        }
    }
    // specifiers
    let ms: Vec<String> = (0..40i64)
        .map(|i| {
            let c = civil(i * 97_000_003 + 12_345);
            format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}Z", c.y, c.m, c.d, c.h, c.mi, c.s, ["", ".5", ".123456", ".000000001", ".120"][(i % 5) as usize])
        })
        .collect();
    for k in (b' '..=b'~').map(|c| c as char) {
        if k == '"' {
            continue;
        }
        for pre in ["%", "%-", "%_", "%0", "%.", "%.3", "%:", "x%%", "%%%", "é%"] {
            if s.owns() {
                dates(s, &ms, &[&format!("{}{}", pre, k)]);
            }
        }
    }
    for f in ["%", "a%", "%Y%", "", " ", "%%", "%Y-%m-%dT%H:%M:%S%.3f%:z", "%A, %d %B %Y", "%-d/%-m/%Y", "%c", "%+", "%D %R", "%é"] {
        if s.owns() {
            dates(s, &ms, &[f]);
        }
    }
    // texts
    let a = ["2021", "-", "0", "1", "30", " ", ":", "T", "Z", "May", ",", "é", "x", "/"];
    seqs(a.len(), (s.tier.pick(4, 5) + s.tier.more()), &mut |q| {
        if s.owns() {
            dates(s, &[join(&a, q)], &["%F"]);
        }
    });
    // a date and something else which is none, at every distance
    for n in 0..s.tier.pick(70, 300) {
        if !s.owns() {
            continue;
        }
        let mut l = vec![];
        for d in ["2021-02-03", "2021-02-03 04:05", "2021-02-03T04:05:06Z", "2021-02-03T04:05:06+01:00", "May 5, 2021", "1234567890", "12:13:14", "2021-02-03 04:05:06"] {
            for x in [" ", "0", "\t", "\u{a0}", "x"] {
                l.push(format!("{}{}#", d, x.repeat(n)));
                l.push(format!("#{}{}", x.repeat(n), d));
                l.push(format!("{}#{}{}", d, x.repeat(n), d));
            }
        }
        l.push(format!("2021-02-03T04:05:06.{}Z#", "0".repeat(n)));
        l.push(format!("2021-02-03T04:05:06.{}+01:00 #", "1".repeat(n)));
        dates(s, &l, &["%F %T"]);
    }
    let pres = ["2021-02-", "2021-", "1234567890", "2021-05-30 ", "2021-05-30T10:", "May 5, ", "2021-05-30T10:20:30+"];
    for p in pres {
        seqs(a.len(), 3, &mut |q| {
            if s.owns() {
                dates(s, &[format!("{}{}", p, join(&a, q))], &["%F %T"]);
            }
        });
    }
    for v in ["$v", "$v.n", "$v.z", "$v.q", "$v.l", "$w", "$v.s", "$v.d"] {
        s.one(&base(Mode::Output).with("v.json", "{\"n\":1600000000,\"z\":null,\"l\":[],\"s\":\"not a date\",\"d\":\"2021-01-01\"}").with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{{{{ dateformat({}, \"%F\") }}}}", v))));
    }
    crate::contexts::run(s, "C10");
    crate::ladders::run(s, "C10");
    crate::chars::run(s, "C10");
}

// ---------------------------------------------------------------- C11

pub fn c11_bounds(t: Tier) -> String {
    format!("19 names x every list of <= {} positional arguments of 20 kinds; for: every sequence of <= {} options of 40; 60 string arguments with punctuation; white space at each of the 12 gaps and all together x 4 kinds; 60 malformed tags; executed, not executed, Markdown and root positions", (t.pick(2, 3) + t.more()), (t.pick(2, 3) + t.more()))
        + &crate::contexts::bounds(t, "C11")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

pub fn c11(s: &mut Shard) {
    let names = ["begin", "dateformat", "else", "end", "excerpt", "for", "ifdefined", "import", "insert", "timetoread", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle", "nope", "If", "end2"];
    let args = ["$v", "$v.s", "\"s\"", "\"\"", "\"l.json\"", "\"d/\"", "1", "0", "-1", "99999999999", "for", "ifeq", "bare", "$", "$v-x", "\"a\"b\"", "1.5", "'s'", "k=1", "k=\"v\""];
    // position of the tag: executed, in a skipped branch, in Markdown, in the root
    let put = |s: &mut Shard, tag: &str, key: Option<String>| {
        for place in 0..4 {
            if !s.owns() {
                continue;
            }
            let b = base(Mode::Output).with("v.json", "{\"s\":\"2021-01-01\",\"l\":[1]}").with("l.json", "[1]").with("d/a.md", "A");
            let imp = "{{ import($v, \"v.json\") }}";
            let mut c = match place {
                0 => b.with("p.html", section(&format!("{}{}", imp, tag))),
                1 => b.with("p.html", section(&format!("{{{{ ifeq(1, 2) }}}}{}{{{{ end(ifeq) }}}}", tag))),
                2 => b.with("p.md", format!("{}{}", imp, tag)),
                _ => b.with("root.html", format!("{{{{ ifdefined($nope) }}}}{}{{{{ end(ifdefined) }}}}{{{{ insert(\"x\") }}}}", tag)).with("p.html", section("P")),
            };
            c.key = key.as_ref().map(|k| format!("{} (place {})", k, place));
            s.run(&c);
        }
    };
    let close = |n: &str| match n {
        "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle" => format!("{{{{ end({}) }}}}", n),
        "begin" => "{{ end(\"s\") }}".into(),
        _ => String::new(),
    };
    for n in names {
        seqs(args.len(), (s.tier.pick(2, 3) + s.tier.more()), &mut |q| {
            let a: Vec<&str> = q.iter().map(|i| args[*i]).collect();
            let cl = if n == "begin" && a.len() == 1 && a[0].starts_with('"') { format!("{{{{ end({}) }}}}", a[0]) } else { close(n) };
            put(s, &format!("{{{{ {}({}) }}}}{}", n, a.join(", "), cl), None);
        });
    }
    let mut options: Vec<String> = vec![];
    for k in ["skip", "limit", "sortby", "order", "Skip", "reverse", ""] {
        for v in ["1", "0", "-1", "\"1\"", "$i.k", "\"asc\"", "\"desc\"", "\"up\"", "asc", ""] {
            options.push(format!("{}={}", k, v));
        }
    }
    let keep: Vec<&String> = options.iter().filter(|o| !o.starts_with('=') || o.as_str() == "=1").collect();
    seqs(keep.len(), 2, &mut |q| {
        let a: Vec<&str> = q.iter().map(|i| keep[*i].as_str()).collect();
        put(s, &format!("{{{{ for($i, \"l.json\"{}{}) }}}}{{{{ end(for) }}}}", if a.is_empty() { "" } else { ", " }, a.join(", ")), None);
    });
    let ok = ["skip=1", "limit=1", "sortby=$i.k", "order=\"asc\"", "order=\"desc\""];
    seqs(ok.len(), 4, &mut |q| {
        let a: Vec<&str> = q.iter().map(|i| ok[*i]).collect();
        put(s, &format!("{{{{ for($i, \"l.json\", {}) }}}}{{{{ end(for) }}}}", a.join(",")), None);
    });
    // literal strings
    let inner = ["a", ",", ")", "(", "=", "}}", "{{", " ", "$v", "'", "\\", "k=1", ":", "é", "\n", "for"];
    seqs(inner.len(), 2, &mut |q| {
        let t = join(&inner, q);
        put(s, &format!("{{{{ begin(\"{t}\") }}}}A{{{{ end(\"{t}\") }}}}[{{{{ insert(\"{t}\") }}}}]", t = t), None);
        put(s, &format!("{{{{ ifeq(\"{t}\", \"{t}\") }}}}Y{{{{ end(ifeq) }}}}{{{{ ifne(\"{t}\", \"zz\") }}}}Z{{{{ end(ifne) }}}}", t = t), None);
    });
    // white space
    let parts = ["{{", "for", "(", "$i", ",", "\"l.json\"", ",", "skip=0", ",", "order=\"desc\"", ")", "}}"];
    for ws in [" ", "\n", "\t", "\r\n", "  \n "] {
        for mask in 0..(1usize << 11) {
            let mut t = String::new();
            for (i, p) in parts.iter().enumerate() {
                t += p;
                if i < 11 && mask >> i & 1 == 1 {
                    t += ws;
                }
            }
            // all masks only for a plain space
            if ws != " " && mask.count_ones() != 1 && mask.count_ones() != 11 {
                continue;
            }
            put(s, &format!("{}x{{{{end ( for )}}}}", t), None);
        }
    }
    for v in ["{{$v.s}}", "{{ $v.s}}", "{{$v.s }}", "{{\n$v.s\n}}", "{{\t$v.s\r\n}}"] {
        put(s, v, None);
    }
    for bad in [
        "{{ }}", "{{}}", "{{ $ }}", "{{ $v.s", "{{ $v.s }", "{{ $v.s } }", "{{ $v.s x }}", "{{ v }}", "{{ \"s\" }}", "{{ 1 }}", "{{ else }}", "{{ else( }}", "{{ else) }}", "{{ else()", "{{ else() }", "{{ else() x }}", "{{ else()) }}", "{{ (1) }}", "{{ ifeq(1 2) }}", "{{ ifeq(1;2) }}",
        "{{ ifeq(\"a, \"b\") }}", "{{ insert(\"x }}", "{{ insert(x\") }}", "{{ insert(x) }}", "{{ insert('x') }}", "{{ insert(\"x\" \"y\") }}", "{{ insert(\"x\"y) }}", "{{ $v s }}", "{{ $v.s() }}", "{{ $v,s }}", "{{ -1 }}", "{{ ! }}", "{{ insert }}", "{{ insert \"x\" }}", "{{ for($i in \"l.json\") }}{{ end(for) }}",
        "{{ end }}", "{{ end(\"x\" }}", "{{ for(skip=1, $i, \"l.json\") }}{{ end(for) }}", "{{ for($i, skip=1, \"l.json\") }}{{ end(for) }}", "{{ for($i, \"l.json\", skip==1) }}{{ end(for) }}", "{{ for($i, \"l.json\", ski-p=1) }}{{ end(for) }}", "{{ for($i, \"l.txt\") }}{{ end(for) }}", "{{ for($i, \"l\") }}{{ end(for) }}", "{{ import($x, l.json) }}", "{{ import(x, \"l.json\") }}",
        "{{ excerpt($v.s, \"3\") }}", "{{ excerpt($v.s, -3) }}", "{{ excerpt($v.s) }}", "{{ {{ $v.s }} }}", "{ { $v.s }}", "{{ $v.s }}}", "{{{ $v.s }}}", "{{ $v.s }}}}", "{{ a::b() }}", "{{ :() }}", "{{ ::else() }}", "{{ x::else() }}", "{{ else::x() }}", "{{ else()()}}", "{{ insert(\"x\")}} }}", "{{ $v.s | upper }}",
    ] {
        put(s, bad, Some(bad.to_string()));
        put(s, &format!("{} {{{{ $v.s }}}}", bad), Some(format!("{} + tag", bad)));
    }
    crate::contexts::run(s, "C11");
    crate::ladders::run(s, "C11");
    crate::chars::run(s, "C11");
}

// ---------------------------------------------------------------- C12

pub fn c12_bounds(t: Tier) -> String {
    format!("every path of <= {} parts of 9 (with and without leading and trailing slash) for import, for over a file, for over a directory; secrets beside the content directory", (t.pick(4, 5) + t.more()))
        + &crate::contexts::bounds(t, "C12")
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

struct Escape(Site);

impl crate::rt::Case for Escape {
    fn json(&self) -> V {
        self.0.json()
    }
    fn run(&self, rt: &mut crate::rt::Rt) -> crate::rt::Outcome {
        // secrets next to the content directory (its parent is our scratch directory)
        let marker = rt.scratch.join("l.json");
        if !marker.exists() {
            std::fs::create_dir_all(rt.scratch.join("d")).unwrap();
            for f in ["l.json", "d/l.json"] {
                std::fs::write(rt.scratch.join(f), "[\"SECRET\"]").unwrap();
            }
            std::fs::write(rt.scratch.join("d/a.md"), "SECRET").unwrap();
        }
        let abs = rt.scratch.to_str().unwrap().to_string();
        let mut s = self.0.clone();
        for c in s.files.values_mut() {
            if let Ok(t) = std::str::from_utf8(c) {
                *c = t.replace("@ABS@", &abs).replace("@CONTENT@", &format!("{}/content", abs)).into_bytes();
            }
        }
        let mut o = s.run(rt);
        if o.viol.is_none() {
            if let crate::site::Real::Ok(f) = crate::site::real_build(rt, &s) {
                if crate::site::show(&f).contains("SECRET") {
                    o.viol = Some(("escape".into(), format!("data from outside content reaches the output: {}", crate::site::show(&f))));
                }
            }
        }
        if let Some((k, w)) = o.viol.take() {
            // the key must not depend on the scratch path
            o.viol = Some((k.replace(&abs, "@ABS@"), w));
        }
        o
    }
}

pub fn c12_json(v: &V) -> Box<dyn crate::rt::Case> {
    let b = Site::from_json(v);
    let j = b.json();
    let mut s = Site::new(Mode::Output);
    s.files = crate::site::json_files(j.get("content").unwrap());
    Box::new(Escape(s))
}

pub fn c12(s: &mut Shard) {
    let parts = ["", ".", "..", "d", "e", "none", "content", "l.json", "a.md"];
    let mut paths: Vec<String> = vec![];
    seqs(parts.len(), (s.tier.pick(4, 5) + s.tier.more()), &mut |q| paths.push(q.iter().map(|i| parts[*i]).collect::<Vec<_>>().join("/")));
    for p in ["@ABS@/l.json", "@CONTENT@/l.json", "@ABS@/d/", "@CONTENT@/d/", "C:/l.json", "~/l.json", "d\\l.json", "L.json", "l.json ", " l.json", "./d/./l.json", "d//l.json", "%2e%2e/l.json", "file:l.json", "d/../l.json", "*.json", "d/*", "é.json", "l.json/", "l.json/.", "d/l.json/..", "l%2ejson"] {
        paths.push(p.into());
    }
    for p in &paths {
        for kind in 0..3 {
            let tag = match kind {
                0 => format!("{{{{ import($v, \"{}\") }}}}[{{{{ $v.0 }}}}]", p),
                1 if p.ends_with(".json") => format!("{{{{ for($v, \"{}\") }}}}[{{{{ $v }}}}]{{{{ end(for) }}}}", p),
                2 if p.ends_with('/') => format!("{{{{ for($v, \"{}\") }}}}[{{{{ $v.content }}}}]{{{{ end(for) }}}}", p),
                2 if !p.is_empty() && !p.ends_with(".json") => format!("{{{{ for($v, \"{}/\") }}}}[{{{{ $v.content }}}}]{{{{ end(for) }}}}", p),
                _ => continue,
            };
            if s.owns() {
                let b = base(Mode::Output).with("l.json", "[\"top\"]").with("d/l.json", "[\"in d\"]").with("d/a.md", "a in d").with("a.md", "top a").with("d/e/l.json", "[\"in e\"]").with("d/e/x.txt", "").with("e/y.txt", "");
                s.run(&Escape(b.with("sub/p.html", section(&tag))));
            }
        }
    }
    crate::contexts::run(s, "C12");
    crate::ladders::run(s, "C12");
    crate::chars::run(s, "C12");
}

// ---------------------------------------------------------------- C22 (in-process part)

/// Sites with one error: every kind of error, behind every kind of text, in every kind of file.
pub fn error_sites(s: &mut Shard, take: &dyn Fn(usize, &str) -> bool, f: &mut dyn FnMut(&mut Shard, Site)) {
    let errors: [(&str, &str); 30] = [
        ("undefined", "{{ $nope }}"),
        ("null", "{{ $v.z }}"),
        ("type", "{{ $v }}"),
        ("multi-line tag", "{{\n\n$nope }}"),
        ("unknown function", "{{ nope() }}"),
        ("bad args", "{{ ifeq(1) }}"),
        ("multi-line args", "{{ ifeq(1,\n2,\n3) }}"),
        ("syntax", "{{ $v.s x }}"),
        ("empty tag", "{{ }}"),
        ("bad string", "{{ insert(\"a\"b\") }}"),
        ("bad variable", "{{ ifdefined($a-b) }}"),
        ("named", "{{ for($i, \"l.json\", skip=-1) }}{{ end(for) }}"),
        ("order", "{{ for(skip=1, $i, \"l.json\") }}{{ end(for) }}"),
        ("no name", "{{ (1) }}"),
        ("end", "{{ end(for) }}"),
        ("end section", "{{ end(\"zz\") }}"),
        ("else", "{{ for($i, \"l.json\") }}{{ else() }}{{ end(for) }}"),
        ("section", "{{ insert(\"zz\") }}"),
        ("file", "{{ import($q, \"zz.json\") }}"),
        ("not json", "{{ import($q, \"d/a.md\") }}"),
        ("twice", "{{ import($v, \"l.json\") }}"),
        ("not a list", "{{ for($i, $v) }}{{ end(for) }}"),
        ("no directory", "{{ for($i, \"zz/\") }}{{ end(for) }}"),
        ("date", "{{ dateformat($v.s, \"%F\") }}"),
        ("format", "{{ dateformat($v.d, \"%Q\") }}"),
        ("excerpt", "{{ excerpt($v.n, 3) }}"),
        ("timetoread", "{{ timetoread($v.n) }}"),
        ("compare", "{{ ifeq($v.z, 1) }}{{ end(ifeq) }}"),
        ("open for", "{{ for($i, \"l.json\") }}\n\n"),
        ("open if", "{{ ifeq(1, 1) }}\n\n"),
    ];
    let before = [
        "", "\n", "\n\n\n", "text\nmore", "{{ $env.STUART_ENV }}\n", "\\{{\n", "é😀\n\n", "{{ ifeq(1,2) }}\n\n{{ end(ifeq) }}\n", "{{ begin(\"q\") }}\n{{ end(\"q\") }}", "{{ ifeq(1,\n1) }}\n{{ end(ifeq) }}", "{{ for($i, \"l.json\") }}\n{{ end(for) }}\n", "{ }\n}}\n", "\t{{\n$env.STUART_ENV\n}}\n\n",
        "\u{c}\n", "\u{b}\u{c}x", "a\u{85}b\u{2028}c\u{2029}\n", "\u{0}\u{1c}\u{1d}\u{1e}", "\r", "x\r\ry\n\r", "\u{feff}\n", "\\n\\r\n", "{{ ifeq(1, \"a\u{c}b\") }}{{ end(ifeq) }}", "{{\u{c}$env.STUART_ENV\u{2028}}}",
    ];
    for (_, e) in errors {
        for (nb, b) in before.iter().enumerate() {
            for tail in ["", "\ntail\n"] {
                if !take(nb, tail) {
                    continue;
                }
                for crlf in [false, true] {
                    for place in 0..8 {
                        if s.owns() {
                            f(s, error_site(e, b, tail, crlf, place));
                        }
                    }
                }
            }
        }
    }
}

pub fn error_site(e: &str, b: &str, tail: &str, crlf: bool, place: usize) -> Site {
    let fronts = ["", "---\n---\n", "---\nk: \"v\"\n---\n", "---\na: \"1\"\nb: \"2\"\nc: \"3\"\nd: \"4\"\n---\n"];
    let imp = "{{ import($v, \"v.json\") }}";
    let fix = |t: String| if crlf { t.replace('\n', "\r\n") } else { t };
    let mut c = base(Mode::Location).with("v.json", "{\"s\":\"x\",\"z\":null,\"n\":1,\"d\":\"2021-01-01\"}").with("l.json", "[1]").with("d/a.md", "A");
    match place {
        0 => c.set("p.html", fix(format!("{}{}{}{}", imp, b, e, tail))),
        1 => c.set("p.html", fix(format!("{}{{{{ begin(\"x\") }}}}\n{}{}{}{{{{ end(\"x\") }}}}", imp, b, e, tail))),
        2 => {
            c.set("root.html", fix(format!("{}{}{}{}{{{{ insert(\"x\") }}}}", imp, b, e, tail)));
            c.set("d/p.html", section("P"))
        }
        3 => c.set("md.html", fix(format!("{}{}{}{}", imp, b, e, tail))),
        k => c.set("d/p.md", fix(format!("{}{}{}{}{}", fronts[k - 4], imp, b, e, tail))),
    }
    c
}

pub fn c22_core(s: &mut Shard) {
    error_sites(s, &|_, _| true, &mut |s, c| {
        s.run(&c);
    });
    // front matter errors
    let lines = ["k: \"v\"", "bad", "bad: x", "bad: \"x", "", "\"k\": v"];
    seqs(lines.len(), 4, &mut |q| {
        for eol in ["\n", "\r\n"] {
            if s.owns() {
                let l: Vec<&str> = q.iter().map(|i| lines[*i]).collect();
                s.run(&base(Mode::Location).with("p.md", format!("---{e}{}{e}---{e}body", l.join(eol), e = eol)));
            }
        }
    });
    // front matter of every length, with the error in it, or in the body
    for n in crate::ladders::lengths(s.tier) {
        for eol in ["\n", "\r\n"] {
            for (e, (bad, body)) in [("bad", ""), ("bad: \"x", "{{ $nope }}"), ("k: \"v\"", "{{ $nope }}"), ("k: \"v\"", "{{ nope( }}")].into_iter().enumerate() {
                if n <= 66000 && s.owns() {
                    let l: String = (0..n).map(|i| format!("k{}: \"{}\"{}", i, i % 7, eol)).collect();
                    let mut c = base(Mode::Location).with("p.md", format!("---{eol}{l}{bad}{eol}{l}---{eol}{body}{eol}"));
                    c.key = Some(format!("{} lines of front matter, then error {}, {} bytes after a line", n, e, eol.len()));
                    s.run(&c);
                }
            }
        }
    }
}
