//! Properties of the commands as a whole: failed builds, output directories, scripts, `new` and `clean`.

use crate::cli::*;
use crate::cli_props::*;
use crate::core_props::{product, section, seqs};
use crate::json::V;
use crate::model::{Files, Plugins};
use crate::rt::{hash, Case, Outcome, Rt, Shard, Tier};
use crate::site::{MD, ROOT};
use std::path::{Path, PathBuf};

pub fn num(v: Option<&V>) -> usize {
    match v {
        Some(V::Num(n)) => *n as usize,
        _ => 0,
    }
}

fn n(x: usize) -> V {
    V::Num(x as f64)
}

pub fn text(v: &V, k: &str) -> String {
    v.get(k).and_then(|s| s.str()).unwrap_or("").to_string()
}

#[derive(Clone)]
pub enum Op {
    Put(&'static str, Vec<u8>),
    Del(&'static str),
    Mode(&'static str, u32),
    Link(&'static str, &'static str),
    Dir(&'static str),
    Append(&'static str, &'static str),
}

pub fn apply(p: &Path, ops: &[Op]) {
    use std::os::unix::fs::PermissionsExt;
    for o in ops {
        match o {
            Op::Put(f, d) => {
                let t = p.join(f);
                if t.is_dir() {
                    remove(&t);
                }
                // the parent may be a file so far
                let mut a = t.parent();
                while let Some(x) = a {
                    if x.is_file() {
                        remove(x);
                    }
                    a = x.parent();
                }
                put(p, f, d)
            }
            Op::Del(f) => remove(&p.join(f)),
            Op::Mode(f, m) => std::fs::set_permissions(p.join(f), std::fs::Permissions::from_mode(*m)).unwrap(),
            Op::Link(f, t) => {
                remove(&p.join(f));
                std::os::unix::fs::symlink(t, p.join(f)).unwrap()
            }
            Op::Dir(f) => {
                remove(&p.join(f));
                std::fs::create_dir_all(p.join(f)).unwrap()
            }
            Op::Append(f, t) => {
                let mut d = std::fs::read(p.join(f)).unwrap_or_default();
                d.extend_from_slice(t.as_bytes());
                put(p, f, &d)
            }
        }
    }
}

/// A project using every part of a build; versions differ in every file.
pub fn project(version: usize, conf: Conf) -> Tree {
    let v = |s: &str| format!("{} v{}", s, version);
    let mut t = Tree::new(conf)
        .with("content/root.html", ROOT)
        .with("content/md.html", MD)
        .with("content/index.html", section(&v("index")))
        .with("content/p.html", section(&v("p")))
        .with("content/m.md", format!("---\nk: \"{}\"\n---\n# {}\n", v("k"), v("M")))
        .with("content/d.json", format!("{{\"v\": {}}}", version))
        .with("content/x.txt", v("x"))
        .with("content/sub/q.html", format!("{{{{ begin(\"x\") }}}}{{{{ import($d, \"d.json\") }}}}{}{{{{ end(\"x\") }}}}", v("q")))
        .with("content/sub/deep/r.md", v("r"))
        .with("static/s.css", v("s"))
        .with("static/sub/u.txt", v("u"));
    if version == 1 {
        t = t.with("content/old.html", section("old")).with("content/sub/gone/z.txt", "z").with("static/old/o.bin", [0u8, 255, 10]);
    }
    t
}

// ------------------------------------------------------------------------------- C15: failing builds

pub fn stages() -> Vec<(&'static str, Vec<Op>)> {
    use Op::*;
    let s = |x: &str| x.as_bytes().to_vec();
    let pre = |x: &str| Put("scripts/onPreBuild.sh", x.as_bytes().to_vec());
    let dep = |x: &'static str| Append("stuart.toml", x);
    let js_ok = Put("ok.mjs", s("export default { name: \"ok\", version: \"1\", functions: [{name: \"boom\", fn: () => { throw new Error(\"x\") }}] }"));
    let mut v: Vec<(&'static str, Vec<Op>)> = vec![
        ("manifest missing", vec![Del("stuart.toml")]),
        ("manifest is not TOML", vec![Put("stuart.toml", s("[site\nname = 1"))]),
        ("manifest without name", vec![Put("stuart.toml", s("[site]\nauthor = \"a\"\n"))]),
        ("manifest with wrong type", vec![Put("stuart.toml", s("[site]\nname = \"a\"\n[settings]\nsave_metadata = 1\n"))]),
        ("manifest is not UTF-8", vec![Put("stuart.toml", b"[site]\nname = \"\xff\"\n".to_vec())]),
        ("manifest unreadable", vec![Mode("stuart.toml", 0)]),
        ("manifest is a directory", vec![Dir("stuart.toml")]),
        ("plugin missing", vec![dep("\n[dependencies]\na = \"./none.mjs\"\n")]),
        ("plugin library missing", vec![dep("\n[dependencies]\na = \"./none.so\"\n")]),
        ("plugin library is garbage", vec![Put("x.so", s("garbage")), dep("\n[dependencies]\na = \"./x.so\"\n")]),
        ("plugin for another platform", vec![Put("x.dll", s("garbage")), dep("\n[dependencies]\na = \"./x.dll\"\n")]),
        ("plugin with syntax error", vec![Put("x.mjs", s("export default {")), dep("\n[dependencies]\na = \"./x.mjs\"\n")]),
        ("plugin without export", vec![Put("x.mjs", s("let a = 1;")), dep("\n[dependencies]\na = \"./x.mjs\"\n")]),
        ("second of two plugins missing", vec![js_ok.clone(), dep("\n[dependencies]\na = \"./ok.mjs\"\nb = \"./none.mjs\"\n")]),
        ("pre-build script fails", vec![pre("exit 1\n")]),
        ("pre-build script fails late", vec![pre("mkdir \"$STUART_TEMP_DIR\" && echo x > \"$STUART_TEMP_DIR/gen.txt\"; exit 3\n")]),
        ("pre-build script is killed", vec![pre("kill -9 $$\n")]),
        ("pre-build script has a syntax error", vec![pre("if then\n")]),
        ("pre-build script unreadable", vec![pre("true\n"), Mode("scripts/onPreBuild.sh", 0)]),
        ("second pre-build script fails", vec![pre("mkdir \"$STUART_TEMP_DIR\"\n"), Put("scripts/onPreBuild", s("exit 255\n"))]),
        ("no content", vec![Del("content")]),
        ("content is a file", vec![Del("content"), Put("content", s("x"))]),
        ("content unreadable", vec![Mode("content", 0)]),
        ("directory unreadable", vec![Mode("content/sub/deep", 0)]),
        ("directory not searchable", vec![Mode("content/sub", 0o444)]),
        ("static unreadable", vec![Mode("static", 0)]),
        ("static file unreadable", vec![Mode("static/sub/u.txt", 0)]),
        ("page is not UTF-8", vec![Put("content/p.html", b"\xff".to_vec())]),
        ("markdown is not UTF-8", vec![Put("content/sub/deep/r.md", b"\xff".to_vec())]),
        ("malformed JSON", vec![Put("content/d.json", s("{\"a\": }"))]),
        ("no root template", vec![Del("content/root.html")]),
        ("no markdown template", vec![Del("content/md.html")]),
        ("bad front matter", vec![Put("content/m.md", s("---\nk: v\n---\n"))]),
        ("open front matter", vec![Put("content/m.md", s("---\nk: \"v\"\n"))]),
        ("missing import", vec![Del("content/d.json")]),
        ("exception in a plugin", vec![js_ok.clone(), dep("\n[dependencies]\na = \"./ok.mjs\"\n"), Put("content/p.html", s("{{ begin(\"x\") }}{{ boom() }}{{ end(\"x\") }}"))]),
        ("two pages for one path", vec![Put("content/m.html", s("{{ begin(\"x\") }}{{ end(\"x\") }}"))]),
        ("static file for a page", vec![Put("static/index.html", s("x"))]),
        ("static file for a file", vec![Put("static/x.txt", s("x"))]),
        ("file and directory", vec![Put("static/x.txt/y", s("x"))]),
        ("temp file for a page", vec![pre("mkdir -p \"$STUART_TEMP_DIR\" && echo x > \"$STUART_TEMP_DIR/index.html\"\n")]),
        ("temp file for a static file", vec![pre("mkdir -p \"$STUART_TEMP_DIR/sub\" && echo x > \"$STUART_TEMP_DIR/sub/u.txt\"\n")]),
        ("temp file unreadable", vec![pre("mkdir -p \"$STUART_TEMP_DIR\" && echo x > \"$STUART_TEMP_DIR/g\" && chmod 0 \"$STUART_TEMP_DIR/g\"\n")]),
    ];
    for f in ["content/root.html", "content/md.html", "content/index.html", "content/m.md", "content/sub/q.html", "content/x.txt", "content/d.json"] {
        v.push((Box::leak(format!("{} unreadable", f).into_boxed_str()), vec![Mode(f, 0)]));
    }
    // errors in each kind of template
    for f in ["content/root.html", "content/md.html", "content/index.html", "content/m.md", "content/sub/q.html", "content/sub/deep/r.md"] {
        for e in [
            "{{ nope() }}", "{{ $nope }}", "{{ $self.nope }}", "{{", "{{ $x", "{{ begin(\"o\") }}", "{{ end(\"o\") }}", "{{ else() }}", "{{ import($i, \"none.json\") }}", "{{ for($f, \"none/\") }}{{ end(for) }}",
            "{{ import($i, \"../stuart.toml\") }}", "{{ dateformat($env.HOME, \"%Y\") }}", "{{ ifeq($nope, 1) }}{{ end(ifeq) }}", "{{ excerpt($d, -1) }}", "{{ insert(\"nope\") }}", "{{ for($f, $env) }}{{ end(for) }}",
        ] {
            // a section which is not inserted does not matter where sections are
            if e.contains("insert") && !f.ends_with("root.html") {
                continue;
            }
            v.push((Box::leak(format!("{} in {}", e, f).into_boxed_str()), vec![Append(f, e)]));
        }
    }
    v
}

struct Fail {
    stage: usize,
    name: &'static str,
    ops: Vec<Op>,
    prev: usize,
    how: usize,
    bits: usize,
}

pub const BENCH: usize = 8;

/// `invocation`, or the benchmark command.
pub fn ask(how: usize, w: &Path, p: &Path) -> (PathBuf, Vec<String>, PathBuf) {
    if how == BENCH {
        return (p.to_path_buf(), vec!["bench".into(), "-i".into(), "2".into()], p.join("dist"));
    }
    invocation(how, w, p)
}

pub fn run_args(rt: &Rt, cwd: &Path, a: &[String]) -> Run {
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    stuart(rt, cwd, &a)
}

impl Case for Fail {
    fn json(&self) -> V {
        V::Obj(vec![
            ("stage".into(), n(self.stage)),
            ("name".into(), V::s(self.name)),
            ("prev".into(), n(self.prev)),
            ("how".into(), n(self.how)),
            ("bits".into(), n(self.bits)),
        ])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, steps: 1, class: Some("failed build"), ..Default::default() };
        let (w, p) = fresh(rt);
        project(1, Conf::of_bits(self.bits)).write(&p);
        let (cwd, args, out) = ask(self.how, &w, &p);
        match self.prev {
            0 => (),
            2 => {
                previous(1, &out, &p);
                put(&p, "_build/plugins/x/y", b"cached");
            }
            k if k >= 100 => previous(k, &out, &p),
            k => {
                if k == 4 {
                    std::fs::create_dir_all(w.join("linked")).unwrap();
                    let _ = std::os::unix::fs::symlink(w.join("linked"), &out);
                }
                let r = run_args(rt, &cwd, &args);
                o.traces += 1;
                if !r.ok() {
                    o.viol = Some((self.json().print(), format!("the first build fails: {}", r.plain_err())));
                    return o;
                }
                if k == 3 {
                    put(&p, "temp/left/over.txt", b"over");
                }
            }
        }
        // the next version of the project, which cannot be built
        for (f, d) in &project(2, Conf::of_bits(self.bits)).files {
            put(&p, f, d);
        }
        apply(&p, &self.ops);
        let before = snapshot(&w);
        let r = run_args(rt, &cwd, &args);
        let after = snapshot(&w);
        let temp = format!("{}/temp", PROJECT);
        let keep = |k: &str| !k.starts_with(&temp);
        let (a, b) = (only(&before, keep), only(&after, keep));
        o.states = vec![hash(format!("{:?}", after).as_bytes())];
        let bad = if r.ok() {
            Some(format!("the build succeeds although: {}", self.name))
        } else if let Some(x) = r.orderly() {
            Some(x)
        } else if a != b {
            Some(format!("a failed build ({}) changed files: {}", self.name, diff(&a, &b)))
        } else {
            None
        };
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

// ------------------------------------------------------------------------------- C15: output directories

struct Target {
    o: String,
    setup: usize,
    bits: usize,
}

impl Case for Target {
    fn json(&self) -> V {
        V::Obj(vec![("o".into(), V::s(&self.o)), ("setup".into(), n(self.setup)), ("bits".into(), n(self.bits))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, steps: 1, ..Default::default() };
        let conf = Conf::of_bits(self.bits);
        // deep inside the scratch directory, so that `..` stays in it
        let w = rt.scratch.join("w");
        remove(&w);
        let p = w.join("a/b/c").join(PROJECT);
        let mut t = Tree::new(conf.clone()).with("content/root.html", ROOT).with("content/index.html", section("i")).with("content/sub/p.html", section("p")).with("static/sub/s.txt", "s");
        if self.setup & 1 != 0 {
            t.temp.insert("sub/t.txt".into(), b"t".to_vec());
        }
        t.write(&p);
        put(&p, "notes/mine.txt", b"notes");
        put(&p, "sib", b"a file");
        put(&w, "a/b/c/sib/theirs.txt", b"theirs");
        put(&w, "a/b/c/other/content/x", b"x");
        if self.setup & 2 != 0 {
            put(&p, "dist/old/x.html", b"old");
            put(&p, "metadata.json", b"old");
            put(&p, "temp/left.txt", b"left");
            let _ = std::os::unix::fs::symlink("content", p.join("ln"));
            let _ = std::os::unix::fs::symlink("notes", p.join("nt"));
            // links in directories which the build removes
            for (t, l) in [("../../notes", "dist/old/ln"), ("../notes/mine.txt", "dist/f.txt"), ("..", "dist/up"), ("none", "dist/nowhere"), ("../notes", "temp/ln"), ("../content/index.html", "temp/f.html"), ("../../sib", "notes/out"), ("../content", "notes/in")] {
                let _ = std::os::unix::fs::symlink(t, p.join(l));
            }
        }
        let q = p.join(&self.o);
        let place = q.canonicalize().ok().or_else(|| Some(q.parent()?.canonicalize().ok()?.join(q.file_name()?)));
        let pc = p.canonicalize().unwrap();
        let over = |a: &Path, b: &Path| a.starts_with(b) || b.starts_with(a);
        let source = place.as_ref().is_some_and(|r| {
            pc.starts_with(r) || ["content", "static", "scripts", "temp", "stuart.toml"].iter().any(|d| over(r, &pc.join(d)))
        });
        let blocked = place.as_ref().is_none_or(|r| r.is_file() || r.parent().is_none_or(|d| d.is_file()));
        let before = snapshot(&w);
        let r = stuart(rt, &p, &["build", "-o", &self.o]);
        let after = snapshot(&w);
        let rel = place.as_ref().and_then(|r| r.strip_prefix(w.canonicalize().unwrap()).ok().map(|x| x.to_str().unwrap().to_string()));
        let pre = format!("a/b/c/{}", PROJECT);
        let keep = |k: &str| {
            let mut own = k.starts_with(&format!("{}/temp", pre));
            if r.ok() {
                own |= k == format!("{}/metadata.json", pre);
                // a link is replaced, not followed
                own |= self.o == "nt" && (k == format!("{}/nt@", pre) || k.starts_with(&format!("{}/nt/", pre)));
                if let Some(d) = &rel {
                    own |= k.trim_end_matches('@').trim_end_matches('/') == d || k.starts_with(&format!("{}/", d));
                }
            }
            !own
        };
        let (a, b) = (only(&before, keep), only(&after, keep));
        o.states = vec![hash(format!("{:?}", after).as_bytes())];
        let mut bad = r.orderly();
        if bad.is_none() && a != b {
            bad = Some(format!("the build (status {:?}) changed files outside the output directory: {}", r.code, diff(&a, &b)));
        }
        o.class = Some(if source {
            if bad.is_none() && r.ok() {
                bad = Some(format!("output directory {:?} overlaps the sources but is accepted", self.o));
            }
            "overlaps sources"
        } else if blocked || self.o.starts_with("temp/") || self.o.contains("/temp/") || place.as_ref().is_some_and(|r| r.ends_with("metadata.json")) {
            "cannot be a directory"
        } else {
            if bad.is_none() && !r.ok() {
                bad = Some(format!("output directory {:?} is refused: {}", self.o, r.plain_err()));
            }
            if bad.is_none() {
                let env = vec![("STUART_ENV".to_string(), "production".to_string())];
                if let Want::Ok(e) = want(&t.files, &[], &t.temp, &conf, &env, &Plugins::default()) {
                    bad = check_output(&e, &snapshot(&q));
                }
            }
            "accepted"
        });
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

pub fn c15_bounds(t: Tier) -> String {
    format!(
        "{} kinds and places of failure x {} previous states x {} ways to invoke the command; every output directory of <= {} parts over 16 names x 4 project states; every failing system call of a build leaves the sources and, before it is saved, the previous output untouched",
        stages().len(),
        t.pick(4, 5),
        t.pick(3, 5),
        t.pick(2, 3)
    )
}

pub fn c15(s: &mut Shard) {
    let (prevs, hows): (&[usize], &[usize]) = match s.tier {
        Tier::Quick => (&[0, 1, 3, 4], &[0, 2, BENCH]),
        Tier::Thorough | Tier::Deep => (&[0, 1, 2, 3, 4], &[0, 2, 3, 5, BENCH]),
    };
    for (i, (name, ops)) in stages().into_iter().enumerate() {
        for prev in prevs {
            for how in hows {
                for bits in [1, 6] {
                    s.one(&Fail { stage: i, name, ops: ops.clone(), prev: *prev, how: *how, bits });
                }
            }
        }
    }
    // outputs of every size survive
    for n in crate::ladders::counts(s.tier) {
        for (i, (name, ops)) in stages().into_iter().enumerate() {
            if n <= 300 && i % s.tier.pick(6, 2) == n % s.tier.pick(6, 2) {
                s.one(&Fail { stage: i, name, ops, prev: 100 + n, how: 0, bits: 6 });
            }
        }
    }
    let parts = [".", "..", "content", "static", "scripts", "temp", "dist", "new", PROJECT, "sib", "notes", "_build", "metadata.json", "stuart.toml", "ln", "sub"];
    let mut paths = vec![String::new(), "./".into(), "dist/".into(), "dist//".into(), "content/".into(), ".//..//c".into(), "nt".into(), "nt/x".into(), "../other".into(), "../other/content".into(), "../../b".into(), "../../../a/b/x".into()];
    seqs(parts.len(), s.tier.pick(2, 3), &mut |q| {
        if !q.is_empty() {
            paths.push(q.iter().map(|i| parts[*i]).collect::<Vec<_>>().join("/"));
        }
    });
    paths.push(format!("../../../../a/b/c/{}/out", PROJECT));
    crate::fault_props::c15_faults(s);
    for o in paths {
        for setup in 0..4 {
            s.one(&Target { o: o.clone(), setup, bits: if setup == 3 { 6 } else { 1 } });
        }
    }
}

pub fn c15_json(v: &V) -> Box<dyn Case> {
    if v.get("fail").is_some() || v.get("act").is_some() {
        return crate::fault_props::c17_json(v);
    }
    if v.get("o").is_some() {
        return Box::new(Target { o: text(v, "o"), setup: num(v.get("setup")), bits: num(v.get("bits")) });
    }
    let name = text(v, "name");
    let (i, (nm, ops)) = stages().into_iter().enumerate().find(|x| x.1 .0 == name).expect("stage");
    Box::new(Fail { stage: i, name: nm, ops, prev: num(v.get("prev")), how: num(v.get("how")), bits: num(v.get("bits")) })
}

// ------------------------------------------------------------------------------- C18: scripts

/// Script names in the order of running, and whether they run before or after the build.
const SCRIPTS: [(&str, bool); 4] = [("onPreBuild.sh", true), ("onPreBuild", true), ("onPostBuild.sh", false), ("onPostBuild", false)];

const ABSENT: usize = 0;
const OK: usize = 1;
const EXIT: usize = 2;
const KILLED: usize = 3;
const DIR: usize = 4;
const NOISY: usize = 5;
const LATE: usize = 6;
/// A script which writes k - SAYS bytes to each stream.
const SAYS: usize = 100;
/// The same, but it fails afterwards.
const SAYS_EXIT: usize = 10_000_000;

fn fails(k: usize) -> bool {
    k == EXIT || k == KILLED || k >= SAYS_EXIT
}

struct ScriptCase {
    kind: [usize; 4],
    /// 0: builds, 1: does not parse, 2: temp conflicts with content
    build: usize,
    /// 0: build, 1: build with -o and a manifest path, 2..: benchmark with n - 1 iterations
    cmd: usize,
    prev: bool,
    meta: bool,
}

struct Seen {
    log: Vec<String>,
    ok: bool,
    /// state of the project the scripts recorded, by the number of the log line
    copies: Vec<(usize, Files, bool)>,
    files: Files,
    temp: Files,
    built: bool,
}

impl ScriptCase {
    fn text(&self, i: usize, log: &str) -> String {
        let (name, pre) = SCRIPTS[i];
        let mut s = format!(
            "L='{}'\nt=no; [ -e \"$STUART_TEMP_DIR\" ] && t=yes\necho \"{}|$STUART_MANIFEST_PATH|$STUART_MANIFEST_DIR|$STUART_TEMP_DIR|$STUART_OUT_DIR|$STUART_ENV|$t\" >> \"$L/log\"\nset -- $(wc -l < \"$L/log\")\nn=$1\npwd -P > \"$L/cwd.$n\"\nenv > \"$L/env.$n\"\n",
            log, name
        );
        let k = self.kind[i];
        if k == EXIT {
            s.push_str("echo some output; echo 'what went wrong' >&2; exit 7\n");
        }
        if k == KILLED {
            s.push_str("kill -9 $$\n");
        }
        if k >= SAYS {
            let bytes = (k - SAYS) % (SAYS_EXIT - SAYS);
            s.push_str(&format!("head -c {bytes} /dev/zero | tr '\\0' 'e' >&2\nhead -c {bytes} /dev/zero | tr '\\0' 'o'\nhead -c {bytes} /dev/zero | tr '\\0' 'e' >&2\n"));
            if k >= SAYS_EXIT {
                s.push_str("exit 3\n");
            }
        }
        if k == NOISY {
            s.push_str("head -c 300000 /dev/zero | tr '\\0' 'o'\nhead -c 300000 /dev/zero | tr '\\0' 'e' >&2\n");
        }
        if pre {
            s.push_str(&format!(
                "echo \"gen {i} $n\" > \"$STUART_MANIFEST_DIR/static/gen{i}.txt\"\nmkdir -p \"$STUART_MANIFEST_DIR/content/g{i}\"\necho \"gen $n\" > \"$STUART_MANIFEST_DIR/content/g{i}/c.txt\"\nmkdir -p \"$STUART_TEMP_DIR/sub\"\necho \"temp $n\" > \"$STUART_TEMP_DIR/sub/t{i}.txt\"\n{}",
                if self.build == 2 && i == 0 { "echo x > \"$STUART_TEMP_DIR/x.txt\"\n" } else { "" }
            ));
        } else {
            s.push_str("cp -R \"$STUART_OUT_DIR\" \"$L/out.$n\"\ncp \"$STUART_MANIFEST_DIR/metadata.json\" \"$L/meta.$n\" 2>/dev/null\nmkdir -p \"$STUART_TEMP_DIR\"\necho late > \"$STUART_TEMP_DIR/late\"\n");
        }
        if k == LATE {
            s.push_str("exit 1\n");
        }
        s.push_str("true\n");
        s
    }

    fn iterations(&self) -> usize {
        self.cmd.saturating_sub(1).max(1)
    }

    /// What has to happen if scripts of one kind run in the given order.
    fn model(&self, t: &Tree, order: [usize; 4], env: &str) -> Seen {
        let mut s = Seen { log: vec![], ok: true, copies: vec![], files: t.files.clone(), temp: Files::new(), built: false };
        for _ in 0..self.iterations() {
            s.temp.clear();
            let mut built = false;
            for i in order {
                let (name, pre) = SCRIPTS[i];
                if self.kind[i] == ABSENT || self.kind[i] == DIR {
                    continue;
                }
                if !pre && !built {
                    built = true;
                    if self.build == 1 || (self.build == 2 && s.temp.contains_key("x.txt")) {
                        s.ok = false;
                        return s;
                    }
                    s.built = true;
                    s.copies.push((0, s.files.clone(), false));
                }
                // the temporary directory exists for a script if an earlier one of this phase made it
                let has = !s.temp.is_empty();
                s.log.push(format!("{}|{}|{}", name, env, if has && pre { "yes" } else if pre { "no" } else { "" }));
                let n = s.log.len();
                if fails(self.kind[i]) {
                    s.ok = false;
                    return s;
                }
                if pre {
                    s.files.insert(format!("static/gen{}.txt", i), format!("gen {} {}\n", i, n).into_bytes());
                    s.files.insert(format!("content/g{}/c.txt", i), format!("gen {}\n", n).into_bytes());
                    s.temp.insert(format!("sub/t{}.txt", i), format!("temp {}\n", n).into_bytes());
                    if self.build == 2 && i == 0 {
                        s.temp.insert("x.txt".into(), b"x\n".to_vec());
                    }
                } else {
                    s.copies.push((n, s.files.clone(), true));
                }
                if self.kind[i] == LATE {
                    s.ok = false;
                    return s;
                }
            }
            if !built {
                if self.build == 1 || (self.build == 2 && s.temp.contains_key("x.txt")) {
                    s.ok = false;
                    return s;
                }
                s.built = true;
            }
        }
        s
    }
}

pub fn canon(p: &str) -> String {
    let q = Path::new(p);
    match q.canonicalize() {
        Ok(c) => c.to_string_lossy().into_owned(),
        Err(_) => match q.parent().and_then(|d| d.canonicalize().ok()) {
            Some(d) => d.join(q.file_name().unwrap_or_default()).to_string_lossy().into_owned(),
            None => p.to_string(),
        },
    }
}

impl Case for ScriptCase {
    fn json(&self) -> V {
        V::Obj(vec![
            ("kind".into(), V::Arr(self.kind.iter().map(|k| n(*k)).collect())),
            ("build".into(), n(self.build)),
            ("cmd".into(), n(self.cmd)),
            ("prev".into(), V::Bool(self.prev)),
            ("meta".into(), V::Bool(self.meta)),
        ])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, steps: 1, ..Default::default() };
        let (w, p) = fresh(rt);
        let conf = Conf { meta: Some(self.meta), ..Default::default() };
        let mut t = Tree::new(conf.clone()).with("content/root.html", ROOT).with("content/index.html", section("i {{ $env.STUART_ENV }}")).with("content/x.txt", "x").with("static/s.txt", "s");
        if self.build == 1 {
            t.add("content/bad.html", "{{ nope() }}");
        }
        t.write(&p);
        let logs = w.join("log");
        std::fs::create_dir_all(&logs).unwrap();
        for i in 0..4 {
            match self.kind[i] {
                ABSENT => (),
                DIR => put(&p, &format!("scripts/{}/x", SCRIPTS[i].0), b"exit 1\n"),
                _ => put(&p, &format!("scripts/{}", SCRIPTS[i].0), self.text(i, logs.to_str().unwrap()).as_bytes()),
            }
        }
        put(&p, "scripts/onPreBuild.sh.bak", b"exit 1\n");
        put(&p, "scripts/other.sh", b"exit 1\n");
        put(&p, "scripts/sub/onPostBuild.sh", b"exit 1\n");
        let (cwd, args, out, env) = match self.cmd {
            0 => (p.clone(), vec!["build".to_string()], p.join("dist"), "production"),
            1 => {
                let l = w.join("link");
                std::os::unix::fs::symlink(&p, &l).unwrap();
                (w.clone(), vec!["build".into(), "--manifest-path".into(), "link/stuart.toml".into(), "-o".into(), "../out put".into()], w.join("out put"), "production")
            }
            k => (p.clone(), vec!["bench".into(), "-i".into(), (k - 1).to_string()], p.join("dist"), "benchmark"),
        };
        if self.prev {
            previous(1, &out, &p);
            put(&p, "temp/left.txt", b"left");
        }
        let before = snapshot(&out);
        let r = run_args(rt, &cwd, &args);
        let log: Vec<String> = std::fs::read_to_string(logs.join("log")).unwrap_or_default().lines().map(|s| s.to_string()).collect();
        let mut bad = r.orderly();
        // environment
        let want_env = [p.join("stuart.toml"), p.clone(), p.join("temp"), out.clone()].map(|x| canon(x.to_str().unwrap()));
        let mut got = vec![];
        for l in &log {
            let f: Vec<&str> = l.split('|').collect();
            if f.len() != 7 {
                bad = bad.or(Some(format!("odd log line {:?}", l)));
                continue;
            }
            for k in 0..4 {
                if canon(f[k + 1]) != want_env[k] || !f[k + 1].starts_with('/') {
                    bad = bad.or(Some(format!("script {} sees {} = {:?} instead of {:?}", f[0], ["STUART_MANIFEST_PATH", "STUART_MANIFEST_DIR", "STUART_TEMP_DIR", "STUART_OUT_DIR"][k], f[k + 1], want_env[k])));
                }
            }
            // everything else is as it was for stuart itself
            let num = got.len() + 1;
            let read = |n: &str| std::fs::read_to_string(logs.join(format!("{}.{}", n, num))).unwrap_or_default();
            let wd = read("cwd");
            if wd.trim_end_matches('\n') != canon(cwd.to_str().unwrap()) {
                bad = bad.or(Some(format!("script {} runs in {:?} instead of {:?}", f[0], wd, cwd)));
            }
            let mut vars: Vec<String> = read("env").lines().filter(|l| !["PWD=", "OLDPWD=", "SHLVL=", "_=", "STUART_"].iter().any(|p| l.starts_with(p))).map(|l| l.to_string()).collect();
            vars.sort();
            if vars != ["HOME=", "PATH=", "TZ="].iter().zip([rt.scratch.join("home").to_str().unwrap(), "/usr/local/bin:/usr/bin:/bin", "QQQ7:15"]).map(|(a, b)| format!("{}{}", a, b)).collect::<Vec<_>>() {
                bad = bad.or(Some(format!("script {} sees the environment {:?}", f[0], vars)));
            }
            let post = f[0].starts_with("onPost");
            got.push(format!("{}|{}|{}", f[0], f[5], if post { "" } else { f[6] }));
        }
        // the order of two scripts of one phase is not specified
        let mut whys = vec![];
        let after = snapshot(&out);
        let envs = vec![("STUART_ENV".to_string(), env.to_string())];
        for order in [[0, 1, 2, 3], [1, 0, 2, 3], [0, 1, 3, 2], [1, 0, 3, 2]] {
            let m = self.model(&t, order, env);
            let mut why = None;
            if m.log != got {
                why = Some(format!("scripts ran as {:?} instead of {:?}", got, m.log));
            } else if m.ok != r.ok() {
                why = Some(format!("exit status {:?} although the build should {}: {}", r.code, if m.ok { "succeed" } else { "fail" }, r.plain_err()));
            }
            let e = |files: &Files, temp: &Files| want(files, &[], temp, &conf, &envs, &Plugins::default());
            if why.is_none() {
                if m.built {
                    // several iterations replace the output each time; the last state which was built counts
                    let (mut files, mut temp) = (t.files.clone(), Files::new());
                    let last = m.log.iter().rposition(|l| l.starts_with("onPost")).map_or(m.log.len(), |x| x + 1);
                    let done = if m.ok { m.log.len() } else { last };
                    replay(&m.log[..done], order, &mut files, &mut temp);
                    match e(&files, &temp) {
                        Want::Ok(e) => {
                            why = check_output(&e, &after).or_else(|| if self.prev && e.meta.is_none() { None } else { check_metadata(e.meta.as_ref(), &p.join("metadata.json")) });
                        }
                        x => why = Some(format!("the model cannot build: {:?}", x)),
                    }
                } else if before != after {
                    why = Some(format!("nothing should have been saved: {}", diff(&before, &after)));
                }
            }
            // what the post-build scripts saw
            if why.is_none() {
                for (num, _, script) in &m.copies {
                    if !script {
                        continue;
                    }
                    let (mut files, mut temp) = (t.files.clone(), Files::new());
                    replay(&m.log[..*num], order, &mut files, &mut temp);
                    if let Want::Ok(e) = e(&files, &temp) {
                        why = why.or(check_output(&e, &snapshot(&logs.join(format!("out.{}", num)))).map(|x| format!("a post-build script sees a {}", x)));
                        if self.meta {
                            why = why.or(check_metadata(e.meta.as_ref(), &logs.join(format!("meta.{}", num))).map(|x| format!("for a post-build script {}", x)));
                        }
                    }
                }
            }
            match why {
                None => {
                    whys.clear();
                    break;
                }
                Some(x) => whys.push(x),
            }
        }
        bad = bad.or(whys.into_iter().next());
        if bad.is_none() && std::fs::symlink_metadata(p.join("temp")).is_ok() {
            bad = Some("the temporary directory outlives the build".into());
        }
        o.class = Some(if r.ok() { "built" } else { "failed" });
        o.states = vec![hash(format!("{:?}{:?}", got, r.code).as_bytes())];
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

/// Effects of the scripts of a log on the project; `temp` is that of the last build.
fn replay(log: &[String], _order: [usize; 4], files: &mut Files, temp: &mut Files) {
    let mut post = false;
    for (k, l) in log.iter().enumerate() {
        let name = l.split('|').next().unwrap();
        let i = SCRIPTS.iter().position(|s| s.0 == name).unwrap();
        if !SCRIPTS[i].1 {
            post = true;
            continue;
        }
        // a new build starts with the first script after a post-build script, or when a script runs again
        if post || temp.contains_key(&format!("sub/t{}.txt", i)) {
            temp.clear();
            post = false;
        }
        let n = k + 1;
        files.insert(format!("static/gen{}.txt", i), format!("gen {} {}\n", i, n).into_bytes());
        files.insert(format!("content/g{}/c.txt", i), format!("gen {}\n", n).into_bytes());
        temp.insert(format!("sub/t{}.txt", i), format!("temp {}\n", n).into_bytes());
    }
}

pub fn c18_bounds(t: Tier) -> String {
    format!("every combination of 4 scripts, each absent or with one of {} outcomes, x 3 build outcomes x {} commands, with and without previous output and metadata; output of 17 sizes up to 1 MB on both streams, succeeding and failing; the paths scripts see with {} characters in the names of project and output directories", t.pick(4, 6), t.pick(4, 5), crate::chars::few(t).len())
}

pub fn c18(s: &mut Shard) {
    let kinds: &[usize] = match s.tier {
        Tier::Quick => &[ABSENT, OK, EXIT, LATE, KILLED],
        Tier::Thorough | Tier::Deep => &[ABSENT, OK, EXIT, LATE, KILLED, NOISY, DIR],
    };
    let k = kinds.len();
    let cmds = s.tier.pick(4, 5);
    product(&[k, k, k, k, 3, cmds], &mut |i| {
        let x = i.iter().sum::<usize>();
        s.one(&ScriptCase { kind: [kinds[i[0]], kinds[i[1]], kinds[i[2]], kinds[i[3]]], build: i[4], cmd: i[5], prev: x % 2 == 0, meta: (x / 2) % 2 == 0 });
    });
    for bytes in [0usize, 1, 100, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131_072, 1_000_000] {
        for i in 0..4 {
            for base in [SAYS, SAYS_EXIT] {
                for cmd in 0..3 {
                    let mut kind = [ABSENT; 4];
                    kind[i] = base + bytes;
                    s.one(&ScriptCase { kind, build: 0, cmd, prev: bytes % 2 == 0, meta: false });
                }
            }
        }
    }
    crate::place::places(s, 1);
    if s.tier == Tier::Quick {
        for i in 0..4 {
            for kd in [KILLED, NOISY, DIR] {
                for other in [ABSENT, OK] {
                    for cmd in 0..4 {
                        for prev in [false, true] {
                            let mut kind = [other; 4];
                            kind[i] = kd;
                            s.one(&ScriptCase { kind, build: 0, cmd, prev, meta: prev });
                        }
                    }
                }
            }
        }
    }
}

pub fn c18_json(v: &V) -> Box<dyn Case> {
    if let Some(p) = crate::place::Place::from_json(v) {
        return p;
    }
    let k = v.get("kind").unwrap().arr().unwrap();
    let b = |x: &str| matches!(v.get(x), Some(V::Bool(true)));
    Box::new(ScriptCase { kind: [0, 1, 2, 3].map(|i| num(Some(&k[i]))), build: num(v.get("build")), cmd: num(v.get("cmd")), prev: b("prev"), meta: b("meta") })
}

// ------------------------------------------------------------------------------- C25: new

struct New {
    name: String,
    user: Option<String>,
    email: Option<String>,
    git: bool,
    /// what is at the target: 0 nothing, 1 file, 2 empty directory, 3 directory, 4 link, 5 dangling link
    target: usize,
}

impl Case for New {
    fn json(&self) -> V {
        let o = |x: &Option<String>| x.as_ref().map_or(V::Null, |s| V::s(s));
        V::Obj(vec![
            ("name".into(), V::s(&self.name)),
            ("user".into(), o(&self.user)),
            ("email".into(), o(&self.email)),
            ("git".into(), V::Bool(self.git)),
            ("target".into(), n(self.target)),
        ])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, steps: 1, ..Default::default() };
        let w = rt.scratch.join("w");
        remove(&w);
        let cwd = w.join("x/y");
        put(&cwd, "stuart.toml", b"mine");
        put(&cwd, "content/index.html", b"mine");
        put(&cwd, "static/mine.css", b"mine");
        put(&cwd, ".gitignore", b"mine");
        put(&w, "x/mine", b"mine");
        let target = cwd.join(&self.name);
        match self.target {
            0 => (),
            1 => put(&cwd, &self.name, b"mine"),
            2 => std::fs::create_dir_all(&target).unwrap(),
            3 => put(&target, "content/mine.html", b"mine"),
            4 => std::os::unix::fs::symlink("content", &target).unwrap(),
            6 => std::fs::create_dir_all(target.parent().unwrap()).unwrap(),
            _ => std::os::unix::fs::symlink("nowhere", &target).unwrap(),
        }
        let can = !self.name.is_empty() && !self.name.ends_with("/.") && std::fs::symlink_metadata(&target).is_err() && target.parent().is_some_and(|d| d.is_dir()) && target.file_name().is_none_or(|f| f.len() < 256) && self.name.len() < 4000;
        let mut c = command(rt, &cwd, &[]);
        if self.name.len() % 2 == 1 {
            hook(&w.join("hooked"), &mut c);
        }
        let before = snapshot(&w);
        c.arg("new");
        if !self.git {
            c.arg("--no-git");
        }
        c.arg("--").arg(&self.name);
        c.env("GIT_CONFIG_NOSYSTEM", "1").env("GIT_CONFIG_GLOBAL", "/dev/null").env("GIT_CEILING_DIRECTORIES", &w);
        let mut k = 0;
        for (key, v) in [("user.name", &self.user), ("user.email", &self.email)] {
            if let Some(v) = v {
                c.env(format!("GIT_CONFIG_KEY_{}", k), key).env(format!("GIT_CONFIG_VALUE_{}", k), v);
                k += 1;
            }
        }
        c.env("GIT_CONFIG_COUNT", k.to_string());
        let r = finish(c);
        let after = snapshot(&w);
        let mut bad = r.orderly();
        o.states = vec![hash(format!("{:?}", after).as_bytes())];
        if !can {
            o.class = Some("refused");
            if bad.is_none() && r.ok() {
                bad = Some("succeeds although the project cannot be created".into());
            }
            if bad.is_none() && before != after {
                bad = Some(format!("fails but changed files: {}", diff(&before, &after)));
            }
        } else {
            o.class = Some("created");
            let root = target.canonicalize().ok();
            if bad.is_none() && (!r.ok() || root.is_none()) {
                bad = Some(format!("a new project cannot be created: {}", r.plain_err()));
            }
            if let (None, Some(root)) = (&bad, root) {
                let rel = root.strip_prefix(w.canonicalize().unwrap()).unwrap().to_str().unwrap().to_string();
                let outer = |k: &str| !(k == format!("{}/", rel) || k.starts_with(&format!("{}/", rel)));
                let (a, b) = (only(&before, outer), only(&after, outer));
                if a != b {
                    bad = Some(format!("files outside the project changed: {}", diff(&a, &b)));
                }
                let proj = snapshot(&root);
                let known = |k: &str| ["stuart.toml", "content/", "static/", ".gitignore", ".git/"].iter().any(|x| k == *x || (x.ends_with('/') && k.starts_with(x)));
                if let Some(k) = proj.keys().find(|k| !known(k)) {
                    bad = bad.or(Some(format!("unexpected file {}", k)));
                }
                if proj.contains_key(".git/HEAD") != self.git || proj.contains_key(".gitignore") != self.git {
                    bad = bad.or(Some(format!("Git repository: wanted {}, files {:?}", self.git, proj.keys().filter(|k| k.starts_with(".git")).take(3).collect::<Vec<_>>())));
                }
                // build it
                let author = match (&self.user, &self.email) {
                    (Some(u), Some(e)) => Some(format!("{} <{}>", u, e)),
                    _ => None,
                };
                let conf = Conf { meta: Some(true), name: self.name.clone(), author, ..Default::default() };
                let plain = stuart(rt, &root, &["build", "-o", "first"]);
                let mut m = proj.get("stuart.toml").cloned().unwrap_or_default();
                m.extend_from_slice(b"\n[settings]\nsave_metadata = true\n");
                put(&root, "stuart.toml", &m);
                let again = stuart(rt, &root, &["build"]);
                o.traces += 2;
                for r in [&plain, &again] {
                    if !r.ok() {
                        bad = bad.or(Some(format!("the new project does not build: {}\n{}", r.plain_err(), String::from_utf8_lossy(&m))));
                    }
                }
                if bad.is_none() {
                    let files = only(&proj, |k| !k.ends_with('/'));
                    let env = vec![("STUART_ENV".to_string(), "production".to_string())];
                    match want(&files, &[], &Files::new(), &conf, &env, &Plugins::default()) {
                        Want::Ok(e) => {
                            bad = check_output(&e, &snapshot(&root.join("dist"))).or_else(|| check_output(&e, &snapshot(&root.join("first")))).or_else(|| check_metadata(e.meta.as_ref(), &root.join("metadata.json")));
                            if bad.is_none() && !e.files.contains_key("index.html") {
                                bad = Some("the new project has no index page".into());
                            }
                        }
                        x => bad = Some(format!("the new project should not build: {:?}", x)),
                    }
                }
            }
        }
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

// ------------------------------------------------------------------------------- C25: clean

struct Clean {
    /// dist, _build, metadata.json: 0 absent, 1 as a build leaves it, 2 empty, 3 link, 4 wrong kind, 5 dangling link
    art: [usize; 3],
    /// 0 project, 1 no manifest, 2 in a subdirectory of a project
    place: usize,
    /// what else there is: 0 files and directories of all kinds, 1 empty directories, 2 files, 3 empty files, 4 links,
    /// 5 directories with only empty directories in them
    others: usize,
}

/// Names which are not those of artefacts.
const NEIGHBOURS: [&str; 32] = [
    "temp", "tmp", "_temp", "static", "scripts", "content", "build", "target", "plugins", "node_modules", ".git", ".gitignore", ".stuart", "_site", "public", "out", "output", "dist2", "dist.bak", "dist~", "Dist", "_build2", "_builds", "metadata", "metadata.json.bak", "metadata.json~", "meta.json", "data.json", "stuart.toml.bak", "Cargo.lock", "log", "a b",
];

impl Case for Clean {
    fn json(&self) -> V {
        V::Obj(vec![("art".into(), V::Arr(self.art.iter().map(|k| n(*k)).collect())), ("place".into(), n(self.place)), ("others".into(), n(self.others))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, steps: 1, ..Default::default() };
        let (w, p) = fresh(rt);
        if self.others > 0 {
            for f in NEIGHBOURS {
                let t = p.join(f);
                remove(&t);
                match self.others {
                    1 => std::fs::create_dir_all(t).unwrap(),
                    2 => put(&p, f, b"mine"),
                    3 => put(&p, f, b""),
                    4 => std::os::unix::fs::symlink("../keep", t).unwrap(),
                    _ => std::fs::create_dir_all(t.join("a/b")).unwrap(),
                }
            }
        }
        for f in if self.others > 0 { &[][..] } else { &[
            "content/dist/index.html", "content/metadata.json", "content/_build/x", "static/dist/x", "dist2/x", "distx", "_build2", "metadata.json.bak", "metadata", ".dist/x", "build/x", "temp/x", "scripts/dist/x", "target/x",
            "content/index.html",
        ][..] } {
            put(&p, f, b"mine");
        }
        for f in ["dist/x", "_build/x", "metadata.json", "keep/dist/x", "keep/f"] {
            put(&w, f, b"mine");
        }
        if self.place != 1 {
            put(&p, "stuart.toml", b"[site]\nname = \"x\"\n");
        }
        let cwd = if self.place == 2 { p.join("content") } else { p.clone() };
        if self.place == 2 {
            remove(&cwd.join("stuart.toml"));
        }
        for (i, name) in ["dist", "_build", "metadata.json"].iter().enumerate() {
            let t = p.join(name);
            let link = |to: &str| std::os::unix::fs::symlink(to, &t).unwrap();
            match (self.art[i], i) {
                (0, _) => (),
                (1, 2) => put(&p, name, b"{}"),
                (1, _) => {
                    put(&t, "index.html", b"x");
                    put(&t, "sub/deep/er/x", b"x");
                    put(&t, ".hidden", b"x");
                    let _ = std::os::unix::fs::symlink("../content", t.join("ln"));
                    let _ = std::os::unix::fs::symlink("../../keep", t.join("ln2"));
                    let _ = std::os::unix::fs::symlink("../stuart.toml", t.join("ln3"));
                    let _ = std::os::unix::fs::symlink("nowhere", t.join("ln4"));
                }
                (2, 2) => put(&p, name, b""),
                (2, _) => std::fs::create_dir_all(&t).unwrap(),
                (3, 2) => link("../keep/f"),
                (3, _) => link("../keep"),
                (4, 2) => put(&t, "x", b"x"),
                (4, _) => put(&p, name, b"a file"),
                _ => link("nowhere"),
            }
        }
        let before = snapshot(&w);
        let r = stuart(rt, &cwd, &["clean"]);
        let after = snapshot(&w);
        let mut bad = r.orderly();
        let own = |k: &str| {
            ["dist", "_build", "metadata.json"].iter().any(|a| {
                let a = format!("{}/{}", PROJECT, a);
                k.trim_end_matches('@') == a || k.starts_with(&format!("{}/", a))
            })
        };
        o.states = vec![hash(format!("{:?}", after).as_bytes())];
        if self.place != 0 {
            o.class = Some("outside");
            if bad.is_none() && r.ok() {
                bad = Some("succeeds outside a project".into());
            }
            if bad.is_none() && before != after {
                bad = Some(format!("outside a project files changed: {}", diff(&before, &after)));
            }
        } else {
            let (a, b) = (only(&before, |k| !own(k)), only(&after, |k| !own(k)));
            if bad.is_none() && a != b {
                bad = Some(format!("other files changed: {}", diff(&a, &b)));
            }
            let odd = self.art.iter().any(|a| *a >= 4);
            o.class = Some(if odd { "unspecified" } else { "cleaned" });
            if bad.is_none() && !odd {
                if !r.ok() {
                    bad = Some(format!("fails: {}", r.plain_err()));
                } else if let Some(k) = after.keys().find(|k| own(k)) {
                    bad = Some(format!("{} is still there", k));
                } else {
                    let r = stuart(rt, &cwd, &["clean"]);
                    o.traces += 1;
                    if !r.ok() || snapshot(&w) != after {
                        bad = Some(format!("cleaning again: status {:?}, {}", r.code, r.plain_err()));
                    }
                }
            }
        }
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

pub fn c25_bounds(t: Tier) -> String {
    format!(
        "every project name of <= {} characters of 19, every Git user name and e-mail of <= {} characters of 12, each with and without --no-git; {} characters alone and inside a name, user and e-mail; every target state; clean: every combination of 6 states of each of 3 artefacts x 3 places, x 5 kinds of 32 other things next to them",
        t.pick(2, 3),
        t.pick(2, 3),
        crate::chars::few(t).len()
    )
}

pub fn c25(s: &mut Shard) {
    let ch = ["a", " ", "'", "\"", "\\", "\n", "\t", "\u{1}", "\u{7f}", "é", "😀", "-", ".", "#", "$x", "{", "/", "=", "]"];
    let me = |x: &str| Some(x.to_string());
    let mut i = 0;
    let mut names = vec![];
    seqs(ch.len(), s.tier.pick(2, 3), &mut |q| {
        let x: String = q.iter().map(|i| ch[*i]).collect();
        // never an absolute path
        if !x.starts_with('/') {
            names.push(x);
        }
    });
    for x in ["true", "1", "site", "stuart.toml", "content", "../up", "../up/x", "./here", "x/../z", "content/new", "static/", "\"\"\"", "'''", "\"; rm", "a\r\nb", "\u{2028}", "\u{feff}x", "-h", "--no-git", "--help", "%s", "{name}", "name = \"y\"", "[settings]", "dist", "\u{202e}", "tests/basic", "\\u0041"] {
        names.push(x.into());
    }
    names.push("n".repeat(255));
    names.push("n".repeat(256));
    for n in crate::ladders::counts(s.tier) {
        if (3..255).contains(&n) {
            names.push("n".repeat(n));
            names.push("é".repeat(n / 2) + "x");
        }
    }
    for x in &names {
        i += 1;
        for git in [false, true] {
            // with a repository for a part of them, as Git itself is slow
            if git && s.tier == Tier::Quick && x.chars().count() == 2 && i % 4 != 0 {
                continue;
            }
            s.one(&New { name: x.clone(), user: me("U"), email: if i % 2 == 0 { me("e@x") } else { None }, git, target: 0 });
        }
    }
    let id = ["a", " ", "'", "\"", "\\", "\n", "\t", "\u{1}", "é", "<", "#", "{"];
    seqs(id.len(), s.tier.pick(2, 3), &mut |q| {
        let x: String = q.iter().map(|i| id[*i]).collect();
        if x.is_empty() || x.trim() != x {
            return;
        }
        s.one(&New { name: "p".into(), user: me(&x), email: me("e"), git: false, target: 0 });
        s.one(&New { name: "p".into(), user: me("u"), email: me(&x), git: false, target: 0 });
    });
    // every character
    for c in crate::chars::few(s.tier) {
        if c == '\0' {
            continue;
        }
        if c != '/' {
            for name in [c.to_string(), format!("a{}", c), format!("{}a", c)] {
                s.one(&New { name, user: me("U"), email: me("e"), git: false, target: 0 });
            }
        }
        s.one(&New { name: "p".into(), user: me(&format!("a{}b", c)), email: me("e"), git: false, target: 0 });
        s.one(&New { name: "p".into(), user: me("u"), email: me(&format!("a{}b", c)), git: false, target: 0 });
    }
    for n in crate::ladders::lengths(s.tier) {
        let x: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        if n > 0 && n <= 65537 {
            s.one(&New { name: "p".into(), user: me(&x), email: me(&x), git: false, target: 0 });
        }
    }
    for (u, e) in [(None, None), (me("u"), None), (None, me("e")), (me("u"), me("e@x")), (me("Ünï \"Q\" \\ö"), me("é@ü")), (me("a\nauthor = \"b"), me("x"))] {
        for git in [false, true] {
            for target in 0..6 {
                for name in ["p", "p q", "é\"", "sub"] {
                    s.one(&New { name: name.into(), user: u.clone(), email: e.clone(), git, target });
                }
            }
        }
    }
    // names which lead through directories
    for n in crate::ladders::counts(s.tier) {
        for up in ["deep/", "d e/", "./", "../y/", "content/../"] {
            for git in [false, true] {
                if n < 300 && n > 0 && (n < 12 || !git) {
                    s.one(&New { name: up.repeat(n) + ["p", "content", "new"][n % 3], user: me("U"), email: me("e"), git, target: 6 });
                }
            }
        }
    }
    product(&[6, 6, 6, 3], &mut |i| {
        for others in 0..if i[3] == 0 { 6 } else { 1 } {
            s.one(&Clean { art: [i[0], i[1], i[2]], place: i[3], others });
        }
    });
}

pub fn c25_json(v: &V) -> Box<dyn Case> {
    if let Some(a) = v.get("art").and_then(|a| a.arr()) {
        return Box::new(Clean { art: [0, 1, 2].map(|i| num(Some(&a[i]))), place: num(v.get("place")), others: num(v.get("others")) });
    }
    let o = |k: &str| v.get(k).and_then(|s| s.str()).map(|s| s.to_string());
    Box::new(New { name: text(v, "name"), user: o("user"), email: o("email"), git: matches!(v.get("git"), Some(V::Bool(true))), target: num(v.get("target")) })
}

/// Makes a Git repository, and the environment of a command that of a hook of it.
pub fn hook(dir: &Path, c: &mut std::process::Command) {
    put(dir, ".git/HEAD", b"ref: refs/heads/main\n");
    put(dir, ".git/config", b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n");
    put(dir, ".git/objects/info/none", b"");
    put(dir, ".git/refs/heads/none/none", b"");
    put(dir, "f", b"f");
    c.env("GIT_DIR", dir.join(".git")).env("GIT_WORK_TREE", dir).env("GIT_INDEX_FILE", dir.join(".git/index")).env("GIT_PREFIX", "");
}
