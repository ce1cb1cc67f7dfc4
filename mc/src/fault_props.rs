//! Properties about histories, crashes, listing orders and failing system calls.
//! The stuart binary runs with shim/fs.c between it and the file system.

use crate::build_props::{num, text};
use crate::cli::*;
use crate::cli_props::{fresh, previous, Tree, PROJECT};
use crate::core_props::{product, section, seqs};
use crate::json::V;
use crate::model::{Files, Plugins};
use crate::rt::{hash, verif, Case, Outcome, Rt, Shard, Tier};
use crate::site::{MD, ROOT};
use std::path::Path;

fn n(x: usize) -> V {
    V::Num(x as f64)
}

// ------------------------------------------------------------------------------- projects

pub const BITS: usize = 12;
pub const STRIP_OFF: usize = 1 << 5;
pub const SCRIPT: usize = 1 << 7;
pub const BROKEN: usize = 1 << 8;
pub const META: usize = 1 << 11;
/// All contents change, but no length; and a file changes its name for one as long.
pub const SWAP: usize = 1 << 14;

/// The project in which the given changes have been made.
pub fn state(mask: usize) -> Tree {
    let on = |b: usize| mask & (1 << b) != 0;
    let mut t = Tree::new(Conf { strip: on(5).then_some(false), data: Some(true), meta: Some(on(11)), name: "s".into(), author: None });
    t.add("content/root.html", format!("<{}>{}", if on(9) { "new root" } else { "b" }, ROOT));
    t.add("content/md.html", if on(9) { MD.replace("{{ $self.content", "new {{ $self.content") } else { MD.replace("{{ $self.content", "old {{ $self.content") });
    t.add("content/index.html", section(if on(0) { "changed index, which is longer than before" } else { "index {{ for($f, \"sub2/\") }}{{ $f.k }},{{ end(for) }}" }));
    if on(1) {
        t.add("content/p/q.html", section("p is a directory now"));
    } else {
        t.add("content/p.html", section("p"));
    }
    if !on(2) {
        t.add("content/x.txt", "x\n\0\u{7f}é");
    }
    if on(3) {
        t.add("content/sub", "sub is a file now");
    } else {
        t.add("content/sub/deep/r.md", "r");
        t.add("content/sub/u.txt", "u");
    }
    t.add("content/sub2/m.md", format!("---\nk: \"{}\"\n---\n# M\n", if on(4) { "new" } else { "old" }));
    if on(4) {
        t.add("content/sub2/a.md", "---\nk: \"added\"\n---\n");
    }
    if on(6) {
        t.add("static/s.css", "changed");
    } else {
        t.add("static/s.css", "s");
        t.add("static/old/o.bin", [0u8, 255, 10]);
    }
    if on(7) {
        t.add("temp/gen.txt", "gen");
        t.add("temp/g/h.html", "{{ gen");
    }
    if on(8) {
        t.add("content/zz.html", "{{ $broken }}");
    }
    t.add("content/d.json", if on(10) { "{\"v\": 2, \"w\": [true]}" } else { "{\"v\": 1}" });
    if on(14) {
        t.files = t.files.iter().map(|(k, d)| (k.replace("u.txt", "w.txt"), same_length(k, d))).collect();
    }
    t
}

/// Another content of the same length for this file.
fn same_length(name: &str, d: &[u8]) -> Vec<u8> {
    if name.ends_with(".bin") || name.ends_with(".txt") || name.ends_with(".css") {
        return d.iter().map(|b| b ^ 1).collect();
    }
    let s = String::from_utf8(d.to_vec()).unwrap();
    let r = if name.ends_with(".json") {
        s.replace("\"v\": 1", "\"u\": 3").replace("\"v\": 2", "\"v\": 3")
    } else if name.ends_with("root.html") {
        s.replacen('<', "(", 1)
    } else if name.ends_with("md.html") {
        s.replace("old {{", "OLD {{").replace("new {{", "NEW {{")
    } else {
        s.replace("index,", "INDEX,").replace("$f.k }},", "$f.k }};").replace("p is", "q is").replace("}}p{{", "}}q{{").replace("old", "OLD").replace("new", "NEW").replace("# M", "# N").replace("added", "ADDED")
    };
    assert!(r.len() == s.len());
    if r == s && name.ends_with(".md") {
        return s.to_uppercase().into_bytes();
    }
    r.into_bytes()
}

/// Makes the sources on disk those of `t`, leaving everything else alone. Files which exist before and after are
/// written in place, and all sources get the same old time, so that it and the length say nothing about contents.
pub fn place(t: &Tree, p: &Path) {
    let keep: std::collections::BTreeSet<&Path> = t.files.keys().flat_map(|k| Path::new(k).ancestors().skip(1)).collect();
    remove(&p.join("scripts"));
    remove(&p.join("t"));
    for d in ["content", "static"] {
        prune(p, Path::new(d), t, &keep);
    }
    t.write(p);
    for d in ["content", "static", "scripts", "t", "stuart.toml"] {
        age(&p.join(d));
    }
}

/// Removes what is not in the project.
fn prune(p: &Path, d: &Path, t: &Tree, keep: &std::collections::BTreeSet<&Path>) {
    if !keep.contains(d) {
        return remove(&p.join(d));
    }
    let Ok(l) = std::fs::read_dir(p.join(d)) else { return remove(&p.join(d)) };
    for e in l.flatten() {
        let sub = d.join(e.file_name());
        let kind = e.file_type().unwrap();
        if kind.is_dir() {
            prune(p, &sub, t, keep);
        } else if !kind.is_file() || !t.files.contains_key(sub.to_str().unwrap_or("")) {
            remove(&p.join(&sub));
        }
    }
}

/// Everything at or below the path was last changed a long time ago.
pub fn age(p: &Path) {
    let Ok(m) = std::fs::symlink_metadata(p) else { return };
    if m.is_dir() {
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            age(&e.path());
        }
    }
    if !m.is_symlink() {
        if let Ok(f) = std::fs::File::open(p) {
            let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
            let _ = f.set_times(std::fs::FileTimes::new().set_accessed(t).set_modified(t));
        }
    }
}

pub fn env(name: &str) -> Vec<(String, String)> {
    vec![("STUART_ENV".into(), name.into())]
}

pub fn want_env(t: &Tree, e: &str) -> Want {
    want(&t.files, &t.dirs, &t.temp, &t.conf, &env(e), &Plugins::default())
}

/// Is the output of the last build that of this project?
pub fn correct(t: &Tree, e: &str, p: &Path, out: &Path, stale_meta: bool) -> Option<String> {
    match want_env(t, e) {
        Want::Ok(x) => check_output(&x, &snapshot(out)).or_else(|| if x.meta.is_none() && stale_meta { None } else { check_metadata(x.meta.as_ref(), &p.join("metadata.json")) }),
        x => Some(format!("the model cannot build the project: {:?}", x)),
    }
}

// ------------------------------------------------------------------------------- runs under the shim

#[derive(Default, Clone)]
pub struct Shim {
    pub at: usize,
    pub act: String,
    pub chunk: usize,
    pub eintr: bool,
    pub order: String,
    pub trace: bool,
}

pub fn shimmed(rt: &Rt, root: &Path, args: &[&str], s: &Shim) -> (Run, Vec<(String, String)>) {
    let mut c = command(rt, root, args);
    c.env("LD_PRELOAD", verif().join("target/fs.so")).env("FS_ROOT", root);
    let tf = rt.scratch.join("trace");
    if s.trace {
        remove(&tf);
        c.env("FS_TRACE", &tf);
    }
    if s.at > 0 {
        c.env("FS_AT", s.at.to_string()).env("FS_DO", &s.act);
    }
    if s.chunk > 0 {
        c.env("FS_CHUNK", s.chunk.to_string());
    }
    if s.eintr {
        c.env("FS_EINTR", "1");
    }
    if !s.order.is_empty() {
        c.env("FS_ORDER", &s.order);
    }
    let r = finish(c);
    let mut ops = vec![];
    if s.trace {
        for l in std::fs::read_to_string(&tf).unwrap_or_default().lines() {
            let mut f = l.splitn(3, ' ');
            f.next();
            ops.push((f.next().unwrap_or("").to_string(), f.next().unwrap_or("").to_string()));
        }
    }
    (r, ops)
}

fn sources(f: &Files) -> Files {
    only(f, |k| {
        let own = ["dist", "temp", "_build", "metadata.json"].iter().any(|a| {
            let a = format!("{}/{}", PROJECT, a);
            k == a || k.starts_with(&format!("{}/", a))
        });
        !own
    })
}

const CLASSES: usize = 24;

// ------------------------------------------------------------------------------- C16: crashes

/// All builds killed at call number k = class (mod CLASSES), for one change of the project.
struct Crash {
    from: usize,
    to: usize,
    /// what follows: 0 the same build, 1 with further changes, 2 a failing build first, 3 clean first
    next: usize,
    /// 0: before the call; otherwise the percentage of the data a torn write leaves
    torn: usize,
    chunk: usize,
    class: usize,
    only: Option<usize>,
}

impl Crash {
    fn with(&self, k: usize) -> V {
        V::Obj(vec![
            ("from".into(), n(self.from)),
            ("to".into(), n(self.to)),
            ("next".into(), n(self.next)),
            ("torn".into(), n(self.torn)),
            ("chunk".into(), n(self.chunk)),
            ("k".into(), n(k)),
        ])
    }
}

impl Case for Crash {
    fn json(&self) -> V {
        match self.only {
            Some(k) => self.with(k),
            None => V::Obj(vec![("crash".into(), self.with(0)), ("class".into(), n(self.class))]),
        }
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { class: Some("killed build"), ..Default::default() };
        let (w, p) = fresh(rt);
        let (a, b) = (state(self.from), state(self.to));
        let tree2 = state(self.to ^ 0b10_0000_0111);
        let mut calls = None;
        let mut k = self.only.unwrap_or(self.class);
        loop {
            if k == 0 {
                k += CLASSES;
            }
            // the state before
            for d in ["dist", "temp", "metadata.json"] {
                remove(&p.join(d));
            }
            place(&a, &p);
            let r = stuart(rt, &p, &["build"]);
            o.traces += 1;
            if !r.ok() {
                o.viol = Some((self.with(k).print(), format!("the first build fails: {}", r.plain_err())));
                return o;
            }
            place(&b, &p);
            if calls.is_none() {
                // how many calls there are to be killed at; the build is undone again
                let before = rt.scratch.join("keep");
                remove(&before);
                copy(&p, &before);
                let (_, ops) = shimmed(rt, &p, &["build"], &Shim { trace: true, chunk: self.chunk, ..Default::default() });
                calls = Some(ops);
                remove(&p);
                copy(&before, &p);
            }
            let ops = calls.as_ref().unwrap();
            if k > ops.len() {
                return o;
            }
            let skip = self.torn > 0 && ops[k - 1].0 != "write";
            if !skip {
                let before = sources(&snapshot(&w));
                let act = if self.torn == 0 { "kill".to_string() } else { format!("torn:{}", self.torn) };
                let (r, _) = shimmed(rt, &p, &["build"], &Shim { at: k, act, chunk: self.chunk, ..Default::default() });
                o.traces += 2;
                o.steps += 1;
                let mut bad = None;
                if r.signal != Some(libc::SIGKILL) {
                    bad = Some(format!("the build was not killed at call {} of {} but ended with {:?}: {}", k, ops.len(), r.code, r.plain_err()));
                }
                let mid = snapshot(&w);
                o.states.push(hash(format!("{:?}", mid).as_bytes()));
                let after = sources(&mid);
                if bad.is_none() && before != after {
                    bad = Some(format!("the killed build changed sources: {}", diff(&before, &after)));
                }
                let mut last = &b;
                match self.next {
                    1 => {
                        place(&tree2, &p);
                        last = &tree2;
                    }
                    2 => {
                        put(&p, "content/zzz.html", b"{{ $broken }}");
                        let r = stuart(rt, &p, &["build"]);
                        if bad.is_none() && r.ok() {
                            bad = Some("a broken project builds".into());
                        }
                        remove(&p.join("content/zzz.html"));
                    }
                    3 => {
                        stuart(rt, &p, &["clean"]);
                    }
                    _ => (),
                }
                let r = stuart(rt, &p, &["build"]);
                if bad.is_none() {
                    bad = if r.ok() {
                        correct(last, "production", &p, &p.join("dist"), true).or_else(|| std::fs::symlink_metadata(p.join("temp")).is_ok().then(|| "the temporary directory is left".to_string()))
                    } else {
                        Some(format!("the next build fails: {}", r.plain_err()))
                    };
                }
                if let Some(x) = bad {
                    o.viol = Some((self.with(k).print(), format!("killed at call {} ({} {}): {}", k, ops[k - 1].0, ops[k - 1].1, x)));
                    return o;
                }
            }
            rt.beat();
            if self.only.is_some() {
                return o;
            }
            k += CLASSES;
        }
    }
}

fn copy(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap().flatten() {
        let t = b.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), t).unwrap();
        }
    }
}

// ------------------------------------------------------------------------------- C16: histories

/// What can happen between builds. Kill points are percentages of the calls of a build.
const EVENTS: [&str; 20] = [
    "build", "bench", "other", "clean", "kill 30", "kill 60", "kill 70", "kill 80", "kill 90", "kill 99", "edit 0", "edit 1", "edit 3", "edit 4", "edit 5", "edit 6", "edit 7", "edit 8", "edit 14", "junk",
];

/// The events of histories of four.
const LONG: [&str; 10] = ["build", "bench", "clean", "kill 60", "kill 80", "edit 1", "edit 3", "edit 5", "edit 14", "junk"];

struct History {
    start: usize,
    events: Vec<usize>,
}

impl Case for History {
    fn json(&self) -> V {
        V::Obj(vec![("start".into(), n(self.start)), ("events".into(), V::Arr(self.events.iter().map(|e| V::s(EVENTS[*e])).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { steps: self.events.len() as u64 + 1, class: Some("history"), ..Default::default() };
        let (_, p) = fresh(rt);
        let mut mask = self.start;
        place(&state(mask), &p);
        let mut bad = None;
        for e in &self.events {
            let f: Vec<&str> = EVENTS[*e].split(' ').collect();
            let arg: usize = f.get(1).map_or(0, |x| x.parse().unwrap());
            let broken = mask & BROKEN != 0;
            match f[0] {
                "build" | "bench" | "other" => {
                    let args: &[&str] = match f[0] {
                        "build" => &["build"],
                        "bench" => &["bench", "-i", "2"],
                        _ => &["build", "-o", "other"],
                    };
                    let r = stuart(rt, &p, args);
                    o.traces += 1;
                    if r.ok() == broken {
                        bad = bad.or(Some(format!("{} ends with {:?}: {}", f[0], r.code, r.plain_err())));
                    }
                    if !broken && bad.is_none() {
                        let (env, out) = match f[0] {
                            "bench" => ("benchmark", "dist"),
                            "other" => ("production", "other"),
                            _ => ("production", "dist"),
                        };
                        bad = correct(&state(mask), env, &p, &p.join(out), true);
                    }
                }
                "clean" => {
                    stuart(rt, &p, &["clean"]);
                }
                "kill" => {
                    let (_, ops) = {
                        // a build of a copy tells the number of calls
                        let c = rt.scratch.join("copy");
                        remove(&c);
                        copy(&p, &c);
                        shimmed(rt, &c, &["build"], &Shim { trace: true, ..Default::default() })
                    };
                    let at = (ops.len() * arg / 100).max(1);
                    shimmed(rt, &p, &["build"], &Shim { at, act: "kill".into(), ..Default::default() });
                    o.traces += 1;
                }
                "junk" => {
                    put(&p, "dist/p/x", b"junk");
                    put(&p, "dist/junk.html", b"junk");
                    put(&p, "temp/junk.txt", b"junk");
                    put(&p, "metadata.json", b"junk");
                }
                _ => {
                    mask ^= 1 << arg;
                    place(&state(mask), &p);
                }
            }
        }
        mask &= !BROKEN;
        place(&state(mask), &p);
        let r = stuart(rt, &p, &["build"]);
        o.traces += 1;
        if bad.is_none() {
            bad = if r.ok() { correct(&state(mask), "production", &p, &p.join("dist"), true) } else { Some(format!("the last build fails: {}", r.plain_err())) };
        }
        o.states.push(mask as u64);
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

// ------------------------------------------------------------------------------- C16: one process

/// Builds of one process (the benchmark), between which the pre-build script changes the project.
struct Process {
    masks: Vec<usize>,
}

impl Case for Process {
    fn json(&self) -> V {
        V::Obj(vec![("masks".into(), V::Arr(self.masks.iter().map(|m| n(*m)).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, steps: self.masks.len() as u64, class: Some("builds of one process"), ..Default::default() };
        let (w, p) = fresh(rt);
        // settings are read once, and the script is ours
        let fix = |m: usize| (m & !(STRIP_OFF | SCRIPT | BROKEN)) | META;
        state(fix(0)).write(&p);
        for (i, m) in self.masks.iter().enumerate() {
            let t = state(fix(*m));
            write_all(&w.join(format!("v{}", i)), &t.files);
            age(&w.join(format!("v{}", i)));
        }
        let script = "w=$(dirname \"$STUART_MANIFEST_DIR\")\ni=$(cat \"$w/i\" 2>/dev/null || echo 0)\ncd \"$STUART_MANIFEST_DIR\" || exit 1\nfind content static -type f | while read f; do [ -f \"$w/v$i/$f\" ] || rm \"./$f\"; done\nfind content static -depth -type d | while read f; do [ -d \"$w/v$i/$f\" ] || rm -r \"./$f\"; done\nfor d in content static; do cp -Rp \"$w/v$i/$d\" . || exit 1; done\nmkdir \"$STUART_TEMP_DIR\" && echo $i > \"$STUART_TEMP_DIR/only$i.txt\" || exit 1\necho $((i + 1)) > \"$w/i\"\n";
        put(&p, "scripts/onPreBuild.sh", script.as_bytes());
        put(&p, "scripts/onPostBuild.sh", b"w=$(dirname \"$STUART_MANIFEST_DIR\")\ncp -R \"$STUART_OUT_DIR\" \"$w/out$(cat \"$w/i\")\"\n");
        let k = self.masks.len();
        let r = stuart(rt, &p, &["bench", "-i", &k.to_string()]);
        let mut bad = r.orderly();
        if bad.is_none() && !r.ok() {
            bad = Some(format!("the benchmark fails: {}", r.plain_err()));
        }
        for (i, m) in self.masks.iter().enumerate() {
            let mut t = state(fix(*m));
            t.add(&format!("temp/only{}.txt", i), format!("{}\n", i));
            if bad.is_none() {
                if let Want::Ok(e) = want_env(&t, "benchmark") {
                    bad = check_output(&e, &snapshot(&w.join(format!("out{}", i + 1)))).map(|x| format!("build {}: {}", i + 1, x));
                }
            }
            if i + 1 == k && bad.is_none() {
                bad = correct(&t, "benchmark", &p, &p.join("dist"), false);
            }
        }
        o.states = self.masks.iter().map(|m| *m as u64).collect();
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

/// Builds of one `Stuart` object, some of which fail.
struct Object {
    masks: Vec<usize>,
}

impl Case for Object {
    fn json(&self) -> V {
        V::Obj(vec![("object".into(), V::Arr(self.masks.iter().map(|m| n(*m)).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        use stuart_core::{Config, Node, Stuart};
        let mut o = Outcome { traces: self.masks.len() as u64, steps: self.masks.len() as u64, class: Some("builds of one object"), ..Default::default() };
        let (_, p) = fresh(rt);
        let config = Config { name: "s".into(), author: None, strip_extensions: true, save_data_files: true, save_metadata: true };
        let mut st = Stuart::new(p.join("content")).with_config(config);
        let mut bad = None;
        for (i, m) in self.masks.iter().enumerate() {
            let mut t = state((*m & !(STRIP_OFF | SCRIPT)) | META);
            // templates may be missing or conflict as well
            if m & (1 << 12) != 0 {
                t.files.remove("content/root.html");
            }
            if m & (1 << 13) != 0 {
                t.add("static/p.html", "conflict");
                t.add("static/p/q.html", "conflict");
                t.files.remove(if m & 2 != 0 { "static/p.html" } else { "static/p/q.html" });
            }
            place(&t, &p);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), stuart_core::Error> {
                st.build("e".into())?;
                st.merge_output(Node::new(p.join("static"), false)?)?;
                st.save(p.join("dist"))?;
                st.save_metadata(p.join("metadata.json"))
            }));
            let w = want_env(&t, "e");
            let b = match (&w, r) {
                (_, Err(_)) => Some("panic".to_string()),
                (Want::Unspec(_), _) => None,
                (Want::Ok(_), Ok(Err(_))) => Some("the build fails".to_string()),
                (Want::Ok(_), Ok(Ok(()))) => correct(&t, "e", &p, &p.join("dist"), false),
                (Want::Fail(why), Ok(Ok(()))) => Some(format!("the build succeeds although {}", why)),
                (Want::Fail(_), _) => None,
            };
            bad = bad.or(b.map(|x| format!("build {}: {}", i + 1, x)));
            o.states.push(*m as u64);
        }
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

// ------------------------------------------------------------------------------- C16: listing orders

struct Listing {
    which: usize,
    /// permutation of each directory
    perm: Vec<usize>,
}

fn fact(k: usize) -> usize {
    (1..=k).product()
}

fn listing_project(which: usize) -> (Tree, Vec<(&'static str, usize)>) {
    let post = |d: &str| format!("---\ntitle: \"T\"\nd: \"{}\"\nt: \"{}\"\n---\npost", d, d);
    match which {
        0 => {
            let t = Tree::new(Conf { meta: Some(true), data: Some(true), ..Default::default() })
                .with("content/root.html", ROOT)
                .with("content/md.html", MD)
                .with("content/index.html", section("{{ for($p, \"posts/\", sortby=$p.d) }}{{ ifdefined($p.t) }}{{ $p.t }}{{ end(ifdefined) }}{{ $p.title }};{{ end(for) }}|{{ for($p, \"posts/\") }}{{ $p.content }}{{ end(for) }}|{{ for($p, \"posts/\", order=\"desc\", limit=2) }}{{ $p.content }}{{ end(for) }}"))
                .with("content/posts/a.md", post("1"))
                .with("content/posts/b.md", post("1"))
                .with("content/posts/c.md", post("0"))
                .with("content/posts/d.md", "---\ntitle: \"none\"\n---\nno date")
                .with("static/x", "x")
                .with("static/y", "y")
                .with("static/z/w", "w");
            (t, vec![("content", fact(4)), ("content/posts", fact(4)), ("static", fact(3))])
        }
        1 => {
            // templates nearer and further, directories before and after the files they concern
            let t = Tree::new(Conf { meta: Some(true), strip: Some(false), ..Default::default() })
                .with("content/root.html", format!("outer {}", ROOT))
                .with("content/md.html", MD)
                .with("content/a/p.html", section("p"))
                .with("content/a/q.md", "q")
                .with("content/z/root.html", format!("inner {}", ROOT))
                .with("content/z/md.html", format!("inner {}", MD))
                .with("content/z/a.html", section("za"))
                .with("content/z/sub/r.md", "r")
                .with("content/m.md", "m");
            (t, vec![("content", fact(5)), ("content/z", fact(4)), ("content/a", fact(2))])
        }
        2 => {
            // an earlier output, the temporary directory and several scripts
            let mut t = Tree::new(Conf { meta: Some(true), ..Default::default() }).with("content/root.html", ROOT).with("content/i.html", section("i")).with("static/s", "s").with("static/t/u", "u");
            t.files.insert("scripts/onPreBuild.sh".into(), b"mkdir -p temp/d && echo 1 >> temp/seq && echo a > temp/d/a\n".to_vec());
            t.files.insert("scripts/onPreBuild".into(), b"mkdir -p temp/d && echo 2 >> temp/seq && echo b > temp/d/b\n".to_vec());
            t.files.insert("scripts/onPostBuild.sh".into(), b"echo 1 >> dist/post\n".to_vec());
            t.files.insert("scripts/onPostBuild".into(), b"echo 2 >> dist/post\n".to_vec());
            (t, vec![("scripts", fact(4)), ("temp", fact(2)), ("temp/d", fact(2)), ("dist", fact(3)), ("static", fact(2)), ("content", fact(2))])
        }
        _ => {
            // a project which fails to build, one way or another
            let t = Tree::new(Conf { meta: Some(true), ..Default::default() })
                .with("content/root.html", ROOT)
                .with("content/a.html", "{{ $a }}")
                .with("content/b.html", "{{ $b }}")
                .with("content/c.html", "{{ nope() }}")
                .with("static/a/index.html", "x");
            (t, vec![("content", fact(4)), ("static", 1)])
        }
    }
}

impl Case for Listing {
    fn json(&self) -> V {
        V::Obj(vec![("which".into(), n(self.which)), ("perm".into(), V::Arr(self.perm.iter().map(|k| n(*k)).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 2, steps: 1, class: Some("listing order"), ..Default::default() };
        let (t, dirs) = listing_project(self.which);
        let mut seen = vec![];
        for round in 0..2 {
            let (_, p) = fresh(rt);
            t.write(&p);
            if self.which == 2 {
                for f in ["dist/old/x", "dist/y", "dist/z/w/v"] {
                    put(&p, f, b"old");
                }
            }
            // the first run lists everything by name
            let order: Vec<String> = dirs.iter().zip(&self.perm).map(|(d, k)| format!("{}={}", d.0, if round == 0 { 0 } else { *k })).collect();
            let (r, _) = shimmed(rt, &p, &["build"], &Shim { order: order.join(";"), ..Default::default() });
            let s = snapshot(&p);
            seen.push((r.code, only(&s, |k| k.starts_with("dist") || k == "metadata.json"), r.plain_err()));
        }
        let mut bad = None;
        if seen[0].0 != seen[1].0 {
            bad = Some(format!("ends with {:?} or {:?}: {} / {}", seen[0].0, seen[1].0, seen[0].2, seen[1].2));
        } else if seen[0].1 != seen[1].1 {
            bad = Some(format!("the output depends on the order in which directories are listed: {}", diff(&seen[0].1, &seen[1].1)));
        } else if self.which < 2 && seen[1].0 != Some(0) {
            bad = Some(format!("fails: {}", seen[1].2));
        }
        o.states.push(hash(format!("{:?}", seen[1].1).as_bytes()));
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

// ------------------------------------------------------------------------------- C16: files which look alike

/// Two files of every sort, of n bytes, which differ in one place; the contents are exchanged between builds.
struct Alike {
    n: usize,
    /// the place: 0 at the start, 1 in the middle, 2 at the end
    pos: usize,
    /// 0: three commands, 1: one process, 2: one object
    how: usize,
}

impl Alike {
    fn tree(&self, x: char, y: char) -> Tree {
        let fill = |c: char| {
            let mut s: Vec<char> = (0..self.n).map(|i| ['a', 'b', ' ', 'c', '\n', 'd', 'e'][(i / 3 + i / 50) % 7]).collect();
            if !s.is_empty() {
                let at = [0, self.n / 2, self.n - 1][self.pos];
                s[at] = c;
            }
            s.into_iter().collect::<String>()
        };
        let flat = |c: char| fill(c).replace('\n', "n");
        let mut t = Tree::new(Conf { strip: Some(false), data: Some(true), meta: Some(true), name: "alike".into(), author: None });
        for (i, c) in [x, y].into_iter().enumerate() {
            let c2 = if i == 0 { y } else { x };
            t.add(&format!("content/{}/root.html", i), format!("{}{}", fill(c), ROOT));
            t.add(&format!("content/{}/md.html", i), MD.replace("{{ $self.content", &format!("{}{{{{ $self.content", fill(c2))));
            t.add(&format!("content/{}/p.html", i), section(&format!("{}{{{{ import($j, \"{}/d.json\") }}}}{{{{ $j.k }}}}{{{{ for($m, \"{}/\") }}}}{{{{ $m.content }}}}{{{{ $m.k }}}}{{{{ end(for) }}}}", fill(c), i, i)));
            t.add(&format!("content/{}/q.html", i), section(&format!("{}", fill(c2))));
            t.add(&format!("content/{}/m.md", i), format!("---\nk: \"{}\"\n---\nx {}", flat(c), fill(c2)));
            t.add(&format!("content/{}/d.json", i), format!("{{\"k\": \"{}\"}}", flat(c2)));
            t.add(&format!("content/{}/t.txt", i), fill(c));
            t.add(&format!("static/{}/t.css", i), fill(c2));
        }
        t
    }
}

impl Case for Alike {
    fn json(&self) -> V {
        V::Obj(vec![("alike".into(), n(self.n)), ("pos".into(), n(self.pos)), ("how".into(), n(self.how))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        use stuart_core::{Config, Node, Stuart};
        let mut o = Outcome { traces: 4, steps: 4, class: Some("files which look alike"), ..Default::default() };
        let (w, p) = fresh(rt);
        let trees = [('A', 'B'), ('B', 'A'), ('B', 'B'), ('A', 'C')].map(|(x, y)| self.tree(x, y));
        let mut bad = None;
        match self.how {
            0 => {
                for (i, t) in trees.iter().enumerate() {
                    place(t, &p);
                    let r = stuart(rt, &p, &["build"]);
                    let b = if r.ok() { correct(t, "production", &p, &p.join("dist"), false) } else { Some(format!("the build fails: {}", r.plain_err())) };
                    bad = bad.or(b.map(|b| format!("build {}: {}", i + 1, b)));
                }
            }
            1 => {
                trees[0].write(&p);
                for (i, t) in trees.iter().enumerate() {
                    write_all(&w.join(format!("v{}", i)), &t.files);
                    age(&w.join(format!("v{}", i)));
                }
                let script = "w=$(dirname \"$STUART_MANIFEST_DIR\")\ni=$(cat \"$w/i\" 2>/dev/null || echo 0)\ncd \"$STUART_MANIFEST_DIR\" || exit 1\nfor d in content static; do cp -Rp \"$w/v$i/$d\" . || exit 1; done\necho $((i + 1)) > \"$w/i\"\n";
                put(&p, "scripts/onPreBuild.sh", script.as_bytes());
                put(&p, "scripts/onPostBuild.sh", b"w=$(dirname \"$STUART_MANIFEST_DIR\")\ncp -R \"$STUART_OUT_DIR\" \"$w/out$(cat \"$w/i\")\"\n");
                let r = stuart(rt, &p, &["bench", "-i", "4"]);
                if !r.ok() {
                    bad = Some(format!("the benchmark fails: {}", r.plain_err()));
                }
                for (i, t) in trees.iter().enumerate() {
                    if let Want::Ok(e) = want_env(t, "benchmark") {
                        bad = bad.or(check_output(&e, &snapshot(&w.join(format!("out{}", i + 1)))).map(|x| format!("build {}: {}", i + 1, x)));
                    }
                }
            }
            _ => {
                let config = Config { name: "alike".into(), author: None, strip_extensions: false, save_data_files: true, save_metadata: true };
                let mut st = Stuart::new(p.join("content")).with_config(config);
                for (i, t) in trees.iter().enumerate() {
                    place(t, &p);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), stuart_core::Error> {
                        st.build("e".into())?;
                        st.merge_output(Node::new(p.join("static"), false)?)?;
                        st.save(p.join("dist"))?;
                        st.save_metadata(p.join("metadata.json"))
                    }));
                    let b = match r {
                        Ok(Ok(())) => correct(t, "e", &p, &p.join("dist"), false),
                        _ => Some("the build fails".into()),
                    };
                    bad = bad.or(b.map(|b| format!("build {}: {}", i + 1, b)));
                }
            }
        }
        o.states = vec![hash(self.json().print().as_bytes())];
        o.viol = bad.map(|b| (self.json().print(), b.chars().take(3000).collect()));
        o
    }
}

pub fn c16_bounds(t: Tier) -> String {
    format!(
        "every crash point (before each file system call, and torn writes) of {} changes of a project x {} continuations; every history of <= 3 of 20 events{}; every sequence of <= {} project states built by one process and of <= {} by one object, failing ones included; files of all sorts and of up to 65537 bytes which differ in one place, exchanged between 4 builds of one project, process and object; all permutations of the directory listings of 4 projects",
        t.pick(8, 24),
        t.pick(2, 4),
        t.pick("", " and of 4 of 10"),
        t.pick(3, 4),
        t.pick(3, 4)
    )
}

pub fn c16(s: &mut Shard) {
    let m = META | SCRIPT;
    let mut pairs = vec![(m, m), (m, m ^ 0b0001_1111), (m ^ 0b0001_1111, m), (META, m), (m, META), (m, m ^ STRIP_OFF), (0, 0b0100_0110), (m ^ 0b100_0000, m)];
    if s.tier != Tier::Quick {
        for b in 0..8 {
            pairs.push((m, m ^ (1 << b)));
            pairs.push((m ^ (1 << b), m));
        }
    }
    let nexts: &[usize] = s.tier.pick(&[0, 1], &[0, 1, 2, 3]);
    for (from, to) in pairs {
        for next in nexts {
            for torn in [0, 1, 50, 99] {
                for chunk in [0, 20] {
                    if (torn > 0 || chunk > 0) && s.tier == Tier::Quick && *next > 0 {
                        continue;
                    }
                    for class in 0..CLASSES {
                        s.one(&Crash { from, to, next: *next, torn, chunk, class, only: None });
                    }
                }
            }
        }
    }
    seqs(EVENTS.len(), s.tier.pick(3, 4), &mut |q| {
        if q.is_empty() {
            return;
        }
        // the last event has to leave something for the final build to notice
        for start in [m, 0] {
            if start == 0 && (q.len() + 1 > s.tier.pick(3, 4)) {
                continue;
            }
            // the longest ones: one event of each sort
            if q.len() == 4 && q.iter().any(|e| !LONG.contains(&EVENTS[*e])) {
                continue;
            }
            s.one(&History { start, events: q.to_vec() });
        }
    });
    let masks = [0usize, 0b1, 0b10, 0b100, 0b1000, 0b1_0000, 0b100_0000, 0b10_0000_0000, 0b100_0000_0000, 0b101_1111, SWAP];
    seqs(masks.len(), s.tier.pick(3, 4), &mut |q| {
        if q.len() > 1 {
            s.one(&Process { masks: q.iter().map(|i| masks[*i]).collect() });
        }
    });
    let masks2 = [0usize, 0b1, 0b10, 0b1000, 0b1_0000, 0b10_0000_0000, BROKEN, 1 << 12, 1 << 13, (1 << 13) | 2, 0b101_1111, SWAP, SWAP | BROKEN];
    seqs(masks2.len(), s.tier.pick(3, 4), &mut |q| {
        if q.len() > 1 {
            s.one(&Object { masks: q.iter().map(|i| masks2[*i]).collect() });
        }
    });
    for n in crate::ladders::lengths(s.tier) {
        if n <= 66000 {
            for pos in 0..3 {
                for how in 0..3 {
                    s.one(&Alike { n, pos, how });
                }
            }
        }
    }
    for which in 0..4 {
        let (_, dirs) = listing_project(which);
        let dims: Vec<usize> = dirs.iter().map(|d| d.1).collect();
        let mut i = 0usize;
        product(&dims, &mut |perm| {
            i += 1;
            // quick: all pairs of directories; thorough: everything
            let moved = perm.iter().filter(|k| **k > 0).count();
            if s.tier == Tier::Quick && moved > 2 {
                return;
            }
            s.one(&Listing { which, perm: perm.to_vec() });
        });
    }
}

fn nums(v: Option<&V>) -> Vec<usize> {
    v.and_then(|a| a.arr()).unwrap_or(&[]).iter().map(|x| num(Some(x))).collect()
}

pub fn c16_json(v: &V) -> Box<dyn Case> {
    if let Some(e) = v.get("events") {
        let events = e.arr().unwrap().iter().map(|x| EVENTS.iter().position(|e| Some(*e) == x.str()).unwrap()).collect();
        return Box::new(History { start: num(v.get("start")), events });
    }
    if v.get("masks").is_some() {
        return Box::new(Process { masks: nums(v.get("masks")) });
    }
    if v.get("object").is_some() {
        return Box::new(Object { masks: nums(v.get("object")) });
    }
    if v.get("alike").is_some() {
        return Box::new(Alike { n: num(v.get("alike")), pos: num(v.get("pos")), how: num(v.get("how")) });
    }
    if v.get("perm").is_some() {
        return Box::new(Listing { which: num(v.get("which")), perm: nums(v.get("perm")) });
    }
    let (c, only) = match v.get("crash") {
        Some(c) => (c, None),
        None => (v, Some(num(v.get("k")))),
    };
    Box::new(Crash { from: num(c.get("from")), to: num(c.get("to")), next: num(c.get("next")), torn: num(c.get("torn")), chunk: num(c.get("chunk")), class: num(v.get("class")), only })
}

// ------------------------------------------------------------------------------- C17 and C15: failing calls

/// All builds in which call number k = class (mod CLASSES) fails.
struct FailCall {
    mask: usize,
    prev: usize,
    chunk: usize,
    act: String,
    class: usize,
    only: Option<usize>,
    /// C15: only what is left behind matters
    untouched: bool,
}

impl FailCall {
    fn with(&self, k: usize) -> V {
        V::Obj(vec![
            ("mask".into(), n(self.mask)),
            ("prev".into(), n(self.prev)),
            ("chunk".into(), n(self.chunk)),
            ("act".into(), V::s(&self.act)),
            ("untouched".into(), V::Bool(self.untouched)),
            ("k".into(), n(k)),
        ])
    }
}

/// Errors which a call may fail with. A missing file is not a failure, and only transfers are interrupted.
fn applies(op: &str, act: &str) -> bool {
    let e: i32 = act.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let sticky = act.starts_with("sticky");
    match e {
        libc::EINTR => matches!(op, "read" | "write" | "create" | "open"),
        libc::ENOSPC | libc::EDQUOT => matches!(op, "write" | "create" | "mkdir" | "rename" | "link" | "symlink" | "copy" | "truncate" | "sync") && (!sticky || op != "open"),
        libc::EMFILE => matches!(op, "open" | "create" | "opendir"),
        libc::EACCES => matches!(op, "open" | "create" | "opendir" | "stat" | "realpath" | "mkdir" | "unlink" | "rmdir" | "rename" | "link" | "symlink" | "chmod"),
        libc::EBUSY => matches!(op, "unlink" | "rmdir" | "rename"),
        libc::EISDIR => op == "read",
        _ => true,
    }
}

impl Case for FailCall {
    fn json(&self) -> V {
        match self.only {
            Some(k) => self.with(k),
            None => V::Obj(vec![("fail".into(), self.with(0)), ("class".into(), n(self.class))]),
        }
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { class: Some("failing call"), ..Default::default() };
        let (w, p) = fresh(rt);
        let t = state(self.mask);
        let mut calls: Option<Vec<(String, String)>> = None;
        let mut k = self.only.unwrap_or(self.class);
        loop {
            if k == 0 {
                k += CLASSES;
            }
            for d in ["dist", "temp", "metadata.json"] {
                remove(&p.join(d));
            }
            let prepare = |rt: &Rt| {
                match self.prev {
                    1 => previous(1, &p.join("dist"), &p),
                    2 => {
                        place(&state(self.mask ^ 0b0101_1111), &p);
                        stuart(rt, &p, &["build"]);
                    }
                    _ => (),
                }
                place(&t, &p);
                if self.prev == 1 {
                    put(&p, "temp/left.txt", b"left");
                }
            };
            prepare(rt);
            if calls.is_none() {
                let (r, ops) = shimmed(rt, &p, &["build"], &Shim { trace: true, chunk: self.chunk, eintr: self.chunk == 3, ..Default::default() });
                o.traces += 1;
                let bad = if r.ok() { correct(&t, "production", &p, &p.join("dist"), self.prev > 0) } else { Some(format!("without any failure (transfers of at most {} bytes): {}", self.chunk, r.plain_err())) };
                if let Some(b) = bad {
                    o.viol = Some((self.with(0).print(), b));
                    return o;
                }
                for d in ["dist", "temp", "metadata.json"] {
                    remove(&p.join(d));
                }
                prepare(rt);
                calls = Some(ops);
            }
            let ops = calls.as_ref().unwrap();
            if k > ops.len() {
                return o;
            }
            if applies(&ops[k - 1].0, &self.act) {
                let before = snapshot(&w);
                let (r, _) = shimmed(rt, &p, &["build"], &Shim { at: k, act: self.act.clone(), chunk: self.chunk, eintr: self.chunk == 3, ..Default::default() });
                o.traces += 1;
                o.steps += 1;
                let after = snapshot(&w);
                o.states.push(hash(format!("{:?}{:?}", r.code, after).as_bytes()));
                let mut bad = None;
                if self.untouched {
                    let (a, b) = (sources(&before), sources(&after));
                    if a != b {
                        bad = Some(format!("sources changed: {}", diff(&a, &b)));
                    }
                    // anything but the output itself fails before the output is touched
                    let op = &ops[k - 1].1;
                    let rel = op.strip_prefix(p.to_str().unwrap()).unwrap_or(op);
                    let reads = ["/content", "/static", "/scripts", "/stuart.toml", "stuart.toml", "/temp"].iter().any(|d| rel.starts_with(d));
                    if bad.is_none() && reads && !r.ok() {
                        let out = |f: &Files| only(f, |k| k.starts_with(&format!("{}/dist", PROJECT)) || k.ends_with("/metadata.json"));
                        let (a, b) = (out(&before), out(&after));
                        if a != b {
                            bad = Some(format!("the build fails, but the previous output changed: {}", diff(&a, &b)));
                        }
                    }
                } else {
                    bad = r.orderly();
                    if bad.is_none() && r.ok() {
                        bad = correct(&t, "production", &p, &p.join("dist"), self.prev > 0).map(|x| format!("reports success, but {}", x));
                    }
                }
                if let Some(x) = bad {
                    o.viol = Some((self.with(k).print(), format!("call {} ({} {}) fails with {}: {}", k, ops[k - 1].0, ops[k - 1].1, self.act, x)));
                    return o;
                }
            }
            rt.beat();
            if self.only.is_some() {
                return o;
            }
            k += CLASSES;
        }
    }
}

fn fail_cases(s: &mut Shard, masks: &[usize], prevs: &[usize], chunks: &[usize], acts: &[String], untouched: bool) {
    for mask in masks {
        for prev in prevs {
            for chunk in chunks {
                for act in acts {
                    for class in 0..CLASSES {
                        s.one(&FailCall { mask: *mask, prev: *prev, chunk: *chunk, act: act.clone(), class, only: None, untouched });
                    }
                }
            }
        }
    }
}

fn acts(e: &[i32]) -> Vec<String> {
    e.iter().map(|e| format!("err:{}", e)).collect()
}

pub fn c17_bounds(t: Tier) -> String {
    format!(
        "every file system call of the builds of {} projects x {} previous outputs failing with each of up to 8 errors, once or (disk full) from then on; transfers unlimited, of <= 20 bytes, and of <= 3 bytes with interruptions",
        t.pick(3, 6),
        t.pick(2, 3)
    )
}

pub fn c17(s: &mut Shard) {
    let m = META | SCRIPT;
    let mut a = acts(&[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EBUSY, libc::EINTR]);
    a.push(format!("sticky:{}", libc::ENOSPC));
    if s.tier == Tier::Quick {
        fail_cases(s, &[m, META | STRIP_OFF | 0b1_1000, 0], &[0, 2], &[0], &a, false);
        fail_cases(s, &[m], &[1], &[20, 3], &acts(&[libc::EIO]), false);
    } else {
        a.extend(acts(&[libc::EDQUOT, libc::EISDIR]));
        fail_cases(s, &[m, META | STRIP_OFF | 0b1_1000, 0, META, SCRIPT | 0b0101_1111, m | STRIP_OFF | 0b10_0000_0000], &[0, 1, 2], &[0, 20], &a, false);
        fail_cases(s, &[m, 0], &[0, 2], &[3], &acts(&[libc::EIO, libc::ENOSPC]), false);
    }
}

pub fn c17_json(v: &V) -> Box<dyn Case> {
    let (c, only) = match v.get("fail") {
        Some(c) => (c, None),
        None => (v, Some(num(v.get("k"))).filter(|k| *k > 0)),
    };
    Box::new(FailCall {
        mask: num(c.get("mask")),
        prev: num(c.get("prev")),
        chunk: num(c.get("chunk")),
        act: text(c, "act"),
        class: num(v.get("class")),
        only,
        untouched: matches!(c.get("untouched"), Some(V::Bool(true))),
    })
}

/// The part of C15 which needs failing calls.
pub fn c15_faults(s: &mut Shard) {
    let m = META | SCRIPT;
    let (masks, e): (&[usize], &[i32]) = match s.tier {
        Tier::Quick => (&[m], &[libc::EIO]),
        Tier::Thorough | Tier::Deep => (&[m, 0, m | STRIP_OFF | 0b1_1111], &[libc::EIO, libc::EACCES, libc::EMFILE]),
    };
    fail_cases(s, masks, &[2], &[0], &acts(e), true);
}
