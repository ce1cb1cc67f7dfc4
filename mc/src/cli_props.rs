//! Properties of `stuart build`, explored by running the binary on enumerated projects.

use crate::cli::*;
use crate::core_props::{product, section, seqs};
use crate::json::V;
use crate::model::{Files, Plugins};
use crate::rt::{hash, Case, Outcome, Rt, Shard, Tier};
use crate::site::{bytes_json, files_json, json_bytes, json_files, json_strs, strs_json, MD, ROOT};
use std::path::{Path, PathBuf};

pub const PROJECT: &str = "p é";

fn num(v: Option<&V>) -> usize {
    match v {
        Some(V::Num(n)) => *n as usize,
        _ => 0,
    }
}

/// A fresh, empty work directory; the project goes to `w/p é`.
pub fn fresh(rt: &Rt) -> (PathBuf, PathBuf) {
    let w = rt.scratch.join("w");
    remove(&w);
    let p = w.join(PROJECT);
    std::fs::create_dir_all(&p).unwrap();
    (w, p)
}

pub const COPY_TEMP: &str = "cp -R \"$STUART_MANIFEST_DIR/t\" \"$STUART_TEMP_DIR\"\n";

// ------------------------------------------------------------------------------- trees (C13, C14, C19, C26)

#[derive(Clone)]
pub struct Tree {
    pub files: Files,
    pub dirs: Vec<String>,
    pub temp: Files,
    pub conf: Conf,
    /// replaces the manifest which `conf` describes
    pub manifest: Option<Vec<u8>>,
    /// the manifest must be rejected
    pub bad_manifest: bool,
    pub prev: usize,
    pub how: usize,
    pub key: Option<String>,
    /// which of the sources are symbolic links, see `relink`
    pub links: usize,
}

impl Tree {
    pub fn new(conf: Conf) -> Tree {
        Tree { files: Files::new(), dirs: vec![], temp: Files::new(), conf, manifest: None, bad_manifest: false, prev: 0, how: 0, key: None, links: 0 }
    }
    pub fn with(mut self, p: &str, d: impl AsRef<[u8]>) -> Tree {
        self.files.insert(p.into(), d.as_ref().to_vec());
        self
    }
    pub fn base(conf: Conf) -> Tree {
        Tree::new(conf).with("content/root.html", ROOT).with("content/md.html", MD)
    }
    /// `content/...`, `static/...` or `temp/...`
    pub fn add(&mut self, p: &str, d: impl AsRef<[u8]>) {
        match p.strip_prefix("temp/") {
            Some(t) => self.temp.insert(t.into(), d.as_ref().to_vec()),
            None => self.files.insert(p.into(), d.as_ref().to_vec()),
        };
    }
    pub fn from_json(v: &V) -> Box<dyn Case> {
        Box::new(Tree {
            files: json_files(v.get("files").unwrap()),
            dirs: json_strs(v.get("dirs")),
            temp: v.get("temp").map(json_files).unwrap_or_default(),
            conf: Conf::from_json(v.get("conf").unwrap()),
            manifest: v.get("manifest").map(json_bytes),
            bad_manifest: matches!(v.get("bad_manifest"), Some(V::Bool(true))),
            prev: num(v.get("prev")),
            how: num(v.get("how")),
            key: v.get("key").and_then(|s| s.str()).map(|s| s.to_string()),
            links: num(v.get("links")),
        })
    }
    pub fn write(&self, p: &Path) {
        write_all(p, &self.files);
        for d in &self.dirs {
            std::fs::create_dir_all(p.join(d)).unwrap();
        }
        let man = self.manifest.clone().unwrap_or_else(|| self.conf.toml().into_bytes());
        put(p, "stuart.toml", &man);
        if !self.temp.is_empty() {
            write_all(&p.join("t"), &self.temp);
            put(p, "scripts/onPreBuild.sh", COPY_TEMP.as_bytes());
        }
        relink(p, self.links);
    }
    pub fn want(&self) -> Want {
        if self.bad_manifest {
            return Want::Fail("the manifest is invalid".into());
        }
        let env = vec![("STUART_ENV".to_string(), "production".to_string())];
        want(&self.files, &self.dirs, &self.temp, &self.conf, &env, &Plugins::default())
    }
}

/// Moves sources aside and puts symbolic links in their place. 1: every file of `content` and `static`,
/// 2: the directories in them, 3: the two directories themselves, 4: files through a chain of two links.
pub fn relink(p: &Path, mode: usize) {
    let store = p.join("the store");
    let mut n = 0;
    let mut aside = |f: &Path, up: &str| {
        n += 1;
        std::fs::create_dir_all(&store).unwrap();
        let name = format!("{}.html", n);
        std::fs::rename(f, store.join(&name)).unwrap();
        let rel = PathBuf::from(format!("{}the store/{}", up, name));
        let target = if n % 2 == 0 { store.join(&name) } else { rel };
        if mode == 4 {
            std::os::unix::fs::symlink(&name, store.join(format!("{}.md", n))).unwrap();
            std::os::unix::fs::symlink(store.join(format!("{}.md", n)), f).unwrap();
        } else {
            std::os::unix::fs::symlink(target, f).unwrap();
        }
    };
    fn files(d: &Path, depth: usize, out: &mut Vec<(PathBuf, usize)>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                files(&e.path(), depth + 1, out);
            } else {
                out.push((e.path(), depth));
            }
        }
    }
    for d in ["content", "static"] {
        let d = p.join(d);
        if !d.is_dir() {
            continue;
        }
        match mode {
            1 | 4 => {
                let mut l = vec![];
                files(&d, 1, &mut l);
                l.sort();
                for (f, depth) in l {
                    aside(&f, &"../".repeat(depth));
                }
            }
            2 => {
                let mut l: Vec<PathBuf> = std::fs::read_dir(&d).unwrap().flatten().map(|e| e.path()).filter(|e| e.is_dir()).collect();
                l.sort();
                for f in l {
                    aside(&f, "../");
                }
            }
            3 => aside(&d, ""),
            _ => (),
        }
    }
}

/// Ways of asking for a build: returns (working directory, arguments, output directory).
pub fn invocation(how: usize, w: &Path, p: &Path) -> (PathBuf, Vec<String>, PathBuf) {
    let v = |a: &[&str]| a.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let ps = p.to_str().unwrap();
    match how {
        1 => (w.to_path_buf(), v(&["build", "--manifest-path", &format!("{}/stuart.toml", PROJECT)]), p.join("dist")),
        2 => {
            std::fs::create_dir_all(w.join("else")).unwrap();
            (w.join("else"), v(&["-q", "build", "--manifest-path", &format!("{}/stuart.toml", ps), "-o", "out put"]), p.join("out put"))
        }
        3 => (p.to_path_buf(), v(&["build", "--output", w.join("abs").to_str().unwrap()]), w.join("abs")),
        4 => {
            std::fs::create_dir_all(p.join("deep/er")).unwrap();
            (p.to_path_buf(), v(&["-v", "build", "-o", "deep/er/../er/out"]), p.join("deep/er/out"))
        }
        5 => {
            let _ = std::os::unix::fs::symlink(p, w.join("link"));
            (w.to_path_buf(), v(&["build", "--manifest-path", "link/stuart.toml", "-o", "./dist"]), p.join("dist"))
        }
        6 => {
            std::fs::rename(p.join("stuart.toml"), p.join("other.toml")).unwrap();
            (p.join("content"), v(&["build", "--manifest-path", "../other.toml", "-o", "../sibling"]), w.join("sibling"))
        }
        7 => {
            let _ = std::os::unix::fs::symlink(w.join("real"), p.join("dist"));
            std::fs::create_dir_all(w.join("real")).unwrap();
            (p.to_path_buf(), v(&["build"]), p.join("dist"))
        }
        _ => (p.to_path_buf(), v(&["build"]), p.join("dist")),
    }
}

/// Output directories an earlier build (or something else) may have left.
pub fn previous(prev: usize, out: &Path, p: &Path) {
    match prev {
        0 => (),
        1 => {
            for f in ["old.html", "old/index.html", "p", "index.html/x", "sub/q.html/y/z", "s.css", "a/b/c/d.txt", ".hid/x"] {
                put(out, f, b"stale");
            }
            put(p, "metadata.json", b"stale");
        }
        2 => std::fs::create_dir_all(out).unwrap(),
        n if n >= 100 => {
            let n = n - 100;
            for i in 0..n {
                put(out, &format!("old{}/f{}", i % 9, i), b"stale");
            }
            put(out, &format!("{}x", "deep/".repeat(n)), b"stale");
            put(p, "metadata.json", b"stale");
        }
        _ => {
            use std::os::unix::fs::PermissionsExt;
            put(out, "ro/file", b"stale");
            put(out, "index.html", b"stale");
            std::fs::set_permissions(out.join("index.html"), std::fs::Permissions::from_mode(0o444)).unwrap();
            let _ = std::os::unix::fs::symlink(p.join("content"), out.join("ln"));
            let _ = std::os::unix::fs::symlink(p.join("content/root.html"), out.join("x.txt"));
        }
    }
}

impl Case for Tree {
    fn json(&self) -> V {
        let mut o = vec![("files".to_string(), files_json(&self.files))];
        if !self.dirs.is_empty() {
            o.push(("dirs".into(), strs_json(&self.dirs)));
        }
        if !self.temp.is_empty() {
            o.push(("temp".into(), files_json(&self.temp)));
        }
        o.push(("conf".into(), self.conf.json()));
        if let Some(m) = &self.manifest {
            o.push(("manifest".into(), bytes_json(m)));
        }
        o.push(("bad_manifest".into(), V::Bool(self.bad_manifest)));
        o.push(("prev".into(), V::Num(self.prev as f64)));
        o.push(("how".into(), V::Num(self.how as f64)));
        if let Some(k) = &self.key {
            o.push(("key".into(), V::s(k)));
        }
        if self.links != 0 {
            o.push(("links".into(), V::Num(self.links as f64)));
        }
        V::Obj(o)
    }

    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, ..Default::default() };
        crate::model::STEPS.with(|s| s.set(0));
        let want = self.want();
        o.steps = crate::model::STEPS.with(|s| s.get()).max(1);
        let (w, p) = fresh(rt);
        self.write(&p);
        let (cwd, args, out) = invocation(self.how, &w, &p);
        previous(self.prev, &out, &p);
        let before = snapshot(&w);
        let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let r = stuart(rt, &cwd, &args);
        let key = self.key.clone().unwrap_or_else(|| self.json().print());
        o.states.push(hash(format!("{:?}", want).as_bytes()));
        let mut bad = r.orderly();
        let expected_after = |after: &Files| {
            // nothing but the output directory and metadata.json may change
            let rel = |d: &Path| d.strip_prefix(&w).unwrap().to_str().unwrap().to_string();
            let (od, md) = (rel(&out), format!("{}/metadata.json", PROJECT));
            let outer = |k: &str| !(k == md || k == format!("{}@", od) || k.starts_with(&format!("{}/", od)));
            let (a, b) = (only(&before, outer), only(after, outer));
            (a != b).then(|| format!("the build changed the project: {}", diff(&a, &b)))
        };
        let after = snapshot(&w);
        o.class = Some(match &want {
            Want::Ok(e) => {
                if bad.is_none() {
                    bad = if !r.ok() {
                        Some(format!("a valid project fails to build: {}", r.plain_err()))
                    } else {
                        check_output(e, &snapshot(&out))
                            .or_else(|| {
                                if e.meta.is_none() && (self.prev == 1 || self.prev >= 100) {
                                    // unspecified whether stale metadata is kept, but nothing new is written
                                    let m = std::fs::read(p.join("metadata.json"));
                                    (m.is_ok() && m.unwrap() != b"stale").then(|| "metadata.json was written".into())
                                } else {
                                    check_metadata(e.meta.as_ref(), &p.join("metadata.json"))
                                }
                            })
                            .or_else(|| expected_after(&after))
                    };
                }
                "built"
            }
            Want::Fail(why) => {
                if bad.is_none() {
                    bad = if r.ok() {
                        Some(format!("the build succeeds although {}", why))
                    } else {
                        let d = diff(&before, &after);
                        (!d.is_empty()).then(|| format!("a failed build changed files: {}", d))
                    };
                }
                "rejected"
            }
            Want::Unspec(_) => "unspecified",
        });
        o.viol = bad.map(|b| match &self.key {
            // a known finding is exactly this deviation, anything else is reported
            Some(k) if !known_pattern(k, &b) => (format!("{}: {}", k, self.json().print()), b),
            _ => (key, b),
        });
        o
    }
}

fn known_pattern(key: &str, what: &str) -> bool {
    match key {
        "non-UTF-8 name" => what.starts_with("wrong output: missing b<ff>") && what.contains("; unexpected b\u{fffd}") && what.matches("; ").count() == 2,
        "number out of range" => what.starts_with("metadata.json is not valid JSON") && (what.contains("\"value\":[inf]}") || what.contains("\"value\":[-inf]}")),
        _ => true,
    }
}

/// All subsets of `pool` with at most `n` elements which can exist in one file system.
pub fn subsets<'a>(pool: &[(&'a str, Vec<u8>)], n: usize, f: &mut dyn FnMut(&[&(&'a str, Vec<u8>)])) {
    fn go<'a, 'b>(pool: &'b [(&'a str, Vec<u8>)], from: usize, n: usize, cur: &mut Vec<&'b (&'a str, Vec<u8>)>, f: &mut dyn FnMut(&[&(&'a str, Vec<u8>)])) {
        f(cur);
        if cur.len() == n {
            return;
        }
        for i in from..pool.len() {
            let p = pool[i].0;
            let clash = |a: &str, b: &str| a.starts_with(&format!("{}/", b)) || b.starts_with(&format!("{}/", a));
            if cur.iter().any(|q| clash(q.0, p)) {
                continue;
            }
            cur.push(&pool[i]);
            go(pool, i + 1, n, cur, f);
            cur.pop();
        }
    }
    go(pool, 0, n, &mut vec![], f);
}

fn page(t: &str) -> Vec<u8> {
    section(t).into_bytes()
}

fn b(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}

pub fn c13_bounds(t: Tier) -> String {
    format!(
        "every set of <= {} files of a pool of 38 names in content, static and temp x all 8 settings x absent/stale output; 164 names which other tools treat in a special way (files, directories) in 6 places x 8 settings, every byte at both ends of files; every set of <= 1 x 4 kinds of previous output x 8 ways to invoke the build; every set of <= {} x 4 ways to make sources symbolic links x all settings; every file name of <= {} parts of 9 and every ASCII character in names, in content and static",
        t.pick(2, 3), t.pick(1, 2), t.pick(3, 4)
    )
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

/// Directories with the names of pages, templates and data, and what is in them.
fn odd_dirs() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for top in ["content", "static", "temp"] {
        for d in ["d.md", "d.json", "d.html", "s/root.html", "s/md.html", "index.html", "d.js", "d.sh", ".html", ".md"] {
            for (f, c) in [("", b("")), ("x.txt", b("x")), ("q.html", page("q")), ("root.html", b("inner {{ insert(\"x\") }}")), ("m.md", b("---\nt: \"1\"\n---\nm")), ("j.json", b("{\"a\":1}"))] {
                v.push((format!("{}/{}/{}", top, d, f), c));
            }
        }
    }
    v
}

fn run_odd_dirs(s: &mut Shard, bits: std::ops::Range<usize>) {
    let pool = odd_dirs();
    let step = s.tier.pick(7, 1);
    for a in 0..pool.len() {
        for b in 0..=a {
            if b != a && (a + b) % step != 0 {
                continue;
            }
            for bits in bits.clone() {
                if b != a && s.tier == Tier::Quick && bits != 7 - a % 4 {
                    continue;
                }
                if !s.owns() {
                    continue;
                }
                let mut t = Tree::base(Conf::of_bits(bits)).with("content/s/p.html", page("p"));
                t.add("content/s/n.md", b"n");
                for (f, d) in [&pool[a], &pool[b]] {
                    match f.strip_suffix('/') {
                        Some(f) if !f.starts_with("temp/") => t.dirs.push(f.into()),
                        Some(_) => (),
                        None => t.add(f, d),
                    }
                }
                t.dirs.dedup();
                s.run(&t);
            }
        }
    }
}

/// Names which other tools treat in a special way.
const KNOWN: [&str; 128] = [
    ".DS_Store", "Thumbs.db", "desktop.ini", ".gitignore", ".gitkeep", ".gitattributes", ".git", ".svn", ".hg", ".htaccess", ".htpasswd", ".well-known", ".nojekyll", ".env", ".npmrc", ".editorconfig",
    ".stuart", ".keep", ".empty", ".x.swp", "x.swp", "x.swo", "x~", "#x#", ".#x", "x.tmp", "x.temp", "x.bak", "x.orig", "x.rej", "x.old", "x.log",
    "x.lock", "x.map", "x.part", "x.crdownload", "x.pid", "x.min.js", "x.min.css", "x.d.ts", "x.tar.gz", "x.js", "x.mjs", "x.cjs", "x.ts", "x.sh", "x.bat", "x.exe",
    "x.so", "x.dll", "x.dylib", "x.rs", "x.toml", "x.yaml", "x.yml", "x.xml", "x.csv", "x.svg", "x.css", "x.scss", "x.htm", "x.xhtml", "x.shtml", "x.markdown",
    "x.mdx", "x.mdown", "x.jsonc", "x.json5", "x.jsonl", "x.geojson", "x.webmanifest", "x.JSON", "x.MD", "x.HTML", "x.Html", "x.Md", "x.html~", "x.md~", "x.json~", "x.html.bak",
    "x.md.txt", "x.json.gz", "CNAME", "LICENSE", "Makefile", "Dockerfile", "Cargo.toml", "Cargo.lock", "package.json5", "stuart.toml", "robots.txt", "sitemap.xml", "favicon.ico", "humans.txt", "feed.xml", "_headers",
    "_redirects", "_config.yml", "_includes", "_layouts", "_drafts", "_posts", "_site", "_build", "__MACOSX", "node_modules", "target", "dist", "temp", "tmp", "content", "static",
    "scripts", "plugins", "build", "out", "public", "index", "root", "md", "html", "json", "metadata", "con", "nul", "aux", "lost+found", "core",
];

/// Pages, Markdown files and data with names which other tools treat in a special way.
const KNOWN_PAGES: [&str; 36] = [
    "404.html", "_x.html", ".x.html", "#x.html", "draft.html", "index.en.html", "Index.html", "INDEX.html", "index.html.html", "home.html", "default.html", "root.x.html", "xroot.html", "md.md", "root.md", "README.md",
    "_x.md", ".x.md", "draft.md", "2020-01-01-x.md", "index.md", "CHANGELOG.md", "x.draft.md", "metadata.json", "package.json", "tsconfig.json", "manifest.json", ".x.json", "_x.json", "root.json", "md.json", "index.json",
    "Root.html", "ROOT.html", "Md.html", "md.html.html",
];

fn run_known(s: &mut Shard, bits: std::ops::Range<usize>) {
    let body = |n: &str| match n.rsplit('.').next() {
        Some("html") => page(n),
        Some("md") => format!("---\nt: \"{n}\"\n---\n{n}\n").into_bytes(),
        Some("json") => format!("{{\"n\": \"{n}\"}}\n").into_bytes(),
        _ => format!("{n}\n").into_bytes(),
    };
    let all: Vec<&str> = KNOWN.into_iter().chain(KNOWN_PAGES).collect();
    for top in ["content", "content/s", "static", "static/s", "temp", "temp/s"] {
        for chunk in all.chunks(12).chain([&all[..]]) {
            for dirs in [false, true] {
                for bits in bits.clone() {
                    if !s.owns() {
                        continue;
                    }
                    let mut t = Tree::base(Conf::of_bits(bits));
                    let mut seen: Vec<String> = vec![];
                    for n in chunk {
                        // pages of one name, a page and the directory which it is saved to
                        let out = n.strip_suffix(".md").or_else(|| n.strip_suffix(".html")).unwrap_or(n).to_string();
                        if !dirs && seen.contains(&out) {
                            continue;
                        }
                        seen.push(out);
                        if dirs {
                            t.add(&format!("{top}/{n}/x.txt"), n.as_bytes());
                            t.add(&format!("{top}/{n}/p.html"), &page(n));
                        } else {
                            t.add(&format!("{top}/{n}"), &body(n));
                        }
                    }
                    s.run(&t);
                }
            }
        }
    }
    // every byte at the beginning and the end of a file
    for (top, ext) in [("content", "txt"), ("content", "bin"), ("content", ""), ("static", "txt"), ("static", "html"), ("static", "json"), ("static", "css"), ("temp", "txt"), ("temp", "js"), ("temp", "md")] {
        if bits.start == 0 && s.owns() {
            let mut t = Tree::base(Conf::default());
            for b in 0..=255u8 {
                for (k, x) in [&b"@"[..], b"@@", b"@x", b"@@x", b"@@@x", b"x@", b"x@@", b"x@@@", b"x@@x", b"@\n", b"x\n@"].into_iter().enumerate() {
                    let f: Vec<u8> = x.iter().map(|c| if *c == b'@' { b } else { *c }).collect();
                    t.add(&format!("{top}/b/{b}-{k}{}{ext}", if ext.is_empty() { "" } else { "." }), &f);
                }
            }
            for (k, x) in [&b"\xef\xbb\xbf"[..], b"\xef\xbb\xbfx", b"\xff\xfex\0", b"\xfe\xff\0x", b"\x1f\x8b\x08\0\0", b"#!/bin/sh\n", b"\x89PNG\r\n\x1a\n", b"a\r\nb\r\n", b"\xef\xbb\xbf---\n"].into_iter().enumerate() {
                t.add(&format!("{top}/b/s{k}.{ext}"), x);
            }
            s.run(&t);
        }
    }
}

fn c13_pool() -> Vec<(&'static str, Vec<u8>)> {
    let bin: Vec<u8> = (0..=255u8).chain(*b"{{ $nope }}\r\n\0").collect();
    vec![
        ("content/index.html", page("index")),
        ("content/p.html", page("p")),
        ("content/m.md", b("# M\n")),
        ("content/d.json", b("{\"a\": [1]}\n")),
        ("content/x.txt", bin.clone()),
        ("content/noext", b("{{ $nope }}")),
        ("content/.hidden", b("h")),
        ("content/.html", b("only an extension")),
        ("content/.json", b("only an extension")),
        ("content/sp ace.html", page("sp")),
        ("content/é.md", b("é")),
        ("content/UP.HTML", b("{{ not a page")),
        ("content/a.html.txt", b("t")),
        ("content/a.b.html", page("dots")),
        ("content/x.html.html", page("twice")),
        ("content/empty", vec![]),
        ("content/sub/q.html", page("q")),
        ("content/sub/index.html", page("sub index")),
        ("content/sub/root.html", b("sub root {{ insert(\"x\") }}")),
        ("content/sub/md.html", b("{{ begin(\"x\") }}sub md {{ $self.content }}{{ end(\"x\") }}")),
        ("content/sub/r.md", b("---\nk: \"v\"\n---\nR")),
        ("content/sub/s.json", b("[1,2]")),
        ("content/sub/deep/er/z.md", b("Z")),
        ("content/root.md", b("a page called root")),
        ("static/s.css", bin.clone()),
        ("static/page.html", b("{{ static $page")),
        ("static/data.json", b("not { json")),
        ("static/sub/root.html", b("static root")),
        ("static/sub/md.html", b("static md")),
        ("static/note.md", b("static md")),
        ("static/sub/u/v.bin", bin),
        ("static/.well-known/x", b("w")),
        ("static/deep/index.html", b("deep")),
        ("temp/t.txt", b("t")),
        ("temp/t.html", b("{{ temp")),
        ("temp/sub/t.json", b("{")),
        ("temp/sub/deep/w", b("w")),
        ("temp/root.html", b("temp root")),
    ]
}

/// File names: all words of at most `n` parts which decide what a file is, and every ASCII character
/// around such parts.
fn names(n: usize) -> Vec<String> {
    let atoms = ["a", ".", ".html", ".md", ".json", "index", "root", "md", "_"];
    let mut out = vec![];
    seqs(atoms.len(), n, &mut |q| out.push(q.iter().map(|i| atoms[*i]).collect::<String>()));
    for c in (1u8..0x80).filter(|c| *c != b'/').map(|c| (c as char).to_string()).chain(["é".into(), "\u{2028}".into(), "😀".into(), "\u{feff}".into()]) {
        for x in ["", "x", "y.html", "y.md", ".html", ".json", "index.html"] {
            out.push(format!("{}{}", c, x));
            out.push(format!("x{}{}", c, x));
        }
    }
    for l in ["a".repeat(255), format!("{}.html", "b".repeat(250)), format!("{}.md", "c".repeat(240)), "INDEX.html".into(), "Index.Html".into(), "root.HTML".into(), "p.htm".into(), "p.xhtml".into(), "p.HTML".into(), "d.JSON".into(), "d.jsonc".into(), "m.MD".into(), "m.markdown".into(), "m.mdx".into(), "...html".into(), "...md".into(), "....html".into(), "...json".into()] {
        out.push(l);
    }
    out.retain(|n| !n.is_empty() && n != "." && n != "..");
    out.sort();
    out.dedup();
    out
}

/// A site with one file of the given name, at the top of `dir` and in a directory in it.
fn named(n: &str, dir: &str, bits: usize) -> Tree {
    let mut t = Tree::base(Conf::of_bits(bits));
    for p in [format!("{}/{}", dir, n), format!("{}/in/{}", dir, n)] {
        let d = match n {
            _ if dir == "static" => b("s"),
            "root.html" => b(ROOT),
            "md.html" => b(MD),
            n if n.ends_with(".html") => page(n.trim_end_matches("}}").trim_start_matches("{{")),
            n if n.ends_with(".json") => b("[1]"),
            n if n.ends_with(".md") => b("---\ntitle: \"T\"\n---\nM"),
            _ => b("{{ text"),
        };
        t.add(&p, d);
    }
    // a directory of that name
    t.add(&format!("{}/as/{}/f", dir, n), "f");
    t
}

pub fn c13(s: &mut Shard) {
    let pool = c13_pool();
    let n = s.tier.pick(2, 3);
    subsets(&pool, n, &mut |q| {
        for bits in 0..8 {
            for prev in 0..2 {
                // larger sets: one previous output each
                if q.len() == n && prev != (bits ^ (bits >> 1)) & 1 {
                    continue;
                }
                if !s.owns() {
                    continue;
                }
                let mut t = Tree::base(Conf::of_bits(bits));
                for (p, d) in q {
                    t.add(p, d);
                }
                t.prev = prev;
                s.run(&t);
            }
        }
    });
    subsets(&pool, 1, &mut |q| {
        for prev in 0..4 {
            for how in 0..8 {
                for bits in [1, 6] {
                    if !s.owns() {
                        continue;
                    }
                    let mut t = Tree::base(Conf::of_bits(bits)).with("content/index.html", page("index"));
                    for (p, d) in q {
                        t.add(p, d);
                    }
                    t.prev = prev;
                    t.how = how;
                    s.run(&t);
                }
            }
        }
    });
    run_odd_dirs(s, 0..8);
    run_known(s, 0..8);
    // sources which are symbolic links
    subsets(&pool, s.tier.pick(1, 2), &mut |q| {
        for links in 1..=4 {
            for bits in 0..8 {
                if !s.owns() {
                    continue;
                }
                let mut t = Tree::base(Conf::of_bits(bits)).with("content/index.html", page("index"));
                for (p, d) in q {
                    t.add(p, d);
                }
                t.links = links;
                t.prev = bits & 1;
                s.run(&t);
            }
        }
    });
    for n in names(s.tier.pick(3, 4)) {
        for dir in ["content", "static"] {
            for bits in 0..4 {
                if !s.owns() {
                    continue;
                }
                s.run(&named(&n, dir, bits));
            }
        }
    }
    for f in ["content/b<ff>.txt", "static/b<ff>", "temp/b<ff>/c"] {
        let mut t = Tree::base(Conf::default());
        t.add(f, "x");
        t.key = Some("non-UTF-8 name".into());
        s.one(&t);
    }
    // empty directories, empty projects, larger files
    for dirs in [&["content"][..], &["content/e"], &["content/e/f", "static/g"], &["static"], &["content/sub", "static/sub"], &["content/e", "static/e/f"]] {
        for bits in 0..8 {
            let mut t = Tree::new(Conf::of_bits(bits));
            t.dirs = dirs.iter().map(|s| s.to_string()).collect();
            if !dirs[0].starts_with("content") {
                t = t.with("content/root.html", ROOT);
            }
            s.one(&t);
            s.one(&t.with("static/big", vec![7u8; 3_000_000]).with("content/big.bin", (0..2_000_001u32).map(|i| (i * 7 + i / 255) as u8).collect::<Vec<u8>>()));
        }
    }
    crate::ladders::run(s, "C13");
    crate::chars::run(s, "C13");
    crate::place::places(s, 0);
}

// ------------------------------------------------------------------------------- C14

pub fn c14_bounds(t: Tier) -> String {
    format!(
        "every set of <= {} files of a pool of 40 colliding names in content, static and temp x strip_extensions x save_data_files, with a previous output",
        t.pick(3, 4)
    )
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

pub fn c14(s: &mut Shard) {
    // every way for two sources to get one output path, or a file and a directory the same name
    let mut pool: Vec<(&str, Vec<u8>)> = vec![];
    for p in ["a", "a.html", "a.md", "a.json", "a.html.html", "a/index.html", "a/index.md", "a/b.html", "a/b.md", "a/x", "index.html", "index.md", "index/index.html", "a/index/index.html", "a/root.html", "b.html"] {
        pool.push((Box::leak(format!("content/{}", p).into_boxed_str()), match p {
            p if p.ends_with("root.html") => b(ROOT),
            p if p.ends_with(".html") => page(p),
            p if p.ends_with(".json") => b("[1]"),
            p => b(p),
        }));
    }
    for p in ["a", "a.html", "a.md", "a.json", "a/index.html", "a/b", "a/b/index.html", "a/x", "a/index/index.html", "index.html", "index", "root.html", "A"] {
        pool.push((Box::leak(format!("static/{}", p).into_boxed_str()), b("S")));
    }
    for p in ["a", "a.html", "a.json", "a/index.html", "a/b/index.html", "a/x", "a/index/index.html/q", "index.html", "index.html/z", "root.html", "b"] {
        pool.push((Box::leak(format!("temp/{}", p).into_boxed_str()), b("T")));
    }
    let n = s.tier.pick(3, 4);
    subsets(&pool, n, &mut |q| {
        for bits in 0..4 {
            // sets in which data files play no part: the setting cannot matter
            if bits & 2 != 0 && !q.iter().any(|x| x.0.ends_with(".json")) {
                continue;
            }
            if !s.owns() {
                continue;
            }
            let mut t = Tree::base(Conf::of_bits(bits));
            for (p, d) in q {
                t.add(p, d);
            }
            t.prev = 1;
            s.run(&t);
        }
    });
    // the same bytes: a file of static or temp holds exactly what the other file's output will be
    subsets(&pool, 2, &mut |q| {
        for bits in 0..4 {
            if q.len() != 2 || !q.iter().any(|x| !x.0.starts_with("content/")) || !s.owns() {
                continue;
            }
            let mut t = Tree::base(Conf::of_bits(bits));
            let mut outs: std::collections::BTreeSet<Vec<u8>> = q.iter().map(|x| x.1.clone()).collect();
            for (p, d) in q {
                let mut a = Tree::base(Conf::of_bits(bits));
                a.add(p, d);
                if let Want::Ok(e) = a.want() {
                    outs.extend(e.files.into_values());
                }
            }
            for same in outs {
                for (p, d) in q {
                    t.add(p, if p.starts_with("content/") { d } else { &same });
                }
                t.prev = bits & 1;
                s.run(&t);
            }
        }
    });
    crate::ladders::run(s, "C14");
    crate::chars::run(s, "C14");
}

// ------------------------------------------------------------------------------- C19

pub fn c19_bounds(t: Tier) -> String {
    format!("164 names which other tools treat in a special way as files and directories in 6 places; every string of <= {} characters of 13 as site name, author, file names, front matter and JSON keys and values; every JSON value of <= {} nodes; every set of <= {} files of the tree pool; with and without save_metadata", t.pick(2, 3), t.pick(4, 5), t.pick(2, 3))
        + &crate::ladders::bounds(t)
        + &crate::chars::bounds(t)
}

/// All JSON values with at most `n` nodes over a few atoms.
pub fn json_values(n: usize, atoms: &[V]) -> Vec<V> {
    fn lists(n: usize, by: &[Vec<V>]) -> Vec<Vec<V>> {
        // non-empty lists with exactly n nodes
        let mut out = vec![];
        for k in 1..=n {
            for v in &by[k] {
                if k == n {
                    out.push(vec![v.clone()]);
                } else {
                    for mut r in lists(n - k, by) {
                        r.insert(0, v.clone());
                        out.push(r);
                    }
                }
            }
        }
        out
    }
    let mut by: Vec<Vec<V>> = vec![vec![]];
    let mut all = vec![];
    for k in 1..=n {
        let mut l = vec![];
        if k == 1 {
            l.extend(atoms.iter().cloned());
            l.push(V::Arr(vec![]));
            l.push(V::Obj(vec![]));
        } else {
            for e in lists(k - 1, &by) {
                l.push(V::Obj(e.iter().enumerate().map(|(i, v)| (["k", "", "k.l", "0"][i % 4].to_string(), v.clone())).collect()));
                l.push(V::Arr(e));
            }
        }
        all.extend(l.iter().cloned());
        by.push(l);
    }
    all
}

pub fn c19(s: &mut Shard) {
    let n = s.tier.pick(2, 3);
    subsets(&c13_pool(), n, &mut |q| {
        for bits in 4..8 {
            if !s.owns() {
                continue;
            }
            let mut t = Tree::base(Conf::of_bits(bits));
            for (p, d) in q {
                t.add(p, d);
            }
            s.run(&t);
        }
    });
    run_odd_dirs(s, 4..8);
    run_known(s, 4..8);
    for n in names(s.tier.pick(2, 4)) {
        for dir in ["content", "static"] {
            for bits in 4..8 {
                if !s.owns() {
                    continue;
                }
                s.run(&named(&n, dir, bits));
            }
        }
    }
    // strings
    let ch = ["a", "\"", "\\", "\n", "\t", "\u{1}", "\u{7f}", "é", "😀", "/", "<", "{{", "\u{2028}"];
    let mut strings = vec![];
    seqs(ch.len(), s.tier.pick(2, 3), &mut |q| strings.push(q.iter().map(|i| ch[*i]).collect::<String>()));
    for x in &strings {
        if !s.owns() {
            continue;
        }
        let mut t = Tree::base(Conf { name: x.clone(), author: Some(x.clone()), ..Conf::of_bits(4) });
        t.add("content/v.json", V::Obj(vec![(x.clone(), V::Arr(vec![V::s(x)]))]).print());
        if !x.contains("\n") && !x.contains("\"") && !x.contains('\\') && !x.contains(":") && x.trim() == *x {
            t.add("content/m.md", format!("---\nk: \"{}\"\n---\nx", x));
        }
        if !x.is_empty() && !x.contains('/') {
            t.add(&format!("static/{}", x), "s");
            t.add(&format!("content/{}.txt", x), "s");
            t.add(&format!("content/d/{}.json", x), "1");
        }
        s.run(&t);
    }
    // values: many JSON files per site
    let atoms = [V::Null, V::Bool(true), V::Num(0.0), V::Num(-1.5), V::Num(1e21), V::s("s")];
    let vals = json_values(s.tier.pick(4, 5), &atoms);
    for chunk in vals.chunks(60) {
        if !s.owns() {
            continue;
        }
        let mut t = Tree::base(Conf::of_bits(4));
        for (i, v) in chunk.iter().enumerate() {
            t.add(&format!("content/v{}.json", i), v.print());
        }
        s.run(&t);
    }
    let nums = ["0", "-0", "1", "-1", "10", "1e3", "1E-3", "0.1", "1.5e300", "123456789", "9007199254740991", "9007199254740993", "1e21", "123456789012345678901234567890", "5e-324", "2.2250738585072014e-308", "0.30000000000000004", "1e-7", "100000000000000000000", "4294967296", "-2147483649", "3.141592653589793"];
    for x in nums {
        let mut t = Tree::base(Conf::of_bits(4));
        t.add("content/n.json", format!("{{\"n\": [{}, {{\"m\": {}}}]}}", x, x));
        s.one(&t);
    }
    for x in ["1e999", "-1e999"] {
        let mut t = Tree::base(Conf::of_bits(4));
        t.add("content/n.json", format!("[{}]", x));
        t.key = Some("number out of range".into());
        s.one(&t);
    }
    for esc in ["\\u0000", "\\u001f", "\\u007f", "\\ud83d\\ude00", "\\u00e9", "\\/", "\\b\\f\\n\\r\\t", "\\\"\\\\", "\\u2028", "\u{10ffff}", "\u{feff}"] {
        let mut t = Tree::base(Conf::of_bits(4));
        t.add("content/n.json", format!("{{\"{}\": \"{}\"}}", esc, esc));
        s.one(&t);
    }
    // front matter which looks like the entry's own properties
    for k in ["name", "type", "value", "children", "data", "title", "k.l", "0", "é"] {
        for v in ["x", "a b", "é", "[1]", "x: y", "---", "#"] {
            let mut t = Tree::base(Conf::of_bits(4));
            t.add("content/d/m.md", format!("---\n{}: \"{}\"\nother: \"1\"\n---\n", k, v));
            t.add("content/d/v.json", format!("{{\"{}\": \"{}\"}}", k, v));
            s.one(&t);
        }
    }
    crate::ladders::run(s, "C19");
    crate::chars::run(s, "C19");
}

// ------------------------------------------------------------------------------- C26

pub fn c26_bounds(t: Tier) -> String {
    format!("{}; {} characters in the name and the author, written in six ways", C26_BOUNDS, crate::chars::few(t).len())
}

const C26_BOUNDS: &str = "every combination of each setting absent/true/false and of a missing or empty settings section and author; every setting x 9 wrong values; malformed, truncated and incomplete manifests; names, comments and unknown settings of all sizes";

pub fn c26(s: &mut Shard) {
    let site = |c: Conf| Tree::base(c).with("content/p.html", page("p")).with("content/index.html", page("i")).with("content/d.json", "{\"a\":1}").with("content/m.md", "---\nk: \"v\"\n---\nM");
    let o = [None, Some(true), Some(false)];
    product(&[3, 3, 3, 3], &mut |i| {
        for prev in 0..2 {
            let c = Conf {
                strip: o[i[0]],
                data: o[i[1]],
                meta: o[i[2]],
                name: ["site", "", "é \"q\" \\"][i[3]].into(),
                author: [None, Some("A <a@b>".to_string()), Some(String::new())][i[3]].clone(),
            };
            let mut t = site(c.clone());
            t.prev = prev;
            s.one(&t);
            // the same, written differently
            let b = |x: Option<bool>, k: &str| x.map_or(String::new(), |v| format!("{} = {}, ", k, v));
            let set = format!("{}{}{}", b(c.strip, "strip_extensions"), b(c.data, "save_data_files"), b(c.meta, "save_metadata"));
            let inline = format!(
                "# comment\nsettings = {{ {} }}\nunknown = 1\n[other]\nstrip_extensions = \"no\"\n[site]\nname={}\n{}",
                set.trim_end_matches(", "),
                toml_str(&c.name),
                c.author.as_ref().map_or(String::new(), |a| format!("author={}", toml_str(a)))
            );
            t.manifest = Some(inline.into_bytes());
            s.one(&t);
            if i[0] + i[1] + i[2] == 0 {
                t.manifest = Some(format!("{}\n[settings]\n", c.toml()).into_bytes());
                s.one(&t);
                t.manifest = Some(format!("{}\n[settings]\n[dependencies]\n", c.toml()).into_bytes());
                s.one(&t);
            }
        }
    });
    let mut bad = |m: &str| {
        for prev in 0..2 {
            let mut t = site(Conf::default());
            t.manifest = Some(m.as_bytes().to_vec());
            t.bad_manifest = true;
            t.prev = prev;
            s.one(&t);
        }
    };
    for k in ["strip_extensions", "save_data_files", "save_metadata"] {
        for v in ["\"true\"", "1", "0", "[]", "[true]", "{}", "1.0", "\"\"", "1979-05-27"] {
            bad(&format!("[site]\nname = \"n\"\n[settings]\n{} = {}\n", k, v));
            bad(&format!("[site]\nname = \"n\"\nauthor = \"a\"\n[settings]\nsave_metadata = true\n{} = {}\n", k, v));
        }
        for v in ["true", "false"] {
            bad(&format!("[site]\nname = \"n\"\n[settings]\n{} = {}\n{} = {}\n", k, v, k, v));
            bad(&format!("[settings]\n{} = {}\n", k, v));
            bad(&format!("[site]\nauthor = \"n\"\n[settings]\n{} = {}\n", k, v));
            bad(&format!("[site]\nname = \"n\"\n[settings]\n{} = {}x\n", k, v));
        }
    }
    for m in [
        "", "[site]", "site = 1", "site = \"x\"", "[site]\nname = 1", "[site]\nname = true", "[site]\nname = [\"x\"]", "[site]\nname", "[site]\nname =", "[site]\nname = x", "[site]\nname = \"x", "[site\nname = \"x\"", "[site]\nname = \"x\"\nname = \"y\"",
        "[site]\nname = \"x\"\nauthor = 1", "[site]\nname = \"x\"\nauthor = [\"a\"]", "[site]\nname = \"x\"\n[settings]\nstrip_extensions", "settings = 1\n[site]\nname = \"x\"", "settings = true\n[site]\nname = \"x\"", "[site]\nname = \"x\"\n[settings", "[[site]]\nname = \"x\"\n[[site]]\nname = \"y\"", "[site]\nname = \"x\"\n[site]\nauthor = \"a\"",
        "[site]\nname = \"x\"\n[dependencies]\np = 1", "dependencies = 1\n[site]\nname = \"x\"", "{\"site\": {\"name\": \"x\"}}", "[Site]\nname = \"x\"", "[site]\nNAME = \"x\"", "\u{0}", "[site]\nname = \"\\x\"", "[settings]\nstrip_extensions = true", "[site]\nname = \"x\"\n}",
    ] {
        bad(m);
    }
    // every prefix of a manifest is either rejected or means what it says
    let full = "[site]\nname = \"n\"\nauthor = \"a\"\n\n[settings]\nstrip_extensions = false\nsave_data_files = true\nsave_metadata = true\n";
    for i in 0..full.len() {
        let m = &full[..i];
        let done = |l: &str| m.contains(l);
        let lines = ["name = \"n\"", "author = \"a\"", "strip_extensions = false", "save_data_files = true", "save_metadata = true"];
        // a prefix is valid when it ends between statements
        let last = m.rsplit('\n').next().unwrap();
        let valid = last.is_empty() || last == "[settings]" || lines.contains(&last);
        let mut t = site(Conf {
            strip: done(lines[2]).then_some(false),
            data: done(lines[3]).then_some(true),
            meta: done(lines[4]).then_some(true),
            name: "n".into(),
            author: done(lines[1]).then(|| "a".into()),
        });
        t.manifest = Some(m.as_bytes().to_vec());
        t.bad_manifest = !valid || !done(lines[0]);
        s.one(&t);
    }
    let mut t = site(Conf::default());
    t.manifest = Some(b"[site]\nname = \"\xff\"\n".to_vec());
    t.bad_manifest = true;
    s.one(&t);
    crate::ladders::run(s, "C26");
    // every character in names, written in every way
    for c in crate::chars::few(s.tier) {
        let esc = if (c as u32) < 0x10000 { format!("\\u{:04x}", c as u32) } else { format!("\\U{:08X}", c as u32) };
        let long = format!("\\U{:08x}", c as u32);
        let plain = c == '\t' || !c.is_ascii_control();
        let mut forms = vec![format!("\"a{}b\"", esc), format!("\"\"\"a{}b\"\"\"", long)];
        if plain && c != '"' && c != '\\' {
            forms.push(format!("\"a{}b\"", c));
            forms.push(format!("\"\"\"\na{}b\"\"\"", c));
        }
        if plain && c != '\'' {
            forms.push(format!("'a{}b'", c));
            forms.push(format!("\x27\x27\x27a{}b\x27\x27\x27", c));
        }
        let want = format!("a{}b", c);
        for f in forms.chunks(2) {
            let mut t = site(Conf { strip: None, data: None, meta: Some(true), name: want.clone(), author: Some(want.clone()) });
            t.manifest = Some(format!("[site]\nname = {}\nauthor = {}\n[settings] # {}\nsave_metadata = true\n", f[0], f[1], if plain { c } else { ' ' }).into_bytes());
            s.one(&t);
        }
    }
}
