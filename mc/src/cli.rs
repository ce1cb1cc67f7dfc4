//! Driver for the `stuart` binary: projects on disk, runs, snapshots, and what a build should produce.

use crate::json::V;
use crate::model::{self, Fail, Files, Out, Plugins};
use crate::rt::{verif, Rt};
use std::collections::BTreeSet;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, PartialEq, Debug)]
pub struct Conf {
    pub strip: Option<bool>,
    pub data: Option<bool>,
    pub meta: Option<bool>,
    pub name: String,
    pub author: Option<String>,
}

impl Default for Conf {
    fn default() -> Self {
        Conf { strip: None, data: None, meta: None, name: "site".into(), author: None }
    }
}

pub fn toml_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Conf {
    pub fn toml(&self) -> String {
        let mut s = format!("[site]\nname = {}\n", toml_str(&self.name));
        if let Some(a) = &self.author {
            s.push_str(&format!("author = {}\n", toml_str(a)));
        }
        let set = [("strip_extensions", self.strip), ("save_data_files", self.data), ("save_metadata", self.meta)];
        if set.iter().any(|x| x.1.is_some()) {
            s.push_str("\n[settings]\n");
            for (k, v) in set {
                if let Some(v) = v {
                    s.push_str(&format!("{} = {}\n", k, v));
                }
            }
        }
        s
    }
    pub fn of_bits(b: usize) -> Conf {
        Conf { strip: Some(b & 1 != 0), data: Some(b & 2 != 0), meta: Some(b & 4 != 0), ..Default::default() }
    }
    pub fn json(&self) -> V {
        let b = |x: Option<bool>| x.map_or(V::Null, V::Bool);
        V::Obj(vec![
            ("strip".into(), b(self.strip)),
            ("data".into(), b(self.data)),
            ("meta".into(), b(self.meta)),
            ("name".into(), V::s(&self.name)),
            ("author".into(), self.author.as_ref().map_or(V::Null, |a| V::s(a))),
        ])
    }
    pub fn from_json(v: &V) -> Conf {
        let b = |k: &str| match v.get(k) {
            Some(V::Bool(b)) => Some(*b),
            _ => None,
        };
        Conf {
            strip: b("strip"),
            data: b("data"),
            meta: b("meta"),
            name: v.get("name").and_then(|s| s.str()).unwrap_or("site").into(),
            author: v.get("author").and_then(|s| s.str()).map(|s| s.into()),
        }
    }
}

// ------------------------------------------------------------------------------------------ files

pub fn remove(p: &Path) {
    match std::fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => {
            if std::fs::remove_dir_all(p).is_err() {
                // something unreadable inside
                unlock(p);
                let _ = std::fs::remove_dir_all(p);
            }
        }
        Ok(_) => {
            let _ = std::fs::remove_file(p);
        }
        Err(_) => (),
    }
}

fn unlock(p: &Path) {
    use std::os::unix::fs::PermissionsExt;
    if let Ok(m) = std::fs::symlink_metadata(p) {
        if m.is_dir() {
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
            for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                unlock(&e.path());
            }
        }
    }
}

pub fn put(dir: &Path, path: &str, data: &[u8]) {
    let f = if path.contains("<ff>") {
        // how snapshots show a byte which is not UTF-8
        let b: Vec<u8> = path.split("<ff>").map(|s| s.as_bytes().to_vec()).collect::<Vec<_>>().join(&0xffu8);
        dir.join(std::ffi::OsString::from_vec(b))
    } else {
        dir.join(path)
    };
    match std::fs::write(&f, data) {
        Ok(()) => (),
        Err(_) => {
            std::fs::create_dir_all(f.parent().unwrap()).unwrap_or_else(|e| panic!("{:?}: {}", f, e));
            std::fs::write(&f, data).unwrap_or_else(|e| panic!("{:?}: {}", f, e));
        }
    }
}

pub fn write_all(dir: &Path, files: &Files) {
    std::fs::create_dir_all(dir).unwrap();
    for (p, d) in files {
        put(dir, p, d);
    }
}

/// Everything below `dir`: files with contents, `name/` for directories, `name@` for symbolic links.
/// Names which are not UTF-8 are shown with their bytes escaped.
pub fn snapshot(dir: &Path) -> Files {
    fn name(p: &std::ffi::OsStr) -> String {
        match p.to_str() {
            Some(s) => s.to_string(),
            None => p.as_bytes().iter().map(|b| if b.is_ascii_graphic() { (*b as char).to_string() } else { format!("<{:02x}>", b) }).collect(),
        }
    }
    fn go(d: &Path, pre: &str, out: &mut Files) {
        let Ok(rd) = std::fs::read_dir(d) else {
            out.insert(format!("{}<unreadable>", pre), vec![]);
            return;
        };
        for e in rd.flatten() {
            let n = format!("{}{}", pre, name(&e.file_name()));
            let p = e.path();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            if m.is_dir() {
                out.insert(format!("{}/", n), vec![]);
                go(&p, &format!("{}/", n), out);
            } else if m.file_type().is_symlink() {
                out.insert(format!("{}@", n), std::fs::read_link(&p).unwrap().into_os_string().into_vec());
            } else if m.is_file() {
                out.insert(n, std::fs::read(&p).unwrap_or_else(|_| b"<unreadable>".to_vec()));
            } else {
                out.insert(format!("{}|", n), vec![]);
            }
        }
    }
    let mut out = Files::new();
    go(dir, "", &mut out);
    out
}

/// Shows how two snapshots differ.
pub fn diff(want: &Files, got: &Files) -> String {
    let mut o = String::new();
    let sh = |d: &[u8]| {
        let s: String = String::from_utf8_lossy(d).chars().take(120).collect();
        format!("{:?}", s)
    };
    for (k, v) in want {
        match got.get(k) {
            None => o.push_str(&format!("missing {}; ", k)),
            Some(g) if g != v => o.push_str(&format!("{} has {} instead of {}; ", k, sh(g), sh(v))),
            _ => (),
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) {
            o.push_str(&format!("unexpected {} = {}; ", k, sh(v)));
        }
    }
    o
}

pub fn only(f: &Files, keep: impl Fn(&str) -> bool) -> Files {
    f.iter().filter(|(k, _)| keep(k)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn below(f: &Files, dir: &str) -> Files {
    f.iter().filter_map(|(k, v)| k.strip_prefix(dir).map(|k| (k.to_string(), v.clone()))).filter(|(k, _)| !k.is_empty()).collect()
}

// ------------------------------------------------------------------------------------------ running

pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
}

impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// Ended the way a command should: success, or status 1 with a message.
    pub fn orderly(&self) -> Option<String> {
        match (self.code, self.signal) {
            (Some(0), _) => None,
            (Some(1), _) if self.plain_err().contains("error: ") => None,
            (Some(1), _) => Some(format!("exits with status 1 without an error message: {}", self.plain_err())),
            _ => Some(format!("ended with code {:?} signal {:?}: {}", self.code, self.signal, self.plain_err())),
        }
    }
    pub fn plain_err(&self) -> String {
        plain(&self.err)
    }
}

/// Removes terminal colours.
pub fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub fn binary() -> PathBuf {
    verif().join("target/cli/debug/stuart")
}

pub fn command(rt: &Rt, cwd: &Path, args: &[&str]) -> Command {
    let mut c = Command::new(binary());
    c.args(args)
        .current_dir(cwd)
        .env_clear()
        .env("PATH", "/usr/local/bin:/usr/bin:/bin")
        .env("HOME", rt.scratch.join("home"))
        .env("TZ", "QQQ7:15")
        .stdin(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::umask(0o022);
            Ok(())
        });
    }
    c
}

pub fn finish(mut c: Command) -> Run {
    match c.output() {
        Ok(o) => Run {
            code: o.status.code(),
            signal: o.status.signal(),
            out: String::from_utf8_lossy(&o.stdout).into(),
            err: String::from_utf8_lossy(&o.stderr).into(),
        },
        Err(e) => {
            eprintln!("cannot run {:?}: {}", c, e);
            std::process::exit(77);
        }
    }
}

pub fn stuart(rt: &Rt, cwd: &Path, args: &[&str]) -> Run {
    finish(command(rt, cwd, args))
}

// ------------------------------------------------------------------------------------------ expectation

#[derive(Debug)]
pub enum Want {
    Ok(Expect),
    Fail(String),
    Unspec(&'static str),
}

#[derive(Debug)]
pub struct Expect {
    /// files of the output directory
    pub files: Files,
    /// directories which may exist in it even if they hold no files
    pub dirs: BTreeSet<String>,
    /// contents of `metadata.json`
    pub meta: Option<V>,
}

/// What building a project has to do. `files` are the project's files (`content/...`, `static/...`),
/// `temp` those which the pre-build script leaves in the temporary directory.
pub fn want(files: &Files, dirs: &[String], temp: &Files, conf: &Conf, env: &[(String, String)], plugins: &Plugins) -> Want {
    let content = below(files, "content/");
    let cdirs: Vec<String> = dirs.iter().filter_map(|d| d.strip_prefix("content/").map(|s| s.to_string())).collect();
    if content.is_empty() && cdirs.is_empty() && !dirs.iter().any(|d| d == "content") {
        return Want::Fail("there is no content directory".into());
    }
    let outs = match model::build_list(&content, &cdirs, env, plugins) {
        Ok(o) => o,
        Err(Fail::Unspec(w)) => return Want::Unspec(w),
        Err(Fail::Err { why, .. }) => return Want::Fail(why),
    };
    let mut list: Vec<(String, Vec<u8>)> = vec![];
    let strip = conf.strip.unwrap_or(true);
    for o in &outs {
        let src = Path::new(&o.source);
        if src.extension().is_some_and(|e| e == "json") && !conf.data.unwrap_or(false) {
            continue;
        }
        let (dir, name) = model::split(&o.path);
        let join = |n: &str| if dir.is_empty() { n.to_string() } else { format!("{}/{}", dir, n) };
        let path = match name.strip_suffix(".html") {
            Some(stem) if strip && !["", ".", ".."].contains(&stem) && name != "index.html" => join(&format!("{}/index.html", stem)),
            _ => join(name),
        };
        list.push((path, o.data.clone()));
    }
    let stat = below(files, "static/");
    for (p, d) in stat.iter().chain(temp) {
        list.push((p.clone(), d.clone()));
    }
    // conflicts
    let mut out = Files::new();
    for (p, d) in &list {
        if out.insert(p.clone(), d.clone()).is_some() {
            return Want::Fail(format!("two files would be saved to {}", p));
        }
    }
    let needed: BTreeSet<String> = model::dirs_of(out.keys()).into_iter().collect();
    for p in out.keys() {
        if needed.contains(p) {
            return Want::Fail(format!("{} would be a file and a directory", p));
        }
    }
    let mut all: BTreeSet<String> = needed;
    let mut add = |pre: &str| {
        let f = below(files, pre);
        all.extend(model::dirs_of(f.keys()));
        for d in dirs {
            if let Some(d) = d.strip_prefix(pre) {
                all.insert(d.to_string());
                all.extend(model::dirs_of(std::iter::once(&format!("{}/x", d))));
            }
        }
    };
    add("content/");
    add("static/");
    all.extend(model::dirs_of(temp.keys()));
    if out.keys().any(|p| all.contains(p)) {
        return Want::Unspec("a file is saved to the path of a directory without output files");
    }
    let meta = conf.meta.unwrap_or(false).then(|| metadata(conf, &outs, &all, &stat, temp));
    Want::Ok(Expect { files: out, dirs: all, meta })
}

fn metadata(conf: &Conf, outs: &[Out], all: &BTreeSet<String>, stat: &Files, temp: &Files) -> V {
    // (path, description without the name)
    let mut entries: Vec<(String, V)> = outs.iter().map(|o| (o.path.clone(), o.meta.clone())).collect();
    let file = V::Obj(vec![("type".into(), V::s("file"))]);
    for p in stat.keys().chain(temp.keys()) {
        entries.push((p.clone(), file.clone()));
    }
    fn level(dir: &str, entries: &[(String, V)], dirs: &BTreeSet<String>) -> V {
        let mut l = vec![];
        for (p, m) in entries {
            let (d, n) = model::split(p);
            if d == dir {
                let mut o = vec![("name".to_string(), V::s(n))];
                if let V::Obj(m) = m {
                    o.extend(m.iter().cloned());
                }
                l.push(V::Obj(o));
            }
        }
        for s in dirs {
            let (d, n) = model::split(s);
            if d == dir && !n.is_empty() {
                l.push(V::Obj(vec![("name".into(), V::s(n)), ("type".into(), V::s("directory")), ("children".into(), level(s, entries, dirs))]));
            }
        }
        V::Arr(l)
    }
    // directories of the tree before extensions are stripped
    let mut dirs: BTreeSet<String> = model::dirs_of(entries.iter().map(|e| &e.0)).into_iter().collect();
    let strip: BTreeSet<String> = outs.iter().filter_map(|o| o.path.strip_suffix(".html").map(|s| s.to_string())).collect();
    dirs.extend(all.iter().filter(|d| !strip.contains(*d)).cloned());
    V::Obj(vec![
        ("name".into(), V::s(&conf.name)),
        ("author".into(), conf.author.as_ref().map_or(V::Null, |a| V::s(a))),
        ("data".into(), level("", &entries, &dirs)),
    ])
}

/// Compares metadata: order of entries does not matter, and templates may or may not be listed.
pub fn same_meta(want: &V, got: &V) -> bool {
    fn entries(a: &V, b: &V) -> bool {
        let (Some(a), Some(b)) = (a.arr(), b.arr()) else { return false };
        let tpl = |v: &&V| {
            let n = v.get("name").and_then(|s| s.str());
            (n == Some("root.html") || n == Some("md.html")) && v.get("type").and_then(|s| s.str()) == Some("file")
        };
        let mut b: Vec<&V> = b.iter().collect();
        for x in a {
            match b.iter().position(|y| entry(x, y)) {
                Some(i) => {
                    b.remove(i);
                }
                None => return false,
            }
        }
        b.iter().all(tpl)
    }
    fn entry(a: &V, b: &V) -> bool {
        let (V::Obj(x), V::Obj(y)) = (a, b) else { return false };
        x.len() == y.len()
            && x.iter().all(|(k, v)| match b.get(k) {
                Some(w) if k == "children" => entries(v, w),
                Some(w) => v.same(w),
                None => false,
            })
    }
    let (V::Obj(x), V::Obj(y)) = (want, got) else { return false };
    x.len() == y.len()
        && x.iter().all(|(k, v)| match got.get(k) {
            Some(w) if k == "data" => entries(v, w),
            Some(w) => v.same(w),
            None => false,
        })
}

/// Does the output directory hold what it should? `got` is its snapshot.
pub fn check_output(e: &Expect, got: &Files) -> Option<String> {
    let files = only(got, |k| !k.ends_with('/'));
    if files != e.files {
        return Some(format!("wrong output: {}", diff(&e.files, &files)));
    }
    for k in got.keys() {
        if let Some(d) = k.strip_suffix('/') {
            if !e.dirs.contains(d) {
                return Some(format!("unexpected directory {} in the output", d));
            }
        }
    }
    None
}

pub fn check_metadata(want: Option<&V>, path: &Path) -> Option<String> {
    match (want, std::fs::read(path)) {
        (None, Err(_)) => None,
        (None, Ok(_)) => Some("metadata.json was written".into()),
        (Some(_), Err(e)) => Some(format!("no metadata.json: {}", e)),
        (Some(w), Ok(d)) => {
            let Ok(t) = String::from_utf8(d) else { return Some("metadata.json is not UTF-8".into()) };
            match crate::json::parse_within(&t, 3000) {
                Err(e) => Some(format!("metadata.json is not valid JSON ({}): {}", e, t)),
                Ok(g) if same_meta(w, &g) => None,
                Ok(_) => Some(format!("metadata.json is\n {}\n instead of\n {}", t, w.print())),
            }
        }
    }
}
