//! In-process driver: builds a site with the real `stuart_core` and compares with the reference model.

use crate::json::V;
use crate::model::{self, Fail, Files, Plugins};
use crate::rt::{hash, Case, Outcome, Rt, PANIC};
use std::path::{Path, PathBuf};
use stuart_core::{Config, Error, Node, Stuart};

pub const ROOT: &str = "{{ insert(\"x\") }}";
pub const MD: &str = "{{ begin(\"x\") }}{{ $self.content }}{{ end(\"x\") }}";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// success/failure and output bytes
    Output,
    /// error location
    Location,
    /// no crash
    NoCrash,
}

#[derive(Clone)]
pub struct Site {
    pub files: Files,
    pub dirs: Vec<String>,
    pub env: Vec<(String, String)>,
    pub stuart_env: String,
    pub mode: Mode,
    pub plugins: u8,
    /// groups violations (a replay is kept per key); the default is the whole case
    pub key: Option<String>,
}

pub fn bytes_json(b: &[u8]) -> V {
    match std::str::from_utf8(b) {
        Ok(s) => V::s(s),
        Err(_) => V::Obj(vec![("hex".into(), V::s(&b.iter().map(|x| format!("{:02x}", x)).collect::<String>()))]),
    }
}

pub fn json_bytes(v: &V) -> Vec<u8> {
    match v {
        V::Str(s) => s.clone().into_bytes(),
        o => {
            let h = o.get("hex").and_then(|h| h.str()).unwrap();
            (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
        }
    }
}

pub fn files_json(f: &Files) -> V {
    V::Obj(f.iter().map(|(k, v)| (k.clone(), bytes_json(v))).collect())
}

pub fn json_files(v: &V) -> Files {
    match v {
        V::Obj(o) => o.iter().map(|(k, v)| (k.clone(), json_bytes(v))).collect(),
        _ => Files::new(),
    }
}

pub fn strs_json(v: &[String]) -> V {
    V::Arr(v.iter().map(|s| V::s(s)).collect())
}

pub fn json_strs(v: Option<&V>) -> Vec<String> {
    v.and_then(|a| a.arr()).unwrap_or(&[]).iter().map(|s| s.str().unwrap().to_string()).collect()
}

/// Set while C02 runs the explorations of other properties: only crashes count.
pub static FORCE_NOCRASH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl Site {
    fn mode(&self) -> Mode {
        if FORCE_NOCRASH.load(std::sync::atomic::Ordering::Relaxed) {
            Mode::NoCrash
        } else {
            self.mode
        }
    }
    pub fn new(mode: Mode) -> Site {
        Site { files: Files::new(), dirs: vec![], env: vec![], stuart_env: "production".into(), mode, plugins: 0, key: None }
    }
    pub fn with(mut self, p: &str, c: impl AsRef<[u8]>) -> Site {
        self.files.insert(p.into(), c.as_ref().to_vec());
        self
    }
    pub fn set(&mut self, p: &str, c: impl AsRef<[u8]>) {
        self.files.insert(p.into(), c.as_ref().to_vec());
    }
    pub fn from_json(v: &V) -> Box<dyn Case> {
        let env = match v.get("env") {
            Some(V::Obj(o)) => o.iter().map(|(k, v)| (k.clone(), v.str().unwrap().to_string())).collect(),
            _ => vec![],
        };
        Box::new(Site {
            files: json_files(v.get("content").unwrap()),
            dirs: json_strs(v.get("dirs")),
            env,
            stuart_env: v.get("stuart_env").and_then(|s| s.str()).unwrap_or("production").into(),
            mode: match v.get("mode").and_then(|s| s.str()) {
                Some("location") => Mode::Location,
                Some("nocrash") => Mode::NoCrash,
                _ => Mode::Output,
            },
            plugins: match v.get("plugins") {
                Some(V::Num(n)) => *n as u8,
                _ => 0,
            },
            key: v.get("key").and_then(|s| s.str()).map(|s| s.to_string()),
        })
    }
    pub fn model(&self) -> model::R<Files> {
        let mut env: Vec<(String, String)> = self.env.iter().filter(|(k, _)| k != "STUART_ENV").cloned().collect();
        env.push(("STUART_ENV".into(), self.stuart_env.clone()));
        crate::plugins::with_model(self.plugins, |p: &Plugins| model::build_dirs(&self.files, &self.dirs, &env, p))
    }
}

/// Makes `dir` contain exactly `files` and `dirs`, touching only what differs from the last call.
pub fn sync(rt: &mut Rt, dir: &Path, files: &Files, dirs: &[String]) {
    let same_dirs = {
        let want = model::dirs_of(files.keys());
        let have = model::dirs_of(rt.disk.keys());
        want == have && rt.disk_dirs == dirs && dir.exists()
    };
    if !same_dirs {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        for d in model::dirs_of(files.keys()).iter().chain(dirs) {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        rt.disk.clear();
        rt.disk_dirs = dirs.to_vec();
    }
    let gone: Vec<String> = rt.disk.keys().filter(|k| !files.contains_key(*k)).cloned().collect();
    for g in gone {
        std::fs::remove_file(dir.join(&g)).unwrap();
        rt.disk.remove(&g);
    }
    for (p, c) in files {
        if rt.disk.get(p) != Some(c) {
            std::fs::write(dir.join(p), c).unwrap();
            rt.disk.insert(p.clone(), c.clone());
        }
    }
}

fn collect(n: &Node, pre: &str, out: &mut Files, top: bool) {
    match n.children() {
        Some(ch) => {
            let p = if top { String::new() } else { format!("{}{}/", pre, n.name()) };
            for c in ch {
                collect(c, &p, out, false);
            }
        }
        None => {
            // templates are not part of the output; a page made from Markdown may have their names
            let source = n.source().file_name().map(|f| f.to_string_lossy().to_string()).unwrap_or_default();
            if source != "root.html" && source != "md.html" {
                out.insert(format!("{}{}", pre, n.name()), n.contents().unwrap().to_vec());
            }
        }
    }
}

pub enum Real {
    Ok(Files),
    Err { at: Option<(String, u32)>, text: String },
    Panic(String),
}

pub fn real_build(rt: &mut Rt, s: &Site) -> Real {
    let dir = rt.scratch.join("content");
    sync(rt, &dir, &s.files, &s.dirs);
    for (k, v) in &s.env {
        std::env::set_var(k, v);
    }
    let r = std::panic::catch_unwind(|| {
        let mut st = Stuart::new(&dir).with_config(Config::default());
        if s.plugins != 0 {
            st = st.with_plugins(crate::plugins::real(s.plugins));
        }
        let r = st.build(s.stuart_env.clone());
        match r {
            Ok(()) => {
                let mut f = Files::new();
                collect(st.output.as_ref().unwrap(), "", &mut f, true);
                Ok(f)
            }
            Err(e) => Err(e),
        }
    });
    for (k, _) in &s.env {
        std::env::remove_var(k);
    }
    match r {
        Ok(Ok(f)) => Real::Ok(f),
        Ok(Err(e)) => {
            let rel = |p: &PathBuf, l: u32| {
                let d = dir.canonicalize().unwrap();
                Some((p.strip_prefix(&d).unwrap_or(p).to_string_lossy().to_string(), l))
            };
            let at = match &e {
                Error::Parse(t) => rel(&t.path, t.line),
                Error::Process(t) => rel(&t.path, t.line),
                _ => None,
            };
            Real::Err { at, text: format!("{:?}", e) }
        }
        Err(_) => Real::Panic(PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn show(f: &Files) -> String {
    let mut o = String::new();
    for (k, v) in f {
        o.push_str(&format!("{} = {:?}; ", k, String::from_utf8_lossy(v)));
    }
    o
}

impl Case for Site {
    fn json(&self) -> V {
        let mut o = vec![("content".to_string(), files_json(&self.files))];
        if !self.dirs.is_empty() {
            o.push(("dirs".into(), strs_json(&self.dirs)));
        }
        if !self.env.is_empty() {
            o.push(("env".into(), V::Obj(self.env.iter().map(|(k, v)| (k.clone(), V::s(v))).collect())));
        }
        if self.stuart_env != "production" {
            o.push(("stuart_env".into(), V::s(&self.stuart_env)));
        }
        match self.mode() {
            Mode::Location => o.push(("mode".into(), V::s("location"))),
            Mode::NoCrash => o.push(("mode".into(), V::s("nocrash"))),
            Mode::Output => (),
        }
        if self.plugins != 0 {
            o.push(("plugins".into(), V::Num(self.plugins as f64)));
        }
        if let Some(k) = &self.key {
            o.push(("key".into(), V::s(k)));
        }
        V::Obj(o)
    }

    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut out = Outcome { traces: 1, ..Default::default() };
        crate::model::STEPS.with(|s| s.set(0));
        let m = if self.mode() == Mode::NoCrash { Err(Fail::Unspec("not evaluated")) } else { self.model() };
        out.steps = crate::model::STEPS.with(|s| s.get()).max(1);
        let r = real_build(rt, self);
        let sig = match (&m, &r) {
            (Ok(f), _) => hash(show(f).as_bytes()),
            (Err(Fail::Err { at, why, .. }), _) => hash(format!("{:?}{}", at, why).as_bytes()),
            (_, Real::Ok(f)) => hash(show(f).as_bytes()),
            (_, Real::Err { text, .. }) => hash(text.as_bytes()),
            (_, Real::Panic(_)) => 0,
        };
        out.states.push(sig);
        let mut key = self.key.clone().unwrap_or_else(|| files_json(&self.files).print());
        if let (Ok(want), Real::Ok(got), Mode::Output) = (&m, &r, self.mode()) {
            if want != got {
                crate::date::WEEK_QUIRK.with(|q| q.set(true));
                if self.model().is_ok_and(|w| w == *got) {
                    key = "week number".into();
                }
                crate::date::WEEK_QUIRK.with(|q| q.set(false));
            }
        }
        let mut fail = |mut w: String| {
            if w.len() > 6000 {
                let cut = (0..=6000).rev().find(|i| w.is_char_boundary(*i)).unwrap();
                w.truncate(cut);
                w += " ... (shortened)";
            }
            out.viol = Some((key.clone(), w))
        };
        out.class = Some(match (&m, &r) {
            (_, Real::Panic(p)) => {
                fail(format!("the build panicked: {}", p));
                "panic"
            }
            (Err(Fail::Unspec(_)), Real::Ok(_)) => "unspecified/built",
            (Err(Fail::Unspec(_)), _) => "unspecified/failed",
            (Ok(want), Real::Ok(got)) => {
                if want != got && self.mode() == Mode::Output {
                    fail(format!("wrong output\n expected {}\n      got {}", show(want), show(got)));
                }
                "built"
            }
            (Ok(want), Real::Err { text, .. }) => {
                if self.mode() == Mode::Output {
                    fail(format!("a valid site fails to build: {}\n expected {}", text, show(want)));
                }
                "built"
            }
            (Err(Fail::Err { why, .. }), Real::Ok(got)) => {
                if self.mode() == Mode::Output {
                    fail(format!("an invalid site builds; expected an error because: {}\n got {}", why, show(got)));
                }
                "rejected"
            }
            (Err(Fail::Err { at, why, .. }), Real::Err { at: got, text }) => {
                if self.mode() == Mode::Location {
                    if let Some(a) = at {
                        let good = match got {
                            Some((p, l)) => *p == a.file && *l >= a.lo && *l <= a.hi,
                            None => false,
                        };
                        if !good {
                            fail(format!(
                                "error reported at {:?}, expected {} line {}..{} ({})\n {}",
                                got, a.file, a.lo, a.hi, why, text
                            ));
                        }
                    }
                }
                "rejected"
            }
        });
        out
    }
}
