//! C27: where plugins are loaded from. The stuart binary builds projects whose dependencies name several
//! sources: files, Cargo projects, Git repositories and downloads, some of which load and some of which do not.
//! `cargo` is a stand-in which puts a prepared library where cargo would; git is real; the server is ours.

use crate::build_props::num;
use crate::cli::*;
use crate::cli_props::{fresh, previous, PROJECT};
use crate::core_props::{section, seqs};
use crate::json::V;
use crate::model::{Call, Custom, Files, PluginCall, PluginParse, Plugins};
use crate::rt::{hash, verif, Case, Outcome, Rt, Shard, Tier};
use crate::site::{MD, ROOT};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Mutex, OnceLock};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind {
    Js,
    JsAbs,
    JsSyntax,
    JsThrow,
    Missing,
    MissingDir,
    So,
    SoOther,
    SoText,
    SoNoInit,
    Dll,
    Cargo,
    CargoFail,
    CargoHyphen,
    CargoLib,
    CargoVirtual,
    EmptyDir,
    Git,
    GitB,
    GitFile,
    GitNoProject,
    GitFail,
    GitMissing,
    Http,
    HttpSo,
    Http404,
    HttpRefused,
    HttpBad,
    JsDll,
    SoJs,
    GitNew,
}
use Kind::*;

const ALL: [Kind; 31] = [
    Js, JsAbs, JsSyntax, JsThrow, Missing, MissingDir, So, SoOther, SoText, SoNoInit, Dll, Cargo, CargoFail, CargoHyphen, CargoLib, CargoVirtual, EmptyDir, Git, GitB, GitFile, GitNoProject, GitFail, GitMissing, Http, HttpSo, Http404, HttpRefused,
    HttpBad, JsDll, SoJs, GitNew,
];
/// One or two of each class.
const SOME: [Kind; 10] = [Js, JsThrow, Missing, So, SoNoInit, Dll, Cargo, CargoFail, Git, Http404];
const GITS: [Kind; 13] = [Git, GitNew, GitB, GitFile, GitNoProject, GitFail, GitMissing, Http, HttpSo, HttpBad, Cargo, Js, So];

#[derive(PartialEq)]
enum Fate {
    Loads,
    Fails,
    Skipped,
}

impl Kind {
    fn fate(self) -> Fate {
        match self {
            Js | JsAbs | So | SoOther | Cargo | CargoHyphen | CargoLib | Git | GitB | GitFile | GitNew | Http | HttpSo | JsDll | SoJs => Fate::Loads,
            Dll => Fate::Skipped,
            _ => Fate::Fails,
        }
    }
    fn native(self) -> bool {
        !matches!(self, Js | JsAbs | JsDll | Http)
    }
    fn name(self) -> String {
        format!("{:?}", self)
    }
}

// ------------------------------------------------------------------------------- the server

struct Served {
    port: u16,
    files: Mutex<Files>,
    log: Mutex<Vec<String>>,
}

fn served() -> &'static Served {
    static S: OnceLock<&'static Served> = OnceLock::new();
    S.get_or_init(|| {
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
        let s: &'static Served = Box::leak(Box::new(Served { port: l.local_addr().unwrap().port(), files: Mutex::new(Files::new()), log: Mutex::new(vec![]) }));
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let mut c = c;
                    let mut req = vec![];
                    let mut b = [0u8; 4096];
                    let _ = c.set_read_timeout(Some(std::time::Duration::from_secs(5)));
                    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
                        match c.read(&mut b) {
                            Ok(n) if n > 0 => req.extend_from_slice(&b[..n]),
                            _ => return,
                        }
                    }
                    let path = String::from_utf8_lossy(&req).split(' ').nth(1).unwrap_or("").to_string();
                    s.log.lock().unwrap().push(path.clone());
                    let f = s.files.lock().unwrap();
                    let (code, body) = match f.get(&path) {
                        Some(d) => ("200 OK", d.clone()),
                        // the body of an error page is a plugin as well
                        None => ("404 Not Found", f.get(&format!("404{}", path)).cloned().unwrap_or_default()),
                    };
                    drop(f);
                    let _ = c.write_all(format!("HTTP/1.1 {}\r\nContent-Length: {}\r\nContent-Type: text/plain\r\nConnection: close\r\n\r\n", code, body.len()).as_bytes());
                    let _ = c.write_all(&body);
                });
            }
        });
        s
    })
}

// ------------------------------------------------------------------------------- sources

fn id(dep: &str, k: Kind, version: usize) -> String {
    format!("{} {} {}", dep, k.name(), version)
}

fn library(dep: &str, id: &str) -> Vec<u8> {
    static BASE: OnceLock<Vec<u8>> = OnceLock::new();
    let b = BASE.get_or_init(|| std::fs::read(verif().join("target/plug/release/libplug_in.so")).expect("plugin library"));
    [b.as_slice(), format!("#PLUGIN:{}:{}\n", dep, id).as_bytes()].concat()
}

fn script(dep: &str, id: &str) -> Vec<u8> {
    format!("export default {{ name: \"{}\", version: \"1\", functions: [{{ name: \"who\", fn: () => \"{}\" }}] }};\n", dep, id).into_bytes()
}

fn bin(rt: &Rt) -> PathBuf {
    let d = rt.scratch.join("bin");
    if !d.is_dir() {
        put(
            &d,
            "cargo",
            format!(
                r#"#!/bin/sh
m=Cargo.toml; prev=; profile=debug; t=$CARGO_TARGET_DIR
for a; do
  [ "$prev" = --manifest-path ] && m=$a
  [ "$prev" = --target-dir ] && t=$a
  case $a in --target-dir=*) t=${{a#*=}} ;; --manifest-path=*) m=${{a#*=}} ;; --release|-r) profile=release ;; esac
  prev=$a
done
[ "$1" = build ] || exit 3
trap 'echo "exit $? $d" >> "{log}.exit"' EXIT
d=$(dirname "$m")
echo "$d" >> '{log}'
[ -f "$m" ] || exit 101
[ -f "$d/FAIL" ] && {{ echo 'error: could not compile' >&2; exit 101; }}
name() {{ sed -n "/^\[$1\]/,/^\[[^$1]/s/^name *= *\"\(.*\)\"/\1/p" "$m"; }}
n=$(name lib)
[ -n "$n" ] || n=$(name package | tr - _)
[ -n "$n" ] || exit 0
t="${{t:-$d/target}}/$profile"
mkdir -p "$t" && cat '{base}' "$d/id" > "$t/lib$n.so.new" && mv "$t/lib$n.so.new" "$t/lib$n.so"
"#,
                log = rt.scratch.join("cargo.log").display(),
                base = verif().join("target/plug/release/libplug_in.so").display()
            )
            .as_bytes(),
        );
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(d.join("cargo"), std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    d
}

fn project(dir: &Path, package: &str, lib: Option<&str>, dep: &str, id: &str, fails: bool) {
    let l = lib.map_or(String::new(), |l| format!("name = \"{}\"\n", l));
    put(dir, "Cargo.toml", format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\n\n[lib]\n{}crate-type = [\"cdylib\"]\n", package, l).as_bytes());
    put(dir, "id", format!("#PLUGIN:{}:{}\n", dep, id).as_bytes());
    if fails {
        put(dir, "FAIL", b"");
    }
}

fn git(rt: &Rt, dir: &Path, args: &[&str]) {
    let r = Command::new("git")
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("PATH", "/usr/local/bin:/usr/bin:/bin")
        .env("HOME", rt.scratch.join("home"))
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .stdin(Stdio::null())
        .output();
    match r {
        Ok(o) if o.status.success() => (),
        o => {
            eprintln!("git {:?}: {:?}", args, o);
            std::process::exit(77);
        }
    }
}

/// A repository as it is at the given version; made once.
fn repository(rt: &Rt, dep: &str, k: Kind, version: usize) -> PathBuf {
    let d = rt.scratch.join("repos").join(format!("{}-{}-{}", dep, k.name(), version));
    if d.is_dir() {
        return d;
    }
    if version > 1 && k != GitNew {
        let old = repository(rt, dep, k, version - 1);
        copy_dir(&old, &d);
    } else {
        std::fs::create_dir_all(&d).unwrap();
        git(rt, &d, &["init", "-q", "--template=", "-b", "main"]);
        git(rt, &d, &["config", "user.name", "a"]);
        git(rt, &d, &["config", "user.email", "a"]);
        put(&d, "README", b"a repository");
        for (at, name) in [("a/other", "other".to_string()), ("a/core", format!("{}-core", dep)), ("z/macros", format!("{}_macros", dep)), ("z/sub dir", format!("lib{}", dep)), ("k", dep.to_uppercase())] {
            project(&d.join(at), &name, None, dep, "wrong", false);
        }
        put(&d, "b/Cargo.toml", b"[workspace]\nmembers = []\n");
    }
    if k != GitNoProject {
        project(&d.join("z/sub dir/plugin"), dep, None, dep, &id(dep, k, version), k == GitFail);
    } else {
        put(&d, "version", format!("{}", version).as_bytes());
    }
    git(rt, &d, &["add", "-A"]);
    git(rt, &d, &["commit", "-q", "-m", "m"]);
    d
}

fn copy_dir(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap().flatten() {
        let t = b.join(e.file_name());
        if e.path().is_dir() {
            copy_dir(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), t).unwrap();
        }
    }
}

/// Makes the source available and returns what the manifest calls it.
fn provide(rt: &Rt, w: &Path, p: &Path, dep: &str, k: Kind, version: usize) -> String {
    let id = id(dep, k, version);
    let n = format!("{}-{}", dep, k.name());
    let side = w.join("side");
    let http = |f: &str| format!("http://127.0.0.1/d/{}", f);
    let serve = |f: &str, d: Vec<u8>| {
        served().files.lock().unwrap().insert(f.to_string(), d);
    };
    match k {
        Js => {
            put(p, &format!("plug/{}.mjs", n), &script(dep, &id));
            format!("plug/{}.mjs", n)
        }
        JsAbs => {
            put(&side, &format!("{}.js", n), &script(dep, &id));
            side.join(format!("{}.js", n)).to_str().unwrap().into()
        }
        JsSyntax => {
            put(p, &format!("{}.mjs", n), &[script(dep, &id), b"}".to_vec()].concat());
            format!("./{}.mjs", n)
        }
        JsThrow => {
            put(p, &format!("{}.mjs", n), &[script(dep, &id), b"throw 1;".to_vec()].concat());
            format!("{}.mjs", n)
        }
        Missing => format!("./{}.so", n),
        MissingDir => format!("none/{}/", n),
        So => {
            put(p, &format!("plug/lib{}.so", n), &library(dep, &id));
            format!("./plug/../plug/lib{}.so", n)
        }
        SoOther => {
            put(&side, &format!("{}.plugin", n), &library(dep, &id));
            format!("../side/{}.plugin", n)
        }
        SoText => {
            put(p, &format!("{}.so", n), b"not a library");
            format!("{}.so", n)
        }
        SoNoInit => {
            put(p, &format!("{}.so", n), &std::fs::read(verif().join("target/empty.so")).unwrap());
            format!("{}.so", n)
        }
        Dll => {
            put(p, &format!("plug/{}.dll", n), &library(dep, &id));
            format!("plug/{}.dll", n)
        }
        Cargo | CargoFail => {
            project(&p.join("src x").join(&n), "other", None, dep, &id, k == CargoFail);
            format!("src x/{}{}", n, if k == Cargo { "/" } else { "" })
        }
        CargoHyphen => {
            project(&side.join(&n), "a-b-c", None, dep, &id, false);
            side.join(&n).to_str().unwrap().into()
        }
        CargoLib => {
            project(&side.join(&n), "a-b-c", Some("liblib"), dep, &id, false);
            format!("../side/{}", n)
        }
        CargoVirtual => {
            put(p, &format!("{}/Cargo.toml", n), b"[workspace]\nmembers = []\n");
            format!("./{}", n)
        }
        EmptyDir => {
            std::fs::create_dir_all(p.join(&n)).unwrap();
            n
        }
        Git | GitB | GitFile | GitNoProject | GitFail | GitNew => {
            let d = side.join(format!("{}.git", n));
            remove(&d);
            copy_dir(&repository(rt, dep, k, version), &d);
            let d = d.to_str().unwrap();
            if k == GitFile {
                format!("file://{}", d)
            } else {
                d.to_string()
            }
        }
        JsDll => {
            put(p, &format!("v1.dll/{}.dll.js", n), &script(dep, &id));
            format!("v1.dll/{}.dll.js", n)
        }
        SoJs => {
            put(p, &format!("x.dll-/{}.js.mjs.so", n), &library(dep, &id));
            format!("x.dll-/{}.js.mjs.so", n)
        }
        GitMissing => format!("file://{}/none.git", side.display()),
        Http => {
            serve(&format!("/d/{}.mjs", n), script(dep, &id));
            http(&format!("{}.mjs", n))
        }
        HttpSo => {
            serve(&format!("/d/{}.so", n), library(dep, &id));
            http(&format!("{}.so", n))
        }
        Http404 => {
            serve(&format!("404/d/{}.mjs", n), script(dep, &id));
            http(&format!("{}.mjs", n))
        }
        HttpRefused => format!("http://127.0.0.2/{}.mjs", n),
        HttpBad => {
            serve(&format!("/d/{}.mjs", n), b"this is not a script".to_vec());
            http(&format!("{}.mjs", n))
        }
    }
}

// ------------------------------------------------------------------------------- cases

const DEPS: [&str; 40] = [
    "p", "q_2", "rr", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9",
];
/// The extension of the files which the plugin parses.
const EXTS: [&str; 40] = [
    "xp", "xq_2", "xrr", "xd3", "xd4", "xd5", "xd6", "xd7", "xd8", "xd9", "xe0", "xe1", "xe2", "xe3", "xe4", "xe5", "xe6", "xe7", "xe8", "xe9", "xf0", "xf1", "xf2", "xf3", "xf4", "xf5", "xf6", "xf7", "xf8", "xf9", "xg0", "xg1", "xg2", "xg3", "xg4", "xg5", "xg6", "xg7", "xg8", "xg9",
];

#[derive(Clone)]
struct Load {
    /// for each build in turn: the sources of each dependency, and the version of all sources
    steps: Vec<(Vec<Vec<Kind>>, usize)>,
    /// where the build is started from
    how: usize,
}

impl Load {
    fn one(l: Vec<Vec<Kind>>, how: usize) -> Load {
        Load { steps: vec![(l, 1)], how }
    }
    fn from_json(v: &V) -> Load {
        let kind = |x: &V| *ALL.iter().find(|k| Some(k.name().as_str()) == x.str()).expect("kind");
        let steps = v.get("steps").unwrap().arr().unwrap();
        Load {
            steps: steps.iter().map(|s| (s.get("dependencies").unwrap().arr().unwrap().iter().map(|d| d.arr().unwrap().iter().map(kind).collect()).collect(), num(s.get("version")))).collect(),
            how: num(v.get("how")),
        }
    }
}

/// What a loaded plugin means.
fn plugins(chosen: &[(String, Kind, String)]) -> Plugins {
    let mut p = Plugins::default();
    for (dep, k, id) in chosen {
        let text = id.clone();
        let call: Box<PluginCall> = Box::new(move |_: &Call, _, _, out, _| {
            out.extend_from_slice(text.as_bytes());
            Ok(())
        });
        p.calls.push((vec![format!("{}::who", dep)], call));
        if k.native() {
            let text = id.clone();
            let ext = EXTS[DEPS.iter().position(|d| d == dep).unwrap()];
            let f: Box<PluginParse> = Box::new(move |d, _| {
                Some(Custom { name: None, data: Some([text.as_bytes(), b"|", d].concat()), fails: false, sees_env: false, meta: V::Obj(vec![("type".into(), V::s("custom")), ("by".into(), V::s(&text))]) })
            });
            p.parsers.push((vec![ext], f));
        }
    }
    p
}

impl Case for Load {
    fn json(&self) -> V {
        let steps = self.steps.iter().map(|(l, v)| {
            let d = l.iter().map(|d| V::Arr(d.iter().map(|k| V::s(&k.name())).collect())).collect();
            V::Obj(vec![("dependencies".into(), V::Arr(d)), ("version".into(), V::Num(*v as f64))])
        });
        V::Obj(vec![("steps".into(), V::Arr(steps.collect())), ("how".into(), V::Num(self.how as f64))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: self.steps.len() as u64, ..Default::default() };
        let (w, p) = fresh(rt);
        let bin = bin(rt);
        let cargo_log = rt.scratch.join("cargo.log");
        let mut conf = Conf { meta: Some(true), strip: Some(false), ..Default::default() };
        conf.name = "load".into();
        let mut files = Files::new();
        files.insert("content/root.html".into(), ROOT.into());
        files.insert("content/md.html".into(), MD.into());
        files.insert("static/s".into(), b"s".to_vec());
        let out = p.join("dist");
        previous(1, &out, &p);
        let mut bad: Option<String> = None;
        for (n, (deps, version)) in self.steps.iter().enumerate() {
            served().files.lock().unwrap().clear();
            served().log.lock().unwrap().clear();
            remove(&cargo_log);
            remove(&rt.scratch.join("cargo.log.exit"));
            remove(&p.join("ran"));
            // the project
            let mut page = String::new();
            let mut toml = conf.toml() + "\n[dependencies]\n";
            for (i, l) in deps.iter().enumerate() {
                let dep = DEPS[i];
                let names: Vec<String> = l.iter().map(|k| provide(rt, &w, &p, dep, *k, *version)).collect();
                toml.push_str(&format!("{} = {}\n", dep, toml_str(&names.join(";"))));
                page.push_str(&format!("{{{{ {}::who() }}}};", dep));
                files.insert(format!("content/f.x{}", dep), format!("file of {}", dep).into_bytes());
            }
            files.insert("content/index.html".into(), section(&page).into_bytes());
            write_all(&p, &files);
            put(&p, "stuart.toml", toml.as_bytes());
            put(&p, "scripts/onPreBuild.sh", b"echo x >> \"$STUART_MANIFEST_DIR/ran\"\n");
            let before = snapshot(&out);
            let meta = std::fs::read(p.join("metadata.json")).ok();
            // the command
            let (cwd, args) = match self.how % 3 {
                0 => (p.clone(), vec!["build".to_string()]),
                1 => (w.clone(), vec!["build".to_string(), "--manifest-path".into(), format!("{}/stuart.toml", PROJECT)]),
                _ => (w.join("else"), vec!["build".to_string(), "--manifest-path".into(), format!("{}/stuart.toml", p.display())]),
            };
            if self.how % 3 > 0 {
                // something else of the same name where the command runs
                for (i, l) in deps.iter().enumerate() {
                    for k in l {
                        let f = format!("{}-{}", DEPS[i], k.name());
                        match k {
                            Js => put(&cwd, &format!("plug/{}.mjs", f), &script(DEPS[i], "wrong")),
                            So => put(&cwd, &format!("plug/lib{}.so", f), &library(DEPS[i], "wrong")),
                            Cargo => project(&cwd.join("src x").join(&f), "other", None, DEPS[i], "wrong", false),
                            Missing => put(&cwd, &format!("{}.so", f), &library(DEPS[i], "wrong")),
                            _ => (),
                        }
                    }
                }
                std::fs::create_dir_all(&cwd).unwrap();
            }
            let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            let mut c = command(rt, &cwd, &args);
            c.env("PATH", format!("{}:/usr/local/bin:/usr/bin:/bin", bin.display()));
            if self.how >= 3 {
                // users may have all their Cargo projects built in one place
                c.env("CARGO_TARGET_DIR", w.join("elsewhere"));
                // and run the command in a hook of a repository
                crate::build_props::hook(&w.join("hooked"), &mut c);
            }
            let hooked = snapshot(&w.join("hooked"));
            c.env("GIT_CONFIG_NOSYSTEM", "1").env("GIT_TERMINAL_PROMPT", "0").env("no_proxy", "*");
            // the client knows no port but 80
            c.env("LD_PRELOAD", verif().join("target/fs.so")).env("FS_WEB", served().port.to_string());
            let r = finish(c);
            let ran = std::fs::read_to_string(p.join("ran")).unwrap_or_default();
            // a history which was rewritten cannot be pulled, and need not be
            let alts: &[bool] = if n > 0 && deps.iter().flatten().any(|k| *k == GitNew) { &[true, false] } else { &[true] };
            let mut why = None;
            let mut seen = (BTreeSet::new(), vec![]);
            for new_loads in alts {
                let mut chosen = vec![];
                let mut fails = false;
                let mut tried: BTreeSet<(usize, String)> = BTreeSet::new();
                for (i, l) in deps.iter().enumerate() {
                    let mut done = false;
                    for k in l {
                        o.steps += 1;
                        match k.fate() {
                            Fate::Skipped => continue,
                            f => {
                                tried.insert((i, k.name()));
                                if f == Fate::Loads && (*k != GitNew || *new_loads) {
                                    chosen.push((DEPS[i].to_string(), *k, id(DEPS[i], *k, *version)));
                                    done = true;
                                    break;
                                }
                            }
                        }
                    }
                    fails |= !done;
                }
                why = r.orderly();
                if why.is_none() && fails {
                    why = if r.ok() {
                        Some("the build succeeds although a plugin cannot be loaded".into())
                    } else if !ran.is_empty() {
                        Some("the pre-build script ran although a plugin cannot be loaded".into())
                    } else {
                        let after = snapshot(&out);
                        (after != before).then(|| format!("the failed build changed the output: {}", diff(&before, &after))).or_else(|| (std::fs::read(p.join("metadata.json")).ok() != meta).then(|| "the failed build changed metadata.json".into()))
                    };
                } else if why.is_none() {
                    let ps = plugins(&chosen);
                    let env = vec![("STUART_ENV".to_string(), "production".to_string())];
                    crate::model::STEPS.with(|s| s.set(0));
                    why = match want(&files, &[], &Files::new(), &conf, &env, &ps) {
                        _ if !r.ok() => Some(format!("the build fails: {} (cargo: {})", r.plain_err(), std::fs::read_to_string(rt.scratch.join("cargo.log.exit")).unwrap_or_default())),
                        Want::Ok(e) => check_output(&e, &snapshot(&out)).or_else(|| check_metadata(e.meta.as_ref(), &p.join("metadata.json"))),
                        x => Some(format!("the model cannot build: {:?}", x)),
                    };
                    o.steps += crate::model::STEPS.with(|s| s.get());
                }
                if why.is_none() && snapshot(&w.join("hooked")) != hooked {
                    why = Some(format!("a repository which only the environment names is changed: {}", diff(&hooked, &snapshot(&w.join("hooked")))));
                }
                // sources after the one which is used are left alone
                if why.is_none() {
                    let log = std::fs::read_to_string(&cargo_log).unwrap_or_default();
                    for l in log.lines() {
                        let ok = tried.iter().any(|(i, k)| l.contains(&format!("{}-{}", DEPS[*i], k)) || (l.contains(&format!("_build/plugins/{}/", DEPS[*i])) && k.starts_with("Git")));
                        if !ok {
                            why = Some(format!("{} is compiled although an earlier source loads", l));
                        }
                    }
                    for l in served().log.lock().unwrap().iter() {
                        if !tried.iter().any(|(i, k)| l.contains(&format!("{}-{}.", DEPS[*i], k))) {
                            why = Some(format!("{} is downloaded although an earlier source loads", l));
                        }
                    }
                }
                o.class = Some(if fails { "no source loads" } else { "loaded" });
                seen = (tried, chosen);
                if why.is_none() {
                    break;
                }
            }
            o.states.push(hash(format!("{:?}{:?}{}", seen.0, seen.1, n).as_bytes()));
            if let Some(x) = why {
                bad = Some(format!("build {}: {}", n + 1, x));
                break;
            }
        }
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

pub fn c27_bounds(t: Tier) -> String {
    format!(
        "every list of <= {} sources of 31 kinds, every list of 3 of 10 kinds, every two dependencies with <= {} sources each of 10 kinds, 3 dependencies, up to {} sources and up to {} dependencies, every pair of successive builds with one source each of 31 kinds (or two each of 13), updated or not, x 3 places to build from, in half of them with another target directory of Cargo, and a Git repository, in the environment; {} characters in the names of plugin files; plugin files of every length up to {} and up to as many functions and as long names",
        t.pick(2, 3),
        t.pick(1, 2),
        t.pick(24, 40),
        t.pick(24, 40),
        crate::chars::few(t).len(),
        t.pick(300, 1100)
    )
}

pub fn c27(s: &mut Shard) {
    crate::place::places(s, 2);
    for n in (0..s.tier.pick(300, 1100)).chain([4095, 4096, 4097, 8191, 8192, 65535, 65536, 100_000]) {
        for form in 0..FORMS {
            if n < 20_000 || form < 3 {
                s.one(&Sized { n, form });
            }
        }
    }
    let thorough = s.tier != Tier::Quick;
    let of = |ks: &[Kind], q: &[usize]| -> Vec<Kind> { q.iter().map(|i| ks[*i]).collect() };
    seqs(ALL.len(), s.tier.pick(2, 3), &mut |q| {
        for how in 0..6 {
            // lists of two: one place each, all of them in turn
            if !q.is_empty() && (q.len() == 1 || how == q.iter().sum::<usize>() % 6) {
                s.one(&Load::one(vec![of(&ALL, q)], how));
            }
        }
    });
    seqs(SOME.len(), 3, &mut |q| {
        if q.len() == 3 && !thorough {
            s.one(&Load::one(vec![of(&SOME, q)], q[0] % 3));
        }
    });
    let mut lists = vec![];
    seqs(SOME.len(), s.tier.pick(1, 2), &mut |q| {
        if !q.is_empty() {
            lists.push(of(&SOME, q));
        }
    });
    for a in &lists {
        for b in &lists {
            s.one(&Load::one(vec![a.clone(), b.clone()], (a.len() + b.len()) % 3));
        }
    }
    for a in [Js, So, Cargo, Git, Missing, Http] {
        for b in [Js, So, Cargo, Git, HttpSo] {
            for c in [Js, So, CargoHyphen, GitB, SoText] {
                s.one(&Load::one(vec![vec![a], vec![Dll, b], vec![Missing, c, Js]], 0));
            }
        }
    }
    // many sources, many dependencies
    for n in s.tier.pick(4, 2)..=s.tier.pick(24, 40) {
        for k in [Missing, Dll, SoText] {
            s.one(&Load::one(vec![(0..n - 1).map(|_| k).chain([Js]).collect()], 0));
            s.one(&Load::one(vec![(0..n).map(|i| if i == n / 2 { Js } else { k }).collect()], 0));
        }
        s.one(&Load::one(vec![vec![Missing; n]], 0));
        s.one(&Load::one((0..n).map(|i| vec![[Js, So, Cargo][i % 3]]).collect(), 0));
        s.one(&Load::one((0..n).map(|i| vec![if i + 1 == n { Missing } else { Js }]).collect(), 0));
    }
    // builds one after the other
    for a in ALL {
        for b in ALL {
            for version in [1, 2] {
                s.one(&Load { steps: vec![(vec![vec![a]], 1), (vec![vec![b]], version)], how: if a as usize + b as usize + version & 1 == 1 { 3 } else { 0 } });
            }
        }
    }
    for a in GITS {
        for b in GITS {
            for c in GITS {
                if !thorough && c != Git && c != a {
                    continue;
                }
                s.one(&Load { steps: vec![(vec![vec![a, b]], 1), (vec![vec![c]], 2), (vec![vec![b, a]], 3)], how: if c == a { 4 } else { 1 } });
            }
        }
    }
}

/// A plugin file of a given length.
struct Sized {
    n: usize,
    form: usize,
}

const FORMS: usize = 5;

impl Case for Sized {
    fn json(&self) -> V {
        V::Obj(vec![("size".into(), V::Num(self.n as f64)), ("form".into(), V::Num(self.form as f64))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let n = self.n;
        let (text, call, expect) = match self.form {
            0 => (format!("export default{{name:\"\",version:\"\",functions:[]}}{}", "\n".repeat(n)), "P".to_string(), "P".to_string()),
            1 => (format!("/*{}*/export default{{name:\"p\",version:\"1\",functions:[{{name:\"f\",fn:()=>\"7\"}}]}}", "x".repeat(n)), "{{ f() }}".into(), "7".into()),
            2 => (format!("let t=\"{}\";export default{{name:\"p\",version:\"1\",functions:[{{name:\"f\",fn:()=>t}}]}}", "é".repeat(n)), "[{{ f() }}]".into(), format!("[{}]", "é".repeat(n))),
            3 => (format!("export default{{name:\"p\",version:\"1\",functions:[{}]}}", (0..n).map(|i| format!("{{name:\"f{i}\",fn:()=>\"{i}\"}}")).collect::<Vec<_>>().join(",")), if n > 0 { format!("{{{{ f{}() }}}}{{{{ p::f0() }}}}", n - 1) } else { "P".into() }, if n > 0 { format!("{}0", n - 1) } else { "P".into() }),
            _ => (format!("export default{{name:\"{0}\",version:\"{0}\",functions:[{{name:\"f{0}\",fn:()=>\"7\"}}]}}", "n".repeat(n + 1)), format!("{{{{ {0}::f{0}() }}}}", "n".repeat(n + 1)), "7".into()),
        };
        let p = rt.scratch.join("sized");
        remove(&p);
        put(&p, "stuart.toml", b"[site]\nname = \"n\"\nauthor = \"a\"\n\n[dependencies]\np = \"./p.js\"\n");
        put(&p, "p.js", text.as_bytes());
        put(&p, "content/root.html", b"{{ insert(\"x\") }}");
        put(&p, "content/p.html", format!("{{{{ begin(\"x\") }}}}{}{{{{ end(\"x\") }}}}", call).as_bytes());
        let r = finish(command(rt, &p, &["build"]));
        let got = std::fs::read_to_string(p.join("dist/p/index.html")).unwrap_or_default();
        let mut o = Outcome { traces: 1, steps: 1, class: Some("size"), ..Default::default() };
        o.states.push(hash(format!("{}{}", self.form, got).as_bytes()));
        let why = r.orderly().or_else(|| (!r.ok()).then(|| format!("the build fails: {}", r.plain_err()))).or_else(|| (got != expect).then(|| format!("{:?} instead of {:?}", got, expect)));
        o.viol = why.map(|w| (self.json().print(), w));
        o
    }
}

pub fn c27_json(v: &V) -> Box<dyn Case> {
    if let Some(n) = v.get("size") {
        let num = |v: Option<&V>| crate::build_props::num(v);
        return Box::new(Sized { n: num(Some(n)), form: num(v.get("form")) });
    }
    if let Some(p) = crate::place::Place::from_json(v) {
        return p;
    }
    Box::new(Load::from_json(v))
}
