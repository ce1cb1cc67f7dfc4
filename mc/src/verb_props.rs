//! C29: how much is printed changes nothing else.

use crate::build_props::{apply, num, project, stages, text};
use crate::cli::*;
use crate::cli_props::fresh;
use crate::core_props::{section, seqs};
use crate::json::V;
use crate::model::Files;
use crate::rt::{hash, Case, Outcome, Rt, Shard, Tier};
use crate::serve_props::Server;
use std::path::Path;

const FLAGS: [&[&str]; 7] = [&["-q"], &["--quiet"], &["-v"], &["--verbose"], &["-q", "-v"], &["--verbose", "--quiet"], &["-qv"]];
const COMMANDS: [&[&str]; 14] = [
    &["build"],
    &["build", "-o", "other"],
    &["build", "--manifest-path", "./stuart.toml"],
    &["build", "--manifest-path", "none.toml"],
    &["bench", "-i", "0"],
    &["bench", "-i", "1"],
    &["bench", "--iters", "3"],
    &["bench", "-i", "x"],
    &["clean"],
    &["new", "n"],
    &["new", "m", "--no-git"],
    &["new", "content"],
    &["build", "--wrong"],
    &["wrong"],
];

fn quiet(flags: &[&str]) -> bool {
    flags.iter().any(|f| *f == "-q" || *f == "--quiet")
}

fn refused(flags: &[&str]) -> bool {
    flags.len() > 1 || flags == ["-qv"]
}

/// The projects: every stage at which a build can fail, and some which can be built.
fn good() -> Vec<&'static str> {
    vec!["plain", "scripts", "metadata", "module", "nothing to strip"]
}

fn place(name: &str, p: &Path) {
    let mut c = Conf { meta: Some(name == "metadata"), ..Default::default() };
    if name == "nothing to strip" {
        c.strip = Some(false);
    }
    let t = project(1, c);
    t.write(p);
    match name {
        "scripts" => {
            for s in ["onPreBuild.sh", "onPreBuild", "onPostBuild.sh", "onPostBuild"] {
                put(p, &format!("scripts/{}", s), b"echo said; echo said >&2; mkdir -p \"$STUART_TEMP_DIR\"; echo g > \"$STUART_TEMP_DIR/g.txt\"\n");
            }
        }
        "module" => {
            put(p, "ok.mjs", b"export default { name: \"ok\", version: \"1\", functions: [{name: \"one\", fn: () => 1}] }");
            let mut m = std::fs::read(p.join("stuart.toml")).unwrap();
            m.extend_from_slice(b"\n[dependencies]\nok = \"./ok.mjs\"\n");
            put(p, "stuart.toml", &m);
        }
        _ => {
            if let Some(s) = stages().into_iter().find(|s| s.0 == name) {
                apply(p, &s.1);
            }
        }
    }
}

/// Everything but the insides of repositories.
fn all(w: &Path) -> Files {
    only(&snapshot(w), |k| !k.contains("/.git/"))
}

fn lines(s: &str) -> Vec<String> {
    s.split(['\n', '\r']).map(|l| l.trim_end().to_string()).filter(|l| !l.is_empty()).collect()
}

/// From the first error message on.
fn errors(s: &str) -> Vec<String> {
    let s = plain(s);
    s.find("error: ").map_or(vec![], |i| lines(&s[i..]))
}

struct Verb {
    project: String,
    commands: Vec<usize>,
}

impl Verb {
    fn go(&self, rt: &mut Rt, o: &mut Outcome) -> Result<(), String> {
        // (status, files, error, what else belongs to it) after each command
        let mut plainly: Vec<(Option<i32>, Files, Vec<String>, Vec<String>)> = vec![];
        for flags in std::iter::once(&[] as &[&str]).chain(FLAGS) {
            let (w, p) = fresh(rt);
            place(&self.project, &p);
            for (i, c) in self.commands.iter().enumerate() {
                let args: Vec<&str> = flags.iter().chain(COMMANDS[*c]).copied().collect();
                let before = if refused(flags) { Some(all(&w)) } else { None };
                let r = stuart(rt, &p, &args);
                o.traces += 1;
                o.steps += 1;
                let bad = |x: String| Err(format!("`stuart {}`: {}", args.join(" "), x));
                let now = all(&w);
                if let Some(b) = before {
                    if r.code != Some(2) && r.code != Some(1) {
                        return bad(format!("ends with {:?} although -q and -v exclude each other", r.code.ok_or(r.signal)));
                    }
                    if b != now {
                        return bad(format!("is refused but changes something: {}", diff(&b, &now)));
                    }
                    continue;
                }
                if flags.is_empty() {
                    o.states.push(hash(format!("{:?} {:?}", r.code, now.keys()).as_bytes()));
                    plainly.push((r.code, now, errors(&r.err), if r.ok() { vec![] } else { lines(&plain(&r.out)) }));
                    continue;
                }
                let (code, files, err, out) = &plainly[i];
                if r.code != *code {
                    return bad(format!("ends with {:?} instead of {:?}: {}", r.code.ok_or(r.signal), code, r.plain_err()));
                }
                if now != *files {
                    return bad(format!("leaves other files: {}", diff(files, &now)));
                }
                if errors(&r.err) != *err {
                    return bad(format!("prints another error: {:?} instead of {:?}", errors(&r.err), err));
                }
                // engines may print details to the standard output
                let extra = if out.is_empty() { !r.out.is_empty() } else { lines(&plain(&r.out)) != *out };
                if quiet(flags) && (extra || lines(&r.plain_err()) != *err || (err.is_empty() && !r.err.is_empty())) {
                    return bad(format!("prints more than errors: {:?} {:?}", r.out, r.err));
                }
            }
        }
        Ok(())
    }
}

impl Case for Verb {
    fn json(&self) -> V {
        V::Obj(vec![("project".into(), V::s(&self.project)), ("commands".into(), V::Arr(self.commands.iter().map(|c| V::Num(*c as f64)).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { class: Some("commands"), ..Default::default() };
        o.viol = self.go(rt, &mut o).err().map(|e| (self.json().print(), e));
        o
    }
}

// ------------------------------------------------------------------------------- the development server

const EDITS: [&str; 5] = ["page", "break", "manifest", "add", "script"];

/// The development server and edits of its project.
struct Dev {
    broken: bool,
    edits: Vec<usize>,
}

impl Dev {
    fn go(&self, rt: &mut Rt, o: &mut Outcome) -> Result<(), String> {
        let mut plainly: Vec<Files> = vec![];
        let mut known: Vec<String> = vec![];
        for flags in std::iter::once(&[] as &[&str]).chain([&["-q"] as &[&str], &["--quiet"], &["-v"]]) {
            let (w, p) = fresh(rt);
            place("metadata", &p);
            for d in ["scripts", "static"] {
                std::fs::create_dir_all(p.join(d)).unwrap();
            }
            if self.broken {
                put(&p, "content/p.html", b"{{ $broken }}");
            }
            let args: Vec<&str> = flags.iter().copied().chain(["dev"]).collect();
            let bad = |x: String| Err(format!("`stuart {}`: {}", args.join(" "), x));
            let mut s = Server::start(rt, &p, &args, &w, &[])?;
            o.traces += 1;
            let mut at = 0;
            loop {
                // the output is that of the same project without any flags
                let now = only(&all(&p), |k| !k.starts_with("stuart.toml"));
                if flags.is_empty() {
                    o.states.push(hash(format!("{:?}", now).as_bytes()));
                    plainly.push(now);
                } else if now != plainly[at] {
                    return bad(format!("leaves other files after {} edits: {}", at, diff(&plainly[at], &now)));
                }
                if at == self.edits.len() {
                    break;
                }
                let n = at + 1;
                let (f, d) = match EDITS[self.edits[at]] {
                    "page" => ("content/p.html".to_string(), section(&format!("edited {}", n))),
                    "break" => ("content/p.html".into(), format!("{{{{ $broken{} }}}}", n)),
                    "manifest" => ("stuart.toml".into(), format!("[site]\nname = \"other {}\"\n", n)),
                    "add" => (format!("static/new{}.txt", n), "x".into()),
                    _ => ("scripts/onPreBuild.sh".into(), format!("echo said {}\n", n)),
                };
                // in one step, as the server reads the file at any time
                put(&w, "edit", d.as_bytes());
                std::fs::rename(w.join("edit"), p.join(&f)).unwrap();
                s.idle()?;
                o.steps += 1;
                at += 1;
            }
            let (out, err) = s.printed();
            drop(s);
            if flags.is_empty() {
                // what follows a message is not part of it
                let stop = ["Started", "Building", "Exporting", "Finished", "Executing", "Detected"];
                known = lines(&plain(&err)).into_iter().filter(|l| !stop.iter().any(|s| l.trim_start().starts_with(s))).collect();
            } else if quiet(flags) {
                if !out.is_empty() {
                    return bad(format!("prints to the standard output: {:?}", out));
                }
                if let Some(l) = lines(&plain(&err)).into_iter().find(|l| !known.contains(l)) {
                    return bad(format!("prints more than errors: {:?} in {:?}", l, plain(&err)));
                }
                if known.is_empty() && !err.is_empty() {
                    return bad(format!("prints more than errors: {:?}", err));
                }
                let missing = known.iter().find(|l| !lines(&plain(&err)).contains(l));
                if let Some(l) = missing {
                    return bad(format!("does not print the error {:?} but {:?}", l, plain(&err)));
                }
            }
        }
        Ok(())
    }
}

impl Case for Dev {
    fn json(&self) -> V {
        V::Obj(vec![("broken".into(), V::Bool(self.broken)), ("edits".into(), V::Arr(self.edits.iter().map(|e| V::s(EDITS[*e])).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { class: Some("histories of the development server"), ..Default::default() };
        o.viol = self.go(rt, &mut o).err().map(|e| (self.json().print(), e));
        o
    }
}

pub fn c29_bounds(t: Tier) -> String {
    format!(
        "every one of {} projects ({} of which can be built, the others failing at every stage of a build) x {} commands x no flag and {} combinations of flags; all pairs of commands{} in {} projects; the development server with every sequence of <= {} of {} edits",
        good().len() + stages().len(),
        good().len(),
        COMMANDS.len(),
        FLAGS.len(),
        t.pick("", " and triples"),
        good().len() + t.pick(2, 8),
        t.pick(1, 3),
        EDITS.len()
    )
}

pub fn c29(s: &mut Shard) {
    for (i, name) in good().into_iter().chain(stages().into_iter().map(|s| s.0)).enumerate() {
        let n = good().len();
        let long = i < n || (i - n) % s.tier.pick(60, 20) == 0;
        let quick = s.tier == Tier::Quick;
        seqs(COMMANDS.len(), if !long { 1 } else { s.tier.pick(2, if i < 2 { 3 } else { 2 }) }, &mut |q| {
            if q.is_empty() {
                return;
            }
            // quick: failing projects with the commands which depend on the project
            if quick && i >= n && !long && q[0] != 0 && q[0] != 6 && q[0] != 8 {
                return;
            }
            s.one(&Verb { project: name.into(), commands: q.to_vec() });
        });
    }
    seqs(EDITS.len(), s.tier.pick(1, 3), &mut |q| {
        for broken in [false, true] {
            s.one(&Dev { broken, edits: q.to_vec() });
        }
    });
}

pub fn c29_json(v: &V) -> Box<dyn Case> {
    if let Some(e) = v.get("edits") {
        let edits = e.arr().unwrap().iter().map(|x| EDITS.iter().position(|e| Some(*e) == x.str()).unwrap()).collect();
        return Box::new(Dev { broken: matches!(v.get("broken"), Some(V::Bool(true))), edits });
    }
    let commands = v.get("commands").and_then(|a| a.arr()).unwrap().iter().map(|x| num(Some(x))).collect();
    Box::new(Verb { project: text(v, "project"), commands })
}
