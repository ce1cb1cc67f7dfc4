//! C22: what the command says about errors.

use crate::build_props::{apply, project, stages};
use crate::cli::*;
use crate::cli_props::{fresh, PROJECT};
use crate::core_props::{c22_core, error_site, error_sites, seqs};
use crate::json::V;
use crate::model::Fail;
use crate::rt::{hash, Case, Outcome, Rt, Shard, Tier};
use crate::site::{files_json, json_files, Site};

/// A project with one erroneous tag.
struct Msg {
    site: Site,
    /// further files of the project
    extra: crate::model::Files,
    how: usize,
    /// where the error is, if the model cannot know
    at: Option<(String, u32)>,
}

impl Msg {
    pub fn from_json(v: &V) -> Msg {
        let b = Site::from_json(v).json();
        let mut site = Site::new(crate::site::Mode::Location);
        site.files = json_files(b.get("content").unwrap());
        let n = |k: &str| match v.get(k) {
            Some(V::Num(n)) => *n as usize,
            _ => 0,
        };
        let at = v.get("file").and_then(|f| f.str()).map(|f| (f.to_string(), n("line") as u32));
        Msg { site, extra: v.get("extra").map(json_files).unwrap_or_default(), how: n("how"), at }
    }
}

impl Case for Msg {
    fn json(&self) -> V {
        let V::Obj(mut o) = self.site.json() else { unreachable!() };
        o.push(("msg".into(), V::Bool(true)));
        o.push(("how".into(), V::Num(self.how as f64)));
        o.push(("extra".into(), files_json(&self.extra)));
        if let Some((f, l)) = &self.at {
            o.push(("file".into(), V::s(f)));
            o.push(("line".into(), V::Num(*l as f64)));
        }
        V::Obj(o)
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        crate::model::STEPS.with(|s| s.set(0));
        let want = match &self.at {
            Some((f, l)) => Some(Some((f.clone(), *l, *l))),
            None => match self.site.model() {
                Err(Fail::Err { at, .. }) => Some(at.map(|a| (a.file, a.lo, a.hi))),
                // a few combinations are no errors
                Err(Fail::Unspec(_)) | Ok(_) => None,
            },
        };
        let mut o = Outcome { traces: 1, steps: crate::model::STEPS.with(|s| s.get()).max(1), ..Default::default() };
        let (w, p) = fresh(rt);
        for (f, d) in &self.site.files {
            put(&p.join("content"), f, d);
        }
        let toml = Conf::default().toml();
        put(&p, "stuart.toml", toml.as_bytes());
        for (f, d) in &self.extra {
            put(&p, f, d);
        }
        let man = format!("{}/stuart.toml", PROJECT);
        let deep = p.join("content/d");
        std::fs::create_dir_all(&deep).unwrap();
        let r = match self.how {
            0 => stuart(rt, &p, &["build"]),
            1 => stuart(rt, &w, &["build", "--manifest-path", &man]),
            2 => stuart(rt, &deep, &["build", "--manifest-path", "../../stuart.toml"]),
            _ => stuart(rt, std::path::Path::new("/"), &["build", "--manifest-path", p.join("stuart.toml").to_str().unwrap()]),
        };
        o.states.push(hash(format!("{:?}", want).as_bytes()));
        o.class = Some(if want.is_some() { "message" } else { "unspecified" });
        let err = r.plain_err();
        let mut bad = r.orderly();
        if bad.is_none() && r.ok() && want.is_some() {
            bad = Some("an invalid site builds".into());
        }
        if let (None, Some(Some((f, lo, hi)))) = (&bad, &want) {
            // in content/d, a path below it is shown relative to it
            let local = (self.how == 2).then(|| f.strip_prefix("d/")).flatten();
            let named = |f: &str| {
                err.match_indices(f).any(|(i, _)| {
                    let n: String = err[i + f.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    n.parse::<u32>().is_ok_and(|n| n >= *lo && n <= *hi) && err[i + f.len() + n.len()..].starts_with([':', '\n', ' ', ')'])
                })
            };
            if !named(&format!("content/{}:", f)) && !local.is_some_and(|l| named(&format!(" {}:", l))) {
                bad = Some(format!("the message does not name content/{} line {}..{}:\n{}", f, lo, hi, err));
            }
        }
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

/// Commands which have to fail.
struct Command {
    stage: usize,
    command: usize,
}

const COMMANDS: [&[&str]; 4] = [&["build"], &["-v", "build"], &["-q", "build"], &["bench"]];

impl Case for Command {
    fn json(&self) -> V {
        V::Obj(vec![("stage".into(), V::Num(self.stage as f64)), ("command".into(), V::Num(self.command as f64))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, steps: 1, class: Some("failing project"), ..Default::default() };
        let (_, p) = fresh(rt);
        let (name, ops) = stages().swap_remove(self.stage);
        project(1, Conf::default()).write(&p);
        apply(&p, &ops);
        let r = stuart(rt, &p, COMMANDS[self.command]);
        o.states.push(hash(r.plain_err().as_bytes()));
        let mut bad = r.orderly();
        if bad.is_none() && r.ok() {
            bad = Some("the command succeeds".into());
        }
        o.viol = bad.map(|b| (self.json().print(), format!("{} with {}: {}", COMMANDS[self.command].join(" "), name, b)));
        o
    }
}

/// Other commands which have to fail, in an empty directory with a file `f` and a directory `d`.
const OTHERS: [&[&str]; 14] = [
    &["build"], &["bench"], &["dev"], &["clean"], &["build", "--manifest-path", "none.toml"], &["build", "--manifest-path", "none/stuart.toml"], &["build", "--manifest-path", "d"], &["build", "--manifest-path", "f"], &["build", "--manifest-path", "/"], &["build", "--manifest-path", ""], 
    &["dev", "--manifest-path", "none.toml"], &["new", "d"], &["new", "f"], &["new", "f/x"],
];

struct Other(usize);

impl Case for Other {
    fn json(&self) -> V {
        V::Obj(vec![("other".into(), V::Num(self.0 as f64))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { traces: 1, steps: 1, class: Some("failing command"), ..Default::default() };
        let (_, p) = fresh(rt);
        put(&p, "f", b"not TOML");
        std::fs::create_dir_all(p.join("d")).unwrap();
        let r = stuart(rt, &p, OTHERS[self.0]);
        o.states.push(hash(r.plain_err().as_bytes()));
        let mut bad = r.orderly();
        if bad.is_none() && r.ok() {
            bad = Some("the command succeeds".into());
        }
        o.viol = bad.map(|b| (self.json().print(), format!("{:?}: {}", OTHERS[self.0], b)));
        o
    }
}

pub fn c22_json(v: &V) -> Box<dyn Case> {
    let n = |k: &str| match v.get(k) {
        Some(V::Num(n)) => Some(*n as usize),
        _ => None,
    };
    if let Some(k) = n("other") {
        return Box::new(Other(k));
    }
    if let (Some(stage), Some(command)) = (n("stage"), n("command")) {
        return Box::new(Command { stage, command });
    }
    if v.get("msg").is_some() {
        return Box::new(Msg::from_json(v));
    }
    Site::from_json(v)
}

pub fn c22_bounds(t: Tier) -> String {
    format!(
        "in process: 30 kinds of error x 13 texts before them x 2 after x 2 line endings x 8 places, all front matters of <= 4 lines, errors in and behind front matter of up to 65537 lines; messages of the command: the same x {} texts x 3 working directories, every text of <= {} of 9 pieces before 8 errors, errors behind up to 65537 lines, characters, tags; {} characters before, in and after 3 errors; plugin exceptions in 8 places, {} failing projects x 4 commands, 14 other commands",
        t.pick(4, 13),
        t.pick(2, 3),
        crate::chars::few(t).len(),
        stages().len()
    ) + &crate::contexts::bounds(t, "C22")
}

pub fn c22(s: &mut Shard) {
    c22_core(s);
    crate::contexts::run(s, "C22");
    let thorough = s.tier != Tier::Quick;
    let mut k = 0usize;
    error_sites(s, &|b, tail| thorough || (tail.is_empty() && [0, 1, 6, 12].contains(&b)), &mut |s, site| {
        k += 1;
        if thorough {
            for how in 0..4 {
                s.run(&Msg { site: site.clone(), extra: Default::default(), how, at: None });
            }
        } else {
            s.run(&Msg { site, extra: Default::default(), how: k % 4, at: None });
        }
    });
    // texts which the preview of the line has to cope with
    let pieces = ["a", "é", "😀", "\t", "\n", "\r\n", "\r", "\u{2028}", "{{ $env.STUART_ENV }}"];
    let errors = ["{{ $nope }}", "{{ nope() }}", "{{ $é }}", "{{ $v.é", "{{ ifeq(1,\n\"é\nü\") }}", "{{ insert(\"é\"b\") }}", "{{ else() }}", "{{ for($i, \"é/\") }}{{ end(for) }}"];
    seqs(pieces.len(), s.tier.pick(2, 3), &mut |q| {
        let t: String = q.iter().map(|i| pieces[*i]).collect();
        for e in errors {
            for place in [0, 2, 6] {
                if s.owns() {
                    s.run(&Msg { site: error_site(e, &t, "é", false, place), extra: Default::default(), how: 0, at: None });
                }
            }
        }
    });
    // every character, before and after an error
    for (k, c) in crate::chars::few(s.tier).into_iter().enumerate() {
        let special = (c as u32) < 0x100 || crate::chars::SPECIAL.contains(&c);
        for (e, error) in [format!("{{{{ $nope }}}}"), format!("{{{{ nope(\"{}\") }}}}", if c == '"' { ' ' } else { c }), format!("{{{{ ifeq(1,\n2,\n\"{}\") }}}}", if c == '"' { ' ' } else { c })].iter().enumerate() {
            for place in [0, 2, 3, 5] {
                if s.owns() {
                    let site = error_site(error, &format!("x{c}y\n{c}z"), &c.to_string(), false, place);
                    s.run(&site);
                    if special && (e + place + k) % 4 == 0 {
                        s.run(&Msg { site, extra: Default::default(), how: k % 4, at: None });
                    }
                }
            }
        }
    }
    // exceptions thrown by a plugin are errors of the tag
    for place in 0..8 {
        for (before, line) in [("", 0), ("\n", 1), ("a\n{{ fine() }}\n", 2)] {
            for e in ["{{ boom() }}", "{{ b::boom() }}", "{{ ifeq(1, 1) }}{{ boom() }}{{ end(ifeq) }}"] {
                if s.owns() {
                    let site = error_site(e, before, "", false, place);
                    let (file, first) = match place {
                        0 => ("p.html", 1),
                        1 => ("p.html", 2),
                        2 => ("root.html", 1),
                        3 => ("md.html", 1),
                        k => ("d/p.md", [1, 3, 4, 7][k - 4]),
                    };
                    let mut extra = crate::model::Files::new();
                    let mut m = Conf::default().toml();
                    m.push_str("\n[dependencies]\nb = \"./b.mjs\"\n");
                    extra.insert("stuart.toml".into(), m.into_bytes());
                    extra.insert("b.mjs".into(), b"export default { name: \"b\", version: \"1\", functions: [{name: \"boom\", fn: () => { throw new Error(\"x\") }}, {name: \"fine\", fn: () => \"y\"}] }".to_vec());
                    s.run(&Msg { site, extra, how: 0, at: Some((file.into(), first + line)) });
                }
            }
        }
    }
    // lines and columns of every size
    let lines: Vec<usize> = crate::ladders::lengths(s.tier);
    for n in lines {
        for (what, unit) in [("\\n", "\n"), ("\\r\\n", "\r\n"), ("a", "a"), ("é", "é"), ("tag", "{{ $env.STUART_ENV }}\n"), ("tag over lines", "{{\n$env.STUART_ENV\n}}"), ("escape", "\\{{ "), ("skipped", "{{ ifeq(1, 2) }}\n{{ $q }}{{ end(ifeq) }}")] {
            if n > 300 && unit.len() > 2 || n > 66000 {
                continue;
            }
            for (e, error) in ["{{ $nope }}", "{{ nope() }}", "{{ ifeq(1,\n2,\n3) }}", "{{ for($i, \"l.json\") }}", "{{ $v.s x }}"].into_iter().enumerate() {
                for place in [0, 2, 3, 7] {
                    if s.owns() {
                        let mut site = error_site(error, &unit.repeat(n), "\nmore", false, place);
                        site.key = Some(format!("{} times {}, error {}, place {}", n, what, e, place));
                        s.run(&site);
                        if (e + place) % 5 == 0 && [0, 1, 9, 10, 99, 100, 255, 256, 257, 999, 1000, 9999, 65535, 65536].contains(&n) {
                            s.run(&Msg { site, extra: Default::default(), how: n % 4, at: None });
                        }
                    }
                }
            }
        }
    }
    // lines of every length in bytes, with characters of more than one across every boundary
    for n in crate::ladders::lengths(s.tier) {
        for unit in ["é", "日", "😀"] {
            for off in 0..unit.len() {
                for place in if n % 3 == 0 { &[0, 4][..] } else { &[0][..] } {
                    if s.owns() {
                        let before = "a".repeat(off) + &unit.repeat(n / unit.len() + 1);
                        let after = unit.repeat(if off % 2 == 0 { 1 } else { n.min(5000) / unit.len() });
                        let mut site = error_site("{{ $nope }}", &before, &after, false, *place);
                        site.key = Some(format!("{} after {} bytes, {} of them a, place {}", unit, n, off, place));
                        s.run(&Msg { site, extra: Default::default(), how: off % 4, at: None });
                    }
                }
            }
        }
    }
    for stage in 0..stages().len() {
        for command in 0..COMMANDS.len() {
            s.one(&Command { stage, command });
        }
    }
    for k in 0..OTHERS.len() {
        s.one(&Other(k));
    }
}
