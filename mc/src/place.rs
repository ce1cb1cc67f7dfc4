//! Projects in directories of every name, and files of a project which the command itself names (scripts, plugins).

use std::os::unix::fs::symlink;
use std::path::Path;

use crate::build_props::{canon, num, run_args, text};
use crate::cli::*;
use crate::cli_props::Tree;
use crate::core_props::section;
use crate::json::V;
use crate::model::Plugins;
use crate::rt::{hash, Case, Outcome, Rt, Shard};


/// A project in a directory called `name`.
pub struct Place {
    name: String,
    /// 0: what is built, 1: what scripts see, 2: a plugin in a file of this name
    what: usize,
    /// 0: within the directory, 1: from above, 2: from a third directory with an absolute path and an output directory
    /// of this name, 3: through a link of this name
    how: usize,
}

impl Place {
    pub fn from_json(v: &V) -> Option<Box<dyn Case>> {
        v.get("place_name").map(|_| Box::new(Place { name: text(v, "place_name"), what: num(v.get("what")), how: num(v.get("how")) }) as Box<dyn Case>)
    }
}

const VARS: [&str; 5] = ["STUART_MANIFEST_PATH", "STUART_MANIFEST_DIR", "STUART_TEMP_DIR", "STUART_OUT_DIR", "STUART_ENV"];

impl Case for Place {
    fn json(&self) -> V {
        V::Obj(vec![("place_name".into(), V::s(&self.name)), ("what".into(), V::Num(self.what as f64)), ("how".into(), V::Num(self.how as f64))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        crate::model::STEPS.with(|s| s.set(0));
        let w = rt.scratch.join("w");
        remove(&w);
        let real = if self.how == 3 { "real" } else { &self.name };
        let p = w.join(real);
        std::fs::create_dir_all(&p).unwrap();
        let conf = Conf { meta: Some(true), ..Default::default() };
        let mut t = Tree::base(conf.clone()).with("content/p.html", section("{{ for($i, \"d/\") }}{{ $i.content }}{{ end(for) }}{{ $env.STUART_ENV }}")).with("content/d/m.md", "---\nk: \"v\"\n---\nM").with("static/s.txt", "s");
        match self.what {
            1 => t.add("scripts/onPostBuild.sh", "w=\"$STUART_MANIFEST_DIR/log\"\nmkdir -p \"$w\"\nfor v in MANIFEST_PATH MANIFEST_DIR TEMP_DIR OUT_DIR ENV; do eval \"x=\\$STUART_$v\"; printf '%s' \"$x\" > \"$w/STUART_$v\"; done\nprintf '%s' \"$PWD\" > \"$w/cwd\"\ntrue\n"),
            2 => {
                let mut m = conf.toml();
                m.push_str(&format!("\n[dependencies]\np = {}\n", toml_str(&format!("./{}.mjs", self.name))));
                t.manifest = Some(m.into_bytes());
                t.add(&format!("{}.mjs", self.name), "export default { name: \"p\", version: \"1\", functions: [{ name: \"f\", fn: () => 7 + \"!\" }] };\n");
                t.add("content/q.html", section("{{ f() }}"));
            }
            _ => (),
        }
        t.write(&p);
        let s = |x: &str| x.to_string();
        let (cwd, args, out) = match self.how {
            0 => (p.clone(), vec![s("build")], p.join("dist")),
            1 => (w.clone(), vec![s("build"), s("--manifest-path"), format!("./{}/stuart.toml", self.name)], p.join("dist")),
            2 => {
                std::fs::create_dir_all(w.join("third")).unwrap();
                (w.join("third"), vec![s("build"), s("-o"), format!("../out {}", self.name), s("--manifest-path"), format!("{}/stuart.toml", p.to_str().unwrap())], w.join(format!("out {}", self.name)))
            }
            _ => {
                symlink("real", w.join(&self.name)).unwrap();
                (w.clone(), vec![s("build"), s("--manifest-path"), format!("{}/{}/stuart.toml", w.to_str().unwrap(), self.name)], p.join("dist"))
            }
        };
        let r = run_args(rt, &cwd, &args);
        let mut bad = r.orderly();
        if bad.is_none() && !r.ok() {
            bad = Some(format!("the build fails: {}", r.plain_err()));
        }
        // what the plugin means
        let mut files = t.files.clone();
        if self.what == 2 {
            files.insert("content/q.html".into(), section("7!").into_bytes());
        }
        let env = vec![("STUART_ENV".to_string(), "production".to_string())];
        let Want::Ok(e) = want(&files, &[], &Default::default(), &conf, &env, &Plugins::default()) else { unreachable!() };
        let mut o = Outcome { traces: 1, steps: crate::model::STEPS.with(|s| s.get()).max(1), class: Some("place"), ..Default::default() };
        let got = snapshot(&out);
        o.states.push(hash(format!("{}{:?}", self.name, got).as_bytes()));
        if bad.is_none() {
            bad = check_output(&e, &got).or_else(|| check_metadata(e.meta.as_ref(), &p.join("metadata.json")));
        }
        if bad.is_none() && self.what == 1 {
            let read = |n: &str| std::fs::read_to_string(p.join("log").join(n)).unwrap_or_default();
            let expect = [p.join("stuart.toml"), p.clone(), p.join("temp"), out.clone()];
            for (v, x) in VARS.iter().zip(expect.iter().map(|x| canon(x.to_str().unwrap())).chain(["production".to_string()])) {
                let g = read(v);
                let path = *v != "STUART_ENV";
                if (path && (canon(&g) != x || !Path::new(&g).is_absolute())) || (!path && g != x) {
                    bad = bad.or(Some(format!("a script sees {} = {:?} instead of {:?}", v, g, x)));
                }
            }
            if canon(&read("cwd")) != canon(cwd.to_str().unwrap()) {
                bad = bad.or(Some(format!("a script runs in {:?} instead of {:?}", read("cwd"), cwd)));
            }
        }
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

pub fn places(s: &mut Shard, what: usize) {
    let t = s.tier;
    for (i, c) in crate::chars::few(t).into_iter().filter(|c| !matches!(c, '/' | '\0')).enumerate() {
        for (k, name) in [format!("x{}y", c), c.to_string(), format!("{}z", c), format!("z{}", c)].into_iter().enumerate() {
            // a list of sources
            if what == 2 && c == ';' {
                continue;
            }
            if name == "." || name.len() > 1 && name.is_ascii() && k > 1 && t == crate::rt::Tier::Quick && c.is_ascii_alphanumeric() {
                continue;
            }
            let common = (c as u32) < 0x100;
            for how in 0..4 {
                if (common && k == 0) || (i + k) % 4 == how {
                    s.one(&Place { name: name.clone(), what, how });
                }
            }
        }
    }
    for n in crate::ladders::counts(t) {
        if (1..=240).contains(&n) {
            for how in 0..4 {
                s.one(&Place { name: "n".repeat(n), what, how });
            }
        }
    }
    for name in ["..x", "x..", "...", "-o", "--help", "%41", "$HOME", "`id`", "a b  c", "dist", "content", "stuart.toml", "temp", "static", "real2", "C:", "\\\\?\\x", "\\\\?\\", "~", "a'b\"c", "*", "file:", "http:x", "a?b#c", "x.mjs", "a.js"] {
        for how in 0..4 {
            s.one(&Place { name: name.into(), what, how });
        }
    }
}
