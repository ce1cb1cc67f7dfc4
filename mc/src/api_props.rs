//! C28: one `Stuart` object of the library, through every sequence of its operations.

use crate::cli::*;
use crate::core_props::{section, seqs};
use crate::fault_props::{env, state, BROKEN};
use crate::json::V;
use crate::model::{Files, Plugins};
use crate::rt::{hash, Case, Outcome, Rt, Shard, Tier};
use crate::site::ROOT;
use std::collections::HashMap;
use std::path::Path;
use std::rc::Rc;
use stuart_core::{Config, Error, Node, Stuart};

const OPS: &[&str] = &[
    "build A", "build A in f", "build B", "build unparsable", "build broken", "build missing", "merge 1", "merge 2", "merge 3", "merge 4", "flip strip", "flip data", "flip meta", "rename", "junk", "save 1", "save 2", "metadata",
];

/// Content directories.
fn content(which: &str) -> Files {
    let mut f = match which {
        "A" => state(0),
        "B" => state(0b10_0101_1011),
        "unparsable" => state(0).with("content/zz.html", "{{ for($x }}"),
        _ => state(0b10_0101_1011 | BROKEN),
    };
    f.add("content/env.html", section("{{ $env.STUART_ENV }}"));
    f.add("content/root.html", ROOT);
    only(&f.files, |k| k.starts_with("content/"))
}

/// Trees to merge.
fn extra(k: usize) -> Files {
    let l: &[(&str, &str)] = match k {
        1 => &[("s.css", "1"), ("sub2/x.txt", "1"), ("n/o/p.html", "{{ 1")],
        // meets p.html of A if extensions are stripped
        2 => &[("p/index.html", "2"), ("n/o/q.html", "2")],
        // meets d.json if data files are saved, but never the template
        3 => &[("d.json", "3"), ("root.html", "3")],
        // a file meets a directory
        _ => &[("x.txt/in.txt", "4"), ("n/o2", "4")],
    };
    l.iter().map(|(k, d)| (k.to_string(), d.as_bytes().to_vec())).collect()
}

struct Api {
    start: usize,
    ops: Vec<usize>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct Built {
    what: &'static str,
    env: &'static str,
    merges: Vec<usize>,
    /// metadata was enabled then; whether it can be saved otherwise is unspecified
    meta: bool,
}

thread_local! {
    static WANTS: std::cell::RefCell<HashMap<(Built, [bool; 4]), Rc<Want>>> = Default::default();
    static READY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn conf(c: &[bool; 4]) -> Conf {
    Conf { strip: Some(c[0]), data: Some(c[1]), meta: Some(true), name: if c[3] { "other".into() } else { "s".into() }, author: c[3].then(|| "au".into()) }
}

/// What saving this output has to write.
fn expect(b: &Built, c: &[bool; 4]) -> Rc<Want> {
    let mut b = b.clone();
    b.merges.sort();
    b.meta = true;
    let key = (b, [c[0], c[1], true, c[3]]);
    if let Some(w) = WANTS.with(|m| m.borrow().get(&key).cloned()) {
        return w;
    }
    let mut files = content(key.0.what);
    let mut twice = None;
    for k in &key.0.merges {
        for (p, d) in extra(*k) {
            if files.insert(format!("static/{}", p), d).is_some() {
                twice = Some(p);
            }
        }
    }
    let w = match twice {
        Some(p) => Want::Fail(format!("two merged files would be saved to {}", p)),
        None => want(&files, &[], &Files::new(), &conf(c), &env(key.0.env), &Plugins::default()),
    };
    let w = Rc::new(w);
    WANTS.with(|m| m.borrow_mut().insert(key, w.clone()));
    w
}

/// Everything but the sources.
fn outside(w: &Path) -> Files {
    only(&snapshot(w), |k| !k.starts_with("content") && !k.starts_with("src/") && !k.starts_with("extra/"))
}

/// The given files, without those at or below `path`.
fn without(f: &Files, path: &str) -> Files {
    only(f, |k| k.trim_end_matches('/') != path && !k.starts_with(&format!("{}/", path)))
}

impl Case for Api {
    fn json(&self) -> V {
        V::Obj(vec![("start".into(), V::Num(self.start as f64)), ("ops".into(), V::Arr(self.ops.iter().map(|o| V::s(OPS[*o])).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let w = rt.scratch.join("api");
        let kinds = ["A", "B", "unparsable", "broken"];
        if !READY.with(|r| r.replace(true)) {
            remove(&w);
            for k in kinds {
                write_all(&w.join("src").join(k), &below(&content(k), "content/"));
            }
            for k in 1..5 {
                write_all(&w.join(format!("extra/{}", k)), &extra(k));
            }
            put(&w, "keep/k.txt", b"k");
        }
        for o in ["out1", "out2", "metadata.json"] {
            if w.join(o).symlink_metadata().is_ok() {
                remove(&w.join(o));
            }
        }
        let mut o = Outcome { traces: 1, steps: self.ops.len() as u64, class: Some("sequences of operations"), ..Default::default() };
        let mut c = if self.start == 0 { [true, true, true, false] } else { [true, false, false, false] };
        let mut st = Stuart::new(w.join("content")).with_config(Config::default());
        let mut built: Option<Built> = None;
        let mut bad = None;
        let mut disk = outside(&w);
        for (i, op) in self.ops.iter().enumerate() {
            let op = OPS[*op];
            let (verb, arg) = op.split_once(' ').unwrap_or((op, ""));
            st.config = Config { name: if c[3] { "other".into() } else { "s".into() }, author: c[3].then(|| "au".into()), strip_extensions: c[0], save_data_files: c[1], save_metadata: c[2] };
            let dir = arg.split(' ').next().unwrap();
            let source = w.join("src").join(dir);
            if verb == "build" && dir != "missing" {
                std::fs::rename(&source, w.join("content")).unwrap();
            }
            let e = if arg.ends_with("in f") { "f" } else { "e" };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), Error> {
                match verb {
                    "build" => st.build(e.into()),
                    "merge" => st.merge_output(Node::new(w.join("extra").join(arg), false)?),
                    "save" => st.save(w.join(format!("out{}", arg))),
                    "metadata" => st.save_metadata(w.join("metadata.json")),
                    _ => Ok(()),
                }
            }));
            if verb == "build" && dir != "missing" {
                std::fs::rename(w.join("content"), &source).unwrap();
            }
            let Ok(r) = r else {
                bad = Some(format!("operation {} ({}): panic", i + 1, op));
                break;
            };
            let now = outside(&w);
            let mut wrong = None;
            // what this operation may change
            let mut target = String::new();
            match verb {
                "build" => match (dir, &r) {
                    ("A" | "B", Ok(())) => built = Some(Built { what: if dir == "A" { "A" } else { "B" }, env: if e == "f" { "f" } else { "e" }, merges: vec![], meta: c[2] }),
                    ("A" | "B", Err(_)) => wrong = Some("the build fails".to_string()),
                    (_, Ok(())) => wrong = Some("the build succeeds".into()),
                    // what has been built before is still there
                    _ => (),
                },
                "merge" => match (&mut built, &r) {
                    (Some(b), Ok(())) => b.merges.push(arg.parse().unwrap()),
                    (None, Err(Error::NotBuilt)) => (),
                    (None, _) => wrong = Some("merging into nothing does not fail with NotBuilt".into()),
                    (Some(_), Err(_)) => wrong = Some("merging fails".into()),
                },
                "save" => match (&built, &r) {
                    (None, Err(Error::NotBuilt)) => (),
                    (None, _) => wrong = Some("saving nothing does not fail with NotBuilt".into()),
                    (Some(b), r) => match (&*expect(b, &c), r) {
                        (Want::Unspec(_), _) => target = format!("out{}", arg),
                        (Want::Fail(_), Err(_)) => (),
                        (Want::Fail(why), Ok(())) => wrong = Some(format!("it is saved although {}", why)),
                        (Want::Ok(_), Err(_)) => wrong = Some("saving fails".into()),
                        (Want::Ok(x), Ok(())) => {
                            target = format!("out{}", arg);
                            wrong = check_output(x, &below(&now, &format!("out{}/", arg)));
                        }
                    },
                },
                "metadata" => match (&built, &r) {
                    (None, Err(Error::NotBuilt)) => (),
                    (_, Err(Error::MetadataNotEnabled)) if !c[2] => (),
                    (_, _) if !c[2] => wrong = Some("saving metadata does not fail with MetadataNotEnabled".into()),
                    (None, _) => wrong = Some("saving metadata of nothing does not fail with NotBuilt".into()),
                    (Some(b), r) => {
                        target = "metadata.json".into();
                        match (&*expect(b, &c), r) {
                            _ if !b.meta => (),
                            (Want::Ok(_), Err(_)) => wrong = Some("saving metadata fails".into()),
                            (Want::Ok(x), Ok(())) => wrong = check_metadata(x.meta.as_ref(), &w.join("metadata.json")),
                            _ => (),
                        }
                    }
                },
                "flip" => {
                    let k = ["strip", "data", "meta"].iter().position(|x| *x == arg).unwrap();
                    c[k] = !c[k];
                }
                "rename" => c[3] = !c[3],
                _ => (),
            }
            if wrong.is_none() && without(&now, &target) != without(&disk, &target) {
                wrong = Some(format!("it changes something else: {}", diff(&without(&disk, &target), &without(&now, &target))));
            }
            disk = now;
            if verb == "junk" {
                put(&w, "out1/junk/j.txt", b"j");
                put(&w, "out1/s.css", b"j");
                std::os::unix::fs::symlink(w.join("keep"), w.join("out1/junk/link")).ok();
                disk = outside(&w);
            }
            o.states.push(hash(format!("{:?}{:?}{:?}", built.as_ref().map(|b| (b.what, b.env, &b.merges, b.meta)), c, disk.keys()).as_bytes()));
            if let Some(x) = wrong {
                bad = Some(format!("operation {} ({}): {}", i + 1, op, x));
                break;
            }
        }
        if bad.is_none() {
            for k in kinds {
                if snapshot(&w.join("src").join(k)).into_iter().filter(|(k, _)| !k.ends_with('/')).collect::<Files>() != below(&content(k), "content/") {
                    bad = Some("a source was changed".into());
                }
            }
        }
        if bad.is_some() {
            READY.with(|r| r.set(false));
        }
        o.viol = bad.map(|b| (self.json().print(), b));
        o
    }
}

pub fn c28_bounds(t: Tier) -> String {
    format!(
        "every sequence of <= {} of {} operations (builds of 2 projects in 2 environments and 3 which fail; merging 4 trees, some of which conflict; changes of each setting; junk in the output; saving to 2 places; saving metadata) from 2 configurations, and every one of {} which ends with saving; every cycle of two operations and a save, repeated to {} operations",
        t.pick(3, 4),
        OPS.len(),
        t.pick("4", "5, and of 6 which starts with a build"),
        t.pick(24, 130)
    )
}

/// Does the order of these neighbours not matter, and are they in the wrong one?
fn swapped(a: usize, b: usize) -> bool {
    let free = |x: usize| OPS[x].starts_with("flip") || OPS[x] == "rename" || OPS[x] == "junk";
    free(a) && free(b) && a >= b
}

pub fn c28(s: &mut Shard) {
    let full = s.tier.pick(3, 4);
    let most = s.tier.pick(4, 6);
    seqs(OPS.len(), most, &mut |q| {
        if q.is_empty() || q.windows(2).any(|p| swapped(p[0], p[1])) {
            return;
        }
        let last = OPS[q[q.len() - 1]];
        if q.len() > full && !last.starts_with("save") && last != "metadata" {
            return;
        }
        if q.len() == 6 && !["build A", "build B"].contains(&OPS[q[0]]) {
            return;
        }
        for start in [0, 1] {
            if start == 1 && q.len() == most {
                continue;
            }
            s.one(&Api { start, ops: q.to_vec() });
        }
    });
    again(s);
}

fn again(s: &mut Shard) {
    // the same again and again, on one object
    let most = s.tier.pick(24, 130);
    for a in 0..OPS.len() {
        for b in 0..OPS.len() {
            for c in ["save 1", "metadata"].iter().filter_map(|n| OPS.iter().position(|o| o.starts_with(n))) {
                s.one(&Api { start: 0, ops: (0..most).map(|i| [a, b, c][i % 3]).chain([c]).collect() });
            }
        }
    }
}

pub fn c28_json(v: &V) -> Box<dyn Case> {
    let ops = v.get("ops").and_then(|a| a.arr()).unwrap().iter().map(|x| OPS.iter().position(|e| Some(*e) == x.str()).unwrap()).collect();
    Box::new(Api { start: matches!(v.get("start"), Some(V::Num(x)) if *x > 0.0) as usize, ops })
}
