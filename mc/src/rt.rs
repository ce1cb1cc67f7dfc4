//! Explorer runtime: shard processes, dynamic distribution of blocks, crash and hang detection, evidence,
//! replay files, known findings.

use crate::json::{self, V};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// one step further, where the thorough bounds are cheap enough for every change
    Deep,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough | Tier::Deep => t,
        }
    }
    /// Added to the lengths of sequences.
    pub fn more(self) -> usize {
        (self == Tier::Deep) as usize
    }
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
            Tier::Deep => "deep",
        }
    }
    /// The bounds which a command explores.
    pub fn of(id: &str, command: &str) -> Tier {
        let cheap = ["C03", "C04", "C07", "C08", "C09", "C10", "C11", "C12"].contains(&id);
        match command {
            "deep" => Tier::Deep,
            "thorough" if cheap || id == "C01" => Tier::Deep,
            "thorough" => Tier::Thorough,
            _ if cheap => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
}

/// What running one case showed.
#[derive(Default, Debug)]
pub struct Outcome {
    /// (stable key of the failing case, description)
    pub viol: Option<(String, String)>,
    /// identity of the model state or result reached
    pub states: Vec<u64>,
    /// model steps / system transitions exercised
    pub steps: u64,
    /// executions of the implementation
    pub traces: u64,
    /// counter to bump
    pub class: Option<&'static str>,
}

pub trait Case {
    fn json(&self) -> V;
    fn run(&self, rt: &mut Rt) -> Outcome;
}

const SLOT: usize = 1 << 20;

struct Map {
    p: *mut u8,
}

impl Map {
    fn open(path: &Path, size: usize) -> Map {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("status file");
        f.set_len(size as u64).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Map { p: p as *mut u8 }
    }
    fn word(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.p.add(8 * i) as *const AtomicU64) }
    }
    fn set_case(&self, s: &str) {
        let n = s.len().min(SLOT - 64);
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(32), n) };
        self.word(1).store(n as u64, SeqCst);
        self.word(0).fetch_add(1, SeqCst);
    }
    fn case(&self) -> String {
        let n = self.word(1).load(SeqCst) as usize;
        let b = unsafe { std::slice::from_raw_parts(self.p.add(32), n) };
        String::from_utf8_lossy(b).into_owned()
    }
}

/// Things a case needs to run: scratch space and the binaries under test.
pub struct Rt {
    pub id: String,
    pub scratch: PathBuf,
    pub shard: usize,
    /// files currently in the scratch site (in-process driver)
    pub disk: BTreeMap<String, Vec<u8>>,
    pub disk_dirs: Vec<String>,
    pub tier: Tier,
    beat: Option<*const AtomicU64>,
}

impl Rt {
    /// For long cases: tell the parent that progress is being made.
    pub fn beat(&self) {
        if let Some(b) = self.beat {
            unsafe { (*b).fetch_add(1, SeqCst) };
        }
    }
}

pub struct Shard {
    pub tier: Tier,
    pub rt: Rt,
    status: Map,
    shared: Map,
    idx: u64,
    claim: u64,
    states: HashSet<u64>,
    steps: u64,
    traces: u64,
    cases: u64,
    classes: BTreeMap<&'static str, u64>,
    viols: BTreeMap<String, (String, V)>,
    nviols: u64,
    /// violations which did not happen again when the same case was run three more times
    odd: Vec<(String, String, V)>,
    samples: Vec<V>,
    pub stop: bool,
}

impl Shard {
    /// Is the next block ours? Every block is run by exactly one shard.
    pub fn owns(&mut self) -> bool {
        let i = self.idx;
        self.idx += 1;
        if i == self.claim {
            self.claim = self.shared.word(0).fetch_add(1, SeqCst);
            true
        } else {
            false
        }
    }
    pub fn run(&mut self, c: &dyn Case) -> Outcome {
        let j = c.json();
        self.status.set_case(&j.print());
        let mut o = c.run(&mut self.rt);
        if self.nviols < 10 && o.viol.is_some() {
            // a case is repeatable, what happens to a busy machine is not
            let again = (0..3).any(|_| {
                self.rt.beat();
                let r = c.run(&mut self.rt);
                if r.viol.is_some() {
                    o.viol = r.viol;
                    return true;
                }
                false
            });
            if !again {
                let (k, w) = o.viol.take().unwrap();
                self.odd.push((k, w, j.clone()));
            }
        }
        self.cases += 1;
        self.steps += o.steps;
        self.traces += o.traces;
        for s in &o.states {
            if self.states.len() < 4_000_000 {
                self.states.insert(*s);
            }
        }
        if let Some(k) = o.class {
            *self.classes.entry(k).or_default() += 1;
        }
        if self.cases.is_power_of_two() && self.samples.len() < 24 {
            let t = j.print();
            self.samples.push(if t.len() > 3000 { V::s(&format!("{}...", t.chars().take(2000).collect::<String>())) } else { j.clone() });
        }
        if let Some((k, w)) = &o.viol {
            self.nviols += 1;
            // keep the smallest case for each key
            let size = j.print().len();
            let better = match self.viols.get(k) {
                None => self.viols.len() < 200,
                Some((_, old)) => size < old.print().len(),
            };
            if better {
                self.viols.insert(k.clone(), (w.clone(), j));
            }
        }
        o
    }
    /// Convenience: a block of one case.
    pub fn one(&mut self, c: &dyn Case) {
        if self.owns() {
            self.run(c);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub explore: fn(&mut Shard),
    pub from_json: fn(&V) -> Box<dyn Case>,
    /// text for the evidence: what was enumerated, within which bounds
    pub bounds: fn(Tier) -> String,
    /// seconds without progress that count as a hang
    pub hang: u64,
    /// number of shard processes
    pub shards: usize,
}

pub fn hash(s: &[u8]) -> u64 {
    // FNV-1a with a final mix
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

pub fn scratch_root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() && std::fs::create_dir_all(shm.join("mc-probe")).is_ok() {
        let _ = std::fs::remove_dir(shm.join("mc-probe"));
        shm.to_path_buf()
    } else {
        PathBuf::from("/tmp")
    };
    base.join(format!("mc-{}", std::process::id()))
}

thread_local! {
    pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if std::env::var_os("MC_LOUD").is_some() {
            eprintln!("{}", m);
        }
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn make_rt(id: &str, tier: Tier, scratch: PathBuf, shard: usize) -> Rt {
    std::fs::create_dir_all(&scratch).expect("scratch");
    Rt { id: id.into(), scratch, shard, disk: BTreeMap::new(), disk_dirs: vec![], tier, beat: None }
}

pub const NOBODY: u32 = 65534;

/// Explorers run as an unprivileged user whose only files are in the scratch directory, so that nothing the
/// code under test does can reach anything else.
pub fn drop_privileges() {
    unsafe {
        if libc::getuid() == 0 {
            let ok = libc::setgroups(0, std::ptr::null()) == 0 && libc::setgid(NOBODY) == 0 && libc::setuid(NOBODY) == 0;
            libc::prctl(libc::PR_SET_DUMPABLE, 1);
            if !ok {
                eprintln!("cannot drop privileges");
                std::process::exit(77);
            }
        }
    }
}

pub fn own(p: &Path) {
    let _ = std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY));
}

pub fn shard_main(p: &Prop, tier: Tier, n: usize, dir: &Path) {
    quiet_panics();
    let status = Map::open(&dir.join(format!("status{}", n)), SLOT);
    let shared = Map::open(&dir.join("shared"), 4096);
    let claim = shared.word(0).fetch_add(1, SeqCst);
    drop_privileges();
    let mut rt = make_rt(p.id, tier, dir.join(format!("w{}", n)), n);
    rt.beat = Some(status.word(0) as *const _);
    let mut s = Shard {
        tier,
        rt,
        status,
        shared,
        idx: 0,
        claim,
        states: HashSet::new(),
        steps: 0,
        traces: 0,
        cases: 0,
        classes: BTreeMap::new(),
        viols: BTreeMap::new(),
        nviols: 0,
        odd: vec![],
        samples: vec![],
        stop: false,
    };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.explore)(&mut s))).is_err() {
        // the code under test runs in its own catch_unwind: this is a fault of the explorer
        eprintln!("the explorer panicked: {}", PANIC.with(|p| p.borrow().clone()));
        std::process::exit(77);
    }
    let mut hf = Vec::with_capacity(s.states.len() * 8);
    for h in &s.states {
        hf.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("states{}", n)), hf).unwrap();
    let num = |n: u64| V::Num(n as f64);
    let out = V::Obj(vec![
        ("blocks".into(), num(s.idx)),
        ("cases".into(), num(s.cases)),
        ("steps".into(), num(s.steps)),
        ("traces".into(), num(s.traces)),
        ("nviols".into(), num(s.nviols)),
        ("classes".into(), V::Obj(s.classes.iter().map(|(k, v)| (k.to_string(), num(*v))).collect())),
        ("samples".into(), V::Arr(s.samples)),
        ("odd".into(), V::Arr(s.odd.iter().map(|(k, w, c)| V::Obj(vec![("key".into(), V::s(k)), ("what".into(), V::s(w)), ("case".into(), c.clone())])).collect())),
        (
            "viols".into(),
            V::Arr(
                s.viols
                    .iter()
                    .map(|(k, (w, c))| V::Obj(vec![("key".into(), V::s(k)), ("what".into(), V::s(w)), ("case".into(), c.clone())]))
                    .collect(),
            ),
        ),
    ]);
    std::fs::write(dir.join(format!("out{}", n)), out.print()).unwrap();
}

struct Known {
    property: String,
    key: String,
    what: String,
}

fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(verif().join("known_findings.json")).unwrap_or_else(|_| "{}".into());
    let v = json::parse(&t).expect("known_findings.json");
    let f = |x: &V, k: &str| x.get(k).and_then(|s| s.str()).unwrap_or("").to_string();
    v.get("findings")
        .and_then(|a| a.arr())
        .unwrap_or(&[])
        .iter()
        .map(|x| Known { property: f(x, "property"), key: f(x, "key"), what: f(x, "what") })
        .collect()
}

/// Runs a check; returns the exit code.
pub fn check_main(p: &Prop, command: &str) -> i32 {
    let tier = Tier::of(p.id, command);
    let t0 = Instant::now();
    let root = scratch_root();
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).expect("scratch root");
    own(&root);
    let code = check_in(p, tier, command, &root, t0);
    let _ = std::fs::remove_dir_all(&root);
    code
}

fn check_in(p: &Prop, tier: Tier, command: &str, root: &Path, t0: Instant) -> i32 {
    Map::open(&root.join("shared"), 4096).word(0).store(0, SeqCst);
    let n = p.shards;
    let exe = std::env::current_exe().unwrap();
    let path = std::env::var("PATH").unwrap_or_default();
    let mut kids = vec![];
    for i in 0..n {
        let status = Map::open(&root.join(format!("status{}", i)), SLOT);
        let mut c = std::process::Command::new(&exe);
        c.args(["shard", p.id, tier.name(), &i.to_string(), root.to_str().unwrap()])
            .env_clear()
            .env("PATH", &path)
            .env("TZ", "QQQ7:15")
            .env("MC_VERIF", verif())
            .stdin(std::process::Stdio::null());
        if let Some(v) = std::env::var_os("MC_LOUD") {
            c.env("MC_LOUD", v);
        }
        c.stderr(std::fs::File::create(root.join(format!("err{}", i))).unwrap());
        kids.push((c.spawn().expect("shard"), status, 0u64, Instant::now(), None::<String>));
    }
    // (key, what, case)
    let mut viols: Vec<(String, String, V)> = vec![];
    let mut odd: Vec<(String, String, V)> = vec![];
    let mut broken = None;
    let mut left = n;
    let mut finished = vec![false; n];
    while left > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for i in 0..n {
            if finished[i] {
                continue;
            }
            let (child, status, last, since, _) = &mut kids[i];
            let beat = status.word(0).load(SeqCst);
            if beat != *last {
                *last = beat;
                *since = Instant::now();
            }
            let case = || json::parse(&status.case()).unwrap_or(V::s(&status.case()));
            match child.try_wait().unwrap() {
                Some(st) => {
                    finished[i] = true;
                    left -= 1;
                    if !root.join(format!("out{}", i)).exists() {
                        let e = std::fs::read_to_string(root.join(format!("err{}", i))).unwrap_or_default();
                        let tail: String = e.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
                        if st.code() == Some(77) {
                            broken = Some(format!("shard {}: {}", i, tail));
                        } else {
                            let how = match st.signal() {
                                Some(s) => format!("killed by signal {}", s),
                                None => format!("exited with {:?}", st.code()),
                            };
                            viols.push(("crash".into(), format!("process running the build {}: {}", how, tail.trim()), case()));
                        }
                    }
                }
                None => {
                    if since.elapsed() > Duration::from_secs(p.hang) {
                        viols.push(("hang".into(), format!("no progress for {} s", p.hang), case()));
                        let _ = child.kill();
                        let _ = child.wait();
                        finished[i] = true;
                        left -= 1;
                    }
                }
            }
        }
    }
    let mut states: HashSet<u64> = HashSet::new();
    let (mut blocks, mut cases, mut steps, mut traces, mut nviols) = (0f64, 0f64, 0f64, 0f64, viols.len() as f64);
    let mut classes: BTreeMap<String, f64> = BTreeMap::new();
    let mut samples: Vec<V> = vec![];
    for i in 0..n {
        let Ok(t) = std::fs::read_to_string(root.join(format!("out{}", i))) else { continue };
        let v = json::parse(&t).expect("shard result");
        let num = |k: &str| match v.get(k) {
            Some(V::Num(n)) => *n,
            _ => 0.0,
        };
        blocks = num("blocks");
        cases += num("cases");
        steps += num("steps");
        traces += num("traces");
        nviols += num("nviols");
        if let Some(V::Obj(o)) = v.get("classes") {
            for (k, x) in o {
                if let V::Num(x) = x {
                    *classes.entry(k.clone()).or_default() += x;
                }
            }
        }
        for s in v.get("samples").and_then(|a| a.arr()).unwrap_or(&[]).iter().rev().take(2) {
            samples.push(s.clone());
        }
        for (name, list) in [("viols", &mut viols), ("odd", &mut odd)] {
            for x in v.get(name).and_then(|a| a.arr()).unwrap_or(&[]) {
                list.push((
                    x.get("key").and_then(|s| s.str()).unwrap().into(),
                    x.get("what").and_then(|s| s.str()).unwrap().into(),
                    x.get("case").unwrap().clone(),
                ));
            }
        }
        if let Ok(b) = std::fs::read(root.join(format!("states{}", i))) {
            for c in b.chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    for (k, w, _) in &odd {
        println!("note: {} did not happen again in three more runs: {} {}", p.id, k.chars().take(300).collect::<String>(), w.chars().take(1000).collect::<String>());
    }
    let unconfirmed = odd.len();
    if odd.len() > 2 {
        // too often for an accident
        viols.append(&mut odd);
    }
    let kn = known();
    let mut hit: BTreeMap<String, String> = BTreeMap::new();
    let mut real = vec![];
    for v in viols {
        match kn.iter().find(|k| k.property == p.id && k.key == v.0) {
            Some(k) => {
                hit.insert(k.key.clone(), k.what.clone());
            }
            None => real.push(v),
        }
    }
    for (_, w) in &hit {
        println!("KNOWN-FINDING: property={} {}", p.id, w);
    }
    real.sort_by_key(|v| v.2.print().len());
    samples.truncate(8);
    let num = |n: f64| V::Num(n);
    let exhaustive = broken.is_none();
    let coverage = V::Obj(vec![
        ("states".into(), num(states.len() as f64)),
        ("transitions".into(), num(steps)),
        ("traces_validated_against_impl".into(), num(traces)),
        ("samples".into(), V::Arr(samples)),
        ("exhaustive_within_bounds".into(), V::Bool(exhaustive)),
        ("bounds".into(), V::s(&(p.bounds)(tier))),
        ("cases".into(), num(cases)),
        ("blocks".into(), num(blocks)),
        ("outcome_classes".into(), V::Obj(classes.iter().map(|(k, v)| (k.clone(), num(*v))).collect())),
        ("violating_cases".into(), num(nviols)),
        ("unconfirmed".into(), num(unconfirmed as f64)),
        ("known_findings_seen".into(), num(hit.len() as f64)),
    ]);
    let seed: f64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let ev = V::Obj(vec![
        ("property".into(), V::s(p.id)),
        ("tier".into(), V::s(if command == "thorough" { "thorough" } else { "quick" })),
        ("seed".into(), num(seed)),
        ("level".into(), V::s("model_checking")),
        ("coverage".into(), coverage),
        ("wall_s".into(), num((t0.elapsed().as_millis() as f64) / 1000.0)),
    ]);
    let ed = verif().join("evidence");
    std::fs::create_dir_all(ed.join("replays")).unwrap();
    std::fs::write(ed.join(format!("{}.json", p.id)), ev.print() + "\n").unwrap();
    if let Some(b) = broken {
        println!("check {} could not run: {}", p.id, b);
        return 2;
    }
    if real.is_empty() {
        println!(
            "{}: held on {} cases ({} implementation runs, {} states, {} transitions) in {:.1} s",
            p.id, cases, traces, states.len(), steps, t0.elapsed().as_secs_f64()
        );
        return 0;
    }
    for (i, (k, w, c)) in real.iter().take(12).enumerate() {
        let f = ed.join("replays").join(format!("{}-{}.json", p.id, i));
        let v = V::Obj(vec![("property".into(), V::s(p.id)), ("key".into(), V::s(k)), ("what".into(), V::s(w)), ("case".into(), c.clone())]);
        std::fs::write(&f, v.print() + "\n").unwrap();
        println!("VIOLATION property={} replay={}", p.id, f.display());
        println!("  key {}", k.chars().take(200).collect::<String>());
        println!("  {}", w.chars().take(1200).collect::<String>().replace('\n', "\n  "));
    }
    std::io::stdout().flush().unwrap();
    1
}

pub fn replay_main(p: &Prop, file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let v = json::parse(&t).expect("replay json");
    let c = (p.from_json)(v.get("case").expect("case"));
    quiet_panics();
    let root = scratch_root();
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).expect("scratch root");
    own(&root);
    drop_privileges();
    let mut rt = make_rt(p.id, Tier::Quick, root.join("w0"), 0);
    let o = c.run(&mut rt);
    let _ = std::fs::remove_dir_all(&root);
    match o.viol {
        Some((k, w)) => {
            println!("VIOLATION property={} replay={}\n  key {}\n  {}", p.id, file, k, w);
            1
        }
        None => {
            println!("holds ({:?})", o.class);
            0
        }
    }
}
