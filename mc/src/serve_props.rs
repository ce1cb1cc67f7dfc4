//! The development server: the real `stuart dev`, its watcher on a real project, and clients of its socket.

use crate::build_props::{num, text};
use crate::cli::*;
use crate::cli_props::*;
use crate::core_props::section;
use crate::fault_props::want_env;
use crate::json::V;
use crate::model::Files;
use crate::rt::{hash, verif, Case, Outcome, Rt, Shard, Tier};
use crate::site::ROOT;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::process::Child;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------- the server

/// How long all threads have to be asleep: longer than the 10 ms for which the watcher waits for the second
/// half of a renaming.
const QUIET: Duration = Duration::from_millis(26);
const SAMPLE: Duration = Duration::from_millis(6);
const LIMIT: Duration = Duration::from_secs(20);

pub struct Server {
    child: Child,
    pid: i32,
    port: u16,
    err: PathBuf,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

fn free_port(rt: &Rt) -> u16 {
    for _ in 0..200 {
        let port = (20000 + (rt.shard % 64) * 100 + NEXT.fetch_add(1, SeqCst) % 100) as u16;
        if TcpListener::bind(("127.0.0.1", port)).is_ok() {
            return port;
        }
    }
    eprintln!("no free port");
    std::process::exit(77);
}

impl Server {
    /// Starts the server and waits until it listens, which is after the first build.
    pub fn start(rt: &Rt, cwd: &Path, args: &[&str], root: &Path, env: &[(&str, String)]) -> Result<Server, String> {
        let mut s = Server::spawn(rt, cwd, args, root, env);
        s.listening()?;
        s.idle().map(|_| s)
    }
    fn spawn(rt: &Rt, cwd: &Path, args: &[&str], root: &Path, env: &[(&str, String)]) -> Server {
        let port = free_port(rt);
        // options of the program itself come before the command
        let mut a = if args.contains(&"dev") { vec![] } else { vec!["dev"] };
        a.extend_from_slice(args);
        let mut c = command(rt, cwd, &a);
        c.env("LD_PRELOAD", verif().join("target/fs.so")).env("FS_ROOT", root).env("FS_MAIN", "1").env("FS_PORT", port.to_string());
        for (k, v) in env {
            c.env(k, v);
        }
        let err = rt.scratch.join("server.err");
        c.stdout(std::fs::File::create(rt.scratch.join("server.out")).unwrap()).stderr(std::fs::File::create(&err).unwrap());
        let child = match c.spawn() {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot run {:?}: {}", c, e);
                std::process::exit(77);
            }
        };
        Server { pid: child.id() as i32, child, port, err }
    }
    fn listening(&mut self) -> Result<(), String> {
        let t = Instant::now();
        loop {
            if let Some(x) = self.dead() {
                return Err(x);
            }
            if TcpStream::connect_timeout(&self.addr(), Duration::from_secs(1)).is_ok() {
                return Ok(());
            }
            if t.elapsed() > LIMIT {
                return Err("the server does not accept connections".into());
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    fn addr(&self) -> SocketAddr {
        SocketAddr::from(([127, 0, 0, 1], self.port))
    }
    /// What it has printed so far.
    pub fn printed(&self) -> (String, String) {
        let read = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
        (read(&self.err.with_extension("out")), read(&self.err))
    }
    pub fn dead(&mut self) -> Option<String> {
        match self.child.try_wait() {
            Ok(None) => None,
            s => Some(format!("the server ended with {:?}: {}", s, plain(&String::from_utf8_lossy(&std::fs::read(&self.err).unwrap_or_default())))),
        }
    }
    fn threads(&self) -> Vec<(u32, char, u64, bool)> {
        let mut v = vec![];
        let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", self.pid)) else { return v };
        for e in d.flatten() {
            let tid: u32 = e.file_name().to_string_lossy().parse().unwrap_or(0);
            let s = std::fs::read_to_string(e.path().join("status")).unwrap_or_default();
            let field = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
            let state = field("State:").chars().next().unwrap_or('?');
            let n = |k: &str| field(k).parse::<u64>().unwrap_or(0);
            let kids = std::fs::read_to_string(e.path().join("children")).unwrap_or_default();
            v.push((tid, state, n("voluntary_ctxt_switches:") + n("nonvoluntary_ctxt_switches:"), !kids.trim().is_empty()));
        }
        v.sort();
        v
    }
    /// Waits until nothing happens any more.
    pub fn idle(&mut self) -> Result<(), String> {
        let t = Instant::now();
        let mut last = vec![];
        let mut since = Instant::now();
        loop {
            if let Some(x) = self.dead() {
                return Err(x);
            }
            let now = self.threads();
            let asleep = !now.is_empty() && now.iter().all(|x| x.1 == 'S' && !x.3);
            if !asleep || now != last {
                last = if asleep { now } else { vec![] };
                since = Instant::now();
            } else if since.elapsed() >= QUIET {
                return Ok(());
            }
            if t.elapsed() > LIMIT {
                return Err(format!("the server does not come to rest: threads {:?}, {}", self.threads(), plain(&String::from_utf8_lossy(&std::fs::read(&self.err).unwrap_or_default()))));
            }
            std::thread::sleep(SAMPLE);
        }
    }
    fn stopped(&self) -> bool {
        let t = self.threads();
        !t.is_empty() && t.iter().all(|x| x.1 == 'T')
    }
    pub fn signal(&self, s: i32) {
        unsafe { libc::kill(self.pid, s) };
    }
    pub fn stop(&self) {
        self.signal(libc::SIGSTOP);
        while !self.stopped() {
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    pub fn resume(&self) {
        self.signal(libc::SIGCONT);
    }
    fn sockets(&self) -> usize {
        let Ok(d) = std::fs::read_dir(format!("/proc/{}/fd", self.pid)) else { return 0 };
        d.flatten().filter(|e| std::fs::read_link(e.path()).is_ok_and(|l| l.as_os_str().as_bytes().starts_with(b"socket:"))).count()
    }
    fn request(&self, raw: &[u8]) -> Result<Reply, String> {
        let io = |e: std::io::Error| format!("request {:?}: {}", String::from_utf8_lossy(raw), e);
        let mut s = TcpStream::connect_timeout(&self.addr(), Duration::from_secs(5)).map_err(io)?;
        s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        s.write_all(raw).map_err(io)?;
        let mut b = vec![];
        s.read_to_end(&mut b).map_err(io)?;
        Reply::parse(&b).ok_or_else(|| format!("no response to {:?} but {:?}", String::from_utf8_lossy(raw), String::from_utf8_lossy(&b)))
    }
    pub fn get(&self, uri: &str) -> Result<Reply, String> {
        self.request(format!("GET {} HTTP/1.1\r\nHost: localhost:6904\r\nUser-Agent: x\r\n\r\n", uri).as_bytes())
    }
    fn websocket(&self) -> Result<Client, String> {
        let mut s = TcpStream::connect_timeout(&self.addr(), Duration::from_secs(5)).map_err(|e| format!("connecting a client: {}", e))?;
        s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        s.write_all(b"GET /__ws HTTP/1.1\r\nHost: localhost:6904\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n").map_err(|e| e.to_string())?;
        let mut head = vec![];
        let mut b = [0u8];
        while !head.ends_with(b"\r\n\r\n") {
            match s.read(&mut b) {
                Ok(1) => head.push(b[0]),
                x => return Err(format!("no answer to a client's handshake but {:?} and {:?}", String::from_utf8_lossy(&head), x)),
            }
        }
        let t = String::from_utf8_lossy(&head).to_string();
        if !t.starts_with("HTTP/1.1 101 ") || !t.contains("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") {
            return Err(format!("wrong answer to a client's handshake: {}", t));
        }
        s.set_nonblocking(true).unwrap();
        Ok(Client { s, got: vec![], since: 0 })
    }
}

struct Client {
    s: TcpStream,
    got: Vec<u8>,
    /// successful rebuilds before it connected
    since: usize,
}

const RELOAD: &[u8] = b"\x81\x06reload";

impl Client {
    fn reloads(&mut self) -> Result<usize, String> {
        let mut b = [0u8; 4096];
        loop {
            match self.s.read(&mut b) {
                Ok(0) => return Err(format!("the server closed the connection of a client after {} reloads", self.got.len() / RELOAD.len())),
                Ok(n) => self.got.extend_from_slice(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(e) => return Err(format!("the connection of a client fails: {}", e)),
            }
        }
        let n = self.got.len() / RELOAD.len();
        if self.got != RELOAD.repeat(n) {
            return Err(format!("a client received {:?}", self.got));
        }
        Ok(n)
    }
}

pub struct Reply {
    status: u16,
    heads: BTreeMap<String, String>,
    body: Vec<u8>,
}

impl Reply {
    fn parse(b: &[u8]) -> Option<Reply> {
        let at = b.windows(4).position(|w| w == b"\r\n\r\n")?;
        let t = std::str::from_utf8(&b[..at]).ok()?;
        let mut l = t.split("\r\n");
        let status = l.next()?.strip_prefix("HTTP/1.1 ")?.get(..3)?.parse().ok()?;
        let mut heads = BTreeMap::new();
        for h in l {
            let (k, v) = h.split_once(": ")?;
            if heads.insert(k.to_ascii_lowercase(), v.to_string()).is_some() && k.eq_ignore_ascii_case("content-type") {
                return None;
            }
        }
        // Humphrey ends responses with a line break which is not part of the body
        let n: usize = heads.get("content-length")?.parse().ok()?;
        let (body, rest) = (b.get(at + 4..at + 4 + n)?.to_vec(), &b[at + 4 + n..]);
        if !rest.is_empty() && rest != b"\r\n" {
            return None;
        }
        Some(Reply { status, heads, body })
    }
    fn show(&self) -> String {
        let b = String::from_utf8_lossy(&self.body);
        format!("{} {:?} {:?}", self.status, self.heads, b.chars().take(600).collect::<String>())
    }
}

// ------------------------------------------------------------------------------- what it has to answer

#[derive(Debug, PartialEq)]
enum Answer {
    File(String),
    Redirect,
    Missing,
    /// 404, or what would be there
    Refuse,
    /// not a valid path: anything but a file
    Malformed,
}

fn decode(p: &str) -> Option<Vec<u8>> {
    let b = p.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    Some(o)
}

/// What is at this path of the output, which holds these files.
fn answer(files: &Files, uri: &str, refuse: bool) -> Answer {
    let path = uri.split('?').next().unwrap();
    let Some(d) = decode(path) else { return Answer::Malformed };
    let Ok(d) = String::from_utf8(d) else { return Answer::Missing };
    if refuse && (d.contains("..") || d.contains(':')) {
        return Answer::Refuse;
    }
    let parts: Vec<&str> = d.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    let at = parts.join("/");
    let is_dir = |x: &str| x.is_empty() || files.keys().any(|k| k.starts_with(&format!("{}/", x)));
    if d.ends_with('/') || d.is_empty() {
        let index = if at.is_empty() { "index.html".to_string() } else { format!("{}/index.html", at) };
        return if files.contains_key(&index) { Answer::File(index) } else { Answer::Missing };
    }
    if d.ends_with("/.") || d == "." {
        return if is_dir(&at) { Answer::Redirect } else { Answer::Missing };
    }
    if files.contains_key(&at) {
        Answer::File(at)
    } else if is_dir(&at) {
        Answer::Redirect
    } else {
        Answer::Missing
    }
}

fn mime(name: &str) -> Option<Option<&'static str>> {
    let base = name.rsplit('/').next().unwrap();
    let Some(ext) = Path::new(base).extension().map(|e| e.to_str().unwrap().to_string()) else { return Some(None) };
    if ext != ext.to_lowercase() {
        return None;
    }
    Some(Some(match ext.as_str() {
        "css" => "text/css",
        "html" | "htm" => "text/html",
        "js" | "mjs" => "text/javascript",
        "txt" => "text/plain",
        "bmp" => "image/bmp",
        "gif" => "image/gif",
        "jpeg" | "jpg" => "image/jpeg",
        "png" => "image/png",
        "webp" => "image/webp",
        "svg" => "image/svg+xml",
        "ico" => "image/vnd.microsoft.icon",
        "json" => "application/json",
        "pdf" => "application/pdf",
        "zip" => "application/zip",
        "mp4" => "video/mp4",
        "ogv" => "video/ogg",
        "webm" => "video/webm",
        "ttf" => "font/ttf",
        "otf" => "font/otf",
        "woff" => "font/woff",
        "woff2" => "font/woff2",
        _ => "application/octet-stream",
    }))
}

/// The script of an HTML response, if the rest of it is the file.
fn injected(file: &[u8], body: &[u8]) -> Result<Option<Vec<u8>>, String> {
    let Some(at) = file.windows(7).position(|w| w == b"</body>") else {
        return if file == body { Ok(None) } else { Err("the body is not that of the file".into()) };
    };
    let (pre, post) = (&file[..at], &file[at..]);
    let ok = body.len() > file.len() && body.starts_with(pre) && body.ends_with(post);
    let mid = if ok { &body[at..body.len() - post.len()] } else { b"" };
    match mid.strip_prefix(b"<script>").and_then(|m| m.strip_suffix(b"</script>")) {
        Some(s) if !s.is_empty() && !s.windows(2).any(|w| w == b"</") => Ok(Some(s.to_vec())),
        _ => Err("the reload script is not directly before the first `</body>`".into()),
    }
}

/// Is this the right reply? Returns the reload script in it.
fn check_reply(files: &Files, uri: &str, r: &Reply) -> Result<Option<Vec<u8>>, String> {
    let bad = |w: &str| Err(format!("GET {}: {}: {}", uri, w, r.show()));
    let mut a = answer(files, uri, true);
    if a == Answer::Refuse && r.status != 404 {
        let above = decode(uri.split('?').next().unwrap()).unwrap().split(|b| *b == b'/').any(|c| c == b"..");
        a = if above { Answer::Missing } else { answer(files, uri, false) };
    }
    match a {
        Answer::Missing | Answer::Refuse => match r.status {
            404 if files.values().any(|f| !f.is_empty() && *f == r.body) => bad("a file is served with 404"),
            404 => Ok(None),
            _ => bad("404 expected"),
        },
        Answer::Malformed => match r.status {
            200..=399 => bad("the path is malformed"),
            _ => Ok(None),
        },
        Answer::Redirect => {
            let path = uri.split('?').next().unwrap();
            // where a browser ends up
            let to = r.heads.get("location").map(|s| s.split('?').next().unwrap().to_string()).map(|s| match s.strip_prefix("http://localhost:6904") {
                Some(x) => x.to_string(),
                None if s.starts_with('/') => s,
                None => format!("{}/{}", path.rsplit_once('/').map_or("", |x| x.0), s.strip_prefix("./").unwrap_or(&s)),
            });
            let want = format!("{}/", path);
            let same = to.as_deref() == Some(&want) || path.starts_with("//") && to.as_deref().is_some_and(|t| t.trim_start_matches('/') == want.trim_start_matches('/'));
            if !(301..=308).contains(&r.status) || !same {
                return bad("a redirect with the slash added expected");
            }
            Ok(None)
        }
        Answer::File(f) => {
            if r.status != 200 {
                return bad("a file expected");
            }
            let m = mime(&f);
            if let Some(m) = m {
                if r.heads.get("content-type").map(|s| s.as_str()) != m {
                    return bad(&format!("content type {:?} expected", m));
                }
            }
            let file = &files[&f];
            if m == Some(Some("text/html")) {
                injected(file, &r.body).or_else(|e| bad(&e))
            } else if m.is_none() || *file == r.body {
                Ok(None)
            } else {
                bad("the body is not that of the file")
            }
        }
    }
}

// ------------------------------------------------------------------------------- C23

/// Requests to the server of one project.
struct Requests {
    what: &'static str,
    uris: Vec<String>,
    /// pages as files of the static directory, by name
    pages: Vec<(String, Body)>,
    how: usize,
}

#[derive(Clone)]
enum Body {
    Bytes(Vec<u8>),
    /// this many bytes, with tags after that many and at the end
    Big(usize, usize),
}

impl Body {
    fn get(&self) -> Vec<u8> {
        match self {
            Body::Bytes(b) => b.clone(),
            Body::Big(n, pre) => [vec![b'u'; *pre], b"</body>".to_vec(), vec![b'v'; n - pre], b"</body>w".to_vec()].concat(),
        }
    }
    fn json(&self) -> V {
        match self {
            Body::Bytes(b) => crate::site::bytes_json(b),
            Body::Big(n, pre) => V::Arr(vec![V::Num(*n as f64), V::Num(*pre as f64)]),
        }
    }
    fn from_json(v: &V) -> Body {
        match v.arr() {
            Some(a) => Body::Big(num(Some(&a[0])), num(Some(&a[1]))),
            None => Body::Bytes(crate::site::json_bytes(v)),
        }
    }
}

const EXTENSIONS: [&str; 36] = [
    "css", "html", "htm", "js", "mjs", "txt", "bmp", "gif", "jpeg", "jpg", "png", "webp", "svg", "ico", "json", "pdf", "zip", "mp4", "ogv", "webm", "ttf", "otf", "woff", "woff2", "bin", "xml", "md", "x", "htmlx", "ht", "tml",
    "HTML", "c", "wasm", "html5", "",
];

fn serve_tree() -> Tree {
    let mut t = Tree::base(Conf { strip: Some(false), data: Some(true), meta: Some(true), name: "served".into(), author: None });
    t.add("content/index.html", section("the index"));
    t.add("content/a.html", section("page a"));
    t.add("content/p/index.html", section("index of p"));
    t.add("content/p/b.md", "# B\n");
    t.add("content/p/d.json", "{\"k\": 1}");
    t.add("static/f", b"no extension");
    t.add("static/q/x.html", "q without an index");
    t.add("static/q/r/index.html", "<body>r</body>");
    t.add("static/q/index.htm", "<p>");
    t.add("static/i/index.html/deep.txt", "a directory with the name of an index");
    t.add("static/e f/ä.txt", "ä");
    t.add("static/%41.txt", "percent");
    t.add("static/a+b.txt", "plus");
    t.add("static/w?.txt", "question mark");
    t.add("static/...", "dots");
    t.add("static/c:d.txt", "colon");
    t.add("static/.html", "<body></body>");
    t.add("static/.hidden", "hidden");
    t.add("static/-.html", "<body></body>");
    t.add("static/A/index.html", "<body>capital</body>");
    t.add("static/__ws", "the name of the socket");
    t.add("static/*", "star");
    for e in EXTENSIONS {
        t.add(&format!("static/ext/e.{}", e), format!("{}</body>", e));
    }
    t
}

const HEADERS: [&str; 30] = [
    "User-Agent: Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36", "User-Agent: curl/8.0", "Accept: text/html,application/xhtml+xml,*/*;q=0.8", "Accept: */*", "Accept: application/json", "Accept-Encoding: gzip, deflate, br", "Accept-Language: en", "Accept-Charset: latin1", "Range: bytes=0-1", "Range: bytes=5-",
    "If-None-Match: *", "If-Match: \"x\"", "If-Modified-Since: Fri, 01 Jan 2100 00:00:00 GMT", "If-Unmodified-Since: Thu, 01 Jan 1970 00:00:00 GMT", "Cache-Control: no-cache", "Cache-Control: only-if-cached, max-age=1", "Pragma: no-cache", "Cookie: a=b; c=d", "Referer: http://localhost:6904/p/", "Origin: http://evil.example", "Upgrade-Insecure-Requests: 1",
    "Sec-Fetch-Dest: script", "Sec-Fetch-Mode: no-cors", "X-Requested-With: XMLHttpRequest", "X-Original-URL: /secret.txt", "X-Forwarded-Host: evil.example", "Authorization: Basic eDp5", "Connection: close", "DNT: 1", "Content-Type: text/html",
];

/// Each way of naming a project and its output directory: the working directory, arguments, where the output is.
fn ways(k: usize) -> (&'static str, Vec<&'static str>, &'static str) {
    match k {
        0 => ("p", vec![], "p/dist"),
        1 => ("p", vec!["-o", "../out"], "out"),
        2 => ("", vec!["--manifest-path", "p/stuart.toml"], "p/dist"),
        3 => ("p", vec!["-o", "o/u/t"], "p/o/u/t"),
        4 => ("out2", vec!["--manifest-path", "../p/stuart.toml", "-o", "./o/"], "p/o"),
        5 => ("p/static", vec!["--manifest-path", "../stuart.toml", "--output", "../out/o"], "out/o"),
        6 => ("p", vec!["-o", "ABS"], "abs/o"),
        _ => ("ln", vec!["--manifest-path", "./stuart.toml"], "p/dist"),
    }
}
const WAYS: usize = 8;

impl Case for Requests {
    fn json(&self) -> V {
        V::Obj(vec![
            ("requests".into(), V::Arr(self.uris.iter().map(|u| V::s(u)).collect())),
            ("how".into(), V::Num(self.how as f64)),
            ("what".into(), V::s(self.what)),
            ("pages".into(), V::Arr(self.pages.iter().map(|p| V::Arr(vec![V::s(&p.0), p.1.json()])).collect())),
        ])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { class: Some(self.what), ..Default::default() };
        let w = rt.scratch.join("w");
        remove(&w);
        let p = w.join("p");
        for d in ["p/o/u", "out2", "abs", "out"] {
            std::fs::create_dir_all(w.join(d)).unwrap();
        }
        std::os::unix::fs::symlink("p", w.join("ln")).unwrap();
        let mut t = serve_tree();
        for (k, d) in &self.pages {
            t.add(&format!("static/{}", k), d.get());
        }
        t.write(&p);
        // things which must not be served
        put(&w, "secret.txt", b"secret");
        put(&p, "secret.txt", b"secret");
        let (cwd, args, out) = ways(self.how);
        let abs = w.join("abs/o").display().to_string();
        let args: Vec<&str> = args.iter().map(|a| if *a == "ABS" { abs.as_str() } else { a }).collect();
        let key = || V::Obj(vec![("requests".into(), V::Arr(vec![])), ("how".into(), V::Num(self.how as f64))]).print();
        let mut s = match Server::start(rt, &w.join(cwd), &args, &w, &[]) {
            Ok(s) => s,
            Err(e) => {
                o.viol = Some((key(), e));
                return o;
            }
        };
        let Want::Ok(e) = want_env(&t, "development") else { panic!("the model cannot build the project") };
        if let Some(x) = check_output(&e, &snapshot(&w.join(out))) {
            o.viol = Some((key(), format!("the output of the server's first build: {}", x)));
            return o;
        }
        let mut script = None;
        for u in &self.uris {
            o.traces += 1;
            o.steps += 1;
            // what follows the path are headers
            let (uri, headers) = u.split_once('\n').unwrap_or((u, ""));
            let r = match headers {
                "" => s.get(uri),
                h => s.request(format!("GET {} HTTP/1.1\r\nHost: localhost:6904\r\n{}\r\n\r\n", uri, h.replace('\n', "\r\n")).as_bytes()),
            };
            let r = r.and_then(|r| {
                o.states.push(hash(&[r.status.to_string().as_bytes(), &r.body[..]].concat()));
                check_reply(&e.files, uri, &r)
            });
            let bad = match r {
                Ok(Some(x)) if script.is_none() => {
                    script = Some(x);
                    None
                }
                Ok(Some(x)) if script != Some(x.clone()) => Some(format!("GET {}: another script than before", u)),
                Ok(_) => None,
                Err(e) => Some(e),
            };
            if let Some(b) = bad.or_else(|| s.dead()) {
                o.viol = Some((u.clone(), b));
                return o;
            }
            if o.traces % 64 == 0 {
                rt.beat();
            }
        }
        if let Some(x) = script.and_then(|x| try_script(&x, rt)) {
            o.viol = Some(("script".into(), x));
        }
        o
    }
}

/// What the reload script does in a browser: one connection to the server's socket, a reload for every message
/// and none without.
fn try_script(s: &[u8], rt: &Rt) -> Option<String> {
    ["0", "1"].iter().find_map(|hidden| try_script_in(s, rt, hidden))
}

fn try_script_in(s: &[u8], rt: &Rt, hidden: &str) -> Option<String> {
    let f = rt.scratch.join("script.js");
    std::fs::write(&f, s).unwrap();
    let test = "const vm=require('vm'),fs=require('fs'),hide=process.argv[2]==='1';let n=0,socks=[];\
        class EV{constructor(){this.h={}}addEventListener(k,f){(this.h[k]=this.h[k]||[]).push(f)}fire(k,e){if(this['on'+k])this['on'+k](e);for(const f of this.h[k]||[])f(e)}}\
        class WebSocket extends EV{constructor(u){super();this.url=String(u);socks.push(this)}send(){}close(){}}\
        const location={host:'h.example:1234',hostname:'h.example',port:'1234',protocol:'http:',origin:'http://h.example:1234',href:'http://h.example:1234/a/',pathname:'/a/',reload(){n++}};\
        const document=new EV();document.location=location;document.readyState='complete';document.hidden=hide;document.visibilityState=hide?'hidden':'visible';document.hasFocus=()=>!hide;\
        const g={WebSocket,location,document,console,URL,setTimeout:(f)=>f(),setInterval(){},addEventListener(){}};g.window=g;g.self=g;g.globalThis=g;\
        vm.runInNewContext(fs.readFileSync(process.argv[1],'utf8'),g);\
        const out=[socks.map(s=>s.url).join(',')];out.push(n);\
        for(const s of socks)s.fire('open',{});out.push(n);\
        for(const s of socks)s.fire('message',{data:'reload'});out.push(n);\
        for(const s of socks)s.fire('message',{data:'reload'});out.push(n>1);\
        console.log(out.join(' '));";
    let out = std::process::Command::new("node").args(["-e", test]).arg(&f).arg(hidden).env_clear().env("PATH", "/usr/local/bin:/usr/bin:/bin").output();
    match out {
        Err(e) => {
            eprintln!("cannot run node: {}", e);
            std::process::exit(77);
        }
        Ok(o) => {
            let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
            (t != "ws://h.example:1234/__ws 0 0 1 true").then(|| format!("the reload script does not reload upon messages from the server: {:?} {}", t, String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>()))
        }
    }
}

fn alphabet() -> Vec<&'static str> {
    vec![
        "", ".", "..", "index.html", "a.html", "a", "p", "q", "b.html", "d.json", "f", "r", "x.html", "i", "A", "e%20f", "%C3%A4.txt", "%70", "%2e%2e", "%2E", "p%2Fb.html", "%2541.txt", "%41.txt", "a+b.txt", "a%2Bb.txt",
        "w%3F.txt", "c:d.txt", "c%3Ad.txt", "...", "secret.txt", ".html", ".hidden", "-.html", "%00", "f%00", "%", "%4", "%zz", "%+1", "%ff", "*", "__ws", "dist", "content", "stuart.toml", "metadata.json", "INDEX.HTML", "~", "p?a=1", "a.html?/x", "%5C", "\\",
    ]
}

/// All paths of at most `n` segments.
fn uris(n: usize, a: &[&str]) -> Vec<String> {
    let mut all = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for c in &cur {
            for x in a {
                next.push(format!("{}/{}", c, x));
            }
        }
        all.extend(next.iter().cloned());
        cur = next;
    }
    all
}

pub fn c23_json(v: &V) -> Box<dyn Case> {
    if v.get("history").is_some() {
        return Box::new(Watch::from_json(v));
    }
    let pages = v.get("pages").and_then(|a| a.arr()).unwrap_or(&[]).iter().map(|p| (p.arr().unwrap()[0].str().unwrap().to_string(), Body::from_json(&p.arr().unwrap()[1]))).collect();
    Box::new(Requests { what: "replay", uris: v.get("requests").unwrap().arr().unwrap().iter().map(|u| u.str().unwrap().to_string()).collect(), pages, how: num(v.get("how")) })
}

pub fn c23(sh: &mut Shard) {
    let t = sh.tier;
    // paths
    let a = alphabet();
    let mut all = uris(2, &a);
    let small = ["", ".", "..", "index.html", "p", "q", "r", "%2e%2e", "secret.txt", "b.html", "i", "deep.txt", "p%2F", "a.html"];
    all.extend(uris(t.pick(4, 5), &small));
    all.extend(EXTENSIONS.iter().map(|e| format!("/ext/e.{}", e)));
    for b in 0..=255u32 {
        for f in ["/%{}", "/p%{}", "/%{}p", "/p/%{}", "/a.html%{}"] {
            all.push(f.replace("{}", &format!("{:02x}", b)));
            all.push(f.replace("{}", &format!("{:02X}", b)));
        }
    }
    if t != Tier::Quick {
        all.extend(uris(3, &a));
    }
    all.sort();
    all.dedup();
    for c in all.chunks(t.pick(700, 4000)) {
        sh.one(&Requests { what: "paths", uris: c.to_vec(), pages: vec![], how: 0 });
    }
    // headers make no difference
    let mut all = vec![];
    for u in ["/", "/p", "/p/", "/a.html", "/deep.txt", "/p/deep.txt", "/q/", "/missing", "/%2e%2e/secret.txt", "/a.html?x=1", "/ext/e.css", "/ext/e.html", "/secret.txt"] {
        for h in HEADERS {
            all.push(format!("{}\n{}", u, h));
            for g in HEADERS {
                if g != h && (t != Tier::Quick || u == "/a.html" || u == "/deep.txt") {
                    all.push(format!("{}\n{}\n{}", u, h, g));
                }
            }
        }
        for n in [10usize, 50, 100, 300] {
            all.push(format!("{}\n{}", u, (0..n).map(|i| format!("X-Header-{}: {}", i, i)).collect::<Vec<_>>().join("\n")));
            all.push(format!("{}\nX-Long: {}", u, "x".repeat(n * 20)));
        }
    }
    for c in all.chunks(t.pick(700, 4000)) {
        sh.one(&Requests { what: "headers", uris: c.to_vec(), pages: vec![], how: 0 });
    }
    let few = uris(2, &["", ".", "..", "index.html", "p", "q", "secret.txt", "dist", "a.html", "%2e%2e"]);
    for how in 0..WAYS {
        sh.one(&Requests { what: "output directories", uris: few.clone(), pages: vec![], how });
    }
    // bodies
    let toks: [&[u8]; 9] = [b"</body>", b"<body>", b"</BODY>", b"</bod", b"y>", b"<", b"x", b"\xff", b"</body >"];
    let mut bodies: Vec<Vec<u8>> = vec![vec![]];
    let mut cur = bodies.clone();
    for _ in 0..t.pick(5, 6) {
        cur = cur.iter().flat_map(|c| toks.iter().map(|x| [&c[..], x].concat())).collect();
        bodies.extend(cur.iter().cloned());
    }
    bodies.sort();
    bodies.dedup();
    // every byte at the beginning, at the end and next to the tag
    for b in 0..=255u8 {
        for x in [&b"@"[..], b"@@", b"@@@", b"@x", b"@@x", b"@@@x", b"x@", b"x@@", b"x@@@", b"x@x", b"x@@x", b"@</body>@", b"x@@</body>@@", b"@\n", b"\n@", b"@@</html>@@"] {
            bodies.push(x.iter().map(|c| if *c == b'@' { b } else { *c }).collect());
        }
    }
    for x in [&b"\xef\xbb\xbf"[..], b"\xef\xbb\xbfx", b"\xff\xfex\0", b"\xfe\xff\0x", b"\x1f\x8b\x08\0\0", b"%PDF-1.4\n", b"GIF89a\0", b"\x89PNG\r\n\x1a\n", b"\r\n\r\n", b"HTTP/1.1 404 Not Found\r\n\r\n", b"0\r\n\r\n", b"<!DOCTYPE html>"] {
        bodies.push(x.to_vec());
        bodies.push([x, b"</body>", x].concat());
    }
    let mut bodies: Vec<Body> = bodies.into_iter().map(Body::Bytes).collect();
    // positions relative to buffer sizes
    for n in [1000usize, 1023, 1024, 1025, 4095, 8185, 8191, 8192, 65535, 65536, 1 << 20, 9_000_000] {
        for pre in [0, 1, n / 2, n.saturating_sub(1), n] {
            bodies.push(Body::Big(n, pre));
        }
    }
    for n in crate::ladders::lengths(t) {
        for pre in [0, n / 2, n] {
            bodies.push(Body::Big(n, pre));
        }
    }
    let per = t.pick(400, 2000);
    for (c, chunk) in bodies.chunks(per).enumerate() {
        let ext = |i: usize| ["html", "htm", "txt", "html"][(c + i) % 4];
        let pages: Vec<(String, Body)> = chunk.iter().enumerate().map(|(i, b)| (format!("z/{}.{}", i, ext(i)), b.clone())).collect();
        let uris = pages.iter().map(|p| format!("/{}", p.0)).collect();
        sh.one(&Requests { what: "bodies", uris, pages, how: 0 });
    }
    // deep directories, long names, many files
    let mut pages = vec![];
    let mut uris = vec![];
    for n in crate::ladders::counts(t) {
        if n > 300 {
            continue;
        }
        let d = "d/".repeat(n);
        let name = "n".repeat(n.min(240) + 1);
        let esc = "%6e".repeat(n.min(240) + 1);
        for x in ["index.html", "x.css"] {
            pages.push((format!("deep/{}{}", d, x), Body::Bytes(format!("{} {}</body>", x, n).into_bytes())));
        }
        pages.push((format!("long/{}.html", name), Body::Bytes(format!("long {}</body>", n).into_bytes())));
        uris.extend([format!("/deep/{}", d), format!("/deep/{}", d.trim_end_matches('/')), format!("/deep/{}x.css", d), format!("/deep/{}none", d), format!("/long/{}.html", name), format!("/long/{}.html", esc), format!("/long/{}", name), format!("/{}a.html", "./".repeat(n)), format!("/{}a.html", "p/../".repeat(n)), format!("/{}", "../".repeat(n)), format!("{}a.html", "/".repeat(n + 1)), format!("/a.html?{}", "q".repeat(n))]);
    }
    for c in uris.chunks(100) {
        sh.one(&Requests { what: "sizes", uris: c.to_vec(), pages: pages.clone(), how: 0 });
    }
    // characters in names and in bodies
    let named: Vec<char> = crate::chars::few(t).into_iter().filter(|c| !matches!(c, '/' | '\0' | '.')).collect();
    for chunk in named.chunks(t.pick(64, 256)) {
        let mut pages = vec![];
        let mut uris = vec![];
        for c in chunk {
            let mut u = [0u8; 4];
            let enc: String = c.encode_utf8(&mut u).bytes().map(|b| format!("%{:02x}", b)).collect();
            for (name, uri) in [(format!("chr/x{c}y.html"), format!("/chr/x{enc}y.html")), (format!("chr/{c}.txt"), format!("/chr/{enc}.txt")), (format!("chr/{c}/index.html"), format!("/chr/{enc}/")), (format!("chr/n{c}"), format!("/chr/n{}", enc.to_uppercase()))] {
                pages.push((name.clone(), Body::Bytes(format!("{} {}</body>", name, c).into_bytes())));
                uris.extend([uri.trim_end_matches('/').to_string(), format!("{}/", uri), format!("{}x", uri), uri]);
            }
        }
        sh.one(&Requests { what: "characters in names", uris, pages, how: 0 });
    }
    let mut pages = vec![];
    for (i, b) in crate::chars::blocks(t).into_iter().enumerate() {
        let x: String = b.into_iter().collect();
        for (k, ext) in ["html", "txt", "css", "htm"].into_iter().enumerate() {
            pages.push((format!("blk/{}.{}", i, ext), Body::Bytes(if k == 3 { x.clone() } else { format!("{x}</body>{x}") }.into_bytes())));
        }
    }
    for c in pages.chunks(200) {
        sh.one(&Requests { what: "characters in bodies", uris: c.iter().map(|p| format!("/{}", p.0)).collect(), pages: c.to_vec(), how: 0 });
    }
    let mut uris = vec![];
    for n in crate::ladders::counts(t) {
        if n <= 300 {
            uris.extend([format!("/{}", "%".repeat(n)), format!("/p{}", "/".repeat(n)), format!("/p{}b.html", "/".repeat(n)), format!("/p/{}", "%2e".repeat(n)), format!("/{}", "%2f".repeat(n))]);
        }
    }
    sh.one(&Requests { what: "repeated", uris, pages: vec![], how: 0 });
    // what is served after rebuilds
    let ops = ["page", "write", "rewrite", "md", "move", "dir", "sub", "deep", "static", "sdir", "root", "data", "away", "broken"].map(op);
    for a in ops {
        for b in ops {
            sh.one(&Watch { groups: vec![vec![a], vec![b], vec![a]], how: 0, start: 0, clients: 0 });
        }
    }
}

pub fn c23_bounds(t: Tier) -> String {
    format!(
        "GET requests over TCP to the real server (its port changed below it): all paths of <= {} segments over an alphabet of {} segments (existing, missing, dotted, encoded, malformed ones), all of <= {} segments over 14 of them, every byte percent-encoded at 5 places, every extension of the MIME table and others; pairs of 30 headers, many and long ones; {} ways of naming project and output directory; all bodies of <= {} pieces of 9 (complete, partial, capital body tags, non-UTF-8), every byte at the beginning and the end, and tags at {} offsets in files of up to 9 MB; {} characters in names of files and directories, every scalar value in bodies; names, depths and numbers of up to 300; the reload script run against a stand-in of a browser; histories of 3 edits of 14 kinds with a request for every file after each rebuild",
        t.pick(2, 3),
        alphabet().len(),
        t.pick(4, 5),
        WAYS,
        t.pick(5, 6),
        60,
        crate::chars::few(t).len()
    )
}

// ------------------------------------------------------------------------------- C24: the watched project

/// What can happen to the project or the clients while the server runs.
const OPS: [&str; 34] = [
    "page",    // another file is renamed over a page
    "write",   // a page changes in place, in one write of the same length
    "rewrite", // a page is truncated and written again
    "md",      // a file appears and disappears
    "move",    // a page gets another name
    "dir",     // a directory with files appears and disappears
    "sub",     // a file in this directory appears or changes; an empty directory if there is none
    "deep",    // directories are made one by one
    "broken",  // the project cannot be built any more, or again
    "static",  // a file of the static directory changes
    "sdir",    // a directory in it appears and disappears
    "root",    // the template changes
    "data",    // a data file changes
    "away",    // the content directory disappears and appears
    "touch",   // a page is touched
    "readme",  // a file next to the manifest changes
    "odd",     // so does one whose name is not UTF-8
    "dist",    // the output directory is tampered with
    "junk",    // a file appears in it
    "meta",    // metadata.json is touched
    "temp",    // an empty directory temp is made and removed
    "toml",    // the manifest is touched
    "many",    // hundreds of files change
    "lost",    // more events than the queue holds precede the change of a page
    "post",    // the post-build script fails, or does not any more
    "connect", // a client connects
    "close",   // the oldest client closes its connection
    "last",    // the newest client does
    "reset",   // the oldest client resets its connection
    "half",    // the newest client will not send any more
    "noise",   // the newest client sends something odd
    "knock",   // somebody connects and leaves without a request
    "gate",    // a page changes while the pre-build script of a rebuild for another one runs
    "late",    // a client connects while a rebuild runs
];

fn snap(p: &Path) -> Files {
    if p.exists() {
        snapshot(p)
    } else {
        Files::new()
    }
}

fn op(name: &str) -> usize {
    OPS.iter().position(|o| *o == name).expect("operation")
}

#[derive(Clone)]
struct Watch {
    /// groups of operations; the server sees those of a group all at once
    groups: Vec<Vec<usize>>,
    /// where the output directory is
    how: usize,
    /// what the server starts with: 0 a project, 1 one which cannot be built, 2 none of the files
    start: usize,
    /// clients before the first operation
    clients: usize,
}

const PRE: &str = "w=${STUART_MANIFEST_DIR%/*}\necho pre >> \"$w/log\"\n[ -p \"$w/gate\" ] && read x < \"$w/gate\"\nmkdir \"$STUART_TEMP_DIR\" && echo t > \"$STUART_TEMP_DIR/t.txt\"\n";
const POST: &str = "w=${STUART_MANIFEST_DIR%/*}\n[ -p \"$w/gate2\" ] && read x < \"$w/gate2\"\n[ -e \"$w/nopost\" ] && exit 1\necho post >> \"$w/log\"\n";

fn watched() -> Tree {
    let mut t = Tree::base(Conf { strip: None, data: Some(true), meta: Some(true), name: "watched".into(), author: None });
    t.add("content/index.html", section("{{ for($f, \"list/\") }}{{ $f.k }},{{ end(for) }}<body>index</body>"));
    t.add("content/a.html", section("<body>page 0000</body>"));
    t.add("content/b.html", section("<body>other page 0000</body>"));
    t.add("content/list/l.md", "---\nk: \"0\"\n---\nl\n");
    t.add("content/d.json", "{\"v\": 0}");
    t.add("static/s.txt", "s 0");
    t.add("temp/t.txt", "t\n");
    t
}

struct World<'a> {
    rt: &'a Rt,
    w: PathBuf,
    p: PathBuf,
    out: PathBuf,
    t: Tree,
    /// files of the content directory while it is away
    away: Option<Files>,
    away_dirs: Vec<String>,
    nopost: bool,
    n: usize,
    clients: Vec<Client>,
    /// output and metadata of the last build that got as far
    last: Option<Expect>,
    server: Option<Server>,
    /// posts of the log at the start, when nobody can have been connected
    seen: (usize, usize),
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Edit,
    Neutral,
    Ignored,
}

impl World<'_> {
    fn new(rt: &Rt, how: usize) -> World<'_> {
        let w = rt.scratch.join("w");
        remove(&w);
        let p = w.join("p");
        for d in ["p/o/u", "out2", "abs", "out", "stage"] {
            std::fs::create_dir_all(w.join(d)).unwrap();
        }
        std::os::unix::fs::symlink("p", w.join("ln")).unwrap();
        let mut t = watched();
        let temp = std::mem::take(&mut t.temp);
        t.write(&p);
        t.temp = temp;
        put(&p, "scripts/onPreBuild.sh", PRE.as_bytes());
        put(&p, "scripts/onPostBuild.sh", POST.as_bytes());
        put(&p, "README.md", b"0");
        put(&w, "log", b"");
        let out = w.join(ways(how).2);
        World { rt, w, p, out, t, away: None, away_dirs: vec![], nopost: false, n: 0, clients: vec![], last: None, server: None, seen: (0, 0) }
    }
    fn start(&mut self, how: usize, env: &[(&str, String)]) -> Result<(), String> {
        let (cwd, args, _) = ways(how);
        let abs = self.w.join("abs/o").display().to_string();
        let args: Vec<&str> = args.iter().map(|a| if *a == "ABS" { abs.as_str() } else { a }).collect();
        self.server = Some(Server::start(self.rt, &self.w.join(cwd), &args, &self.w, env)?);
        Ok(())
    }
    fn s(&mut self) -> &mut Server {
        self.server.as_mut().unwrap()
    }
    /// How many builds were started and how many ended well.
    fn log(&self) -> (usize, usize) {
        let t = std::fs::read_to_string(self.w.join("log")).unwrap_or_default();
        (t.lines().filter(|l| *l == "pre").count(), t.lines().filter(|l| *l == "post").count())
    }
    fn stage(&mut self, f: &str, d: &[u8]) {
        put(&self.w, "stage/x", d);
        std::fs::rename(self.w.join("stage/x"), self.p.join(f)).unwrap();
        self.t.add(f, d);
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("{:04}", self.n)
    }
    fn want(&self) -> Want {
        want_env(&self.t, "development")
    }
    /// Carries out one operation. Those on files change the project by a single system call, unless the server
    /// is stopped meanwhile.
    fn act(&mut self, name: &str, stopped: bool) -> Result<Kind, String> {
        use std::os::unix::fs::PermissionsExt;
        let p = self.p.clone();
        let chmod = |f: &Path| {
            if let Ok(m) = std::fs::symlink_metadata(f) {
                std::fs::set_permissions(f, std::fs::Permissions::from_mode(m.permissions().mode() ^ 0o001)).unwrap();
            }
        };
        let has_content = self.away.is_none();
        let on_content = ["page", "write", "rewrite", "md", "move", "dir", "sub", "deep", "broken", "root", "data", "touch", "lost", "gate", "late"];
        if !has_content && on_content.contains(&name) {
            return Ok(Kind::Ignored);
        }
        match name {
            "page" => {
                let d = section(&format!("<body>page {}</body>", self.fresh()));
                self.stage("content/a.html", d.as_bytes());
            }
            "write" => {
                let d = section(&format!("<body>other page {}</body>", self.fresh()));
                use std::os::unix::fs::FileExt;
                let f = std::fs::OpenOptions::new().write(true).open(p.join("content/b.html")).unwrap();
                f.write_at(d.as_bytes(), 0).unwrap();
                self.t.add("content/b.html", d);
            }
            "rewrite" => {
                let d = section(&format!("<body>rewritten page {} {}</body>", self.n, "x".repeat(self.n % 7)));
                self.n += 1;
                put(&p, "content/a.html", d.as_bytes());
                self.t.add("content/a.html", d);
            }
            "md" => {
                if self.t.files.remove("content/list/m.md").is_some() {
                    std::fs::remove_file(p.join("content/list/m.md")).unwrap();
                } else {
                    let d = format!("---\nk: \"{}\"\n---\nm\n", self.fresh());
                    self.stage("content/list/m.md", d.as_bytes());
                }
            }
            "move" => {
                let (a, b) = if self.t.files.contains_key("content/list/l.md") { ("content/list/l.md", "content/list/k.md") } else { ("content/list/k.md", "content/list/l.md") };
                std::fs::rename(p.join(a), p.join(b)).unwrap();
                let d = self.t.files.remove(a).unwrap();
                self.t.files.insert(b.into(), d);
            }
            "dir" => {
                if p.join("content/dir").exists() {
                    remove(&self.w.join("stage/gone"));
                    std::fs::rename(p.join("content/dir"), self.w.join("stage/gone")).unwrap();
                    self.t.files.retain(|k, _| !k.starts_with("content/dir/"));
                    self.t.dirs.retain(|k| !k.starts_with("content/dir"));
                } else {
                    remove(&self.w.join("stage/dir"));
                    put(&self.w, "stage/dir/x.html", section("<body>x</body>").as_bytes());
                    put(&self.w, "stage/dir/e/y.txt", b"y");
                    std::fs::rename(self.w.join("stage/dir"), p.join("content/dir")).unwrap();
                    self.t.add("content/dir/x.html", section("<body>x</body>"));
                    self.t.add("content/dir/e/y.txt", "y");
                }
            }
            "sub" => {
                if p.join("content/dir").exists() {
                    let n = self.fresh();
                    let f = if self.n % 2 == 1 && p.join("content/dir/e").exists() { "content/dir/e/y.txt" } else { "content/dir/x.html" };
                    let d = if f.ends_with("txt") { n } else { section(&format!("<body>x {}</body>", n)) };
                    self.stage(f, d.as_bytes());
                } else {
                    std::fs::create_dir(p.join("content/dir")).unwrap();
                    self.t.dirs.push("content/dir".into());
                }
            }
            "deep" => {
                let mut d = "content/deep".to_string();
                while p.join(&d).exists() {
                    d.push_str("/d");
                }
                std::fs::create_dir(p.join(&d)).unwrap();
                self.t.dirs.push(d.clone());
                if stopped {
                    put(&p, &format!("{}/f.txt", d), b"f");
                    self.t.add(&format!("{}/f.txt", d), "f");
                }
            }
            "broken" => {
                if self.t.files.remove("content/z.html").is_some() {
                    std::fs::remove_file(p.join("content/z.html")).unwrap();
                } else {
                    self.stage("content/z.html", b"{{ $broken }}");
                }
            }
            "static" => {
                let d = format!("s {}", self.fresh());
                self.stage("static/s.txt", d.as_bytes());
            }
            "sdir" => {
                if p.join("static/dir").exists() {
                    remove(&self.w.join("stage/gone"));
                    std::fs::rename(p.join("static/dir"), self.w.join("stage/gone")).unwrap();
                    self.t.files.retain(|k, _| !k.starts_with("static/dir/"));
                } else {
                    put(&self.w, "stage/dir2/x/y.css", b"y");
                    std::fs::rename(self.w.join("stage/dir2"), p.join("static/dir")).unwrap();
                    self.t.add("static/dir/x/y.css", "y");
                }
            }
            "root" => {
                let d = format!("<{}>{}", self.fresh(), ROOT);
                self.stage("content/root.html", d.as_bytes());
            }
            "data" => {
                let d = format!("{{\"v\": 1{}}}", self.fresh());
                self.stage("content/d.json", d.as_bytes());
            }
            "away" => {
                match self.away.take() {
                    None => {
                        std::fs::rename(p.join("content"), self.w.join("stage/content")).unwrap();
                        let c = only(&self.t.files, |k| k.starts_with("content/"));
                        self.t.files.retain(|k, _| !k.starts_with("content/"));
                        self.away_dirs = std::mem::take(&mut self.t.dirs);
                        self.away = Some(c);
                    }
                    Some(c) => {
                        std::fs::rename(self.w.join("stage/content"), p.join("content")).unwrap();
                        self.t.files.extend(c);
                        self.t.dirs = std::mem::take(&mut self.away_dirs);
                    }
                };
            }
            "touch" => {
                chmod(&p.join("content/a.html"));
                return Ok(Kind::Neutral);
            }
            "readme" => {
                let d = self.fresh();
                put(&self.w, "stage/x", d.as_bytes());
                std::fs::rename(self.w.join("stage/x"), p.join("README.md")).unwrap();
                return Ok(Kind::Neutral);
            }
            "odd" => {
                let f = p.join(std::ffi::OsStr::from_bytes(b"odd\xff"));
                if f.exists() {
                    std::fs::remove_dir(f).unwrap();
                } else {
                    std::fs::create_dir(f).unwrap();
                }
                return Ok(Kind::Neutral);
            }
            "dist" => {
                // files which the next build replaces, as nothing says when it has to come
                if self.out.is_dir() {
                    for f in ["tampered", "s.txt.old"] {
                        put(&self.out, f, b"tampered");
                        std::fs::remove_file(self.out.join(f)).unwrap();
                    }
                    std::fs::create_dir(self.out.join("tampered")).unwrap();
                    std::fs::remove_dir(self.out.join("tampered")).unwrap();
                    chmod(&self.out);
                }
                return Ok(Kind::Ignored);
            }
            "junk" => {
                if let Some(e) = &mut self.last {
                    if self.out.is_dir() {
                        put(&self.out, "junk", b"junk");
                        e.files.insert("junk".into(), b"junk".to_vec());
                    }
                }
                return Ok(Kind::Ignored);
            }
            "meta" => {
                chmod(&p.join("metadata.json"));
                return Ok(Kind::Ignored);
            }
            "temp" => {
                std::fs::create_dir(p.join("temp")).unwrap();
                std::fs::remove_dir(p.join("temp")).unwrap();
                return Ok(Kind::Ignored);
            }
            "toml" => {
                chmod(&p.join("stuart.toml"));
                return Ok(Kind::Neutral);
            }
            "many" => {
                let n = self.fresh();
                for i in 0..if stopped { 120 } else { 1 } {
                    let f = format!("static/many/{}.txt", i);
                    if i == 0 && !p.join("static/many").exists() {
                        std::fs::create_dir(p.join("static/many")).unwrap();
                        if !stopped {
                            break;
                        }
                    }
                    self.stage(&f, n.as_bytes());
                }
            }
            "lost" => {
                let max: usize = std::fs::read_to_string("/proc/sys/fs/inotify/max_queued_events").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(16384);
                put(&p, "metadata.json", &std::fs::read(p.join("metadata.json")).unwrap_or_default());
                if max <= 100_000 && stopped {
                    std::fs::create_dir(p.join("temp")).unwrap();
                    for i in 0..max + 200 {
                        chmod(&p.join(if i % 2 == 0 { "temp" } else { "metadata.json" }));
                    }
                    std::fs::remove_dir(p.join("temp")).unwrap();
                }
                self.rt.beat();
                let d = section(&format!("<body>after the loss {}</body>", self.fresh()));
                self.stage("content/a.html", d.as_bytes());
            }
            "post" => {
                // the script's own file is outside of the project
                self.nopost = !self.nopost;
                if self.nopost {
                    put(&self.w, "nopost", b"");
                } else {
                    std::fs::remove_file(self.w.join("nopost")).unwrap();
                }
                if has_content {
                    let d = section(&format!("<body>page {}</body>", self.fresh()));
                    self.stage("content/a.html", d.as_bytes());
                } else {
                    return Ok(Kind::Ignored);
                }
            }
            "connect" => {
                let n = self.log().1;
                if !stopped {
                    let mut c = self.s().websocket()?;
                    c.since = n;
                    self.clients.push(c);
                }
                return Ok(Kind::Ignored);
            }
            "close" | "last" | "reset" => {
                if !self.clients.is_empty() {
                    let at = if name == "last" { self.clients.len() - 1 } else { 0 };
                    let c = self.clients.remove(at);
                    if name == "reset" {
                        let l = libc::linger { l_onoff: 1, l_linger: 0 };
                        unsafe { libc::setsockopt(c.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32) };
                    }
                }
                return Ok(Kind::Ignored);
            }
            "half" => {
                if let Some(c) = self.clients.last() {
                    let _ = c.s.shutdown(std::net::Shutdown::Write);
                }
                return Ok(Kind::Ignored);
            }
            "noise" => {
                if let Some(c) = self.clients.last_mut() {
                    let _ = c.s.write(b"\x81\xffGET / HTTP/1.1\r\n\r\n\x88\x00\xff\xff");
                }
                return Ok(Kind::Ignored);
            }
            "knock" => {
                let _ = TcpStream::connect_timeout(&self.s().addr(), Duration::from_secs(5));
                return Ok(Kind::Ignored);
            }
            "gate" | "late" => {
                if stopped {
                    return self.act("page", stopped);
                }
                let gate = self.w.join("gate");
                let c = std::ffi::CString::new(gate.as_os_str().as_bytes()).unwrap();
                unsafe { libc::mkfifo(c.as_ptr(), 0o666) };
                let builds = self.log().0;
                self.act("write", false)?;
                let t = Instant::now();
                let mut bad = None;
                while self.log().0 == builds && bad.is_none() {
                    std::thread::sleep(Duration::from_millis(1));
                    if let Some(e) = self.s().dead() {
                        bad = Some(e);
                    } else if t.elapsed() > LIMIT {
                        bad = Some("no rebuild after a change".into());
                    }
                }
                let posts = self.log().1;
                if bad.is_none() {
                    if name == "gate" {
                        self.act("page", false)?;
                        self.act("static", false)?;
                    } else {
                        let mut c = self.s().websocket()?;
                        c.since = posts;
                        self.clients.push(c);
                    }
                    // the old version is served until the new one is there, and nobody is told to reload too early
                    std::thread::sleep(Duration::from_millis(5));
                    for (i, c) in self.clients.iter_mut().enumerate() {
                        let n = c.reloads()?;
                        if n > posts - c.since {
                            bad = Some(format!("client {} is told to reload during the rebuild", i));
                        }
                    }
                }
                // opening for reading too does not block if the script is gone
                let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&gate).unwrap();
                std::fs::remove_file(&gate).unwrap();
                f.write_all(b"\n\n\n\n").unwrap();
                if let Some(b) = bad {
                    return Err(b);
                }
                self.s().idle()?;
            }
            _ => panic!("operation {}", name),
        }
        Ok(Kind::Edit)
    }
    /// Is everything as it should be, now that the server is idle?
    fn check(&mut self, kinds: &[Kind]) -> Result<(), String> {
        if let Some(e) = self.s().dead() {
            return Err(e);
        }
        let (pre, post) = self.log();
        let (dpre, dpost) = (pre - self.seen.0, post - self.seen.1);
        self.seen = (pre, post);
        if kinds.contains(&Kind::Edit) && dpre == 0 {
            return Err("the change does not cause a rebuild".into());
        }
        if kinds.iter().all(|k| *k == Kind::Ignored) && dpre > 0 {
            return Err(format!("{} rebuilds although nothing changed", dpre));
        }
        match self.want() {
            Want::Ok(e) => {
                if dpre > 0 {
                    self.last = Some(e);
                    if dpost == 0 && !self.nopost {
                        return Err("no rebuild of a correct project is completed".into());
                    }
                    if dpost > 0 && self.nopost {
                        return Err("the script that fails was completed".into());
                    }
                }
            }
            Want::Fail(why) => {
                if dpost > 0 {
                    return Err(format!("a project that cannot be built was built ({})", why));
                }
            }
            Want::Unspec(w) => panic!("unspecified: {}", w),
        }
        self.output()?;
        let mut bad = None;
        for (i, c) in self.clients.iter_mut().enumerate() {
            let n = c.reloads()?;
            if n != post - c.since {
                bad = Some(format!("client {} of {} got {} reload messages for {} successful rebuilds", i, 0, n, post - c.since));
            }
        }
        if let Some(b) = bad {
            return Err(b);
        }
        // the sources are left alone
        for d in ["content", "static"] {
            let got = only(&snap(&self.p.join(d)), |k| !k.ends_with('/'));
            let want = below(&self.t.files, &format!("{}/", d));
            if got != want {
                return Err(format!("the sources changed: {}", diff(&want, &got)));
            }
        }
        if self.p.join("temp").exists() {
            return Err("the temporary directory is left".into());
        }
        Ok(())
    }
    /// The output directory and what is served are the expected version.
    fn output(&mut self) -> Result<(), String> {
        let got = snap(&self.out);
        let Some(e) = &self.last else {
            return match only(&got, |k| !k.ends_with('/')).is_empty() {
                true => Ok(()),
                false => Err(format!("there is output though nothing was built: {:?}", got.keys())),
            };
        };
        if let Some(x) = check_output(e, &got).or_else(|| check_metadata(e.meta.as_ref(), &self.p.join("metadata.json"))) {
            return Err(x);
        }
        let files = e.files.clone();
        let there: Vec<String> = files.keys().filter(|k| !k.ends_with('/') && k.bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'/' | b'.'))).take(12).map(|k| format!("/{}", k)).collect();
        for u in ["/", "/a/", "/a", "/s.txt", "/dir/x/", "/z/", "/d.json", "/junk"].into_iter().chain(there.iter().map(|u| u.as_str())) {
            let r = self.s().get(u)?;
            check_reply(&files, u, &r)?;
        }
        Ok(())
    }
    /// After some more rebuilds, nothing is left of clients which are gone. The system reports that
    /// they are, and the server's threads end, in their own time: only what stays is a leak.
    fn sockets(&mut self) -> Result<(), String> {
        let want = 1 + self.clients.len();
        let mut have = 0;
        for round in 1..=6 {
            if self.away.is_some() {
                self.act("away", false)?;
                self.s().idle()?;
            }
            if self.nopost {
                self.act("post", false)?;
                self.s().idle()?;
            }
            if self.t.files.contains_key("content/z.html") {
                self.act("broken", false)?;
                self.s().idle()?;
            }
            self.act("page", false)?;
            self.s().idle()?;
            self.check(&[Kind::Edit])?;
            if round < 2 {
                continue;
            }
            for _ in 0..100 {
                have = self.s().sockets();
                if have == want {
                    return Ok(());
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
        Err(format!("the server has {} sockets open with {} clients connected", have, self.clients.len()))
    }
}

impl Case for Watch {
    fn json(&self) -> V {
        let g = |g: &Vec<usize>| V::Arr(g.iter().map(|o| V::s(OPS[*o])).collect());
        V::Obj(vec![
            ("history".into(), V::Arr(self.groups.iter().map(g).collect())),
            ("how".into(), V::Num(self.how as f64)),
            ("start".into(), V::Num(self.start as f64)),
            ("clients".into(), V::Num(self.clients as f64)),
        ])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { class: Some("history"), traces: 1, ..Default::default() };
        let mut w = World::new(rt, self.how);
        let r = self.go(&mut w, &mut o);
        if let Err(e) = r {
            o.viol = Some((self.json().print(), e));
        }
        o
    }
}

impl Watch {
    fn go(&self, w: &mut World, o: &mut Outcome) -> Result<(), String> {
        match self.start {
            1 => {
                w.act("broken", true)?;
            }
            2 => {
                w.act("away", true)?;
            }
            _ => (),
        }
        w.start(self.how, &[])?;
        w.check(&[Kind::Neutral]).map_err(|e| format!("at the start: {}", e))?;
        for _ in 0..self.clients {
            w.act("connect", false)?;
        }
        w.s().idle()?;
        for (i, g) in self.groups.iter().enumerate() {
            let at = |e: String| format!("step {} ({}): {}", i + 1, g.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "), e);
            // changes which take more than one call are made while the server cannot look
            let stop = g.len() > 1 || ["rewrite", "deep", "many", "lost"].contains(&OPS[g[0]]);
            if stop {
                w.s().stop();
            }
            let kinds: Result<Vec<Kind>, String> = g.iter().map(|x| w.act(OPS[*x], stop)).collect();
            if stop {
                w.s().resume();
            }
            let kinds = kinds.map_err(at)?;
            w.s().idle().map_err(at)?;
            w.check(&kinds).map_err(at)?;
            o.steps += g.len() as u64;
            o.states.push(hash(format!("{:?}{:?}", w.t.files, w.clients.len()).as_bytes()));
            w.rt.beat();
        }
        w.sockets().map_err(|e| format!("afterwards: {}", e))
    }
    fn from_json(v: &V) -> Watch {
        let groups = v.get("history").unwrap().arr().unwrap().iter().map(|g| g.arr().unwrap().iter().map(|o| op(o.str().unwrap())).collect()).collect();
        Watch { groups, how: num(v.get("how")), start: num(v.get("start")), clients: num(v.get("clients")) }
    }
}

// ------------------------------------------------------------------------------- C24: edits during a rebuild

/// Edits made just before the k-th call of a rebuild to the file system, for all k = class (mod STRIDE).
struct During {
    /// during the first build, before the server listens
    first: bool,
    edit: usize,
    class: usize,
    stride: usize,
    only: Option<usize>,
}

/// What a rebuild has to look at to notice the edit.
fn looks_at(name: &str) -> (&'static str, &'static str) {
    match name {
        "page" | "rewrite" | "touch" => ("content/a.html", "content"),
        "write" => ("content/b.html", "content"),
        "md" | "move" => ("content/list", "content/list"),
        "dir" | "broken" => ("content", "content"),
        "static" => ("static/s.txt", "static"),
        "sdir" => ("static", "static"),
        "root" => ("content/root.html", "content"),
        "data" => ("content/d.json", "content"),
        "away" => ("content", "content"),
        _ => ("", ""),
    }
}

pub const LOST: &str = "edit during a rebuild";

impl During {
    fn with(&self, k: usize) -> V {
        V::Obj(vec![("edit".into(), V::s(OPS[self.edit])), ("first".into(), V::Bool(self.first)), ("call".into(), V::Num(k as f64))])
    }
    fn one(&self, rt: &mut Rt, k: usize, o: &mut Outcome, tries: usize) -> Result<bool, (String, String)> {
        let bad = |e: String| (self.with(k).print(), format!("call {}: {}", k, e));
        let tf = rt.scratch.join("trace");
        remove(&tf);
        let mut w = World::new(rt, 0);
        let from = w.w.join("from");
        let env = [("FS_TRACE", tf.display().to_string()), ("FS_AT", k.to_string()), ("FS_DO", "stop".into()), ("FS_FROM", from.display().to_string())];
        if self.first {
            return self.first(w, k, o, &env[..3]).map_err(bad);
        }
        w.start(0, &env).map_err(bad)?;
        w.check(&[Kind::Neutral]).map_err(bad)?;
        w.act("connect", false).map_err(bad)?;
        w.s().idle().map_err(bad)?;
        let old = match w.want() {
            Want::Ok(e) => e,
            _ => unreachable!(),
        };
        put(&w.w, "from", b"");
        w.act("write", false).map_err(bad)?;
        let between = match w.want() {
            Want::Ok(e) => e,
            _ => unreachable!(),
        };
        let t = Instant::now();
        loop {
            if w.s().stopped() {
                break;
            }
            if let Some(e) = w.s().dead() {
                return Err(bad(e));
            }
            if t.elapsed() > Duration::from_millis(1500) {
                // is it that the rebuild has fewer calls?
                w.s().idle().map_err(bad)?;
                if !w.s().stopped() {
                    return Ok(false);
                }
                break;
            }
            std::thread::sleep(Duration::from_micros(500));
        }
        let trace = std::fs::read_to_string(&tf).unwrap_or_default();
        let done: Vec<&str> = trace.lines().take(k - 1).collect();
        let name = OPS[self.edit];
        let (file, dir) = looks_at(name);
        let seen = done.iter().any(|l| {
            let mut f = l.splitn(3, ' ').skip(1);
            let (call, path) = (f.next().unwrap_or(""), f.next().unwrap_or(""));
            let rel = path.strip_prefix(w.p.to_str().unwrap()).unwrap_or("").trim_start_matches('/');
            // the file was looked at, or what is in the directory was listed
            rel == file || rel == dir && (call == "readdir" || call == "opendir")
        });
        w.act(name, true).map_err(bad)?;
        w.s().resume();
        w.s().idle().map_err(bad)?;
        o.traces += 1;
        o.steps += 1;
        o.states.push(hash(format!("{:?}", snap(&w.out)).as_bytes()));
        // what is there now?
        let new = w.want();
        let got = snap(&w.out);
        let fresh = match &new {
            Want::Ok(e) => check_output(e, &got),
            _ => None,
        };
        let stale_ok = check_output(&between, &got).is_none() || check_output(&old, &got).is_none();
        let mut lost = None;
        match &new {
            Want::Ok(_) => match fresh {
                None => w.last = want_env(&w.t, "development").into(),
                Some(x) => {
                    if !stale_ok {
                        return Err(bad(format!("the output is that of no version: {}", x)));
                    }
                    if !seen {
                        if tries > 0 {
                            return self.one(rt, k, o, tries - 1);
                        }
                        return Err(bad(format!("a change made before the rebuild looked at {} is not built: {}", file, x)));
                    }
                    lost = Some(x);
                }
            },
            _ => {
                if !stale_ok {
                    return Err(bad("the output is that of no version".into()));
                }
            }
        }
        // clients were told about every successful rebuild, and the next change brings everything up to date
        let posts = w.log().1;
        let since = w.clients[0].since;
        let n = w.clients[0].reloads().map_err(bad)?;
        if n != posts - since {
            return Err(bad(format!("{} reload messages for {} successful rebuilds", n, posts - since)));
        }
        if w.t.files.contains_key("content/z.html") {
            w.act("broken", false).map_err(bad)?;
            w.s().idle().map_err(bad)?;
        }
        if w.away.is_some() {
            w.act("away", false).map_err(bad)?;
            w.s().idle().map_err(bad)?;
        }
        w.seen = w.log();
        w.act("static", false).map_err(bad)?;
        w.s().idle().map_err(bad)?;
        w.check(&[Kind::Edit]).map_err(|e| bad(format!("after a further change: {}", e)))?;
        w.sockets().map_err(bad)?;
        if let Some(x) = lost {
            o.viol = Some((LOST.into(), format!("call {}: {}", k, x)));
        }
        Ok(true)
    }
}

impl From<Want> for Option<Expect> {
    fn from(w: Want) -> Self {
        match w {
            Want::Ok(e) => Some(e),
            _ => None,
        }
    }
}

impl During {
    /// The same for the first build: no edit may be lost, as nothing says that the server is not watching yet.
    fn first(&self, mut w: World, k: usize, o: &mut Outcome, env: &[(&str, String)]) -> Result<bool, String> {
        w.server = Some(Server::spawn(w.rt, &w.p, &[], &w.w, env));
        let t = Instant::now();
        while !w.s().stopped() {
            if let Some(e) = w.s().dead() {
                return Err(e);
            }
            if TcpStream::connect_timeout(&w.s().addr(), Duration::from_secs(1)).is_ok() {
                return Ok(false);
            }
            if t.elapsed() > LIMIT {
                return Err("the server does not start".into());
            }
            std::thread::sleep(Duration::from_micros(500));
        }
        w.act(OPS[self.edit], true)?;
        w.s().resume();
        w.s().listening()?;
        w.s().idle()?;
        o.traces += 1;
        o.steps += 1;
        o.states.push(hash(format!("{:?}", snap(&w.out)).as_bytes()));
        match w.want() {
            Want::Ok(e) => {
                if let Some(x) = check_output(&e, &snap(&w.out)) {
                    return Err(format!("a change made during the first build is not built: {}", x));
                }
            }
            _ => {
                w.act(OPS[self.edit], true)?;
                w.s().idle()?;
            }
        }
        w.seen = w.log();
        w.act("static", false)?;
        w.s().idle()?;
        w.check(&[Kind::Edit])?;
        w.sockets()?;
        Ok(true)
    }
}

impl Case for During {
    fn json(&self) -> V {
        match self.only {
            Some(k) => self.with(k),
            None => V::Obj(vec![("edit".into(), V::s(OPS[self.edit])), ("first".into(), V::Bool(self.first)), ("class".into(), V::Num(self.class as f64)), ("stride".into(), V::Num(self.stride as f64))]),
        }
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { class: Some("edits during a rebuild"), ..Default::default() };
        let mut k = self.only.unwrap_or(self.class);
        loop {
            if k == 0 {
                k += self.stride;
            }
            let r = self.one(rt, k, &mut o, 2);
            rt.beat();
            match r {
                Err(e) => {
                    o.viol = Some(e);
                    return o;
                }
                Ok(more) => {
                    if !more || self.only.is_some() {
                        return o;
                    }
                }
            }
            k += self.stride;
        }
    }
}

// ------------------------------------------------------------------------------- C24: names of edited files

/// Files which resemble those that the program treats in a special way, or that editors and other tools leave behind.
const NAMES: [&str; 64] = [
    "content/stuart.toml",
    "content/metadata.json",
    "content/temp/x",
    "content/temp.txt",
    "content/dist/x",
    "content/dist.txt",
    "content/_build/x",
    "content/.git/x",
    "content/.gitignore",
    "content/.x.swp",
    "content/x.swp",
    "content/x~",
    "content/#x#",
    "content/.#x",
    "content/x.tmp",
    "content/x.bak",
    "content/x.log",
    "content/x.lock",
    "content/x.part",
    "content/4913",
    "content/.DS_Store",
    "content/Thumbs.db",
    "content/node_modules/x",
    "content/target/x",
    "content/scripts/onPreBuild.sh",
    "content/plugins/x.so",
    "content/content/x",
    "content/static/x",
    "content/stuart/x",
    "content/.stuart/x",
    "content/Stuart.toml",
    "content/stuart.toml.orig",
    "content/root",
    "content/html",
    "content/.html.txt",
    "content/x.htm",
    "content/x.HTML.txt",
    "content/x.js",
    "content/x.sh",
    "content/a b c.txt",
    "content/ x",
    "content/x ",
    "content/tilde~/x",
    "content/.hidden/x",
    "content/.hidden/.x",
    "content/\u{e4}\u{f6}\u{fc}.txt",
    "content/o/x",
    "content/log",
    "static/stuart.toml",
    "static/metadata.json",
    "static/temp/x",
    "static/dist/x",
    "static/static/x",
    "static/content/x",
    "static/.htaccess",
    "static/.well-known/x",
    "static/x~",
    "static/_build/x",
    "static/index.htm",
    "static/x.html",
    "static/x.md",
    "content/temp",
    "content/dist",
    "content/_build",
];

/// Files of these names which are made, written, replaced, emptied, extended, renamed and removed one after the other.
struct Named {
    names: Vec<String>,
}

impl Named {
    fn go(&self, w: &mut World, o: &mut Outcome) -> Result<(), String> {
        use std::os::unix::fs::FileExt;
        let p = w.p.clone();
        // a number without leading zeros is a JSON document, too
        w.n = 1000;
        for f in &self.names {
            put(&p, f, b"1000");
            w.t.add(f, "1000");
            let mut d = Path::new(f).parent();
            while let Some(x) = d.filter(|x| x.components().count() > 1) {
                w.t.dirs.push(x.to_str().unwrap().into());
                d = x.parent();
            }
        }
        w.start(0, &[])?;
        w.check(&[Kind::Neutral]).map_err(|e| format!("at the start: {}", e))?;
        w.act("connect", false)?;
        w.s().idle()?;
        for f in &self.names {
            for how in ["write", "replace", "empty", "extend", "remove", "make", "rename", "back", "touch"] {
                let n = w.fresh();
                let other = format!("{}x", f);
                let at = |e: String| format!("{:?}, {}: {}", f, how, e);
                match how {
                    "write" => {
                        std::fs::OpenOptions::new().write(true).open(p.join(f)).unwrap().write_at(n.as_bytes(), 0).unwrap();
                        w.t.add(f, n);
                    }
                    "replace" => w.stage(f, n.as_bytes()),
                    "empty" => {
                        std::fs::OpenOptions::new().write(true).truncate(true).open(p.join(f)).unwrap();
                        w.t.add(f, "");
                    }
                    "extend" => {
                        std::fs::OpenOptions::new().append(true).open(p.join(f)).unwrap().write_all(n.as_bytes()).unwrap();
                        w.t.add(f, n);
                    }
                    "remove" => {
                        std::fs::remove_file(p.join(f)).unwrap();
                        w.t.files.remove(f);
                    }
                    "make" => w.stage(f, n.as_bytes()),
                    "rename" | "back" => {
                        let (a, b) = if how == "rename" { (f, &other) } else { (&other, f) };
                        std::fs::rename(p.join(a), p.join(b)).unwrap();
                        let d = w.t.files.remove(a).unwrap();
                        w.t.files.insert(b.clone(), d);
                    }
                    _ => {
                        let m = std::fs::OpenOptions::new().write(true).open(p.join(f)).unwrap();
                        m.set_modified(std::time::SystemTime::UNIX_EPOCH).unwrap();
                    }
                }
                w.s().idle().map_err(at)?;
                w.check(&[if how == "touch" { Kind::Neutral } else { Kind::Edit }]).map_err(at)?;
                o.steps += 1;
                o.states.push(hash(format!("{:?}", w.t.files).as_bytes()));
                w.rt.beat();
            }
        }
        Ok(())
    }
}

impl Case for Named {
    fn json(&self) -> V {
        V::Obj(vec![("names".into(), V::Arr(self.names.iter().map(|n| V::s(n)).collect()))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { class: Some("names"), traces: 1, ..Default::default() };
        let mut w = World::new(rt, 0);
        if let Err(e) = self.go(&mut w, &mut o) {
            o.viol = Some((self.json().print(), e));
        }
        o
    }
}

/// The names of `NAMES`, those with every character and of many lengths, and paths of many depths.
fn named(t: Tier) -> Vec<String> {
    let mut v: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
    for c in crate::chars::few(Tier::Quick) {
        let odd = c.is_ascii() && !c.is_ascii_alphanumeric() || crate::chars::SPECIAL.iter().step_by(9).any(|s| *s == c);
        if c != '/' && c != '\0' && (odd || t != Tier::Quick) {
            v.push(format!("content/c{}", c));
            if odd {
                v.push(format!("static/{}c", c));
            }
        }
    }
    for n in t.pick(&[1, 2, 3, 9, 17, 33, 65, 128, 251][..], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 250, 251]) {
        v.push(format!("content/{}", "n".repeat(*n)));
    }
    for n in t.pick(&[2, 3, 5, 9, 17, 33][..], &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 64, 65]) {
        v.push(format!("content/{}x", "deep/".repeat(*n)));
        v.push(format!("static/{}x", "deep/".repeat(*n)));
    }
    v
}

/// An edit while the post-build script runs, when all files have been read: the known finding.
struct TooLate;

impl Case for TooLate {
    fn json(&self) -> V {
        V::Obj(vec![("late".into(), V::Bool(true))])
    }
    fn run(&self, rt: &mut Rt) -> Outcome {
        let mut o = Outcome { class: Some("edit while the post-build script runs"), traces: 1, steps: 2, ..Default::default() };
        let mut w = World::new(rt, 0);
        let mut go = || -> Result<Option<String>, String> {
            w.start(0, &[])?;
            w.check(&[Kind::Neutral])?;
            let gate = w.w.join("gate2");
            let c = std::ffi::CString::new(gate.as_os_str().as_bytes()).unwrap();
            unsafe { libc::mkfifo(c.as_ptr(), 0o666) };
            let builds = w.log().0;
            w.act("write", false)?;
            let t = Instant::now();
            while w.log().0 == builds {
                std::thread::sleep(Duration::from_millis(1));
                if t.elapsed() > LIMIT {
                    return Err("no rebuild after a change".into());
                }
            }
            // wait for the new output
            let Want::Ok(e) = w.want() else { unreachable!() };
            while check_output(&e, &snap(&w.out)).is_some() {
                std::thread::sleep(Duration::from_millis(1));
                if t.elapsed() > LIMIT {
                    return Err("the output is not written before the post-build script runs".into());
                }
            }
            w.act("page", false)?;
            std::thread::sleep(Duration::from_millis(60));
            let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&gate).unwrap();
            std::fs::remove_file(&gate).unwrap();
            f.write_all(b"\n\n\n\n").unwrap();
            w.s().idle()?;
            drop(f);
            let Want::Ok(e2) = w.want() else { unreachable!() };
            let stale = check_output(&e2, &snap(&w.out));
            if stale.is_some() && check_output(&e, &snap(&w.out)).is_some() {
                return Err(stale.unwrap());
            }
            w.act("static", false)?;
            w.s().idle()?;
            w.check(&[Kind::Edit])?;
            Ok(stale)
        };
        match go() {
            Ok(None) => (),
            Ok(Some(x)) => o.viol = Some((LOST.into(), x)),
            Err(e) => o.viol = Some((self.json().print(), e)),
        }
        o
    }
}

pub fn c24_json(v: &V) -> Box<dyn Case> {
    if v.get("late").is_some() {
        return Box::new(TooLate);
    }
    if let Some(n) = v.get("names") {
        return Box::new(Named { names: n.arr().unwrap().iter().map(|n| n.str().unwrap().into()).collect() });
    }
    if v.get("edit").is_some() {
        let only = v.get("call").map(|k| num(Some(k)));
        return Box::new(During { first: matches!(v.get("first"), Some(V::Bool(true))), edit: op(&text(v, "edit")), class: num(v.get("class")), stride: num(v.get("stride")).max(1), only });
    }
    Box::new(Watch::from_json(v))
}

pub fn c24(sh: &mut Shard) {
    let t = sh.tier;
    sh.one(&TooLate);
    // every operation, with every way of naming the output and every start
    for how in 0..WAYS {
        for start in 0..3 {
            for g in ["page", "dist", "broken", "away", "junk"] {
                sh.one(&Watch { groups: vec![vec![op(g)], vec![op("page")], vec![op(g)]], how, start, clients: 1 });
            }
        }
    }
    // histories of two operations
    let n = OPS.len();
    for a in 0..n {
        for b in 0..n {
            sh.one(&Watch { groups: vec![vec![a], vec![b], vec![a]], how: 0, start: 0, clients: 2 });
        }
    }
    // two at once
    let edits: Vec<usize> = ["page", "write", "rewrite", "md", "move", "dir", "sub", "deep", "broken", "static", "sdir", "root", "data", "away", "readme", "dist", "temp", "meta", "toml", "odd"].iter().map(|o| op(o)).collect();
    for a in &edits {
        for b in &edits {
            sh.one(&Watch { groups: vec![vec![*a, *b], vec![*b, *a]], how: 0, start: 0, clients: 1 });
        }
    }
    // clients which come and go
    let small: Vec<usize> = ["connect", "close", "last", "reset", "page", "broken"].iter().map(|o| op(o)).collect();
    crate::core_props::seqs(small.len(), t.pick(3, 5), &mut |s| sh.one(&Watch { groups: s.iter().map(|i| vec![small[*i]]).collect(), how: 0, start: 0, clients: 3 }));
    // many clients, and the same operations again and again
    let sizes: &[usize] = t.pick(&[8, 17, 33][..], &[4, 5, 6, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 34, 48, 64, 65, 100, 129]);
    for k in sizes {
        for g in ["page", "close", "last", "reset", "half", "noise"] {
            sh.one(&Watch { groups: vec![vec![op(g)], vec![op("page")], vec![op("connect"), op("close")], vec![op("md"), op(g)], vec![op("page")]], how: 0, start: 0, clients: *k });
        }
    }
    for a in 0..n {
        if OPS[a] == "lost" || OPS[a] == "many" {
            continue;
        }
        sh.one(&Watch { groups: vec![vec![a]; t.pick(12, 65)], how: 0, start: 0, clients: 1 });
        sh.one(&Watch { groups: vec![vec![a, op("page")]; t.pick(5, 33)], how: 0, start: 0, clients: 1 });
    }
    for a in &edits {
        sh.one(&Watch { groups: vec![vec![*a; t.pick(20, 21)], vec![op("page")], vec![*a; t.pick(33, 129)]], how: 0, start: 0, clients: 1 });
    }
    if t != Tier::Quick {
        for a in 0..n {
            for b in 0..n {
                for c in 0..n {
                    if [a, b, c].iter().any(|o| ["lost", "many"].contains(&OPS[*o])) {
                        continue;
                    }
                    sh.one(&Watch { groups: vec![vec![a], vec![b], vec![c]], how: 0, start: 0, clients: 1 });
                }
            }
        }
    }
    // names
    for c in named(t).chunks(t.pick(12, 3)) {
        sh.one(&Named { names: c.to_vec() });
    }
    // edits during a rebuild
    let stride = 16;
    let quick = ["page", "md", "static", "broken", "dir"];
    let all = ["page", "md", "static", "broken", "dir", "move", "root", "data", "sdir", "away", "rewrite", "touch"];
    for e in t.pick(&quick[..], &all[..]) {
        for class in 0..stride {
            for first in [false, true] {
                sh.one(&During { first, edit: op(e), class, stride, only: None });
            }
        }
    }
}

pub fn c24_bounds(t: Tier) -> String {
    format!(
        "histories against the real server on a real project, with {} operations (edits by renaming, in place and of directories, breaking and repairing the project, lost notifications, ignored and odd paths, clients connecting, closing, resetting, half-closing): all pairs (repeated), all pairs of {} edits made at once, all sequences of <= {} client operations with three clients; up to {} clients, up to {} repetitions of each operation, up to {} edits at once{}; {} output directories and 3 initial states; {} names of edited files (9 edits each); edits of {} kinds before every file system call of a rebuild",
        OPS.len(),
        20,
        t.pick(3, 5),
        t.pick(33, 129),
        t.pick(12, 65),
        t.pick(33, 129),
        t.pick("", ", all triples"),
        WAYS,
        named(t).len(),
        t.pick(5, 12)
    )
}
