//! The reference model: what a site means, written from Stuart's documentation.
//!
//! It is deliberately structured differently from the implementation: a page is split into tags, and
//! executed by a recursive walk over blocks which returns its output, with lexical environments; there is no
//! explicit stack of output buffers, no rewinding, and skipping a block never looks at labels or values.
//! Where the documentation does not say what happens, the model answers `Unspec` and the explorer only
//! checks that the implementation neither crashes nor hangs.

use crate::json::{self, V};
use std::collections::BTreeMap;

thread_local! {
    /// model steps taken
    pub static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Where an error has to be reported: file (relative to content), first and last admissible line.
#[derive(Clone, Debug, PartialEq)]
pub struct At {
    pub file: String,
    pub lo: u32,
    pub hi: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// The build must fail. `eof`: the reason was only that the text ended (a longer text may be fine).
    Err { at: Option<At>, eof: bool, why: String },
    /// The documentation does not say.
    Unspec(&'static str),
}

pub type R<T> = Result<T, Fail>;

pub fn err<T>(at: Option<At>, why: impl Into<String>) -> R<T> {
    Err(Fail::Err { at, eof: false, why: why.into() })
}

fn err_eof<T>(at: Option<At>, why: impl Into<String>) -> R<T> {
    Err(Fail::Err { at, eof: true, why: why.into() })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Var(String),
    Str(String),
    Int(i32),
    Ident(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub name: String,
    pub pos: Vec<Arg>,
    pub named: Vec<(String, Arg)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Raw(String),
    Var(String),
    Call(Call),
}

#[derive(Clone, Debug)]
pub struct T {
    pub t: Tok,
    pub lo: u32,
    pub hi: u32,
}

pub type Tokens = Vec<T>;

pub const BUILTINS: [&str; 16] = [
    "begin", "dateformat", "else", "end", "excerpt", "for", "ifdefined", "import", "insert",
    "timetoread", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle",
];

/// The functions plugins provide, as the model sees them.
pub type PluginCall = dyn Fn(&Call, &mut Exec, &mut Env, &mut Vec<u8>, &T) -> R<()>;

#[derive(Default)]
pub struct Plugins {
    /// full list of names accepted (a name with several owners has no specified meaning)
    pub calls: Vec<(Vec<String>, Box<PluginCall>)>,
    /// extensions and what becomes of the contents
    pub parsers: Vec<(Vec<&'static str>, Box<PluginParse>)>,
}

/// What a plugin parser makes of contents.
#[derive(Clone, Debug)]
pub struct Custom {
    pub name: Option<String>,
    /// None: unchanged
    pub data: Option<Vec<u8>>,
    /// processing fails
    pub fails: bool,
    /// the processor appends what it sees of its environment
    pub sees_env: bool,
    pub meta: V,
}

pub type PluginParse = dyn Fn(&[u8], &str) -> Option<Custom>;

struct Lex<'a> {
    c: &'a [char],
    i: usize,
    line: u32,
}

impl<'a> Lex<'a> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn at(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, ch)| self.c.get(self.i + k) == Some(&ch))
    }
    fn bump(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += 1;
        if c == '\n' {
            self.line += 1;
        }
        Some(c)
    }
    fn ws(&mut self) {
        while self.peek().map_or(false, |c| c.is_whitespace()) {
            self.bump();
        }
    }
    fn take(&mut self, f: impl Fn(char) -> bool) -> String {
        let mut s = String::new();
        while let Some(c) = self.peek() {
            if !f(c) {
                break;
            }
            s.push(c);
            self.bump();
        }
        s
    }
}

/// Splits a text into literal text and tags.
pub fn lex(text: &str, file: &str, first_line: u32, plugins: &Plugins) -> R<Tokens> {
    let chars: Vec<char> = text.chars().collect();
    let mut l = Lex { c: &chars, i: 0, line: first_line };
    let mut out: Tokens = vec![];
    let mut raw = String::new();
    let mut raw_line = l.line;
    let mut unspec: Option<&'static str> = None;

    while l.peek().is_some() {
        if l.at("\\{{") {
            raw.push_str("{{");
            l.bump();
            l.bump();
            l.bump();
        } else if l.at("{{") {
            if !raw.is_empty() {
                out.push(T { t: Tok::Raw(std::mem::take(&mut raw)), lo: raw_line, hi: l.line });
            }
            let lo = l.line;
            l.bump();
            l.bump();
            match tag(&mut l, lo, file, plugins) {
                Ok(t) => out.push(T { t, lo, hi: l.line }),
                Err(Fail::Unspec(u)) => {
                    // keep going as far as possible: a later definite error is still an error
                    unspec = Some(u);
                    return Err(Fail::Unspec(u));
                }
                Err(e) => return Err(e),
            }
            raw_line = l.line;
        } else {
            raw.push(l.bump().unwrap());
        }
    }
    if !raw.is_empty() {
        out.push(T { t: Tok::Raw(raw), lo: raw_line, hi: l.line });
    }
    if let Some(u) = unspec {
        return Err(Fail::Unspec(u));
    }
    Ok(out)
}

fn name_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

fn tag(l: &mut Lex, lo: u32, file: &str, plugins: &Plugins) -> R<Tok> {
    let at = |l: &Lex| Some(At { file: file.to_string(), lo, hi: l.line });
    l.ws();
    let t = match l.peek() {
        None => return err_eof(at(l), "end of file in tag"),
        Some('$') => {
            l.bump();
            let v = l.take(|c| name_char(c) || c == '.');
            if v.is_empty() {
                // a longer text can still turn this into a variable
                return if l.peek().is_none() { err_eof(at(l), "empty variable") } else { err(at(l), "empty variable") };
            }
            Tok::Var(v)
        }
        Some(_) => {
            let name = l.take(|c| name_char(c) || c == ':');
            if name.is_empty() {
                return err(at(l), "no function name");
            }
            l.ws();
            match l.peek() {
                Some('(') => {
                    l.bump();
                }
                None => return err_eof(at(l), "end of file in tag"),
                _ => return err(at(l), "expected ("),
            }
            let (pos, named) = arguments(l, lo, file)?;
            let call = Call { name, pos, named };
            let known = BUILTINS.contains(&call.name.as_str());
            let owners = plugins.calls.iter().filter(|(n, _)| n.contains(&call.name)).count();
            if owners > 1 && !known {
                return Err(Fail::Unspec("function name of several plugins"));
            }
            let plugin = owners == 1;
            if (call.name == "bad" || call.name.ends_with("::bad")) && plugin {
                return err(at(l), "the plugin rejects the call");
            }
            if known {
                if let Err(e) = signature(&call) {
                    return match e {
                        Some(why) => err(at(l), why),
                        None => Err(Fail::Unspec("signature")),
                    };
                }
            } else if !plugin {
                return err(at(l), format!("no function {}", call.name));
            }
            Tok::Call(call)
        }
    };
    l.ws();
    for _ in 0..2 {
        match l.peek() {
            Some('}') => {
                l.bump();
            }
            None => return err_eof(at(l), "end of file in tag"),
            _ => return err(at(l), "expected }}"),
        }
    }
    Ok(t)
}

fn arguments(l: &mut Lex, lo: u32, file: &str) -> R<(Vec<Arg>, Vec<(String, Arg)>)> {
    let at = |l: &Lex| Some(At { file: file.to_string(), lo, hi: l.line });
    // cut the text at the unquoted commas, up to the unquoted closing parenthesis
    let mut parts: Vec<String> = vec![String::new()];
    let mut quoted = false;
    // errors in a part are errors whatever follows
    let mut closed = false;
    while let Some(c) = l.bump() {
        if c == '"' {
            quoted = !quoted;
        } else if !quoted && c == ')' {
            closed = true;
            break;
        } else if !quoted && c == ',' {
            parts.push(String::new());
            continue;
        }
        parts.last_mut().unwrap().push(c);
    }
    if !closed {
        return err_eof(at(l), "end of file in arguments");
    }
    let parts: Vec<&str> = parts.iter().map(|p| p.trim()).collect();
    if parts.len() == 1 && parts[0].is_empty() {
        return Ok((vec![], vec![]));
    }
    let mut unspec = None;
    let mut pos = vec![];
    let mut named = vec![];
    for p in parts {
        if p.is_empty() {
            unspec = Some("empty argument");
            continue;
        }
        if !p.starts_with('"') && p.contains('=') {
            let (n, v) = p.split_once('=').unwrap();
            if n.ends_with(char::is_whitespace) || v.starts_with(char::is_whitespace) {
                if n.trim().chars().all(name_char) {
                    unspec = Some("white space around =");
                    continue;
                }
            }
            if n.is_empty() || v.is_empty() || !n.chars().all(name_char) {
                return err(at(l), "bad named argument");
            }
            match argument(v) {
                Ok(a) => named.push((n.to_string(), a)),
                Err(Some(why)) => return err(at(l), why),
                Err(None) => unspec = Some("argument"),
            }
        } else {
            if !named.is_empty() {
                return err(at(l), "positional after named");
            }
            match argument(p) {
                Ok(a) => pos.push(a),
                Err(Some(why)) => return err(at(l), why),
                Err(None) => unspec = Some("argument"),
            }
        }
    }
    match unspec {
        Some(u) => Err(Fail::Unspec(u)),
        None => Ok((pos, named)),
    }
}

fn argument(p: &str) -> Result<Arg, Option<String>> {
    if let Some(v) = p.strip_prefix('$') {
        if v.is_empty() || !v.chars().all(|c| name_char(c) || c == '.') {
            return Err(Some("bad variable".into()));
        }
        return Ok(Arg::Var(v.to_string()));
    }
    if p.starts_with('"') {
        if p.len() < 2 || !p.ends_with('"') {
            return Err(Some("bad string".into()));
        }
        let s = &p[1..p.len() - 1];
        if s.contains('"') {
            return Err(Some("bad string".into()));
        }
        return Ok(Arg::Str(s.to_string()));
    }
    let d = p.strip_prefix('-').unwrap_or(p);
    if !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()) {
        return match p.parse::<i64>() {
            Ok(n) if n >= i32::MIN as i64 && n <= i32::MAX as i64 => Ok(Arg::Int(n as i32)),
            _ => Err(Some("integer out of range".into())),
        };
    }
    if let Some(q) = p.strip_prefix('+') {
        if !q.is_empty() && q.chars().all(|c| c.is_ascii_digit()) {
            return Err(None);
        }
    }
    if BUILTINS.contains(&p) {
        return Ok(Arg::Ident(p.to_string()));
    }
    Err(Some(format!("bad argument {}", p)))
}

/// Err(Some(why)): rejected. Err(None): not specified.
fn signature(c: &Call) -> Result<(), Option<String>> {
    use Arg::*;
    let no = |w: &str| Err(Some(format!("{}: {}", c.name, w)));
    if c.name != "for" && !c.named.is_empty() {
        return no("takes no named arguments");
    }
    let p = &c.pos;
    match c.name.as_str() {
        "else" => {
            if !p.is_empty() {
                return no("arguments");
            }
        }
        "begin" => match p.as_slice() {
            [Str(_)] => (),
            [Ident(_)] => return Err(None),
            _ => return no("arguments"),
        },
        "end" => match p.as_slice() {
            [Str(_)] => (),
            [Ident(i)] if i == "for" || i.starts_with("if") => (),
            [Ident(_)] => return Err(None),
            _ => return no("arguments"),
        },
        "insert" => {
            if !matches!(p.as_slice(), [Str(_)]) {
                return no("arguments");
            }
        }
        "import" => {
            if !matches!(p.as_slice(), [Var(_), Str(_)]) {
                return no("arguments");
            }
        }
        "excerpt" => {
            if !matches!(p.as_slice(), [Var(_), Int(n)] if *n >= 0) {
                return no("arguments");
            }
        }
        "dateformat" => {
            if !matches!(p.as_slice(), [Var(_), Str(_)]) {
                return no("arguments");
            }
        }
        "timetoread" | "ifdefined" => {
            if !matches!(p.as_slice(), [Var(_)]) {
                return no("arguments");
            }
        }
        "for" => {
            match p.as_slice() {
                [Var(_), Var(_)] => (),
                [Var(_), Str(s)] if s.ends_with(".json") || s.ends_with('/') => (),
                _ => return no("arguments"),
            }
            let mut seen: Vec<&str> = vec![];
            for (n, a) in &c.named {
                if seen.contains(&n.as_str()) {
                    return no("repeated option");
                }
                seen.push(n);
                let ok = match (n.as_str(), a) {
                    ("skip", Int(i)) | ("limit", Int(i)) => *i >= 0,
                    ("sortby", Var(_)) => true,
                    ("order", Str(s)) => s == "asc" || s == "desc",
                    _ => false,
                };
                if !ok {
                    return no("options");
                }
            }
        }
        _ => {
            // the comparisons
            if p.len() != 2 || p.iter().any(|a| matches!(a, Ident(_))) {
                return no("arguments");
            }
        }
    }
    Ok(())
}

/// Selects inside a value. A missing part is null.
pub fn select(v: &V, parts: &[&str]) -> V {
    let mut cur = v;
    for p in parts {
        let next = match cur {
            V::Obj(_) => cur.get(p),
            V::Arr(a) => p.parse::<usize>().ok().and_then(|i| a.get(i)),
            _ => None,
        };
        match next {
            Some(n) => cur = n,
            None => return V::Null,
        }
    }
    cur.clone()
}

/// Lexical environment: one scope per open block.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub scopes: Vec<Vec<(String, V)>>,
}

impl Env {
    pub fn lookup(&self, path: &str) -> Option<V> {
        let mut it = path.split('.');
        let name = it.next().unwrap();
        let rest: Vec<&str> = it.collect();
        for s in self.scopes.iter().rev() {
            if let Some((_, v)) = s.iter().find(|(n, _)| n == name) {
                return Some(select(v, &rest));
            }
        }
        None
    }
}

#[derive(Clone, Debug)]
pub struct MdFile {
    pub front: Vec<(String, String)>,
    pub body: String,
    pub toks: Tokens,
    /// rendered body, once known
    pub html: Option<String>,
}

/// The loaded content directory.
pub struct Site<'a> {
    pub files: BTreeMap<String, Loaded>,
    pub dirs: Vec<String>,
    pub plugins: &'a Plugins,
    pub env: V,
}

#[derive(Clone, Debug)]
pub enum Loaded {
    Html(Tokens),
    Md(MdFile),
    Json(V),
    Custom(Custom),
    Other(Vec<u8>),
}

/// Reads front matter. Ok(None): there is none.
pub fn front_matter(text: &str, file: &str) -> R<(Vec<(String, String)>, usize)> {
    let lines: Vec<&str> = text.lines().collect();
    if !(text.starts_with("---\n") || text.starts_with("---\r\n")) {
        return Ok((vec![], 0));
    }
    let mut fm = vec![];
    for (i, line) in lines.iter().enumerate().skip(1) {
        if line.starts_with("---") {
            if line.trim_end() != "---" {
                return Err(Fail::Unspec("front matter delimiter with text"));
            }
            return Ok((fm, i + 1));
        }
        let at = Some(At { file: file.to_string(), lo: i as u32 + 1, hi: i as u32 + 1 });
        let Some((k, v)) = line.split_once(':') else { return err(at, "front matter line") };
        let v = v.trim();
        if v.len() < 2 || !v.starts_with('"') || !v.ends_with('"') {
            return err(at, "front matter value");
        }
        fm.push((k.trim().to_string(), v[1..v.len() - 1].to_string()));
    }
    err_eof(None, "unterminated front matter")
}

fn load(path: &str, data: &[u8], plugins: &Plugins) -> R<Loaded> {
    let ext = std::path::Path::new(path).extension().map(|e| e.to_string_lossy().to_string());
    let text = || match std::str::from_utf8(data) {
        Ok(s) => Ok(s.to_string()),
        Err(_) => err(None, "not UTF-8"),
    };
    Ok(match ext.as_deref() {
        Some("html") => Loaded::Html(lex(&text()?, path, 1, plugins)?),
        Some("json") => match json::parse(&text()?) {
            Ok(v) => Loaded::Json(v),
            Err(_) => return err(None, "json"),
        },
        Some("md") => {
            let t = text()?;
            let (front, skip) = front_matter(&t, path)?;
            let body = t.lines().skip(skip).collect::<Vec<_>>().join("\n");
            let toks = lex(&body, path, skip as u32 + 1, plugins)?;
            Loaded::Md(MdFile { front, body, toks, html: None })
        }
        Some(e) => {
            let mut owners = plugins.parsers.iter().filter(|(x, _)| x.contains(&e));
            match (owners.next(), owners.next()) {
                (None, _) => Loaded::Other(data.to_vec()),
                (Some(_), Some(_)) => return Err(Fail::Unspec("extension of several parsers")),
                (Some((_, f)), None) => match f(data, path) {
                    Some(c) => Loaded::Custom(c),
                    None => return err(None, "the plugin cannot parse the file"),
                },
            }
        }
        None => Loaded::Other(data.to_vec()),
    })
}

impl MdFile {
    pub fn value(&self) -> V {
        let mut o: Vec<(String, V)> = vec![];
        for (k, v) in &self.front {
            if !o.iter().any(|(n, _)| n == k) {
                o.push((k.clone(), V::s(v)));
            }
        }
        o.retain(|(k, _)| k != "markdown" && (k != "content" || self.html.is_none()));
        if let Some(h) = &self.html {
            o.push(("content".into(), V::s(h)));
        }
        o.push(("markdown".into(), V::s(&self.body)));
        V::Obj(o)
    }
}

/// Normalises a path of the content directory; None if it leaves it.
pub fn resolve(path: &str) -> Option<String> {
    if path.starts_with('/') {
        return None;
    }
    let mut out: Vec<&str> = vec![];
    for p in path.split('/') {
        match p {
            "" | "." => (),
            ".." => return None,
            p => out.push(p),
        }
    }
    Some(out.join("/"))
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Base,
    Section(String),
    For,
    If(String),
}

pub struct Exec<'a> {
    pub site: &'a Site<'a>,
    pub sections: Vec<(String, Vec<u8>)>,
    pub file: String,
    pub depth: usize,
}

#[derive(Debug, PartialEq)]
enum Stop {
    End,
    Else,
    Eof,
}

impl<'a> Exec<'a> {
    pub fn at(&self, t: &T) -> Option<At> {
        Some(At { file: self.file.clone(), lo: t.lo, hi: t.hi })
    }

    /// Runs a whole text.
    pub fn run(&mut self, toks: &[T], env: &mut Env) -> R<Vec<u8>> {
        let mut out = vec![];
        let (_, stop) = self.block(toks, 0, &Kind::Base, env, &mut out, None)?;
        debug_assert_eq!(stop, Stop::Eof);
        Ok(out)
    }

    /// Runs tokens from `i` until the block of kind `kind` ends; returns the index after its last token.
    fn block(&mut self, toks: &[T], mut i: usize, kind: &Kind, env: &mut Env, out: &mut Vec<u8>, opener: Option<&T>) -> R<(usize, Stop)> {
        loop {
            STEPS.with(|s| s.set(s.get() + 1));
            let Some(t) = toks.get(i) else {
                if *kind == Kind::Base {
                    return Ok((i, Stop::Eof));
                }
                let at = match kind {
                    Kind::Section(_) => None,
                    _ => opener.and_then(|o| self.at(o)),
                };
                return err_eof(at, format!("block {:?} left open", kind));
            };
            i += 1;
            match &t.t {
                Tok::Raw(r) => out.extend_from_slice(r.as_bytes()),
                Tok::Var(v) => match env.lookup(v) {
                    Some(V::Str(s)) => out.extend_from_slice(s.as_bytes()),
                    other => return err(self.at(t), format!("${} is {:?}", v, other)),
                },
                Tok::Call(c) => match c.name.as_str() {
                    "end" => {
                        let ok = match (&c.pos[0], kind) {
                            (Arg::Str(l), Kind::Section(s)) => l == s,
                            (Arg::Ident(l), Kind::For) => l == "for",
                            (Arg::Ident(l), Kind::If(n)) => l == n,
                            _ => false,
                        };
                        if !ok {
                            return err(self.at(t), "wrong end");
                        }
                        return Ok((i, Stop::End));
                    }
                    "else" => {
                        if !matches!(kind, Kind::If(_)) {
                            return err(self.at(t), "else outside if");
                        }
                        return Ok((i, Stop::Else));
                    }
                    "begin" => {
                        let Arg::Str(label) = &c.pos[0] else { return Err(Fail::Unspec("begin")) };
                        env.scopes.push(vec![]);
                        let mut inner = vec![];
                        let (n, _) = self.block(toks, i, &Kind::Section(label.clone()), env, &mut inner, Some(t))?;
                        env.scopes.pop();
                        i = n;
                        out.extend_from_slice(&inner);
                        self.sections.push((label.clone(), inner));
                    }
                    "for" => i = self.for_loop(toks, i, t, c, env, out)?,
                    "ifdefined" => {
                        let Arg::Var(v) = &c.pos[0] else { unreachable!() };
                        let cond = !matches!(env.lookup(v), None | Some(V::Null));
                        i = self.conditional(toks, i, t, &c.name, cond, env, out)?;
                    }
                    n if n.starts_with("if") && BUILTINS.contains(&n) => {
                        let a = self.operand(&c.pos[0], env, t)?;
                        let b = self.operand(&c.pos[1], env, t)?;
                        let cond = compare(n, &a, &b)?;
                        i = self.conditional(toks, i, t, &c.name, cond, env, out)?;
                    }
                    "insert" => {
                        let Arg::Str(l) = &c.pos[0] else { unreachable!() };
                        match self.sections.iter().find(|(n, _)| n == l) {
                            Some((_, s)) => out.extend_from_slice(s),
                            None => return err(self.at(t), format!("no section {}", l)),
                        }
                    }
                    "import" => {
                        let (Arg::Var(v), Arg::Str(p)) = (&c.pos[0], &c.pos[1]) else { unreachable!() };
                        let Some(r) = resolve(p) else { return err(self.at(t), "path leaves content") };
                        let val = match self.site.files.get(&r) {
                            Some(Loaded::Json(j)) => j.clone(),
                            _ => return err(self.at(t), format!("{} is not a JSON file", p)),
                        };
                        if v.contains('.') {
                            return Err(Fail::Unspec("binding a dotted name"));
                        }
                        let scope = env.scopes.last_mut().unwrap();
                        if scope.iter().any(|(n, _)| n == v) {
                            return err(self.at(t), format!("${} already bound", v));
                        }
                        scope.push((v.clone(), val));
                    }
                    "excerpt" => {
                        let (Arg::Var(v), Arg::Int(n)) = (&c.pos[0], &c.pos[1]) else { unreachable!() };
                        let s = self.string(v, env, t)?;
                        out.extend_from_slice(excerpt(&s, *n as usize)?.as_bytes());
                    }
                    "timetoread" => {
                        let Arg::Var(v) = &c.pos[0] else { unreachable!() };
                        let s = self.string(v, env, t)?;
                        out.extend_from_slice(time_to_read(&s).to_string().as_bytes());
                    }
                    "dateformat" => {
                        let (Arg::Var(v), Arg::Str(f)) = (&c.pos[0], &c.pos[1]) else { unreachable!() };
                        let s = self.string(v, env, t)?;
                        match crate::date::render(&s, f) {
                            crate::date::D::Ok(x) => out.extend_from_slice(x.as_bytes()),
                            crate::date::D::Bad => return err(self.at(t), "not a date or format"),
                            crate::date::D::Unspec => return Err(Fail::Unspec("date")),
                        }
                    }
                    name => {
                        let Some((_, f)) = self.site.plugins.calls.iter().find(|(n, _)| n.iter().any(|x| x == name)) else {
                            return err(self.at(t), "unknown function");
                        };
                        f(c, self, env, out, t)?;
                    }
                },
            }
        }
    }

    pub fn string(&self, v: &str, env: &Env, t: &T) -> R<String> {
        match env.lookup(v) {
            Some(V::Str(s)) => Ok(s),
            o => err(self.at(t), format!("${} is {:?}", v, o)),
        }
    }

    fn operand(&self, a: &Arg, env: &Env, t: &T) -> R<V> {
        match a {
            Arg::Str(s) => Ok(V::s(s)),
            Arg::Int(i) => Ok(V::Num(*i as f64)),
            Arg::Var(v) => match env.lookup(v) {
                Some(x @ (V::Str(_) | V::Num(_))) => Ok(x),
                o => err(self.at(t), format!("operand ${} is {:?}", v, o)),
            },
            Arg::Ident(_) => unreachable!(),
        }
    }

    fn conditional(&mut self, toks: &[T], i: usize, t: &T, name: &str, cond: bool, env: &mut Env, out: &mut Vec<u8>) -> R<usize> {
        let kind = Kind::If(name.to_string());
        let mut inner = vec![];
        let n;
        if cond {
            env.scopes.push(vec![]);
            let (j, stop) = self.block(toks, i, &kind, env, &mut inner, Some(t))?;
            env.scopes.pop();
            if stop == Stop::Else {
                n = self.skip(toks, j, &kind, t, false)?.0;
            } else {
                n = j;
            }
        } else {
            let (j, stop) = self.skip(toks, i, &kind, t, true)?;
            if stop == Stop::Else {
                env.scopes.push(vec![]);
                let (k, stop) = self.block(toks, j, &kind, env, &mut inner, Some(t))?;
                env.scopes.pop();
                if stop == Stop::Else {
                    return Err(Fail::Unspec("second else"));
                }
                n = k;
            } else {
                n = j;
            }
        }
        out.extend_from_slice(&inner);
        Ok(n)
    }

    /// Passes over tokens which are not executed, up to the end (or else) of the block they are in.
    fn skip(&mut self, toks: &[T], mut i: usize, kind: &Kind, opener: &T, stop_at_else: bool) -> R<(usize, Stop)> {
        // open blocks inside the skipped region
        let mut open: Vec<(Kind, bool)> = vec![];
        let mut improper = None;
        loop {
            let Some(t) = toks.get(i) else {
                if improper.is_some() {
                    return Err(Fail::Unspec(improper.unwrap()));
                }
                return err_eof(self.at(opener), "block left open");
            };
            i += 1;
            let Tok::Call(c) = &t.t else { continue };
            match c.name.as_str() {
                "begin" => open.push((Kind::Section(if let Arg::Str(s) = &c.pos[0] { s.clone() } else { String::new() }), false)),
                "for" => open.push((Kind::For, false)),
                n if n.starts_with("if") && BUILTINS.contains(&n) => open.push((Kind::If(n.to_string()), false)),
                "else" => match open.last_mut() {
                    None => match kind {
                        Kind::If(_) if stop_at_else => {
                            return match improper {
                                None => Ok((i, Stop::Else)),
                                Some(u) => Err(Fail::Unspec(u)),
                            }
                        }
                        _ => improper = Some("second else in skipped text"),
                    },
                    Some((Kind::If(_), seen)) if !*seen => *seen = true,
                    Some(_) => improper = Some("misplaced else in skipped text"),
                },
                "end" => {
                    let top = open.pop().map(|x| x.0);
                    let of = top.as_ref().unwrap_or(kind);
                    let ok = match (&c.pos[0], of) {
                        (Arg::Str(l), Kind::Section(s)) => l == s,
                        (Arg::Ident(l), Kind::For) => l == "for",
                        (Arg::Ident(l), Kind::If(n)) => l == n,
                        _ => false,
                    };
                    if top.is_none() {
                        if let Some(u) = improper {
                            return Err(Fail::Unspec(u));
                        }
                        if !ok {
                            if *kind == Kind::For {
                                return Err(Fail::Unspec("wrong end of a loop without items"));
                            }
                            return err(self.at(t), "wrong end");
                        }
                        return Ok((i, Stop::End));
                    }
                    if !ok {
                        improper = Some("wrong end in skipped text");
                    }
                }
                _ => (),
            }
        }
    }

    fn items(&self, src: &Arg, env: &Env, t: &T) -> R<Vec<V>> {
        match src {
            Arg::Var(v) => match env.lookup(v) {
                Some(V::Arr(a)) => Ok(a),
                o => err(self.at(t), format!("loop over {:?}", o)),
            },
            Arg::Str(p) => {
                let Some(r) = resolve(p) else { return err(self.at(t), "path leaves content") };
                if p.ends_with(".json") {
                    match self.site.files.get(&r) {
                        Some(Loaded::Json(V::Arr(a))) => Ok(a.clone()),
                        _ => err(self.at(t), "not a JSON array file"),
                    }
                } else {
                    if !self.site.dirs.contains(&r) {
                        return err(self.at(t), "not a directory");
                    }
                    let mut v: Vec<(&str, V)> = vec![];
                    for (f, l) in &self.site.files {
                        let (d, b) = split(f);
                        if d == r {
                            if let Loaded::Md(m) = l {
                                v.push((b, m.value()));
                            }
                        }
                    }
                    v.sort_by(|a, b| a.0.cmp(b.0));
                    Ok(v.into_iter().map(|x| x.1).collect())
                }
            }
            _ => unreachable!(),
        }
    }

    fn for_loop(&mut self, toks: &[T], i: usize, t: &T, c: &Call, env: &mut Env, out: &mut Vec<u8>) -> R<usize> {
        let Arg::Var(var) = &c.pos[0] else { unreachable!() };
        let mut items = self.items(&c.pos[1], env, t)?;
        let opt = |n: &str| c.named.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone());
        if let Some(Arg::Var(key)) = opt("sortby") {
            let parts: Vec<&str> = key.split('.').skip(1).collect();
            // a plain insertion sort: stable by construction
            let mut sorted: Vec<(String, V)> = vec![];
            for it in items {
                let k = match select(&it, &parts) {
                    V::Str(s) => s,
                    _ => String::new(),
                };
                let p = sorted.iter().rposition(|(x, _)| *x <= k).map(|p| p + 1).unwrap_or(0);
                sorted.insert(p, (k, it));
            }
            items = sorted.into_iter().map(|x| x.1).collect();
        }
        if let Some(Arg::Str(s)) = opt("order") {
            if s == "desc" {
                items.reverse();
            }
        }
        let skip = match opt("skip") {
            Some(Arg::Int(n)) => n as usize,
            _ => 0,
        };
        let limit = match opt("limit") {
            Some(Arg::Int(n)) => n as usize,
            _ => usize::MAX,
        };
        let chosen: Vec<V> = items.into_iter().skip(skip).take(limit).collect();
        if chosen.is_empty() {
            return Ok(self.skip(toks, i, &Kind::For, t, false)?.0);
        }
        if var.contains('.') {
            return Err(Fail::Unspec("binding a dotted name"));
        }
        let mut end = i;
        for v in chosen {
            env.scopes.push(vec![(var.clone(), v)]);
            let mut inner = vec![];
            let (n, _) = self.block(toks, i, &Kind::For, env, &mut inner, Some(t))?;
            env.scopes.pop();
            out.extend_from_slice(&inner);
            end = n;
        }
        Ok(end)
    }
}

fn compare(op: &str, a: &V, b: &V) -> R<bool> {
    let eq = match (a, b) {
        (V::Str(x), V::Str(y)) => x == y,
        (V::Num(x), V::Num(y)) => x == y,
        _ => false,
    };
    match op {
        "ifeq" => return Ok(eq),
        "ifne" => return Ok(!eq),
        _ => (),
    }
    let (V::Num(x), V::Num(y)) = (a, b) else { return Err(Fail::Unspec("ordering of strings")) };
    Ok(match op {
        "ifgt" => x > y,
        "ifge" => x >= y,
        "iflt" => x < y,
        "ifle" => x <= y,
        _ => unreachable!(),
    })
}

pub fn excerpt(s: &str, n: usize) -> R<String> {
    // cut out the tags first
    let mut plain = String::new();
    let mut rest = s;
    while let Some(p) = rest.find('<') {
        plain.push_str(&rest[..p]);
        match rest[p..].find('>') {
            Some(q) => rest = &rest[p + q + 1..],
            None => {
                rest = "";
            }
        }
    }
    plain.push_str(rest);
    if plain.contains('>') {
        return Err(Fail::Unspec("stray > in text"));
    }
    let total = plain.chars().count();
    let mut out: String = plain.chars().take(n).collect();
    if total > n {
        out.push_str("...");
    }
    Ok(out)
}

pub fn time_to_read(s: &str) -> usize {
    let mut words = 0;
    let mut inside = false;
    for c in s.chars() {
        if c.is_whitespace() {
            inside = false;
        } else if !inside {
            inside = true;
            words += 1;
        }
    }
    std::cmp::max(1, words / 200)
}

pub fn split(f: &str) -> (&str, &str) {
    match f.rfind('/') {
        Some(p) => (&f[..p], &f[p + 1..]),
        None => ("", f),
    }
}

pub fn render_markdown(s: &str) -> String {
    let p = pulldown_cmark::Parser::new_ext(s, pulldown_cmark::Options::all());
    let mut h = String::new();
    pulldown_cmark::html::push_html(&mut h, p);
    h
}

/// All directories containing or leading to the given files (and the extra ones).
pub fn dirs_of<'x>(files: impl Iterator<Item = &'x String>) -> Vec<String> {
    let mut d: Vec<String> = vec![String::new()];
    for f in files {
        let mut cur = f.as_str();
        loop {
            let (p, _) = split(cur);
            if p.is_empty() {
                break;
            }
            if !d.contains(&p.to_string()) {
                d.push(p.to_string());
            }
            cur = p;
        }
    }
    d
}

pub type Files = BTreeMap<String, Vec<u8>>;

fn combine(first: &mut Option<Fail>, f: Fail) {
    // a definite error beats "unspecified"
    match (&first, &f) {
        (None, _) => *first = Some(f),
        (Some(Fail::Unspec(_)), Fail::Err { .. }) => *first = Some(f),
        _ => (),
    }
}

/// What building `content` produces: the files of the output tree (templates excluded).
pub fn build(content: &Files, env: &[(String, String)], plugins: &Plugins) -> R<Files> {
    build_dirs(content, &[], env, plugins)
}

pub fn build_dirs(content: &Files, extra_dirs: &[String], env: &[(String, String)], plugins: &Plugins) -> R<Files> {
    Ok(build_list(content, extra_dirs, env, plugins)?.into_iter().map(|o| (o.path, o.data)).collect())
}

/// A file of the output tree.
#[derive(Clone)]
pub struct Out {
    pub source: String,
    pub path: String,
    pub data: Vec<u8>,
    /// what the metadata says about it (name excluded)
    pub meta: V,
}

pub fn build_list(content: &Files, extra_dirs: &[String], env: &[(String, String)], plugins: &Plugins) -> R<Vec<Out>> {
    let mut fail: Option<Fail> = None;
    let mut files = BTreeMap::new();
    for (p, d) in content {
        match load(p, d, plugins) {
            Ok(l) => {
                files.insert(p.clone(), l);
            }
            Err(f) => combine(&mut fail, f),
        }
    }
    if let Some(f) = fail {
        return Err(f);
    }
    let mut dirs = dirs_of(content.keys());
    dirs.extend(extra_dirs.iter().cloned());
    let env_value = V::Obj(env.iter().map(|(k, v)| (k.clone(), V::s(v))).collect());
    let mut site = Site { files, dirs, plugins, env: env_value };

    let base = |site: &Site| Env { scopes: vec![vec![("env".to_string(), site.env.clone())]] };

    // Markdown bodies
    let mut html: Vec<(String, String)> = vec![];
    for (p, l) in &site.files {
        if let Loaded::Md(m) = l {
            let mut x = Exec { site: &site, sections: vec![], file: p.clone(), depth: 0 };
            match x.run(&m.toks, &mut base(&site)) {
                Ok(o) => match String::from_utf8(o) {
                    Ok(s) => html.push((p.clone(), render_markdown(&s))),
                    Err(_) => combine(&mut fail, Fail::Unspec("utf8")),
                },
                Err(f) => combine(&mut fail, f),
            }
        }
    }
    if let Some(f) = fail {
        return Err(f);
    }
    for (p, h) in html {
        if let Some(Loaded::Md(m)) = site.files.get_mut(&p) {
            m.html = Some(h);
        }
    }

    // Pages
    let nearest = |p: &str, name: &str| -> Option<(String, &Tokens)> {
        let mut d = split(p).0;
        loop {
            let f = if d.is_empty() { name.to_string() } else { format!("{}/{}", d, name) };
            if let Some(Loaded::Html(t)) = site.files.get(&f) {
                return Some((f, t));
            }
            if d.is_empty() {
                return None;
            }
            d = split(d).0;
        }
    };
    let mut out = vec![];
    for (p, l) in &site.files {
        let (dir, b) = split(p);
        if b == "root.html" || b == "md.html" {
            continue;
        }
        let mut page = |toks: &Tokens, file: &str, mut env: Env| -> R<Vec<u8>> {
            let Some((rf, root)) = nearest(p, "root.html") else { return err(None, "no root.html") };
            let mut x = Exec { site: &site, sections: vec![], file: file.to_string(), depth: 0 };
            x.run(toks, &mut env)?;
            x.file = rf;
            x.run(root, &mut base(&site))
        };
        let (name, r) = match l {
            Loaded::Html(toks) => (b.to_string(), page(toks, p, base(&site))),
            Loaded::Md(m) => {
                let name = format!("{}.html", &b[..b.len() - 3]);
                let r = match nearest(p, "md.html") {
                    None => err(None, "no md.html"),
                    Some((mf, mt)) => {
                        let mut e = base(&site);
                        e.scopes[0].push(("self".to_string(), m.value()));
                        page(mt, &mf, e)
                    }
                };
                (name, r)
            }
            Loaded::Custom(c) if c.fails => (b.to_string(), err(None, "the plugin cannot process the file")),
            Loaded::Custom(c) => {
                let mut d = c.data.clone().unwrap_or_else(|| content[p].clone());
                if c.sees_env {
                    let has = |n| nearest(p, n).is_some();
                    let e = env.iter().find(|(k, _)| k == "STUART_ENV").map(|x| x.1.as_str()).unwrap_or("?");
                    d.extend(format!("[root {} md {} env {}]", has("root.html"), has("md.html"), e).into_bytes());
                }
                (c.name.clone().unwrap_or_else(|| b.to_string()), Ok(d))
            }
            Loaded::Json(_) | Loaded::Other(_) => (b.to_string(), Ok(content[p].clone())),
        };
        match r {
            Ok(v) => {
                let o = if dir.is_empty() { name } else { format!("{}/{}", dir, name) };
                let kind = |k: &str, v: V| V::Obj(vec![("type".into(), V::s(k)), ("value".into(), v)]);
                let meta = match l {
                    Loaded::Md(m) => kind("markdown", V::Obj(m.front.iter().map(|(k, v)| (k.clone(), V::s(v))).collect())),
                    Loaded::Json(v) => kind("json", v.clone()),
                    Loaded::Custom(c) => c.meta.clone(),
                    _ => V::Obj(vec![("type".into(), V::s("file"))]),
                };
                out.push(Out { source: p.clone(), path: o, data: v, meta });
            }
            Err(f) => combine(&mut fail, f),
        }
    }
    match fail {
        Some(f) => Err(f),
        None => Ok(out),
    }
}
