//! Characters: every scalar value, every short sequence of ASCII characters, look-alikes, and the words of the languages
//! which meet in a template, because the other explorations enumerate all short texts over small alphabets.

use crate::cli::Conf;
use crate::cli_props::Tree;
use crate::core_props::section;
use crate::json::V;
use crate::ladders::{put, strs, tree};
use crate::rt::{Shard, Tier};
use crate::site::{Mode, Site, MD, ROOT};

/// Characters which are easily treated specially.
pub const SPECIAL: [char; 78] = [
    '\u{300}', '\u{301}', '\u{338}', '\u{345}', '\u{370}', '\u{37e}', '\u{3c3}', '\u{3c2}', '\u{430}', '\u{5d0}', '\u{61c}', '\u{627}', '\u{660}', '\u{6f0}', '\u{966}', '\u{e01}', '\u{1100}', '\u{115f}', '\u{1680}', '\u{180e}', '\u{1e9e}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}',
    '\u{2007}', '\u{2009}', '\u{200a}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{200e}', '\u{200f}', '\u{2013}', '\u{2018}', '\u{2019}', '\u{201c}', '\u{201d}', '\u{2024}', '\u{2026}', '\u{2028}', '\u{2029}', '\u{202e}', '\u{202f}', '\u{2044}', '\u{205f}', '\u{2060}', '\u{2066}', '\u{20ac}',
    '\u{2122}', '\u{212a}', '\u{212b}', '\u{2160}', '\u{2215}', '\u{2460}', '\u{3000}', '\u{3042}', '\u{4e00}', '\u{ac00}', '\u{d7ff}', '\u{e000}', '\u{f8ff}', '\u{fb01}', '\u{fe0f}', '\u{fe58}', '\u{feff}', '\u{ff04}', '\u{ff0e}', '\u{ff0f}', '\u{ff10}', '\u{ff21}', '\u{ff5b}', '\u{fffd}',
    '\u{ffff}', '\u{10000}', '\u{1d7ce}', '\u{1f600}', '\u{10ffff}',
];

/// Characters explored one by one.
pub fn singles(t: Tier) -> Vec<char> {
    match t {
        Tier::Quick => (0..0x300).filter_map(char::from_u32).chain(SPECIAL).collect(),
        Tier::Thorough | Tier::Deep => (0..0x10000).filter_map(char::from_u32).chain(SPECIAL.into_iter().filter(|c| *c as u32 > 0xffff)).collect(),
    }
}

/// Characters explored one by one where every case runs commands.
pub fn few(t: Tier) -> Vec<char> {
    (0..t.pick(0x300, 0x1000)).filter_map(char::from_u32).chain(SPECIAL.into_iter().filter(|c| *c as u32 >= t.pick(0x300, 0x1000))).collect()
}

/// All scalar values, in blocks.
pub fn blocks(t: Tier) -> Vec<Vec<char>> {
    let size = t.pick(1024, 256);
    (0..0x110000 / size).map(|b| (b * size..(b + 1) * size).filter_map(|c| char::from_u32(c as u32)).collect::<Vec<_>>()).filter(|b| !b.is_empty()).collect()
}

/// Strings which are different but are equal under some normalisation, or which read as something else.
pub const ALIKE: [&str; 56] = [
    "", " ", "  ", "a", "A", "a ", " a", "b", "é", "e\u{301}", "É", "ß", "ss", "ẞ", "ſ", "s", "\u{212a}", "k", "K", "0", "00", "1", "01", "1.0", "+1", "-0", "-1", "1e0", "10", "2", "true", "false", "null", "undefined", "\u{feff}a", "a\u{200b}", "a\u{0}", "a\n", "a\r\n", "a\t", "ﬁ", "fi", "İ", "i\u{307}", "ı", "i", "I", "\u{660}", "①", "ａ",
    "\u{a0}a", "a.b", "a/b", "a\\b", "\u{1f600}", "\u{ffff}",
];

/// Every sequence of three characters of the alphabet occurs in it.
fn de_bruijn(alphabet: &[char]) -> Vec<char> {
    // the greedy construction of the order: concatenates the Lyndon words whose length divides three
    let k = alphabet.len();
    let mut out = vec![];
    for a in 0..k {
        out.push(alphabet[a]);
        for b in a..k {
            for c in a..k {
                // abc is a Lyndon word iff it is smaller than its rotations
                if (a, b, c) < (b, c, a) && (a, b, c) < (c, a, b) {
                    out.extend([alphabet[a], alphabet[b], alphabet[c]]);
                }
            }
        }
    }
    out
}

const WORDS: [&str; 52] = [
    "<!-- ", " -->", "<!DOCTYPE html>", "<script>", "</script>", "<style>", "</style>", "<pre>", "</pre>", "<textarea>", "</body>", "&amp;", "&#123;", "{%", "%}", "{#", "#}", "${", "#{", "<%=", "%>", "[[", "]]", "}}}", "@x", "%7B%7B", "&lcub;", "http://x/?a=1&b={2}", "<br/>", "\t", "\u{a0}", "\u{feff}", "---", "=>",
    "--}}", "/*", "*/", "//", "'", "`", "```\n", "\\n", "\\\\", "\\}}", "\\{", "{ {", "} }", "\u{2028}", "\0", "\n\n\n", "  \n", "\r",
];

fn b() -> Site {
    Site::new(Mode::Output).with("root.html", ROOT).with("md.html", MD)
}

pub fn bounds(t: Tier) -> String {
    format!(
        "; characters: every scalar value in blocks of {}, each of {} characters alone in every position, {} look-alike strings in pairs{}",
        t.pick(1024, 256),
        singles(t).len(),
        ALIKE.len(),
        t.pick("", " (every BMP character)")
    )
}

/// A quoted string argument can hold anything but a quote.
fn quotable(c: char) -> bool {
    c != '"'
}

pub fn run(s: &mut Shard, id: &str) {
    let t = s.tier;
    let one = singles(t);
    match id {
        "C01" => {
            let md = section("{{ $self.content }}|{{ $self.markdown }}");
            let text = |s: &mut Shard, what: &str, n: usize, x: &dyn Fn() -> String| {
                for place in 0..4 {
                    put(s, &format!("{} (place {})", what, place), n, || {
                        let e = Site::new(Mode::Output);
                        match place {
                            0 => e.with("root.html", "<{{ insert(\"x\") }}>").with("p.html", section(&x())),
                            1 => e.with("root.html", format!("{}{{{{ insert(\"x\") }}}}", x())).with("p.html", section("P")),
                            2 => e.with("root.html", format!("{{{{ insert(\"x\") }}}}{}", x())).with("p.html", section("P")),
                            _ => e.with("root.html", ROOT).with("md.html", &md).with("p.md", x()),
                        }
                    });
                }
            };
            let tag = "{{ $env.STUART_ENV }}";
            for c in &one {
                text(s, "character", *c as usize, &|| format!("{c}{c}x{c}y{tag}{c}{tag} {c} \\{{{{{c}}} {{{c}{{ }}{c}}} {c}{tag}{c}\n{c}\n\\{c} {c}\\ {c}"));
                text(s, "only", *c as usize, &|| c.to_string());
            }
            for (i, x) in blocks(t).iter().enumerate() {
                text(s, "block", i, &|| x.iter().collect());
            }
            let ascii: Vec<char> = (0..128u8).map(|c| c as char).filter(|c| *c != '{').collect();
            let all = de_bruijn(&ascii);
            for (i, x) in all.chunks(t.pick(40_000, 10_000)).enumerate() {
                text(s, "triples", i, &|| x.iter().collect());
            }
            for c in 0..128u8 {
                if c != b'{' {
                    text(s, "around a brace", c as usize, &|| ascii.iter().map(|d| format!("{}{{{}", c as char, d)).collect::<String>());
                }
            }
            for (i, w) in WORDS.iter().enumerate() {
                for (j, v) in WORDS.iter().enumerate() {
                    text(s, "words", i * 100 + j, &|| format!("{w}{v} x {w} {v}{tag}{w}{tag}{v}\n{v}"));
                }
            }
        }
        "C03" => {
            let json = strs(ALIKE.iter().map(|x| x.to_string()));
            for (i, x) in ALIKE.iter().enumerate() {
                put(s, "alike", i, || {
                    let mut body = String::new();
                    for (j, y) in ALIKE.iter().enumerate() {
                        for f in ["ifeq", "ifne"] {
                            body += &format!("{i} {j} {{{{ {f}($v.{i}, $v.{j}) }}}}t{{{{ else() }}}}f{{{{ end({f}) }}}}{{{{ {f}($v.{i}, \"{y}\") }}}}t{{{{ else() }}}}f{{{{ end({f}) }}}}{{{{ {f}(\"{x}\", $v.{j}) }}}}t{{{{ else() }}}}f{{{{ end({f}) }}}}{{{{ {f}(\"{x}\", \"{y}\") }}}}t{{{{ else() }}}}f{{{{ end({f}) }}}}\n");
                        }
                    }
                    b().with("v.json", &json).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", body)))
                });
                for k in [0, 1, -1, 2, 10] {
                    put(s, &format!("alike and {}", k), i, || b().with("v.json", &json).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{{{{ ifeq($v.{i}, {k}) }}}}t{{{{ else() }}}}f{{{{ end(ifeq) }}}}{{{{ ifne({k}, \"{x}\") }}}}t{{{{ else() }}}}f{{{{ end(ifne) }}}}"))));
                }
                put(s, "defined alike", i, || b().with("v.json", V::Obj(vec![("k".into(), V::s(x))]).print()).with("p.html", section("{{ import($v, \"v.json\") }}{{ ifdefined($v.k) }}t{{ else() }}f{{ end(ifdefined) }}")));
            }
            let q: Vec<char> = one.iter().copied().filter(|c| quotable(*c)).collect();
            for (i, x) in q.chunks(128).enumerate() {
                put(s, "operands", i, || {
                    let body: String = x.iter().enumerate().map(|(j, c)| format!("{{{{ ifeq(\"{c}\", $v.{j}) }}}}t{{{{ else() }}}}f{{{{ end(ifeq) }}}}{{{{ ifeq(\"{c}\", $v.{}) }}}}t{{{{ else() }}}}f{{{{ end(ifeq) }}}}{{{{ ifne(\"x{c}y\", \"xy\") }}}}t{{{{ else() }}}}f{{{{ end(ifne) }}}}", (j + 1) % x.len())).collect();
                    b().with("v.json", strs(x.iter().map(|c| c.to_string()))).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", body)))
                });
            }
        }
        "C04" => {
            let item = |k: &str, n: usize| V::Obj(vec![("k".into(), V::s(k)), ("n".into(), V::s(&n.to_string()))]);
            for order in ["", ", order=\"desc\""] {
                for step in [1usize, 5, 11, 13, 27] {
                    put(s, &format!("sorted alike{}", order), step, || {
                        let l = V::Arr((0..ALIKE.len()).map(|i| item(ALIKE[i * step % ALIKE.len()], i)).collect());
                        b().with("l.json", l.print()).with("p.html", section(&format!("{{{{ for($i, \"l.json\", sortby=$i.k{}) }}}}{{{{ $i.n }}}} {{{{ end(for) }}}}", order)))
                    });
                }
                let all: Vec<char> = blocks(t).concat().into_iter().filter(|c| t != Tier::Quick || (*c as u32) < 0x1000 || *c as u32 % 64 == 63 || SPECIAL.contains(c)).collect();
                for (i, x) in all.chunks(2_000).enumerate() {
                    put(s, &format!("sorted characters{}", order), i, || {
                        let n = x.len();
                        let l = V::Arr((0..n).map(|i| item(&format!("x{}", x[i * 7919 % n]), i)).collect());
                        b().with("l.json", l.print()).with("p.html", section(&format!("{{{{ for($i, \"l.json\", sortby=$i.k{}) }}}}{{{{ $i.n }}}} {{{{ end(for) }}}}", order)))
                    });
                }
                // the names of the files order them
                for (i, x) in one.iter().copied().filter(|c| !matches!(c, '/' | '\0')).collect::<Vec<_>>().chunks(100).enumerate().filter(|(i, _)| *i < 12) {
                    put(s, &format!("files by name{}", order), i, || {
                        let mut c = b();
                        for ch in x {
                            c.set(&format!("d/x{}.md", ch), format!("{}", *ch as u32));
                        }
                        c.with("p.html", section(&format!("{{{{ for($i, \"d/\"{}) }}}}{{{{ $i.content }}}} {{{{ end(for) }}}}", order)))
                    });
                }
            }
        }
        "C05" => {
            let names: Vec<char> = one.iter().copied().filter(|c| c.is_alphanumeric() || *c == '_').collect();
            for (i, x) in names.chunks(100).enumerate() {
                put(s, "names", i, || {
                    let imports: String = x.iter().map(|c| format!("{{{{ import($v{c}, \"v{}.json\") }}}}", *c as u32)).collect();
                    let uses: String = x.iter().map(|c| format!("{{{{ $v{c}.k }}}}{{{{ ifdefined($v{c}{c}) }}}}D{{{{ end(ifdefined) }}}}{{{{ ifdefined(${c}) }}}}D{{{{ end(ifdefined) }}}}")).collect();
                    let mut e = b().with("p.html", section(&(imports + &uses)));
                    for c in x {
                        e.set(&format!("v{}.json", *c as u32), format!("{{\"k\":\"<{}>\"}}", *c as u32));
                    }
                    e
                });
                put(s, "properties", i, || {
                    let o = V::Obj(x.iter().map(|c| (format!("{}", c), V::s(&format!("<{}>", *c as u32)))).chain([("zz".to_string(), V::Null)]).collect());
                    let uses: String = x.iter().map(|c| format!("{{{{ $v.{c} }}}}{{{{ ifdefined($v.{c}{c}) }}}}D{{{{ end(ifdefined) }}}}{{{{ for($i, $w.{c}) }}}}{{{{ $i }}}}{{{{ end(for) }}}}")).collect();
                    let w = V::Obj(x.iter().map(|c| (format!("{}", c), V::Arr(vec![V::s(&format!("[{}]", *c as u32))]))).collect());
                    b().with("v.json", o.print()).with("w.json", w.print()).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{{{{ import($w, \"w.json\") }}}}{}", uses)))
                });
                put(s, "loop names", i, || {
                    let uses: String = x.iter().map(|c| format!("{{{{ for($n{c}, \"l.json\") }}}}{{{{ $n{c}.k }}}}{{{{ for($m{c}, $n{c}.l, sortby=$m{c}.k) }}}}{{{{ $m{c}.k }}}}{{{{ end(for) }}}}{{{{ end(for) }}}}")).collect();
                    b().with("l.json", "[{\"k\":\"1\",\"l\":[{\"k\":\"b\"},{\"k\":\"a\"}]},{\"k\":\"2\",\"l\":[]}]").with("p.html", section(&uses))
                });
            }
            for (i, c) in names.iter().enumerate() {
                if i < t.pick(700, 70_000) {
                    put(s, "uses of names", i, || b().with("v.json", format!("{{\"{c}\":{}}}", crate::ladders::USED)).with("p.html", section(&format!("{{{{ import($v{c}, \"v.json\") }}}}{}", crate::ladders::uses(&format!("$v{c}.{c}"))))));
                }
            }
            for (i, x) in blocks(t).iter().enumerate() {
                put(s, "values", i, || {
                    let raw: String = x.iter().collect();
                    let escaped: String = raw.encode_utf16().map(|u| format!("\\u{:04x}", u)).collect();
                    let v = V::Obj(vec![("k".into(), V::s(&raw))]).print();
                    b().with("v.json", v).with("w.json", format!("{{\"k\":\"{}\"}}", escaped)).with("p.html", section("{{ import($v, \"v.json\") }}{{ import($w, \"w.json\") }}[{{ $v.k }}]{{ $w.k }}"))
                });
            }
            for (i, x) in one.iter().copied().filter(|c| *c != '\0').collect::<Vec<_>>().chunks(64).enumerate() {
                put(s, "environment", i, || {
                    let mut c = b().with("p.html", section(&x.iter().enumerate().map(|(j, _)| format!("{{{{ $env.VC{} }}}}", j)).collect::<String>()));
                    for (j, ch) in x.iter().enumerate() {
                        c.env.push((format!("VC{}", j), format!("{ch}x{ch}{ch} {ch}")));
                    }
                    c
                });
            }
        }
        "C06" | "C07" => {
            let q: Vec<char> = one.iter().copied().filter(|c| quotable(*c)).collect();
            for (i, x) in q.chunks(96).enumerate() {
                put(s, "sections", i, || {
                    b().with("root.html", x.iter().map(|c| format!("{{{{ insert(\"{c}\") }}}}{{{{ insert(\"n{c}m\") }}}}")).collect::<String>())
                        .with("p.html", x.iter().rev().map(|c| format!("{{{{ begin(\"{c}\") }}}}<{0}>{{{{ end(\"{c}\") }}}}{{{{ begin(\"n{c}m\") }}}}[{0}]{{{{ end(\"n{c}m\") }}}}", *c as u32)).collect::<String>())
                });
            }
            for (i, x) in ALIKE.iter().enumerate() {
                put(s, "all alike", i, || {
                    b().with("root.html", format!("{{{{ insert(\"{x}\") }}}}")).with("p.html", ALIKE.iter().enumerate().map(|(j, y)| format!("{{{{ begin(\"{y}\") }}}}<{j}>{{{{ end(\"{y}\") }}}}")).collect::<String>())
                });
                for (j, y) in ALIKE.iter().enumerate() {
                    if id == "C06" {
                        put(s, "label and end", i * 100 + j, || b().with("p.html", format!("{}{{{{ begin(\"{x}\") }}}}A{{{{ end(\"{y}\") }}}}", section("P"))));
                    } else {
                        put(s, "section and insert", i * 100 + j, || b().with("root.html", format!("<{{{{ insert(\"{x}\") }}}}>")).with("p.html", format!("{{{{ begin(\"{y}\") }}}}A{{{{ end(\"{y}\") }}}}")));
                    }
                }
            }
        }
        "C08" => {
            let md = section("{{ $self.content }}|{{ $self.markdown }}");
            for (i, x) in blocks(t).iter().enumerate() {
                put(s, "value", i, || b().with("md.html", section("[{{ $self.k }}]{{ $self.content }}")).with("p.md", format!("---\nk: \"{}\"\n---\nbody", x.iter().filter(|c| !matches!(c, '\n' | '\r')).collect::<String>())));
                put(s, "body", i, || b().with("md.html", &md).with("p.md", format!("---\nk: \"v\"\n---\n{}", x.iter().collect::<String>())));
            }
            for c in one.iter().filter(|c| !matches!(c, '\n' | '\r')) {
                let n = *c as usize;
                for (what, v) in [("value", format!("{c}")), ("value start", format!("{c}v")), ("value end", format!("v{c}")), ("value middle", format!("v{c}{c}w"))] {
                    put(s, what, n, || b().with("md.html", section("[{{ $self.k }}]{{ $self.content }}")).with("p.md", format!("---\nk: \"{v}\"\n---\nbody")));
                }
                for (what, l) in [("before the quote", format!("k:{c}\"v\"")), ("after the quote", format!("k: \"v\"{c}")), ("before the key", format!("{c}k: \"v\"")), ("after the key", format!("k{c}: \"v\"")), ("in the key", format!("k{c}l: \"v\"")), ("after the dashes", String::new())] {
                    let dashes = if l.is_empty() { format!("---{c}") } else { "---".into() };
                    put(s, what, n, || b().with("md.html", section("{{ ifdefined($self.k) }}[{{ $self.k }}]{{ end(ifdefined) }}{{ $self.content }}")).with("p.md", format!("---\n{l}{}{dashes}\nbody", if l.is_empty() { "k: \"v\"\n" } else { "\n" })));
                }
                for (what, x) in [("before the front matter", format!("{c}---\nk: \"v\"\n---\nbody")), ("first", format!("{c}body")), ("last", format!("body{c}")), ("alone", format!("{c}")), ("line", format!("a\n{c}\nb")), ("lines", format!("{c} a\n\n{c}{c}{c}\nb\n{c}")), ("after the front matter", format!("---\nk: \"v\"\n---\n{c}\nbody{c}\n"))] {
                    put(s, what, n, || b().with("md.html", &md).with("p.md", x));
                }
            }
            for (i, w) in WORDS.iter().enumerate() {
                for (j, v) in WORDS.iter().enumerate() {
                    put(s, "words", i * 100 + j, || b().with("md.html", &md).with("p.md", format!("---\nk: \"v\"\n---\n{w}{v} x {w} {v}\n\n{v}")));
                }
            }
        }
        "C09" => {
            for c in &one {
                put(s, "character", *c as usize, || {
                    let x = [format!("{c}"), format!("{c}{c}ab{c}c"), format!("<{c}>a<b{c}>{c}"), format!("a{c}").repeat(250), format!("{c}a").repeat(500), format!("a{c}{c}").repeat(199) + "b", format!("ab{c}<i>{c}")];
                    let body: String = (0..x.len()).map(|i| format!("{0}: {{{{ excerpt($v.{0}, 0) }}}}|{{{{ excerpt($v.{0}, 1) }}}}|{{{{ excerpt($v.{0}, 2) }}}}|{{{{ excerpt($v.{0}, 3) }}}}|{{{{ excerpt($v.{0}, 1000) }}}}|{{{{ timetoread($v.{0}) }}}}\n", i)).collect();
                    b().with("v.json", strs(x.into_iter())).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}", body)))
                });
            }
            for (i, x) in blocks(t).iter().enumerate() {
                put(s, "block", i, || {
                    let x: String = x.iter().filter(|c| **c != '>').collect();
                    b().with("v.json", strs([x.clone(), x + &"a ".repeat(190)].into_iter())).with("p.html", section("{{ import($v, \"v.json\") }}{{ excerpt($v.0, 100) }}|{{ excerpt($v.0, 999) }}|{{ excerpt($v.0, 1024) }}|{{ timetoread($v.0) }}|{{ timetoread($v.1) }}"))
                });
            }
            for (i, w) in WORDS.iter().enumerate() {
                for (j, v) in WORDS.iter().enumerate() {
                    put(s, "words", i * 100 + j, || {
                        let x = format!("{w}a{v}b {w}{v}");
                        let body: String = (0..8).map(|k| format!("{{{{ excerpt($v.0, {}) }}}}|", k)).collect();
                        b().with("v.json", strs([x].into_iter())).with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{}{{{{ timetoread($v.0) }}}}", body)))
                    });
                }
            }
        }
        "C10" => {
            for c in one.iter().filter(|c| quotable(**c) && **c != '%') {
                put(s, "format character", *c as usize, || b().with("v.json", "[\"2024-02-29\"]").with("p.html", section(&format!("{{{{ import($v, \"v.json\") }}}}{{{{ dateformat($v.0, \"{c}%d{c}{c}%Y{c}\") }}}}"))));
            }
        }
        "C11" => {
            let site = |x: String| b().with("l.json", "[\"a\",\"b\"]").with("p.html", section(&x));
            for c in &one {
                let n = *c as usize;
                // parts of a call and of a reference, with the character in every position
                let parts = ["{{", "for", "(", "$i", ",", "\"l.json\"", ",", "skip", "=", "1", ")", "}}", "{{", "$i", "}}", "{{", "end", "(", "for", ")", "}}"];
                for at in 0..parts.len() - 1 {
                    if parts[at] == "}}" && at + 1 < parts.len() {
                        continue;
                    }
                    put(s, &format!("after part {}", at), n, || site(parts.iter().enumerate().map(|(i, p)| if i == at { format!("{p}{c}") } else { p.to_string() }).collect()));
                }
                if quotable(*c) {
                    put(s, "in a string", n, || {
                        let x = format!("a{c} {c}{c}b, {c}=1) {c}");
                        site(format!("{{{{ ifeq(\"{x}\", \"{x}\") }}}}Y{{{{ end(ifeq) }}}}{{{{ ifeq(\"{c}\",\"{c}\") }}}}Y{{{{ end(ifeq) }}}}{{{{ ifne(\"{c}x\",\"x{c}\") }}}}N{{{{ end(ifne) }}}}")).with("root.html", format!("{{{{ insert(\"x\") }}}}{{{{ insert(\"{x}\") }}}}")).with("q.html", section("q") + &format!("{{{{ begin(\"{x}\") }}}}S{{{{ end(\"{x}\") }}}}")).with("p.html", section("p") + &format!("{{{{ begin(\"{x}\") }}}}T{{{{ end(\"{x}\") }}}}"))
                    });
                }
                for (what, x) in [
                    ("digit", format!("{{{{ ifeq(1{c}, 1) }}}}Y{{{{ end(ifeq) }}}}")), ("digit alone", format!("{{{{ ifeq({c}, 1) }}}}Y{{{{ end(ifeq) }}}}")), ("sign", format!("{{{{ ifeq({c}1, 1) }}}}Y{{{{ end(ifeq) }}}}")), ("quote", format!("{{{{ ifeq({c}a{c}, \"a\") }}}}Y{{{{ end(ifeq) }}}}")), ("before a quote", format!("{{{{ ifeq({c}\"a\", \"a\") }}}}Y{{{{ end(ifeq) }}}}")),
                    ("after a quote", format!("{{{{ ifeq(\"a\"{c}, \"a\") }}}}Y{{{{ end(ifeq) }}}}")), ("for a dollar", format!("{{{{ {c}env.STUART_ENV }}}}")), ("for a bracket", format!("{{{{ ifeq{c}1, 1) }}}}Y{{{{ end(ifeq) }}}}")), ("for a comma", format!("{{{{ ifeq(1{c} 1) }}}}Y{{{{ end(ifeq) }}}}")), ("for an equals sign", format!("{{{{ for($i, \"l.json\", skip{c}1) }}}}Y{{{{ end(for) }}}}")),
                    ("for the last bracket", format!("{{{{ ifeq(1, 1{c} }}}}Y{{{{ end(ifeq) }}}}")), ("for the last brace", format!("{{{{ $env.STUART_ENV }}{c}")),
                ] {
                    put(s, what, n, || site(x));
                }
            }
        }
        "C12" => {
            let f: Vec<char> = one.iter().copied().filter(|c| quotable(*c) && !matches!(c, '/' | '\0')).collect();
            for (i, x) in f.chunks(64).enumerate() {
                if t != Tier::Quick && i > 400 {
                    break;
                }
                put(s, "names", i, || {
                    let mut c = b();
                    let mut body = String::new();
                    for (j, ch) in x.iter().enumerate() {
                        let v = *ch as u32;
                        c.set(&format!("f{ch}.json"), format!("[\"<{v}>\"]"));
                        c.set(&format!("d{ch}/{ch}.json"), format!("[\"[{v}]\"]"));
                        c.set(&format!("d{ch}/m.md"), format!("({v})"));
                        body += &format!("{{{{ import($a{j}, \"f{ch}.json\") }}}}{{{{ $a{j}.0 }}}}{{{{ for($i, \"d{ch}/{ch}.json\") }}}}{{{{ $i }}}}{{{{ end(for) }}}}{{{{ for($i, \"d{ch}/\") }}}}{{{{ $i.content }}}}{{{{ end(for) }}}}");
                    }
                    c.with("p.html", section(&body))
                });
            }
            for c in &f {
                for p in [format!("{c}l.json"), format!("l{c}.json"), format!("l.json{c}"), format!("d{c}l.json"), format!("d{c}/l.json"), format!("d/{c}l.json"), format!("{c}/l.json"), format!("{c}{c}/l.json"), format!("d/{c}/l.json")] {
                    put(s, "near names", *c as usize, || b().with("l.json", "[\"top\"]").with("d/l.json", "[\"in d\"]").with("p.html", section(&format!("{{{{ import($v, \"{p}\") }}}}{{{{ $v.0 }}}}"))));
                }
            }
        }
        "C20" => {
            let with = |x: String| {
                let mut c = b().with("two.json", "[\"a\",\"b\"]").with("p.html", section(&x));
                c.plugins = 1;
                c
            };
            for c in &one {
                let n = *c as usize;
                if quotable(*c) {
                    put(s, "string argument", n, || with(format!("{{{{ show(\"{c}\", \"a{c}{c}b\", k=\"{c}\") }}}}{{{{ set($v, \"{c}x{c}\") }}}}{{{{ $v }}}}")));
                }
                put(s, "in the name", n, || with(format!("{{{{ p{c}:show() }}}}")));
                put(s, "after the name", n, || with(format!("{{{{ show{c}() }}}}")));
                put(s, "argument", n, || with(format!("{{{{ show({c}) }}}}")));
                put(s, "argument with it", n, || with(format!("{{{{ show(a{c}, {c}1, $v{c}) }}}}")));
            }
            for (i, x) in blocks(t).iter().enumerate() {
                put(s, "file", i, || {
                    let mut c = with("P".into());
                    c.set("a.up", x.iter().collect::<String>());
                    c
                });
            }
        }
        "C13" | "C14" | "C19" => {
            let conf = |bits| Conf::of_bits(if id == "C19" { 4 + bits % 4 } else { bits % 8 });
            let f: Vec<char> = singles(Tier::Quick).into_iter().filter(|c| !matches!(c, '/' | '\0')).collect();
            for (i, x) in f.chunks(24).enumerate() {
                for k in 0..t.pick(2, 8) {
                    tree(s, &format!("names {}", k), i, || {
                        let mut c = Tree::base(conf(i + k));
                        for ch in x {
                            c.add(&format!("content/p{ch}.html"), section(&format!("{}", *ch as u32)));
                            c.add(&format!("content/{ch}{ch}.md"), format!("---\nt{}: \"{}\"\n---\nbody", *ch as u32, if matches!(ch, '\n' | '\r') { ' ' } else { *ch }));
                            c.add(&format!("content/d{ch}/j{ch}.json"), V::Obj(vec![(ch.to_string(), V::s(&format!("{ch}{ch}")))]).print());
                            c.add(&format!("static/s{ch}/{ch}s.t{ch}"), ch.to_string());
                            c.add(&format!("temp/t{ch}{ch}"), ch.to_string());
                        }
                        c
                    });
                }
            }
            // names which differ by a normalisation do not meet
            let a: Vec<String> = ALIKE.iter().filter(|x| !x.is_empty() && !x.contains(['/', '\0'])).map(|x| x.to_string()).collect();
            for k in 0..8 {
                tree(s, "alike", k, || {
                    let mut c = Tree::base(conf(k));
                    for (i, x) in a.iter().enumerate() {
                        match k % 3 {
                            0 => c.add(&format!("content/{x}.html"), section(&i.to_string())),
                            1 => c.add(&format!("content/{x}/{x}.txt"), i.to_string()),
                            _ => c.add(&format!("{}/{x}", if i % 2 == 0 { "static" } else { "content" }), i.to_string()),
                        }
                    }
                    c
                });
            }
            let parts = ["index", "root", "md", "html", "md.html", "json", "HTML", "Md", "", "a", "index.html", "txt", "htm", "gz"];
            for (i, x) in parts.iter().enumerate() {
                for (j, y) in parts.iter().enumerate() {
                    for k in 0..8 {
                        if id == "C19" && k > 3 {
                            continue;
                        }
                        let name = format!("{x}.{y}");
                        if matches!(name.as_str(), "." | "..") {
                            continue;
                        }
                        tree(s, "name parts", (i * 20 + j) * 8 + k, || {
                            let mut c = Tree::base(conf(k));
                            let text = if y.eq(&"json") { "[1]".to_string() } else { section("T{{ $env.STUART_ENV }}") };
                            c.add(&format!("content/{name}"), text.clone());
                            c.add(&format!("content/sub/{name}"), text.clone());
                            c.add(&format!("static/st/{name}"), text.clone());
                            c.add(&format!("static/{name}/f"), text.clone());
                            c
                        });
                    }
                }
            }
            if id == "C19" {
                for (i, x) in blocks(Tier::Quick).iter().enumerate() {
                    let x: String = x.iter().filter(|c| **c != '\0').collect();
                    tree(s, "values", i, || {
                        let mut c = Tree::base(conf(i));
                        c.add("content/j.json", V::Obj(vec![("k".into(), V::s(&x)), (x.clone(), V::Arr(vec![V::s(&x)]))]).print());
                        c.add("content/m.md", format!("---\nk: \"{}\"\n---\nbody", x.replace(['\n', '\r'], "")));
                        c
                    });
                }
                for c in singles(Tier::Quick) {
                    tree(s, "site name", c as usize, || Tree::base(Conf { name: format!("{c}n{c}{c}"), author: Some(format!("{c}")), ..conf(0) }));
                }
            }
        }
        _ => unreachable!(),
    }
}
