//! Every statement in every context: functions do not work differently in loops, branches, sections, templates,
//! Markdown bodies and after other statements.

use crate::core_props::section;
use crate::ladders::put;
use crate::rt::{Shard, Tier};
use crate::site::{Mode, Site};

const CONTEXTS: [(&str, &str, &str); 28] = [
    ("text", "a", "b"),
    ("if", "{{ ifeq(1, 1) }}", "{{ end(ifeq) }}"),
    ("if with else", "{{ ifgt($v.n, 4) }}", "{{ else() }}no{{ end(ifgt) }}"),
    ("else", "{{ ifne($v.s, $v.s) }}no{{ else() }}", "{{ end(ifne) }}"),
    ("skipped", "{{ ifeq(1, 2) }}", "{{ end(ifeq) }}"),
    ("skipped else", "{{ ifle(1, 2) }}yes{{ else() }}", "{{ end(ifle) }}"),
    ("ifdefined", "{{ ifdefined($v.s) }}", "{{ else() }}no{{ end(ifdefined) }}"),
    ("not defined", "{{ ifdefined($nope) }}no{{ else() }}", "{{ end(ifdefined) }}"),
    ("loop over a file", "{{ for($i, \"objs.json\") }}{{ $i.s }}", "{{ end(for) }}"),
    ("loop over a variable", "{{ for($o, $v.l) }}", "{{ $o.k }}{{ end(for) }}"),
    ("loop over a directory", "{{ for($f, \"list/\") }}", "{{ $f.t }}{{ end(for) }}"),
    ("loop with options", "{{ for($i, \"objs.json\", skip=1, limit=1, sortby=$i.s, order=\"desc\") }}", "{{ end(for) }}"),
    ("loop which shadows", "{{ for($v, \"objs.json\") }}", "{{ end(for) }}"),
    ("loop over itself", "{{ for($l, $v.l) }}{{ for($v, \"objs.json\") }}", "{{ end(for) }}{{ $l.k }}{{ end(for) }}"),
    ("empty loop", "{{ for($i, \"none.json\") }}", "{{ end(for) }}"),
    ("after an empty loop", "{{ for($i, \"none.json\") }}no{{ for($i, \"objs.json\") }}{{ end(for) }}{{ end(for) }}", ""),
    ("after a loop", "{{ for($i, \"objs.json\") }}{{ $i.s }}{{ end(for) }}", ""),
    ("section", "{{ begin(\"s\") }}", "{{ end(\"s\") }}"),
    ("after a section", "{{ begin(\"t\") }}t{{ end(\"t\") }}", ""),
    ("after an import", "{{ import($w, \"objs.json\") }}", "{{ $w.1.s }}"),
    ("after another import", "{{ import($v, \"other.json\") }}", ""),
    ("after a skipped block", "{{ ifeq(1, 2) }}{{ for($i, \"objs.json\") }}{{ begin(\"s\") }}no{{ end(\"s\") }}{{ end(for) }}{{ end(ifeq) }}", ""),
    ("before others", "", "{{ ifeq(1, 2) }}no{{ else() }}{{ $v.s }}{{ end(ifeq) }}{{ for($i, \"objs.json\") }}{{ $i.s }}{{ end(for) }}"),
    ("lines", "\n\r\n \t", "\n\n"),
    ("escapes", "\\{{ { {", "} }} \\"),
    ("Unicode", "é😀\u{feff}", "\u{2028}"),
    ("HTML", "<p class=\"{{ $v.s }}\">", "</p>"),
    ("after output", "{{ $v.s }}{{ excerpt($v.s, 3) }}{{ dateformat($v.d, \"%d\") }}", ""),
];

/// The statements of a property.
fn statements(id: &str) -> &'static [&'static str] {
    match id {
        "C01" => &["\\{{ x }}", "\\\\{{ $v.s }}", "{{{ x", "}}", "x{y}z", "\\{{{{ $v.s }}", "\r\n", "\\", "{{ $v.s }}{{ $v.d }}", "{ { $v.s } }"],
        "C03" => &[
            "{{ ifeq($v.n, 5) }}Y{{ else() }}N{{ end(ifeq) }}", "{{ ifne($v.s, \"some\") }}Y{{ end(ifne) }}", "{{ ifgt($v.n, 4) }}Y{{ else() }}N{{ end(ifgt) }}", "{{ ifge(5, $v.n) }}Y{{ else() }}N{{ end(ifge) }}", "{{ iflt($v.n, $v.m) }}Y{{ else() }}N{{ end(iflt) }}",
            "{{ ifle($v.m, $v.n) }}Y{{ else() }}N{{ end(ifle) }}", "{{ ifdefined($v.z) }}Y{{ else() }}N{{ end(ifdefined) }}", "{{ ifdefined($i) }}Y{{ else() }}N{{ end(ifdefined) }}", "{{ ifdefined($v.l.1.k) }}Y{{ end(ifdefined) }}",
            "{{ ifeq($v.n, 5) }}1{{ ifeq($v.n, 6) }}2{{ else() }}3{{ end(ifeq) }}4{{ else() }}5{{ end(ifeq) }}", "{{ ifeq($v.n, 6) }}1{{ ifeq($v.n, 5) }}2{{ else() }}3{{ end(ifeq) }}4{{ else() }}5{{ end(ifeq) }}", "{{ ifeq($v.s, 5) }}Y{{ else() }}N{{ end(ifeq) }}",
        ],
        "C04" => &[
            "{{ for($q, \"objs.json\") }}({{ $q.s }}){{ end(for) }}", "{{ for($q, $v.l) }}({{ $q.k }}){{ end(for) }}", "{{ for($q, \"list/\") }}({{ $q.t }}){{ end(for) }}", "{{ for($q, $v.l, sortby=$q.k) }}({{ $q.k }}){{ end(for) }}", "{{ for($q, $v.l, order=\"desc\") }}({{ $q.k }}){{ end(for) }}",
            "{{ for($q, \"objs.json\", skip=1) }}({{ $q.s }}){{ end(for) }}", "{{ for($q, \"objs.json\", limit=1) }}({{ $q.s }}){{ end(for) }}", "{{ for($q, \"none.json\") }}no{{ end(for) }}", "{{ for($i, $v.l) }}{{ for($i, \"objs.json\", limit=1, order=\"desc\") }}({{ $i.s }}){{ end(for) }}({{ $i.k }}){{ end(for) }}",
            "{{ for($q, \"list/\", sortby=$q.t, order=\"desc\", limit=1) }}({{ $q.t }}){{ end(for) }}", "{{ for($q, $v.s) }}{{ end(for) }}",
        ],
        "C05" => &[
            "{{ $v.s }}", "{{ $v.l.1.k }}", "{{ $env.STUART_ENV }}", "{{ $i.s }}", "{{ $o.k }}", "{{ $f.t }}", "{{ $w.0.s }}", "{{ $self.t }}", "{{ import($v, \"other.json\") }}{{ $v.s }}", "{{ import($n, \"other.json\") }}{{ $n.s }}{{ import($n, \"objs.json\") }}{{ $n.1.s }}",
            "{{ ifdefined($i) }}i{{ end(ifdefined) }}{{ ifdefined($o) }}o{{ end(ifdefined) }}{{ ifdefined($f) }}f{{ end(ifdefined) }}{{ ifdefined($w) }}w{{ end(ifdefined) }}{{ import($w, \"none.json\") }}", "{{ $nope }}", "{{ $v.nope }}",
        ],
        "C06" => &[
            "{{ ifeq(1, 1) }}", "{{ end(ifeq) }}", "{{ else() }}", "{{ for($i, \"objs.json\") }}", "{{ end(for) }}", "{{ begin(\"s\") }}", "{{ end(\"s\") }}", "{{ end(\"x\") }}", "{{ ifeq(1, 1) }}{{ begin(\"q\") }}{{ end(ifeq) }}{{ end(\"q\") }}", "{{ end(nothing) }}", "{{ ifdefined($v) }}{{ end(ifeq) }}",
        ],
        "C07" => &["{{ begin(\"s\") }}S{{ end(\"s\") }}", "{{ begin(\"u\") }}U{{ begin(\"s\") }}S{{ end(\"s\") }}{{ end(\"u\") }}", "{{ begin(\"s\") }}{{ end(\"s\") }}", "{{ insert(\"s\") }}", "{{ insert(\"x\") }}", "{{ insert(\"nope\") }}", "{{ begin(\"x\") }}inner{{ end(\"x\") }}"],
        "C08" => &["{{ $self.t }}", "{{ $self.content }}", "{{ $self.markdown }}", "{{ $f.content }}", "{{ for($m, \"list/\") }}{{ $m.content }}|{{ $m.markdown }}{{ end(for) }}", "# H\n\n* {{ $v.s }}\n* b\n", "{{ $self.nope }}", "`{{ $v.s }}`", "**{{ $v.s }}**"],
        "C09" => &["{{ excerpt($v.s, 3) }}", "{{ excerpt($v.long, 12) }}", "{{ excerpt($v.s, 0) }}", "{{ timetoread($v.long) }}", "{{ timetoread($v.s) }}", "{{ excerpt($i.s, 1) }}", "{{ excerpt($v.n, 1) }}", "{{ timetoread($f.t) }}", "{{ excerpt($f.t, 1) }}", "{{ timetoread($nope) }}"],
        "C10" => &[
            "{{ dateformat($v.d, \"%Y-%m-%d\") }}", "{{ dateformat($v.dt, \"%d %B %Y %H:%M\") }}", "{{ dateformat($v.d, \"%A, %j\") }}", "{{ dateformat($v.s, \"%Y\") }}", "{{ dateformat($v.dt, \"%z|%Z|%s\") }}", "{{ dateformat($i.d, \"%e %b\") }}", "{{ dateformat($v.d, \"%%%Y%n\") }}", "{{ dateformat($v.d, \"é %y {{ \") }}",
        ],
        "C11" => &[
            "{{$v.s}}", "{{\n$v.s\n}}", "{{  excerpt( $v.s ,3 )  }}", "{{\texcerpt($v.s,\n3)}}", "{{ excerpt($v.s, \"3\") }}", "{{ excerpt($v.s) }}", "{{ excerpt(3, $v.s) }}", "{{ nope() }}", "{{ excerpt($v.s, 3, 4) }}", "{{ dateformat($v.d, \"}}) , (\") }}", "{{ import(v, \"objs.json\") }}", "{{ for($q, $v.l,skip = 1) }}{{ end(for) }}",
            "{{ }}", "{{ excerpt($v.s, a=3) }}",
        ],
        "C12" => &[
            "{{ import($z, \"objs.json\") }}{{ $z.0.s }}", "{{ import($z, \"./objs.json\") }}{{ $z.0.s }}", "{{ import($z, \"d/in.json\") }}{{ $z }}", "{{ import($z, \"../objs.json\") }}", "{{ import($z, \"/objs.json\") }}", "{{ for($z, \"d/list/\") }}{{ $z.t }}{{ end(for) }}", "{{ for($z, \"list//\") }}{{ $z.t }}{{ end(for) }}", "{{ import($z, \"nope.json\") }}",
            "{{ import($z, \"d/./in.json\") }}{{ $z }}", "{{ import($z, \"list/a.md\") }}", "{{ for($z, \"../\") }}{{ end(for) }}",
        ],
        "C20" => &["{{ p::f($v.s) }}", "{{ f() }}", "{{ p::set($q, $v) }}{{ p::get($q.l.1) }}", "{{ p::set($v, for) }}{{ p::get($v.1.k) }}", "{{ p::get($i) }}{{ p::get($o) }}{{ p::get($v.n) }}", "{{ p::fail() }}", "{{ p::show($v, 1, \"s\", k=2) }}", "{{ p::nope() }}"],
        "C22" => &["{{ $nope }}", "{{ nope() }}", "{{ excerpt($v.n, 1) }}", "{{ ifeq(1,\n2,\n3) }}", "{{ import($z, \"nope.json\") }}", "{{ for($z, $v.s) }}{{ end(for) }}", "{{\n$nope\n}}", "{{ $v }}"],
        _ => &[],
    }
}

const OBJECT: &str = "{\"s\":\"some <b>text</b>\",\"d\":\"2021-02-03\",\"dt\":\"2021-02-03T04:05:06+01:00\",\"n\":5,\"m\":6.5,\"long\":\"LONG\",\"l\":[{\"k\":\"b\"},{\"k\":\"a\"},{\"k\":\"c\"}]}";
const OTHER: &str = "{\"s\":\"other\",\"d\":\"1999-12-31\",\"dt\":\"1999-12-31T23:59:59Z\",\"n\":4,\"m\":3,\"long\":\"short\",\"l\":[{\"k\":\"z\"},{\"k\":\"y\"}]}";

fn site(id: &str) -> Site {
    let mut s = Site::new(if id == "C22" { Mode::Location } else { Mode::Output });
    if id == "C20" {
        s.plugins = 5;
    }
    s.set("v.json", OBJECT.replace("LONG", &"word <i>and</i> more ".repeat(if id == "C09" { 300 } else { 3 })));
    s.set("other.json", OTHER);
    s.set("objs.json", format!("[{},{}]", OTHER, OTHER.replace("other", "third").replace("1999", "2007").replace("4", "5")));
    s.set("none.json", "[]");
    s.set("list/a.md", "---\nt: \"A\"\n---\n*a*\n\nb");
    s.set("list/b.md", "---\nt: \"B\"\n---\n<i>b</i>");
    s.set("d/in.json", "\"in\"");
    s.set("d/list/c.md", "---\nt: \"C\"\n---\nc");
    s
}

const PLACES: [&str; 6] = ["page", "page below", "root", "md.html", "Markdown", "Markdown in a loop"];

fn at(id: &str, place: usize, t: &str) -> Site {
    let mut s = site(id);
    let imp = "{{ import($v, \"v.json\") }}";
    let root = "<{{ insert(\"x\") }}|{{ insert(\"s\") }}>";
    let page = "{{ begin(\"s\") }}-{{ end(\"s\") }}{{ begin(\"x\") }}";
    let md = "{{ begin(\"s\") }}-{{ end(\"s\") }}{{ begin(\"x\") }}{{ $self.content }}{{ end(\"x\") }}";
    s.set("root.html", root);
    s.set("md.html", md);
    match place {
        0 => {
            s.set("p.html", format!("{page}{imp}{t}{{{{ end(\"x\") }}}}"));
            // another page starts from scratch
            s.set("q.html", "{{ begin(\"s\") }}{{ ifdefined($v) }}LEAK{{ end(ifdefined) }}{{ end(\"s\") }}".to_string() + &section("q"));
        }
        1 => {
            s.set("d/root.html", format!("d{root}"));
            s.set("d/e/p.html", format!("dropped{page}{imp}{t}{{{{ end(\"x\") }}}}"));
            s.set("p.html", format!("{page}{imp}{t}{{{{ end(\"x\") }}}}"));
        }
        2 => {
            s.set("root.html", format!("{imp}{t}{root}"));
            s.set("p.html", format!("{page}p{{{{ end(\"x\") }}}}"));
        }
        3 => {
            s.set("md.html", format!("{imp}{{{{ begin(\"s\") }}}}-{{{{ end(\"s\") }}}}{{{{ begin(\"x\") }}}}{t}{{{{ $self.content }}}}{{{{ end(\"x\") }}}}"));
            s.set("m.md", "---\nt: \"T\"\n---\nbody");
        }
        4 => {
            s.set("m.md", format!("---\nt: \"T\"\n---\n{imp}{t}"));
        }
        _ => {
            s.set("e/m.md", format!("---\nt: \"T\"\n---\n{imp}\n{t}"));
            s.set("p.html", format!("{page}{{{{ for($f, \"e/\") }}}}{{{{ $f.t }}}}{{{{ $f.content }}}}{{{{ end(for) }}}}{{{{ end(\"x\") }}}}"));
        }
    }
    s
}

pub fn bounds(t: Tier, id: &str) -> String {
    format!(
        "; {} statements in every nesting of <= {} of {} contexts at {} places; a variable of each of {} kinds hidden by one of each of {} kinds in {} ways, in {} statements; {} words as keys, names and labels",
        statements(id).len(),
        2 + t.more(),
        CONTEXTS.len(),
        PLACES.len(),
        VALUES.len(),
        VALUES.len(),
        HIDE.len(),
        hidden(id).len(),
        WORDS.len()
    )
}

/// Values of every kind.
const VALUES: [&str; 16] = [
    "null", "true", "5", "-2.5", "\"\"", "\"2021-02-03\"", "\"<b>t</b> w\"", "[]", "[1,2]", "[{\"k\":\"b\"},{\"k\":\"a\"}]", "[[{\"k\":\"in\"}]]", "{}", "{\"k\":\"v\"}", "{\"k\":[{\"k\":\"x\"}]}", "{\"k\":5}", "{\"k\":{\"k\":\"y\"}}",
];

/// How an inner variable hides an outer one of the same name.
const HIDE: [(&str, &str, &str); 6] = [
    ("import in a loop", "{{ import($v, \"a.json\") }}{{ for($q, \"one.json\") }}{{ import($v, \"b.json\") }}", "{{ end(for) }}"),
    ("loop", "{{ import($v, \"a.json\") }}{{ for($v, \"bs.json\") }}", "{{ end(for) }}"),
    ("loop in a loop", "{{ for($v, \"as.json\") }}{{ for($v, \"bs.json\") }}", "{{ end(for) }}{{ end(for) }}"),
    ("loop over a property", "{{ import($v, \"a.json\") }}{{ import($o, \"o.json\") }}{{ for($v, $o.l) }}", "{{ end(for) }}"),
    ("import", "{{ import($v, \"a.json\") }}{{ import($v, \"b.json\") }}", ""),
    ("after the loop", "{{ import($v, \"a.json\") }}{{ for($v, \"bs.json\") }}{{ end(for) }}", ""),
];

fn hidden(id: &str) -> &'static [&'static str] {
    match id {
        "C03" => &[
            "{{ ifdefined($v) }}Y{{ else() }}N{{ end(ifdefined) }}", "{{ ifdefined($v.k) }}Y{{ else() }}N{{ end(ifdefined) }}", "{{ ifdefined($v.k.0.k) }}Y{{ else() }}N{{ end(ifdefined) }}", "{{ ifdefined($v.0) }}Y{{ else() }}N{{ end(ifdefined) }}", "{{ ifeq($v, 5) }}Y{{ else() }}N{{ end(ifeq) }}", "{{ ifgt($v, 3) }}Y{{ else() }}N{{ end(ifgt) }}", "{{ ifne($v.k, \"v\") }}Y{{ else() }}N{{ end(ifne) }}",
            "{{ ifle($v.k, 5) }}Y{{ else() }}N{{ end(ifle) }}",
        ],
        "C04" => &["{{ for($p, $v) }}({{ ifdefined($p.k) }}{{ $p.k }}{{ end(ifdefined) }}){{ end(for) }}", "{{ for($p, $v.k) }}({{ $p.k }}){{ end(for) }}", "{{ for($p, $v.0) }}({{ $p.k }}){{ end(for) }}", "{{ for($p, $v, sortby=$p.k) }}({{ $p.k }}){{ end(for) }}", "{{ for($v, $v) }}({{ ifdefined($v.k) }}Y{{ end(ifdefined) }}){{ end(for) }}"],
        "C05" => &["{{ $v }}", "{{ $v.k }}", "{{ $v.0 }}", "{{ $v.0.k }}", "{{ $v.k.0.k }}", "{{ $v.k.k }}", "{{ $v.1.k }}"],
        "C09" => &["{{ excerpt($v, 3) }}", "{{ timetoread($v) }}", "{{ excerpt($v.k, 3) }}", "{{ timetoread($v.k) }}"],
        "C10" => &["{{ dateformat($v, \"%Y\") }}", "{{ dateformat($v.k, \"%Y\") }}"],
        "C20" => &["{{ p::show($v) }}", "{{ p::show($v.k, $v) }}", "{{ p::set($v, $v.k) }}{{ p::get($v) }}"],
        _ => &[],
    }
}

/// Words which mean something somewhere.
const WORDS: [&str; 64] = [
    "content", "markdown", "self", "env", "body", "html", "title", "date", "name", "path", "url", "type", "frontmatter", "metadata", "data", "item", "index", "index0", "first", "last", "length", "len", "size", "count", "key", "value", "keys", "values", "id", "parent", "children", "contents", "file", "files", "page",
    "pages", "root", "md", "site", "author", "plugins", "functions", "version", "json", "null", "true", "false", "undefined", "this", "super", "loop", "it", "main", "head", "for", "if", "else", "end", "begin", "insert", "import", "stuart", "variable", "section",
];

fn words(s: &mut Shard, id: &str) {
    for (i, w) in WORDS.iter().enumerate() {
        for (j, x) in WORDS.iter().enumerate() {
            if j > 8 && s.tier == Tier::Quick && i != j {
                continue;
            }
            let n = i * 100 + j;
            match id {
                "C05" => {
                    let body = format!("{{{{ import(${w}, \"v.json\") }}}}{{{{ ${w}.{x} }}}}{{{{ ${w}.{w}.{x} }}}}{{{{ for(${x}, ${w}.l) }}}}{{{{ ${x}.{w} }}}}{{{{ ifdefined(${w}.l) }}}}D{{{{ end(ifdefined) }}}}{{{{ end(for) }}}}{{{{ ${w}.{x} }}}}");
                    let v = format!("{{\"l\":[{{\"{w}\":\"1\"}},{{\"{w}\":\"2\"}}],\"{w}\":{{\"{x}\":\"in\"}}{}}}", if w == x { String::new() } else { format!(",\"{x}\":\"out\"") });
                    for place in [0, 2, 3, 4, 5] {
                        put(s, &format!("words {} {} at {}", w, x, PLACES[place]), n, || {
                            let mut e = at(id, place, &body.replace(&format!("{{{{ ${w}.{x} }}}}"), if w == x { "" } else { "{{ $W.X }}" }).replace("$W.X", &format!("${w}.{x}")));
                            e.set("v.json", &v);
                            e
                        });
                    }
                }
                "C07" => {
                    put(s, &format!("sections {} {}", w, x), n, || {
                        let y = if w == x { String::new() } else { format!("{{{{ begin(\"{x}\") }}}}X{{{{ end(\"{x}\") }}}}") };
                        Site::new(Mode::Output).with("root.html", format!("<{{{{ insert(\"{x}\") }}}}|{{{{ insert(\"{w}\") }}}}>")).with("md.html", format!("{{{{ begin(\"{w}\") }}}}{{{{ $self.content }}}}{{{{ end(\"{w}\") }}}}{y}")).with("p.html", format!("{{{{ begin(\"{w}\") }}}}W{{{{ end(\"{w}\") }}}}{y}")).with("m.md", "M")
                    });
                }
                "C08" => {
                    for one in [false, true] {
                        put(s, &format!("keys {} {}{}", w, x, if one { ", not in a loop" } else { "" }), n, || {
                            let fm = if w == x { format!("{w}: \"W\"") } else { format!("{w}: \"W\"\n{x}: \"X\"") };
                            let show = |v: &str| format!("[{{{{ ${v}.{w} }}}}|{{{{ ${v}.{x} }}}}|{{{{ ${v}.content }}}}|{{{{ ${v}.markdown }}}}]{{{{ ifdefined(${v}.title) }}}}T{{{{ end(ifdefined) }}}}");
                            let e = Site::new(Mode::Output).with("root.html", "{{ insert(\"x\") }}").with("md.html", section(&if one { show("self") } else { "{{ $self.content }}".into() })).with("d/a.md", format!("---\n{fm}\n---\n*body*")).with("d/b.md", format!("---\n{fm}\n---\nother"));
                            if one {
                                e
                            } else {
                                e.with("p.html", section(&format!("{{{{ for($i, \"d/\", sortby=$i.{w}, order=\"desc\") }}}}{}{{{{ end(for) }}}}", show("i"))))
                            }
                        });
                    }
                }
                _ => return,
            }
        }
    }
}

fn hide(s: &mut Shard, id: &str) {
    for (k, st) in hidden(id).iter().enumerate() {
        for (i, a) in VALUES.iter().enumerate() {
            for (j, b) in VALUES.iter().enumerate() {
                for (h, (what, before, after)) in HIDE.iter().enumerate() {
                    for place in 0..PLACES.len() {
                        if s.tier == Tier::Quick && place != (h + k + i) % PLACES.len() {
                            continue;
                        }
                        put(s, &format!("statement {} where {} hides {} by {} at {}", k, b, a, what, PLACES[place]), 3, || {
                            let mut e = at(id, place, &format!("{before}{st}{after}{st}"));
                            for (f, v) in [("a.json", a.to_string()), ("b.json", b.to_string()), ("as.json", format!("[{a}]")), ("bs.json", format!("[{b}]")), ("one.json", "[1]".into()), ("o.json", format!("{{\"l\":[{b},{b}]}}"))] {
                                e.set(f, v);
                            }
                            e
                        });
                        let _ = j;
                    }
                }
            }
        }
    }
}

pub fn run(s: &mut Shard, id: &str) {
    hide(s, id);
    words(s, id);
    let n = CONTEXTS.len();
    let depth = 2 + s.tier.more();
    for (k, st) in statements(id).iter().enumerate() {
        for place in 0..PLACES.len() {
            crate::core_props::seqs(n, depth, &mut |q| {
                let mut t = st.to_string();
                for c in q.iter().rev() {
                    t = format!("{}{}{}", CONTEXTS[*c].1, t, CONTEXTS[*c].2);
                }
                let names: Vec<&str> = q.iter().map(|c| CONTEXTS[*c].0).collect();
                put(s, &format!("statement {} at {} in {}", k, PLACES[place], names.join(", ")), q.len(), || at(id, place, &t));
            });
        }
    }
}
