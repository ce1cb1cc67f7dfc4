#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os

P = []

def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

PARSER = "stuart-core/src/parse/parser.rs"
PARSE = "stuart-core/src/parse/mod.rs"
PROC = "stuart-core/src/process/mod.rs"
FS = "stuart-core/src/fs/mod.rs"
LIB = "stuart-core/src/lib.rs"
FN = "stuart-core/src/functions/parsers/"

p("C01", "Text outside template tags reaches the page unchanged",
  "Everything in a template outside `{{ ... }}` tags appears in the built page byte for byte and in its original position, whatever characters it contains (line endings, lone or repeated braces, backslashes, multi-byte characters). A backslash directly before `{{` makes those two braces literal: the output contains exactly `{{` in place of the three characters, no tag is started by them, and the text after them is processed normally. Each tag is replaced by exactly its own output, with no character around it gained or lost.",
  ["inputs"], "every template text, in pages, root and markdown templates alike",
  "One test has an escape followed by a space; no test has adjacent braces, backslashes, CRLF or a tag directly after an escape, and test comparison strips all line breaks.",
  [PARSER, PARSE, PROC],
  [("scan to the next tag, honouring a preceding backslash", PARSER + " extract_until"), ("remaining text", PARSER + " extract_remaining"), ("token stream", PARSE + " parse_html"), ("raw token output", PROC + " LocatableToken::process")],
  ["contents of the built page"])

p("C02", "No input text can crash or hang a build",
  "For every UTF-8 content of an HTML template, Markdown file or JSON file, loading and building the site either succeeds or returns an error. It never panics, aborts, or loops for ever, including on truncated tags, unterminated quotes, arbitrary function arguments and front matter, and with any process environment (including variables that are not valid Unicode). Blocks nested more than 100 deep may be rejected with an error.",
  ["inputs", "configurations"], "every file content and process environment",
  "All tests build well-formed inputs; malformed ones are never loaded.",
  [PARSE, PARSER, "stuart-core/src/parse/function.rs", "stuart-core/src/parse/markdown.rs", LIB, FS],
  [("error returns instead of unwraps", PARSE + " parse_function / RawArgument::parse"), ("front matter errors", "stuart-core/src/parse/markdown.rs"), ("markdown values before preprocessing", "stuart-core/src/parse/markdown.rs to_value"), ("environment capture", LIB + " build")],
  ["result of Stuart::build", "exit status of the stuart command"])

p("C03", "Conditionals select exactly one branch",
  "An if block (`ifeq`, `ifne`, `ifgt`, `ifge`, `iflt`, `ifle`, `ifdefined`) outputs its first branch when its condition holds and the part after its own `else()` (or nothing) when it does not, whatever blocks are nested in either branch; the branch not taken has no effect at all. Comparing two numbers agrees with their mathematical order, equality of strings is exact, a number never equals a string, and `ifdefined` holds exactly for variables (or properties) that exist and are not null. Comparing a variable which is undefined or is not a string or number is an error.",
  ["inputs", "programs"], "every condition, operand pair and nesting of blocks",
  "The one conditional test uses one string and one integer comparison, never nests blocks in a conditional and never uses ifle or ifgt.",
  [FN + "if.rs", FN + "ifdefined.rs", FN + "else.rs", "stuart-core/src/functions/mod.rs"],
  [("branch execution and skipping", FN + "if.rs execute"), ("definedness", FN + "ifdefined.rs execute"), ("operand evaluation and comparison", "stuart-core/src/functions/mod.rs Input")],
  ["contents of the built page"])

p("C04", "A for loop visits exactly the selected items, in order",
  "A `for` block outputs its body once per selected item, with the loop variable bound to that item, and then the page continues after the matching `end(for)`; with no selected items it outputs nothing and is not an error. The selected items are those of the array (a JSON file, a variable or property, or the Markdown files directly in a directory, by file name), sorted by the `sortby` string property if given (stable, a missing one sorting first), reversed for `order=\"desc\"`, then without the first `skip` ones, then cut to `limit`. Anything that is not an array or an existing directory or file is an error.",
  ["inputs", "programs"], "every source, size, ordering, skip/limit combination and nesting",
  "Tests use arrays of two or three items, one skip/limit pair and never an empty selection.",
  [FN + "for.rs", "stuart-core/src/process/iter.rs"],
  [("item selection", FN + "for.rs execute"), ("body replay by rewinding", "stuart-core/src/process/iter.rs")],
  ["contents of the built page"],
  [("token iterator position", "where execution of the page is", "stuart-core/src/process/iter.rs")])

p("C05", "Variables resolve to the innermost live definition",
  "A variable reference yields the value most recently bound by an enclosing block that is still open (loop variables and imports last exactly until the block they were made in ends), with each dotted part selecting an object property or array index of it. Outputting a variable that is undefined, null or not a string is an error, never blank or wrong text; importing under a name already bound in the same block is an error. Page variables are not visible in the root template or in other pages, and `$env` holds the process environment with `STUART_ENV` set to the environment of this build.",
  ["programs", "inputs"], "every sequence of bindings, blocks and references",
  "Tests only read variables that exist, have no shadowing and never check that a scope ends.",
  [PROC, "stuart-core/src/process/stack.rs", FN + "import.rs", FN + "for.rs", LIB],
  [("lookup down the stack", PROC + " Scope::get_variable, LocatableToken::process"), ("indexing", "stuart-core/src/process/stack.rs get_value"), ("immutability", FN + "import.rs execute"), ("base frame", LIB + " build")],
  ["contents of the built page"],
  [("stack frames", "open blocks with their variables and output", "stuart-core/src/process/stack.rs")])

p("C06", "Badly nested blocks never produce a page",
  "If, among the tags that are executed, a block (`begin`, `for`, an `if`, `ifdefined`) is closed by the wrong `end`, closed twice, left open at the end of its file, or `else()` appears directly inside anything but an if block, the build fails. This holds in pages, Markdown files, `md.html` and `root.html`; properly nested blocks never fail for that reason.",
  ["programs"], "every sequence of opening and closing tags",
  "Every test page is well nested, so the balance checks are never exercised.",
  [FN + "end.rs", FN + "begin.rs", FN + "else.rs", FN + "if.rs", FN + "for.rs", PROC],
  [("frame names", FN + "end.rs execute"), ("final stack check", PROC + " process_html, process_markdown, preprocess_markdown")],
  ["result of Stuart::build"],
  [("stack frames", "open blocks", "stuart-core/src/process/stack.rs")])

p("C07", "Pages are composed from the nearest root and their own sections",
  "Each page is the `root.html` of the nearest directory at or above it (the most specific one), with every `insert(\"s\")` replaced by what that page put in section `s`, every time it is inserted, and nothing else of the page; a page missing an inserted section, or with no root template above it, is an error. The first definition of a section in a page counts. Sections and variables of one page never appear in another page.",
  ["inputs", "configurations"], "every directory tree, placement of templates and set of sections",
  "The tests have a single directory with a single root template and one or two sections.",
  [LIB, PROC, FN + "insert.rs", FN + "end.rs"],
  [("nearest template lookup", LIB + " update_from_children, build_node"), ("section storage", FN + "end.rs"), ("section insertion", FN + "insert.rs"), ("two-phase processing", PROC + " process_html")],
  ["contents of every built page"],
  [("environment", "current root and md templates", LIB)])

p("C08", "Markdown pages expose exactly their front matter and rendered body",
  "A Markdown file `x.md` becomes page `x.html`, rendered through the nearest `md.html` and then the nearest `root.html`, with `$self.<key>` equal to the quoted text of each front matter line `key: \"value\"`, `$self.markdown` the source after the front matter (line by line; line endings may be normalised and a final one dropped) and `$self.content` its HTML after executing the template tags in it. A file not starting with a `---` line has no front matter and all of it is body; malformed or unterminated front matter is an error. The same properties and content are given for each file when looping over its directory; front matter properties are available there even from within another Markdown file.",
  ["inputs"], "every front matter text, line ending and body",
  "Four small Markdown files with one or two simple keys and LF line endings are all that is tested.",
  ["stuart-core/src/parse/markdown.rs", PROC, LIB, FN + "for.rs"],
  [("front matter parser", "stuart-core/src/parse/markdown.rs parse_markdown"), ("preprocessing", PROC + " preprocess_markdown"), ("page rendering", PROC + " process_markdown"), ("values", "stuart-core/src/parse/markdown.rs to_value")],
  ["contents and names of built pages"])

p("C09", "Excerpt and time-to-read are exact for any text",
  "`excerpt($s, n)` outputs the first n characters of $s counted without HTML tags (everything from `<` to the next `>`; what a `>` outside a tag counts as is unspecified), all of them if there are fewer, followed by `...` exactly when some characters outside tags were left out. `timetoread($s)` outputs the number of whitespace-separated words divided by 200, rounded down, but at least 1. Both fail on an undefined variable or one that is not a string.",
  ["inputs"], "every string and length",
  "Tests use two ASCII strings and two lengths, far from the boundary; timetoread is tested at its minimum only.",
  [FN + "excerpt.rs", FN + "timetoread.rs"],
  [("excerpt scan", FN + "excerpt.rs execute"), ("word count", FN + "timetoread.rs execute")],
  ["contents of the built page"])

p("C10", "Dates are formatted as the moment they denote",
  "`dateformat($d, \"f\")` renders the moment written in $d (ISO dates, `YYYY-MM-DD HH:MM[:SS]`, RFC 3339 with any offset, `Month D, YYYY` style dates, Unix timestamps in seconds) in UTC according to the strftime format f, a date without a time being midnight. A string which is not a date, a variable that is undefined or not a string, and an invalid format are errors, never a crash or a wrong date.",
  ["inputs"], "every date and format",
  "One test formats two dates with one format.",
  [FN + "dateformat.rs"],
  [("parse and format", FN + "dateformat.rs execute"), ("panic containment for invalid formats", FN + "dateformat.rs execute")],
  ["contents of the built page"])

p("C11", "Malformed tags and invalid calls are rejected",
  "A tag is accepted only if it is a variable reference or a call of an existing function with the number, kinds and names of arguments that function takes; anything else (unknown function, wrong argument count or type, unknown or repeated option, positional after named argument, negative skip/limit/length, unquoted text, text between the call and `}}`) fails the build even in parts of the page that are never executed. Every valid call is accepted whatever the white space between its parts, and string arguments are taken literally, including commas, parentheses and `=` inside quotes.",
  ["inputs"], "every tag text up to the bound",
  "Only correct calls appear in the tests.",
  [PARSE, "stuart-core/src/parse/function.rs", FN],
  [("tag grammar", PARSE + " parse_function, parse_variable"), ("argument grammar", "stuart-core/src/parse/function.rs RawArgument::parse"), ("per-function checks", FN + "*.rs parse")],
  ["result of Stuart::build"])

p("C12", "Templates can only read files of the content directory",
  "The path given to `import` or `for` is resolved inside the project's content directory: it names the file or directory reached from its root by the given parts (with `.` and empty parts ignored), and a path containing `..`, an absolute path, or one that does not exist is an error. No template can make data from outside the content directory appear in the output.",
  ["inputs"], "every path over the bound's components",
  "Tests import existing files in the root directory only.",
  [FS, FN + "import.rs", FN + "for.rs"],
  [("lookup in the virtual tree", FS + " Node::get_at_path")],
  ["contents of the built page", "result of Stuart::build"])

p("C13", "The output directory holds exactly the expected files",
  "After a successful build the output directory contains exactly one file for each page, for each other content file that is not a template (`root.html`, `md.html`) or JSON data (unless `save_data_files`), and for each file in `static` and each file the pre-build script puts in `temp`, at the same relative path, and nothing from earlier builds. With `strip_extensions`, page `p.html` other than `index.html` is written as `p/index.html`; static files keep their names, and every file that is not a template or page is copied byte for byte. `temp` is gone afterwards.",
  ["inputs", "configurations", "histories"], "every project tree and configuration",
  "The tests build one page and look only at index.html.",
  [FS, LIB, "stuart/src/build.rs"],
  [("naming and filtering", FS + " save_recur"), ("merging static and temp", "stuart/src/build.rs build"), ("removing the old output", FS + " save")],
  ["files under the output directory"])

p("C14", "Two sources for one output file fail the build",
  "If two input files (content, static or temp; pages produced from Markdown, stripped extensions and the resulting directories included) would be written to the same output path, the build fails and the previous output is left as it was. A successful build therefore never loses or overwrites any file, and inputs whose output paths differ never conflict. (A file saved at the path of a directory that holds no output files is unspecified.)",
  ["inputs", "configurations"], "every set of input files and configuration",
  "No test has a static file with the name of a page, nor two pages of one name.",
  [FS, "stuart/src/build.rs"],
  [("merge conflict check", FS + " Node::merge"), ("save", FS + " Node::save")],
  ["result of the build", "files under the output directory"])

p("C15", "A failed build leaves sources and previous output untouched",
  "When a build fails for any reason before the finished site is written (manifest, plugin, pre-build script, parse, template or conflict errors), the stuart command exits with a non-zero status and a message, and the output directory and metadata of the last successful build remain exactly as they were. No build, successful or not, and with whatever output directory is requested, changes or deletes anything in the project outside the output directory, `temp`, `_build` and `metadata.json`; a requested output directory that contains, or lies in, a source of the project is refused.",
  ["histories", "fault_sequences", "inputs"], "every kind and place of failure after every history of builds, and every output directory",
  "No test builds twice, and none builds a broken site.",
  ["stuart/src/build.rs", "stuart/src/main.rs", FS, LIB],
  [("everything is computed in memory before saving", "stuart/src/build.rs build"), ("the output directory is replaced only in save", FS + " save"), ("exit status", "stuart/src/main.rs main")],
  ["project directory before and after", "exit status"])

p("C16", "A build depends only on the project's current files",
  "The result of a build is a function of the project's current files, configuration and environment: it does not depend on the order in which the operating system lists directories, on earlier builds (successful, failed, or killed at any point) in the same process or project directory, or on files that have since been changed or removed. Building again after any such history gives the same output as building a fresh copy of the project.",
  ["histories", "crash_points", "schedules"], "every directory listing order, build history and crash point within the bound",
  "Every test builds once in a fresh checkout with whatever listing order the disk has.",
  [LIB, FS, "stuart/src/build.rs"],
  [("state replaced on each build", LIB + " build"), ("directory traversal", FS + " create_from_dir"), ("temp and dist removal", "stuart/src/build.rs")],
  ["files under the output directory after the last build"],
  [("Stuart.input/output/base", "state kept between builds of one process", LIB)])

p("C17", "I/O failures are reported, never turned into a wrong site",
  "If reading the project (manifest, content, static, temp) or writing the output or metadata fails at any point, the stuart command exits with a non-zero status instead of reporting success. Whenever it exits with status zero, the output is complete and correct, also when system calls transfer fewer bytes than asked or are interrupted.",
  ["fault_sequences"], "every single failing file operation of a build, and every short or interrupted transfer",
  "No test injects a failure.",
  [FS, "stuart/src/build.rs", LIB],
  [("error mapping", FS + " create_from_dir, create_from_file, save, save_recur"), ("existence tests", "stuart/src/build.rs build")],
  ["exit status", "files under the output directory"])

p("C18", "Build scripts run once, in order, with their environment",
  "For each build the pre-build scripts run before any content, static or temp file is read, and the post-build scripts after all output and metadata have been written, each exactly once, with `STUART_MANIFEST_PATH`, `STUART_MANIFEST_DIR`, `STUART_TEMP_DIR`, `STUART_OUT_DIR` and `STUART_ENV` set to the documented values, and otherwise in the working directory and environment of the stuart command. A script that fails makes the build fail with a non-zero status: after a failing pre-build script nothing is built or saved. Files a pre-build script puts in the temp directory appear in the output, and the temp directory does not outlive the build, whether or not it succeeds.",
  ["configurations", "histories", "fault_sequences"], "every combination of scripts, outcomes and project states",
  "No test project has a script.",
  ["stuart/src/scripts.rs", "stuart/src/build.rs"],
  [("script discovery and execution", "stuart/src/scripts.rs"), ("ordering", "stuart/src/build.rs build"), ("environment", "stuart/src/build.rs init")],
  ["traces written by the scripts", "output directory", "exit status"])

p("C19", "metadata.json mirrors the built tree exactly",
  "With `save_metadata`, a successful build writes `metadata.json` as valid JSON holding the site's name and author and, under `data`, one entry for every file and directory of the merged site (templates may be left out) with its name and nesting, giving type and front matter for Markdown pages and type and full value for JSON files, and nothing else. Without it no metadata file is written. Names and values survive unchanged, whatever characters they contain.",
  ["inputs", "configurations"], "every tree, front matter and JSON value within the bound",
  "No test enables metadata.",
  [FS, LIB, "stuart-core/src/parse/contents.rs", "stuart/src/build.rs"],
  [("export", FS + " save_metadata_recur"), ("per-file values", "stuart-core/src/parse/contents.rs to_json"), ("enabling", LIB + " save_metadata")],
  ["metadata.json"])

p("C20", "Plugin functions and parsers are dispatched as documented",
  "A call `f(...)` runs the built-in `f` if there is one and otherwise a plugin function named `f`; `p::f(...)` runs function `f` of plugin `p` and never another one. It receives exactly the arguments written, may read and set variables, and its output or error becomes that of the tag wherever it is called (loops and conditionals included). A file whose extension no built-in type claims is processed by the plugin parser declaring that extension and takes the name and contents it returns; other files are left alone, and an error from a parser fails the build.",
  ["programs", "configurations"], "every set of plugins, names and call positions within the bound",
  "Native plugins are not tested at all.",
  [PARSE, FS, PROC, "stuart-core/src/plugins/mod.rs"],
  [("function dispatch", PARSE + " parse_function"), ("parser dispatch", FS + " create_from_file"), ("custom contents", PROC + " Node::process")],
  ["contents and names of built files"])

p("C21", "JavaScript plugins exchange values faithfully and stay isolated",
  "A value passed to a JavaScript function, or read with `STUART.get`, is the JSON value of that variable; a value given to `STUART.set` is what the page and later `STUART.get` calls in that scope see (properties that JSON cannot express being dropped, array elements null), replacing any earlier value. A function's result is output as text unless it is undefined, in every position where a tag may appear, including inside conditionals and loops. An exception thrown by a function fails the build. Plugins do not see each other's state, and state of one plugin persists across calls.",
  ["inputs", "programs", "histories"], "every JSON value and call sequence within the bound",
  "Two tests call six functions with scalars, outside any block, and never pass arrays, nulls or nested values back.",
  ["stuart/src/plugins/js/mod.rs", "stuart/src/plugins/js/json.rs", "stuart/src/plugins/js/context.rs"],
  [("conversion", "stuart/src/plugins/js/json.rs"), ("scope access", "stuart/src/plugins/js/context.rs"), ("context per plugin", "stuart/src/plugins/js/mod.rs load_js_plugin"), ("execution", "stuart/src/plugins/js/mod.rs JSFunction")],
  ["contents of the built page"])

p("C22", "Errors name the file and line that caused them",
  "When a tag cannot be parsed or executed, the error reports the path of the file that contains the tag and the line of that file it is on, for pages, root and Markdown templates and Markdown files with front matter of any length, LF or CRLF line endings and any text before the tag. The stuart command prints an error message naming that file and line and exits with status 1 for every kind of error, never by panicking.",
  ["inputs"], "every position of an error in a file within the bound and every kind of error",
  "No test looks at an error.",
  [PARSER, PARSE, "stuart-core/src/parse/markdown.rs", "stuart/src/error.rs", PROC],
  [("line tracking", PARSER + " next"), ("token locations", PARSE + " parse_html"), ("front matter offset", "stuart-core/src/parse/markdown.rs"), ("rendering", "stuart/src/error.rs TracebackError::display")],
  ["error returned by Stuart::build", "standard error and exit status of the stuart command"])

p("C23", "The development server serves the built files and nothing else",
  "For every request path, the server answers with the file of the output directory at that (percent-decoded) path, or its `index.html` for a path ending in `/`, a redirect adding the slash for a directory, and 404 otherwise, never with anything outside the output directory (names containing `..` or `:` may be refused with 404). The body is the file's bytes with the content type of its extension, except that HTML files get the reload script inserted once, directly before the first `</body>`.",
  ["inputs"], "every request path and file tree within the bound",
  "The server has no tests.",
  ["stuart/src/serve/mod.rs"],
  [("lookup", "stuart/src/serve/mod.rs serve_dir"), ("injection", "stuart/src/serve/mod.rs serve_dir")],
  ["HTTP responses"], None)

p("C24", "The development server rebuilds on changes and survives errors",
  "After any sequence of edits, including those made while it builds, once the server is idle again the output is that of the current sources if they build, and otherwise that of the last version that was built successfully. Each successful rebuild sends exactly one reload message to every connected client, failed rebuilds send none, and disconnected clients neither stop the others from being notified nor stay registered. Changes in the output directory, `temp` and `metadata.json` never cause a rebuild, and no notification stops the server.",
  ["schedules", "histories", "fault_sequences"], "every order of edits, notifications, rebuild steps and client connections within the bound",
  "The server has no tests.",
  ["stuart/src/serve/mod.rs", "stuart/src/build.rs"],
  [("watch loop", "stuart/src/serve/mod.rs build_watcher"), ("client list", "stuart/src/serve/mod.rs build_watcher")],
  ["output directory", "messages received by clients"],
  [("streams", "connected clients", "stuart/src/serve/mod.rs")])

p("C25", "New projects build; new and clean touch only what they own",
  "`stuart new <name>` creates a project with exactly the given name and author in its manifest, which `stuart build` then builds successfully, for every name the file system allows and every Git identity; it never changes anything that existed before, and fails if the target exists. `stuart clean` in a project removes `dist`, `_build` and `metadata.json` and nothing else, succeeds when they are absent, and outside a project removes nothing and fails.",
  ["inputs", "configurations", "histories"], "every name, identity and directory state within the bound",
  "Neither command is tested.",
  ["stuart/src/new.rs", "stuart/src/config/git.rs", "stuart/src/main.rs"],
  [("manifest generation", "stuart/src/new.rs new"), ("removal", "stuart/src/main.rs clean")],
  ["file tree before and after", "exit status"])

p("C26", "Manifest settings take effect; defaults otherwise",
  "Each of `strip_extensions`, `save_data_files` and `save_metadata` has in a build exactly the value given for it in the manifest, independently of the others, and its documented default (true, false, false) when it or the whole section is absent; name and author are those of `[site]`. A manifest that is not valid TOML, lacks the site name or gives a setting a value of the wrong type fails the build with an error, and is never replaced by defaults.",
  ["configurations"], "every combination of settings present, absent and malformed",
  "Tests use one manifest without settings.",
  ["stuart/src/config/mod.rs", "stuart-core/src/config.rs", "stuart/src/build.rs"],
  [("parsing", "stuart/src/config/mod.rs load"), ("defaults", "stuart/src/config/mod.rs From<RawConfig>")],
  ["output directory", "metadata.json", "exit status"])

p("C27", "Plugin sources are tried in order until one loads",
  "For each dependency the sources separated by `;` (files, Cargo projects, Git repositories, downloads) are tried in order, sources of other platforms being skipped; the first one that loads is used, in its current version and whatever source earlier builds used, and no later one is tried. Relative file paths are relative to the manifest. A source that is missing, fails to compile, throws an exception while loading or is no plugin does not load. If no source of a dependency loads, the build fails before anything is built; with every dependency loaded all their functions and file parsers are in effect.",
  ["configurations"], "every list of sources within the bound",
  "Tests have a single loadable source per plugin.",
  ["stuart/src/plugins/mod.rs", "stuart/src/plugins/source.rs"],
  [("fallback loop", "stuart/src/plugins/mod.rs load"), ("source detection", "stuart/src/plugins/mod.rs load_from_source")],
  ["contents of the built page", "exit status"])

p("C28", "The library saves exactly what was last built and merged",
  "For any sequence of operations on one `Stuart` object of the library (`build`, `merge_output`, `save`, `save_metadata`, changes of its configuration), `save` writes exactly the output of the last successful build together with everything merged since then, under the configuration in force when it is saved, as often and to as many places as asked, replacing whatever directory was there; `save_metadata` likewise writes the metadata of that output with the name and author then configured. A successful build replaces the output and all earlier merges; a failing one leaves what can be saved as it was. Before the first successful build merging and saving fail with `Error::NotBuilt`, saving metadata while it is not enabled fails with `Error::MetadataNotEnabled`, and trees of which two files would be saved to one path fail to be saved; a failing operation changes no file, and no operation changes anything but what it saves.",
  ["histories", "configurations"], "every sequence of operations up to a depth",
  "Tests build once and compare one tree.",
  ["stuart-core/src/lib.rs", "stuart-core/src/fs/mod.rs"],
  [("operations", "stuart-core/src/lib.rs build, merge_output, save, save_metadata"), ("merging and saving", "stuart-core/src/fs/mod.rs merge, save, save_recur, check_conflicts")],
  ["result of every operation", "directories and metadata saved"])

p("C29", "Quiet and verbose change only what is printed",
  "For every project, command and history, `-q`, `--quiet`, `-v` and `--verbose` before the command change neither its exit status nor the files it leaves nor the error it reports. With `-q` or `--quiet` a command that succeeds, the benchmark and the development server included, prints nothing at all, and one that fails prints its error only. `-q` and `-v` exclude each other: a command with both is refused and does nothing.",
  ["histories", "configurations"], "every combination of flags, command and project within the bound",
  "Tests never run the command line.",
  ["stuart/src/main.rs", "stuart/src/logger/mod.rs", "stuart/src/logger/progress.rs", "stuart/src/serve/mod.rs"],
  [("levels", "stuart/src/logger/mod.rs log, is_quiet"), ("progress bar", "stuart/src/logger/progress.rs print"), ("flags", "stuart/src/main.rs app, main")],
  ["exit status", "files afterwards", "standard output and error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
