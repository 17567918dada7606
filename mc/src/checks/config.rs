//! G01, G02, G03: where options come from, what imports name, where global types go.
use super::types::{done, one_line};
use crate::batch::*;
use crate::diag;
use crate::json::n;
use crate::report::Report;
use crate::runner::*;
use crate::schema::*;
use std::path::Path;

const SDL: &str = "type A { id: ID! old: Int @deprecated d: Date e: E s: String } enum E { X Y } scalar Date type Query { id: ID a: A }";
/// A schema that can be told from the others by what it says of `id`.
fn marked(m: &str) -> String {
    let mut s = Schema::sdl(SDL);
    for t in &mut s.types {
        if t.name == "A" {
            if let Kind::Object(f) = &mut t.kind {
                f[0].desc = Some(format!("schema {m}"));
            }
        }
    }
    s.json().dump()
}

// ------------------------------------------------------------------ G01
/// The options both places have, and the values they take here.
const NAMES: [&str; 9] = ["schema", "use", "scalar prefix", "import prefix", "globals", "documentnode", "readonly", "deprecations", "threads"];
const BOOL: [bool; 9] = [false, true, false, false, false, false, true, true, false];
/// Sources of one option: for values none, cli A, cfg A, cfg B, cli A and cfg B; (5) cli empty and cfg A,
/// (6) cfg empty, (7) cli empty, (8) cli A and cfg empty; for flags none, cli, true, false, cli and false.
const SOURCES: usize = 5;
fn value(o: usize, b: bool) -> &'static str {
    match (o, b) {
        (0, false) => "a.json",
        (0, true) => "more/b.json",
        (2, false) => "P_",
        (2, true) => "Ns.",
        (3, false) => "@/",
        (3, true) => "~",
        (4, false) => "gtypes",
        (4, true) => "sub/other",
        (5, false) => "./nodes",
        (5, true) => "pkg/nodes",
        (8, false) => "2",
        (8, true) => "3",
        _ => "",
    }
}
fn flag(o: usize) -> &'static str {
    ["--schema-path", "--use-custom-scalars", "--custom-scalar-prefix", "--root-dir-import-prefix", "--global-types-module-name", "--typed-graphql-documentnode-module-name", "--disable-readonly-types", "--show-deprecation-warnings", "--num-threads"][o]
}
fn key(o: usize) -> &'static str {
    ["schemaFile", "useCustomScalars", "customScalarPrefix", "rootDirImportPrefix", "globalTypesModuleName", "typedGraphqlDocumentnodeModuleName", "disableReadonlyTypes", "showDeprecationWarnings", "numThreads"][o]
}
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    code: i32,
    schema: String,
    scalar: String,
    p1: bool,
    p2: bool,
    globals: String,
    globals_at: Vec<String>,
    nodes: String,
    readonly: bool,
    deprecations: usize,
    threads: u32,
}
#[derive(Clone)]
struct Setup {
    src: [usize; 9],
    /// (working directory, root argument, path of the configuration file, its argument)
    place: usize,
    root: usize,
    /// how arguments are written
    form: usize,
}
/// (cwd, root argument)
const ROOTS: [(&str, Option<&str>); 8] = [("", Some("src")), ("", Some("./src/")), ("src", None), ("src", Some(".")), ("more", Some("../src")), ("", Some("more/../src")), ("", Some("ABS/src")), ("more", Some("ABS/src/."))];
/// (file, argument) of the configuration; both relative to the working directory unless ABS
const PLACES: [(&str, Option<&str>); 6] = [(".qlcrc.json", None), ("conf/c.json", Some("conf/c.json")), ("c.json", Some("./c.json")), ("ABS/far/c.json", Some("ABS/far/c.json")), ("conf/.qlcrc.json", Some("conf/../conf/.qlcrc.json")), (".qlcrc.json", Some(".qlcrc.json"))];
fn lay(slot: &Slot) {
    slot.reset();
    for (f, m) in [("src/schema.json", "default"), ("a.json", "cwd0 A"), ("src/a.json", "src A"), ("more/a.json", "more A"), ("conf/a.json", "conf A"), ("far/a.json", "far A"), ("more/b.json", "cwd0 B"), ("src/more/b.json", "src B"), ("more/more/b.json", "more B"), ("conf/more/b.json", "conf B"), ("far/more/b.json", "far B"), ("src/conf/a.json", "srcconf A"), ("src/conf/more/b.json", "srcconf B"), ("more/conf/a.json", "moreconf A"), ("more/conf/more/b.json", "moreconf B"), ("schema.json", "wrong"), ("conf/schema.json", "wrong"), ("far/schema.json", "wrong"), ("more/schema.json", "wrong")] {
        put(&slot.dir, f, marked(m));
    }
    put(&slot.dir, "src/m.graphql", "query M { a { id old d e s } }\n");
    put(&slot.dir, "src/f.graphql", "fragment F on A { s }\n");
    put(&slot.dir, "src/p1.graphql", "#import \"@/f.graphql\"\nquery P1 { a { ...F } }\n");
    put(&slot.dir, "src/p2.graphql", "#import \"~f.graphql\"\nquery P2 { a { ...F } }\n");
    put(&slot.dir, "src/sub/x.graphql", "query { id }\n");
}
fn abs(slot: &Slot, p: &str) -> String {
    p.replace("ABS", &slot.dir.display().to_string())
}
/// What the options come to, by the rules of the property.
fn resolve(s: &Setup) -> Option<Seen> {
    let cli = |o: usize| matches!(s.src[o], 1 | 4 | 5 | 7 | 8);
    if cli(2) && !cli(1) {
        return None; // a usage error, by the documentation of the flag
    }
    let val = |o: usize| match s.src[o] {
        1 | 4 | 2 | 8 => Some(value(o, false)),
        3 => Some(value(o, true)),
        5..=7 => Some(""),
        _ => None,
    };
    let on = |o: usize| matches!(s.src[o], 1 | 2 | 4);
    let cwd = ROOTS[s.root].0;
    let schema = match s.src[0] {
        0 => "default".to_string(),
        1 | 4 => format!("{} A", if cwd.is_empty() { "cwd0" } else { cwd }),
        x => {
            let v = if x == 2 { "A" } else { "B" };
            let dir = match s.place {
                0 | 2 | 5 => if cwd.is_empty() { "cwd0".to_string() } else { cwd.to_string() },
                1 | 4 => format!("{cwd}conf"),
                _ => "far".into(),
            };
            format!("{dir} {v}")
        }
    };
    let scalar = match (on(1), val(2)) {
        (false, _) => "any".to_string(),
        (true, None) => "Date".into(),
        (true, Some(p)) => format!("{p}Date"),
    };
    let g = val(4).unwrap_or("graphql-globals");
    Some(Seen {
        code: 1, // p1 or p2 has no meaning
        schema,
        scalar,
        p1: val(3) == Some("@/"),
        p2: val(3) == Some("~"),
        globals: g.into(),
        globals_at: vec![format!("{g}.ts")],
        nodes: val(5).unwrap_or("@notarize/qlc-cli/typed-documentnode").into(),
        readonly: !on(6),
        deprecations: usize::from(on(7)),
        threads: val(8).map(|x| x.parse().unwrap()).unwrap_or(0),
    })
}
fn run_setup(slot: &Slot, s: &Setup) -> (Option<Seen>, Option<String>, String) {
    // lay out once per slot, undo what a run wrote
    if !slot.dir.join("far/schema.json").exists() {
        lay(slot);
    }
    let (cwd, root) = ROOTS[s.root];
    let cwd = slot.dir.join(cwd);
    let (conf, carg) = PLACES[s.place];
    let mut a: Vec<String> = vec![];
    let mut opts: Vec<Vec<String>> = vec![];
    let mut cfg = vec![];
    for o in 0..9 {
        let (v, w) = (value(o, false), value(o, true));
        let q = |x: &str| if o == 8 { x.to_string() } else { format!("\"{x}\"") };
        if matches!(s.src[o], 1 | 4 | 5 | 7 | 8) {
            let v = if matches!(s.src[o], 5 | 7) { "" } else { v };
            opts.push(match (BOOL[o], s.form % 3, o) {
                (true, ..) => vec![flag(o).to_string()],
                (false, 0, _) => vec![flag(o).into(), v.into()],
                (false, 1, 0) => vec!["-s".into(), v.into()],
                (false, 2, 0) => vec![format!("-s{v}")],
                (false, ..) => vec![format!("{}={v}", flag(o))],
            });
        }
        match (BOOL[o], s.src[o]) {
            (false, 6 | 8) => cfg.push(format!("\"{}\": \"\"", key(o))),
            (false, 2 | 5) => cfg.push(format!("\"{}\": {}", key(o), q(v))),
            (false, 3 | 4) => cfg.push(format!("\"{}\": {}", key(o), q(w))),
            (true, 2) => cfg.push(format!("\"{}\": true", key(o))),
            (true, 3 | 4) => cfg.push(format!("\"{}\": false", key(o))),
            _ => {}
        }
    }
    // a configuration is there when an option needs it, and sometimes without need
    let has = !cfg.is_empty() || s.form % 2 == 1;
    let path = if conf.starts_with("ABS") { Path::new(&abs(slot, conf)).to_path_buf() } else { cwd.join(conf) };
    if has {
        if s.form % 4 == 3 {
            cfg.reverse();
            cfg.push("\"unknownKey\": [1, {}]".into());
            cfg.push(format!("\"{}\": null", key((0..9).find(|o| !matches!(s.src[*o], 2..=6 | 8)).unwrap_or(0))));
            if !(0..9).any(|o| !matches!(s.src[o], 2..=6 | 8)) {
                cfg.pop();
            }
        }
        if let Some(d) = path.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&path, format!("{{ {} }}\n", cfg.join(", "))).unwrap();
        if let Some(c) = carg {
            opts.push(if s.form % 2 == 0 { vec!["-c".into(), abs(slot, c)] } else { vec![format!("--config-file={}", abs(slot, c))] });
        }
        if carg.is_some() && conf != ".qlcrc.json" {
            // the default file must not matter beside a named one
            std::fs::write(cwd.join(".qlcrc.json"), "{ \"numThreads\": 7, \"disableReadonlyTypes\": true, \"useCustomScalars\": true, \"globalTypesModuleName\": \"wrong\" }").unwrap();
        }
    }
    if s.form % 5 >= 3 {
        opts.reverse();
    }
    let root = root.map(|x| abs(slot, x));
    if s.form % 2 == 0 {
        a.extend(root.clone());
    }
    a.extend(opts.into_iter().flatten());
    if s.form % 2 == 1 {
        a.extend(root);
    }
    let o = slot.run(&cwd, &a, &Env::default());
    let rd = |p: &str| std::fs::read_to_string(slot.dir.join("src").join(p)).ok();
    let m = rd("m.graphql.d.ts");
    let d = diag::parse(&o.stdout);
    let text = m.clone().unwrap_or_default();
    let between = |a: &str, b: &str| text.split_once(a).and_then(|x| x.1.split_once(b)).map(|x| x.0.to_string()).unwrap_or_default();
    let mut at = vec![];
    for (f, _) in tree(&slot.dir.join("src")) {
        if f.ends_with(".ts") && !f.ends_with(".graphql.d.ts") {
            at.push(f);
        }
    }
    let seen = m.as_ref().map(|_| Seen {
        code: o.code(),
        schema: between("* schema ", "\n"),
        scalar: between("d: ", " | null"),
        p1: rd("p1.graphql.d.ts").is_some(),
        p2: rd("p2.graphql.d.ts").is_some(),
        globals: between("import type { E } from \"", "\""),
        globals_at: at,
        nodes: between("QueryDocumentNode } from \"", "\""),
        readonly: text.contains("readonly id"),
        deprecations: d.warnings(),
        threads: o.n_threads - 1,
    });
    let ab = o.abnormal();
    let shown = format!("cwd {cwd:?} args {a:?}\nconfig {} {}\n{}{}", path.display(), if has { cfg.join(", ") } else { "absent".into() }, o.stdout, o.stderr);
    // undo
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(cwd.join(".qlcrc.json"));
    for (f, _) in tree(&slot.dir.join("src")) {
        if f.ends_with(".ts") {
            let _ = std::fs::remove_file(slot.dir.join("src").join(&f));
        }
    }
    if o.code() == 2 && m.is_none() {
        return (None, ab, shown);
    }
    (seen.or(Some(Seen { code: o.code(), schema: "none".into(), scalar: String::new(), p1: false, p2: false, globals: String::new(), globals_at: vec![], nodes: String::new(), readonly: false, deprecations: 0, threads: 0 })), ab, shown)
}
pub fn g01(r: &Report) {
    let mut items: Vec<Setup> = vec![];
    let push = |items: &mut Vec<Setup>, set: &[(usize, usize)], place: usize, root: usize| {
        let mut src = [0; 9];
        for (o, s) in set {
            src[*o] = *s;
        }
        let form = items.len() % 60;
        items.push(Setup { src, place, root, form });
    };
    // nothing, and every single option in every place
    for place in 0..PLACES.len() {
        for root in 0..ROOTS.len() {
            push(&mut items, &[], place, root);
            for o in 0..9 {
                for s in 1..SOURCES {
                    push(&mut items, &[(o, s)], place, root);
                }
            }
            // an empty value is a value
            for s in 5..9 {
                for t in 0..9 {
                    for u in [0, 1, 2, 4] {
                        push(&mut items, &[(3, s), (2, t), (1, u)], place, root);
                    }
                }
                for (t, u) in [(2, 0), (2, 1), (2, 2), (2, 4)] {
                    push(&mut items, &[(t, s), (1, u)], place, root);
                }
            }
        }
    }
    // pairs
    let combos = |k: usize| -> Vec<Vec<usize>> { (0..1usize << 9).filter(|m| m.count_ones() as usize == k).map(|m| (0..9).filter(|i| m >> i & 1 != 0).collect()).collect() };
    let tuples = |k: usize, items: &mut Vec<Setup>, places: usize| {
        for os in combos(k) {
            for code in 0..(SOURCES - 1).pow(k as u32) {
                let mut c = code;
                let set: Vec<(usize, usize)> = os
                    .iter()
                    .map(|o| {
                        let s = 1 + c % (SOURCES - 1);
                        c /= SOURCES - 1;
                        (*o, s)
                    })
                    .collect();
                for p in 0..places {
                    let i = items.len();
                    push(items, &set, (i + p) % PLACES.len(), (i / 6) % ROOTS.len());
                }
            }
        }
    };
    tuples(2, &mut items, if r.thorough { 6 } else { 3 });
    tuples(3, &mut items, if r.thorough { 4 } else { 1 });
    if r.thorough {
        tuples(4, &mut items, 1);
        tuples(5, &mut items, 1);
    }
    for code in 0..4usize.pow(if r.thorough { 6 } else { 5 }) {
        // all nine at once, the first from every source, the rest rotating
        let mut c = code;
        let mut set = vec![];
        for o in 0..9 {
            set.push((o, 1 + (c % 4 + o * (code / 7)) % 4));
            c /= 4;
        }
        let i = items.len();
        push(&mut items, &set, i % PLACES.len(), (i / 6) % ROOTS.len());
    }
    let bad = par(&items, |slot, _, s| {
        let want = resolve(s);
        let (got, ab, shown) = run_setup(slot, s);
        if let Some(a) = ab {
            return Some((a, shown));
        }
        let e = match (&want, &got) {
            (None, None) => return None,
            (Some(w), Some(g)) => {
                let mut w = w.clone();
                if w.threads == 0 && (1..=8).contains(&g.threads) {
                    w.threads = g.threads;
                }
                if *g == w {
                    return None;
                }
                let (a, b) = (format!("{g:?}"), format!("{w:?}"));
                let (x, y) = a.split(", ").zip(b.split(", ")).find(|(x, y)| x != y).unwrap_or((&a, &b));
                format!("{x} instead of {y}")
            }
            (None, Some(_)) => "a prefix for custom scalars without custom scalars is accepted on the command line".into(),
            (Some(_), None) => "refused as wrong usage".into(),
        };
        Some((e, shown))
    });
    let name = |s: &Setup| -> String {
        let v: Vec<String> = (0..9).filter(|o| s.src[*o] != 0).map(|o| format!("{} {}", NAMES[o], if BOOL[o] { ["", "cli", "cfg true", "cfg false", "cli, cfg false"][s.src[o]] } else { ["", "cli A", "cfg A", "cfg B", "cli A, cfg B", "cli \"\", cfg A", "cfg \"\"", "cli \"\"", "cli A, cfg \"\""][s.src[o]] })).collect();
        format!("{} [root {:?} config {:?}]", v.join("; "), ROOTS[s.root], PLACES[s.place])
    };
    for (s, e) in items.iter().zip(bad) {
        r.outcome(&format!("{} options set", s.src.iter().filter(|x| **x != 0).count()));
        if let Some((e, x)) = e {
            r.violation(&format!("{}: {e}", name(s)), &e, format!("{}\n{e}\n{x}", name(s)));
        }
    }
    r.sample(format!("{} settings, e.g. {}", items.len(), name(&items[items.len() / 3])));
    let total = items.len() + bad_configs(r) + schema_paths(r);
    done(r, total);
}
/// Every way of writing the path of the schema, in every source: the file that is
/// read is the one the path leads to from its base, and where there is none no
/// other schema stands in.
fn schema_paths(r: &Report) -> usize {
    let spellings: &[&str] = &[
        "a.json", "./a.json", "../a.json", "../src/a.json", "../conf/a.json", "more/../a.json", "../more/a.json", "../more/../more/b.json", "more/b.json", "more//b.json", "./more/./b.json", "../../a.json", "ABS/a.json", "ABS/src/a.json", "ABS/more/../conf/a.json", "up/s.json", "../up/s.json", "up/UP.JSON", "up/noext", "up/two words.json", "up/.hidden", "up/~", "~/a.json", "~", "$HOME/a.json", "up/link.json", "up/*.json", "schema.json", "../schema.json", "src/schema.json",
        "nothing.json", "../nothing.json", "more", ".", "..", "ABS/nothing.json", "a.json/", "a.json/b.json",
    ];
    // (working directory, root, configuration or command line, with another in the other)
    let mut items: Vec<(usize, usize, usize, usize)> = vec![];
    for sp in 0..spellings.len() {
        for root in 0..ROOTS.len() {
            for place in 0..=PLACES.len() {
                for other in 0..if place == PLACES.len() { 1 } else { 2 } {
                    items.push((sp, root, place, other));
                }
            }
        }
    }
    let bad = par(&items, |slot, _, (sp, root, place, other)| {
        if !slot.dir.join("ends").exists() {
            lay(slot);
            for d in ["", "src/", "more/", "conf/", "far/", "src/conf/", "more/conf/"] {
                std::fs::create_dir_all(slot.dir.join(d).join("up")).unwrap();
                for f in ["s.json", "UP.JSON", "noext", "two words.json", ".hidden", "~", "target"] {
                    put(&slot.dir, &format!("{d}up/{f}"), marked(&format!("{d}up {f}")));
                }
                let _ = std::os::unix::fs::symlink("target", slot.dir.join(d).join("up/link.json"));
            }
            put(&slot.dir, "src/m.graphql", "query M { a { id old d e s } }\n");
            for f in ["p1.graphql", "p2.graphql", "f.graphql"] {
                let _ = std::fs::remove_file(slot.dir.join("src").join(f));
            }
            put(&slot.dir, "ends", "");
        }
        let (cwd, rootarg) = ROOTS[*root];
        let cwd = slot.dir.join(cwd);
        let path = abs(slot, spellings[*sp]);
        let mut a: Vec<String> = rootarg.map(|x| abs(slot, x)).into_iter().collect();
        let mut conf = None;
        let base = if *place == PLACES.len() {
            a.extend(["--schema-path".to_string(), path.clone()]);
            cwd.clone()
        } else {
            let (file, carg) = PLACES[*place];
            let at = if file.starts_with("ABS") { Path::new(&abs(slot, file)).to_path_buf() } else { cwd.join(file) };
            std::fs::create_dir_all(at.parent().unwrap()).unwrap();
            std::fs::write(&at, format!("{{ \"schemaFile\": \"{path}\" }}")).unwrap();
            if let Some(c) = carg {
                a.extend(["-c".to_string(), abs(slot, c)]);
            }
            let b = at.parent().unwrap().to_path_buf();
            conf = Some(at);
            if *other == 1 {
                // the command line wins, whatever the file says
                a.extend(["-s".to_string(), abs(slot, "ABS/more/b.json")]);
                slot.dir.clone()
            } else {
                b
            }
        };
        let from = if *other == 1 { slot.dir.join("more/b.json") } else { base.join(&path) };
        let want = std::fs::read_to_string(&from).ok().and_then(|t| t.split_once("schema ").and_then(|x| x.1.split_once('"')).map(|x| x.0.to_string()));
        let o = slot.run(&cwd, &a, &Env::default());
        let got = std::fs::read_to_string(slot.dir.join("src/m.graphql.d.ts")).ok().and_then(|t| t.split_once("* schema ").and_then(|x| x.1.split_once('\n')).map(|x| x.0.to_string()));
        let d = diag::parse(&o.stdout);
        let e = o.abnormal().or_else(|| match (&want, &got) {
            (Some(_), _) if want == got && o.code() == 0 => None,
            (None, None) if o.code() == 1 && d.errors() == 1 => None,
            _ => Some(format!("schema {got:?} is used instead of {want:?}, exit status {} and {} errors", o.code(), d.errors())),
        });
        if let Some(c) = conf {
            let _ = std::fs::remove_file(c);
        }
        for (f, _) in tree(&slot.dir.join("src")) {
            if f.ends_with(".ts") {
                let _ = std::fs::remove_file(slot.dir.join("src").join(&f));
            }
        }
        e.map(|e| (e, format!("cwd {cwd:?} args {a:?} schemaFile {path}\n{}", o.stdout)))
    });
    for ((sp, root, place, other), e) in items.iter().zip(bad) {
        if let Some((e, x)) = e {
            let src = PLACES.get(*place).map(|x| format!("in {}", x.0)).unwrap_or("on the command line".into());
            r.violation(&format!("schema path {:?} {src}, root {:?}, {other}: {e}", spellings[*sp], ROOTS[*root]), &format!("schema path {:?} {src}: {e}", spellings[*sp]), x);
        }
    }
    r.cov("schema_paths", n(items.len()));
    items.len()
}
/// Configuration files that are not there or say nothing sensible.
fn bad_configs(r: &Report) -> usize {
    // (what, contents or directory, argument)
    let mut items: Vec<(String, Option<Vec<u8>>, bool, Option<String>)> = vec![];
    for arg in [None, Some("c.json"), Some("conf/c.json")] {
        let a = arg.map(|x| x.to_string());
        if arg.is_some() {
            items.push(("missing".into(), None, false, a.clone()));
        }
        items.push(("a directory".into(), None, true, a.clone()));
        for t in ["", " ", "{", "}", "[", "x", "{ \"numThreads\": 1 ", "{ numThreads: 1 }", "{ 'numThreads': 1 }", "{ \"numThreads\": 1, }", "{} {}", "{} x", "null", "1", "\"x\"", "true", "// c\n{}", "\u{feff}{}"] {
            items.push((format!("{t:?}"), Some(t.as_bytes().to_vec()), false, a.clone()));
        }
        items.push(("no text".into(), Some(b"{\"schemaFile\": \"\xff\"}".to_vec()), false, a.clone()));
        for o in 0..9 {
            let wrong: &[&str] = if BOOL[o] { &["1", "0", "\"true\"", "\"\"", "[]", "{}", "[true]"] } else if o == 8 { &["\"2\"", "true", "[]", "{}", "-1", "1.5", "1e99", "[2]", "99999999999999999999999"] } else { &["1", "true", "[]", "{}", "[\"x\"]"] };
            for w in wrong {
                items.push((format!("{}: {w}", key(o)), Some(format!("{{ \"{}\": {w} }}", key(o)).into_bytes()), false, a.clone()));
                items.push((format!("{}: {w} among others", key(o)), Some(format!("{{ \"{}\": null, \"x\": 1, \"{}\": {w} }}", key((o + 1) % 9), key(o)).into_bytes()), false, a.clone()));
            }
        }
    }
    let bad = par(&items, |slot, _, (_, text, dir, arg)| {
        lay(slot);
        let p = slot.dir.join(arg.as_deref().unwrap_or(".qlcrc.json"));
        if *dir {
            std::fs::create_dir_all(&p).unwrap();
        }
        if let Some(t) = text {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, t).unwrap();
        }
        let before = tree(&slot.dir);
        let mut a = args(&["src"]);
        if let Some(x) = arg {
            a.extend(args(&["-c", x]));
        }
        let o = slot.run(&slot.dir, &a, &Env::default());
        let d = diag::parse(&o.stdout);
        // an array is read field by field: [] is an empty one, and all optional
        o.abnormal()
            .or_else(|| (o.code() != 1 || d.errors() != 1).then(|| format!("exit status {} and {} errors", o.code(), d.errors())))
            .or_else(|| (tree(&slot.dir) != before).then(|| "something is written".to_string()))
            .map(|e| (e, o.stdout))
    });
    for ((what, _, _, arg), e) in items.iter().zip(bad) {
        if let Some((e, x)) = e {
            r.violation(&format!("configuration {what} ({arg:?}): {e}"), &format!("a configuration that is {what}: {e}"), x);
        }
    }
    r.cov("bad_configurations", n(items.len()));
    items.len()
}

// ------------------------------------------------------------------ G02
const GSDL: &str = "type A { id: ID m0: Int m1: Int m2: Int m3: Int m4: Int m5: Int m6: Int m7: Int m8: Int m9: Int m10: Int m11: Int m12: Int m13: Int m14: Int m15: Int m16: Int m17: Int m18: Int m19: Int m20: Int m21: Int m22: Int m23: Int m24: Int m25: Int m26: Int m27: Int m28: Int m29: Int m30: Int m31: Int m32: Int m33: Int m34: Int m35: Int m36: Int m37: Int m38: Int m39: Int x: Int y: Int z: Int } type Query { id: ID a: A }";
pub fn g02(r: &Report) {
    let mut total = paths(r);
    total += preambles(r);
    total += through(r);
    done(r, total);
}
/// Every short path from every place, with every prefix.
fn paths(r: &Report) -> usize {
    let schema = Schema::sdl(GSDL).json().dump();
    // where fragment X is, each with its own field
    let have = ["x.graphql", "d/x.graphql", "d/e/x.graphql", "@/x.graphql", "é/x.graphql", "a b/x.graphql", "d.graphql", "e/x.graphql", "d/d/x.graphql", "x/x.gql", ".h/x.graphql", "d/.h/x.graphql", ".x.graphql", "d/.x.graphql", "d/e/.x.graphql", "..h/x.graphql", "d/..h/x.graphql", "a\"b/x.graphql", "q\".graphql", "\"q.graphql", "#/x.graphql", "x#.graphql", " s.graphql", "t .graphql", "b\\c.graphql", "*/x.graphql", "it's/x.graphql", "{x}.graphql", "%20/x.graphql", "テスト/ñ.graphql"];
    let comps = [".", "..", "d", "e", "x.graphql", "@", "é", "a b", "d.graphql", "x", "x.gql", ".h", ".x.graphql", "..h"];
    let max = if r.thorough { 4 } else { 3 };
    let mut strs: Vec<String> = vec![];
    let mut last = vec![String::new()];
    for k in 0..max {
        let cs: &[&str] = if k >= 3 { &["..", "d", "e", "x.graphql", ".", ".h"] } else { &comps };
        last = last.iter().flat_map(|s| cs.iter().map(move |c| if s.is_empty() { c.to_string() } else { format!("{s}/{c}") })).collect();
        strs.extend(last.clone());
    }
    for s in ["a\"b/x.graphql", "./a\"b/x.graphql", "d/../a\"b/x.graphql", "q\".graphql", "./q\".graphql", "d/../q\".graphql", "\"q.graphql", "./\"q.graphql", "d/../\"q.graphql", "#/x.graphql", "./#/x.graphql", "d/../#/x.graphql", "x#.graphql", "./x#.graphql", "d/../x#.graphql", " s.graphql", "./ s.graphql", "d/../ s.graphql", "t .graphql", "./t .graphql", "d/../t .graphql", "b\\c.graphql", "./b\\c.graphql", "d/../b\\c.graphql", "*/x.graphql", "./*/x.graphql", "d/../*/x.graphql", "it's/x.graphql", "./it's/x.graphql", "d/../it's/x.graphql", "{x}.graphql", "./{x}.graphql", "d/../{x}.graphql", "%20/x.graphql", "./%20/x.graphql", "d/../%20/x.graphql", "テスト/ñ.graphql", "./テスト/ñ.graphql", "d/../テスト/ñ.graphql", "../a\"b/x.graphql", "d/a\"b/x.graphql", "%20s.graphql", "a%20b/x.graphql", "b/c.graphql", "b\\\\c.graphql", "\"x.graphql", "x\".graphql", "x.graphql\"", " x.graphql", "x.graphql ", "a\"b\"/x.graphql"] {
        strs.push(s.into());
    }
    for s in ["d//x.graphql", ".//x.graphql", "./d/./x.graphql", "d/", "./", "@x.graphql", "@d/x.graphql", "~x.graphql", "~/x.graphql", "~d/x.graphql", "~~x.graphql", "d/d/x.graphql", "@//x.graphql", "@/@/x.graphql", "@@/x.graphql", ".x.graphql", "..x.graphql", "...", "x.graphql ", " x.graphql", "X.graphql", "x.GRAPHQL", "./d/../d/x.graphql", "d/../x.graphql", "é/../d/x.graphql", "no/../x.graphql", "x.graphql/", "x.graphql/."] {
        strs.push(s.into());
    }
    let dirs = ["", "d/", "d/e/"];
    let prefixes: Vec<Option<&str>> = vec![None, Some("@/"), Some("@"), Some("d/"), Some("d"), Some("~"), Some("x"), Some("é/"), Some("@/d/"), Some("d/e")];
    let mut items = vec![];
    for p in &prefixes {
        for via_cfg in [false, true] {
            if via_cfg && !r.thorough && *p != Some("@/") {
                continue;
            }
            for c in (0..strs.len()).step_by(250) {
                items.push((*p, via_cfg, c, (c + 250).min(strs.len())));
            }
        }
    }
    let bad = par(&items, |slot, _, (prefix, via_cfg, lo, hi)| {
        slot.reset();
        put(&slot.dir, "schema.json", &schema);
        let src = slot.dir.join("src");
        for (i, f) in have.iter().enumerate() {
            put(&src, f, format!("fragment X on A {{ m{i} }}\n"));
        }
        for (k, s) in strs[*lo..*hi].iter().enumerate() {
            for (j, d) in dirs.iter().enumerate() {
                put(&src, &format!("{d}q{k}_{j}.graphql"), format!("# {s}\n#import \"{s}\"\nquery {{ a {{ ...X }} }}\n"));
            }
        }
        let mut a = args(&["src", "-s", "schema.json", "--num-threads", "1"]);
        if let Some(p) = prefix {
            if *via_cfg {
                put(&slot.dir, ".qlcrc.json", format!("{{ \"rootDirImportPrefix\": \"{p}\" }}"));
            } else {
                a.extend(args(&["--root-dir-import-prefix", p]));
            }
        }
        let o = slot.run(&slot.dir, &a, &Env::default());
        if let Some(e) = o.abnormal() {
            return (0, vec![(e, o.stdout)]);
        }
        let d = diag::parse(&o.stdout);
        let mut bad = vec![];
        let mut found = 0;
        for (k, s) in strs[*lo..*hi].iter().enumerate() {
            for (j, dir) in dirs.iter().enumerate() {
                let file = format!("src/{dir}q{k}_{j}.graphql");
                // the reference: what the path means, answered by the file system
                let p = match prefix.and_then(|p| s.strip_prefix(p)) {
                    Some(rest) => src.join(rest.trim_start_matches('/')),
                    None if s.starts_with('.') => src.join(dir).join(s),
                    None => src.join(s),
                };
                let text = std::fs::read_to_string(&p).ok();
                let want = text.as_deref().and_then(|t| t.split_once("{ m")).map(|x| x.1.split(' ').next().unwrap_or("").to_string());
                let out = std::fs::read_to_string(slot.dir.join(format!("{file}.d.ts"))).ok();
                let errs: Vec<&diag::Diag> = d.list.iter().filter(|x| x.file.as_deref().is_some_and(|f| norm_path(f) == file)).collect();
                let e = match (&want, &out) {
                    (Some(m), Some(t)) if t.contains(&format!("m{m}: ")) && errs.is_empty() => None,
                    (Some(m), Some(t)) => Some(format!("{} instead of m{m}", t.split_once("readonly m").map(|x| format!("m{}", x.1.split(':').next().unwrap_or(""))).unwrap_or_default())),
                    (Some(_), None) => Some("not found".into()),
                    (None, Some(_)) => Some("found where nothing is".into()),
                    (None, None) => {
                        let at = errs.iter().any(|x| x.line == Some(2) && x.msg.contains("could not read"));
                        (!at).then(|| "no error at the import's line".to_string())
                    }
                };
                found += usize::from(want.is_some());
                if let Some(e) = e {
                    bad.push((format!("import {s:?} from {dir:?} with prefix {prefix:?}: {e}"), format!("{}\n{}", errs.iter().map(|x| format!("{x:?}\n")).collect::<String>(), out.unwrap_or_default())));
                }
            }
        }
        (found, bad)
    });
    let mut found = 0;
    for (f, v) in bad {
        found += f;
        for (e, x) in v {
            r.violation(&e, &e, x);
        }
    }
    let total = strs.len() * dirs.len() * (items.len() * 250 / strs.len().max(1)).max(prefixes.len());
    r.sample(format!("{} import paths from 3 directories with {} prefixes; {found} of them name a file", strs.len(), prefixes.len()));
    r.cov("import_paths_that_name_a_file", n(found));
    total
}
fn norm_path(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "." | "" => {}
            ".." if v.last().is_some_and(|x| *x != "..") => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}
/// All short arrangements of lines before the definition.
fn preambles(r: &Report) -> usize {
    // x, y: imports of X, Y; M: of nothing; the others carry no import; D starts the definition
    let kinds: Vec<(char, &str)> = vec![
        ('x', "#import \"./x.graphql\""),
        ('y', "#import \"y.graphql\""),
        ('M', "#import \"./none.graphql\""),
        ('c', "# a comment, #import \"./z.graphql\""),
        ('i', "  #import \"./z.graphql\""),
        ('b', ""),
        ('w', " \t "),
        ('q', "#import './z.graphql'"),
        ('s', "# import \"./z.graphql\""),
        ('u', "#Import \"./z.graphql\""),
        ('D', "query"),
        ('t', "#import \"./x.graphql\" # trailing"),
        ('k', ",,"),
    ];
    let max = if r.thorough { 5 } else { 4 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = vec![vec![]];
    for len in 0..max {
        last = last
            .iter()
            .flat_map(|s: &Vec<usize>| {
                let n = if len >= 4 { 8 } else { kinds.len() };
                (0..n).map(move |k| {
                    let mut v = s.clone();
                    v.push(k);
                    v
                })
            })
            .filter(|v| v.iter().filter(|k| kinds[**k].0 == 'D').count() <= 1)
            .collect();
        seqs.extend(last.clone());
    }
    let schema = Schema::sdl(GSDL).json().dump();
    let mut total = 0;
    for (nl, bom, spread) in [("\n", false, "...X ...Y"), ("\n", false, "...X"), ("\n", false, "...Y"), ("\r\n", false, "...X ...Y"), ("\n", true, "...X ...Y"), ("\n", false, "...Z")] {
        let mut p = Project::new(schema.clone());
        p.common = vec![("y.graphql".into(), "fragment Y on A { y }\n".into())];
        let used: Vec<&Vec<usize>> = if spread == "...X ...Y" && nl == "\n" && !bom || r.thorough { seqs.iter().collect() } else { seqs.iter().filter(|v| v.len() <= max - 1 + usize::from(!bom)).collect() };
        let cases: Vec<Case> = used
            .iter()
            .map(|v| {
                let mut t = String::new();
                if bom {
                    t.push('\u{feff}');
                }
                let mut d = false;
                for k in v.iter() {
                    t.push_str(kinds[*k].1);
                    t.push_str(nl);
                    d |= kinds[*k].0 == 'D';
                }
                if !d {
                    t.push_str("query ");
                }
                t.push_str(&format!("{{ a {{ id {spread} }} }}{nl}"));
                Case { files: vec![("m.graphql".into(), t), ("x.graphql".into(), "fragment X on A { x }\n".into()), ("z.graphql".into(), "fragment Z on A { z }\n".into())] }
            })
            .collect();
        let (got, _) = run_cases(&p, &cases);
        total += cases.len();
        for ((v, c), g) in used.iter().zip(&cases).zip(&got) {
            let mut scope = vec![];
            let mut missing = vec![];
            for (line, k) in v.iter().enumerate() {
                match kinds[*k].0 {
                    'D' | 'k' => break,
                    'x' | 't' => scope.push("X"),
                    'y' => scope.push("Y"),
                    'M' => missing.push(line + 1),
                    _ => {}
                }
            }
            let want: Vec<&str> = spread.split_whitespace().map(|s| &s[3..]).collect();
            let unknown: Vec<&&str> = want.iter().filter(|w| !scope.contains(*w)).collect();
            let e = (|| {
                if let Some(a) = &g.abnormal {
                    return Some(a.clone());
                }
                let mut lines: Vec<usize> = g.errors().iter().filter(|d| d.msg.contains("could not read")).filter_map(|d| d.line).collect();
                lines.sort();
                if lines != missing {
                    return Some(format!("missing imports reported at lines {lines:?} instead of {missing:?}"));
                }
                let un: Vec<&str> = g.errors().iter().filter(|d| d.msg.contains("unknown spread")).map(|d| d.msg.split('`').nth(1).unwrap_or("")).collect();
                if un.len() != unknown.len() || unknown.iter().any(|u| !un.contains(u)) {
                    return Some(format!("{un:?} out of scope instead of {unknown:?}"));
                }
                if g.errors().len() != lines.len() + un.len() {
                    return Some("other errors".into());
                }
                if g.out().is_some() != unknown.is_empty() {
                    return Some("an output, or none".into());
                }
                if let Some(t) = g.out() {
                    for w in &want {
                        if !t.contains(&format!("readonly {}: ", w.to_lowercase())) {
                            return Some(format!("the fields of {w} are missing"));
                        }
                    }
                }
                None
            })();
            let shape: String = v.iter().map(|k| kinds[*k].0).collect();
            if let Some(e) = e {
                r.violation(&format!("preamble {shape:?} (x, y, M imports; D, k definition) with {spread}, CRLF {}, BOM {bom}: {e}", nl != "\n"), &e, format!("{}{}", c.show(), g.show()));
            }
            if nl == "\n" && !bom {
                r.outcome(&format!("{} imports seen, {} missing", scope.len(), missing.len()));
            }
        }
    }
    r.sample(format!("{} preambles of up to {max} lines of {} kinds, in six forms", seqs.len(), kinds.len()));
    total
}
/// Imports of imported files mean what they mean in their own place; links and names of all sorts.
fn through(r: &Report) -> usize {
    let dirs = ["", "d/", "d/e/"];
    let schema = Schema::sdl(GSDL).json().dump();
    let mut items = vec![];
    for qd in 0..3 {
        for fd in 0..3 {
            for style in 0..6 {
                for yd in 0..3 {
                    for link in 0..4 {
                        items.push((qd, fd, style, yd, link));
                    }
                }
            }
        }
    }
    let bad = par(&items, |slot, _, (qd, fd, style, yd, link)| {
        slot.reset();
        put(&slot.dir, "schema.json", &schema);
        let src = slot.dir.join("src");
        for (i, d) in dirs.iter().enumerate() {
            put(&src, &format!("{d}y.graphql"), format!("fragment Y on A {{ m{i} }}\n"));
        }
        // F imports one of the three Y in one of the ways there are
        let up = "../".repeat(*fd);
        let y = match style {
            0 => format!("{}y.graphql", dirs[*yd]),
            1 => format!("./{up}{}y.graphql", dirs[*yd]),
            2 => format!("@/{}y.graphql", dirs[*yd]),
            3 => if up.is_empty() { format!("./{}y.graphql", dirs[*yd]) } else { format!("{up}{}y.graphql", dirs[*yd]) },
            4 => format!("@//{}/y.graphql", dirs[*yd].trim_end_matches('/')),
            _ => format!("d/../{}y.graphql", dirs[*yd]),
        };
        let f = format!("{}f.graphql", dirs[*fd]);
        put(&src, &f, format!("#import \"{y}\"\nfragment F on A {{ z ...Y }}\n"));
        let mut want = *yd;
        let mut import = f.clone();
        match link {
            1 => {
                // through a link to the file: relative paths start where the link is
                std::os::unix::fs::symlink(&src.join(&f), src.join("l.graphql")).unwrap();
                import = "l.graphql".into();
                if *style == 1 || *style == 3 {
                    // the importing file is src/l.graphql
                    let p = src.join(&y);
                    match std::fs::read_to_string(p) {
                        Ok(t) => want = t.split_once("{ m").map(|x| x.1[..1].parse().unwrap()).unwrap(),
                        Err(_) => want = 9,
                    }
                }
            }
            2 => {
                std::os::unix::fs::symlink(&src, slot.dir.join("other")).unwrap();
                // src/../other: one level further up than the root directory
                import = format!("{}../other/{f}", "../".repeat(*qd));
            }
            3 => {
                import = format!("./{}./{f}", "../".repeat(*qd));
            }
            _ => {}
        }
        let q = format!("{}q.graphql", dirs[*qd]);
        put(&src, &q, format!("#import \"{import}\"\nquery {{ a {{ ...F }} }}\n"));
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", "1", "--root-dir-import-prefix", "@/"]), &Env::default());
        let out = std::fs::read_to_string(src.join(format!("{q}.d.ts"))).unwrap_or_default();
        let e = o.abnormal().or_else(|| {
            if want == 9 {
                return (o.code() != 1).then(|| "an import that names nothing is not reported".to_string());
            }
            (!out.contains(&format!("m{want}: "))).then(|| format!("no m{want}"))
        });
        e.map(|e| (e, format!("{import} -> {y}\n{}\n{out}", o.stdout)))
    });
    for ((qd, fd, style, yd, link), e) in items.iter().zip(bad) {
        if let Some((e, x)) = e {
            r.violation(&format!("q in {:?}, f in {:?}, y in {:?}, style {style}, link {link}: {e}", dirs[*qd], dirs[*fd], dirs[*yd]), &format!("an import through another file: {e}"), x);
        }
    }
    let mut total = items.len();
    // names of all sorts, in the order of their bytes
    let p = Project::new(schema);
    let mut cases = vec![];
    for name in ["a b", "é", "☃", "a.b", "-x", "a'b", "a`b", "a$b", "a%20b", "#a", "a\\b", "A", "\u{1f600}", "a;b", "(a)", "[a]", "{a}", "~", "@a", "x.graphql", "con", "a\tb", "..a"] {
        for dir in ["", "d/", "é d/"] {
            for s in ["./", "../"] {
                let s = if s == "./" { format!("./{dir}{name}.graphql") } else { format!("./d/../{dir}{name}.graphql") };
                cases.push(Case { files: vec![("m.graphql".into(), format!("#import \"{s}\"\nquery {{ a {{ ...X }} }}\n")), (format!("{dir}{name}.graphql"), "fragment X on A { x }\n".into()), ("d/o.graphql".into(), "fragment O on A { z }".into())] });
            }
        }
    }
    let (got, _) = run_cases(&p, &cases);
    total += cases.len();
    for (c, g) in cases.iter().zip(&got) {
        if g.abnormal.is_some() || !g.diags.is_empty() || !g.out().is_some_and(|t| t.contains("x: ")) || g.outs.len() != 3 {
            r.violation(&format!("name: {}", one_line(c)), "a file of an unusual name is not compiled or not imported", format!("{}{}", c.show(), g.show()));
        }
    }
    total += alike(r, &p);
    total += hundreds(r);
    total += not_fragments(r, &p);
    total += same_names(r, &p);
    r.cov("imports_through_other_files_and_links", n(total));
    total
}
/// Two files, two directories or two fragments whose names differ by little are still two.
fn alike(r: &Report, p: &Project) -> usize {
    let names = ["f", "F", "ff", "fF", "FF", "é", "É", "e\u{301}", "f ", "f.", "f.graphql", "f-", "f_", "ﬀ", "ſ", "s"];
    let mut cases = vec![];
    for a in names {
        for b in names {
            for (da, db) in [("", ""), ("d/", "D/"), ("", "d/"), ("f/", "F/"), ("x/d/", "y/d/"), ("d/", "d/d/"), ("x/d/e/", "y/d/e/"), ("x/d/e/g/", "y/d/e/g/")] {
                if a == b && da == db {
                    continue;
                }
                for through in [false, true] {
                    let (x, y) = (format!("{da}{a}.graphql"), format!("{db}{b}.graphql"));
                    let mut files = vec![];
                    if through {
                        files.push(("m.graphql".to_string(), "#import \"./hub.graphql\"\nquery { a { ...X ...Y } }\n".to_string()));
                        files.push(("hub.graphql".to_string(), format!("#import \"./{x}\"\n#import \"./{y}\"\nfragment H on A {{ ...X ...Y }}\n")));
                    } else {
                        files.push(("m.graphql".to_string(), format!("#import \"./{x}\"\n#import \"./{y}\"\nquery {{ a {{ ...X ...Y }} }}\n")));
                    }
                    files.push((x, "fragment X on A { x }\n".into()));
                    files.push((y, "fragment Y on A { z }\n".into()));
                    cases.push(Case { files });
                }
            }
        }
    }
    for (a, b) in [("x", "X"), ("ab", "aB"), ("ab", "AB"), ("a_b", "a__b"), ("_a", "a"), ("a1", "a2"), ("abcdefghijklmnopqrstuvwxyz0123456789A", "abcdefghijklmnopqrstuvwxyz0123456789a")] {
        for (a, b) in [(a, b), (b, a)] {
            cases.push(Case {
                files: vec![
                    ("m.graphql".into(), format!("#import \"./g1.graphql\"\n#import \"./g2.graphql\"\nquery {{ a {{ ...{a} ...{b} }} }}\n")),
                    ("g1.graphql".into(), format!("fragment {a} on A {{ x }}\n")),
                    ("g2.graphql".into(), format!("fragment {b} on A {{ z }}\n")),
                ],
            });
        }
    }
    let (got, _) = run_cases(p, &cases);
    for (c, g) in cases.iter().zip(&got) {
        if g.abnormal.is_some() || !g.diags.is_empty() || !g.out().is_some_and(|t| t.contains("x: ") && t.contains("z: ")) || g.outs.len() != c.files.len() {
            r.violation(&format!("alike: {}", one_line(c)), "of two names that are alike one is lost", format!("{}{}", c.show(), g.show()));
        }
    }
    cases.len()
}
/// Any number of imports: of each the last one counts as much as the first.
fn hundreds(r: &Report) -> usize {
    let max = 1200;
    let mut p = Project::new(Schema::sdl(GSDL).json().dump());
    for i in 0..max {
        p.common.push((format!("f{i}.graphql"), format!("fragment F{i} on A {{ x{i}: x }}\n")));
    }
    let mut cases = vec![];
    for k in (1..=max).filter(|k| *k <= 40 || (r.thorough || *k <= 400) && k % 10 < 2 || (*k as u32).is_power_of_two() || k % 1000 == 1 || *k == max) {
        let imports = |ids: &mut dyn Iterator<Item = usize>| ids.map(|i| format!("#import \"f{i}.graphql\"\n")).collect::<String>();
        let all = (0..k).map(|i| format!(" ...F{i}")).collect::<String>();
        cases.push((k, 0..k, Case::one(format!("{}query {{ a {{{all} }} }}\n", imports(&mut (0..k))))));
        cases.push((k, k - 1..k, Case::one(format!("{}query {{ a {{ ...F{} }} }}\n", imports(&mut (0..k)), k - 1))));
        cases.push((k, 0..1, Case::one(format!("{}query {{ a {{ ...F0 }} }}\n", imports(&mut (0..k).rev())))));
    }
    // as many that name nothing, each in its line, and one between them that does
    let mut missing = vec![];
    for k in (1..=140usize).chain([255, 256, 257, 1000, 1025]) {
        let at = k / 2;
        let lines: Vec<String> = (0..k).map(|i| if i == at { "#import \"f7.graphql\"".into() } else { format!("#import \"{}{i}.graphql\"", ["none", "./none", "d/none"][i % 3]) }).collect();
        missing.push((k, at, Case::one(format!("{}\nquery {{ a {{ ...F7 }} }}\n", lines.join("\n")))));
    }
    let cs: Vec<Case> = missing.iter().map(|c| c.2.clone()).collect();
    let (got, _) = run_cases(&p, &cs);
    for ((k, at, c), g) in missing.iter().zip(&got) {
        let mut lines: Vec<usize> = g.errors().iter().filter(|d| d.msg.contains("none")).filter_map(|d| d.line).collect();
        lines.sort();
        let want: Vec<usize> = (1..=*k).filter(|l| *l != at + 1).collect();
        if g.abnormal.is_some() || lines != want || g.errors().len() != want.len() {
            r.violation(&format!("{} missing imports among {k}: {} reported", k - 1, lines.len()), "missing imports are not all reported", format!("{}{}", c.show(), g.show()));
        }
    }
    // rings and chains through directories: what is named anew at every step is still one file
    let mut rings = vec![];
    for len in (1..=if r.thorough { 150usize } else { 40 }).chain([64, 100]) {
        for (ring, way) in [(true, 0), (true, 1), (false, 0), (true, 2)] {
            let dir = |i: usize| ["d", "e/d", "d"][way].to_string() + &i.to_string();
            let up = ["../", "../../", "./../d0/.././"][way];
            let mut files = vec![];
            for i in 0..len {
                let next = if i + 1 < len { Some(i + 1) } else { ring.then_some(0) };
                let import = next.map(|j| format!("#import \"{up}{}/r.graphql\"\n", dir(j))).unwrap_or_default();
                let spread = if i + 1 < len { format!("...R{}", i + 1) } else { String::new() };
                files.push((format!("{}/r.graphql", dir(i)), format!("{import}fragment R{i} on A {{ r{i}: x {spread} }}\n")));
            }
            let back = if ring { format!("#import \"./{}/r.graphql\"\n", dir(len - 1)) } else { String::new() };
            files.push(("m.graphql".into(), format!("#import \"./{}/r.graphql\"\n{back}query {{ a {{ ...R0 }} }}\n", dir(0))));
            rings.push((len, Case { files }));
        }
    }
    let cs: Vec<Case> = rings.iter().map(|c| c.1.clone()).collect();
    let (got, _) = run_cases(&p, &cs);
    for ((len, c), g) in rings.iter().zip(&got) {
        let all = g.out().is_some_and(|t| (0..*len).all(|i| t.contains(&format!(" r{i}: "))));
        if g.abnormal.is_some() || !g.diags.is_empty() || !all {
            r.violation(&format!("{len} files in as many directories: not all there"), "imports through directories", format!("{}{}", c.show(), g.show()));
        }
    }
    let cs: Vec<Case> = cases.iter().map(|c| c.2.clone()).collect();
    let (got, _) = run_cases(&p, &cs);
    for ((k, want, c), g) in cases.iter().zip(&got) {
        let have = g.out().map(|t| (0..max).filter(|i| t.contains(&format!(" x{i}: "))).collect::<Vec<_>>());
        if g.abnormal.is_some() || !g.diags.is_empty() || have != Some(want.clone().collect()) {
            r.violation(&format!("{k} imports, {} in use: not all there", want.len()), "an import among many has no effect", format!("{}{}", c.show(), g.show()));
        }
    }
    cases.len() + missing.len() + rings.len()
}
/// Two files that define fragments of one name: each file that imports one of them gets that one, or there is an
/// error; with both in one file there has to be one.
fn same_names(r: &Report, p: &Project) -> usize {
    let mut cases = vec![];
    for names in [("a", "b"), ("b", "a"), ("d/a", "a"), ("a", "d/a")] {
        let file = |f: &str, t: String| (format!("{f}.graphql"), t);
        let import = |f: &str| format!("#import \"./{f}.graphql\"\n");
        let common = vec![file(names.0, "fragment X on A { m0 }\n".into()), file(names.1, "fragment X on A { m1 }\n".into())];
        let (one, two) = (import(names.0), import(names.1));
        let c = |v: &str| file("c", format!("{v}fragment C on A {{ ...X }}\n"));
        let e = |v: &str| file("e", format!("{v}fragment E on A {{ ...X }}\n"));
        let mut add = |way: &'static str, need: bool, text: String, more: Vec<(String, String)>| {
            let files = [vec![("m.graphql".to_string(), text)], more, common.clone()].concat();
            cases.push((way, need, Case { files }));
        };
        add("both imported by one file", true, format!("{one}{two}query {{ a {{ ...X }} }}\n"), vec![]);
        add("one imported, one through another fragment", false, format!("{one}{}query {{ a {{ ...X ...C }} }}\n", import("c")), vec![c(&two)]);
        add("one imported, one through another fragment", false, format!("{}{one}query {{ a {{ ...C ...X }} }}\n", import("c")), vec![c(&two)]);
        add("both through other fragments", false, format!("{}{}query {{ a {{ ...C ...E }} }}\n", import("c"), import("e")), vec![c(&one), e(&two)]);
        add("one of the file itself, one through another fragment", false, format!("{}fragment X on A {{ m2 ...C m0: m0 }}\n", import("c")), vec![c(&two)]);
    }
    let cs: Vec<Case> = cases.iter().map(|c| c.2.clone()).collect();
    let (got, _) = run_cases(p, &cs);
    for ((way, need, c), g) in cases.iter().zip(&got) {
        let main = g.outs.get("m.graphql");
        let refused = g.errors().iter().any(|e| !e.msg.contains("could not read")) && main.is_none();
        let right = !need && g.diags.is_empty() && main.is_some_and(|t| t.contains(" m0: ") && t.contains(" m1: "));
        if g.abnormal.is_some() || !refused && !right {
            r.violation(&format!("two fragments of one name, {way}: one is used for both"), "a fragment of another file is used", format!("{}{}", c.show(), g.show()));
        }
    }
    cases.len()
}
/// An import of a document that is no fragment is an error at the import, whatever operation it is.
fn not_fragments(r: &Report, p: &Project) -> usize {
    let mut cases = vec![];
    for op in ["query { id }", "query O { id }", "query O($i: Int) { id }", "{ id }", "{ a { x } }", "subscription { id }", "subscription O { id }", "\n\n# c\nquery O { id }"] {
        for before in 0..4usize {
            for after in 0..2usize {
                for used in [false, true] {
                    let mut t = String::new();
                    for _ in 0..before {
                        t.push_str("#import \"./x.graphql\"\n");
                    }
                    t.push_str("#import \"./o.graphql\"\n");
                    for _ in 0..after {
                        t.push_str("#import \"./x.graphql\"\n");
                    }
                    t.push_str(if used && before + after > 0 { "query { a { ...X } }\n" } else { "query { a { x } }\n" });
                    cases.push((before + 1, Case { files: vec![("m.graphql".into(), t), ("o.graphql".into(), format!("{op}\n")), ("x.graphql".into(), "fragment X on A { x }\n".into())] }));
                }
            }
        }
    }
    let cs: Vec<Case> = cases.iter().map(|c| c.1.clone()).collect();
    let (got, _) = run_cases(p, &cs);
    for ((line, c), g) in cases.iter().zip(&got) {
        let at: Vec<_> = g.diags.iter().filter(|d| d.file.as_deref() == Some("m.graphql")).collect();
        if g.abnormal.is_some() || at.len() != 1 || at[0].level == "warning" || at[0].line != Some(*line) {
            r.violation(&format!("no fragment: {}", one_line(c)), "an import of an operation is not an error at its line", format!("line {line}\n{}{}{:#?}", c.show(), g.show(), g.diags));
        }
    }
    cases.len()
}

// ------------------------------------------------------------------ G03
pub fn g03(r: &Report) {
    let schema = Schema::sdl(SDL).json().dump();
    let names = [
        "graphql-globals", "g", "types/g", "types/deep/g", "g.ts", "g.tsx", "g.d.ts", "types/g.d.ts", "g.generated", "a.b/c", "./g", "./types/g", "types/../g", "@/g", "@/types/g", "@/g.ts", "@g", "@types/g", "~g", "~/g", "é", "with space", "@//g", "@/./g", "G", "_", "-g", "types.d/g", "$g", "src", "@/@/g", "@@/g", ".g", "types/.g", "..g", "g.", "index", "types/index", "m.graphql.ts",
        // these name no file
        "", ".", "./", "@/", "@", "/", "@/.", "..", "types/..", "~",
    ];
    let prefixes: Vec<Option<&str>> = vec![None, Some("@/"), Some("@"), Some("~"), Some("~/"), Some("types/"), Some("g"), Some("gr"), Some("@/types")];
    let nodes = [None, Some("my-nodes"), Some("./local/nodes"), Some("@org/pkg/sub"), Some("é.js")];
    let roots = [("", "src"), ("src", "."), ("", "ABS/src"), ("", "src/"), ("", "./src/../src")];
    let mut items = vec![];
    for (i, nm) in names.iter().enumerate() {
        for (j, p) in prefixes.iter().enumerate() {
            for dirs in [true, false] {
                for global in [true, false] {
                    for k in 0..10 {
                        let x = i + j + k;
                        items.push((*nm, *p, dirs, global, nodes[x % 5], roots[(x / 5 + k) % 5], (x + usize::from(dirs)) % 3));
                    }
                }
            }
        }
    }
    let bad = par(&items, |slot, _, (nm, prefix, dirs, global, node, root, place)| {
        slot.reset();
        put(&slot.dir, "schema.json", &schema);
        let src = slot.dir.join("src");
        std::fs::create_dir_all(&src).unwrap();
        if *dirs {
            for d in ["types/deep", "a.b", "types.d", "@", "@types", "~", "@/types", "@@", "deep"] {
                std::fs::create_dir_all(src.join(d)).unwrap();
            }
        }
        put(&src, "m.graphql", "query { a { id s } }\n");
        put(&src, "n/d.graphql", if *global { "query { a { e } }\n" } else { "query { a { d } }\n" });
        put(&src, "n/v.graphql", if *global { "query V($e: [E!]) { id }\n" } else { "query V($e: Int) { id }\n" });
        let cwd = slot.dir.join(root.0);
        let mut a = vec![abs(slot, root.1), format!("-s{}/schema.json", slot.dir.display())];
        let mut cfg = vec![];
        let mut opt = |cli: bool, f: &str, k: &str, v: &str| {
            if cli {
                a.push(format!("--{f}={v}"));
            } else {
                cfg.push(format!("\"{k}\": \"{v}\""));
            }
        };
        opt(*place != 1, "global-types-module-name", "globalTypesModuleName", nm);
        if let Some(p) = prefix {
            opt(*place != 2, "root-dir-import-prefix", "rootDirImportPrefix", p);
        }
        if let Some(x) = node {
            opt(*place == 0, "typed-graphql-documentnode-module-name", "typedGraphqlDocumentnodeModuleName", x);
        }
        if !cfg.is_empty() {
            std::fs::write(cwd.join(".qlcrc.json"), format!("{{ {} }}", cfg.join(", "))).unwrap();
        }
        let before = tree(&slot.dir);
        let o = slot.run(&cwd, &a, &Env::default());
        let after = tree(&slot.dir);
        let e = (|| {
            if let Some(x) = o.abnormal() {
                return Some(x);
            }
            if o.code() == 2 {
                return Some("refused as wrong usage".into());
            }
            // where it has to be
            let rest = match prefix.and_then(|p| nm.strip_prefix(p)) {
                Some(x) => x.trim_start_matches('/'),
                None => nm,
            };
            let absolute = rest.starts_with('/');
            let file = Path::new(rest).file_name().map(|f| {
                let f = f.to_string_lossy().into_owned();
                // an extension: a dot that is neither first nor missing
                if f.rfind('.').is_some_and(|k| k > 0) && f != ".." { f } else { format!("{f}.ts") }
            });
            let want = file.map(|f| {
                let dir = Path::new(rest).parent().unwrap_or(Path::new(""));
                src.join(dir).join(f)
            });
            let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k) && !k.ends_with(".graphql.d.ts")).collect();
            let changed: Vec<&String> = before.keys().filter(|k| after.get(*k) != before.get(*k)).collect();
            if !changed.is_empty() {
                return Some(format!("changes {changed:?}"));
            }
            if o.denied > 0 {
                return Some("writes outside the directory".into());
            }
            if !global {
                return (!new.is_empty() || o.code() != 0).then(|| format!("exit status {} and {new:?} without global types", o.code()));
            }
            let fits = want.as_ref().filter(|w| !absolute && w.parent().is_some_and(|d| d.is_dir()));
            match fits {
                None if o.code() != 1 || !new.is_empty() => return Some(format!("exit status {} and {new:?} with a module that has no place", o.code())),
                Some(_) if o.code() != 0 => return Some(format!("exit status {}", o.code())),
                Some(w) if !w.is_file() => return Some(format!("nothing at {:?}, but {new:?}", w.strip_prefix(&slot.dir).unwrap_or(w))),
                Some(_) if new.len() != 1 => return Some(format!("{new:?} are written")),
                Some(w) if !std::fs::read_to_string(w).unwrap_or_default().contains("export enum E {") => return Some("the file lacks the enum".into()),
                _ => {}
            }
            for (f, kind, g) in [("src/m.graphql.d.ts", "QueryDocumentNode", false), ("src/n/d.graphql.d.ts", "QueryDocumentNode", true), ("src/n/v.graphql.d.ts", "QueryDocumentNode", true)] {
                let Some(t) = after.get(f).map(|b| String::from_utf8_lossy(b).into_owned()) else { return Some(format!("{f} is missing")) };
                let from: Vec<&str> = t.lines().filter(|l| l.starts_with("import ")).collect();
                let mut w = vec![format!("import type {{ {kind} }} from \"{}\";", node.unwrap_or("@notarize/qlc-cli/typed-documentnode"))];
                if g {
                    w.push(format!("import type {{ E }} from \"{nm}\";"));
                }
                if from != w {
                    return Some(format!("{f} has the imports {from:?} instead of {w:?}"));
                }
            }
            None
        })();
        (e, format!("cwd {:?} args {a:?} config {cfg:?}\n{}{}", root.0, o.stdout, o.stderr), o.code())
    });
    for ((nm, p, dirs, global, node, root, place), (e, x, code)) in items.iter().zip(bad) {
        r.outcome(&format!("global types used: {global}, exit {code}"));
        if let Some(e) = e {
            r.violation(&format!("module {nm:?} prefix {p:?} nodes {node:?} directories {dirs} used {global} root {root:?} place {place}: {e}"), &format!("module {nm:?} with prefix {p:?}: {e}"), x);
        }
    }
    r.sample(format!("{} module names x {} prefixes x directories there or not x used or not, over 5 document node modules and 5 ways to name the root directory", names.len(), prefixes.len()));
    done(r, items.len());
}
