//! C01, C02: the worker pool under every schedule.
use crate::diag;
use crate::explore::*;
use crate::json::{n, obj, s, J};
use crate::report::Report;
use crate::runner::*;
use crate::schema::Schema;
use std::collections::BTreeMap;

const SDL: &str = "interface Node { id: ID! name: String } type A implements Node { id: ID! name: String e: E! old: Int @deprecated } \
 type B implements Node { id: ID! name: String } enum E { X Y } enum G { P } input I { a: Int } input K { k: G }  \
 type Query { a: A node: Node b: B }";

pub struct Project {
    pub name: String,
    pub files: Vec<(String, String)>,
    pub dirs: Vec<String>,
    pub args: Vec<String>,
}
fn q(name: &str) -> String {
    format!("query {name} {{ a {{ id }} }}\n")
}
fn plain(name: &str, files: &[&str], dirs: &[&str], threads: usize) -> Project {
    Project {
        name: format!("{name}, {threads} threads"),
        files: files
            .iter()
            .enumerate()
            .map(|(i, f)| (f.to_string(), if f.ends_with(".graphql") { q(&format!("Q{i}")) } else { "not graphql {".into() }))
            .collect(),
        dirs: dirs.iter().map(|d| d.to_string()).collect(),
        args: args(&["src", "-s", "schema.json", "--num-threads", &threads.to_string()]),
    }
}
pub fn install(slot: &Slot, p: &Project, schema: &str) {
    slot.reset();
    put(&slot.dir, "schema.json", schema);
    std::fs::create_dir_all(slot.dir.join("src")).unwrap();
    for d in &p.dirs {
        std::fs::create_dir_all(slot.dir.join("src").join(d)).unwrap();
    }
    for (f, t) in &p.files {
        put(&slot.dir, &format!("src/{f}"), t);
    }
}
/// Removes what qlc wrote: everything that is not in the initial tree.
pub fn clean(slot: &Slot, init: &Tree) {
    for k in tree(&slot.dir).keys() {
        if !init.contains_key(k) && !k.ends_with('/') {
            let _ = std::fs::remove_file(slot.dir.join(k));
        }
    }
}
/// What one run showed: per source, how often its output was opened for writing; diagnostics; files.
fn writes(o: &Outcome) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for e in &o.io {
        if e.kind == IO_OPEN && e.wr && !e.faulted {
            let p = e.path.strip_prefix("./").unwrap_or(&e.path);
            *m.entry(p.to_string()).or_default() += 1;
        }
    }
    m
}
/// Which order sources were opened in: the visible trace of the schedule.
fn trace(o: &Outcome) -> String {
    o.io.iter()
        .filter(|e| matches!(e.kind, IO_OPEN | IO_OPENDIR) && !e.path.ends_with("schema.json"))
        .map(|e| format!("{}{}", if e.wr { "w:" } else { "" }, e.path.rsplit('/').next().unwrap_or("")))
        .collect::<Vec<_>>()
        .join(" ")
}
fn judge(init: &Tree, want: &Tree, want_diag: &[String], want_code: i32, slot: &Slot, o: &Outcome, once: bool) -> Result<String, String> {
    if let Some(a) = o.abnormal() {
        return Err(a);
    }
    let got = tree(&slot.dir);
    for k in want.keys() {
        if !got.contains_key(k) {
            return Err(format!("{k} was not written (exit status {})", o.code()));
        }
    }
    for (k, v) in &got {
        match want.get(k) {
            None => return Err(format!("unexpected file {k}")),
            Some(w) if w != v => return Err(format!("{k} differs between schedules")),
            _ => {}
        }
    }
    if once {
        for (p, c) in writes(o) {
            if c > 1 {
                return Err(format!("{p} was compiled {c} times"));
            }
        }
        for k in init.keys().filter(|k| k.ends_with(".graphql") && k.starts_with("src/")) {
            let reads = o.io.iter().filter(|e| e.kind == IO_OPEN && !e.wr && e.path == *k).count();
            if reads > 1 {
                return Err(format!("{k} was opened {reads} times"));
            }
        }
    }
    let d = diag::parse(&o.stdout).canon();
    if d != want_diag {
        return Err(format!("diagnostics differ between schedules: {d:?} instead of {want_diag:?}"));
    }
    if o.code() != want_code {
        return Err(format!("exit status {} instead of {want_code}", o.code()));
    }
    Ok(trace(o))
}
fn explore_project(r: &Report, p: &Project, bound: usize, time_s: f64, once: bool, expect: &dyn Fn(&Tree, &Outcome) -> Result<(), String>) -> Stats {
    let schema = Schema::sdl(SDL).json().dump();
    // what has to come out, from the simplest run there is: one worker, default schedule
    let slot = Slot::new();
    install(&slot, p, &schema);
    let init = tree(&slot.dir);
    let mut a1 = p.args.clone();
    let at = a1.iter().position(|x| x == "--num-threads").unwrap() + 1;
    a1[at] = "1".into();
    let o1 = slot.run(&slot.dir, &a1, &Env::default());
    let want = tree(&slot.dir);
    if let Some(a) = o1.abnormal() {
        r.violation(&format!("{}: {a}", p.name), &a, "one worker, default schedule");
        return Stats::default();
    }
    if let Err(e) = expect(&want, &o1) {
        r.violation(&format!("{}: {e}", p.name), &e, format!("one worker, default schedule\n{}", o1.stdout));
        return Stats::default();
    }
    let want_diag = diag::parse(&o1.stdout).canon();
    let code = o1.code();
    let setup = |s: &Slot| {
        install(s, p, &schema);
        (s.dir.clone(), p.args.clone())
    };
    let reset = |s: &Slot| clean(s, &init);
    let check = |s: &Slot, o: &Outcome| judge(&init, &want, &want_diag, code, s, o, once);
    let st = explore(&Harness {
        name: p.name.clone(),
        setup: &setup,
        reset: &reset,
        check: &check,
        env: Env::default(),
        bound,
        time_s,
        stop_after: 3,
    });
    for (k, e) in &st.violations {
        r.violation(&format!("{}: {k}", p.name), k, e.clone());
    }
    r.count("executions", st.execs);
    r.count("states", st.states);
    r.count("transitions", st.transitions);
    r.count("traces_validated_against_impl", st.execs);
    r.count("schedules_replayed_twice", st.replayed);
    r.count("distinct_traces", st.outcomes.len());
    r.sample(format!(
        "{}: {} executions, {} preemptions completed, by preemptions {:?}, longest {} points, {} threads, {} distinct traces, e.g. {}",
        p.name,
        st.execs,
        st.completed.map_or("no bound".into(), |b| b.to_string()),
        st.by_bound,
        st.longest,
        st.max_threads,
        st.outcomes.len(),
        st.outcomes.keys().next().cloned().unwrap_or_default()
    ));
    st
}
fn summary(r: &Report, rows: &[(String, usize, Stats)]) {
    let capped: Vec<J> = rows
        .iter()
        .filter(|(_, b, s)| s.completed != Some(*b))
        .map(|(nm, b, s)| obj(vec![("harness", s_(nm)), ("bound_asked", n(*b)), ("bound_completed", s.completed.map_or(J::Null, n))]))
        .collect();
    r.cov("exhaustive", J::Bool(capped.is_empty()));
    r.cov("capped", J::Arr(capped));
    r.cov(
        "harnesses",
        J::Arr(
            rows.iter()
                .map(|(nm, b, s)| {
                    obj(vec![
                        ("harness", s_(nm)),
                        ("preemption_bound", n(*b)),
                        ("completed", s.completed.map_or(J::Null, n)),
                        ("executions", n(s.execs)),
                        ("longest", n(s.longest)),
                        ("distinct_traces", n(s.outcomes.len())),
                    ])
                })
                .collect(),
        ),
    );
    r.assume("sequentially consistent memory: qlc and std use SeqCst or lock-like orderings; weaker reorderings are not explored");
    r.assume("threads may be switched before every atomic operation and every file system call; code between two such points runs undisturbed");
}
fn s_(x: &str) -> J {
    s(x.to_string())
}

pub fn c01(r: &Report) {
    let t = r.thorough;
    let mut plan: Vec<(Project, usize, f64)> = vec![
        (plain("empty root", &[], &[], 2), if t { 4 } else { 2 }, 60.0),
        (plain("one file", &["a.graphql"], &[], 1), 2, 20.0),
        (plain("one file", &["a.graphql"], &[], 2), if t { 4 } else { 2 }, if t { 120.0 } else { 8.0 }),
        (plain("file and subdirectory", &["a.graphql", "d/b.graphql"], &[], 2), if t { 3 } else { 2 }, if t { 120.0 } else { 10.0 }),
        (plain("chain of directories", &["d/e/x.graphql"], &["z"], 2), if t { 3 } else { 2 }, if t { 120.0 } else { 8.0 }),
        (plain("one file", &["a.graphql"], &[], 3), 2, if t { 200.0 } else { 8.0 }),
        (plain("two files and others", &["a.graphql", "b.graphql", "n.txt", "c.graphqls", "graphql"], &["x.graphql"], 2), if t { 2 } else { 1 }, if t { 60.0 } else { 6.0 }),
    ];
    if t {
        plan.push((plain("two subdirectories", &["d/b.graphql", "e/c.graphql"], &[], 3), 2, 100.0));
        plan.push((plain("one file", &["a.graphql"], &[], 4), 2, 60.0));
    }
    let mut rows = vec![];
    for (p, b, cap) in &plan {
        let expect = |want: &Tree, o: &Outcome| -> Result<(), String> {
            if o.code() != 0 {
                return Err(format!("exit status {} for a valid tree", o.code()));
            }
            for (f, _) in &p.files {
                let out = format!("src/{f}.d.ts");
                if f.ends_with(".graphql") != want.contains_key(&out) {
                    return Err(format!("{out}: wrong set of compiled files"));
                }
            }
            Ok(())
        };
        let st = explore_project(r, p, *b, *cap, true, &expect);
        rows.push((p.name.clone(), *b, st));
        if r.bad() > 0 {
            break;
        }
    }
    widths(r);
    specials(r);
    names(r);
    contents(r);
    crowds(r, &["query Q {\n  a { e }\n}\n", "query Q($k: K) {\n  b { id }\n}\n"], &|count, o, got, name| {
        for i in 0..count {
            if !got.contains_key(&format!("src/{}.d.ts", name(i))) {
                return Err(format!("{} is not compiled", name(i)));
            }
        }
        if o.code() != 0 {
            return Err(format!("exit status {}", o.code()));
        }
        Ok(())
    });
    summary(r, &rows);
}
/// Wide and deep trees at many thread counts, on the default schedule: nothing is lost at scale.
fn widths(r: &Report) {
    let schema = Schema::sdl(SDL).json().dump();
    let mut cases = vec![];
    for threads in [1usize, 2, 3, 4, 5, 7, 8, 12] {
        for shape in 0..5 {
            cases.push((threads, shape));
        }
    }
    // numbers of threads around each power of two, few of which there ever are
    for k in 3..64 {
        for d in [-1i128, 0, 1] {
            cases.push(((1i128 << k).saturating_add(d) as usize, 4));
        }
    }
    cases.push((usize::MAX, 4));
    cases.push((0, 4));
    for t in (6..300).filter(|t| r.thorough || t % 10 == 0 || (250..=260).contains(t)) {
        cases.push((t, 4));
    }
    let bad = par(&cases, |slot, _, (threads, shape)| {
        let files: Vec<String> = match shape {
            0 => (0..40).map(|i| format!("f{i}.graphql")).collect(),
            1 => (0..30).map(|i| format!("{}x.graphql", "d/".repeat(i))).collect(),
            2 => (0..25).map(|i| format!("d{i}/e{i}/x.graphql")).collect(),
            3 => vec![format!("{}only.graphql", "deep/".repeat(40))],
            _ => (0..20).flat_map(|i| vec![format!("a{i}/x.graphql"), format!("a{i}/y.txt"), format!("a{i}.graphql"), format!("a{i}/.h.graphql")]).collect(),
        };
        let f: Vec<&str> = files.iter().map(|x| x.as_str()).collect();
        let p = plain("wide", &f, &[], *threads);
        install(slot, &p, &schema);
        let o = slot.run(&slot.dir, &p.args, &Env::default());
        let got = tree(&slot.dir);
        if let Some(a) = o.abnormal() {
            return Some((format!("shape {shape} {threads} threads: {a}"), o));
        }
        for x in &files {
            if x.ends_with(".graphql") != got.contains_key(&format!("src/{x}.d.ts")) {
                return Some((format!("shape {shape} {threads} threads: {x} wrongly treated"), o));
            }
        }
        if o.code() != 0 {
            return Some((format!("shape {shape} {threads} threads: exit status {}", o.code()), o));
        }
        None
    });
    for (k, o) in bad.into_iter().flatten() {
        r.violation(&k, &k, format!("{}\n{}", o.stdout, o.stderr));
    }
    r.cov("large_trees_on_default_schedule", n(cases.len()));
}
/// Trees that hold more than files and directories: links (to a file, to nothing, to the directory above,
/// out of the tree), a pipe nobody writes to, a socket, and directories named as sources are. A run ends, and
/// compiles the regular files, each at the place where it lies.
fn specials(r: &Report) {
    use std::os::unix::fs::symlink;
    let schema = Schema::sdl(SDL).json().dump();
    let cases: Vec<(usize, usize)> = [1usize, 2, 3, 8].iter().flat_map(|t| (0..9).map(move |k| (*t, k))).collect();
    let bad = par(&cases, |slot, _, (threads, k)| {
        let files = ["a.graphql", "d/b.graphql", "d/x.graphql/c.graphql", "d/x.graphql/y.graphql/e.graphql"];
        let p = plain("specials", &files, &["empty.graphql"], *threads);
        install(slot, &p, &schema);
        let src = slot.dir.join("src");
        put(&slot.dir, "out/o.graphql", &q("O"));
        let fifo = |f: &str| {
            let c = std::ffi::CString::new(src.join(f).to_str().unwrap()).unwrap();
            unsafe { mkfifo(c.as_ptr(), 0o600) };
        };
        let all = *k == 7;
        // one file that has several names is a file at each of them
        let named = all || *k == 8;
        if all || *k == 0 {
            symlink("..", src.join("d/up")).unwrap();
            symlink(".", src.join("here")).unwrap();
        }
        if all || *k == 1 {
            symlink("nowhere", src.join("n.graphql")).unwrap();
            symlink("l.graphql", src.join("l.graphql")).unwrap();
        }
        if all || *k == 2 {
            symlink("a.graphql", src.join("s.graphql")).unwrap();
        }
        if all || *k == 3 {
            symlink("../out", src.join("away")).unwrap();
            symlink("../../out", src.join("d/away.graphql")).unwrap();
        }
        if all || *k == 4 {
            fifo("p.graphql");
            fifo("d/p");
        }
        if named {
            for f in ["h.graphql", "d/h.graphql", "d/x.graphql/h.graphql"] {
                std::fs::hard_link(src.join("a.graphql"), src.join(f)).unwrap();
            }
            put(&slot.dir, "out/i.graphql", &q("I"));
            std::fs::hard_link(slot.dir.join("out/i.graphql"), src.join("i.graphql")).unwrap();
        }
        let _socket = (all || *k == 5).then(|| std::os::unix::net::UnixListener::bind(src.join("k.graphql")));
        let o = slot.run(&slot.dir, &p.args, &Env { alarm_s: 20, ..Env::default() });
        let mut e = o.abnormal();
        if e.is_none() && o.code() != 0 {
            e = Some(format!("exit status {}", o.code()));
        }
        for f in files.into_iter().chain(["h.graphql", "d/h.graphql", "d/x.graphql/h.graphql", "i.graphql"].into_iter().filter(|_| named)) {
            if e.is_none() && !src.join(format!("{f}.d.ts")).is_file() {
                e = Some(format!("{f} is not compiled"));
            }
        }
        if e.is_none() && ["s", "n", "l", "p", "k"].iter().any(|f| src.join(format!("{f}.graphql.d.ts")).exists()) {
            e = Some("compiled something that is no regular file".into());
        }
        if e.is_none() && slot.dir.join("out/o.graphql.d.ts").exists() {
            e = Some("left the tree".into());
        }
        let _ = std::fs::remove_dir_all(&src);
        e.map(|e| (format!("{}, {threads} threads: {e}", ["links upwards", "dangling links", "link to a file", "links out of the tree", "pipes", "socket", "directories named as sources", "all of these", "hard links"][*k]), e, o))
    });
    for (key, e, o) in bad.into_iter().flatten().take(4) {
        r.violation(&key, &e, format!("{}\n{}", o.stdout, o.stderr));
    }
    r.cov("trees_with_special_files", n(cases.len()));
}
/// Whatever is in a file, and however much of it: the file is compiled, or something is said of it. Trees of
/// many files of one content, and of files of every content among good ones.
fn contents(r: &Report) {
    let schema = Schema::sdl(SDL).json().dump();
    let good = q("Q");
    let mut kinds: Vec<(String, Vec<u8>, bool)> = vec![];
    for (what, t) in [("nothing", ""), ("a blank", " "), ("a line break", "\n"), ("a byte order mark", "\u{feff}"), ("a comment", "# x"), ("a zero", "\0"), ("an import", "#import \"./no.graphql\"\n"), ("half a query", "query {"), ("a mistake", "query {\n  nope\n}\n"), ("two queries", "query A { a { id } }\nquery B { a { id } }\n"), ("a schema", "type A { a: Int }")] {
        kinds.push((what.into(), t.into(), false));
    }
    kinds.push(("no text".into(), vec![b'q', 0xff, 0xfe], false));
    kinds.push(("UTF-16".into(), good.encode_utf16().flat_map(|c| c.to_le_bytes()).collect(), false));
    // what is around a query, of every size about a power of two
    for k in [9usize, 10, 12, 13, 14, 16, 18, 20, 21, 22] {
        for d in [-1i64, 0, 1] {
            let size = ((1i64 << k) + d) as usize;
            kinds.push((format!("{size} bytes, most of them a comment"), format!("#{}\n{good}", "x".repeat(size - good.len() - 2)).into(), true));
            if d == 0 || k < 17 {
                kinds.push((format!("{size} bytes, most of them blanks at the end"), format!("{good}{}", " ".repeat(size - good.len())).into(), true));
                kinds.push((format!("{size} bytes, most of them empty lines"), format!("{}{good}", "\n".repeat(size - good.len())).into(), true));
            }
        }
    }
    let mut cases: Vec<(String, Vec<usize>, usize)> = vec![];
    for t in [1usize, 2, 8] {
        for k in 0..kinds.len() {
            let count = if kinds[k].1.len() > 200_000 { 3 } else if kinds[k].1.len() > 2000 { 12 } else { 150 };
            if count > 12 || t == 2 {
                cases.push((format!("{count} files with {}", kinds[k].0), vec![k; count], t));
            }
        }
        cases.push(("a file of each content".into(), (0..kinds.len()).collect(), t));
    }
    let bad = par(&cases, |slot, _, (_, of, threads)| {
        let p = plain("contents", &["a.graphql", "d/e/z.graphql"], &[], *threads);
        install(slot, &p, &schema);
        let src = slot.dir.join("src");
        let name = |i: usize| format!("{}f{i}.graphql", ["", "d/", "d/e/", "b/"][i % 4]);
        for (i, k) in of.iter().enumerate() {
            put(&src, &name(i), &kinds[*k].1);
        }
        let o = slot.run(&slot.dir, &p.args, &Env { alarm_s: 60, ..Env::default() });
        if let Some(e) = o.abnormal() {
            return Some((e, o));
        }
        let d = diag::parse(&o.stdout);
        let out = |f: &str| src.join(format!("{f}.d.ts")).is_file();
        for f in ["a.graphql", "d/e/z.graphql"] {
            if !out(f) {
                return Some((format!("{f} is not compiled"), o));
            }
        }
        for (i, k) in of.iter().enumerate() {
            let f = name(i);
            let said = d.list.iter().any(|m| m.file.as_deref().is_some_and(|x| x.ends_with(&format!("src/{f}"))) || m.msg.contains(&format!("src/{f}")));
            if kinds[*k].2 != out(&f) || kinds[*k].2 == said {
                let e = format!("{f}: {}, {}", if out(&f) { "compiled" } else { "not compiled" }, if said { "complained of" } else { "nothing said of it" });
                return Some((e, o));
            }
        }
        (o.code() != i32::from(of.iter().any(|k| !kinds[*k].2))).then(|| (format!("exit status {}", o.code()), o))
    });
    for ((what, _, t), x) in cases.iter().zip(bad).filter_map(|(c, x)| x.map(|x| (c, x))).take(4) {
        r.violation(&format!("{what}, {t} threads: {}", x.0), &format!("{what}: {}", x.0), x.1.stdout.chars().take(3000).collect::<String>());
    }
    r.cov("trees_of_contents", n(cases.len()));
}
/// Names: what is compiled depends on nothing but the extension `graphql`, written so. Every directory name
/// that tools treat specially (hidden, `node_modules`, build output, tests, names that are not UTF-8) times
/// every such file name, in one tree, at several thread counts; and each name alone, as the only one.
fn names(r: &Report) {
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    let schema = Schema::sdl(SDL).json().dump();
    let long = format!("{}.graphql", "l".repeat(242));
    let dirs: Vec<&[u8]> = [
        "plain", ".h", ".git", ".next", "node_modules", "bower_components", "target", "dist", "build", "out", "coverage", "vendor", "tmp", "lib", "bin",
        "tests", "__tests__", "__generated__", "__mocks__", "test", "src", "graphql", "schema", "d.graphql", "d.ts", "...", "..x", "-d", "#d", "$HOME", "~", "a b",
        " lead", "trail ", "new\nline", "quo'te", "dou\"ble", "back\\slash", "*", "[x]", "{y}", "?", "über", "目录", "UPPER", "%41", "@s", "C:", "!n",
    ]
    .iter()
    .map(|x| x.as_bytes())
    .chain([&b"latin\xe9"[..], &b"\xff\xfe"[..]])
    .collect();
    let files: Vec<&[u8]> = [
        "plain.graphql", ".h.graphql", ".graphql", "..graphql", "...graphql", "graphql", "x.graphql.graphql", "x..graphql", ".x.graphql.graphql",
        "x.GRAPHQL", "x.Graphql", "x.graphqL", "x.gql", "x.graphqls", "x.graphq", "xgraphql", "x.graphql~", "x.graphql.bak", "x.graphql.swp", "x.graphql.txt",
        "x.graphql.", "x.graphql ", "y.d.ts.graphql", "y.ts.graphql", "schema.graphql", "index.graphql", "_p.graphql", "y.test.graphql", "y.spec.graphql",
        "y.generated.graphql", "y.fragment.graphql", "-y.graphql", "--help.graphql", "#y.graphql", "#y.graphql#", "~y.graphql", "$y.graphql", " .graphql", "a b.graphql",
        "new\nline.graphql", "quo'te.graphql", "dou\"ble.graphql", "back\\slash.graphql", "*.graphql", "[z].graphql", "{z}.graphql", "?.graphql", "über.graphql", "e\u{301}.graphql",
        "\u{e9}.graphql", "目录.graphql", "UPPER.graphql", "upper.graphql", "%41.graphql", "A.graphql", "@s.graphql", "C:.graphql", "con.graphql", "0.graphql", "tsconfig.json",
        ".qlc.graphql", "schema.json", &long,
    ]
    .iter()
    .map(|x| x.as_bytes())
    .chain([&b"latin\xe9.graphql"[..], &b"\xff.graphql"[..], &b"\xfe.graphql"[..], &b"z.graphql\xff"[..]])
    .collect();
    let mut cases: Vec<(Vec<&[u8]>, Vec<&[u8]>, usize)> = vec![];
    for t in [1usize, 2, 4, 8] {
        cases.push((dirs.clone(), files.clone(), t));
    }
    for t in [1usize, 2] {
        cases.extend(dirs.iter().map(|d| (vec![*d], vec![files[0]], t)));
        cases.extend(files.iter().map(|f| (vec![], vec![*f], t)));
    }
    let text = q("Q");
    let want = {
        let slot = Slot::new();
        install(&slot, &plain("names", &["a.graphql"], &[], 1), &schema);
        put(&slot.dir, "src/a.graphql", &text);
        slot.run(&slot.dir, &args(&["src", "-s", "schema.json"]), &Env::default());
        std::fs::read(slot.dir.join("src/a.graphql.d.ts")).unwrap_or_default()
    };
    let checked: usize = cases.iter().map(|(d, f, _)| (d.len() + 1) * f.len()).sum();
    let bad = par(&cases, |slot, _, (dirs, files, threads)| {
        install(slot, &plain("names", &[], &[], *threads), &schema);
        let src = slot.dir.join("src");
        let mut at = vec![src.clone()];
        if !dirs.is_empty() && dirs.len() < 2 {
            at.clear();
        }
        at.extend(dirs.iter().map(|d| src.join(OsStr::from_bytes(d))));
        let mut all = vec![];
        for d in &at {
            std::fs::create_dir_all(d).unwrap();
        }
        for d in &at {
            for f in files {
                let p = d.join(OsStr::from_bytes(f));
                if !p.is_dir() {
                    std::fs::write(&p, &text).unwrap();
                    all.push(p);
                }
            }
        }
        let mut beside = 0;
        // beside the files of other tools, which may say that these are not for them
        for d in &at {
            for (f, t) in super::stable::BESIDE.iter().filter(|b| !b.0.contains('/') && !b.0.ends_with(".graphql")) {
                let p = d.join(f);
                if !p.exists() && !f.ends_with(".d.ts") {
                    std::fs::write(p, t).unwrap();
                    beside += 1;
                }
            }
        }
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", &threads.to_string()]), &Env::default());
        let mut e = o.abnormal();
        if e.is_none() && o.code() != 0 {
            e = Some(format!("exit status {}", o.code()));
        }
        let mut outs = 0;
        for p in &all {
            let mut n = p.clone().into_os_string();
            n.push(".d.ts");
            let got = std::fs::read(&n).ok();
            let is = p.extension() == Some(OsStr::new("graphql"));
            outs += is as usize;
            if e.is_none() && (if is { Some(&want) } else { None }) != got.as_ref() {
                e = Some(format!("{:?} is {}", p.strip_prefix(&src).unwrap(), if !is { "compiled" } else if got.is_none() { "not compiled" } else { "compiled differently" }));
            }
        }
        fn count(d: &std::path::Path) -> usize {
            std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| if e.file_type().is_ok_and(|t| t.is_dir()) { count(&e.path()) } else { 1 }).sum()
        }
        let found = count(&src);
        if e.is_none() && found != all.len() + beside + outs {
            e = Some(format!("{found} files where {} were expected", all.len() + beside + outs));
        }
        let _ = std::fs::remove_dir_all(&src);
        e.map(|e| (format!("{threads} threads, {} directories and {} files: {e}", dirs.len(), files.len()), e, o))
    });
    for (key, e, o) in bad.into_iter().flatten().take(4) {
        r.violation(&key, &e, format!("{}\n{}", o.stdout, o.stderr));
    }
    r.cov("trees_of_unusual_names", n(cases.len()));
    r.cov("files_of_unusual_names", n(checked));
}
extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}
/// The name of file `i` of a crowd of `count`: all in one directory, one in each directory,
/// or ten in each of many nested directories.
fn member(shape: usize, count: usize, i: usize) -> String {
    match shape {
        0 => format!("f{i}.graphql"),
        1 => format!("d{i}/x.graphql"),
        2 => format!("d{}/e{}/g{}/x{i}.graphql", i % 7, i % 31, i / 10),
        _ => format!("{}x{}.graphql", "d/".repeat(i * 900 / count), i),
    }
}
/// Trees with more files and directories than any buffer or queue was ever sized for, with as many
/// workers as the operating system cares to run at once. Every file holds one of `texts`, in turn.
fn crowds(r: &Report, texts: &[&str], want: &dyn Fn(usize, &Outcome, &Tree, &dyn Fn(usize) -> String) -> Result<(), String>) {
    let schema = Schema::sdl(SDL).json().dump();
    let mut cases = vec![];
    for threads in if r.thorough { vec![1usize, 2, 3, 8, 32] } else { vec![1, 2, 8] } {
        for (shape, counts) in [
            (0, vec![130usize, 1030, 4100, 10000]),
            (1, vec![130, 1030, 4100]),
            (2, vec![1030, 8200]),
            (3, vec![300, 2000]),
        ] {
            for c in counts {
                cases.push((threads, shape, c * if r.thorough { 2 } else { 1 } + 7));
            }
        }
        if r.thorough {
            cases.push((threads, 0, 70000));
        }
    }
    if r.bad() > 0 {
        return;
    }
    // one after another: the threads of one run have the machine to themselves
    let slot = Slot::new();
    for (threads, shape, count) in &cases {
        let name = |i: usize| member(*shape, *count, i);
        slot.reset();
        put(&slot.dir, "schema.json", &schema);
        let mut made = std::collections::HashSet::new();
        for i in 0..*count {
            let f = slot.dir.join("src").join(name(i));
            let d = f.parent().unwrap().to_path_buf();
            if made.insert(d.clone()) {
                std::fs::create_dir_all(d).unwrap();
            }
            std::fs::write(f, texts[i % texts.len()]).unwrap();
        }
        let a = args(&["src", "-s", "schema.json", "--show-deprecation-warnings", "--num-threads", &threads.to_string()]);
        let o = slot.run(&slot.dir, &a, &Env { sched: false, alarm_s: 60, ..Env::default() });
        let e = match o.abnormal() {
            Some(e) => Err(e),
            None => want(*count, &o, &tree(&slot.dir), &name),
        };
        if let Err(e) = e {
            r.violation(&format!("{count} files, shape {shape}, {threads} threads: {e}"), &e, o.stdout.chars().take(3000).chain(o.stderr.chars().take(3000)).collect::<String>());
            break;
        }
    }
    slot.reset();
    r.cov("crowds", n(cases.len()));
}

pub fn c02(r: &Report) {
    let t = r.thorough;
    let err = "query Bad {\n  a { nope }\n}\n";
    let warn = "query Warn {\n  a { old ... on B { id } }\n}\n";
    let en = "query En {\n  a { e }\n}\n";
    let inp = "query Inp($i: I) {\n  a { id }\n}\n";
    let inp2 = "query Inp2($k: [K!]!) {\n  a { id }\n}\n";
    let mk = |name: &str, files: &[(&str, &str)], threads: usize| Project {
        name: format!("{name}, {threads} threads"),
        files: files.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        dirs: vec![],
        args: args(&["src", "-s", "schema.json", "--show-deprecation-warnings", "--num-threads", &threads.to_string()]),
    };
    let cap = if t { 160.0 } else { 9.0 };
    let plan: Vec<(Project, usize, i32, usize, usize, Vec<&str>)> = vec![
        (mk("error and enum", &[("a.graphql", err), ("b.graphql", en)], 2), if t { 3 } else { 2 }, 1, 1, 0, vec!["E"]),
        (mk("enum and input", &[("a.graphql", en), ("b.graphql", inp)], 2), if t { 3 } else { 2 }, 0, 0, 0, vec!["E", "I"]),
        (mk("warning, error", &[("a.graphql", warn), ("d/b.graphql", err)], 2), 2, 1, 1, 2, vec![]),
        (mk("two errors, input", &[("a.graphql", err), ("b.graphql", err), ("c.graphql", inp2)], 2), if t { 2 } else { 1 }, 1, 2, 0, vec!["K", "G"]),
        (mk("one message for two files", &[("a.graphql", "#import \"./none.graphql\"\nquery A {\n  a { id }\n}\n"), ("b.graphql", "#import \"./none.graphql\"\nquery B {\n  a { nope }\n}\n")], 2), if t { 2 } else { 1 }, 1, 3, 0, vec![]),
        (mk("one message for three files", &[("a.graphql", "#import \"./c.graphql\"\nquery A {\n  a { id }\n}\n"), ("b.graphql", "#import \"./c.graphql\"\nquery B {\n  a { id }\n}\n"), ("c.graphql", "#import \"./none.graphql\"\nfragment C on A {\n  id\n}\n")], 2), if t { 2 } else { 1 }, 1, 3, 0, vec![]),
        (mk("global types in files with warnings", &[("a.graphql", "query We {\n  a { old e }\n}\n"), ("b.graphql", "query Wi($i: I) {\n  a { old }\n}\n")], 2), 2, 0, 0, 2, vec!["E", "I"]),
        (mk("enum, input, error", &[("a.graphql", en), ("b.graphql", inp2), ("c.graphql", err)], 3), if t { 2 } else { 1 }, 1, 1, 0, vec!["E", "K", "G"]),
    ];
    let mut rows = vec![];
    for (p, b, code, ne, nw, globals) in &plan {
        let expect = |want: &Tree, o: &Outcome| -> Result<(), String> {
            let d = diag::parse(&o.stdout);
            if o.code() != *code || d.errors() != *ne || d.warnings() != *nw {
                return Err(format!("exit status {}, {} errors, {} warnings; expected {code}, {ne}, {nw}", o.code(), d.errors(), d.warnings()));
            }
            let g = want.get("src/graphql-globals.ts").map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
            let m = crate::ts::parse(&g)?.globals()?;
            let names: std::collections::BTreeSet<&str> = m.keys().map(|x| x.as_str()).collect();
            if names != globals.iter().copied().collect() {
                return Err(format!("global types {names:?}, expected {globals:?}"));
            }
            Ok(())
        };
        let st = explore_project(r, p, *b, cap, false, &expect);
        rows.push((p.name.clone(), *b, st));
        if r.bad() > 0 {
            break;
        }
    }
    counts(r);
    floods(r);
    crowds(r, &[err, en, warn, inp, en, "query Bad {\n", inp2], &|count, o, got, name| {
        let d = diag::parse(&o.stdout);
        let kind = |k: &[usize]| (0..count).filter(|i| k.contains(&(i % 7))).count();
        let (ne, nw) = (kind(&[0, 5]), 2 * kind(&[2]));
        if o.code() != 1 || d.errors() != ne || d.warnings() != nw {
            return Err(format!("exit status {}, {} errors, {} warnings; expected 1, {ne}, {nw}", o.code(), d.errors(), d.warnings()));
        }
        let said: std::collections::HashSet<&str> = d.list.iter().filter_map(|m| m.file.as_deref()).filter_map(|f| f.split_once("src/")).map(|x| x.1).collect();
        for i in 0..count {
            if matches!(i % 7, 0 | 2 | 5) && !said.contains(name(i).as_str()) {
                return Err(format!("nothing is said of {}", name(i)));
            }
        }
        let g = got.get("src/graphql-globals.ts").map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
        let m = crate::ts::parse(&g)?.globals()?;
        let names: Vec<&str> = m.keys().map(|x| x.as_str()).collect();
        if names != ["E", "G", "I", "K"] {
            return Err(format!("global types {names:?}"));
        }
        Ok(())
    });
    summary(r, &rows);
}
/// Any number of messages about one file, and about many, arrives whole.
fn floods(r: &Report) {
    let schema = Schema::sdl(SDL).json().dump();
    let mut items = vec![];
    for n in [1usize, 2, 9, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097] {
        for (e, w) in [(n, 0), (0, n), (n, n), (n, 3), (3, n)] {
            for threads in 1..=3usize {
                if n > 600 && (threads != 1 + n % 3 || e == w) && !r.thorough {
                    continue;
                }
                items.push((e, w, threads));
            }
        }
    }
    let bad = par(&items, |slot, _, (e, w, threads)| {
        let body = |f: &str, k: usize| format!("query Q {{\n  a {{\n{}    id\n  }}\n}}\n", (0..k).map(|i| format!("    x{i}: {f}\n")).collect::<String>());
        let p = Project {
            name: "floods".into(),
            files: vec![("a.graphql".into(), body("nope", *e)), ("b.graphql".into(), body("old", *w)), ("c.graphql".into(), body("e", 1)), ("d/b.graphql".into(), body("old", *w)), ("d/e.graphql".into(), body("nope", *e))],
            dirs: vec![],
            args: args(&["src", "-s", "schema.json", "--show-deprecation-warnings", "--num-threads", &threads.to_string()]),
        };
        install(slot, &p, &schema);
        let o = slot.run(&slot.dir, &p.args, &Env::default());
        if let Some(a) = o.abnormal() {
            return Some((a, o.stdout));
        }
        let d = diag::parse(&o.stdout);
        let lines = |f: &str| d.list.iter().filter(|x| x.file.as_deref().is_some_and(|y| y.ends_with(f))).filter_map(|x| x.line).collect::<std::collections::BTreeSet<_>>().len();
        for (f, want) in [("src/a.graphql", *e), ("src/b.graphql", *w), ("src/d/b.graphql", *w), ("src/d/e.graphql", *e)] {
            if lines(f) != want {
                return Some((format!("{} of {want} messages about {f}", lines(f)), String::new()));
            }
        }
        if o.code() != i32::from(*e > 0) || d.errors() != 2 * e || d.warnings() != 2 * w {
            return Some((format!("exit status {}, {} errors, {} warnings", o.code(), d.errors(), d.warnings()), String::new()));
        }
        let g = tree(&slot.dir).get("src/graphql-globals.ts").is_some();
        (!g).then(|| ("the global types are lost".to_string(), String::new()))
    });
    for ((e, w, threads), x) in items.iter().zip(bad) {
        if let Some((x, out)) = x {
            r.violation(&format!("{e} errors and {w} warnings in a file, {threads} threads: {x}"), "messages about one file are lost", format!("{x}\n{out}"));
        }
    }
    r.cov("floods", crate::json::n(items.len()));
}
/// Any number of threads tells the same story.
fn counts(r: &Report) {
    let schema = Schema::sdl(SDL).json().dump();
    let bodies = ["query Q {\n  a { nope }\n}\n", "query Q {\n  a { e }\n}\n", "query Q($i: I) {\n  a { id }\n}\n", "query Q {\n  a { old }\n}\n", "query Q {\n", "query Q($k: K) {\n  node { ... on A { e } }\n}\n"];
    let mut files: Vec<(String, String)> = (0..36).map(|i| (format!("{}f{i}.graphql", ["", "d/", "d/e/"][i % 3]), bodies[i % bodies.len()].to_string())).collect();
    // what is wrong with a file is said of it whoever comes across it, and whoever did before
    files.push(("bad.graphql".into(), "#import \"./none.graphql\"\nfragment Z on A {\n  id\n}\n".into()));
    files.push(("odd.graphql".into(), "fragment O on A {\n  nope\n}\n".into()));
    files.extend((0..12).map(|i| (format!("imp{i}.graphql"), format!("#import \"./{}.graphql\"\nquery Q {{\n  a {{ ...O }}\n}}\n", ["bad", "odd", "none"][i % 3]))));
    let counts: Vec<usize> = vec![1, 2, 3, 4, 5, 6, 7, 8, 10, 13];
    let res = par(&counts, |slot, _, c| {
        let p = Project {
            name: "counts".into(),
            files: files.clone(),
            dirs: vec![],
            args: args(&["src", "-s", "schema.json", "--show-deprecation-warnings", "--num-threads", &c.to_string()]),
        };
        install(slot, &p, &schema);
        let o = slot.run(&slot.dir, &p.args, &Env::default());
        (tree(&slot.dir), diag::parse(&o.stdout).canon(), o)
    });
    for (i, x) in res.iter().enumerate() {
        let k = if let Some(a) = x.2.abnormal() {
            a
        } else if x.0 != res[0].0 {
            "generated files differ from those of one thread".into()
        } else if x.1 != res[0].1 {
            "diagnostics differ from those of one thread".into()
        } else if x.2.code() != res[0].2.code() || x.2.code() != 1 {
            format!("exit status {}", x.2.code())
        } else {
            continue;
        };
        r.violation(&format!("50 files, {} threads: {k}", counts[i]), &k, x.2.stdout.clone());
    }
    // zero threads either work or are refused; they never claim success with nothing done
    let slot = Slot::new();
    for c in ["0"] {
        let p = plain("zero", &["a.graphql"], &[], 1);
        install(&slot, &p, &schema);
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", c]), &Env::default());
        if o.abnormal().is_some() || (o.code() == 0 && !tree(&slot.dir).contains_key("src/a.graphql.d.ts")) {
            let k = format!("--num-threads {c}: exit status {} with nothing compiled", o.code());
            r.violation(&k, &k, o.stdout.clone());
        }
    }
    r.cov("thread_counts_on_default_schedule", n(counts.len()));
}
