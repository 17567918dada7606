//! F01, F02, F03: failing, dying and straying file system calls.
use crate::diag;
use crate::explore::*;
use crate::json::n;
use crate::report::Report;
use crate::runner::*;
use crate::schema::Schema;
use std::collections::{BTreeMap, BTreeSet};

const SDL: &str = "interface Node { id: ID! } type A implements Node { id: ID! name: String e: E old: Int @deprecated } type B implements Node { id: ID! g: G } \
 enum E { X Y } enum G { P Q } enum H { R } input I { a: Int k: K } input K { h: H } input L { x: Int } type Query { a: A node: Node }";

#[derive(Clone)]
pub struct Tree0 {
    pub name: &'static str,
    /// relative to the working directory
    pub files: Vec<(&'static str, String)>,
    pub dirs: Vec<&'static str>,
    pub args: Vec<String>,
    pub config: Option<&'static str>,
    /// source -> the files it imports, directly or not
    pub deps: Vec<(&'static str, Vec<&'static str>)>,
    /// compile once before, so that outputs are there already
    pub leftovers: bool,
}
fn f(p: &'static str, t: &str) -> (&'static str, String) {
    (p, t.to_string())
}
/// Small projects that between them do everything qlc does with files.
pub fn projects() -> Vec<Tree0> {
    let schema = Schema::sdl(SDL).json().dump();
    let full = vec![
        ("schema.json", schema.clone()),
        f(".qlcrc.json", "{ \"schemaFile\": \"schema.json\", \"showDeprecationWarnings\": true }"),
        f("src/a.graphql", "query A {\n  a { e }\n}\n"),
        f("src/f.graphql", "fragment F on A {\n  name\n}\n"),
        f("src/d/b.graphql", "#import \"../f.graphql\"\n#import \"@/d/g.graphql\"\nquery B($l: L) {\n  a { ...F }\n  node { ...G }\n}\n"),
        f("src/d/g.graphql", "#import \"../f.graphql\"\nfragment G on Node {\n  ... on B { g }\n  ... on A { ...F }\n}\n"),
        f("src/d/e/h.graphql", "query H($i: [I!]!) {\n  a { id old }\n}\n"),
        f("src/n.txt", "nothing"),
    ];
    let deps = vec![("src/d/b.graphql", vec!["src/f.graphql", "src/d/g.graphql"]), ("src/d/g.graphql", vec!["src/f.graphql"])];
    let a = |x: &[&str]| {
        let mut v = args(x);
        v.extend(args(&["--num-threads", "1", "--root-dir-import-prefix", "@/"]));
        v
    };
    let mut v = vec![
        Tree0 { name: "everything", files: full.clone(), dirs: vec!["src/z"], args: a(&["src"]), config: Some(".qlcrc.json"), deps: deps.clone(), leftovers: false },
        Tree0 { name: "everything again", files: full.clone(), dirs: vec!["src/z"], args: a(&["src"]), config: Some(".qlcrc.json"), deps, leftovers: true },
        Tree0 {
            name: "errors of all sorts",
            files: vec![
                ("schema.json", schema.clone()),
                f("src/bad.graphql", "query Bad {\n  a { nope }\n}\n"),
                f("src/d/syntax.graphql", "query {\n"),
                f("src/d/miss.graphql", "#import \"none.graphql\"\nquery M {\n  a { e ...N }\n}\n"),
                f("src/d/missok.graphql", "#import \"none.graphql\"\nquery M {\n  a { old }\n}\n"),
                f("src/ok.graphql", "query Ok {\n  a { e ... on B { id } }\n}\n"),
                f("src/two.graphql", "query A { a { id } }\nquery B { a { id } }\n"),
            ],
            dirs: vec![],
            args: a(&["src", "-s", "schema.json", "--show-deprecation-warnings"]),
            config: None,
            deps: vec![("src/d/miss.graphql", vec!["src/none.graphql"]), ("src/d/missok.graphql", vec!["src/none.graphql"])],
            leftovers: false,
        },
        Tree0 {
            name: "configuration elsewhere",
            files: vec![("conf/s.json", schema.clone()), f("conf/c.json", "{ \"schemaFile\": \"s.json\", \"globalTypesModuleName\": \"d/globals\" }"), f("src/a.graphql", "query A {\n  a { e }\n}\n"), f("src/d/b.graphql", "query B($i: I) {\n  a { id }\n}\n")],
            dirs: vec![],
            args: a(&["src", "-c", "conf/c.json"]),
            config: Some("conf/c.json"),
            deps: vec![],
            leftovers: false,
        },
        Tree0 { name: "nothing to do", files: vec![("src/schema.json", schema.clone())], dirs: vec!["src/d/e"], args: a(&["src"]), config: None, deps: vec![], leftovers: false },
        Tree0 { name: "one long document", files: vec![("src/schema.json", schema), ("src/a.graphql", format!("query A {{\n  a {{ {} }}\n}}\n", (0..600).map(|i| format!("x{i}: e ")).collect::<String>()))], dirs: vec![], args: a(&["src"]), config: None, deps: vec![], leftovers: false },
    ];
    // a name that is longer on disk than the buffer of one read
    v[4].files.push(f("src/d/e/readme", "x"));
    v
}
impl Tree0 {
    fn sources(&self) -> Vec<&'static str> {
        self.files.iter().map(|x| x.0).filter(|x| x.starts_with("src/") && x.ends_with(".graphql")).collect()
    }
    pub fn install(&self, slot: &Slot) {
        slot.reset();
        for d in &self.dirs {
            std::fs::create_dir_all(slot.dir.join(d)).unwrap();
        }
        for (p, t) in &self.files {
            put(&slot.dir, p, t);
        }
        if self.leftovers {
            slot.run(&slot.dir, &self.args, &Env::default());
            // longer than what is to come, and not the same
            for (k, b) in tree(&slot.dir) {
                if k.ends_with(".ts") {
                    let mut b = b.clone();
                    b.splice(0..0, *b"// old\n");
                    b.extend(b"// old, and longer than it will be\n".repeat(20));
                    put(&slot.dir, &k, b);
                }
            }
        }
    }
    /// The sources a fault at this path may show in; None: everything
    fn touched(&self, io: &IoRec) -> Option<BTreeSet<&'static str>> {
        let p = norm(&io.path);
        let below = |d: &str| self.sources().into_iter().filter(|s| s.starts_with(&format!("{d}/"))).collect::<BTreeSet<_>>();
        Some(match io.kind {
            IO_OPENDIR | IO_READDIR => below(&p),
            IO_STAT if io.how == 3 => return None,
            IO_STAT => below(p.rsplit_once('/').map_or("", |x| x.0)),
            _ if p.ends_with(".graphql") => {
                let mut v: BTreeSet<&'static str> = self.sources().into_iter().filter(|s| *s == p).collect();
                v.extend(self.deps.iter().filter(|d| d.1.contains(&p.as_str())).map(|d| d.0));
                v
            }
            _ if p.ends_with(".graphql.d.ts") => self.sources().into_iter().filter(|s| format!("{s}.d.ts") == p).collect(),
            _ if p.ends_with(".json") => return None,
            _ => BTreeSet::new(),
        })
    }
}
fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "." | "" => {}
            ".." if v.last().is_some_and(|x| *x != "..") => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    v.join("/")
}
/// An undisturbed run.
pub struct Base {
    pub init: Tree,
    pub after: Tree,
    pub o: Outcome,
    pub diags: Vec<diag::Diag>,
    /// what every source needs of the global types file
    needs: BTreeMap<String, BTreeSet<String>>,
    globals_at: Option<String>,
    globals: BTreeMap<String, String>,
}
pub fn base(slot: &Slot, t: &Tree0) -> Base {
    t.install(slot);
    let init = tree(&slot.dir);
    let o = slot.run(&slot.dir, &t.args, &Env::default());
    let after = tree(&slot.dir);
    let globals_at = after.keys().find(|k| k.ends_with(".ts") && !k.ends_with(".graphql.d.ts")).cloned();
    let parse = |k: &str| crate::ts::parse(&String::from_utf8_lossy(&after[k])).ok();
    let globals = globals_at.as_ref().and_then(|g| parse(g)).and_then(|m| m.globals().ok()).unwrap_or_default();
    let mut needs = BTreeMap::new();
    for s in t.sources() {
        let k = format!("{s}.d.ts");
        let mut v = BTreeSet::new();
        if let Some(m) = after.contains_key(&k).then(|| parse(&k)).flatten() {
            v = m.imported().keys().filter(|x| globals.contains_key(**x)).map(|x| x.to_string()).collect();
        }
        needs.insert(s.to_string(), v);
    }
    let diags = diag::parse(&o.stdout).list;
    Base { init, after, o, diags, needs, globals_at, globals }
}
/// Puts the tree back as it was before the run.
pub fn restore(slot: &Slot, b: &Base) {
    let now = tree(&slot.dir);
    for (k, v) in &now {
        if k.ends_with('/') {
            continue;
        }
        match b.init.get(k) {
            None => {
                let _ = std::fs::remove_file(slot.dir.join(k));
            }
            Some(w) if w != v => {
                let _ = std::fs::write(slot.dir.join(k), w);
            }
            _ => {}
        }
    }
    for (k, w) in &b.init {
        if !now.contains_key(k) {
            put(&slot.dir, k, w);
        }
    }
}
fn concerns(d: &diag::Diag, s: &str) -> bool {
    d.file.as_deref().map(norm).is_some_and(|x| x == s) || d.file.is_none() && d.msg.contains(s)
}
/// One disturbed run against the undisturbed one.
fn judge(t: &Tree0, b: &Base, after: &Tree, o: &Outcome, harmless: bool) -> Result<String, String> {
    if let Some(a) = o.abnormal() {
        return Err(a);
    }
    // whatever happens, nothing but outputs is written
    for (k, v) in &b.init {
        if !k.ends_with(".ts") && after.get(k) != Some(v) {
            return Err(format!("{k} is changed"));
        }
    }
    for k in after.keys() {
        if !b.init.contains_key(k) && !b.after.contains_key(k) {
            return Err(format!("{k} appears"));
        }
    }
    for e in o.io.iter().filter(|e| e.wr) {
        let p = norm(&e.path);
        if e.denied || !(b.globals_at.as_ref() == Some(&p) || p.strip_suffix(".d.ts").is_some_and(|s| t.sources().contains(&s))) {
            return Err(format!("{p} is written"));
        }
    }
    let d = diag::parse(&o.stdout);
    if (d.errors() > 0) != (o.code() == 1) || o.code() > 1 {
        return Err(format!("exit status {} with {} errors", o.code(), d.errors()));
    }
    let faulted: Vec<&IoRec> = o.io.iter().filter(|e| e.faulted).collect();
    let same = *after == b.after && o.code() == b.o.code() && d.canon() == diag::parse(&b.o.stdout).canon();
    if faulted.is_empty() {
        return if same { Ok("not reached".into()) } else { Err("a different result without a fault".into()) };
    }
    if harmless {
        return if same { Ok("unnoticed".into()) } else { Err("a shortened or interrupted transfer changes the result".into()) };
    }
    // failing as it does anyway is no fault
    let usual = |e: &IoRec| b.o.io.iter().any(|x| x.kind == e.kind && x.path == e.path && x.res == e.res && x.res < 0);
    let soft = faulted.iter().all(|e| e.kind == IO_STAT || usual(e));
    // the default configuration need not be there: as good as a run without it, which is judged elsewhere
    if faulted.len() == 1 && faulted[0].kind == IO_OPEN && faulted[0].res == -2 && faulted[0].path == ".qlcrc.json" {
        return Ok("no configuration".into());
    }
    if same && soft {
        return Ok("unnoticed".into());
    }
    if o.code() != 1 {
        return Err(format!("exit status {} though {} of {} failed", o.code(), kind(faulted[0].kind), norm(&faulted[0].path)));
    }
    // each failure is told of, with the place
    for e in &faulted {
        let p = norm(&e.path);
        // a schema that cannot be read is malformed, for qlc
        if e.kind == IO_STAT && e.how != 0 || e.kind == IO_READ && p.ends_with(".json") {
            continue;
        }
        let named = d.list.iter().any(|x| {
            x.level != "warning"
                && !b.diags.contains(x)
                && (norm(&x.msg).contains(&p) || x.file.as_deref().map(norm).as_deref() == Some(&p) || x.msg.split('`').any(|q| norm(q) == p || (e.kind == IO_STAT && p.starts_with(&norm(q)))))
        });
        if !named {
            return Err(format!("no error names {p}"));
        }
    }
    // and what it does not touch is as if it had not happened
    let mut touched: BTreeSet<&str> = BTreeSet::new();
    for e in &faulted {
        match t.touched(e) {
            Some(v) => touched.extend(v),
            None => touched.extend(t.sources()),
        }
    }
    let mut changed = 0;
    for s in t.sources() {
        let k = format!("{s}.d.ts");
        let mine = |v: &[diag::Diag]| {
            let mut m: Vec<diag::Diag> = v.iter().filter(|x| concerns(x, s)).cloned().collect();
            m.sort();
            m
        };
        let here = after.get(&k) == b.after.get(&k) && mine(&d.list) == mine(&b.diags);
        if !here && !touched.contains(s) {
            return Err(format!("{s} suffers though it is not concerned"));
        }
        changed += usize::from(after.get(&k) != b.after.get(&k));
    }
    let fatal = faulted.iter().any(|e| e.path.ends_with(".json"));
    if !fatal && faulted.len() == 1 && !matches!(faulted[0].kind, IO_OPENDIR | IO_READDIR | IO_STAT) && changed > 1 {
        return Err(format!("one failed {} takes {changed} files with it", kind(faulted[0].kind)));
    }
    if let (Some(g), false) = (&b.globals_at, fatal) {
        let hit = faulted.iter().any(|e| norm(&e.path) == *g);
        let need: BTreeSet<&String> = t.sources().iter().filter(|s| !touched.contains(**s)).flat_map(|s| &b.needs[*s]).collect();
        if !hit && !need.is_empty() {
            let text = after.get(g).map(|x| String::from_utf8_lossy(x).into_owned()).unwrap_or_default();
            let got = crate::ts::parse(&text).and_then(|m| m.globals()).map_err(|e| format!("the global types are not readable: {e}"))?;
            for x in need {
                if got.get(x) != b.globals.get(x) {
                    return Err(format!("the global type {x} is lost"));
                }
            }
            for (x, v) in &got {
                if b.globals.get(x) != Some(v) {
                    return Err(format!("the global type {x} is wrong"));
                }
            }
        }
    }
    Ok(format!("{} fails: {changed} outputs differ", kind(faulted[0].kind)))
}
fn kind(k: u8) -> &'static str {
    match k {
        IO_OPEN => "open",
        IO_READ => "read",
        IO_WRITE => "write",
        IO_OPENDIR => "opendir",
        IO_READDIR => "readdir",
        IO_STAT => "stat",
        _ => "other",
    }
}
const EINTR: i32 = 4;
#[derive(Clone)]
struct Fault {
    at: Vec<(i32, i32, i32)>,
    unknown: bool,
    short: u32,
    harmless: bool,
}
pub fn f01(r: &Report) {
    let ps = projects();
    let mut total = 0;
    let mut points = 0;
    for (pi, t) in ps.iter().enumerate() {
        let slot = Slot::new();
        let b0 = base(&slot, t);
        if let Some(a) = b0.o.abnormal() {
            r.violation(&format!("{}: {a}", t.name), &a, b0.o.stdout.clone());
            continue;
        }
        // with attributes asked for, too
        let mut items: Vec<Fault> = vec![];
        let mut n_ops = [0; 2];
        for unknown in [false, true] {
            restore(&slot, &b0);
            let o = slot.run(&slot.dir, &t.args, &Env { dtype_unknown: unknown, ..Env::default() });
            if tree(&slot.dir) != b0.after || o.code() != b0.o.code() {
                r.violation(&format!("{}: file types asked for", t.name), "a file system that does not give types with names changes the result", o.stdout);
                continue;
            }
            n_ops[unknown as usize] = o.io.len();
            points += o.io.len();
            let errnos: Vec<i32> = if r.thorough || pi < 1 { (1..=40).collect() } else { vec![1, 2, 5, 12, 13, 20, 21, 24, 28, 36, 40] };
            for (i, e) in o.io.iter().enumerate() {
                if unknown && e.kind != IO_STAT && !r.thorough {
                    continue;
                }
                for en in &errnos {
                    // ENOSYS and EPERM of statx mean that there is no such call
                    if e.kind == IO_STAT && matches!(en, 1 | 38) {
                        continue;
                    }
                    let dir = matches!(e.kind, IO_OPENDIR | IO_READDIR | IO_STAT);
                    items.push(Fault { at: vec![(i as i32, F_ERRNO, *en)], unknown, short: 0, harmless: *en == EINTR && !dir });
                }
                if matches!(e.kind, IO_READ | IO_WRITE) {
                    for k in [1, 2, 3, 7, 16, 100] {
                        items.push(Fault { at: vec![(i as i32, F_SHORT, k)], unknown, short: 0, harmless: true });
                    }
                }
            }
        }
        for k in [1, 2, 3, 5, 16, 64, 1000] {
            items.push(Fault { at: vec![], unknown: false, short: k, harmless: true });
        }
        // two at once
        let errs: &[(i32, i32)] = if r.thorough { &[(5, 5), (13, 2), (28, 28), (24, 5), (5, 28), (2, 24)] } else if pi == 0 || pi == 3 { &[(5, 28)] } else { &[] };
        for (x, y) in errs {
            for i in 0..n_ops[0] as i32 {
                for j in i + 1..n_ops[0] as i32 {
                    items.push(Fault { at: vec![(i, F_ERRNO, *x), (j, F_ERRNO, *y)], unknown: false, short: 0, harmless: false });
                }
            }
        }
        // a write that is cut short and then fails
        for (i, e) in b0.o.io.iter().enumerate() {
            if e.kind == IO_WRITE {
                for k in [1, 50] {
                    items.push(Fault { at: vec![(i as i32, F_SHORT, k), (i as i32 + 1, F_ERRNO, 28)], unknown: false, short: 0, harmless: false });
                }
            }
        }
        let chunks: Vec<&[Fault]> = items.chunks(items.len().div_ceil(64).max(1)).collect();
        let bad = par(&chunks, |slot, _, c| {
            let b = base(slot, t);
            let mut srv = Server::new(slot, &slot.dir, &t.args);
            let mut out = vec![];
            for x in c.iter() {
                restore(slot, &b);
                let o = srv.run(&Env { faults: x.at.clone(), dtype_unknown: x.unknown, short_all: x.short, ..Env::default() });
                let after = tree(&slot.dir);
                let mut v = judge(t, &b, &after, &o, x.harmless);
                if x.short > 0 && v.is_ok() && (after != b.after || o.code() != b.o.code()) {
                    v = Err("short transfers change the result".into());
                }
                let at: Vec<String> = x.at.iter().map(|f| format!("{} {} {}", f.0, o.io.get(f.0 as usize).map_or(String::new(), |e| format!("{} {}", kind(e.kind), norm(&e.path))), if f.1 == F_ERRNO { format!("errno {}", f.2) } else { format!("at most {} bytes", f.2) })).collect();
                out.push((at.join(" and "), v, o.stdout + &o.stderr));
            }
            out
        });
        total += items.len();
        for (at, v, out) in bad.into_iter().flatten() {
            match v {
                Ok(l) => r.outcome(&l),
                Err(e) => r.violation(&format!("{}: {at}: {e}", t.name), &e, format!("{}: operation {at}\n{e}\n{out}", t.name)),
            }
        }
        r.sample(format!("{}: {} file system operations, {} fault runs", t.name, n_ops[0], items.len()));
        if r.bad() > 0 {
            break;
        }
    }
    r.cov("fault_points", n(points));
    r.count("evaluations", total);
    // under schedules: a worker that fails must not take the others along
    if r.bad() == 0 {
        scheduled(r, |t, b, slot, o| {
            let after = tree(&slot.dir);
            judge(t, b, &after, o, false)
        }, &[(F_ERRNO, 5), (F_ERRNO, 24)]);
    }
    r.assume("close and program exit do not fail; faults of the terminal are not injected");
}
fn small() -> Tree0 {
    let schema = Schema::sdl(SDL).json().dump();
    Tree0 {
        name: "two workers",
        files: vec![("schema.json", schema), f("src/a.graphql", "query A {\n  a { e }\n}\n"), f("src/d/b.graphql", "query B($i: L) {\n  a { id }\n}\n")],
        dirs: vec![],
        args: args(&["src", "-s", "schema.json", "--num-threads", "2"]),
        config: None,
        deps: vec![],
        leftovers: false,
    }
}
/// Every operation disturbed under every schedule up to a bound.
fn scheduled(r: &Report, check: impl Fn(&Tree0, &Base, &Slot, &Outcome) -> Result<String, String> + Sync, faults: &[(i32, i32)]) {
    let t = small();
    let slot = Slot::new();
    let b = base(&slot, &t);
    let first = b.o.io.iter().position(|e| e.kind == IO_OPENDIR).unwrap_or(0) as i32;
    let last = b.o.io.len() as i32;
    let bound = if r.thorough { 2 } else { 1 };
    let mut execs = 0;
    let mut capped = 0;
    for at in first..last {
        for (k, a) in faults {
            if r.bad() > 0 {
                return;
            }
            let setup = |s: &Slot| {
                t.install(s);
                (s.dir.clone(), t.args.clone())
            };
            let reset = |s: &Slot| restore(s, &b);
            let chk = |s: &Slot, o: &Outcome| check(&t, &b, s, o);
            let st = explore(&Harness { name: format!("fault {k} at {at}"), setup: &setup, reset: &reset, check: &chk, env: Env { faults: vec![(at, *k, *a)], ..Env::default() }, bound, time_s: if r.thorough { 25.0 } else { 2.0 }, stop_after: 2 });
            execs += st.execs;
            capped += usize::from(st.completed != Some(bound));
            for (l, c) in &st.outcomes {
                for _ in 0..*c {
                    r.outcome(l);
                }
            }
            for (k2, e) in &st.violations {
                r.violation(&format!("two workers, operation {at}: {k2}"), k2, e.clone());
            }
        }
    }
    r.cov("schedules_with_a_fault", n(execs));
    r.cov("schedule_preemption_bound", n(bound));
    r.cov("capped_harnesses", n(capped));
    r.count("evaluations", execs);
}

// ------------------------------------------------------------------ F02
pub fn f02(r: &Report) {
    let ps = projects();
    let mut total = 0;
    let mut points = 0;
    for (pi, t) in ps.iter().enumerate() {
        let slot = Slot::new();
        let b0 = base(&slot, t);
        // how it may die
        let mut deaths: Vec<(i32, i32, i32)> = vec![];
        for (i, e) in b0.o.io.iter().enumerate() {
            deaths.push((i as i32, F_CRASH_BEFORE, 0));
            deaths.push((i as i32, F_CRASH_AFTER, 0));
            if e.kind == IO_WRITE {
                deaths.extend([0, 1, 2].map(|k| (i as i32, F_TORN, k)));
            }
        }
        points += deaths.len();
        // histories: one death, two deaths, a death and an edit of a source
        let mut items: Vec<(Vec<(i32, i32, i32)>, usize)> = deaths.iter().map(|d| (vec![*d], 0)).collect();
        for d in &deaths {
            for edit in 1..5 {
                items.push((vec![*d], edit));
            }
        }
        let is_wr = |d: &(i32, i32, i32)| b0.o.io[d.0 as usize].wr;
        for d in &deaths {
            for e in &deaths {
                if r.thorough || (pi < 2 && is_wr(d) && is_wr(e)) {
                    items.push((vec![*d, *e], 0));
                }
            }
        }
        if r.thorough {
            for d in deaths.iter().filter(|d| is_wr(d)) {
                for e in deaths.iter().filter(|d| is_wr(d)) {
                    for g in deaths.iter().filter(|d| is_wr(d)).step_by(3) {
                        items.push((vec![*d, *e, *g], 0));
                    }
                }
            }
        }
        let chunks: Vec<&[(Vec<(i32, i32, i32)>, usize)]> = items.chunks(items.len().div_ceil(64).max(1)).collect();
        let bad = par(&chunks, |slot, _, c| {
            let b = base(slot, t);
            // what a first run gives, per edit
            let mut wants: BTreeMap<usize, (Tree, Outcome)> = BTreeMap::new();
            for e in 0..5 {
                let mut c = t.clone();
                c.leftovers = false;
                c.install(slot);
                edit(slot, t, e);
                let o = slot.run(&slot.dir, &t.args, &Env::default());
                wants.insert(e, (tree(&slot.dir), o));
            }
            t.install(slot);
            let mut srv = Server::new(slot, &slot.dir, &t.args);
            let mut out = vec![];
            for (hist, e) in c.iter() {
                restore(slot, &b);
                let mut res = Ok("recovered".to_string());
                for d in hist {
                    let o = srv.run(&Env { faults: vec![*d], ..Env::default() });
                    // the second time another operation may have this number
                    let torn = d.1 == F_TORN && o.io.get(d.0 as usize).is_none_or(|x| x.kind != IO_WRITE);
                    if o.io.iter().any(|x| x.faulted) && !torn && o.status != Status::Exit(137) {
                        res = Err(format!("harness: not killed: {:?}", o.status));
                    }
                    let now = tree(&slot.dir);
                    for (k, v) in &b.init {
                        if !k.ends_with(".ts") && now.get(k) != Some(v) {
                            res = Err(format!("{k} is changed by a run that dies"));
                        }
                    }
                    for (k, v) in &now {
                        if !b.init.contains_key(k) && !b.after.get(k).is_some_and(|w| w.starts_with(v)) {
                            res = Err(format!("{k} is left behind by a run that dies"));
                        }
                    }
                }
                if *e > 0 {
                    edit(slot, t, *e);
                }
                let o = srv.run(&Env::default());
                let now = tree(&slot.dir);
                let (want, wo) = &wants[e];
                if res.is_ok() {
                    res = same(want, wo, &now, &o, *e > 0 || t.leftovers).map(|_| format!("recovered after {} deaths{}", hist.len(), if *e > 0 { " and an edit" } else { "" }));
                }
                let at: Vec<String> = hist.iter().map(|d| format!("{} {} {}", ["", "", "", "before", "after", "inside"][d.1 as usize], kind(b.o.io[d.0 as usize].kind), norm(&b.o.io[d.0 as usize].path))).collect();
                out.push((format!("dies {} (edit {e})", at.join(", then ")), res, o.stdout));
            }
            out
        });
        total += items.len();
        for (at, v, out) in bad.into_iter().flatten() {
            match v {
                Ok(l) => r.outcome(&l),
                Err(e) => r.violation(&format!("{}: {at}: {e}", t.name), &e, format!("{}: {at}\n{e}\n{out}", t.name)),
            }
        }
        r.sample(format!("{}: {} ways to die, {} histories", t.name, deaths.len(), items.len()));
        if r.bad() > 0 {
            break;
        }
    }
    r.cov("fault_points", n(points));
    r.count("evaluations", total);
    if r.bad() == 0 {
        let slot2: std::sync::Mutex<BTreeMap<usize, Slot>> = Default::default();
        scheduled(r, |t, b, slot, o| {
            let reached = o.io.iter().any(|e| e.faulted);
            if !reached {
                return Ok("not reached".into());
            }
            let now = tree(&slot.dir);
            for (k, v) in &b.init {
                if now.get(k) != Some(v) {
                    return Err(format!("{k} is changed by a run that dies"));
                }
            }
            for (k, v) in &now {
                if !b.init.contains_key(k) && !b.after.get(k).is_some_and(|w| w.starts_with(v)) {
                    return Err(format!("{k} is left behind by a run that dies"));
                }
            }
            // run again, elsewhere: this slot's control block holds the schedule
            let s2 = slot2.lock().unwrap().remove(&slot.id).unwrap_or_else(Slot::new);
            s2.reset();
            for (k, v) in &now {
                if k.ends_with('/') {
                    let _ = std::fs::create_dir_all(s2.dir.join(k));
                } else {
                    put(&s2.dir, k, v);
                }
            }
            let o2 = s2.run(&s2.dir, &t.args, &Env::default());
            let after = tree(&s2.dir);
            slot2.lock().unwrap().insert(slot.id, s2);
            same(&b.after, &b.o, &after, &o2, false)?;
            Ok(format!("{} outputs there when it died", now.len() - b.init.len()))
        }, &[(F_CRASH_BEFORE, 0), (F_CRASH_AFTER, 0), (F_TORN, 1)]);
    }
    r.assume("a kill takes effect between or inside system calls; data that was written stays written (no loss of power)");
}
/// Changes one source, adds one, removes one, or changes the configuration by way of the schema.
fn edit(slot: &Slot, t: &Tree0, e: usize) {
    let s = t.sources();
    match e {
        1 => {
            if let Some(x) = s.first() {
                put(&slot.dir, x, "query Edited {\n  node { id }\n}\n");
            }
        }
        2 => put(&slot.dir, "src/added.graphql", "query Added($k: K) {\n  a { id e }\n}\n"),
        3 => {
            if let Some(x) = s.last() {
                let _ = std::fs::remove_file(slot.dir.join(x));
            }
        }
        4 => {
            if let Some(p) = t.files.iter().find(|x| x.1.contains("__schema")) {
                put(&slot.dir, p.0, Schema::sdl(&SDL.replace("enum E { X Y }", "enum E { X Y Z }").replace("id: ID!", "id: ID")).json().dump());
            }
        }
        _ => {}
    }
}
/// The same tree and report as a first run; outputs of sources that are gone or fail may be left from before.
fn same(want: &Tree, wo: &Outcome, now: &Tree, o: &Outcome, stale: bool) -> Result<String, String> {
    if let Some(a) = o.abnormal() {
        return Err(a);
    }
    if o.code() != wo.code() {
        return Err(format!("exit status {} instead of {}", o.code(), wo.code()));
    }
    if diag::parse(&o.stdout).canon() != diag::parse(&wo.stdout).canon() {
        return Err("another report".into());
    }
    for (k, v) in want {
        if now.get(k) != Some(v) {
            return Err(format!("{k} is {}", if now.contains_key(k) { "different" } else { "missing" }));
        }
    }
    for k in now.keys() {
        if !want.contains_key(k) && !(stale && k.ends_with(".ts")) {
            return Err(format!("{k} is left over"));
        }
    }
    Ok("the same".into())
}

// ------------------------------------------------------------------ F03
/// Where the global types go; None when the name names no file.
pub fn globals_place(src: &std::path::Path, name: &str, prefix: Option<&str>) -> Option<std::path::PathBuf> {
    let rest = match prefix.and_then(|p| name.strip_prefix(p)) {
        Some(x) => x.trim_start_matches('/'),
        None => name,
    };
    let file = std::path::Path::new(rest).file_name()?.to_string_lossy().into_owned();
    let file = if file.rfind('.').is_some_and(|k| k > 0) { file } else { format!("{file}.ts") };
    Some(src.join(std::path::Path::new(rest).parent().unwrap_or(std::path::Path::new(""))).join(file))
}
pub fn f03(r: &Report) {
    let schema = Schema::sdl(SDL).json().dump();
    let roots = ["src", "./src/", "ABS/src", "lsrc", "src/../src", "."];
    let modules = ["graphql-globals", "sub/g", "sub/g.d.ts", "../g", "../out/g", "@/../out/g.ts", "ABS/out/g", "@/sub/../g", "m.ts", "m.graphql.ts", "@/out", "missing/g", "lout/g", "m.d", "graphql-globals.d.ts"];
    let prefixes = [None, Some("@/"), Some("ABS/"), Some("../")];
    let imports = ["f.graphql", "./f.graphql", "../out/f.graphql", "./../out/f.graphql", "@/../out/f.graphql", "ABS/out/f.graphql", "lout/f.graphql", "lf.graphql", "../schema.json", "../out/none.graphql", "x.graphql", "@//f.graphql", "../src/f.graphql", "fr.gql"];
    // 0 nothing, 1 outputs of an earlier run, 2 directories where outputs would be, 3 links where outputs would be
    let mut items = vec![];
    for (i, m) in modules.iter().enumerate() {
        for (j, p) in prefixes.iter().enumerate() {
            for (k, imp) in imports.iter().enumerate() {
                for used in [true, false] {
                    for before in 0..3 {
                        for (l, root) in roots.iter().enumerate() {
                            if !r.thorough && l != (i + j + k + before + usize::from(used)) % roots.len() {
                                continue;
                            }
                            items.push((*m, *p, *imp, used, before, *root));
                        }
                    }
                }
            }
        }
    }
    let bad = par(&items, |slot, _, (module, prefix, imp, used, before, root)| {
        let ab = |x: &str| x.replace("ABS", &slot.dir.display().to_string());
        slot.reset();
        let src = slot.dir.join("src");
        put(&slot.dir, "schema.json", &schema);
        put(&slot.dir, "out/f.graphql", "fragment F on A { id }\n");
        put(&slot.dir, "out/q.graphql", "query Out { a { id } }\n");
        put(&src, "f.graphql", "fragment F on A { name }\n");
        put(&src, "fr.gql", "fragment F on A { name }\n");
        put(&src, "m.graphql", format!("#import \"{}\"\nquery M {{ a {{ {} ...F }} }}\n", ab(imp), if *used { "e" } else { "id" }));
        put(&src, "sub/v.graphql", if *used { "query V($i: I) { a { id } }\n" } else { "query V($i: Int) { a { id } }\n" });
        put(&src, "sub/bad.graphql", "query Bad { nope }\n");
        put(&src, "sub/syntax.graphql", "query {{{\n");
        for x in ["m.ts", "m.d.ts", "m.graphql.ts", "bad.d.ts", "n.txt", "m.graphqls", "sub/.graphql", "graphql-globals.d.ts", "graphql-globals", "sub/bad.graphql.d.ts"] {
            put(&src, x, format!("// {x}\n"));
        }
        std::fs::create_dir_all(src.join("x.graphql")).unwrap();
        use std::os::unix::fs::symlink;
        symlink("../out", src.join("lout")).unwrap();
        symlink("../out/f.graphql", src.join("lf.graphql")).unwrap();
        symlink("src", slot.dir.join("lsrc")).unwrap();
        let place = globals_place(&src, &ab(module), prefix.map(ab).as_deref());
        match before {
            1 => {
                for x in ["m.graphql.d.ts", "f.graphql.d.ts", "sub/v.graphql.d.ts"] {
                    put(&src, x, "// old\n".repeat(300));
                }
                if let Some(p) = place.as_ref().filter(|p| p.parent().is_some_and(|d| d.is_dir())) {
                    std::fs::write(p, "// old\n".repeat(300)).unwrap();
                }
            }
            2 => {
                for x in ["m.graphql.d.ts", "sub/v.graphql.d.ts"] {
                    std::fs::create_dir_all(src.join(x)).unwrap();
                }
            }
            _ => {}
        }
        let cwd = if *root == "." { src.clone() } else { slot.dir.clone() };
        let mut a = vec![ab(root), format!("-s{}/schema.json", slot.dir.display()), format!("--global-types-module-name={}", ab(module))];
        if let Some(p) = prefix {
            a.push(format!("--root-dir-import-prefix={}", ab(p)));
        }
        let init = tree(&slot.dir);
        let o = slot.run(&cwd, &a, &Env::default());
        let after = tree(&slot.dir);
        let real = |p: &str| -> String {
            let p = if p.starts_with('/') { std::path::PathBuf::from(p) } else { cwd.join(p) };
            let d = p.parent().map(|d| std::fs::canonicalize(d).unwrap_or(d.to_path_buf())).unwrap_or_default();
            d.join(p.file_name().unwrap_or_default()).display().to_string()
        };
        let g = place.as_ref().map(|p| real(&p.display().to_string()));
        let top = std::fs::canonicalize(&slot.dir).unwrap().display().to_string();
        let sources = ["f", "m", "sub/v"].map(|s| format!("{top}/src/{s}.graphql.d.ts"));
        let ok = |p: &str| sources.iter().any(|s| s == p) || g.as_deref() == Some(p);
        let e = (|| {
            if let Some(x) = o.abnormal() {
                return Some(x);
            }
            let inside = g.as_ref().is_none_or(|g| g.starts_with(&format!("{top}/")));
            if o.denied > 0 && inside {
                return Some("a write outside the scratch directory".into());
            }
            for w in o.io.iter().filter(|w| w.wr && (w.res >= 0 || w.denied && inside)) {
                let p = real(&w.path);
                if !ok(&p) {
                    return Some(format!("{} of {}", kind(w.kind), p.strip_prefix(&top).unwrap_or(&p)));
                }
            }
            for (k, v) in &after {
                let full = format!("{top}/{k}");
                let g_is = g.as_deref() == Some(&full);
                match init.get(k) {
                    Some(w) if w == v => {}
                    // the result of a global types file that nothing uses
                    _ if g_is && !used => return Some(format!("{k} is touched though no global type is used")),
                    _ if ok(&full) => {}
                    Some(_) => return Some(format!("{k} is changed")),
                    None => return Some(format!("{k} appears")),
                }
            }
            if let Some(k) = init.keys().find(|k| !after.contains_key(*k)) {
                return Some(format!("{k} is gone"));
            }
            if o.code() != 1 {
                return Some(format!("exit status {} with two bad files", o.code()));
            }
            None
        })();
        let n_new = after.iter().filter(|(k, v)| init.get(*k) != Some(v)).count();
        (e, n_new, format!("cwd {cwd:?} args {a:?}\n{}{}", o.stdout, o.stderr))
    });
    let mut total = items.len();
    for ((module, prefix, imp, used, before, root), (e, n_new, x)) in items.iter().zip(bad) {
        r.outcome(&format!("{n_new} files written"));
        if let Some(e) = e {
            r.violation(&format!("module {module:?} prefix {prefix:?} import {imp:?} used {used} before {before} root {root:?}: {e}"), &e, x);
        }
    }
    r.sample(format!("{} runs over {} module names, {} prefixes, {} import paths, used or not, three states before and {} ways to name the root", items.len(), modules.len(), prefixes.len(), imports.len(), roots.len()));
    total += names(r);
    total += unused(r);
    r.count("evaluations", total);
    r.assume("the global types module is not given the name of a source, the schema or the configuration");
    r.assume("an output that is a symbolic link is written through");
}
/// Every short file name over a small alphabet: only those with the extension are compiled, to the name with it.
fn names(r: &Report) -> usize {
    let schema = Schema::sdl(SDL).json().dump();
    let parts: [&[u8]; 9] = [b".graphql", b"a", b".", b"graphql", b".d.ts", b" ", "é".as_bytes(), b"\xff", b".GraphQL"];
    let mut list: Vec<Vec<u8>> = vec![];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..if r.thorough { 4 } else { 3 } {
        last = last.iter().flat_map(|s| parts.iter().map(move |p| [s.as_slice(), p].concat())).collect();
        list.extend(last.clone());
    }
    list.sort();
    list.dedup();
    list.retain(|x| x != b"." && x != b"..");
    // not beside a file that has the name of its output
    let is = |x: &[u8]| x.ends_with(b".graphql") && x.len() > 8;
    let sources: BTreeSet<Vec<u8>> = list.iter().filter(|x| is(x)).cloned().collect();
    list.retain(|x| !x.strip_suffix(b".d.ts").is_some_and(|s| sources.contains(s)));
    let chunks: Vec<&[Vec<u8>]> = list.chunks(100).collect();
    let bad = par(&chunks, |slot, _, c| {
        use std::os::unix::ffi::{OsStrExt, OsStringExt};
        slot.reset();
        put(&slot.dir, "schema.json", &schema);
        let src = slot.dir.join("src");
        std::fs::create_dir_all(&src).unwrap();
        for x in c.iter() {
            std::fs::write(src.join(std::ffi::OsStr::from_bytes(x)), "query Q { a { id } }\n").unwrap();
        }
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", "2"]), &Env::default());
        let mut want: BTreeSet<Vec<u8>> = c.iter().cloned().collect();
        want.extend(c.iter().filter(|x| is(x)).map(|x| [x.as_slice(), b".d.ts"].concat()));
        let got: BTreeSet<Vec<u8>> = std::fs::read_dir(&src).unwrap().flatten().map(|e| e.file_name().into_vec()).collect();
        let diff: Vec<String> = want.symmetric_difference(&got).map(|x| String::from_utf8_lossy(x).into_owned()).collect();
        let changed = c.iter().any(|x| std::fs::read(src.join(std::ffi::OsStr::from_bytes(x))).ok().as_deref() != Some(b"query Q { a { id } }\n"));
        o.abnormal()
            .or_else(|| (o.code() != 0).then(|| format!("exit status {}", o.code())))
            .or_else(|| (!diff.is_empty()).then(|| format!("wrongly there or missing: {:?}", &diff[..diff.len().min(4)])))
            .or_else(|| changed.then(|| "a source is changed".to_string()))
            .map(|e| (e, o.stdout))
    });
    for (e, x) in bad.into_iter().flatten() {
        r.violation(&format!("names: {e}"), &e, x);
    }
    r.cov("file_names", n(list.len()));
    list.len()
}
/// A run that uses no global types does not touch what an earlier one wrote, not even its times.
fn unused(r: &Report) -> usize {
    let schema = Schema::sdl(SDL).json().dump();
    let docs = ["query Q { a { id } }", "query Q($i: Int) { a { name } }", "query Q { nope }", "query Q { a { e } nope }", "query Q($k: K, $z: Nope) { a { id } }", "query {", "fragment F on A { id }", "query Q { __typename }"];
    let mut items = vec![];
    for (i, a) in docs.iter().enumerate() {
        for b in &docs[i..] {
            for place in ["graphql-globals", "sub/g.d.ts"] {
                items.push((*a, *b, place));
            }
        }
    }
    let bad = par(&items, |slot, _, (x, y, place)| {
        slot.reset();
        put(&slot.dir, "schema.json", &schema);
        put(&slot.dir, "src/a.graphql", x);
        put(&slot.dir, "src/sub/b.graphql", y);
        let g = if *place == "sub/g.d.ts" { "src/sub/g.d.ts" } else { "src/graphql-globals.ts" };
        put(&slot.dir, g, "// from before\n");
        let t0 = std::fs::metadata(slot.dir.join(g)).and_then(|m| m.modified()).unwrap();
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--global-types-module-name", place]), &Env::default());
        let t1 = std::fs::metadata(slot.dir.join(g)).and_then(|m| m.modified()).ok();
        let text = std::fs::read(slot.dir.join(g)).unwrap_or_default();
        o.abnormal()
            .or_else(|| (text != b"// from before\n" || t1 != Some(t0) || o.io.iter().any(|e| e.wr && norm(&e.path) == g)).then(|| "the global types file is touched though no type in it is used".to_string()))
            .map(|e| (e, o.stdout))
    });
    for ((x, y, place), e) in items.iter().zip(bad) {
        if let Some((e, out)) = e {
            r.violation(&format!("{x} and {y} with {place}: {e}"), &e, out);
        }
    }
    items.len()
}
