//! E02: nothing that can be written into a file makes qlc crash or run for ever.
use super::types::{done, one_line};
use crate::batch::*;
use crate::diag;
use crate::json::n;
use crate::report::Report;
use crate::runner::*;
use crate::schema::*;

const SDL: &str = "interface N { id: ID! n: N } type A implements N { id: ID! n: N a: A e: E f0: Int f1: Int f2: Int f3: Int } type B implements N { id: ID! n: N } union U = A | B \
enum E { X Y } input I { i: I j: [J!] e: E } input J { i: I! } scalar Date type Query { id: ID a: A n: N u: U d: Date f(x: Int): Int } type Mutation { id: ID }";

/// Edges of a digraph on k nodes as bits i*k+j.
fn has(g: u32, k: usize, i: usize, j: usize) -> bool {
    g >> (i * k + j) & 1 != 0
}
fn reach(g: u32, k: usize, from: usize) -> u32 {
    let mut seen = 0u32;
    let mut todo: Vec<usize> = (0..k).filter(|j| has(g, k, from, *j)).collect();
    while let Some(x) = todo.pop() {
        if seen >> x & 1 == 0 {
            seen |= 1 << x;
            todo.extend((0..k).filter(|j| has(g, k, x, *j)));
        }
    }
    seen
}
/// What must come of every file: Ok(own and spread fields) or an error.
fn expected(imports: u32, spreads: u32, k: usize, i: usize) -> Option<Vec<usize>> {
    let scope = reach(imports, k, i);
    within(scope, spreads, k, i)
}
fn within(scope: u32, spreads: u32, k: usize, i: usize) -> Option<Vec<usize>> {
    for j in 0..k {
        if has(spreads, k, i, j) && scope >> j & 1 == 0 {
            return None;
        }
    }
    // walk the spreads inside the scope
    fn walk(spreads: u32, k: usize, scope: u32, at: usize, path: &mut Vec<usize>, seen: &mut Vec<usize>) -> bool {
        for j in 0..k {
            if has(spreads, k, at, j) && scope >> j & 1 != 0 {
                if path.contains(&j) {
                    return false;
                }
                path.push(j);
                if !seen.contains(&j) {
                    seen.push(j);
                }
                if !walk(spreads, k, scope, j, path, seen) {
                    return false;
                }
                path.pop();
            }
        }
        true
    }
    let mut seen = vec![];
    if !walk(spreads, k, scope, i, &mut vec![], &mut seen) {
        return None;
    }
    Some(seen)
}
/// One more node, which spreads the first.
fn spreads_with_query(sp: u32, k: usize) -> u32 {
    let mut g = 1 << (k * (k + 1));
    for i in 0..k {
        for j in 0..k {
            if has(sp, k, i, j) {
                g |= 1 << (i * (k + 1) + j);
            }
        }
    }
    g
}
/// k fragments; `kinds` gives each spread its form.
fn graph_case(imports: u32, spreads: u32, k: usize, kinds: usize) -> Case {
    let mut files = vec![];
    for i in 0..k {
        let mut t = String::new();
        for j in 0..k {
            if has(imports, k, i, j) {
                t.push_str(&format!("#import \"{}\"\n", ["./f#.graphql", "././f#.graphql", "./x/../f#.graphql"][(i + j) % 3].replace('#', &j.to_string())));
            }
        }
        t.push_str(&format!("fragment F{i} on A {{ f{i} "));
        for j in 0..k {
            if has(spreads, k, i, j) {
                t.push_str(&match (kinds + i * k + j) % 3 {
                    0 => format!("...F{j} "),
                    1 => format!("a {{ id ...F{j} }} "),
                    _ => format!("... on N {{ ... on A {{ ...F{j} }} }} "),
                });
            }
        }
        t.push_str("}\n");
        files.push((format!("f{i}.graphql"), t));
    }
    files.push(("x/y".into(), String::new()));
    files.push(("q.graphql".into(), "#import \"./f0.graphql\"\nquery { id a { ...F0 } }\n".into()));
    Case { files }
}
fn graphs(r: &Report, p: &Project, items: &[(u32, u32, usize, usize)], label: &str) -> usize {
    for chunk in items.chunks(20000) {
        let cases: Vec<Case> = chunk.iter().map(|(i, s, k, kd)| graph_case(*i, *s, *k, *kd)).collect();
        let (got, wholes) = run_cases(p, &cases);
        for (x, (g, c)) in chunk.iter().zip(got.iter().zip(&cases)) {
            let (im, sp, k, _) = *x;
            let e = (|| {
                if let Some(a) = &g.abnormal {
                    return Some(a.clone());
                }
                for i in 0..k {
                    let f = format!("f{i}.graphql");
                    let out = g.outs.get(&f);
                    let errs = g.errors().iter().filter(|d| d.file.as_deref() == Some(&f)).count();
                    match expected(im, sp, k, i) {
                        None if errs == 0 => return Some(format!("{f} spreads without end or without import and has no error")),
                        None if out.is_some() => return Some(format!("{f} has an error and an output")),
                        Some(_) if errs > 0 => return Some(format!("{f} is right and rejected")),
                        Some(_) if out.is_none() => return Some(format!("{f} is right and has no output")),
                        Some(_) if !out.unwrap().contains(&format!("f{i}: ")) => return Some(format!("the output of {f} lacks its own field")),
                        Some(seen) if seen.iter().all(|j| expected(im, sp, k, *j).is_some()) => {
                            if let Some(j) = seen.iter().find(|j| !out.unwrap().contains(&format!("f{j}: "))) {
                                return Some(format!("the output of {f} lacks the fields of F{j}"));
                            }
                        }
                        _ => {}
                    }
                }
                // the query spreads F0 and has F0 and all it imports in scope
                let scope = 1 | reach(im, k, 0);
                let big = spreads_with_query(sp, k);
                let q = g.outs.get("q.graphql");
                let qe = g.errors().iter().filter(|d| d.file.as_deref() == Some("q.graphql")).count();
                if q.is_some() == (qe > 0) {
                    return Some("the query has an error and an output, or neither".into());
                }
                if within(scope, big, k + 1, k).is_some() != q.is_some() {
                    return Some(format!("the query is {}", if q.is_some() { "accepted" } else { "rejected" }));
                }
                None
            })();
            r.outcome(&format!("{label}: {} outputs", g.outs.len()));
            if let Some(e) = e {
                r.violation(&format!("imports {im:b} spreads {sp:b} of {k}: {e}"), &e, format!("{}{}", c.show(), g.show()));
            }
        }
        for w in &wholes {
            if let Some(e) = whole_faults(w) {
                r.violation(&e, &e, w.outcome.stdout.clone());
            }
        }
    }
    r.sample(format!("{label}: {} graphs, e.g. {}", items.len(), one_line(&{ let (i, s, k, d) = items[items.len() * 2 / 3]; graph_case(i, s, k, d) })));
    items.len()
}
/// Each text in a file of its own: an output or an error, and an end.
pub fn texts(r: &Report, p: &Project, all: &[Vec<u8>], label: &str) -> usize {
    const N: usize = 500;
    let chunks: Vec<&[Vec<u8>]> = all.chunks(N).collect();
    let bad = par(&chunks, |slot, _, c| {
        fn solve(p: &Project, slot: &Slot, c: &[Vec<u8>], out: &mut Vec<(String, Vec<u8>, String)>) -> usize {
            slot.reset();
            put(&slot.dir, "schema.json", &p.schema);
            if let Some(x) = &p.config {
                put(&slot.dir, ".qlcrc.json", x);
            }
            for (f, t) in &p.common {
                put(&slot.dir.join("src"), f, t);
            }
            for (i, t) in c.iter().enumerate() {
                put(&slot.dir, &format!("src/t{i:04}.graphql"), t);
            }
            let o = slot.run(&slot.dir, &p.args(), &p.env);
            if let Some(a) = o.abnormal().or(if o.code() == 2 { Some(format!("exit status 2 {}", o.stderr)) } else { None }) {
                if c.len() == 1 {
                    out.push((a, c[0].clone(), format!("{}\n{}", o.stdout, o.stderr)));
                    return 0;
                }
                let m = c.len() / 2;
                return solve(p, slot, &c[..m], out) + solve(p, slot, &c[m..], out);
            }
            let d = diag::parse(&o.stdout);
            let mut named = std::collections::BTreeSet::new();
            for x in d.list.iter().filter(|x| x.level != "warning") {
                let t = format!("{} {}", x.file.clone().unwrap_or_default(), x.msg);
                if let Some(k) = t.find("/t") {
                    if let Some(i) = t.get(k + 2..k + 6).and_then(|x| x.parse::<usize>().ok()) {
                        named.insert(i);
                    }
                }
            }
            let mut ok = 0;
            for (i, t) in c.iter().enumerate() {
                let out_there = slot.dir.join(format!("src/t{i:04}.graphql.d.ts")).exists();
                ok += usize::from(out_there);
                if out_there == named.contains(&i) {
                    // an import that is missing is reported beside the output
                    let import = t.windows(7).any(|w| w == b"#import");
                    if out_there && import {
                        continue;
                    }
                    out.push((if out_there { "an error and an output".into() } else { "neither an output nor an error".to_string() }, t.clone(), o.stdout.clone()));
                }
            }
            let w = Whole { outcome: o.clone(), globals: None, other: vec![], range: (0, 0), err_summary: d.err_summary.clone(), warn_summary: d.warn_summary.clone() };
            if let Some(e) = whole_faults(&w) {
                out.push((e, vec![], o.stdout.clone()));
            }
            ok
        }
        let mut out = vec![];
        let ok = solve(p, slot, c, &mut out);
        (ok, out)
    });
    let mut ok = 0;
    for (k, v) in bad {
        ok += k;
        for (e, t, x) in v {
            let s = if t.len() < 200 { format!("{:?}", String::from_utf8_lossy(&t)) } else { format!("{:?}… of {} bytes", String::from_utf8_lossy(&t[..60]), t.len()) };
            r.violation(&format!("{s}: {e}"), &format!("{label}: {e}"), format!("{s}\n{e}\n{x}"));
        }
    }
    r.sample(format!("{label}: {} texts, {ok} of them compiled, e.g. {:?}", all.len(), String::from_utf8_lossy(&all[all.len() / 2][..all[all.len() / 2].len().min(80)])));
    all.len()
}
fn seqs(al: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        last = last.iter().flat_map(|s| al.iter().map(move |c| format!("{s}{c}"))).collect();
        out.extend(last.iter().cloned());
    }
    out
}
pub fn e02(r: &Report) {
    let schema = Schema::sdl(SDL);
    let mut p = Project::new(schema.json().dump());
    let mut total = 0;
    // -------- import and spread graphs
    let mut items = vec![];
    for im in 0..16 {
        for sp in 0..16 {
            for kinds in 0..3 {
                items.push((im, sp, 2, kinds));
            }
        }
    }
    total += graphs(r, &p, &items, "two fragments");
    items.clear();
    for im in 0..512u32 {
        for sp in 0..512u32 {
            if r.thorough || sp & !im == 0 || (im.count_ones() + 1 >= 9) {
                items.push((im, sp, 3, (im ^ sp) as usize % 3));
            }
        }
    }
    total += graphs(r, &p, &items, "three fragments");
    items.clear();
    let step = if r.thorough { 1 } else { 13 };
    for g in (0..65536u32).step_by(step) {
        items.push((g, g, 4, g as usize % 3));
        if r.thorough {
            items.push((0xffff, g, 4, g as usize % 3));
        }
    }
    total += graphs(r, &p, &items, "four fragments");
    // -------- import lines
    let mut c = p.clone();
    c.common = vec![("a".into(), "fragment A on A { id }\n".into()), ("a.graphql".into(), "fragment A2 on A { id }\n".into()), ("d/é".into(), "fragment A3 on A { id }\n".into())];
    let al = ["\"", " ", ".", "/", "a", "\\", "é", "\t"];
    let lines = seqs(&al, if r.thorough { 5 } else { 4 });
    for prefix in [None, Some("a"), Some("@/"), Some("é"), Some(".")] {
        let mut q = c.clone();
        if let Some(x) = prefix {
            q.args = args(&["--root-dir-import-prefix", x]);
        }
        let step = if prefix.is_none() || r.thorough { 1 } else { 3 };
        let mut v: Vec<Vec<u8>> = vec![];
        for s in lines.iter().step_by(step) {
            v.push(format!("#import \"{s}\"\nquery {{ id }}\n").into_bytes());
            v.push(format!("#import \"{s}\r\nquery {{ id }}").into_bytes());
            if prefix == Some("@/") {
                v.push(format!("#import \"@/{s}\"\nquery {{ id }}\n").into_bytes());
            }
        }
        total += texts(r, &q, &v, &format!("import lines with prefix {prefix:?}"));
    }
    // every cut and every edit of an import line, with and without the rest of the file
    let mut v: Vec<Vec<u8>> = vec![];
    for line in ["#import \"a\"", "#import \"a.graphql\"", "#import \"./é\"", "  #import \"a\"", "\u{feff}#import \"a\""] {
        let ch: Vec<char> = line.chars().collect();
        for rest in ["", "\n", "\nquery { id }\n", " query { id }"] {
            for i in 0..=ch.len() {
                let pre: String = ch[..i].iter().collect();
                let post: String = ch[i.min(ch.len())..].iter().collect();
                let post1: String = ch[(i + 1).min(ch.len())..].iter().collect();
                v.push(format!("{pre}{rest}").into_bytes());
                v.push(format!("{post}{rest}").into_bytes());
                v.push(format!("{pre}{post1}{rest}").into_bytes());
                for x in ["\"", " ", "é", "\t", "#", "\u{0}", "\u{2028}", "\r", "\n", "\\", "#import \""] {
                    v.push(format!("{pre}{x}{post}{rest}").into_bytes());
                    v.push(format!("{pre}{x}{post1}{rest}").into_bytes());
                }
            }
        }
    }
    total += texts(r, &c, &v, "edited import lines");
    // -------- token sequences, alone and in context
    let tok = ["{", "}", "(", ")", "[", "]", ":", "!", "$", "=", "@", "...", "on", "query", "fragment", "a", "id", "\"s\"", "\"\"\"", "1", "-1.5e3", ",", "#", "\n", "é", "|", "&", "null", "mutation", "subscription", "\\", "\""];
    let len = if r.thorough { 4 } else { 3 };
    let spaced: Vec<String> = tok.iter().map(|t| format!("{t} ")).collect();
    let sp: Vec<&str> = spaced.iter().map(|x| x.as_str()).collect();
    let base = if r.thorough { &sp[..22] } else { &sp[..] };
    total += texts(r, &p, &seqs(base, len).into_iter().map(String::into_bytes).collect::<Vec<_>>(), "token sequences");
    let inner = seqs(&sp, if r.thorough { 3 } else { 2 });
    for (pre, post) in [("query { a { ", " } }"), ("query Q(", ") { id }"), ("query { f(", ") }"), ("query Q($v: ", ") { id }"), ("fragment ", " { id }"), ("query { f @x(y: ", ") }"), ("query { f(x: \"", "\") }"), ("mutation ", ""), ("", " query { id }"), ("query { id } ", "")] {
        let v: Vec<Vec<u8>> = inner.iter().map(|s| format!("{pre}{s}{post}\n").into_bytes()).collect();
        total += texts(r, &p, &v, &format!("tokens in {pre}…{post}"));
    }
    // -------- raw bytes
    let mut v: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    for a in 0..=255u8 {
        v.push([b"query { id ".as_slice(), &[a], b" }"].concat());
        v.push([&[a], b"query { id }".as_slice()].concat());
        v.push([b"query { id } #".as_slice(), &[a]].concat());
        v.push([b"#import \"".as_slice(), &[a], b"\"\nquery { id }"].concat());
        if r.thorough {
            for b in 0..=255u8 {
                v.push(vec![a, b]);
            }
        }
    }
    total += texts(r, &p, &v, "bytes");
    total += descriptions(r);
    total += big(r, &p);
    total += chains(r, &p);
    total += json_files(r, &mut p);
    done(r, total);
}
/// Descriptions of all kinds, on everything that has one.
fn descriptions(r: &Report) -> usize {
    use super::globals::{described, strings, ODD};
    let mut all = strings(&ODD, if r.thorough { 4 } else { 3 });
    for c in (0..0x300u32).chain([0x301, 0x3000, 0xfeff, 0xfffe, 0xffff, 0x1f468, 0xe0100, 0x10ffff, 0x200b, 0x200d, 0x202e]) {
        let c = char::from_u32(c).unwrap();
        all.extend([format!("{c}"), format!("{c}{c}"), format!("* {c}"), format!("a\n{c}"), format!("{c}\na"), format!("a{c}")]);
    }
    for n in [78usize, 79, 80, 81, 98, 100, 120, 1000, 4096, 70000] {
        for x in ["a", "é", "テ", "a ", "é ", "\n", "*/", "* ", "\n* é"] {
            all.push(x.repeat(n));
            all.push(format!("b{}", x.repeat(n)));
        }
    }
    let chunks: Vec<&[String]> = all.chunks(200).collect();
    let go = |slot: &Slot, c: &[String]| {
        let (s, f, q) = described(c, true);
        slot.reset();
        put(&slot.dir, "schema.json", s.json().dump());
        put(&slot.dir, "src/f.graphql", f);
        put(&slot.dir, "src/q.graphql", q);
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", "1"]), &Env { sched: false, ..Env::default() });
        let e = o.abnormal().or_else(|| (o.code() != 0).then(|| format!("exit status {}", o.code())));
        e.map(|e| (e, format!("{}{}", o.stdout, o.stderr)))
    };
    let bad = par(&chunks, |slot, _, c| {
        go(slot, c)?;
        // which one is it?
        let mut small = vec![];
        for i in 0..c.len() {
            let two = [c[i].clone(), c[i].clone()];
            if let Some((e, x)) = go(slot, &two) {
                small.push((format!("description {:?}: {e}", c[i].chars().take(60).collect::<String>()), e, x));
                break;
            }
        }
        if small.is_empty() {
            small.push((format!("descriptions {:?}…", c[0].chars().take(60).collect::<String>()), "some description".into(), String::new()));
        }
        Some(small)
    });
    for (k, e, x) in bad.into_iter().flatten().flatten() {
        r.violation(&k, &e, x);
    }
    r.cov("descriptions", n(all.len()));
    all.len()
}
/// Out of stack, memory or time: which one comes first depends on the machine.
fn there_is_no_end(e: &str) -> bool {
    e.starts_with("killed by signal") || e.starts_with("no end")
}
/// Deep and long texts.
fn big(r: &Report, p: &Project) -> usize {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |what: String, t: String| v.push((what, t.into_bytes()));
    let deep: &[usize] = &[1, 2, 5, 10, 20, 30, 40, 45, 46, 47, 48, 49, 50, 51, 52, 60, 100, 1000, 10000, 100000];
    for &k in deep {
        add(format!("{k} nested fields"), format!("query {{ a {{ {}id{} }} }}", "a { ".repeat(k), " }".repeat(k)));
        if k <= 10 || k == 30 {
            add(format!("{k} nested interfaces"), format!("query {{ n {{ {}id{} }} }}", "n { ".repeat(k - 1), " }".repeat(k - 1)));
        }
        add(format!("{k} nested inline fragments"), format!("query {{ a {{ {}id{} }} }}", "... on A { ".repeat(k), " }".repeat(k)));
        add(format!("{k} open fields"), format!("query {{ {}", "a { ".repeat(k)));
        add(format!("{k} closed"), format!("query {{ id {}", "}".repeat(k)));
        add(format!("{k} list types"), format!("query Q($v: {}Int{}) {{ id }}", "[".repeat(k), "]".repeat(k)));
        add(format!("{k} open list types"), format!("query Q($v: {}", "[".repeat(k)));
        add(format!("{k} list arguments"), format!("query {{ f(x: {}1{}) }}", "[".repeat(k), "]".repeat(k)));
        add(format!("{k} object arguments"), format!("query {{ f(x: {}1{}) }}", "{x: ".repeat(k), "}".repeat(k)));
        add(format!("{k} open parentheses"), format!("query {{ f{} }}", "(".repeat(k)));
        add(format!("{k} fields"), format!("query {{ {} }}", (0..k).map(|i| format!("x{i}:id ")).collect::<String>()));
        add(format!("{k} times one field"), format!("query {{ {} }}", "id ".repeat(k)));
        add(format!("{k} unknown fields"), format!("query {{ {} }}", "zz\n".repeat(k.min(3000))));
        add(format!("{k} unknown fields on a line"), format!("query {{ {} }}", "zz ".repeat(k.min(1000))));
        add(format!("{k} variables"), format!("query Q({}) {{ id }}", (0..k).map(|i| format!("$v{i}: Int ")).collect::<String>()));
        add(format!("a name of {k} letters"), format!("query {} {{ id }}", "Q".repeat(k.min(200))));
        add(format!("a field of {k} letters"), format!("query {{ {} }}", "i".repeat(k)));
        add(format!("an alias of {k} letters"), format!("query {{ {}: id }}", "i".repeat(k)));
        add(format!("a string of {k} letters"), format!("query {{ f(x: \"{}\") }}", "é".repeat(k)));
        add(format!("a number of {k} digits"), format!("query {{ f(x: {}) }}", "9".repeat(k)));
        add(format!("{k} comment lines"), format!("{}query {{ id }}", "# c\n".repeat(k)));
        add(format!("{k} blank lines before an error"), format!("{}query {{ zz }}", "\n".repeat(k)));
        add(format!("an error in column {k}"), format!("query {{ {}zz }}", " ".repeat(k)));
        add(format!("{k} missing imports"), format!("{}query {{ id }}", (0..k.min(1000)).map(|i| format!("#import \"no{i}\"\n")).collect::<String>()));
        add(format!("an import of {k} letters"), format!("#import \"{}\"\nquery {{ id }}", "x".repeat(k)));
        add(format!("an import of {k} steps"), format!("#import \"{}x\"\nquery {{ id }}", "../".repeat(k)));
        add(format!("{k} inline fragments"), format!("query {{ n {{ {} }} }}", "... on A { id } ".repeat(k)));
        add(format!("{k} wide abstract fields"), format!("query {{ n {{ {} }} }}", (0..k.min(3000)).map(|i| format!("x{i}:n {{ id ... on A {{ f0 }} }} ")).collect::<String>()));
        add(format!("{k} directives"), format!("query {{ f {} }}", "@x ".repeat(k)));
    }
    // heavy ones first
    v.sort_by_key(|x| std::cmp::Reverse((x.0 == "30 nested interfaces", x.1.len())));
    let bad = par(&v, |slot, _, (_, t)| {
        slot.reset();
        put(&slot.dir, "schema.json", &p.schema);
        put(&slot.dir, "src/t.graphql", t);
        let o = slot.run(&slot.dir, &p.args(), &Env { alarm_s: 120, ..Env::default() });
        let there = slot.dir.join("src/t.graphql.d.ts").exists();
        let d = diag::parse(&o.stdout);
        let e = o.abnormal().or_else(|| {
            if (d.errors() > 0) != (o.code() == 1) || o.code() == 2 {
                return Some(format!("exit status {} with {} errors", o.code(), d.errors()));
            }
            let import = t.starts_with(b"#import");
            (there != (d.errors() == 0) && !import).then(|| format!("{} errors and {} output", d.errors(), if there { "an" } else { "no" }))
        });
        (e, there, o.stdout.chars().take(2000).collect::<String>() + &o.stderr.chars().take(2000).collect::<String>())
    });
    let mut ok = 0;
    for ((what, t), (e, there, x)) in v.iter().zip(bad) {
        ok += usize::from(there);
        if let Some(e) = e {
            let key = if there_is_no_end(&e) { format!("{what}: does not survive") } else { format!("{what}: {e}") };
            r.violation(&key, &format!("{what}: {e}"), format!("{}\n{x}", String::from_utf8_lossy(&t[..t.len().min(3000)])));
        }
    }
    r.sample(format!("deep and long texts: {} texts, {ok} of them compiled", v.len()));
    v.len()
}
/// Long chains of files, wide fans, and diamonds.
fn chains(r: &Report, p: &Project) -> usize {
    type Mk = fn(usize) -> Vec<(String, String)>;
    let kinds: Vec<(&str, Mk)> = vec![
        ("imports", |k| (0..k).map(|i| (format!("f{i}.graphql"), format!("{}fragment F{i} on A {{ id }}\n", if i + 1 < k { format!("#import \"f{}.graphql\"\n", i + 1) } else { String::new() }))).collect()),
        ("spreads", |k| (0..k).map(|i| (format!("f{i}.graphql"), if i + 1 < k { format!("#import \"f{}.graphql\"\nfragment F{i} on A {{ id ...F{} }}\n", i + 1, i + 1) } else { format!("fragment F{i} on A {{ f1 }}\n") })).collect()),
        ("nested spreads", |k| (0..k).map(|i| (format!("f{i}.graphql"), if i + 1 < k { format!("#import \"f{}.graphql\"\nfragment F{i} on A {{ id a {{ ...F{} }} }}\n", i + 1, i + 1) } else { format!("fragment F{i} on A {{ f1 }}\n") })).collect()),
        ("a ring of imports", |k| (0..k).map(|i| (format!("f{i}.graphql"), format!("#import \"f{}.graphql\"\nfragment F{i} on A {{ id }}\n", (i + 1) % k))).collect()),
        ("a ring of spreads", |k| (0..k).map(|i| (format!("f{i}.graphql"), format!("#import \"f{}.graphql\"\nfragment F{i} on A {{ id ...F{} }}\n", (i + 1) % k, (i + 1) % k))).collect()),
        ("a fan", |k| {
            let mut v: Vec<(String, String)> = (0..k).map(|i| (format!("g{i}.graphql"), format!("fragment G{i} on A {{ x{i}: id }}\n"))).collect();
            v.push(("f0.graphql".into(), format!("{}fragment F0 on A {{ {} }}\n", (0..k).map(|i| format!("#import \"g{i}.graphql\"\n")).collect::<String>(), (0..k).map(|i| format!("...G{i} ")).collect::<String>())));
            v
        }),
        ("files that all import each other", |k| {
            let k = k.min(60);
            (0..k).map(|i| (format!("f{i}.graphql"), format!("{}fragment F{i} on A {{ id {} }}\n", (0..k).map(|j| format!("#import \"f{j}.graphql\"\n")).collect::<String>(), if i + 1 < k { format!("...F{}", i + 1) } else { String::new() }))).collect()
        }),
    ];
    let sizes: &[usize] = if r.thorough { &[1, 2, 10, 50, 100, 200, 300, 400, 3000] } else { &[1, 2, 50, 300, 3000] };
    let mut items = vec![];
    for (what, mk) in &kinds {
        for &k in sizes {
            items.push((*what, k, *mk));
        }
    }
    // longest first
    items.sort_by_key(|x| std::cmp::Reverse(x.1));
    let bad = par(&items, |slot, _, (what, k, mk)| {
        slot.reset();
        put(&slot.dir, "schema.json", &p.schema);
        // only the first file is compiled: the others lie outside the root directory
        let mut files = mk(*k);
        files.sort();
        for (f, t) in &files {
            let t = t.replace("#import \"", "#import \"./");
            put(&slot.dir, &format!("lib/{f}"), t);
        }
        put(&slot.dir, "src/q.graphql", "#import \"../lib/f0.graphql\"\nquery { a { ...F0 } }\n");
        let env = Env { alarm_s: 120, ..Env::default() };
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", "1"]), &env);
        let out = tree(&slot.dir).get("src/q.graphql.d.ts").map(|b| String::from_utf8_lossy(b).into_owned());
        let ring = *what == "a ring of spreads";
        let e = o.abnormal().or_else(|| {
            if ring == out.is_some() || ring != (o.code() == 1) {
                return Some(format!("exit status {}, {} output", o.code(), if out.is_some() { "an" } else { "no" }));
            }
            let leaf = match *what {
                "spreads" | "nested spreads" => "f1: ",
                "a fan" => "x0: ",
                _ => "id: ",
            };
            if out.is_some_and(|t| !t.contains(leaf)) {
                return Some("the output lacks the innermost field".into());
            }
            None
        });
        (e, o.stdout.chars().take(2000).collect::<String>() + &o.stderr)
    });
    for ((what, k, _), (e, x)) in items.iter().zip(bad) {
        r.outcome(&format!("{what} over {k} files: {}", if e.is_some() { "fails" } else { "right" }));
        if let Some(e) = e {
            let key = if there_is_no_end(&e) { format!("{what} over {k} files: does not survive") } else { format!("{what} over {k} files: {e}") };
            r.violation(&key, &format!("{what} over {k} files: {e}"), x);
        }
    }
    // input objects: chains and a clique, and diamonds of spreads
    let mut n_in = 0;
    for k in [10usize, 200, if r.thorough { 5000 } else { 1000 }] {
        for ring in [false, true] {
            let mut sdl = String::from("type Query { id: ID } ");
            for i in 0..k {
                sdl.push_str(&format!("input I{i} {{ x: Int {} }} ", if i + 1 < k || ring { format!("n: I{}", (i + 1) % k) } else { String::new() }));
            }
            let q = Project::new(Schema::sdl(&sdl).json().dump());
            let (got, w) = run_cases(&q, &[Case::one("query Q($v: I0) { id }".into())]);
            n_in += 1;
            let all = w.first().and_then(|w| w.globals.clone()).map(|g| g.matches("export type").count());
            if got[0].abnormal.is_some() || all != Some(k) {
                let e = got[0].abnormal.clone().unwrap_or(format!("{all:?} of {k} input objects"));
                r.violation(&format!("a chain of {k} input objects, ring {ring}: {e}"), &e, got[0].show());
            }
        }
    }
    let mut v = vec![];
    for depth in [1usize, 2, 5, 8, 10] {
        let mut c = Case::default();
        for i in 0..depth {
            c.files.push((format!("f{i}.graphql"), if i + 1 < depth { format!("#import \"./f{}.graphql\"\nfragment F{i} on A {{ ...F{} a {{ ...F{} }} x{i}:a {{ ...F{} }} }}\n", i + 1, i + 1, i + 1, i + 1) } else { format!("fragment F{i} on A {{ id }}\n") }));
        }
        v.push(c);
    }
    let mut q = p.clone();
    q.per_batch = 1;
    q.env.alarm_s = 120;
    let (got, _) = run_cases(&q, &v);
    for (c, g) in v.iter().zip(&got) {
        if g.abnormal.is_some() || !g.diags.is_empty() || g.outs.len() != c.files.len() {
            r.violation(&format!("a diamond of {} fragments", c.files.len()), "a diamond of fragments fails", format!("{}{}", c.show(), g.show().chars().take(3000).collect::<String>()));
        }
    }
    r.cov("chains_fans_rings", n(items.len() + n_in + v.len()));
    items.len() + n_in + v.len()
}
/// A run that asks for many threads gets them: no two such runs share the machine,
/// and one that the machine refused threads is repeated.
fn one_at_a_time(input: &str, mut run: impl FnMut() -> Outcome) -> Outcome {
    static MANY: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let digits = input.split(|c: char| !c.is_ascii_digit()).any(|d| d.len() > 2);
    let threads = input.contains("umThreads") || input.contains("num-threads");
    if !(digits && threads) {
        return run();
    }
    let _one = MANY.lock().unwrap_or_else(|e| e.into_inner());
    for _ in 0..20 {
        let o = run();
        if !(o.stderr.contains("failed to spawn thread") && o.stderr.contains("temporarily unavailable")) {
            return o;
        }
        std::thread::sleep(std::time::Duration::from_millis(250));
    }
    run()
}

/// Short token sequences as configuration and as schema, and extreme values.
fn json_files(r: &Report, p: &mut Project) -> usize {
    let tok = ["{", "}", "[", "]", ":", ",", "\"numThreads\"", "\"x\"", "1", "null", "true", "-"];
    let mut texts = seqs(&tok, if r.thorough { 4 } else { 3 });
    for k in ["numThreads", "schemaFile", "useCustomScalars", "customScalarPrefix", "rootDirImportPrefix", "globalTypesModuleName", "typedGraphqlDocumentnodeModuleName", "disableReadonlyTypes", "showDeprecationWarnings"] {
        for v in ["0", "1", "-1", "1.5", "1e3", "1e400", "257", "300", "100000", "1000000000000", "18446744073709551615", "18446744073709551616", "\"\"", "\"x\"", "\"é\\u0000\"", "\"\\ud800\"", "\"/\"", "\"..\"", "\".\"", "\"//\"", "\"a/\"", "null", "true", "[]", "{}", "[1]", "\"8\""] {
            texts.push(format!("{{\"{k}\": {v}}}"));
            if r.thorough || k.len() == 10 {
                texts.push(format!("{{\"{k}\": {v}, \"{k}\": {v}}}"));
            }
        }
    }
    texts.push("{".repeat(100000));
    texts.push("[".repeat(100000));
    texts.push("{\"a\":".repeat(100000));
    texts.push(format!("{{\"x\": {}{}}}", "[".repeat(100), "]".repeat(100)));
    texts.push(format!("{{\"x\": {}{}}}", "[".repeat(1000), "]".repeat(1000)));
    let mut items: Vec<(bool, Vec<u8>)> = vec![];
    for t in &texts {
        items.push((true, t.clone().into_bytes()));
        items.push((false, t.clone().into_bytes()));
    }
    for b in 0..=255u8 {
        items.push((true, vec![b]));
        items.push((true, [b"{\"numThreads\": ".as_slice(), &[b], b"}"].concat()));
        items.push((false, vec![b]));
        items.push((false, [b"{\"data\": ".as_slice(), &[b], b"}"].concat()));
    }
    let schema = p.schema.clone();
    let bad = par(&items, |slot, _, (config, t)| {
        slot.reset();
        put(&slot.dir, "schema.json", &schema);
        put(&slot.dir, if *config { ".qlcrc.json" } else { "schema.json" }, t);
        put(&slot.dir, "src/schema.json", &schema);
        put(&slot.dir, "src/q.graphql", "query Q($e: E) { id }\n");
        let env = Env { sched: false, ..Env::default() };
        let a = if *config { args(&["src"]) } else { args(&["src", "-s", "schema.json", "--num-threads", "1"]) };
        let o = one_at_a_time(&String::from_utf8_lossy(t), || slot.run(&slot.dir, &a, &env));
        let wrote = tree(&slot.dir).contains_key("src/q.graphql.d.ts");
        let e = o.abnormal().or_else(|| {
            if o.code() == 2 {
                return Some("exit status 2".into());
            }
            if !*config && (o.code() == 0 || wrote) {
                return Some("compiled with no schema to speak of".into());
            }
            let d = diag::parse(&o.stdout);
            ((d.errors() > 0) != (o.code() == 1)).then(|| "the exit status and the report disagree".to_string())
        });
        (e, o.code(), format!("{}{}", o.stdout.chars().take(2000).collect::<String>(), o.stderr))
    });
    for ((c, t), (e, code, x)) in items.iter().zip(bad) {
        let what = if *c { "configuration" } else { "schema" };
        r.outcome(&format!("{what}: exit {code}"));
        if let Some(e) = e {
            let s: String = String::from_utf8_lossy(t).chars().take(100).collect();
            r.violation(&format!("{what} {s:?}: {e}"), &format!("{what}: {e}"), format!("{s:?}\n{x}"));
        }
    }
    r.sample(format!("{} contents of configuration and schema files", items.len()));
    // extreme command lines
    let lines: Vec<Vec<&str>> = vec![
        vec!["--num-threads", "18446744073709551615"],
        vec!["--num-threads", "1000000"],
        vec!["--num-threads", "257"],
        vec!["--num-threads", "0"],
        vec!["--num-threads", "-1"],
        vec!["--num-threads", "x"],
        vec!["--num-threads"],
        vec!["-s", ""],
        vec!["-s", "."],
        vec!["-s", "/"],
        vec!["-c", ""],
        vec!["-c", "."],
        vec!["-c", "q.graphql"],
        vec!["nodir", "x"],
        vec!["--what"],
        vec!["--help"],
        vec!["--version"],
        vec!["--root-dir-import-prefix", ""],
        vec!["--global-types-module-name", "."],
        vec!["--global-types-module-name", ""],
        vec!["--global-types-module-name", "/"],
        vec!["--typed-graphql-documentnode-module-name", ""],
        vec!["--custom-scalar-prefix", "x"],
    ];
    let bad = par(&lines, |slot, _, l| {
        slot.reset();
        put(&slot.dir, "src/schema.json", &schema);
        put(&slot.dir, "src/q.graphql", "query Q($e: E) { id }\n");
        let mut a = args(&["src"]);
        a.extend(args(l));
        let o = one_at_a_time(&l.join(" "), || slot.run(&slot.dir, &a, &Env { sched: false, ..Env::default() }));
        o.abnormal().map(|e| (e, format!("{}{}", o.stdout, o.stderr)))
    });
    for (l, e) in lines.iter().zip(bad) {
        if let Some((e, x)) = e {
            r.violation(&format!("{l:?}: {e}"), &format!("command line {l:?}: {e}"), x);
        }
    }
    items.len() + lines.len()
}
