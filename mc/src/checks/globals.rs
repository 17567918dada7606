//! T04, T07, T08: the global types file, comments, and scalar naming.
use crate::batch::*;
use crate::checks::types::{done, one_line};
use crate::doc::*;
use crate::json::n;
use crate::report::Report;
use crate::runner::*;
use crate::schema::*;
use crate::ts;
use std::collections::BTreeSet;

/// Names of three input objects and two enums.
const SETS: [([&str; 3], [&str; 2]); 4] = [
    (["Zed", "Alpha", "Mid"], ["Beta", "Yes"]),
    (["in", "In", "IN"], ["in_", "_in"]),
    (["In1", "In10", "In2"], ["iN1", "In_1"]),
    (["Zz", "z", "ZZ"], ["zz", "Z"]),
];
const WRAP: [&str; 6] = ["#", "#!", "[#]", "[#!]!", "[[#!]]", "[#]!"];

/// One reference graph: for every input object the set of types its fields have, as bits.
fn graph_schema(g: &[usize], set: usize) -> Schema {
    let k = g.len();
    let (ins, ens) = SETS[set];
    let mut t = format!("scalar Date enum {0} {{ B A C }} enum {1} {{ N }} enum Unused {{ U }} input Other {{ o: Unused }} type A {{ id: ID b: {0} y: {1} @deprecated }} ", ens[0], ens[1]);
    for (i, refs) in g.iter().enumerate() {
        t.push_str(&format!("input {} {{ ", ins[i]));
        let mut any = false;
        for j in 0..k + 2 {
            if refs & (1 << j) != 0 {
                let to = if j < k { ins[j] } else { ens[j - k] };
                t.push_str(&format!("f{j}: {} {} ", WRAP[(i * 5 + j * 2 + refs) % 6].replace('#', to), if (i + 2 * j + refs) % 3 == 0 { "@deprecated" } else { "" }));
                any = true;
            }
        }
        if !any || refs % 3 == 0 {
            t.push_str(if refs % 2 == 0 { "s: Date i: Int! " } else { "s: Date @deprecated i: Int! @deprecated " });
        }
        t.push_str("} ");
    }
    t.push_str("type Query { a: A }");
    Schema::sdl(&t)
}
pub fn t04(r: &Report) {
    let k = if r.thorough { 3 } else { 2 };
    let mut items: Vec<(Vec<usize>, usize)> = vec![];
    let per = 1usize << (k + 2);
    let used_bits = k + 4; // inputs and enums as variables, enums as results
    let mut g = vec![0usize; k];
    loop {
        if k == 2 {
            for u in 0..1usize << used_bits {
                items.push((g.clone(), u));
            }
        } else {
            // one used name, all used names, none: the closure does the rest
            for b in 0..k {
                items.push((g.clone(), 1 << b));
            }
            items.push((g.clone(), (1 << k) - 1));
            items.push((g.clone(), 1 | 1 << (k + 3)));
        }
        let mut i = 0;
        while i < k {
            g[i] += 1;
            if g[i] < per {
                break;
            }
            g[i] = 0;
            i += 1;
        }
        if i == k {
            break;
        }
    }
    let frags = Frags::new();
    let res = par(&items, |slot, idx, (g, u)| {
        let set = (idx / 2) % 4;
        let schema = graph_schema(g, set);
        let (ins, ens) = SETS[set];
        let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
        let mut docs: Vec<Doc> = vec![];
        let mut used = BTreeSet::new();
        // alternately one file with everything and one file per use
        let split = idx % 2 == 0;
        let mut one = Doc::query("Q", vec![]);
        let mut sub = vec![leaf("id")];
        for b in 0..used_bits {
            if u & (1 << b) == 0 {
                continue;
            }
            if b < k + 2 {
                let to = if b < k { ins[b] } else { ens[b - k] };
                used.insert(to.to_string());
                let t = Ty::parse(&["#!", "[#]", "#"][(b + u) % 3].replace('#', to));
                if split {
                    let mut d = Doc::query("Q", vec![node("a", vec![leaf("id")])]);
                    d.vars = vec![("v".into(), t)];
                    docs.push(d);
                } else {
                    one.vars.push((format!("v{b}"), t));
                }
            } else {
                let f = ["b", "y"][b - k - 2];
                used.insert(ens[b - k - 2].to_string());
                if split {
                    docs.push(Doc::frag("F", "A", vec![leaf(f)]));
                } else {
                    sub.push(leaf(f));
                }
            }
        }
        one.sels = vec![node("a", sub)];
        docs.push(one);
        slot.reset();
        put(&slot.dir, "schema.json", schema.json().dump());
        for (i, d) in docs.iter().enumerate() {
            put(&slot.dir, &format!("src/{i}.graphql"), d.text());
        }
        // an older file must not survive in the new one
        let stale = u % 5 == 1;
        if stale {
            put(&slot.dir, "src/graphql-globals.ts", "export enum Unused {\n  U = \"U\",\n}\n".repeat(40));
        }
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", "2"]), &Env::default());
        let t = tree(&slot.dir);
        let fail = (|| -> Result<(), String> {
            if let Some(a) = o.abnormal() {
                return Err(a);
            }
            if o.code() != 0 {
                return Err(format!("exit status {}", o.code()));
            }
            let want = m.globals_file(&used);
            let file = t.get("src/graphql-globals.ts").map(|b| String::from_utf8_lossy(b).into_owned());
            if want.is_empty() {
                return if file.is_some() != stale { Err("a global types file without global types".into()) } else { Ok(()) };
            }
            let file = file.ok_or("no global types file")?;
            let md = ts::parse(&file)?;
            let got = md.globals()?;
            md.closed(&|_| false)?;
            if got != want {
                return Err(format!("global types are {got:?} instead of {want:?}"));
            }
            for i in 0..docs.len() {
                let f = ts::parse(&String::from_utf8_lossy(t.get(&format!("src/{i}.graphql.d.ts")).ok_or("missing output")?))?;
                for (name, from) in f.imported() {
                    if from == "graphql-globals" && !got.contains_key(name) {
                        return Err(format!("{name} is imported but not exported"));
                    }
                }
                let imp: BTreeSet<String> = f.imported().iter().filter(|(_, m)| **m == "graphql-globals").map(|(a, _)| a.to_string()).collect();
                if imp != m.globals(&docs[i]) {
                    return Err(format!("file {i} imports {imp:?}"));
                }
            }
            Ok(())
        })();
        fail.err().map(|e| (e, docs.iter().map(|d| d.text()).collect::<String>(), t.get("src/graphql-globals.ts").map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default()))
    });
    for (idx, ((g, u), x)) in items.iter().zip(res).enumerate() {
        if let Some((e, docs, file)) = x {
            let e1 = e.lines().next().unwrap_or("").to_string();
            r.violation(&format!("graph {g:?} used {u:b}: {e1}"), &e, format!("{}\n{docs}\n{file}\n{e}", graph_schema(g, (idx / 2) % 4).json().dump()));
        }
    }
    r.sample(format!("{} reference graphs over {k} input objects and 2 enums, {} (graph, used set) pairs", per.pow(k as u32), items.len()));
    let mut total = items.len();
    total += lists_of_values(r);
    total += wrapped_references(r);
    total += beside_messages(r);
    done(r, total);
}
/// What a file uses is exported, whatever is reported about that file or about others.
fn beside_messages(r: &Report) -> usize {
    let schema = Schema::sdl("enum E { X } enum G { X } input I { g: G } type Query { id: ID a: A } interface N { id: ID } type A implements N { id: ID old: Int @deprecated e: E f: E @deprecated n: N } type B { id: ID }");
    let schema = schema.json().dump();
    let uses = [("", "e", vec!["E"]), ("($v: E)", "id", vec!["E"]), ("($v: I)", "id", vec!["G", "I"]), ("($v: [I!]!)", "e", vec!["E", "G", "I"]), ("", "f", vec!["E"]), ("", "x: f", vec!["E"])];
    // selections with one, several and no warnings
    let says = ["", "old", "old o: old", "... on B { id }", "n { ... on B { id } ... on A { old } }", "...X", "n { ...X }", "...X old ...X"].map(String::from).to_vec();
    let says: Vec<String> = says.into_iter().chain([9, 33, 130, 300].into_iter().flat_map(|k| [(0..k).map(|i| format!("o{i}: old ")).collect::<String>(), "...X ... on B { id } ".repeat(k)])).collect();
    let others = ["", "query { zz }", "fragment", "query O { a { old ...X } }", "#import \"./none.graphql\"\nquery { id }"];
    let mut items = vec![];
    for u in 0..uses.len() {
        for s in 0..says.len() {
            for o in 0..others.len() {
                for show in [false, true] {
                    items.push((u, s, o, show));
                }
            }
        }
    }
    let res = par(&items, |slot, _, (u, s, o, show)| {
        let (vars, sel, want) = &uses[*u];
        slot.reset();
        put(&slot.dir, "schema.json", &schema);
        put(&slot.dir, "src/q.graphql", format!("#import \"./x.graphql\"\nquery Q{vars} {{ a {{ {sel} {} }} }}\n", says[*s]));
        put(&slot.dir, "src/x.graphql", "fragment X on B { id }\n");
        if !others[*o].is_empty() {
            put(&slot.dir, "src/o.graphql", others[*o]);
        }
        let mut a = vec!["src", "-s", "schema.json", "--num-threads", "1"];
        if *show {
            a.push("--show-deprecation-warnings");
        }
        let out = slot.run(&slot.dir, &args(&a), &Env::default());
        let t = tree(&slot.dir);
        let text = |k: &str| t.get(k).map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
        let fail = (|| -> Result<(), String> {
            if let Some(a) = out.abnormal() {
                return Err(a);
            }
            if text("src/q.graphql.d.ts").is_empty() {
                return Err("no output".into());
            }
            let got: BTreeSet<String> = ts::parse(&text("src/graphql-globals.ts"))?.globals()?.keys().cloned().collect();
            let want: BTreeSet<String> = want.iter().map(|x| x.to_string()).collect();
            if got != want {
                return Err(format!("global types are {got:?} instead of {want:?}"));
            }
            Ok(())
        })();
        fail.err().map(|e| (e, format!("{}\n{}", out.stdout, t.keys().cloned().collect::<Vec<_>>().join(" "))))
    });
    for ((u, s, o, show), x) in items.iter().zip(res) {
        if let Some((e, t)) = x {
            r.violation(&format!("{:?} with `{}` beside `{}`, {show}: {e}", uses[*u], says[*s], others[*o]), "global types beside messages", format!("{e}\n{t}"));
        }
    }
    items.len()
}
/// Every enum and input object is referred to exactly once, through every wrapper, from a
/// variable, a field of an input object, one of a nested one, or a selected field.
fn wrapped_references(r: &Report) -> usize {
    let depth = if r.thorough { 5 } else { 4 };
    let mut sdl = String::from("type Query { id: ID a: A } ");
    let mut fields = String::from("id: ID ");
    let mut used = BTreeSet::new();
    let mut docs: Vec<Doc> = vec![];
    let chains: Vec<String> = Ty::chains("#", depth).iter().map(|t| t.sdl()).collect();
    for (i, c) in chains.iter().enumerate() {
        let at = |x: String| c.replace('#', &x);
        for place in 0..8usize {
            let x = format!("{}{place}x{i}", if place % 2 == 0 { "E" } else { "I" });
            sdl.push_str(&if place % 2 == 0 { format!("enum {x} {{ A B }} ") } else { format!("input {x} {{ a: Int }} ") });
            let mut d = Doc::query("Q", vec![leaf("id")]);
            match place / 2 {
                // variables have one list at most
                0 if c.matches('[').count() > 1 => continue,
                0 => d.vars.push(("v".into(), Ty::parse(&at(x.clone())))),
                1 => {
                    // among fields of built-in types
                    sdl.push_str(&format!("input H{place}x{i} {{ b: Int v: {} c: [ID!] }} ", at(x.clone())));
                    d.vars.push(("v".into(), Ty::parse(&format!("H{place}x{i}"))));
                    used.insert(format!("H{place}x{i}"));
                }
                2 => {
                    sdl.push_str(&format!("input H{place}x{i} {{ v: {} }} input K{place}x{i} {{ h: {} }} ", at(x.clone()), at(format!("H{place}x{i}"))));
                    d.vars.push(("v".into(), Ty::parse(&format!("K{place}x{i}"))));
                    used.insert(format!("K{place}x{i}"));
                }
                _ if place % 2 == 0 => {
                    fields.push_str(&format!("f{i}: {} ", at(x.clone())));
                    d = Doc::query("Q", vec![node("a", vec![leaf(&format!("f{i}"))])]);
                }
                _ => continue,
            }
            used.insert(x);
            docs.push(d);
        }
    }
    sdl.push_str(&format!("type A {{ {fields} }}"));
    let schema = Schema::sdl(&sdl);
    let frags = Frags::new();
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let p = Project { per_batch: docs.len(), ..Project::new(schema.json().dump()) };
    let cases: Vec<Case> = docs.iter().map(|d| Case::one(d.text())).collect();
    let (got, w) = run_cases(&p, &cases);
    let want = m.globals_file(&used);
    match w.first().and_then(|w| w.globals.clone()).ok_or("no global types file".to_string()).and_then(|g| ts::parse(&g)?.globals()) {
        Err(e) => r.violation(&e, &e, got[0].show()),
        Ok(g) => {
            for k in g.keys().chain(want.keys()).collect::<BTreeSet<_>>() {
                if g.get(k) != want.get(k) {
                    r.violation(&format!("{k}: {:?}", g.get(k)), "an enum or input object differs", format!("{k} is {:?} instead of {:?}", g.get(k), want.get(k)));
                }
            }
        }
    }
    for (d, g) in docs.iter().zip(&got) {
        let imp = g.out().and_then(|t| ts::parse(t).ok()).map(|f| f.imported().iter().filter(|(_, m)| m.ends_with("graphql-globals")).map(|(a, _)| a.to_string()).collect::<BTreeSet<String>>());
        if imp.as_ref() != Some(&m.globals(d)) {
            r.violation(&format!("{} imports {imp:?}", d.text()), "a file does not import what it uses", format!("{}\n{}", d.text(), g.show()));
        }
    }
    r.cov("wrapped_references", crate::json::n(docs.len()));
    docs.len()
}
/// Enum values and input fields: exactly the schema's, whatever their names and number.
fn lists_of_values(r: &Report) -> usize {
    let names = ["A", "b", "_C", "a1", "AA", "type", "default", "B_1"];
    let mut sdl = String::from("scalar Date ");
    let mut d = Doc::query("Q", vec![leaf("id")]);
    let mut used = BTreeSet::new();
    for mask in 1..1usize << names.len() {
        let v: Vec<&str> = (0..names.len()).filter(|i| mask & (1 << i) != 0).map(|i| names[(i * 3 + mask) % 8]).collect();
        sdl.push_str(&format!("enum E{mask} {{ {} }} ", v.join(" ")));
        let f: Vec<String> = v.iter().enumerate().map(|(i, x)| format!("{x}: {}", ["Int", "E1!", "[Date]", "ID!", "I1", "[I3!]!", "Boolean", "Float!"][(i + mask) % 8])).collect();
        let dep = if mask % 3 == 0 { " @deprecated " } else { " " };
        sdl.push_str(&format!("input I{mask} {{ {} }} ", f.join(dep)));
        for k in ["E", "I"] {
            d.vars.push((format!("{k}{mask}"), Ty::parse(&format!("{k}{mask}"))));
            used.insert(format!("{k}{mask}"));
        }
    }
    // names that are nearly the same, every two in both orders and every three
    let near = ["a", "A", "ab", "Ab", "aB", "AB", "a_b", "A_B", "_a", "a_", "__a", "a__", "a0", "a00", "a1", "a01", "a2", "a10", "a1a", "aa", "TRUE", "type", "Type", "toString"];
    let mut near_used = vec![];
    let mut lists: Vec<Vec<&str>> = vec![];
    for i in 0..near.len() {
        for j in (0..near.len()).filter(|j| *j != i) {
            lists.push(vec![near[i], near[j]]);
            for k in (0..near.len()).filter(|_| i < j).filter(|k| j < *k) {
                let v = [near[i], near[j], near[k]];
                lists.push([[0, 1, 2], [2, 0, 1], [1, 0, 2], [2, 1, 0], [0, 2, 1], [1, 2, 0]][(i + j + k) % 6].iter().map(|x| v[*x]).collect());
            }
        }
    }
    for (i, v) in lists.iter().enumerate() {
        let f: Vec<String> = v.iter().enumerate().map(|(k, x)| format!("{x}: {}", ["Int", "E1!", "[Date]", "ID!", "I1", "[I3!]!", "Boolean", "Float!"][(k * 3 + i) % 8])).collect();
        sdl.push_str(&format!("enum NE{i} {{ {} }} input NI{i} {{ {} }} ", v.join(" "), f.join(" ")));
        near_used.extend([format!("NE{i}"), format!("NI{i}")]);
    }
    for x in near_used {
        d.vars.push((x.clone(), Ty::parse(&x)));
        used.insert(x);
    }
    // long ones
    for count in [9usize, 33, 100, 129, 257, 1025] {
        let v: Vec<String> = (0..count).map(|i| format!("{}{}", ["v", "V", "_v"][i % 3], i * 7919 % count)).collect();
        sdl.push_str(&format!("enum Long{count} {{ {} }} ", v.join(" ")));
        let f: Vec<String> = v.iter().enumerate().map(|(i, x)| format!("{x}: {}", ["Int", "E1!", "[Date]", "ID! @deprecated", "LongIn9", "[I3!]! @deprecated", "Boolean", "Float!"][i % 8])).collect();
        sdl.push_str(&format!("input LongIn{count} {{ {} }} ", f.join(" ")));
        for k in ["Long", "LongIn"] {
            d.vars.push((format!("{k}{count}"), Ty::parse(&format!("{k}{count}"))));
            used.insert(format!("{k}{count}"));
        }
    }
    // wide ones, whose fields are the only way to as many others
    for count in [9usize, 33, 65, 129, 257, 1025] {
        let f: Vec<String> = (0..count).map(|i| format!("f{i}: {}", [format!("WE{count}_{i}"), format!("[WE{count}_{i}!]"), format!("WI{count}_{i}!"), format!("[WI{count}_{i}]!")][i % 4])).collect();
        sdl.push_str(&format!("input Wide{count} {{ {} }} ", f.join(" ")));
        for i in 0..count {
            sdl.push_str(&if i % 4 < 2 { format!("enum WE{count}_{i} {{ A{i} }} ") } else { format!("input WI{count}_{i} {{ a: Int up: Wide{count} }} ") });
        }
        d.vars.push((format!("wide{count}"), Ty::parse(&format!("Wide{count}"))));
        used.insert(format!("Wide{count}"));
    }
    // and a long chain of them
    for i in 0..600 {
        sdl.push_str(&format!("input Chain{i} {{ x: [Chain{}!] a: Int }} ", (i + 1) % 600));
    }
    d.vars.push(("chain".into(), Ty::parse("[Chain17]")));
    used.insert("Chain17".into());
    sdl.push_str("type Query { id: ID }");
    let schema = Schema::sdl(&sdl);
    let frags = Frags::new();
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let p = Project::new(schema.json().dump());
    let (got, w) = run_cases(&p, &[Case::one(d.text())]);
    let want = m.globals_file(&used);
    match w.first().and_then(|w| w.globals.clone()).ok_or("no global types file".to_string()).and_then(|g| ts::parse(&g)?.globals()) {
        Err(e) => r.violation(&e, &e, got[0].show()),
        Ok(g) => {
            for k in g.keys().chain(want.keys()).collect::<BTreeSet<_>>() {
                if g.get(k) != want.get(k) {
                    r.violation(&format!("{k}: {:?}", g.get(k)), "an enum or input object differs", format!("{k} is {:?} instead of {:?}", g.get(k), want.get(k)));
                }
            }
        }
    }
    used.len()
}

// ------------------------------------------------------------------ T07
pub fn strings(al: &[&str], len: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|s| al.iter().map(move |c| format!("{s}{c}"))).collect();
        out.extend(last.clone());
    }
    out
}
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !c.is_alphanumeric()).filter(|x| !x.is_empty()).collect()
}
/// The first word of a description, punctuation included, that its comment does not carry in
/// its turn. Words that hold the marks of a comment cannot be carried as they are.
pub fn dropped<'a>(desc: &'a str, doc: &str) -> Option<&'a str> {
    let inner = doc.strip_prefix("/**").and_then(|x| x.strip_suffix("*/")).unwrap_or(doc);
    let mut have = inner.split('\n').flat_map(|l| {
        let l = l.trim_start();
        l.strip_prefix('*').unwrap_or(l).split_whitespace()
    });
    desc.split_whitespace().filter(|w| !w.contains("/*") && !w.contains("*/")).find(|w| !have.any(|h| h == *w))
}
/// Everything of the file but its comments.
fn bare(t: &str) -> Result<Vec<String>, String> {
    Ok(ts::lex(t)?.into_iter().map(|t| format!("{:?}", t.t)).collect())
}
/// Characters of one to four bytes, the ones of comments, and those that end lines somewhere.
pub const ODD: [&str; 13] = ["a", " ", "*", "/", "\n", "\r", "\t", "é", "テ", "\u{1d4b3}", "\u{2028}", "\u{a0}", "\u{0}"];
pub fn t07(r: &Report) {
    let mut descs = strings(&["*", "/", "\n", "a"], if r.thorough { 9 } else { 8 });
    descs.extend(strings(&["*", "/", " ", "\r", "\n"], if r.thorough { 7 } else { 6 }));
    descs.extend(strings(&ODD, if r.thorough { 6 } else { 5 }));
    descs.extend(strings(&["*/", "/*", "/", "*", "//"], if r.thorough { 6 } else { 5 }));
    for x in ["two words", "line one\nline two", "  indented\n\n   more  ", "\u{2028}a", "`b` ${c}", "\\*/ d", "é ☃ \u{1f600}", "\"q\" 'r'", "/** x */", "// y", "end\\", "<script>", "a\tb", "* z", "*/ export type X = any; /*", "*\n/", "*\r\n/", "/\n*"] {
        descs.push(x.into());
    }
    // of any number of lines, and of any length
    for n in (1..=if r.thorough { 600usize } else { 130 }).chain((7..=12).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1])) {
        for sep in ["\n", "\n\n", " "] {
            descs.push((0..n).map(|i| format!("w{i:04}")).collect::<Vec<_>>().join(sep));
        }
    }
    for k in 7..=16 {
        for n in [(1usize << k) - 2, (1 << k) - 1, 1 << k] {
            descs.push(format!("{}z", "y".repeat(n)));
            descs.push(format!("a {}z b", "é".repeat(n / 2)));
        }
    }
    descs.sort();
    descs.dedup();
    let chunks: Vec<Vec<String>> = descs.chunks(300).map(|c| c.to_vec()).collect();
    let res = par(&chunks, |slot, _, c| {
        let mut files: Vec<Vec<String>> = vec![];
        for with in [false, true] {
            let (s, f, q) = described(c, with);
            slot.reset();
            put(&slot.dir, "schema.json", s.json().dump());
            put(&slot.dir, "src/f.graphql", f);
            put(&slot.dir, "src/q.graphql", q);
            let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", "1"]), &Env::default());
            if let Some(a) = o.abnormal() {
                return vec![(a.clone(), a)];
            }
            let t = tree(&slot.dir);
            let g = |k: &str| t.get(k).map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
            files.push(vec![g("src/f.graphql.d.ts"), g("src/q.graphql.d.ts"), g("src/graphql-globals.ts")]);
        }
        let mut bad = vec![];
        for k in 0..3 {
            if files[0][k].is_empty() {
                bad.push(("a file is missing".to_string(), format!("file {k}")));
                continue;
            }
            match (bare(&files[0][k]), bare(&files[1][k])) {
                (Ok(a), Ok(b)) if a == b => {}
                (_, Err(e)) => bad.push((format!("a description leaves its comment: {e}"), culprit(c, &files[1][k]))),
                _ => bad.push(("a description changes the file outside comments".into(), culprit(c, &files[1][k]))),
            }
        }
        // every word arrives, on the right property
        let check = |what: &str, doc: &str, i: usize, dep: bool, bad: &mut Vec<(String, String)>| {
            for w in words(&c[i]) {
                if !doc.contains(w) {
                    bad.push((format!("the description of {what} loses the word {w:?}: {:?}", c[i]), doc.to_string()));
                    break;
                }
            }
            if let Some(w) = dropped(&c[i], doc) {
                bad.push((format!("the description of {what} loses {w:?}: {:?}", c[i]), doc.to_string()));
            }
            if doc.contains("@deprecated") != dep {
                bad.push((format!("{what} wrongly marked deprecated or not"), doc.to_string()));
            }
            if c[i].chars().all(|x| !x.is_alphanumeric()) && !dep && doc.chars().any(|x| x.is_alphanumeric()) {
                bad.push((format!("the comment of {what} has words its description {:?} has not", c[i]), doc.to_string()));
            }
        };
        if bad.is_empty() {
            let member = |f: &str, ty: &str| -> Vec<(String, String, bool)> {
                match ts::parse(f).ok().and_then(|m| m.get(ty).cloned()) {
                    Some(ts::T::Obj(m)) => m.into_iter().map(|x| (x.name, x.doc, x.readonly)).collect(),
                    _ => vec![],
                }
            };
            for (what, m, ro) in [("a result field", member(&files[1][0], "F"), true), ("an input field", member(&files[1][2], "I"), false)] {
                if m.len() != c.len() {
                    bad.push((format!("{what}: {} of {} properties", m.len(), c.len()), String::new()));
                }
                for (name, doc, r) in m {
                    let i: usize = name[1..].parse().unwrap_or(0);
                    check(what, &doc, i, i % 4 == 3, &mut bad);
                    if r != ro {
                        bad.push((format!("{what}: readonly is {r}"), doc.clone()));
                    }
                }
            }
            for (name, doc, i) in member(&files[1][1], "Q_a").iter().map(|(a, b, _)| (a.clone(), b.clone(), usize::from(a == "g"))) {
                check(&format!("the selected field {name}"), &doc, i, i % 4 == 3, &mut bad);
            }
            if let Ok(m) = ts::parse(&files[1][2]) {
                for e in &m.enums {
                    let i: usize = e.name[1..].parse().unwrap_or(0);
                    check("an enum", &e.doc.replace("eslint-disable", ""), i, false, &mut bad);
                }
            }
        }
        bad
    });
    for (e, x) in res.into_iter().flatten() {
        r.violation(&e, &e, x);
    }
    r.sample(format!("{} description strings, each on a result field, an input field and an enum", descs.len()));
    let mut total = descs.len() * 3;
    total += documented_places(r);
    done(r, total);
}
/// A schema with each description on a result field, an input field and an enum, and the two
/// documents that bring all of them into the output.
pub fn described(c: &[String], with: bool) -> (Schema, String, String) {
    let d = |i: usize| if with { Some(c[i].clone()) } else { None };
    let fields = |t: &str| -> Vec<FieldD> {
        (0..c.len()).map(|i| FieldD { name: format!("f{i}"), ty: Ty::parse(t), desc: d(i), deprecated: i % 4 == 3 }).collect()
    };
    let mut types: Vec<TypeD> = BUILTIN.iter().map(|b| TypeD { name: b.to_string(), kind: Kind::Scalar, desc: None }).collect();
    let mut push = |name: &str, kind: Kind, desc: Option<String>| types.push(TypeD { name: name.into(), kind, desc });
    push("A", Kind::Object(fields("Int")), None);
    push("I", Kind::Input(fields("Int")), d(0));
    let mut vars = vec!["$i: I".to_string()];
    for i in 0..c.len() {
        push(&format!("E{i}"), Kind::Enum(vec!["X".into()]), d(i));
        vars.push(format!("$e{i}: E{i}"));
    }
    push("Query", Kind::Object(vec![FieldD::new("a", Ty::parse("A"))]), d(c.len() - 1));
    let sel: Vec<String> = (0..c.len()).map(|i| format!("f{i}")).collect();
    (Schema::new(types), format!("fragment F on A {{ {} }}", sel.join(" ")), format!("query Q({}) {{ a {{ f0 g: f1 }} }}", vars.join(" ")))
}
fn culprit(c: &[String], file: &str) -> String {
    format!("descriptions of this file: {c:?}\n{file}")
}
/// The comment follows the field that was selected: interface, object, both, alias, smooshed types.
fn documented_places(r: &Report) -> usize {
    let mut types: Vec<TypeD> = BUILTIN.iter().map(|b| TypeD { name: b.to_string(), kind: Kind::Scalar, desc: None }).collect();
    let mk = |who: &str, k: usize| FieldD { name: "f".into(), ty: Ty::parse("Int"), desc: if k & 1 != 0 { Some(format!("doc{who}")) } else { None }, deprecated: k & 2 != 0 };
    let mut cases = vec![];
    let mut want: Vec<(usize, usize)> = vec![];
    let sels = ["f", "... on A# { f }", "f ... on A# { f }", "... on A# { f } ... on B# { f }", "g: f", "... on N# { f }", "... on A# { g: f } ... on B# { f }", "... on A# { f } id"];
    for i in 0..64usize {
        let (a, b, c) = (i & 3, (i >> 2) & 3, (i >> 4) & 3);
        let id = FieldD::new("id", Ty::parse("ID"));
        types.push(TypeD { name: format!("N{i}"), kind: Kind::Interface(vec![mk("N", a), id.clone()], vec![format!("A{i}"), format!("B{i}")]), desc: None });
        types.push(TypeD { name: format!("A{i}"), kind: Kind::Object(vec![mk("A", b), id.clone()]), desc: None });
        types.push(TypeD { name: format!("B{i}"), kind: Kind::Object(vec![mk("B", c), id]), desc: None });
        for (k, s) in sels.iter().enumerate() {
            cases.push(Case::one(format!("fragment F on N{i} {{ __typename {} }}", s.replace('#', &i.to_string()))));
            want.push((i, k));
        }
    }
    types.push(TypeD { name: "Query".into(), kind: Kind::Object(vec![FieldD::new("id", Ty::parse("ID"))]), desc: None });
    let schema = Schema::new(types);
    let mut total = 0;
    for disable in [false, true] {
        let mut p = Project::new(schema.json().dump());
        if disable {
            p.args = args(&["--disable-readonly-types"]);
        }
        let (got, _) = run_cases(&p, &cases);
        total += cases.len();
        for (j, g) in got.iter().enumerate() {
            let (i, k) = want[j];
            let e = (|| -> Result<(), String> {
                if let Some(a) = &g.abnormal {
                    return Err(a.clone());
                }
                let m = ts::parse(g.out().ok_or("no output")?)?;
                // concrete type -> property -> doc
                for c in ["A", "B"] {
                    // which field definitions may document property f (or g) of concrete type c
                    let from: &[(&str, &str)] = match k {
                        0 | 5 => &[("f", "N")],
                        1 | 7 => if c == "A" { &[("f", "A")] } else { &[] },
                        2 => if c == "A" { &[("f", "AN")] } else { &[("f", "N")] },
                        3 => if c == "A" { &[("f", "A")] } else { &[("f", "B")] },
                        4 => &[("g", "N")],
                        _ => if c == "A" { &[("g", "A")] } else { &[("f", "B")] },
                    };
                    let mut found = false;
                    for (_, t) in &m.types {
                        let ts::T::Obj(ms) = t else { continue };
                        let lits = ms.iter().find(|x| x.name == "__typename").map(|x| format!("{:?}", x.ty)).unwrap_or_default();
                        if !lits.contains(&format!("{c}{i}\"")) {
                            continue;
                        }
                        found = true;
                        for x in ms {
                            if x.readonly == disable {
                                return Err(format!("readonly is {} with{} --disable-readonly-types", x.readonly, if disable { "" } else { "out" }));
                            }
                            let Some((_, src)) = from.iter().find(|(p, _)| *p == x.name) else {
                                if !x.doc.trim().is_empty() && x.name != "__typename" {
                                    return Err(format!("{} has the comment {:?}", x.name, x.doc));
                                }
                                continue;
                            };
                            let ok = src.chars().any(|s| {
                                let bits = match s {
                                    'N' => i & 3,
                                    'A' => (i >> 2) & 3,
                                    _ => (i >> 4) & 3,
                                };
                                x.doc.contains(&format!("doc{s}")) == (bits & 1 != 0)
                                    && x.doc.contains("@deprecated") == (bits & 2 != 0)
                                    && "NAB".chars().all(|o| o == s || !x.doc.contains(&format!("doc{o}")))
                            });
                            if !ok {
                                return Err(format!("{} on {c} carries the comment {:?}, not that of the field of {src}", x.name, x.doc));
                            }
                        }
                    }
                    if !found {
                        return Err(format!("no type for {c}{i}"));
                    }
                }
                Ok(())
            })();
            if let Err(e) = e {
                r.violation(&format!("{}: {e}", one_line(&cases[j])), &e, format!("{}{}", cases[j].show(), g.show()));
            }
        }
    }
    r.cov("documents_with_documented_places", n(total));
    total
}

// ------------------------------------------------------------------ T08
pub fn t08(r: &Report) {
    let scalars = ["String", "ID", "Int", "Float", "Boolean", "Date", "JSON", "Int8", "IDs", "Bool", "string_", "Stringy", "_s", "Any"];
    let mut sdl = String::from("interface N { id: ID ");
    let mut body = String::new();
    for s in scalars {
        for (i, c) in Ty::chains(s, 2).into_iter().enumerate() {
            body.push_str(&format!("{s}{i}: {} ", c.sdl()));
        }
    }
    sdl.push_str(&format!("{body} }} type A implements N {{ id: ID aa: Int {body} }} type B implements N {{ id: ID {body} }} input I {{ {body} }} input J {{ i: I }} type Query {{ n: N a: A }} type Mutation {{ n: N }} "));
    for s in &scalars[5..] {
        sdl.push_str(&format!("scalar {s} "));
    }
    let schema = Schema::sdl(&sdl);
    let frags = Frags::new();
    // (arguments, configuration file, naming)
    let mut confs: Vec<(Vec<String>, Option<String>, Naming)> = vec![];
    let prefixes = ["", "P", "GQL_", "my.ns.", "$", "Int"];
    for cli_use in [false, true] {
        for cfg_use in [None, Some(false), Some(true)] {
            for cli_pre in std::iter::once(None).chain(prefixes.iter().map(Some)) {
                if cli_pre.is_some() && !cli_use {
                    continue; // refused by the command line itself
                }
                for cfg_pre in std::iter::once(None).chain(prefixes.iter().map(Some)) {
                    let mut a = vec![];
                    if cli_use {
                        a.push("--use-custom-scalars".to_string());
                    }
                    if let Some(p) = cli_pre {
                        a.push(format!("--custom-scalar-prefix={p}"));
                    }
                    let mut c = vec![];
                    if let Some(u) = cfg_use {
                        c.push(format!("\"useCustomScalars\": {u}"));
                    }
                    if let Some(p) = cfg_pre {
                        c.push(format!("\"customScalarPrefix\": \"{p}\""));
                    }
                    let cfg = if c.is_empty() && confs.len() % 2 == 0 { None } else { Some(format!("{{ {} }}", c.join(", "))) };
                    let custom = cli_use || cfg_use == Some(true);
                    confs.push((a, cfg, Naming { custom, prefix: cli_pre.or(cfg_pre).map(|x| x.to_string()) }));
                }
            }
        }
    }
    let mut docs = vec![];
    let names: Vec<String> = schema.fields("I").iter().map(|f| f.name.clone()).collect();
    let all: Vec<Sel> = names.iter().map(|x| leaf(x)).collect();
    docs.push(Doc::frag("F", "A", all.clone()));
    docs.push(Doc::frag("F", "N", all.clone()));
    docs.push(Doc::frag("F", "N", {
        let mut v = all.clone();
        v.push(inl("A", vec![leaf("aa"), crate::gen::field("other:Date0")]));
        v
    }));
    docs.push(Doc::query("Q", vec![node("a", all.iter().map(|s| { let Sel::Field { name, .. } = s else { unreachable!() }; crate::gen::field(&format!("x_{name}:{name}")) }).collect()), node("n", vec![inl("B", all)])]));
    for kind in [OpKind::Query, OpKind::Mutation] {
        let mut d = Doc::query("Q", vec![node("n", vec![leaf("id")])]);
        d.kind = kind;
        for s in scalars {
            for (i, c) in Ty::chains(s, 1).into_iter().enumerate() {
                d.vars.push((format!("{s}{i}"), c));
            }
        }
        d.vars.push(("in".into(), Ty::parse("J")));
        docs.push(d);
    }
    let cases: Vec<Case> = docs.iter().map(|d| Case::one(d.text())).collect();
    let res = par(&confs, |slot, _, (a, cfg, naming)| {
        let m = Model { schema: &schema, frags: &frags, naming: naming.clone() };
        let mut p = Project::new(schema.json().dump());
        p.args = a.clone();
        p.config = cfg.clone();
        let (got, w) = run_cases_on(&p, slot, &cases);
        let mut bad = vec![];
        for (i, g) in got.iter().enumerate() {
            let e = match (&g.abnormal, g.errors().first(), g.out()) {
                (Some(a), _, _) => a.clone(),
                (_, Some(e), _) => format!("rejected: {}", e.msg),
                (_, _, None) => "no output".into(),
                (_, _, Some(t)) => match crate::checks::types::judge(&m, &docs[i], t, false) {
                    Ok(()) => continue,
                    Err(e) => diff(&e),
                },
            };
            bad.push((format!("document {i}: {e}"), g.show()));
        }
        let want = m.globals_file(&["J".to_string()].into_iter().collect());
        match w.first().and_then(|w| w.globals.clone()).ok_or("no global types file".to_string()).and_then(|g| ts::parse(&g)?.globals()) {
            Err(e) => bad.push((e.clone(), e)),
            Ok(g) if g != want => bad.push((format!("input objects: {}", diff(&format!("got\n{}\nwant\n{}", g["I"], want["I"]))), format!("{g:?}"))),
            _ => {}
        }
        bad
    });
    for ((a, c, _), v) in confs.iter().zip(res) {
        for (e, x) in v {
            r.violation(&format!("{a:?} {c:?}: {e}"), &e, x);
        }
    }
    r.sample(format!("{} configurations times {} scalars times positions {{fields of objects, interfaces, split types; aliases; variables; input objects}}", confs.len(), scalars.len()));
    done(r, confs.len() * docs.len());
}
/// The first differing property of two canonical types.
fn diff(e: &str) -> String {
    let l: Vec<&str> = e.lines().filter(|x| x.contains('{')).collect();
    if l.len() < 2 {
        return e.lines().next().unwrap_or("").to_string();
    }
    l[0].split(';').zip(l[1].split(';')).find(|(a, b)| a != b).map(|(a, b)| format!("{a} instead of {b}")).unwrap_or_else(|| "shapes differ".into())
}
