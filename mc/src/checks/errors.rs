//! E01: every fault is reported where it is, and nothing else suffers.
use super::types::*;
use crate::batch::*;
use crate::doc::*;
use crate::gen::*;
use crate::json::n;
use crate::report::Report;
use crate::runner::Env;
use crate::schema::*;
use std::collections::BTreeMap;

/// A document with one fault, and the line it is on (None: the file is enough).
#[derive(Clone)]
pub struct Bad {
    pub files: Vec<(String, String)>,
    pub line: Option<usize>,
    pub cols: (usize, usize),
    pub kind: String,
}
/// Every document that has `bad(parent)` as one more selection anywhere; with its pre-order index.
pub fn inserts(s: &[Sel], parent: &str, schema: &Schema, bad: &dyn Fn(&str) -> Vec<Sel>) -> Vec<(Vec<Sel>, usize, Sel)> {
    let mut out = vec![];
    let mut before = 0;
    for i in 0..=s.len() {
        for b in bad(parent) {
            let mut v = s.to_vec();
            v.insert(i, b.clone());
            out.push((v, before, b));
        }
        if i == s.len() {
            break;
        }
        let t = match &s[i] {
            Sel::Field { name, .. } => schema.field(parent, name).map(|f| f.ty.named().to_string()).unwrap_or_default(),
            Sel::Inline { on, .. } => on.clone(),
            Sel::Spread(_) => String::new(),
        };
        if !s[i].sels().is_empty() {
            for (sub, k, b) in inserts(s[i].sels(), &t, schema, bad) {
                let mut v = s.to_vec();
                *v[i].sels_mut().unwrap() = sub;
                out.push((v, before + 1 + k, b));
            }
        }
        before += s[i].size();
    }
    out
}
fn bad_items(schema: &Schema, imported: &[String], parent: &str) -> Vec<Sel> {
    let mut v = vec![leaf("zz"), node("zz", vec![leaf("id")]), field("id:zz"), leaf("ID"), leaf("__schema")];
    // fields other types have
    for f in ["a", "b", "q", "m", "x", "w", "s", "id"] {
        if schema.field(parent, f).is_none() {
            v.push(leaf(f));
        }
    }
    for f in ["n", "u"] {
        if schema.field(parent, f).is_none() {
            v.push(node(f, vec![leaf("__typename")]));
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    for f in schema.fields(parent) {
        let t = f.ty.named();
        // one of each type and wrapper
        if !seen.insert((t.to_string(), f.ty.sdl())) {
            continue;
        }
        if schema.composite(t) {
            v.push(leaf(&f.name));
            v.push(field(&format!("id:{}", f.name)));
        } else {
            v.push(node(&f.name, vec![leaf("id")]));
            v.push(node(&f.name, vec![leaf("__typename")]));
        }
    }
    v.push(node("__typename", vec![leaf("id")]));
    v.push(Sel::Spread("Zz".into()));
    for f in ["FA", "FM"] {
        if !imported.iter().any(|x| x == f) {
            v.push(Sel::Spread(f.into()));
        }
    }
    for t in ["Zz", "String", "Date", "E", "I", "a"] {
        v.push(inl(t, vec![leaf("id")]));
    }
    v.push(inl("I", vec![leaf("a")]));
    v
}
fn describe(x: &Sel) -> String {
    match x {
        Sel::Field { sels, .. } if sels.is_empty() => "a field".into(),
        Sel::Field { .. } => "a field with a selection".into(),
        Sel::Inline { .. } => "an inline fragment".into(),
        Sel::Spread(_) => "a spread".into(),
    }
}
fn line_of(text: &str, k: usize) -> &str {
    text.lines().nth(k - 1).unwrap_or("")
}
/// Selections that no response can satisfy together with the field `x` of `parent`: of the same name, but of
/// a leaf type that is another, of a composite type instead of a leaf or a leaf type instead of a composite,
/// or of composite types that share no object type, or with lists of another depth.
fn conflicts(schema: &Schema, parent: &str, x: &Sel) -> Vec<Sel> {
    let Sel::Field { name, alias, .. } = x else { return vec![] };
    let key = alias.as_ref().unwrap_or(name);
    let named = |f: &str| if f == "__typename" { Some(("__typename".to_string(), 0)) } else { schema.field(parent, f).map(|f| (f.ty.named().to_string(), f.ty.sdl().matches('[').count())) };
    let Some((t, lists)) = named(name) else { return vec![] };
    let mut seen = std::collections::BTreeSet::new();
    let mut out = vec![];
    let others: Vec<String> = schema.fields(parent).iter().map(|f| f.name.clone()).chain(["__typename".to_string()]).collect();
    for f in others {
        let (u, l) = named(&f).unwrap();
        let clash = match (schema.composite(&t), schema.composite(&u)) {
            (true, true) => {
                let (a, b) = (schema.possible(&t), schema.possible(&u));
                !a.is_empty() && !b.is_empty() && !a.iter().any(|x| b.contains(x))
            }
            (false, false) => t != u,
            _ => true,
        } || l != lists;
        if clash && seen.insert((u.clone(), l)) {
            let k = if f == *key { f.clone() } else { format!("{key}:{f}") };
            let s = if schema.composite(&u) { node(&k, vec![leaf("__typename")]) } else if f == *key { leaf(&k) } else { field(&k) };
            out.push(s.clone());
            out.push(inl(parent, vec![s]));
        }
    }
    out
}
/// Every document with one selection more that clashes with one of its own, before and after it.
fn clashes(schema: &Schema, s: &[Sel], parent: &str) -> Vec<Vec<Sel>> {
    let mut out = vec![];
    for i in 0..s.len() {
        for c in conflicts(schema, parent, &s[i]) {
            for at in [0, s.len()] {
                let mut v = s.to_vec();
                v.insert(at, c.clone());
                out.push(v);
            }
        }
        let t = match &s[i] {
            Sel::Field { name, .. } => schema.field(parent, name).map(|f| f.ty.named().to_string()).unwrap_or_default(),
            Sel::Inline { on, .. } => on.clone(),
            Sel::Spread(_) => String::new(),
        };
        for sub in if s[i].sels().is_empty() { vec![] } else { clashes(schema, s[i].sels(), &t) } {
            let mut v = s.to_vec();
            *v[i].sels_mut().unwrap() = sub;
            out.push(v);
        }
    }
    out
}
/// Every document with one fault made from a valid one.
pub fn faults(schema: &Schema, d: &Doc) -> Vec<Bad> {
    let mut out = vec![];
    let root = if d.kind == OpKind::Fragment { d.on.clone() } else { d.kind.root().to_string() };
    // library fragments in scope: the imported ones and what they import
    let mut imported: Vec<String> = d.imports.iter().map(|x| x.trim_start_matches("frags/").trim_end_matches(".graphql").to_uppercase()).collect();
    if imported.iter().any(|x| x == "FN") {
        imported.push("FB".into());
    }
    for (s, k, b) in inserts(&d.sels, &root, schema, &|p| bad_items(schema, &imported, p)) {
        let p = Doc { sels: s, ..d.clone() }.print();
        let (l, c, end) = p.extent(&p.pos, k);
        out.push(Bad { files: vec![("m.graphql".into(), p.text)], line: Some(l), cols: (c, end), kind: describe(&b) });
    }
    if !impossible(schema, d) {
        for s in clashes(schema, &d.sels, &root) {
            out.push(Bad { files: vec![("m.graphql".into(), Doc { sels: s, ..d.clone() }.text())], line: None, cols: (0, 0), kind: "a clash".into() });
        }
    }
    if d.kind == OpKind::Fragment {
        for t in ["Zz", "String", "Date", "E", "I", "Int"] {
            let p = Doc { on: t.into(), ..d.clone() }.print();
            let l = d.imports.len() + 1;
            let end = line_of(&p.text, l).chars().count();
            out.push(Bad { files: vec![("m.graphql".into(), p.text)], line: Some(l), cols: (1, end), kind: "a fragment's condition".into() });
        }
    } else {
        for t in ["Zz", "Zz!", "[Zz]", "[Zz!]!", "A", "N!", "[U]", "Query", "int"] {
            for at in 0..3 {
                let mut vars = vec![("g".to_string(), Ty::parse("Int")), ("h".to_string(), Ty::parse("[I!]"))];
                vars.insert(at, ("v".into(), Ty::parse(t)));
                let p = Doc { vars, ..d.clone() }.print();
                let (l, c, end) = p.extent(&p.var_pos, at);
                out.push(Bad { files: vec![("m.graphql".into(), p.text)], line: Some(l), cols: (c, end), kind: "a variable".into() });
            }
        }
    }
    out
}
/// Runs faulty documents beside valid ones.
fn expect(r: &Report, p: &Project, bads: &[Bad], good: &[(String, String)], label: &str) {
    for (lo, chunk) in bads.chunks(40000).enumerate().map(|(i, c)| (i * 40000, c)) {
        let cases: Vec<Case> = chunk
            .iter()
            .enumerate()
            .map(|(i, b)| {
                let mut files = b.files.clone();
                if !good.is_empty() && i % 3 == 0 {
                    files.push(("v.graphql".into(), good[(lo + i) % good.len()].0.clone()));
                }
                Case { files }
            })
            .collect();
        let (got, wholes) = run_cases(p, &cases);
        for (i, (b, g)) in chunk.iter().zip(&got).enumerate() {
            let mut e = None;
            if let Some(a) = &g.abnormal {
                e = Some(a.clone());
            } else if g.out().is_some() {
                e = Some("an output is written".to_string());
            } else if !g.errors().iter().any(|d| d.file.as_deref() == Some("m.graphql")) {
                e = Some("no error names the file".into());
            } else {
                for d in g.errors() {
                    let at = (d.line.unwrap_or(0), d.col.unwrap_or(0));
                    if d.file.as_deref() != Some("m.graphql") {
                        e = Some(format!("an error about {:?}", d.file));
                    } else if let Some(l) = b.line {
                        if at.0 != l || at.1 < b.cols.0 || at.1 > b.cols.1 {
                            e = Some(format!("an error at {}:{} instead of {l}:{}-{}", at.0, at.1, b.cols.0, b.cols.1));
                        }
                    }
                }
            }
            if e.is_none() && cases[i].files.iter().any(|(f, _)| f == "v.graphql") {
                let want = &good[(lo + i) % good.len()].1;
                if g.outs.get("v.graphql") != Some(want) {
                    e = Some("a valid document beside it is compiled differently".into());
                }
            }
            if let Some(e) = e {
                r.violation(&format!("{} {}: {e}", b.kind, one_line(&Case { files: b.files.clone() })), &format!("{label}, {}: {e}", b.kind), format!("{e}\n{}{}", cases[i].show(), g.show()));
            }
        }
        for w in &wholes {
            if let Some(e) = whole_faults(w) {
                r.violation(&e, &e, w.outcome.stdout.clone());
            }
        }
    }
    for b in bads {
        r.outcome(&format!("{label}: {}", b.kind));
    }
    if let Some(b) = bads.get(bads.len() / 2) {
        r.sample(format!("{label}: {} documents, e.g. {}", bads.len(), one_line(&Case { files: b.files.clone() })));
    }
}
/// What qlc makes of valid documents: must all be accepted.
fn outputs(r: &Report, p: &Project, texts: &[String]) -> Vec<(String, String)> {
    let cases: Vec<Case> = texts.iter().map(|t| Case::one(t.clone())).collect();
    let (got, _) = run_cases(p, &cases);
    let mut out = vec![];
    for (c, g) in cases.iter().zip(&got) {
        match (&g.abnormal, g.diags.first(), g.out()) {
            (None, None, Some(t)) => out.push((c.files[0].1.clone(), t.to_string())),
            _ => r.violation(&format!("rejected: {}", one_line(c)), "a valid document is rejected", format!("{}{}", c.show(), g.show())),
        }
    }
    out
}
pub fn e01(r: &Report) {
    let schema = Schema::sdl(SDL);
    let lib = library();
    let frags = frags_of(&lib);
    let mut p = Project::new(schema.json().dump());
    p.common = common_of(&lib);
    let mut total = 0;
    let sizes: BTreeMap<&str, (usize, usize)> = [
        ("narrowing", (3, 4)),
        ("nested merge", (4, 5)),
        ("deep", (4, 5)),
        ("aliases", (3, 4)),
        ("spreads", (3, 4)),
        ("queries", (4, 5)),
        ("mutations", (4, 5)),
    ]
    .into_iter()
    .collect();
    let mut all: Vec<Doc> = vec![];
    for f in families() {
        let Some((q, t)) = sizes.get(f.name) else { continue };
        let mut docs = family_docs(&f, &schema, &frags, if r.thorough { *t } else { *q });
        if f.name == "narrowing" {
            // also below fragments nothing can satisfy
            let g = Family { al: Alphabet { impossible: true, ..f.al.clone() }, ..f };
            docs = family_docs(&g, &schema, &frags, if r.thorough { *t } else { *q });
        }
        let name = format!("faults in {}", docs.len());
        // narrowing to nothing is warned of, not rejected
        let good: Vec<(String, String)> = if docs.iter().any(|d| impossible(&schema, d)) { vec![] } else { outputs(r, &p, &docs.iter().map(Doc::text).collect::<Vec<_>>()) };
        let bads: Vec<Bad> = docs.iter().enumerate().flat_map(|(i, d)| faults(&schema, &Doc { layout: (i % 5) as u8, ..d.clone() })).collect();
        total += bads.len() + docs.len();
        expect(r, &p, &bads, &good, &name);
        all.extend(docs.into_iter().filter(|d| !impossible(&schema, d)));
    }
    // truncation at every character
    let mut bads = vec![];
    let step = if r.thorough { 1 } else { all.len() / 2000 + 1 };
    for d in all.iter().step_by(step) {
        let t = d.text();
        let end = t.rfind('}').unwrap();
        for i in 0..=end {
            bads.push(Bad { files: vec![("m.graphql".into(), t[..i].to_string())], line: None, cols: (0, 0), kind: "cut off".into() });
        }
        for (what, x) in [("an extra bracket", format!("{t}}}")), ("an extra name", format!("{t} x")), ("an unknown character", format!("{t} ?")), ("an unknown character", format!("%{t}"))] {
            bads.push(Bad { files: vec![("m.graphql".into(), x)], line: None, cols: (0, 0), kind: what.into() });
        }
    }
    total += bads.len();
    expect(r, &p, &bads, &[], "syntax");
    total += definitions(r, &p);
    total += roots(r);
    total += imported(r, &p);
    total += imported_clashes(r, &p);
    total += alike(r);
    total += lists(r);
    total += variants(r, &p, &all);
    done(r, total);
}
/// Two selections under one name with each two list and null wrappers, of a leaf and of a composite type, beside
/// each other, through an inline fragment, through a spread and two levels down: lists of different depth exclude
/// each other.
fn lists(r: &Report) -> usize {
    let mut chains = vec!["@".to_string()];
    for _ in 0..if r.thorough { 4 } else { 3 } {
        let more: Vec<String> = chains.iter().flat_map(|c| [format!("[{c}]"), format!("[{c}!]")]).collect();
        chains = [vec!["@".to_string()], more].concat();
    }
    let chains: Vec<String> = chains.iter().flat_map(|c| [c.clone(), format!("{c}!")]).collect();
    let mut fields = String::new();
    for (i, c) in chains.iter().enumerate() {
        for t in ["Int", "A"] {
            fields.push_str(&format!("f{i}{t}: {} ", c.replace('@', t)));
        }
    }
    let schema = Schema::sdl(&format!("type Query {{ {fields} a: A }} type A {{ {fields} a: A }}"));
    let mut p = Project::new(schema.json().dump());
    for i in 0..chains.len() {
        for t in ["Int", "A"] {
            let sub = if t == "A" { " { a { __typename } }" } else { "" };
            p.common.push((format!("frags/f{i}{t}.graphql"), format!("fragment F{i}{t} on Query {{ x: f{i}{t}{sub} }}\n")));
        }
    }
    let mut cases = vec![];
    for (i, c) in chains.iter().enumerate() {
        for (j, d) in chains.iter().enumerate() {
            let clash = c.matches('[').count() != d.matches('[').count();
            for (t, sub) in [("Int", ""), ("A", " { a { __typename } }")] {
                let (x, y) = (format!("x: f{i}{t}{sub}"), format!("x: f{j}{t}{sub}"));
                for text in [
                    format!("query {{ {x} {y} }}\n"),
                    format!("query {{ {x} ... on Query {{ {y} }} }}\n"),
                    format!("#import \"frags/f{j}{t}.graphql\"\nquery {{ {x} ...F{j}{t} }}\n"),
                    format!("query {{ a {{ a {{ {x} }} }} a {{ a {{ {y} }} }} }}\n"),
                ] {
                    cases.push((clash, Case::one(text)));
                }
            }
        }
    }
    let cs: Vec<Case> = cases.iter().map(|c| c.1.clone()).collect();
    let (got, _) = run_cases(&p, &cs);
    for ((clash, c), g) in cases.iter().zip(&got) {
        let e = match (&g.abnormal, g.errors().len(), g.out()) {
            (Some(a), _, _) => a.clone(),
            (_, 0, Some(_)) if !clash => continue,
            (_, 1.., None) if *clash => continue,
            (_, k, o) => format!("{k} errors, {} output, though the lists {}", if o.is_some() { "an" } else { "no" }, if *clash { "differ" } else { "agree" }),
        };
        r.violation(&format!("{}: {e}", one_line(c)), "two lists under one name", format!("{e}\n{}{}", c.show(), g.show()));
    }
    cases.len()
}
/// Two selections under one name, of each two types there are, many of which have names that are alike.
fn alike(r: &Report) -> usize {
    let types = ["ID", "Id", "id", "IDs", "Int", "INT", "int", "Int8", "String", "Date", "date", "DATE", "_Date", "Date_", "E", "e", "EE", "A", "AA", "aa", "B", "U", "u", "N", "NN"];
    let mut sdl = String::from("scalar Id scalar id scalar IDs scalar INT scalar int scalar Int8 scalar Date scalar date scalar DATE scalar _Date scalar Date_ enum E { X } enum e { X } enum EE { X } \
        type A { id: ID } type AA { id: ID } type aa { id: ID } type B implements NN { id: ID } union U = A | AA union u = aa | B interface N { id: ID } type C implements N { id: ID } interface NN { id: ID } type Query { ");
    for (i, t) in types.iter().enumerate() {
        sdl.push_str(&format!("f{i}: {t} l{i}: [{t}!]! "));
    }
    sdl.push('}');
    let schema = Schema::sdl(&sdl);
    let p = Project::new(schema.json().dump());
    let mut cases = vec![];
    let sub = |i: usize| if schema.composite(types[i]) { " { __typename }" } else { "" };
    for i in 0..types.len() {
        for j in 0..types.len() {
            for list in ["f", "l"] {
                let clash = match (schema.composite(types[i]), schema.composite(types[j])) {
                    (true, true) => {
                        let (a, b) = (schema.possible(types[i]), schema.possible(types[j]));
                        !a.iter().any(|x| b.contains(x))
                    }
                    (false, false) => types[i] != types[j],
                    _ => true,
                };
                cases.push((clash, Case::one(format!("query {{ x: {list}{i}{} x: {list}{j}{} }}\n", sub(i), sub(j)))));
                if list == "f" {
                    cases.push((clash, Case::one(format!("query {{ x: {list}{i}{} ... on Query {{ x: {list}{j}{} }} }}\n", sub(i), sub(j)))));
                }
            }
        }
    }
    let cs: Vec<Case> = cases.iter().map(|c| c.1.clone()).collect();
    let (got, _) = run_cases(&p, &cs);
    for ((clash, c), g) in cases.iter().zip(&got) {
        let e = match (&g.abnormal, g.errors().len(), g.out()) {
            (Some(a), _, _) => a.clone(),
            (_, 0, Some(_)) if !clash => continue,
            (_, 1.., None) if *clash => continue,
            (_, k, o) => format!("{k} errors, {} output, though the types {}", if o.is_some() { "an" } else { "no" }, if *clash { "exclude each other" } else { "go together" }),
        };
        r.violation(&format!("{}: {e}", one_line(c)), "two types under one name", format!("{e}\n{}{}", c.show(), g.show()));
    }
    cases.len()
}
/// Does the document narrow to nothing anywhere?
fn impossible(schema: &Schema, d: &Doc) -> bool {
    fn go(schema: &Schema, s: &[Sel], poss: &[String], parent: &str) -> bool {
        s.iter().any(|x| match x {
            Sel::Inline { on, sels } => {
                let p: Vec<String> = schema.possible(on).into_iter().filter(|t| poss.contains(t)).collect();
                p.is_empty() || go(schema, sels, &p, on)
            }
            Sel::Field { name, sels, .. } if !sels.is_empty() => {
                let t = schema.field(parent, name).map(|f| f.ty.named().to_string()).unwrap_or_default();
                go(schema, sels, &schema.possible(&t), &t)
            }
            _ => false,
        })
    }
    let on = if d.kind == OpKind::Fragment { d.on.clone() } else { d.kind.root().to_string() };
    go(schema, &d.sels, &schema.possible(&on), &on)
}
/// None, and more than one.
fn definitions(r: &Report, p: &Project) -> usize {
    let mut bads = vec![];
    for t in ["", "\n", "  \n\t\n", "# only a comment\n", "#import \"frags/fa.graphql\"\n", "#import \"frags/fa.graphql\"\n\n# x\n", "\u{feff}", "\u{feff}\n# x", ",,,", "# no newline", "\r\n\r\n"] {
        bads.push(Bad { files: vec![("m.graphql".into(), t.into())], line: None, cols: (0, 0), kind: "no definition".into() });
    }
    let defs = [
        "query Q {\n  id\n}",
        "query {\n  id\n}",
        "query V($v: Int) {\n  id\n}",
        "mutation {\n  id\n}",
        "mutation M {\n  id\n}",
        "subscription S {\n  id\n}",
        "subscription {\n  id\n}",
        "fragment F on A {\n  id\n}",
        "fragment G on N {\n  n {\n    id\n  }\n}",
        "{\n  id\n}",
    ];
    for a in defs {
        for b in defs {
            for sep in ["\n", "\n\n", "\n# between\n", "\r\n", " "] {
                for pre in ["", "#import \"frags/fa.graphql\"\n", "\n"] {
                    for third in ["", "\nfragment T on B {\n  b\n}"] {
                        let head = format!("{pre}{a}{sep}");
                        let line = head.matches('\n').count() + 1;
                        let col = head.rsplit('\n').next().unwrap_or("").chars().count() + 1;
                        bads.push(Bad { files: vec![("m.graphql".into(), format!("{head}{b}{third}\n"))], line: Some(line), cols: (col, col + b.lines().next().unwrap().len()), kind: "several definitions".into() });
                    }
                }
            }
        }
    }
    let n = bads.len();
    expect(r, p, &bads, &[], "definitions");
    n
}
/// Selections that clash with those of an imported fragment, and imported fragments that clash.
fn imported_clashes(r: &Report, p: &Project) -> usize {
    let mut bads = vec![];
    let clash = ["a:n { id }", "a:k", "a:s", "a:__typename", "id:o { id }", "id:a", "... on A { a:n { id } }", "... on N { a:id }", "... on N { id:n { id } }"];
    let bodies = ["{C} ...FA", "...FA {C}", "s {C} v:v ...FA", "... on A { {C} } ... on A { ...FA }", "o { {C} ...FA }", "o { ...FA } o { {C} }", "n { ... on A { {C} ...FA } }", "n { ...FA ... on A { {C} } }", "n { ...FA } n { ... on A { {C} } }"];
    for c in clash {
        for b in bodies {
            let b = b.replace("{C}", c);
            for head in ["fragment F on A", "query { a", "mutation M { a"] {
                let end = if head.contains('{') { "} }" } else { "}" };
                bads.push(Bad { files: vec![("m.graphql".into(), format!("#import \"frags/fa.graphql\"\n{head} {{ {b} {end}\n"))], line: None, cols: (0, 0), kind: "a clash with a fragment".into() });
                // the same, with both in fragments that are fine alone
                if !b.contains("FA {C}") {
                    let t = format!("#import \"frags/fa.graphql\"\n#import \"x.graphql\"\n{head} {{ ...X o {{ ...X ...FA }} ...FA {end}\n");
                    bads.push(Bad { files: vec![("m.graphql".into(), t), ("x.graphql".into(), format!("fragment X on A {{ {c} }}\n"))], line: None, cols: (0, 0), kind: "a clash between fragments".into() });
                }
            }
        }
    }
    let n = bads.len();
    expect(r, p, &bads, &[], "imports");
    n
}
/// Operations the schema has no root type for.
fn roots(r: &Report) -> usize {
    let mut total = 0;
    for (sdl, kinds) in [
        ("type Query { id: ID a: A } type A { id: ID }", vec!["mutation", "mutation M", "mutation M($x: Int)"]),
        ("type Mutation { id: ID } type A { id: ID }", vec!["query", "query Q", "subscription", "subscription S"]),
        ("scalar Query enum Mutation { A }", vec!["query", "mutation", "query Q"]),
        ("input Query { id: ID } input Mutation { id: ID }", vec!["query", "mutation", "mutation M"]),
    ] {
        let p = Project::new(Schema::sdl(sdl).json().dump());
        let mut bads = vec![];
        for k in kinds {
            for (pre, l) in [("", 1), ("# c\n\n", 3)] {
                for sel in ["id", "__typename", "a { id }"] {
                    bads.push(Bad { files: vec![("m.graphql".into(), format!("{pre}{k} {{ {sel} }}\n"))], line: Some(l), cols: (1, 80), kind: "no root type".into() });
                }
            }
        }
        total += bads.len();
        expect(r, &p, &bads, &[], "roots");
    }
    total
}
/// Faults in fragments that are imported.
fn imported(r: &Report, p: &Project) -> usize {
    let faults = [
        ("an unknown field", "fragment X on A {\n  a\n  zz\n}\n", Some(3)),
        ("an unknown field further down", "fragment X on A {\n  a\n  n {\n    zz\n  }\n}\n", Some(4)),
        ("an unknown field in an inline fragment", "fragment X on A {\n  a\n  ... on N {\n    zz\n  }\n}\n", Some(4)),
        ("a selection on a leaf", "fragment X on A {\n  a {\n    id\n  }\n}\n", Some(2)),
        ("no selection on an object", "fragment X on A {\n  a\n  n\n}\n", Some(3)),
        ("an unknown spread", "fragment X on A {\n  a\n  ...Zz\n}\n", Some(3)),
        ("an unknown type", "fragment X on Zz {\n  a\n}\n", Some(1)),
        ("a scalar as type", "fragment X on String {\n  a\n}\n", Some(1)),
        ("an unknown type inside", "fragment X on A {\n  a\n  ... on Zz {\n    a\n  }\n}\n", Some(3)),
        ("two definitions", "fragment X on A {\n  a\n}\nfragment Y on A {\n  a\n}\n", Some(4)),
        ("no definition", "# empty\n", None),
        ("a syntax error", "fragment X on A {\n  a\n", None),
        ("no fragment", "query X {\n  id\n}\n", None),
    ];
    let mut cases = vec![];
    for (what, text, line) in faults {
        for (place, file) in [("in the root directory", "x.graphql"), ("outside the root directory", "/out/x.graphql"), ("with another extension", "x.gql")] {
            for through in [false, true] {
                let path = match place {
                    "outside the root directory" => "../../out/x.graphql".to_string(),
                    _ => format!("./{file}"),
                };
                let m = if through {
                    ("m.graphql", "#import \"./y.graphql\"\nquery {\n  a {\n    ...Y\n  }\n}\n".to_string())
                } else {
                    ("m.graphql", format!("#import \"{path}\"\nquery {{\n  a {{\n    ...X\n  }}\n}}\n"))
                };
                let mut files = vec![(m.0.to_string(), m.1)];
                if through {
                    files.push(("y.graphql".into(), format!("#import \"{path}\"\nfragment Y on A {{\n  id\n  ...X\n}}\n")));
                }
                // one more spread of the fragment, and one further down, change nothing
                if place == "in the root directory" {
                    let x = if through { "Y" } else { "X" };
                    for (name, sels) in [("once", format!("...{x}")), ("twice", format!("...{x} ...{x}")), ("inside", format!("...{x} ... on A {{ ...{x} id }}"))] {
                        let import = if through { "./y.graphql".to_string() } else { path.clone() };
                        files.push((format!("{name}.graphql"), format!("#import \"{import}\"\nquery {{\n  a {{\n    {sels}\n  }}\n}}\n")));
                    }
                }
                files.push(("v.graphql".into(), "query {\n  id\n}\n".into()));
                files.push((file.to_string(), text.to_string()));
                cases.push((what, place, through, line, Case { files }));
            }
        }
    }
    let n = cases.len();
    // each on its own: one of the files lies outside the tree
    let bad = crate::runner::par(&cases, |slot, _, (what, place, through, line, c)| {
        slot.reset();
        let dir = slot.dir.join("src/c");
        crate::runner::put(&slot.dir, "schema.json", &p.schema);
        for (f, t) in &c.files {
            match f.strip_prefix("/out/") {
                Some(f) => crate::runner::put(&slot.dir.join("out"), f, t),
                None => crate::runner::put(&dir, f, t),
            }
        }
        let o = slot.run(&slot.dir, &p.args(), &p.env);
        let d = crate::diag::parse(&o.stdout);
        let mut e = o.abnormal();
        // cut in two, with nothing to spread, X is not there for m either; otherwise only the fragment is at fault
        let own = match *place {
            "in the root directory" => Some("src/c/x.graphql"),
            _ => None,
        };
        let known = format!("{what} in an imported fragment {place}{} is not reported", if *through { ", through another file" } else { "" });
        if e.is_none() && d.errors() == 0 {
            e = Some(known.clone());
        } else if e.is_none() {
            if let (Some(f), Some(l)) = (own, line) {
                if !d.list.iter().any(|x| x.level != "warning" && x.file.as_deref() == Some(f) && x.line == Some(*l)) {
                    e = Some(format!("{what} in an imported fragment: no error at its line"));
                }
            }
            if own.is_some() && *what != "no fragment" && dir.join("x.graphql.d.ts").exists() {
                e = Some(format!("{what}: the fragment has an output"));
            }
        }
        if e.is_none() && own.is_some() {
            let about = |f: &str| -> std::collections::BTreeSet<String> { d.list.iter().filter(|x| x.file.as_deref() == Some(&format!("src/c/{f}.graphql"))).map(|x| x.msg.clone()).collect() };
            for f in ["twice", "inside"] {
                if about(f) != about("once") || dir.join(format!("{f}.graphql.d.ts")).exists() != dir.join("once.graphql.d.ts").exists() {
                    e = Some(format!("{what} in an imported fragment: a second spread of it changes what is reported from {:?} to {:?}", about("once"), about(f)));
                }
            }
        }
        if e.is_none() && !dir.join("v.graphql.d.ts").exists() {
            e = Some("a valid document beside it has no output".into());
        }
        e.map(|e| (e, format!("{}{}{}", c.show(), o.stdout, crate::runner::tree(&slot.dir).keys().cloned().collect::<Vec<_>>().join(" "))))
    });
    for (e, t) in bad.into_iter().flatten() {
        r.violation(&e, &e, t);
    }
    n
}
/// Ways of writing the same document: all accepted, all with the same output.
fn variants(r: &Report, p: &Project, docs: &[Doc]) -> usize {
    type F = fn(&str) -> String;
    let after_imports = |t: &str, f: &dyn Fn(&str) -> String| -> String {
        let k = t.lines().take_while(|l| l.starts_with("#import")).map(|l| l.len() + 1).sum::<usize>();
        format!("{}{}", &t[..k], f(&t[k..]))
    };
    let words: Vec<(&str, F)> = vec![
        ("CRLF", |t| t.replace('\n', "\r\n")),
        ("byte order mark", |t| format!("\u{feff}{t}")),
        ("byte order mark and CRLF", |t| format!("\u{feff}{}", t.replace('\n', "\r\n"))),
        ("no final newline", |t| t.trim_end().to_string()),
        ("blank lines", |t| t.replace('\n', "\n\n")),
        ("leading blank lines", |t| format!("\n \n\t\n{t}")),
        ("leading comments", |t| format!("# a comment }}\n#\n  # indented\n{t}")),
        ("trailing comment", |t| format!("{t}# the end")),
    ];
    let body: Vec<(&str, F)> = vec![
        ("one line", |t| t.split_whitespace().collect::<Vec<_>>().join(" ")),
        ("tabs", |t| t.replace("  ", "\t")),
        ("commas", |t| t.replace("\n", ",\n").replace("{,", "{").replacen(",\n", "\n", 0)),
        ("comments", |t| t.replace('\n', " # { zz ...Zz }\n")),
        ("arguments", |t| with_args(t, "(a: 1)")),
        ("many arguments", |t| with_args(t, "(a: -1, b: 1.5e3, c: true, d: null, e: RED, f: [1, [2]], g: {h: [{}], i: $v})")),
        ("string arguments", |t| with_args(t, "(a: \"} { \\\" # \\u00e9 ...Zz\", b: \"\")")),
        ("block strings", |t| with_args(t, "(a: \"\"\" } { \" zz # \"\"\")")),
        ("directives", |t| with_args(t, " @foo @bar(x: 1, y: [\"}\"])")),
        ("arguments and directives", |t| with_args(t, "(x: [])@foo(a: {})")),
    ];
    let step = if r.thorough { 1 } else { docs.len() / 2500 + 1 };
    let mut cases = vec![];
    let mut of = vec![];
    for d in docs.iter().step_by(step) {
        let t = d.text();
        cases.push(Case::one(t.clone()));
        of.push("itself");
        for (w, f) in &words {
            cases.push(Case::one(f(&t)));
            of.push(w);
        }
        for (w, f) in &body {
            cases.push(Case::one(after_imports(&t, &|x| f(x))));
            of.push(w);
        }
    }
    let (got, _) = run_cases(p, &cases);
    let mut base = 0;
    for i in 0..cases.len() {
        if of[i] == "itself" {
            base = i;
        }
        if got[i].abnormal.is_none() && got[i].diags.is_empty() && got[i].out().is_some() && got[i].out() == got[base].out() {
            continue;
        }
        let e = if got[i].diags.is_empty() { "compiled differently" } else { "rejected" };
        r.violation(&format!("{}: {e}: {}", of[i], one_line(&cases[base])), &format!("the same document written with {}: {e}", of[i]), format!("{}{}\nbase\n{}", cases[i].show(), got[i].show(), got[base].show()));
    }
    r.cov("ways_of_writing", n(words.len() + body.len()));
    cases.len()
}
/// Puts `what` after every field name.
fn with_args(t: &str, what: &str) -> String {
    t.lines()
        .map(|l| {
            let x = l.trim_start();
            if !l.starts_with(' ') || x.starts_with("...") || x.starts_with('}') || x.starts_with('$') {
                return format!("{l}\n");
            }
            match l.strip_suffix(" {") {
                Some(h) => format!("{h}{what} {{\n"),
                None => format!("{l}{what}\n"),
            }
        })
        .collect()
}
/// (line, from column, to column, message) of every warning a document deserves.
fn deserved(schema: &Schema, frags: &Frags, d: &Doc, deprecations: bool) -> Vec<(usize, usize, usize, String)> {
    struct W<'a> {
        schema: &'a Schema,
        frags: &'a Frags,
        dep: bool,
        k: usize,
        out: Vec<(usize, String)>,
    }
    impl W<'_> {
        fn go(&mut self, sels: &[Sel], parent: &str, poss: &[String]) {
            for x in sels {
                let k = self.k;
                self.k += 1;
                let meet = |on: &str| -> Vec<String> { self.schema.possible(on).into_iter().filter(|t| poss.contains(t)).collect() };
                match x {
                    Sel::Field { name, sels, .. } => {
                        if let Some(f) = self.schema.field(parent, name) {
                            if f.deprecated && self.dep {
                                self.out.push((k, format!("use of deprecated field `{name}` on type `{parent}`")));
                            }
                            let t = f.ty.named().to_string();
                            self.go(sels, &t, &self.schema.possible(&t));
                        }
                    }
                    Sel::Inline { on, sels } => {
                        let p = meet(on);
                        if p.is_empty() {
                            self.out.push((k, format!("fragment over narrowing with type `{on}`")));
                        }
                        self.go(sels, on, &p);
                    }
                    Sel::Spread(n) => {
                        if let Some(f) = self.frags.get(n) {
                            if meet(&f.on).is_empty() {
                                self.out.push((k, format!("fragment over narrowing with type `{}`", f.on)));
                            }
                        }
                    }
                }
            }
        }
    }
    let on = if d.kind == OpKind::Fragment { d.on.clone() } else { d.kind.root().to_string() };
    let mut w = W { schema, frags, dep: deprecations, k: 0, out: vec![] };
    w.go(&d.sels, &on, &schema.possible(&on));
    let p = d.print();
    let mut v: Vec<_> = w
        .out
        .into_iter()
        .map(|(k, m)| {
            let (l, c, end) = p.extent(&p.pos, k);
            (l, c, end, m)
        })
        .collect();
    v.sort();
    v
}
pub fn e03(r: &Report) {
    let sdl = SDL
        .replace("interface N { id: ID! s: String n: N c: N l: [N!] }", "interface N { id: ID! s: String @deprecated n: N c: N l: [N!] }")
        .replace("m: Int a: Int x: Int", "m: Int a: Int @deprecated x: Int @deprecated")
        .replace("b: Int x: String", "b: Int @deprecated x: String")
        .replace("g: [G!]! y: C }", "g: [G!]! @deprecated y: C @deprecated }")
        .replace("o: A! u: U", "o: A! @deprecated u: U @deprecated")
        .replace("type Query { id: ID a: A n: N!", "type Query { id: ID a: A @deprecated n: N!")
        .replace("interface M { id: ID! m: Int }", "interface M { id: ID! m: Int @deprecated }");
    let schema = Schema::sdl(&sdl);
    assert!(schema.field("Query", "a").unwrap().deprecated && schema.field("B", "y").unwrap().deprecated && schema.field("A", "u").unwrap().deprecated);
    let lib = library();
    let frags = frags_of(&lib);
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let al = |leaves: Vec<(&'static str, Vec<&'static str>)>, nodes: Vec<(&'static str, Vec<&'static str>)>, inlines: Vec<&'static str>, spreads: Vec<&'static str>| Alphabet { leaves, nodes, inlines, spreads, impossible: true };
    let fams = vec![
        Family { name: "narrowing to nothing", kind: OpKind::Fragment, roots: vec!["N", "U", "W", "A", "C"], al: al(vec![("*", vec!["id"])], vec![], vec!["A", "B", "C", "N", "M", "U", "W"], vec![]), quick: 5, thorough: 6 },
        Family { name: "imported fragments", kind: OpKind::Fragment, roots: vec!["U", "W", "A", "B", "C"], al: al(vec![("*", vec!["__typename"])], vec![], vec!["A", "C"], vec!["FA", "FN", "FB", "FU", "FM"]), quick: 5, thorough: 6 },
        Family { name: "nested", kind: OpKind::Fragment, roots: vec!["A", "N"], al: al(vec![("*", vec!["id"])], vec![("*", vec!["n", "u", "y"])], vec!["A", "C"], vec!["FB"]), quick: 6, thorough: 7 },
        Family { name: "deprecated leaves", kind: OpKind::Fragment, roots: vec!["N", "A", "B", "U"], al: al(vec![("*", vec!["s", "z:s", "m"]), ("A", vec!["a", "x"]), ("B", vec!["b", "x", "g"])], vec![], vec!["A", "B", "M"], vec!["FM"]), quick: 5, thorough: 6 },
        Family { name: "deprecated objects", kind: OpKind::Query, roots: vec!["Query"], al: al(vec![("*", vec!["id"]), ("A", vec!["a"])], vec![("*", vec!["a", "n", "o", "u", "y", "k:o"])], vec!["A", "B"], vec!["FA"]), quick: 6, thorough: 7 },
    ];
    let mut p = Project::new(schema.json().dump());
    p.common = common_of(&lib);
    let mut q = p.clone();
    q.args = crate::runner::args(&["--show-deprecation-warnings"]);
    let mut cfg = p.clone();
    cfg.config = Some("{\"showDeprecationWarnings\": true}".into());
    let mut total = 0;
    let mut warned = 0;
    for f in fams {
        let max = if r.thorough { f.thorough } else { f.quick };
        let mut docs = family_docs(&f, &schema, &frags, max);
        // the fragments themselves, each in a place of its own
        docs.extend(lib.iter().filter(|d| d.imports.is_empty()).cloned());
        // and any number of warnings of one file
        for k in (2..if r.thorough { 600 } else { 140 }).chain([255, 256, 257, 1025]).filter(|k| *k < 20 || k % 7 == 0 || k % 10 < 2) {
            let each = |f: &dyn Fn(usize) -> Sel| [(0..k).map(f).collect(), vec![leaf("id")]].concat();
            match f.name {
                "narrowing to nothing" => docs.push(Doc::frag("F", "A", each(&|_| crate::doc::inl("B", vec![leaf("id")])))),
                "imported fragments" => docs.push(with_imports(Doc::frag("F", "A", each(&|_| Sel::Spread("FB".into()))))),
                "deprecated leaves" => docs.push(Doc::frag("F", "A", each(&|i| crate::gen::field(&format!("k{i}:a"))))),
                _ => {}
            }
        }
        for (i, d) in docs.iter_mut().enumerate() {
            d.layout = (i % 5) as u8;
        }
        total += docs.len() * 2;
        let cases: Vec<Case> = docs.iter().map(|d| Case::one(d.text())).collect();
        let (off, w0) = run_cases(&p, &cases);
        let (on, w1) = run_cases(if f.name == "deprecated leaves" { &cfg } else { &q }, &cases);
        let bad = crate::runner::pmap(&docs, |i, d| {
            for (g, dep) in [(&off[i], false), (&on[i], true)] {
                if let Some(a) = &g.abnormal {
                    return Some(a.clone());
                }
                if let Some(e) = g.errors().first() {
                    return Some(format!("rejected: {}", e.msg));
                }
                let want = deserved(&schema, &frags, d, dep);
                let mut got: Vec<(usize, usize, String)> = g.warnings().iter().map(|x| (x.line.unwrap_or(0), x.col.unwrap_or(0), x.msg.trim_end().to_string())).collect();
                got.sort();
                let same = want.len() == got.len() && want.iter().zip(&got).all(|(w, g)| w.0 == g.0 && w.3 == g.2 && g.1 >= w.1 && g.1 <= w.2);
                if !same || g.warnings().iter().any(|x| x.file.as_deref() != Some("m.graphql")) {
                    return Some(format!("warnings {got:?} instead of {want:?} (deprecations shown: {dep})"));
                }
            }
            let (Some(a), b) = (off[i].out(), on[i].out()) else { return Some("no output".into()) };
            if Some(a) != b {
                return Some("the option changes the output".into());
            }
            judge(&m, d, a, true).err().map(|e| format!("warned of and compiled differently: {e}"))
        });
        for (i, e) in bad.into_iter().enumerate().filter_map(|(i, e)| e.map(|e| (i, e))) {
            let one = one_line(&cases[i]);
            r.violation(&format!("{one}: {}", e.lines().next().unwrap_or("")), &e, format!("{}\n{e}\n{}\n{}\n{}", f.name, cases[i].show(), off[i].show(), on[i].show()));
        }
        for w in w0.iter().chain(&w1) {
            if let Some(e) = whole_faults(w) {
                r.violation(&e, &e, w.outcome.stdout.clone());
            }
        }
        for g in &on {
            warned += g.warnings().len();
            r.outcome(&format!("{}: {} warnings", f.name, g.warnings().len()));
        }
        r.sample(format!("{}: {} documents of up to {max} nodes, e.g. {}", f.name, docs.len(), one_line(&cases[cases.len() / 2])));
    }
    // an error does not hide the narrowing warnings of its file
    let f = Family { name: "beside an error", kind: OpKind::Fragment, roots: vec!["N", "U", "A"], al: al(vec![("*", vec!["id"])], vec![("*", vec!["n"])], vec!["A", "B", "M"], vec!["FB"]), quick: 3, thorough: 4 };
    let docs: Vec<Doc> = family_docs(&f, &schema, &frags, if r.thorough { 4 } else { 3 }).into_iter().filter(|d| !deserved(&schema, &frags, d, false).is_empty()).collect();
    let mut broken = vec![];
    for d in &docs {
        for (sels, ..) in inserts(&d.sels, &d.on, &schema, &|_| vec![leaf("zz"), Sel::Spread("Zz".into())]) {
            broken.push(Doc { sels, layout: (broken.len() % 5) as u8, ..d.clone() });
        }
    }
    let cases: Vec<Case> = broken.iter().map(|d| Case::one(d.text())).collect();
    let (got, _) = run_cases(&p, &cases);
    total += cases.len();
    for ((d, c), g) in broken.iter().zip(&cases).zip(&got) {
        let mut want: Vec<(usize, String)> = deserved(&schema, &frags, d, false).into_iter().map(|w| (w.0, w.3)).collect();
        want.sort();
        let mut have: Vec<(usize, String)> = g.warnings().iter().map(|x| (x.line.unwrap_or(0), x.msg.trim_end().to_string())).collect();
        have.sort();
        if want != have || g.errors().is_empty() {
            r.violation(&format!("{}: {have:?} beside an error", one_line(c)), &format!("warnings {have:?} instead of {want:?} beside an error"), format!("{}{}", c.show(), g.show()));
        }
    }
    r.cov("warnings_met", n(warned));
    done(r, total);
}
/// How many errors and warnings, from where: the summary and the exit status must agree.
pub fn e04(r: &Report) {
    let sdl = SDL.replace("m: Int a: Int x: Int", "m: Int a: Int @deprecated x: Int");
    let schema = Schema::sdl(&sdl).json().dump();
    // names as long as the suggestions get
    let long_sdl = sdl.replacen("type Query {", &format!("type Query {{ {} ", [150, 450, 700].iter().map(|k| format!("{}: Int", long(*k))).collect::<Vec<_>>().join(" ")), 1);
    let long_schema = Schema::sdl(&long_sdl).json().dump();
    fn long(k: usize) -> String {
        format!("l{}", "ong".repeat(k))
    }
    type Mk = fn(usize) -> Vec<(String, Vec<u8>)>;


    fn each(k: usize, tag: &str, t: &str) -> Vec<(String, Vec<u8>)> {
        (0..k).map(|i| (format!("{}{tag}{i}.graphql", if i % 2 == 0 { "" } else { "sub/" }), t.as_bytes().to_vec())).collect()
    }
    // every entry makes exactly k errors
    let errs: Vec<(&str, Mk)> = vec![
        ("unknown fields, one a file", |k| each(k, "e", "query { zz }")),
        ("unknown fields in one file", |k| if k == 0 { vec![] } else { vec![("e.graphql".into(), format!("query {{ {} }}", "zz ".repeat(k)).into_bytes())] }),
        ("syntax errors", |k| each(k, "e", "query { id")),
        ("several definitions", |k| each(k, "e", "query { id } query { id }")),
        ("no definition", |k| each(k, "e", "# nothing")),
        ("missing imports", |k| each(k, "e", "#import \"none.graphql\"\nquery { id }")),
        ("missing imports in one file", |k| if k == 0 { vec![] } else { vec![("e.graphql".into(), format!("{}query {{ id }}", (0..k).map(|i| format!("#import \"none{i}.graphql\"\n")).collect::<String>()).into_bytes())] }),
        ("unknown types of variables", |k| each(k, "e", "query Q($a: Int, $v: Zz) { id }")),
        ("unknown spreads", |k| each(k, "e", "query { a { id ...Zz } }")),
        ("unknown types of fragments", |k| each(k, "e", "fragment Q on Zz { id }")),
        ("unsupported operations", |k| each(k, "e", "{ id }")),
        ("text that is no text", |k| (0..k).map(|i| (format!("e{i}.graphql"), vec![0x71, 0xff, 0xfe])).collect()),
        ("imports of operations", |k| {
            let mut v = each(k, "e", "#import \"op.graphql\"\nquery { id }");
            v.push(("op.graphql".into(), b"query { id }".to_vec()));
            v
        }),
        // messages, suggestions and source lines of any length are counted and printed
        ("long names of unknown fields", |k| (0..k).map(|i| (format!("e{i}.graphql"), format!("query {{\n  {}\n}}", "zy".repeat([70, 130, 520, 2100, 33000][i % 5])).into_bytes())).collect()),
        ("long names like those of fields", |k| (0..k).map(|i| (format!("e{i}.graphql"), format!("query {{\n  {}x\n}}", long([150, 450, 700][i % 3])).into_bytes())).collect()),
        ("long lines", |k| (0..k).map(|i| (format!("e{i}.graphql"), format!("query {{ {}zz {}}}", "id ".repeat([50, 400, 23000][i % 3]), "id ".repeat([0, 30, 25000][i / 3 % 3])).into_bytes())).collect()),
        ("far down", |k| (0..k).map(|i| (format!("e{i}.graphql"), format!("query {{{}zz }}", "\n".repeat([99, 998, 99997][i % 3])).into_bytes())).collect()),
        ("long paths", |k| (0..k).map(|i| (format!("{}/{}{i}.graphql", vec!["p".repeat(200); 4].join("/"), "e".repeat(200)), b"query {\n  zz\n}".to_vec())).collect()),
        ("long imports", |k| (0..k).map(|i| (format!("e{i}.graphql"), format!("#import \"{}none\"\nquery {{ id }}", "./".repeat([60, 300, 1500][i % 3])).into_bytes())).collect()),
        ("different kinds", |k| {
            let t = ["query { zz }", "query { id", "# nothing", "#import \"none\"\nquery { id }", "query Q($v: Zz) { id }", "{ id }", "query { id { id } }"];
            (0..k).map(|i| (format!("e{i}.graphql"), t[i % t.len()].as_bytes().to_vec())).collect()
        }),
    ];
    let warns: Vec<(&str, Mk)> = vec![
        ("narrowing, one a file", |k| each(k, "w", "query { a { id ... on B { id } } }")),
        ("narrowing in one file", |k| if k == 0 { vec![] } else { vec![("w.graphql".into(), format!("query {{ a {{ id {} }} }}", "... on B { id } ".repeat(k)).into_bytes())] }),
        ("deprecated fields, one a file", |k| each(k, "w", "query { a { a } }")),
        ("deprecated fields in one file", |k| if k == 0 { vec![] } else { vec![("w.graphql".into(), format!("query {{ a {{ {} }} }}", "a ".repeat(k)).into_bytes())] }),
        ("both kinds", |k| (0..k).map(|i| (format!("w{i}.graphql"), if i % 2 == 0 { &b"query { a { a } }"[..] } else { b"query { a { id ... on B { id } } }" }.to_vec())).collect()),
        ("narrowing beside an error", |k| if k == 0 { vec![] } else { vec![("x.graphql".into(), format!("query {{ a {{ id {} ...Zz }} }}", "... on B { id } ".repeat(k)).into_bytes())] }),
    ];
    let counts: &[usize] = if r.thorough { &[0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 21, 99, 100, 101, 111, 255, 256, 257, 300] } else { &[0, 1, 2, 3, 10, 11, 101, 256] };
    let mut cases = vec![];
    for (en, ef) in &errs {
        for (wn, wf) in &warns {
            for &e in counts {
                for &w in counts {
                    if !r.thorough && e > 3 && w > 3 {
                        continue;
                    }
                    if e.max(w) > 20 && e != 0 && w > 2 && e != 1 {
                        continue;
                    }
                    if (en.starts_with("long") || *en == "far down") && (e == 0 || e > 11 || w > 1) {
                        continue;
                    }
                    for threads in [1, 2] {
                        if threads == 2 && (e > 3 || w > 3) {
                            continue;
                        }
                        let extra = usize::from(*wn == "narrowing beside an error" && w > 0);
                        let mut files = ef(e);
                        files.extend(wf(w));
                        files.push(("ok.graphql".into(), b"query { id }".to_vec()));
                        cases.push((format!("{en} x {e}, {wn} x {w}"), files, e + extra, w, threads, vec![]));
                    }
                }
            }
        }
    }
    // errors that are not about a source file
    let glob = |v: &[&str]| crate::runner::args(v);
    for (what, extra, files, e, w) in [
        ("the global types file cannot be written", glob(&["--global-types-module-name", "none/x"]), vec![("g.graphql".to_string(), b"query { a { e } }".to_vec())], 1, 0),
        ("the global types file cannot be written, and more", glob(&["--global-types-module-name", "none/x"]), vec![("g.graphql".to_string(), b"query { a { e } }".to_vec()), ("e.graphql".to_string(), b"query { zz }".to_vec()), ("w.graphql".to_string(), b"query { a { id ... on B { id } } }".to_vec())], 2, 1),
        ("no schema", glob(&["-s", "none.json"]), vec![("w.graphql".to_string(), b"query { a { a } }".to_vec())], 1, 0),
        ("no configuration", glob(&["-c", "none.json"]), vec![("w.graphql".to_string(), b"query { a { a } }".to_vec())], 1, 0),
        ("nothing to do", vec![], vec![], 0, 0),
        ("an output is in the way", vec![], vec![("o.graphql".to_string(), b"query { id }".to_vec()), ("o.graphql.d.ts/x".to_string(), b"".to_vec())], 1, 0),
        ("two outputs are in the way", vec![], vec![("o.graphql".to_string(), b"query { id }".to_vec()), ("o.graphql.d.ts/x".to_string(), b"".to_vec()), ("p.graphql".to_string(), b"query { a { a } }".to_vec()), ("p.graphql.d.ts/x".to_string(), b"".to_vec())], 2, 1),
    ] {
        for threads in [1, 2, 3] {
            cases.push((what.to_string(), files.clone(), e, w, threads, extra.clone()));
        }
    }
    let bad = crate::runner::par(&cases, |slot, _, (what, files, e, w, threads, extra)| {
        slot.reset();
        crate::runner::put(&slot.dir, "schema.json", if what.starts_with("long names like") { &long_schema } else { &schema });
        let src = slot.dir.join("src");
        std::fs::create_dir_all(&src).unwrap();
        for (f, t) in files {
            crate::runner::put(&src, f, t);
        }
        let mut a = crate::runner::args(&["src", "--show-deprecation-warnings", "--num-threads", &threads.to_string()]);
        if !extra.iter().any(|x| x == "-s") {
            a.extend(crate::runner::args(&["-s", "schema.json"]));
        }
        a.extend(extra.clone());
        let o = slot.run(&slot.dir, &a, &Env::default());
        let d = crate::diag::parse(&o.stdout);
        let fault = o.abnormal().or_else(|| {
            if (d.errors(), d.warnings()) != (*e, *w) {
                return Some(format!("{} errors and {} warnings instead of {e} and {w}", d.errors(), d.warnings()));
            }
            let one = Whole { outcome: o.clone(), globals: None, other: vec![], range: (0, 0), err_summary: d.err_summary.clone(), warn_summary: d.warn_summary.clone() };
            whole_faults(&one).or_else(|| (d.summaries != usize::from(*e > 0) + usize::from(*w > 0)).then(|| format!("{} summaries", d.summaries)))
        });
        (fault, format!("{e} errors, {w} warnings: {:?} {:?} exit {}", d.err_summary.unwrap_or_default(), d.warn_summary.unwrap_or_default(), o.code()), o.stdout)
    });
    for ((what, files, ..), (fault, seen, text)) in cases.iter().zip(bad) {
        r.outcome(&seen);
        if let Some(e) = fault {
            let f: String = files.iter().take(12).map(|(f, t)| format!("--- {f}\n{}\n", String::from_utf8_lossy(t))).collect();
            r.violation(&format!("{what}: {e}"), &format!("{what}: {e}"), format!("{f}{text}"));
        }
    }
    r.sample(format!("{} kinds of errors x {} kinds of warnings x counts {counts:?}, on one and two threads", errs.len(), warns.len()));
    let n = printing(r, &schema);
    done(r, cases.len() + n);
}
/// The report cannot be printed, or not all of it: nobody reads any longer, or there is no room. Standard
/// output fails at every byte of the report, and takes few bytes at a time. It changes neither the exit
/// status nor any file, and what comes out is the beginning of the report.
fn printing(r: &Report, schema: &str) -> usize {
    use crate::runner::*;
    let w = "query { a { id ... on B { id } } }";
    let e = "query {\n  zz\n}\n";
    let projects: Vec<(&str, Vec<(&str, &str)>, Vec<&str>)> = vec![
        ("no message", vec![("a", "query { id }"), ("g", "query { a { e } }")], vec![]),
        ("a warning", vec![("a", "query { id }"), ("g", w)], vec![]),
        ("warnings", vec![("a", w), ("b", w), ("g", "query { a { e a } }")], vec!["--show-deprecation-warnings"]),
        ("an error", vec![("a", e), ("g", "query { a { e } }")], vec![]),
        ("errors and warnings", vec![("a", e), ("b", e), ("c", w), ("d", w), ("g", "query { a { e } }")], vec![]),
        ("an error of the globals", vec![("g", "query { a { e } }")], vec!["--global-types-module-name", "none/x"]),
        ("no schema", vec![("a", "query { id }")], vec!["--schema-path", "none.json"]),
        ("no configuration", vec![("a", "query { id }")], vec!["-c", "none.json"]),
    ];
    let step = 1;
    let install = |slot: &Slot, k: usize| {
        slot.reset();
        put(&slot.dir, "schema.json", schema);
        for (f, t) in &projects[k].1 {
            put(&slot.dir, &format!("src/{f}.graphql"), t);
        }
        let mut a = args(&["src", "--num-threads", "1"]);
        if !projects[k].2.contains(&"--schema-path") {
            a.extend(args(&["-s", "schema.json"]));
        }
        a.extend(args(&projects[k].2));
        a
    };
    let plain: Vec<(Outcome, Tree)> = pmap(&projects, |k, _| {
        let slot = Slot::new();
        let a = install(&slot, k);
        (slot.run(&slot.dir, &a, &Env::default()), tree(&slot.dir))
    });
    let (epipe, enospc, eio, eintr) = (32, 28, 5, 4);
    let mut cases = vec![];
    for (k, (o, _)) in plain.iter().enumerate() {
        for at in (0..=o.stdout.len() as u32).step_by(step) {
            cases.extend([epipe, enospc, eio, eintr].map(|n| (k, Some((at, n)), 0)));
        }
        cases.extend([1, 2, 3, 7, 64, 1023].map(|p| (k, None, p)));
    }
    let bad = par(&cases, |slot, _, (k, out_stop, out_piece)| {
        let a = install(slot, *k);
        let o = slot.run(&slot.dir, &a, &Env { out_stop: *out_stop, out_piece: *out_piece, ..Env::default() });
        let (want, files) = &plain[*k];
        let text = match out_stop {
            Some((at, n)) if *n != eintr => &want.stdout.as_bytes()[..(*at as usize).min(want.stdout.len())],
            _ => want.stdout.as_bytes(),
        };
        let e = o.abnormal().or_else(|| {
            if o.code() != want.code() {
                Some(format!("exit status {} instead of {}", o.code(), want.code()))
            } else if tree(&slot.dir) != *files {
                Some("other files".into())
            } else if out_stop.is_none_or(|s| s.1 == eintr) && o.stdout.as_bytes() != text || !text.starts_with(o.stdout.as_bytes()) {
                Some("another report".into())
            } else {
                None
            }
        });
        e.map(|e| (format!("{}: {e} when standard output {}", projects[*k].0, match out_stop {
            Some((at, n)) => format!("fails with error {n} after {at} bytes"),
            None => format!("takes {out_piece} bytes at once"),
        }), e, o))
    });
    for (key, e, o) in bad.into_iter().flatten().take(4) {
        r.violation(&key, &e, format!("{}\n{}", o.stdout, o.stderr));
    }
    r.cov("runs_with_standard_output_disturbed", crate::json::n(cases.len()));
    cases.len()
}
