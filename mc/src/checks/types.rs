//! T01, T02, T03, T05, T06: generated types against the reference semantics.
use crate::batch::*;
use crate::doc::*;
use crate::gen::*;
use crate::json::{n, J};
use crate::report::Report;
use crate::schema::*;
use crate::ts;
use crate::valid::V;
use std::collections::BTreeMap;

pub const SDL: &str = "interface N { id: ID! s: String n: N c: N l: [N!] } \
 interface M { id: ID! m: Int } \
 type A implements N & M { id: ID! s: String n: N c: A l: [N!] m: Int a: Int x: Int k: E o: A! u: U v: String! e: E y: A z: Z zs: [Z!]! } \
 type B implements N & M { id: ID! s: String n: N c: B l: [N!] m: Int b: Int x: String k: Int v: Int! g: [G!]! y: C } \
 type C implements N { id: ID! s: String n: N c: N l: [N!] q: [C] x: Int! y: B } \
 interface Z { id: ID! s: String n: N z: Z } \
 union U = A | B | C union W = A | C enum E { X Y } enum G { P Q } scalar Date \
 input I { a: Int! d: Date k: [K!] } input K { g: G i: I } \
 type Query { id: ID a: A n: N! u: [U!]! w: W d: Date } type Mutation { id: ID a: A n: N }";

/// Names that are easily taken for one another, or for something else.
pub const NAMES: [&str; 20] = [
    "a", "A", "_a", "a_", "__a", "a1", "a2", "aa", "aA", "Aa", "a_a", "_", "_1", "id", "ID", "type", "constructor", "__proto__", "null", "Query",
];
/// All pairs of names for two keys of one selection: leaves of different types, nested selections,
/// and both on an abstract type that is split.
fn pairs_of_names() -> Vec<Doc> {
    let al = |k: &str, f: &str, sub: Vec<Sel>| if sub.is_empty() { leaf(&format!("{k}:{f}")) } else { node(&format!("{k}:{f}"), sub) };
    let mut v = vec![];
    for x in NAMES {
        for y in NAMES {
            if x == y {
                continue;
            }
            v.push(Doc::frag("F", "A", vec![al(x, "s", vec![]), al(y, "id", vec![])]));
            v.push(Doc::frag("F", "A", vec![al(x, "o", vec![leaf("id")]), al(y, "n", vec![leaf("s")])]));
            v.push(Doc::frag("F", "A", vec![al(x, "n", vec![al(y, "n", vec![leaf("id")]), leaf("s")])]));
            v.push(Doc::frag("F", "N", vec![al(x, "s", vec![]), inl("A", vec![al(y, "k", vec![]), al(x, "s", vec![])]), inl("B", vec![al(y, "b", vec![])])]));
            v.push(Doc::frag("F", "A", vec![al(x, "n", vec![inl("B", vec![al(y, "b", vec![])]), inl("A", vec![al(y, "o", vec![leaf("id")])])])]));
        }
    }
    v
}
/// Selections, of one level and nested, that are larger than any written by hand.
fn many_fields(n: usize) -> Vec<Doc> {
    let f = ["s", "id", "m", "k", "v"];
    let flat: Vec<Sel> = (0..n).map(|i| leaf(&format!("f{}:{}", i * 7919 % n, f[i % 5]))).collect();
    let nested: Vec<Sel> = (0..n).map(|i| node(&format!("f{}:n", i * 7919 % n), vec![leaf(["s", "id"][i % 2])])).collect();
    let mut split: Vec<Sel> = (0..n).map(|i| leaf(&format!("f{i}:{}", ["s", "id"][i % 2]))).collect();
    split.push(inl("A", (0..n).map(|i| leaf(&format!("g{i}:{}", f[i % 5]))).collect()));
    split.extend((0..n).map(|i| inl("B", vec![leaf(&format!("h{i}:b"))])));
    let mut deep = vec![leaf("id")];
    for _ in 0..n.min(28) {
        deep = vec![node("o", deep), leaf("id")];
    }
    vec![Doc::frag("F", "A", flat), Doc::frag("F", "A", nested), Doc::frag("F", "N", split), Doc::frag("F", "A", deep)]
}

pub fn library() -> Vec<Doc> {
    vec![
        Doc::frag("FA", "A", vec![leaf("a"), leaf("id")]),
        Doc { imports: vec!["frags/fb.graphql".into()], ..Doc::frag("FN", "N", vec![leaf("id"), inl("A", vec![leaf("a")]), Sel::Spread("FB".into())]) },
        Doc::frag("FB", "B", vec![leaf("b"), node("n", vec![leaf("id")])]),
        Doc::frag("FU", "U", vec![leaf("__typename"), inl("M", vec![leaf("m")])]),
        Doc::frag("FM", "M", vec![leaf("m"), inl("A", vec![node("n", vec![leaf("s")])])]),
    ]
}
pub fn frags_of(lib: &[Doc]) -> Frags {
    lib.iter().map(|d| (d.name.clone().unwrap(), d.clone())).collect()
}
pub fn common_of(lib: &[Doc]) -> Vec<(String, String)> {
    lib.iter().map(|d| (format!("frags/{}.graphql", d.name.clone().unwrap().to_lowercase()), d.text())).collect()
}
pub fn spreads(sels: &[Sel], out: &mut std::collections::BTreeSet<String>) {
    for x in sels {
        if let Sel::Spread(n) = x {
            out.insert(n.clone());
        }
        spreads(x.sels(), out);
    }
}
/// Imports for the fragments a document spreads from the library.
pub fn with_imports(mut d: Doc) -> Doc {
    let mut s = Default::default();
    spreads(&d.sels, &mut s);
    d.imports = s.into_iter().map(|x| format!("frags/{}.graphql", x.to_lowercase())).collect();
    d
}
pub fn node_kind(d: &Doc) -> &'static str {
    d.kind.node()
}
/// Everything T01 and T05 say about one generated file.
pub fn judge(m: &Model, d: &Doc, text: &str, naming: bool) -> Result<(), String> {
    let f = ts::parse(text)?;
    let (kind, a) = f.node()?;
    let name = d.type_name();
    if naming {
        if kind != node_kind(d) {
            return Err(format!("document node {kind} instead of {}", node_kind(d)));
        }
        let vars = if d.vars.is_empty() { "never".to_string() } else { format!("{name}Variables") };
        let want: Vec<String> = if d.kind == OpKind::Fragment { vec![name.clone()] } else { vec![name.clone(), vars] };
        if a != want {
            return Err(format!("document node arguments {a:?} instead of {want:?}"));
        }
        let custom = m.naming.clone();
        let schema = m.schema;
        f.closed(&|x| schema.types.iter().any(|t| matches!(t.kind, Kind::Scalar) && custom.scalar(&t.name) == x))?;
        paths(&f, &name)?;
    }
    let t = f.get(&name).ok_or(format!("no type {name}"))?;
    let got = f.canon(t)?;
    let want = m.data(d);
    if got != want {
        return Err(format!("type of {name} is\n   {got}\n  not\n   {want}"));
    }
    match (m.variables(d), f.get(&format!("{name}Variables"))) {
        (None, None) => Ok(()),
        (Some(w), Some(t)) => {
            let g = f.canon(t)?;
            if g != w {
                return Err(format!("variables are {g} not {w}"));
            }
            Ok(())
        }
        (None, Some(_)) => Err("variables type of an operation without variables".into()),
        (Some(_), None) => Err("no variables type".into()),
    }
}
/// Type names are the paths to their selection.
fn paths(f: &ts::Module, name: &str) -> Result<(), String> {
    fn named(t: &ts::T) -> Option<&str> {
        match t {
            ts::T::Id(n, _) => Some(n),
            ts::T::Arr(x) => named(x),
            ts::T::Union(v) => v.iter().filter_map(named).next(),
            _ => None,
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    let mut todo = vec![name.to_string()];
    if f.get(&format!("{name}Variables")).is_some() {
        seen.insert(format!("{name}Variables"));
    }
    while let Some(p) = todo.pop() {
        if !seen.insert(p.clone()) {
            return Err(format!("{p} is used for two selections"));
        }
        match f.get(&p) {
            None => return Err(format!("{p} is not declared")),
            Some(ts::T::Obj(m)) => {
                for x in m {
                    if let Some(t) = named(&x.ty) {
                        if f.get(t).is_some() {
                            if t != format!("{p}_{}", x.name) {
                                return Err(format!("the selection at {p}.{} is named {t}", x.name));
                            }
                            todo.push(t.to_string());
                        }
                    }
                }
            }
            Some(ts::T::Union(v)) => {
                for x in v {
                    let ts::T::Id(t, _) = x else { return Err(format!("alternative {x:?} of {p}")) };
                    if !t.starts_with(&format!("{p}_")) {
                        return Err(format!("alternative {t} of {p}"));
                    }
                    todo.push(t.clone());
                }
            }
            Some(ts::T::Id(n, _)) if n == "never" => {}
            Some(t) => return Err(format!("{p} is {t:?}")),
        }
    }
    let all: std::collections::BTreeSet<String> = f.types.iter().map(|(n, _)| n.clone()).collect();
    if all != seen {
        return Err(format!("types without use: {:?}", all.difference(&seen).collect::<Vec<_>>()));
    }
    Ok(())
}
pub struct Family {
    pub name: &'static str,
    pub kind: OpKind,
    pub roots: Vec<&'static str>,
    pub al: Alphabet,
    pub quick: usize,
    pub thorough: usize,
}
pub fn families() -> Vec<Family> {
    let al = |leaves: Vec<(&'static str, Vec<&'static str>)>, nodes: Vec<(&'static str, Vec<&'static str>)>, inlines: Vec<&'static str>, spreads: Vec<&'static str>| Alphabet { leaves, nodes, inlines, spreads, impossible: false };
    use OpKind::*;
    vec![
        Family { name: "narrowing", kind: Fragment, roots: vec!["N", "U", "W"], al: al(vec![("*", vec!["id", "__typename"]), ("A", vec!["a"]), ("B", vec!["b"])], vec![], vec!["A", "B", "C", "N", "M", "U"], vec![]), quick: 6, thorough: 7 },
        Family { name: "same key, other type", kind: Fragment, roots: vec!["U"], al: al(vec![("*", vec!["__typename"]), ("A", vec!["x", "k"]), ("B", vec!["b", "x:b", "k"]), ("C", vec!["x"])], vec![], vec!["A", "B", "C"], vec![]), quick: 8, thorough: 9 },
        Family { name: "same key, other selection", kind: Fragment, roots: vec!["U", "N"], al: al(vec![("*", vec!["id"]), ("A", vec!["a"]), ("B", vec!["b"])], vec![("A", vec!["y"]), ("B", vec!["y"]), ("C", vec!["y"])], vec!["A", "B", "C"], vec![]), quick: 8, thorough: 9 },
        Family { name: "nested merge", kind: Fragment, roots: vec!["N"], al: al(vec![("*", vec!["id", "s"])], vec![("*", vec!["n", "c"])], vec!["A", "N"], vec![]), quick: 7, thorough: 8 },
        Family { name: "deep", kind: Fragment, roots: vec!["N"], al: al(vec![("*", vec!["id"])], vec![("*", vec!["l"])], vec!["A", "M"], vec![]), quick: 9, thorough: 10 },
        Family { name: "interfaces nothing implements", kind: Fragment, roots: vec!["Z", "A"], al: al(vec![("*", vec!["id", "s", "__typename"])], vec![("*", vec!["z", "zs", "n"])], vec!["A", "N"], vec![]), quick: 5, thorough: 7 },
        Family { name: "aliases", kind: Fragment, roots: vec!["A"], al: al(vec![("*", vec!["id", "s:id", "a", "id:a"])], vec![("*", vec!["o", "p:o", "n:o", "n"])], vec![], vec![]), quick: 6, thorough: 8 },
        Family { name: "type names", kind: Fragment, roots: vec!["N", "U"], al: al(vec![("*", vec!["__typename", "t:__typename"]), ("A", vec!["a"])], vec![("*", vec!["n"])], vec!["A", "B"], vec![]), quick: 6, thorough: 8 },
        Family { name: "spreads", kind: Fragment, roots: vec!["N", "U", "A"], al: al(vec![("*", vec!["id"])], vec![("*", vec!["n"])], vec!["A"], vec!["FA", "FN", "FB", "FU", "FM"]), quick: 6, thorough: 7 },
        Family { name: "queries", kind: Query, roots: vec!["Query"], al: al(vec![("*", vec!["id", "__typename"]), ("A", vec!["e"]), ("Query", vec!["d"])], vec![("*", vec!["n", "w", "u"])], vec!["A", "C"], vec!["FN"]), quick: 6, thorough: 8 },
        Family { name: "mutations", kind: Mutation, roots: vec!["Mutation"], al: al(vec![("*", vec!["id"])], vec![("*", vec!["n", "a"])], vec!["A", "Mutation"], vec!["FM"]), quick: 7, thorough: 8 },
    ]
}
pub fn family_docs(f: &Family, schema: &Schema, frags: &Frags, max: usize) -> Vec<Doc> {
    let mut g = Gen::new(schema, frags, f.al.clone());
    let v = V { schema, frags };
    let mut out = vec![];
    for r in &f.roots {
        for s in g.upto(r, max) {
            if !v.mergeable(r, &s) {
                continue;
            }
            let mut d = Doc::frag("F", r, s);
            d.kind = f.kind;
            if f.kind != OpKind::Fragment {
                d.name = if out.len() % 2 == 0 { Some("Op".into()) } else { None };
            }
            out.push(with_imports(d));
        }
    }
    out
}
pub fn t01(r: &Report) {
    let schema = Schema::sdl(SDL);
    let lib = library();
    let frags = frags_of(&lib);
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let mut p = Project::new(schema.json().dump());
    p.common = common_of(&lib);
    let mut total = 0;
    for f in families() {
        let max = if r.thorough { f.thorough } else { f.quick };
        let docs = family_docs(&f, &schema, &frags, max);
        total += docs.len();
        run_docs(r, &p, &m, &docs, &format!("{}, up to {max} nodes", f.name), false);
        if r.bad() > 20 {
            break;
        }
    }
    let mut docs = pairs_of_names();
    for n in [1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300] {
        docs.extend(many_fields(n));
    }
    total += docs.len();
    run_docs(r, &p, &m, &docs, "pairs of names, and large selections", false);
    total += directives(r, &p, &m, &schema, &frags);
    total += abstracts(r);
    done(r, total);
}
/// Unions and interfaces of many sets of objects, whose names are nearly the same, and of very
/// many objects: each narrowed to every one, every two, all, and all but one of them.
fn abstracts(r: &Report) -> usize {
    let long = "L".repeat(80);
    let names = ["A", "a", "Ab", "AB", "aB", "A1", "A10", "A2", "Type", &long];
    let many = [5usize, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];
    let mut sdl = String::from("type Query { id: ID } ");
    // the possible types of each abstract one
    let mut of: Vec<(String, Vec<String>, bool)> = vec![];
    for mask in 1usize..1 << names.len() {
        let k = mask.count_ones() as usize;
        if k <= 3 || k == names.len() || (r.thorough && k == 4) {
            let mut v: Vec<String> = (0..names.len()).filter(|i| mask >> i & 1 != 0).map(|i| names[i].to_string()).collect();
            if mask % 3 == 1 {
                v.reverse();
            }
            of.push((format!("X{mask}"), v, k == 2 || mask % 5 == 0));
        }
    }
    for n in many {
        for face in [false, true] {
            of.push((format!("{}{n}", if face { "MI" } else { "MU" }), (0..n).map(|i| format!("O{}", i * 37 % 307)).collect(), face));
        }
    }
    let mut has: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (u, v, face) in &of {
        for o in v {
            let e = has.entry(o.clone()).or_default();
            if *face {
                e.push(u.clone());
            }
        }
        sdl.push_str(&if *face { format!("interface {u} {{ id: ID! s: String }} ") } else { format!("union {u} = {} ", v.join(" | ")) });
    }
    for (o, i) in &has {
        let imp = if i.is_empty() { String::new() } else { format!("implements {} ", i.join(" & ")) };
        sdl.push_str(&format!("type {o} {imp}{{ id: ID! s: String n: Int! }} "));
    }
    let schema = Schema::sdl(&sdl);
    let frags = Frags::new();
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let p = Project::new(schema.json().dump());
    let mut docs = vec![];
    let f = ["id", "s", "n"];
    for (u, v, face) in &of {
        let own: Vec<Vec<Sel>> = if *face { vec![vec![leaf("__typename")], vec![leaf("id")]] } else { vec![vec![leaf("__typename")], vec![leaf("k:__typename")]] };
        for (oi, own) in own.into_iter().enumerate() {
            let mut put = |more: Vec<Sel>| {
                let mut sels = own.clone();
                // both before and after what all have
                if more.len() % 2 == 1 && oi == 1 {
                    sels.splice(0..0, more);
                } else {
                    sels.extend(more);
                }
                docs.push(Doc::frag("F", u, sels));
            };
            put(vec![]);
            let few: Vec<&String> = if v.len() > 10 { vec![&v[0], &v[1], &v[v.len() / 2], &v[v.len() - 1]] } else { v.iter().collect() };
            for x in &few {
                put(vec![inl(x, vec![leaf("n")])]);
                for y in &few {
                    if x != y {
                        put(vec![inl(x, vec![leaf("n")]), inl(y, vec![leaf("s")])]);
                        put(vec![inl(x, vec![leaf("n")]), inl(y, vec![leaf("n")])]);
                    }
                }
                put(v.iter().filter(|y| y != x).map(|y| inl(y, vec![leaf("n")])).collect());
                put(v.iter().map(|y| inl(y, vec![leaf(if y == *x { "s" } else { "n" })])).collect());
            }
            put(v.iter().map(|y| inl(y, vec![leaf("n")])).collect());
            put(v.iter().rev().map(|y| inl(y, vec![leaf("id"), leaf("n")])).collect());
            put(v.iter().enumerate().map(|(i, y)| inl(y, vec![leaf(f[i % 3])])).collect());
            put(v.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, y)| inl(y, vec![leaf("n")])).collect());
            if v.len() == 2 || v.len() == 9 {
                put(vec![inl(u, v.iter().map(|y| inl(y, vec![leaf("n")])).collect())]);
            }
        }
    }
    run_docs(r, &p, &m, &docs, "abstract types of many sets of objects", false);
    docs.len()
}
/// The coverage every document enumeration reports: one state and one replay on qlc per document.
pub fn done(r: &Report, total: usize) {
    r.count("documents", total);
    r.count("states", total);
    r.count("transitions", total);
    r.count("traces_validated_against_impl", total);
    r.cov("exhaustive", J::Bool(true));
}
/// @skip and @include at every selection of every small query.
fn directives(r: &Report, p: &Project, m: &Model, schema: &Schema, frags: &Frags) -> usize {
    let f = Family {
        name: "directives",
        kind: OpKind::Query,
        roots: vec!["Query"],
        al: Alphabet { leaves: vec![("*", vec!["id"])], nodes: vec![("*", vec!["n", "a"])], inlines: vec!["A"], spreads: vec!["FA"], impossible: false },
        quick: 3,
        thorough: 4,
    };
    let docs = family_docs(&f, schema, frags, if r.thorough { 4 } else { 3 });
    let mut cases = vec![];
    for d in &docs {
        let pr = d.print();
        for (line, col) in &pr.pos {
            for dir in ["@include(if: $c)", "@skip(if: $c)"] {
                let mut v: Vec<String> = pr.text.lines().map(|x| x.to_string()).collect();
                let l = &mut v[line - 1];
                let (head, tail) = match l.find(" {") {
                    Some(i) => (l[..i].to_string(), l[i..].to_string()),
                    None => (l.clone(), String::new()),
                };
                let place = match head[col - 1..].strip_prefix("...") {
                    Some(t) if t.starts_with(" on ") => "an inline fragment",
                    Some(_) => "a fragment spread",
                    None => "a field",
                };
                *l = format!("{head} {dir}{tail}");
                let i = v.iter().position(|x| x.starts_with("query")).unwrap();
                v[i] = v[i].replacen(" {", "($c: Boolean!) {", 1);
                cases.push((d.clone(), place, dir, Case::one(v.join("\n"))));
            }
        }
    }
    let cs: Vec<Case> = cases.iter().map(|c| c.3.clone()).collect();
    let (got, _) = run_cases(p, &cs);
    for ((d, place, dir, c), g) in cases.iter().zip(&got) {
        let mut dv = d.clone();
        dv.vars = vec![("c".into(), Ty::parse("Boolean!"))];
        let e = match (&g.abnormal, g.errors().first(), g.out()) {
            (Some(a), _, _) => a.clone(),
            (_, Some(e), _) => format!("rejected: {}", e.msg),
            (_, _, None) => "no output".into(),
            (_, _, Some(t)) => {
                let plain = t.replace("?:", ":");
                match judge(m, &dv, &plain, false) {
                    Err(e) => e,
                    Ok(()) if plain != t => continue,
                    Ok(()) => {
                        let word = dir.split('(').next().unwrap();
                        r.violation(&format!("{word} on {place}: the selected property is not optional"), "a conditional property is not optional", format!("{}{}", c.show(), g.show()));
                        continue;
                    }
                }
            }
        };
        r.violation(&format!("{}: {}", one_line(c), e.lines().next().unwrap_or("")), &e, format!("directives\n{}{e}\n{}", c.show(), g.show()));
    }
    r.cov("documents_with_directives", n(cases.len()));
    cases.len()
}
/// Every chain of wrappers in every position.
/// Chains too long for all of them: every length, each either of one kind or of two kinds that
/// alternate, with at most one level, or everything from one level on, being of the other kind.
fn long_chains(r: &Report, from: usize, to: usize) -> usize {
    let mut kinds: Vec<Vec<bool>> = vec![];
    for len in from..=to {
        for base in [0b00usize, 0b11, 0b01, 0b10] {
            let b = |i: usize| (base >> (i & 1)) & 1 == 1;
            kinds.push((0..=len).map(b).collect());
            for k in 0..=len {
                kinds.push((0..=len).map(|i| b(i) != (i == k)).collect());
                kinds.push((0..=len).map(|i| b(i) != (i >= k)).collect());
            }
        }
    }
    kinds.sort();
    kinds.dedup();
    let ty = |named: &str, k: &[bool]| {
        let mut t = named.to_string();
        for (i, nn) in k.iter().enumerate() {
            if i > 0 {
                t = format!("[{t}]");
            }
            if *nn {
                t.push('!');
            }
        }
        t
    };
    let frags = Frags::new();
    let mut sdl = String::from("union U = A | B scalar Date enum E { X Y } type Query { a: A } type B { id: ID } ");
    let (mut a, mut i) = (String::from("type A { id: ID "), String::from("input I { "));
    let mut docs = vec![];
    for (j, k) in kinds.iter().enumerate() {
        let base = ["String", "Date", "E", "A", "U"][j % 5];
        a.push_str(&format!("f{j}: {} ", ty(base, k)));
        let sub = match base {
            "A" => vec![leaf("id")],
            "U" => vec![inl("A", vec![leaf("id")])],
            _ => vec![],
        };
        docs.push(Doc::frag("F", "A", vec![node(&format!("f{j}"), sub)]));
        let base = ["Int", "E", "I"][j % 3];
        i.push_str(&format!("f{j}: {} ", ty(base, k)));
    }
    sdl.push_str(&format!("{a}}} {i}}}"));
    let schema = Schema::sdl(&sdl);
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let mut p = Project::new(schema.json().dump());
    run_docs(r, &p, &m, &docs, &format!("{from} to {to} lists"), false);
    p.per_batch = 1;
    let mut d = Doc::query("Q", vec![node("a", vec![leaf("id")])]);
    d.vars = vec![("v".into(), Ty::parse("I"))];
    let (got, w) = run_cases(&p, &[Case::one(d.text())]);
    let want = m.globals_file(&["I".to_string()].into_iter().collect());
    match w.first().and_then(|w| w.globals.clone()).ok_or("no global types file".to_string()).and_then(|g| ts::parse(&g)?.globals()) {
        Ok(g) if g.get("I") == want.get("I") => {}
        Ok(_) => r.violation(&format!("input fields of {from} to {to} lists differ"), "long chains in input objects", got[0].show()),
        Err(e) => r.violation(&e, &e, got[0].show()),
    }
    docs.len() * 2
}
pub fn t02(r: &Report) {
    let depth = if r.thorough { 9 } else { 6 };
    let mut total = 0;
    let frags = Frags::new();
    // result positions: one field per chain and kind of named type, on the object and on its interface
    let bases = ["String", "Date", "E", "A", "N", "U"];
    let mut sdl = String::from("union U = A | B scalar Date enum E { X Y } type Query { n: N } ");
    let mut fields = String::new();
    let mut list = vec![];
    for b in bases {
        for (i, c) in Ty::chains(b, depth).into_iter().enumerate() {
            fields.push_str(&format!("{b}{i}: {} ", c.sdl()));
            list.push((format!("{b}{i}"), b));
        }
    }
    sdl.push_str(&format!("interface N {{ id: ID {fields} }} type A implements N {{ id: ID aa: Int {fields} }} type B implements N {{ id: ID bb: Int {fields} }} "));
    // input positions: one field per chain and kind
    let mut inp = vec![];
    let mut ifields = String::new();
    for b in ["Int", "Date", "E", "K", "I"] {
        for (i, c) in Ty::chains(b, depth).into_iter().enumerate() {
            ifields.push_str(&format!("{b}{i}: {} ", c.sdl()));
            inp.push(c);
        }
    }
    sdl.push_str(&format!("input K {{ k: Int }} input I {{ {ifields} }} "));
    let schema = Schema::sdl(&sdl);
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let p = Project::new(schema.json().dump());
    let mut docs = vec![];
    let sub = |b: &str| -> Vec<Vec<Sel>> {
        match b {
            "A" => vec![vec![leaf("aa")]],
            // one common type; a union of a named and another type
            "N" => vec![vec![leaf("id")], vec![leaf("id"), inl("A", vec![leaf("aa")])]],
            "U" => vec![vec![inl("A", vec![leaf("aa")]), inl("B", vec![leaf("bb")])]],
            _ => vec![vec![]],
        }
    };
    for (f, b) in &list {
        for s in sub(b) {
            docs.push(Doc::frag("F", "A", vec![node(f, s.clone())]));
            docs.push(Doc::frag("F", "N", vec![node(f, s.clone()), inl("B", vec![leaf("bb")])]));
        }
    }
    // two chains side by side and one under the other
    let short: Vec<&(String, &str)> = list.iter().filter(|(f, b)| f[b.len()..].parse::<usize>().unwrap() < if r.thorough { 30 } else { 14 }).collect();
    for (f, b) in &short {
        for (g, c) in &short {
            if *b == "A" && f != g {
                docs.push(Doc::frag("F", "A", vec![node(f, vec![node(g, sub(c)[0].clone())]), node(g, sub(c)[0].clone())]));
            } else if f < g {
                docs.push(Doc::frag("F", "A", vec![node(f, sub(b)[0].clone()), node(g, sub(c)[0].clone())]));
            }
        }
    }
    total += docs.len();
    run_docs(r, &p, &m, &docs, &format!("result fields, up to {depth} lists"), false);
    total += long_chains(r, depth + 1, if r.thorough { 40 } else { 24 });
    // variables: one list level is supported, more is refused where the variable stands
    let mut cases = vec![];
    for b in ["Int", "ID", "Date", "E", "K", "I"] {
        for c in Ty::chains(b, 3) {
            let mut d = Doc::query("Q", vec![node("n", vec![leaf("id")])]);
            d.vars = vec![("ok".into(), Ty::parse("Int")), ("v".into(), c)];
            cases.push(d);
        }
    }
    let cs: Vec<Case> = cases.iter().map(|d| Case::one(d.text())).collect();
    let (got, _) = run_cases(&p, &cs);
    total += cases.len();
    for ((d, c), g) in cases.iter().zip(&cs).zip(&got) {
        let ty = &d.vars[1].1;
        let pos = d.print().var_pos[1];
        let e = if let Some(a) = &g.abnormal {
            Some(a.clone())
        } else if ty.lists() <= 1 {
            match (g.errors().first(), g.out()) {
                (Some(e), _) => Some(format!("rejected: {}", e.msg)),
                (None, None) => Some("no output".into()),
                (None, Some(t)) => judge(&m, d, t, true).err(),
            }
        } else if let Some(t) = g.out() {
            // support would be welcome, a wrong type is not
            judge(&m, d, t, true).err().map(|e| format!("list of lists changed silently: {e}"))
        } else {
            match g.errors().as_slice() {
                [e] if e.file.as_deref() == Some("m.graphql") && e.line == Some(pos.0) => None,
                x => Some(format!("a list of lists is refused without a proper error: {x:?}")),
            }
        };
        if let Some(e) = e {
            r.violation(&format!("variable of type {}: {}", ty.sdl(), e.lines().next().unwrap_or("")), &e, format!("{}{}", c.show(), g.show()));
        }
    }
    // input object fields, through the global types file
    total += inp.len();
    let mut p1 = p.clone();
    p1.per_batch = 1;
    let mut d = Doc::query("Q", vec![node("n", vec![leaf("id")])]);
    d.vars = vec![("v".into(), Ty::parse("I"))];
    let (got, w) = run_cases(&p1, &[Case::one(d.text())]);
    let want = m.globals_file(&["I".to_string()].into_iter().collect());
    match w.first().and_then(|w| w.globals.clone()).ok_or("no global types file".to_string()).and_then(|g| ts::parse(&g)?.globals()) {
        Err(e) => r.violation(&e, &e, got[0].show()),
        Ok(g) => {
            for k in ["I", "K", "E"] {
                if g.get(k) != want.get(k) {
                    let (a, b) = (g.get(k).cloned().unwrap_or_default(), want.get(k).cloned().unwrap_or_default());
                    let diff: Vec<(String, String)> = a.split(';').map(str::to_string).zip(b.split(';').map(str::to_string)).filter(|(x, y)| x != y).take(3).collect();
                    r.violation(&format!("input object {k}: {diff:?}"), "input object fields differ", format!("got, want: {diff:?}\n{a}\n{b}"));
                }
            }
        }
    }
    r.sample(format!("{} wrapper chains with up to {depth} lists around each of {bases:?}; {} in input objects; {} variables", list.len() / bases.len(), inp.len(), cases.len()));
    done(r, total);
}
const VBASE: [&str; 8] = ["Int", "Float", "ID", "String", "Boolean", "Date", "E", "I"];
pub fn t03(r: &Report) {
    let schema = Schema::sdl(SDL);
    let frags = Frags::new();
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let p = Project::new(schema.json().dump());
    let mut types: Vec<Ty> = vec![];
    for b in VBASE {
        types.extend(Ty::chains(b, 1));
    }
    let few: Vec<Ty> = ["Int", "Int!", "[E]", "[E!]!", "I", "[Date!]", "Boolean!", "K!"].iter().map(|t| Ty::parse(t)).collect();
    let mut docs = vec![];
    let mk = |kind: OpKind, name: Option<&str>, vars: Vec<(&str, Ty)>| {
        let mut d = Doc::query("Q", vec![leaf("id")]);
        d.kind = kind;
        d.name = name.map(|x| x.to_string());
        d.vars = vars.into_iter().map(|(a, t)| (a.to_string(), t)).collect();
        d
    };
    for kind in [OpKind::Query, OpKind::Mutation] {
        for name in [Some("Q"), Some("my_Op2"), None] {
            docs.push(mk(kind, name, vec![]));
            for t in &types {
                for v in ["a", "_b", "C1", "input", "readonly", "type"] {
                    docs.push(mk(kind, name, vec![(v, t.clone())]));
                }
            }
        }
    }
    for a in &types {
        for b in &types {
            for (x, y) in [("a", "b"), ("b", "a"), ("B", "a")] {
                docs.push(mk(OpKind::Query, Some("Q"), vec![(x, a.clone()), (y, b.clone())]));
            }
        }
    }
    let names = ["a", "b", "c"];
    let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let three = if r.thorough { &types } else { &few };
    for a in three {
        for b in &few {
            for c in &few {
                for q in perms {
                    docs.push(mk(OpKind::Mutation, Some("Q"), vec![(names[q[0]], a.clone()), (names[q[1]], b.clone()), (names[q[2]], c.clone())]));
                }
            }
        }
    }
    if r.thorough {
        for a in &few {
            for b in &few {
                for c in &few {
                    for d in &few {
                        docs.push(mk(OpKind::Query, Some("Q"), vec![("w", a.clone()), ("b", b.clone()), ("_", c.clone()), ("B", d.clone())]));
                    }
                }
            }
        }
    }
    for kind in [OpKind::Query, OpKind::Mutation, OpKind::Subscription] {
        for x in NAMES {
            for y in NAMES {
                if x != y {
                    docs.push(mk(kind, Some("Q"), vec![(x, Ty::parse("Int!")), (y, Ty::parse("[E]"))]));
                    for z in if r.thorough { &NAMES[..] } else { &NAMES[..6] } {
                        if *z != x && *z != y {
                            docs.push(mk(kind, None, vec![(x, Ty::parse("Int!")), (y, Ty::parse("[E]")), (*z, Ty::parse("ID"))]));
                        }
                    }
                }
            }
        }
    }
    for n in [5usize, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300] {
        let names: Vec<String> = (0..n).map(|i| format!("v{}", i * 7919 % n)).collect();
        docs.push(mk(OpKind::Query, Some("Q"), (0..n).map(|i| (names[i].as_str(), types[i % types.len()].clone())).collect()));
    }
    let mut total = docs.len();
    run_docs(r, &p, &m, &docs, "variables", true);
    // default values and layout do not matter; order of declaration does not change the file
    let mut cases = vec![];
    let mut want = vec![];
    for (t, dv) in [("Int", "= 3"), ("Int", "= null"), ("Int!", "= 3"), ("E", "= X"), ("E!", "= X"), ("[Int!]", "= [1, 2]"), ("String!", "= \"a $b: Int b\""), ("I", "= {a: 1, k: []}"), ("I!", "= {a: 1, d: \"x\"}")] {
        for t2 in &few {
            for (pre, sep) in [("", ", "), ("", "\n"), ("# $x: Int\n", " "), ("\n", ",,\n  ")] {
                let mut d = Doc::query("Q", vec![leaf("id")]);
                d.vars = vec![("v".into(), Ty::parse(t)), ("u".into(), t2.clone())];
                cases.push(Case::one(format!("query Q({pre}$v: {t} {dv}{sep}$u: {}) {{ id }}", t2.sdl())));
                want.push(d.clone());
                cases.push(Case::one(format!("query Q({pre}$u: {}{sep}$v: {t} {dv}) {{ id }}", t2.sdl())));
                want.push(d);
            }
        }
    }
    total += cases.len();
    let (got, _) = run_cases(&p, &cases);
    for i in 0..cases.len() {
        let e = match (&got[i].abnormal, got[i].errors().first(), got[i].out()) {
            (Some(a), _, _) => Some(a.clone()),
            (_, Some(e), _) => Some(format!("rejected: {}", e.msg)),
            (_, _, None) => Some("no output".into()),
            (_, _, Some(t)) if i % 2 == 1 && Some(t) != got[i - 1].out() => Some("the order of declaration changes the file".into()),
            (_, _, Some(t)) => judge(&m, &want[i], t, true).err(),
        };
        if let Some(e) = e {
            r.violation(&format!("{}: {}", one_line(&cases[i]), e.lines().next().unwrap_or("")), &e, format!("{}{}", cases[i].show(), got[i].show()));
        }
    }
    done(r, total);
}
pub fn t05(r: &Report) {
    let schema = Schema::sdl(SDL);
    let lib = library();
    let frags = frags_of(&lib);
    let mut total = 0;
    for (naming, a) in [
        (Naming::default(), vec![]),
        (Naming { custom: true, prefix: None }, vec!["--use-custom-scalars"]),
        (Naming { custom: true, prefix: Some("GQL_".into()) }, vec!["--use-custom-scalars", "--custom-scalar-prefix", "GQL_"]),
    ] {
        let m = Model { schema: &schema, frags: &frags, naming };
        let mut p = Project::new(schema.json().dump());
        p.common = common_of(&lib);
        p.args = crate::runner::args(&a);
        for f in families() {
            let max = if r.thorough { f.quick } else { f.quick - 1 };
            if !a.is_empty() && !r.thorough && !matches!(f.kind, OpKind::Query) {
                continue;
            }
            let docs = family_docs(&f, &schema, &frags, max);
            total += docs.len();
            run_docs(r, &p, &m, &docs, &format!("{} {a:?}, up to {max} nodes", f.name), true);
        }
        // enums in results together with variables of every kind
        let mut docs = vec![];
        for vars in 0..64usize {
            for sel in 0..8usize {
                for kind in [OpKind::Query, OpKind::Mutation, OpKind::Subscription] {
                    let mut d = Doc::query("Op", vec![]);
                    d.kind = kind;
                    d.name = if sel % 2 == 0 { Some("Op".into()) } else { None };
                    for (i, (v, t)) in [("a", "E!"), ("b", "I"), ("c", "[G!]"), ("d", "Date"), ("e", "K"), ("f", "Int")].iter().enumerate() {
                        if vars & (1 << i) != 0 {
                            d.vars.push((v.to_string(), Ty::parse(t)));
                        }
                    }
                    let mut s = vec![leaf("id")];
                    if sel & 1 != 0 {
                        s.push(leaf("e"));
                    }
                    if sel & 2 != 0 {
                        s.push(node("n", vec![inl("B", vec![leaf("g")])]));
                    }
                    if sel & 4 != 0 {
                        s.push(node("o", vec![leaf("k")]));
                    }
                    d.sels = vec![node("a", s)];
                    docs.push(d);
                }
            }
        }
        total += docs.len();
        run_docs(r, &p, &m, &docs, &format!("global types in results and variables {a:?}"), true);
    }
    total += names(r, &schema, &frags);
    total += alike(r);
    total += long_names(r, &schema, &frags);
    done(r, total);
}
/// Names of any length, which differ in their first or their last letter, beside and below each other.
fn long_names(r: &Report, schema: &Schema, frags: &Frags) -> usize {
    let m = Model { schema, frags, naming: Naming::default() };
    let p = Project::new(schema.json().dump());
    let mut docs = vec![];
    let max = if r.thorough { 1100 } else { 300 };
    for len in 1..=max {
        let long = "k".repeat(len);
        for (x, y) in [(format!("{long}a"), format!("{long}b")), (format!("a{long}"), format!("b{long}"))] {
            let al = |k: &str, f: &str, s: Vec<Sel>| node(&format!("{k}:{f}"), s);
            docs.push(Doc::frag("F", "A", vec![al(&x, "n", vec![leaf("id"), inl("A", vec![leaf("a")])]), al(&y, "n", vec![leaf("__typename")]), leaf("id")]));
            docs.push(Doc::frag("F", "A", vec![al(&x, "n", vec![al(&y, "n", vec![leaf("id")]), al(&x, "n", vec![leaf("__typename")])]), crate::gen::field(&format!("{y}:id"))]));
            docs.push(Doc::frag("F", "A", vec![al(&long, "n", vec![al(&x, "n", vec![al("m", "n", vec![leaf("id")])]), al(&y, "n", vec![al("m", "n", vec![leaf("__typename")])])])]));
            if len <= 200 {
                docs.push(Doc::frag(&x, "A", vec![node("n", vec![leaf("id")]), crate::gen::field(&format!("{y}:id"))]));
            }
            let mut d = Doc::query(&x[..x.len().min(200)], vec![node("a", vec![leaf("id")])]);
            d.vars = vec![(x.clone(), Ty::parse("Int")), (y.clone(), Ty::parse("String!"))];
            docs.push(d);
        }
    }
    run_docs(r, &p, &m, &docs, "names of any length", true);
    docs.len()
}
/// Global types whose names differ by little, every subset of them in use.
fn alike(r: &Report) -> usize {
    let schema = Schema::sdl("enum Color { A } enum COLOR { B } enum color { C } enum Colors { D } enum _Color { E } input Filter { a: Int } input filter { c: COLOR } input Color_ { id: ID } \
        type Query { a: Color b: COLOR c: color d: Colors e: _Color id: ID }");
    let frags = Frags::new();
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let p = Project::new(schema.json().dump());
    let mut docs = vec![];
    for set in 0..256usize {
        for vars in [false, true] {
            let mut d = Doc::query("Op", vec![leaf("id")]);
            for (i, (f, t)) in [("a", "Color"), ("b", "COLOR"), ("c", "color"), ("d", "Colors"), ("e", "_Color"), ("", "Filter"), ("", "filter"), ("", "Color_")].iter().enumerate() {
                if set & (1 << i) == 0 {
                } else if vars || f.is_empty() {
                    d.vars.push((format!("v{i}"), Ty::parse(t)));
                } else {
                    d.sels.push(leaf(f));
                }
            }
            docs.push(d);
        }
    }
    run_docs(r, &p, &m, &docs, "global types with names that are alike", true);
    docs.len() + crowds_of_globals(r)
}
/// As many global types in one file as there may be.
fn crowds_of_globals(r: &Report) -> usize {
    let most = if r.thorough { 1100 } else { 300 };
    let mut sdl = String::new();
    for i in 0..most {
        sdl.push_str(&format!("enum En{i} {{ A }} input In{i} {{ a: Int }} "));
    }
    sdl.push_str(&format!("type Query {{ id: ID {} }}", (0..most).map(|i| format!("e{i}: En{i} ")).collect::<String>()));
    let schema = Schema::sdl(&sdl);
    let frags = Frags::new();
    let m = Model { schema: &schema, frags: &frags, naming: Naming::default() };
    let p = Project::new(schema.json().dump());
    let mut docs = vec![];
    for count in (1..=most).filter(|c| *c < 140 || c % 16 < 2 || c % 100 == 0) {
        for kind in 0..3 {
            let mut d = Doc::query("Op", vec![leaf("id")]);
            for i in 0..count {
                if kind == 0 || kind == 2 && i % 2 == 0 {
                    d.sels.push(leaf(&format!("e{i}")));
                } else {
                    d.vars.push((format!("v{i}"), Ty::parse(&format!("{}{i}", ["In", "En"][i % 2]))));
                }
            }
            docs.push(d);
        }
    }
    run_docs(r, &p, &m, &docs, "many global types", true);
    docs.len()
}
/// Names: aliases with underscores, names of operations that mean something in TypeScript or the file.
fn names(r: &Report, schema: &Schema, frags: &Frags) -> usize {
    let m = Model { schema, frags, naming: Naming::default() };
    let p = Project::new(schema.json().dump());
    let f = Family {
        name: "underscores",
        kind: OpKind::Fragment,
        roots: vec!["A"],
        al: Alphabet { leaves: vec![("*", vec!["id"]), ("A", vec!["a"])], nodes: vec![("*", vec!["n", "n_n:n", "o", "n_A:o"])], inlines: vec!["A"], spreads: vec![], impossible: false },
        quick: 5,
        thorough: 6,
    };
    let mut docs = family_docs(&f, schema, frags, if r.thorough { 6 } else { 5 });
    docs.extend(pairs_of_names());
    for n in [3, 10, 33, 65, 129, 257] {
        docs.extend(many_fields(n));
    }
    for name in ["a", "_", "_a", "A1", "a_b", "F_n", "Query", "Variables", "graphqlDocument", "N", "A", "E", "G", "I", "Date", "type", "export", "readonly", "string", "number", "any", "boolean", "QueryDocumentNode", "FragmentDocumentNode", "null", "true", "on_", "fragment", "query"] {
        for sels in [vec![leaf("id")], vec![leaf("e"), leaf("id")], vec![node("n", vec![leaf("id"), inl("A", vec![leaf("e"), leaf("a")])])]] {
            docs.push(Doc::frag(name, "A", sels.clone()));
            docs.push(Doc::query(name, vec![node("a", sels.clone())]));
            let mut d = Doc::query(name, vec![node("a", sels.clone())]);
            d.vars = vec![("i".into(), Ty::parse("I")), ("v".into(), Ty::parse("[G]"))];
            docs.push(d);
        }
    }
    let cases: Vec<Case> = docs.iter().map(|d| Case::one(d.text())).collect();
    let (got, _) = run_cases(&p, &cases);
    for ((d, c), g) in docs.iter().zip(&cases).zip(&got) {
        let e = match (&g.abnormal, g.errors().first(), g.out()) {
            (Some(a), _, _) => a.clone(),
            (_, Some(e), _) => format!("rejected: {}", e.msg),
            (_, _, None) => "no output".into(),
            (_, _, Some(t)) => match judge(&m, d, t, true) {
                Ok(()) => continue,
                Err(e) => e,
            },
        };
        // the naming scheme itself makes two types one: recorded findings, by the kind of clash
        let mut v = vec![];
        path_names(schema, &d.type_name(), &d.sels, &mut v);
        v.sort();
        let dup = v.windows(2).any(|w| w[0] == w[1]);
        let name = d.type_name();
        let globals = m.globals(d);
        let key = if dup && (e.contains("times") || e.contains("used for two selections") || e.contains("is named")) {
            "aliases with underscores: two selections get the same type name".to_string()
        } else if globals.contains(&name) && (e.contains("times") || e.contains("is not declared")) {
            "an operation or fragment named like an enum or input object it uses".to_string()
        } else if (name == d.kind.node()) && e.contains("times") {
            "an operation or fragment named like its document node type".to_string()
        } else if matches!(name.as_str(), "string" | "number" | "any" | "boolean" | "null" | "true" | "type" | "export") && (e.contains("shadows") || e.contains("no type") || e.contains("recursive type") || e.contains("document node")|| e.contains("is not declared")) {
            "an operation or fragment with a name reserved in TypeScript".to_string()
        } else {
            format!("{}: {}", one_line(c), e.lines().next().unwrap_or(""))
        };
        r.violation(&key, &e, format!("{}{e}\n{}", c.show(), g.show()));
    }
    docs.len()
}
/// All type names the naming scheme may give: possibilities are included whether or not they are split off.
fn path_names(schema: &Schema, path: &str, sels: &[Sel], out: &mut Vec<String>) {
    let mut subs: BTreeMap<String, Vec<Sel>> = BTreeMap::new();
    let mut poss = std::collections::BTreeSet::new();
    fn go(schema: &Schema, sels: &[Sel], subs: &mut BTreeMap<String, Vec<Sel>>, poss: &mut std::collections::BTreeSet<String>) {
        for s in sels {
            match s {
                Sel::Field { sels, .. } if !sels.is_empty() => subs.entry(s.key().unwrap().into()).or_default().extend(sels.iter().cloned()),
                Sel::Inline { on, sels } => {
                    poss.extend(schema.possible(on));
                    go(schema, sels, subs, poss);
                }
                _ => {}
            }
        }
    }
    go(schema, sels, &mut subs, &mut poss);
    out.push(path.to_string());
    for (k, v) in &subs {
        path_names(schema, &format!("{path}_{k}"), v, out);
    }
    for c in poss {
        out.push(format!("{path}_{c}"));
        for (k, v) in &subs {
            path_names(schema, &format!("{path}_{c}_{k}"), v, out);
        }
    }
}
/// Rewritings that must not show in the output.
pub fn t06(r: &Report) {
    let schema = Schema::sdl(SDL);
    let lib = library();
    let frags = frags_of(&lib);
    let mut p = Project::new(schema.json().dump());
    p.common = common_of(&lib);
    let all: Vec<String> = lib.iter().map(|d| format!("frags/{}.graphql", d.name.clone().unwrap().to_lowercase())).collect();
    // a file that only passes the others on, and a chain of two
    let mut hub = Doc::frag("Hub", "A", vec![leaf("id")]);
    hub.imports = all.clone();
    p.common.push(("frags/hub.graphql".into(), hub.text()));
    let mut hub2 = Doc::frag("Hub2", "A", vec![leaf("id")]);
    hub2.imports = vec!["frags/hub.graphql".into()];
    p.common.push(("frags/hub2.graphql".into(), hub2.text()));
    let fams = [
        ("spreads", 5, 6),
        ("nested merge", 5, 6),
        ("queries", 5, 6),
        ("type names", 5, 6),
        ("same key, other type", 5, 6),
        ("narrowing", 5, 6),
        ("deep", 6, 7),
        ("aliases", 5, 6),
    ];
    let mut total = 0;
    let mut variants = 0;
    for f in families() {
        let Some((_, q, t)) = fams.iter().find(|x| x.0 == f.name) else { continue };
        let max = if r.thorough { *t } else { *q };
        let docs = family_docs(&f, &schema, &frags, max);
        for chunk in docs.chunks(3000) {
            let mut cases = vec![];
            let mut of = vec![];
            for (i, d) in chunk.iter().enumerate() {
                cases.push(Case::one(d.text()));
                of.push((i, "itself"));
                let root = if d.kind == OpKind::Fragment { d.on.clone() } else { d.kind.root().to_string() };
                let mut push = |d2: Doc, what: &'static str| {
                    if d2 != *d {
                        cases.push(Case::one(d2.text()));
                        of.push((i, what));
                    }
                };
                let with = |s: Vec<Sel>| Doc { sels: s, ..d.clone() };
                for s in permutations(&d.sels) {
                    push(with(s), "reordered");
                }
                push(with(reverse(&d.sels)), "reversed at every level");
                push(with(inline_spreads(&d.sels, &frags, 9)), "spreads written out");
                push(with(inline_spreads(&d.sels, &frags, 1)), "outer spreads written out");
                let mut k = 0;
                while let Some(s) = edit_at(&d.sels, &root, &schema, k, &|x, _| vec![x.clone(), x.clone()]) {
                    push(with(s), "a selection repeated");
                    k += 1;
                }
                for j in 0..k {
                    let s = edit_at(&d.sels, &root, &schema, j, &|x, p| vec![inl(p, vec![x.clone()])]).unwrap();
                    push(with(s), "a selection moved into a fragment on its own parent type");
                    let s = edit_at(&d.sels, &root, &schema, j, &|x, p| vec![inl(p, vec![inl(p, vec![x.clone()])]), x.clone()]).unwrap();
                    push(with(s), "a selection also in nested fragments on its own parent type");
                }
                push(with(vec![inl(&root, d.sels.clone())]), "everything inside a fragment on the root type");
                if !d.imports.is_empty() {
                    let mut rev = all.clone();
                    rev.reverse();
                    push(Doc { imports: all.clone(), ..d.clone() }, "imports everything");
                    push(Doc { imports: rev, ..d.clone() }, "imports everything in reverse");
                    push(Doc { imports: vec!["frags/hub.graphql".into()], ..d.clone() }, "imports through a file");
                    push(Doc { imports: vec!["frags/hub2.graphql".into()], ..d.clone() }, "imports through two files");
                    push(Doc { imports: all.iter().map(|x| format!("../{x}")).collect(), ..d.clone() }, "relative imports");
                }
            }
            let (got, _) = run_cases(&p, &cases);
            total += cases.len();
            let mut base = 0;
            for (j, (i, what)) in of.iter().enumerate() {
                if *what == "itself" {
                    base = j;
                }
                variants += usize::from(*what != "itself");
                let e = match (&got[j].abnormal, got[j].errors().first(), got[j].out()) {
                    (Some(a), _, _) => a.clone(),
                    (_, Some(e), _) => format!("rejected: {}", e.msg),
                    (_, _, None) => "no output".into(),
                    (_, _, Some(_)) if j == base => continue,
                    (_, _, Some(t)) => {
                        if Some(t) == got[base].out() || types(t) == types(got[base].out().unwrap_or("")) {
                            continue;
                        }
                        "the generated types changed".to_string()
                    }
                };
                r.violation(
                    &format!("{} {what}: {e}", one_line(&Case::one(chunk[*i].text()))),
                    &format!("{what}: {e}"),
                    format!("{what}: {e}\nbase\n{}{}\nvariant\n{}{}", cases[base].show(), got[base].show(), cases[j].show(), got[j].show()),
                );
            }
        }
        r.sample(format!("{}: {} base documents of up to {max} nodes", f.name, docs.len()));
        if r.bad() > 20 {
            break;
        }
    }
    let deep = levels(r, if r.thorough { 200 } else { 64 });
    r.cov("variants", n(variants + deep));
    done(r, total + deep);
}
/// The same selection at every depth of fragments that spread each other, each in a file of its
/// own, and of inline fragments.
fn levels(r: &Report, max: usize) -> usize {
    let schema = Schema::sdl(SDL);
    let p = Project::new(schema.json().dump());
    let mut cases = vec![];
    for depth in (1..=max).chain([65, 100, 130].into_iter().filter(|d| *d > max)) {
        for (on, inner, sel) in [("A", "A", "a"), ("A", "N", "id"), ("N", "A", "a")] {
            let flat = format!("fragment M on A {{ id {} {} }}\n", if sel == "id" { "" } else { sel }, "n { id }");
            let body = format!("{sel} n {{ id }}");
            let body = if sel == "id" { "id n { id }".to_string() } else { body };
            let ty = |i: usize| if i % 2 == 0 { on } else { inner };
            let mut v = vec![];
            // the parser refuses what is nested 50 times
            if depth <= 45 {
                v.push(Case::one(format!("fragment M on A {{ id {} ... on A {{ {body} }} {} }}\n", (0..depth).map(|i| format!("... on {} {{ id ", ty(i))).collect::<String>(), "}".repeat(depth))));
            }
            for layout in 0..3 {
                let mut files = vec![];
                let mut imports = String::new();
                for i in 0..depth {
                    let next = if i + 1 < depth { format!("...L{}", i + 1) } else { format!("... on A {{ {body} }}") };
                    // imported one by the other, or all by the document, in order or backwards
                    let own = if layout == 0 && i + 1 < depth { format!("#import \"./l{}.graphql\"\n", i + 1) } else { String::new() };
                    // the files are compiled too: each then imports the rest
                    let own = if layout == 0 { own } else { (i + 1..depth).map(|k| format!("#import \"./l{k}.graphql\"\n")).collect() };
                    files.push((format!("l{i}.graphql"), format!("{own}fragment L{i} on {} {{ id {next} }}\n", ty(i))));
                }
                match layout {
                    0 => imports.push_str("#import \"./l0.graphql\"\n"),
                    1 => (0..depth).for_each(|i| imports.push_str(&format!("#import \"./l{i}.graphql\"\n"))),
                    _ => (0..depth).rev().for_each(|i| imports.push_str(&format!("#import \"./l{i}.graphql\"\n"))),
                }
                files.insert(0, ("m.graphql".into(), format!("{imports}fragment M on A {{ id ...L0 }}\n")));
                if layout == 0 || depth % 8 == 1 || depth < 20 {
                    v.push(Case { files });
                }
            }
            cases.push((depth, Case::one(flat), v));
        }
    }
    let flat: Vec<Case> = cases.iter().map(|c| c.1.clone()).collect();
    let (base, _) = run_cases(&p, &flat);
    let all: Vec<(usize, Case)> = cases.iter().enumerate().flat_map(|(i, c)| c.2.iter().map(move |v| (i, v.clone()))).collect();
    let cs: Vec<Case> = all.iter().map(|x| x.1.clone()).collect();
    let (got, _) = run_cases(&p, &cs);
    for ((i, c), g) in all.iter().zip(&got) {
        let want = base[*i].out().and_then(types);
        let e = match (&g.abnormal, g.errors().first(), g.out()) {
            (Some(a), _, _) => a.clone(),
            (_, Some(e), _) => format!("rejected: {}", e.msg),
            (_, _, None) => "no output".into(),
            (_, _, Some(t)) if want.is_some() && types(t) == want => continue,
            _ => "the generated types changed".to_string(),
        };
        r.violation(&format!("{} levels: {e}", cases[*i].0), &format!("fragments within fragments: {e}"), format!("{e}\n{}{}\n{}", c.show(), g.show(), base[*i].show()));
    }
    all.len()
}
fn types(t: &str) -> Option<Vec<String>> {
    let m = ts::parse(t).ok()?;
    let mut v: Vec<String> = m.types.iter().map(|x| format!("{x:?}")).collect();
    v.sort();
    v.push(format!("{:?} {:?}", m.declared, m.default));
    Some(v)
}
fn permutations(s: &[Sel]) -> Vec<Vec<Sel>> {
    if s.len() > 4 {
        return vec![s.iter().rev().cloned().collect()];
    }
    fn go(rest: &mut Vec<Sel>, cur: &mut Vec<Sel>, out: &mut Vec<Vec<Sel>>) {
        if rest.is_empty() {
            out.push(cur.clone());
        }
        for i in 0..rest.len() {
            let x = rest.remove(i);
            cur.push(x);
            go(rest, cur, out);
            rest.insert(i, cur.pop().unwrap());
        }
    }
    let mut out = vec![];
    go(&mut s.to_vec(), &mut vec![], &mut out);
    out.sort();
    out.dedup();
    out
}
fn reverse(s: &[Sel]) -> Vec<Sel> {
    s.iter()
        .rev()
        .map(|x| {
            let mut x = x.clone();
            if let Some(v) = x.sels_mut() {
                *v = reverse(v);
            }
            x
        })
        .collect()
}
fn inline_spreads(s: &[Sel], frags: &Frags, depth: usize) -> Vec<Sel> {
    s.iter()
        .map(|x| match x {
            Sel::Spread(n) if depth > 0 => match frags.get(n) {
                Some(f) => inl(&f.on, inline_spreads(&f.sels, frags, depth - 1)),
                None => x.clone(),
            },
            _ => {
                let mut x = x.clone();
                if let Some(v) = x.sels_mut() {
                    *v = inline_spreads(v, frags, depth);
                }
                x
            }
        })
        .collect()
}
/// Applies `f` to the k-th selection (pre-order), given its parent type.
pub fn edit_at(s: &[Sel], parent: &str, schema: &Schema, k: usize, f: &dyn Fn(&Sel, &str) -> Vec<Sel>) -> Option<Vec<Sel>> {
    fn go(s: &[Sel], parent: &str, schema: &Schema, k: &mut usize, f: &dyn Fn(&Sel, &str) -> Vec<Sel>, hit: &mut bool) -> Vec<Sel> {
        let mut out = vec![];
        for x in s {
            if *hit {
                out.push(x.clone());
                continue;
            }
            if *k == 0 {
                *hit = true;
                out.extend(f(x, parent));
                continue;
            }
            *k -= 1;
            let t = match x {
                Sel::Field { name, .. } => schema.field(parent, name).map(|f| f.ty.named().to_string()).unwrap_or_default(),
                Sel::Inline { on, .. } => on.clone(),
                Sel::Spread(_) => String::new(),
            };
            let mut x = x.clone();
            if let Some(v) = x.sels_mut() {
                *v = go(v, &t, schema, k, f, hit);
            }
            out.push(x);
        }
        out
    }
    let (mut k, mut hit) = (k, false);
    let r = go(s, parent, schema, &mut k, f, &mut hit);
    hit.then_some(r)
}
/// Compiles valid documents and compares their types with the model.
pub fn run_docs(r: &Report, p: &Project, m: &Model, docs: &[Doc], label: &str, naming: bool) {
    let mut shapes: BTreeMap<String, usize> = BTreeMap::new();
    for (ci, chunk) in docs.chunks(40000).enumerate() {
        let cases: Vec<Case> = chunk.iter().map(|d| Case::one(d.text())).collect();
        let (got, _) = run_cases(p, &cases);
        let bad: Vec<Option<(usize, String)>> = crate::runner::pmap(&got, |i, g| {
            let d = &chunk[i];
            if let Some(a) = &g.abnormal {
                return Some((i, a.clone()));
            }
            if let Some(e) = g.errors().first() {
                return Some((i, format!("rejected: {}", e.msg)));
            }
            let Some(t) = g.out() else { return Some((i, "no output".into())) };
            judge(m, d, t, naming).err().map(|e| (i, e))
        });
        for (i, e) in bad.into_iter().flatten() {
            r.violation(&format!("{}: {}", one_line(&cases[i]), e.lines().next().unwrap_or("")), &e, format!("{label}\n{}{e}\n{}", cases[i].show(), got[i].show()));
        }
        if ci == 0 {
            for (d, _) in chunk.iter().zip(&got).step_by(chunk.len() / 500 + 1) {
                *shapes.entry(m.data(d)).or_default() += 1;
            }
        }
    }
    if let Some(d) = docs.last() {
        r.sample(format!("{label}: {} documents, e.g. {} : {}", docs.len(), one_line(&Case::one(d.text())), m.data(d)));
    }
    r.count("distinct_types_in_a_500_document_slice", shapes.len());
}
pub fn one_line(c: &Case) -> String {
    let t = c.files.iter().map(|(_, t)| t.split_whitespace().collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" + ");
    t.chars().take(300).collect()
}
