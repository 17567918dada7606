//! E05: a schema is taken whole or refused whole.
use super::types::{done, SDL};
use crate::json::{n, s, J};
use crate::report::Report;
use crate::runner::{args, par, put, tree, Env, Slot};
use crate::schema::Schema;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    Accept,
    Reject,
    /// nothing qlc depends on, or not GraphQL
    Either,
}
use V::*;
fn worst(a: V, b: V) -> V {
    match (a, b) {
        (Reject, _) | (_, Reject) => Reject,
        (Either, _) | (_, Either) => Either,
        _ => Accept,
    }
}
const KINDS: [&str; 6] = ["OBJECT", "SCALAR", "INTERFACE", "ENUM", "INPUT_OBJECT", "UNION"];
/// The reference decoder.
pub fn decode(j: &J) -> V {
    let Some(t) = j.get("data").and_then(|d| d.get("__schema")).and_then(|d| d.get("types")) else { return Reject };
    let J::Arr(v) = t else { return Reject };
    let mut seen = std::collections::BTreeSet::new();
    let mut out = Accept;
    for t in v {
        out = worst(out, type_(t));
        if let Some(n) = t.get("name").and_then(J::str) {
            if !seen.insert(n.to_string()) {
                out = worst(out, Either);
            }
        }
    }
    out
}
fn opt(j: Option<&J>, f: impl Fn(&J) -> bool) -> V {
    match j {
        None | Some(J::Null) => Accept,
        Some(x) if f(x) => Accept,
        _ => Either,
    }
}
fn type_(t: &J) -> V {
    let (Some(_), Some(k)) = (t.get("name").and_then(J::str), t.get("kind").and_then(J::str)) else { return Reject };
    if !KINDS.contains(&k) {
        return Reject;
    }
    let mut out = opt(t.get("description"), |x| x.str().is_some());
    for (key, of, f) in [
        ("fields", vec!["OBJECT", "INTERFACE"], &field as &dyn Fn(&J) -> V),
        ("inputFields", vec!["INPUT_OBJECT"], &field),
        ("enumValues", vec!["ENUM"], &named),
        ("possibleTypes", vec!["INTERFACE", "UNION"], &named),
    ] {
        let v = match t.get(key) {
            None | Some(J::Null) => Accept,
            Some(J::Arr(v)) => v.iter().fold(Accept, |a, x| worst(a, f(x))),
            Some(_) => Reject,
        };
        let needed = of.contains(&k);
        out = worst(
            out,
            match v {
                _ if needed && matches!(t.get(key), None | Some(J::Null)) => Reject,
                // of no use for this kind
                Reject if !needed => Either,
                v => v,
            },
        );
    }
    out
}
fn named(t: &J) -> V {
    if t.get("name").and_then(J::str).is_some() { Accept } else { Reject }
}
fn field(t: &J) -> V {
    if t.get("name").and_then(J::str).is_none() {
        return Reject;
    }
    let out = worst(opt(t.get("description"), |x| x.str().is_some()), opt(t.get("isDeprecated"), |x| matches!(x, J::Bool(_))));
    worst(out, t.get("type").map_or(Reject, |t| wrapped(t, false)))
}
fn wrapped(t: &J, non_null: bool) -> V {
    let Some(k) = t.get("kind").and_then(J::str) else { return Reject };
    let name = opt(t.get("name"), |x| x.str().is_some());
    let of = t.get("ofType");
    match k {
        "LIST" | "NON_NULL" => {
            let v = match of {
                Some(x @ J::Obj(_)) => wrapped(x, k == "NON_NULL"),
                _ => return Reject,
            };
            worst(v, if non_null && k == "NON_NULL" { Either } else { name })
        }
        k if KINDS.contains(&k) => {
            if t.get("name").and_then(J::str).is_none() {
                return Reject;
            }
            match of {
                None | Some(J::Null) => Accept,
                _ => Either,
            }
        }
        _ => Reject,
    }
}
type Path = Vec<usize>;
fn paths(j: &J, at: &mut Path, out: &mut Vec<Path>) {
    out.push(at.clone());
    let len = match j {
        J::Arr(v) => v.len(),
        J::Obj(v) => v.len(),
        _ => 0,
    };
    for i in 0..len {
        at.push(i);
        match j {
            J::Arr(v) => paths(&v[i], at, out),
            J::Obj(v) => paths(&v[i].1, at, out),
            _ => {}
        }
        at.pop();
    }
}
fn at<'a>(j: &'a J, p: &[usize]) -> &'a J {
    match p.first() {
        None => j,
        Some(i) => match j {
            J::Arr(v) => at(&v[*i], &p[1..]),
            J::Obj(v) => at(&v[*i].1, &p[1..]),
            _ => unreachable!(),
        },
    }
}
/// Some(x): replaced by x.  None: removed from its parent.
fn set(j: &J, p: &[usize], x: Option<J>) -> J {
    match j {
        _ if p.is_empty() => x.unwrap_or(J::Null),
        J::Arr(v) => {
            let mut v = v.clone();
            if p.len() == 1 && x.is_none() {
                v.remove(p[0]);
            } else {
                v[p[0]] = set(&v[p[0]], &p[1..], x);
            }
            J::Arr(v)
        }
        J::Obj(v) => {
            let mut v = v.clone();
            if p.len() == 1 && x.is_none() {
                v.remove(p[0]);
            } else {
                v[p[0]].1 = set(&v[p[0]].1, &p[1..], x);
            }
            J::Obj(v)
        }
        _ => unreachable!(),
    }
}
fn show(j: &J, p: &[usize]) -> String {
    let mut out = String::new();
    let mut j = j;
    for i in p {
        match j {
            J::Arr(v) => {
                out.push_str(&format!("[{i}]"));
                j = &v[*i];
            }
            J::Obj(v) => {
                out.push_str(&format!(".{}", v[*i].0));
                j = &v[*i].1;
            }
            _ => {}
        }
    }
    out
}
fn mutations(j: &J, level: usize) -> Vec<(String, J)> {
    let mut ps = vec![];
    paths(j, &mut vec![], &mut ps);
    let mut out = vec![];
    let mut vals = vec![J::Null, J::Num(0.0)];
    if level > 0 {
        vals.extend([s("x"), J::Arr(vec![]), J::Obj(vec![])]);
    }
    if level > 1 {
        vals.extend([J::Bool(true), J::Bool(false), s(""), J::Arr(vec![J::Null]), J::Num(1.5), J::Arr(vec![J::Obj(vec![])]), J::Obj(vec![("name".into(), J::Null)])]);
    }
    for p in ps {
        let old = at(j, &p);
        if !p.is_empty() {
            out.push((format!("{} removed", show(j, &p)), set(j, &p, None)));
        }
        let mut v = vals.clone();
        if p.last().is_some() && old.str().is_some_and(|x| x.len() > 3 && x.chars().all(|c| c.is_ascii_uppercase() || c == '_')) && level > 1 {
            v.extend(KINDS.iter().map(|k| s(*k)));
            v.extend([s("LIST"), s("NON_NULL"), s("object"), s("OBJECTS")]);
        }
        for x in v {
            if x != *old {
                let t = x.dump();
                out.push((format!("{} = {t}", show(j, &p)), set(j, &p, Some(x))));
            }
        }
    }
    out
}
/// Harmless content, put into every object.
fn additions(j: &J) -> Vec<(String, J)> {
    let mut ps = vec![];
    paths(j, &mut vec![], &mut ps);
    let mut out = vec![];
    for p in ps {
        let J::Obj(v) = at(j, &p) else { continue };
        let extra = [("zz", J::Null), ("args", s("x")), ("isOneOf", J::Bool(true)), ("directives", J::Arr(vec![J::Arr(vec![])])), ("extensions", J::Obj(vec![("a".into(), J::Num(1.0))])), ("Name", J::Num(3.0)), ("", J::Null)];
        for (k, x) in extra {
            if v.iter().any(|(a, _)| a == k) {
                continue;
            }
            for front in [true, false] {
                let mut v = v.clone();
                v.insert(if front { 0 } else { v.len() }, (k.to_string(), x.clone()));
                out.push((format!("{}.{k} added", show(j, &p)), set(j, &p, Some(J::Obj(v)))));
            }
        }
        // the order of keys means nothing
        let mut w = v.clone();
        w.reverse();
        out.push((format!("{} reversed", show(j, &p)), set(j, &p, Some(J::Obj(w)))));
    }
    out
}
const DOC: &str = "query Q($i: I, $e: E) { a { id n { id ... on B { b } } e d } u { __typename ... on A { l } } }";
fn sources(slot: &Slot) {
    slot.reset();
    put(&slot.dir, "src/ok.graphql", DOC);
    put(&slot.dir, "src/sub/bad.graphql", "query { zz ...Zz }");
    put(&slot.dir, "src/syntax.graphql", "query {");
}
fn run(slot: &Slot, text: Option<&[u8]>, v: V, threads: &str) -> (Option<String>, String) {
    if v == Accept {
        slot.reset();
        std::fs::create_dir_all(slot.dir.join("src")).unwrap();
    } else {
        sources(slot);
    }
    if let Some(t) = text {
        put(&slot.dir, "schema.json", t);
    }
    let before = tree(&slot.dir);
    let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", threads]), &Env::default());
    let d = crate::diag::parse(&o.stdout);
    let e = o.abnormal().or_else(|| {
        let rejected = d.errors() == 1 && d.list[0].file.is_none() && d.list[0].msg.contains("schema");
        match v {
            Accept if o.code() != 0 || d.errors() > 0 => Some("a good schema is refused".to_string()),
            Accept => None,
            Either if !rejected => None,
            _ if !rejected => Some(format!("a bad schema is not refused with one error: {} errors", d.errors())),
            _ if o.code() != 1 => Some(format!("refused with exit status {}", o.code())),
            _ if tree(&slot.dir) != before => Some("refused, but files are written".into()),
            _ => None,
        }
    });
    (e, o.stdout)
}
fn trees(r: &Report, schema: &J, level: usize, pairs: bool, label: &str) -> usize {
    let mut cases: Vec<(String, J)> = mutations(schema, level);
    if pairs {
        let firsts = cases.clone();
        for (w, j) in &firsts {
            for (w2, k) in mutations(j, level) {
                cases.push((format!("{w}, {w2}"), k));
            }
        }
    }
    let res = par(&cases, |slot, _, (_, j)| {
        let v = decode(j);
        (v, run(slot, Some(j.dump().as_bytes()), v, "1"))
    });
    for ((w, j), (v, (e, out))) in cases.iter().zip(res) {
        r.outcome(&format!("{label}: expected {v:?}"));
        if let Some(e) = e {
            r.violation(&format!("{w}: {e}"), &format!("schema with {w}: {e}"), format!("{}\n{out}", j.dump()));
        }
    }
    cases.len()
}
pub fn e05(r: &Report) {
    let sdl = "interface N { id: ID! l: [Int!]! } type A implements N { id: ID! l: [Int!]! n: N e: E d: [Date] } type B implements N { id: ID! l: [Int!]! b: String @deprecated } \
      union U = A | B enum E { X Y } scalar Date input I { a: [I!] e: E! } type Query { a: A u: [U!]! }";
    let mut small = Schema::sdl(sdl);
    for t in &mut small.types {
        if t.name == "A" {
            t.desc = Some("about A".into());
        }
    }
    small.types.retain(|t| !matches!(t.name.as_str(), "Float" | "Boolean"));
    let small = Schema::new(small.types).json();
    let tiny = Schema::new(Schema::sdl("interface N { n: [N!] } enum E { X } input I { e: E } union U = T type T { t: Int }").types.into_iter().filter(|t| t.name.len() == 1).collect()).json();
    assert_eq!((decode(&small), decode(&tiny)), (Accept, Accept));
    let mut total = trees(r, &small, 2, false, "small schema");
    total += trees(r, &tiny, usize::from(r.thorough), true, "pairs in a tiny schema");
    // types are types, whatever they are called: as in federation, as in introspection, as in other cases
    for (k, sub) in [["_N", "_E", "_I", "_U", "_T"], ["__N", "__E", "__I", "__U", "__Type"], ["_", "__", "___", "_0", "_a"], ["n", "e", "i", "u", "t"], ["Query1", "QueryE", "Mutation_", "Subscriptions", "query"]].iter().enumerate() {
        let [n, e, i, u, t] = sub;
        let s = Schema::sdl(&format!("interface {n} {{ n: [{n}!] }} enum {e} {{ X }} input {i} {{ e: {e} }} union {u} = {t} type {t} {{ t: Int }}"));
        let s = Schema::new(s.types.into_iter().filter(|x| sub.contains(&x.name.as_str())).collect()).json();
        assert_eq!(decode(&s), Accept);
        total += trees(r, &s, 1, false, &format!("types of other names {k}"));
    }
    if r.thorough {
        total += trees(r, &Schema::sdl(SDL).json(), 2, false, "large schema");
    }
    // truncations and broken bytes
    let text = small.dump();
    let mut cases: Vec<(String, Option<Vec<u8>>, V)> = vec![];
    for i in 0..text.len() {
        cases.push((format!("cut off after {i} bytes"), Some(text.as_bytes()[..i].to_vec()), Reject));
    }
    let b = text.as_bytes();
    for i in (0..b.len()).step_by(if r.thorough { 1 } else { 3 }) {
        let mut v = b.to_vec();
        v[i] = 0xff;
        cases.push((format!("byte {i} is no UTF-8"), Some(v), Either));
        let mut v = b.to_vec();
        if b"{}[]:,\"".contains(&v[i]) {
            v.remove(i);
            cases.push((format!("byte {i} removed"), Some(v), Reject));
        }
    }
    for (w, t, v) in [
        ("no file", None, Reject),
        ("empty", Some(String::new()), Reject),
        ("blank", Some(" \n".into()), Reject),
        ("blanks around", Some(format!("\n\t {text}\r\n ")), Accept),
        ("something behind", Some(format!("{text} x")), Reject),
        ("a bracket behind", Some(format!("{text}}}")), Reject),
        ("twice", Some(format!("{text}{text}")), Reject),
        ("a comment", Some(format!("// x\n{text}")), Reject),
        ("single quotes", Some(text.replace('"', "'")), Reject),
        ("the inner part only", Some(small.get("data").unwrap().dump()), Reject),
        ("the schema only", Some(small.get("data").unwrap().get("__schema").unwrap().dump()), Reject),
        ("an error response", Some("{\"errors\":[{\"message\":\"no\"}]}".into()), Reject),
        ("an error response with null data", Some("{\"data\":null,\"errors\":[]}".into()), Reject),
        ("an array", Some("[]".into()), Reject),
        ("SDL", Some("type Query { id: ID }".into()), Reject),
        ("HTML", Some("<html>".into()), Reject),
        ("pretty printed", Some(text.replace(',', ",\n  ").replace('{', "{\n")), Accept),
        ("errors beside the data", Some(text.replacen("{\"data\"", "{\"errors\":[1],\"data\"", 1)), Accept),
    ] {
        cases.push((w.to_string(), t.map(String::into_bytes), v));
    }
    let res = par(&cases, |slot, _, (_, t, v)| run(slot, t.as_deref(), *v, "2"));
    total += cases.len();
    for ((w, _, _), (e, out)) in cases.iter().zip(res) {
        if let Some(e) = e {
            r.violation(&format!("{w}: {e}"), &format!("schema {w}: {e}"), out);
        }
    }
    // a directory
    let (e, out) = {
        let slot = Slot::new();
        sources(&slot);
        std::fs::create_dir_all(slot.dir.join("schema.json/x")).unwrap();
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json"]), &Env::default());
        let d = crate::diag::parse(&o.stdout);
        ((o.code() != 1 || d.errors() != 1).then(|| format!("a directory as schema: exit {} with {} errors", o.code(), d.errors())), o.stdout)
    };
    if let Some(e) = e {
        r.violation(&e, &e, out);
    }
    // additional content changes nothing
    let adds = additions(&small);
    let base = |slot: &Slot, text: &str| {
        slot.reset();
        put(&slot.dir, "src/ok.graphql", DOC);
        put(&slot.dir, "schema.json", text);
        let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", "1"]), &Env::default());
        let mut t = tree(&slot.dir);
        t.remove("schema.json");
        (o, t)
    };
    let want = base(&Slot::new(), &text);
    if want.0.code() != 0 || want.1.len() < 3 {
        r.violation("the small schema is refused", "the small schema is refused", want.0.stdout.clone());
    }
    let res = par(&adds, |slot, _, (_, j)| {
        let (o, t) = base(slot, &j.dump());
        (o.abnormal().or_else(|| (o.code() != 0 || t != want.1).then(|| format!("exit {}, {} outputs", o.code(), t.len()))), o.stdout)
    });
    total += adds.len();
    for ((w, j), (e, out)) in adds.iter().zip(res) {
        if let Some(e) = e {
            r.violation(&format!("{w}: {e}"), &format!("schema with {w}: {e}"), format!("{}\n{out}", j.dump()));
        }
    }
    r.cov("additions", n(adds.len()));
    r.sample("every key and element removed, replaced by null, numbers, texts, arrays, objects and other kinds");
    done(r, total);
}
