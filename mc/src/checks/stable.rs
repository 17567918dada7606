//! C03: the bytes of the outputs depend on the inputs alone.
use super::types::{family_docs, families, frags_of, common_of, library};
use crate::batch::*;
use crate::diag;
use crate::explore::*;
use crate::json::{n, J};
use crate::report::Report;
use crate::runner::*;
use crate::schema::*;
use std::collections::{BTreeMap, BTreeSet};

const SDL: &str = "interface N { id: ID! name: String o: [O!] e: E } interface M { id: ID! k: K! } \
 type A implements N & M { id: ID! name: String o: [O!] e: E k: K! a: Int old: Int @deprecated u: U } \
 type B implements N & M { id: ID! name: String o: [O!] e: E k: K! b: Int u: [U!]! } \
 type C implements N { id: ID! name: String o: [O!] e: E c: Date } \
 type O { w: W z: String n: N near1: Int near2: Int near3: Int near4: Int } union U = A | B | C union W = O | C \
 enum E { Z X Y } enum K { Q P } enum H { R S T } scalar Date scalar Time \
 input I { a: Int e: [E!] j: J! } input J { k: K i: [I] h: H } input L { d: Date h: H } input P { l: L i: I } \
 type Query { a: A n: N! u: [U!]! w: W } type Mutation { a: A }";
/// The schema, with something to say about everything in it.
fn documented() -> Schema {
    let mut schema = Schema::sdl(SDL);
    let about = |x: &str, k: usize| (k % 4 < 3).then(|| [format!("About {x}."), format!("About {x}.\nAnd more\n\n  of {x}."), format!("{x} /* is */ told \"of\" é")][k % 3].clone());
    for (i, t) in schema.types.iter_mut().enumerate() {
        t.desc = about(&t.name, i);
        if let Kind::Object(f) | Kind::Interface(f, _) | Kind::Input(f) = &mut t.kind {
            for f in f.iter_mut() {
                // of one name, of one description
                f.desc = about(&f.name, f.name.len() + usize::from(f.name.as_bytes()[0]) );
            }
        }
    }
    schema
}
/// Documents with every kind of list in them: fragments, imports, variables, alternatives, global types.
fn docs() -> Vec<(&'static str, &'static str)> {
    vec![
        ("m.graphql", "#import \"./f1.graphql\"\n#import \"d/f2.graphql\"\n#import \"d/f3.graphql\"\nquery M($p: P!, $i: [I!], $h: H, $l: L, $x: Int, $d: Date, $k: K) {\n  n { ...F1 ... on M { k } ... on B { u { ...F2 } b } ... on C { c o { w { ...F3 } } } e }\n  u { ...F2 __typename ... on A { a name } }\n  a { ...F1 z: name y: id x: e }\n}\n"),
        ("f1.graphql", "#import \"d/f3.graphql\"\nfragment F1 on N {\n  id name o { z w { ...F3 } }\n  ... on A { k old }\n}\n"),
        ("d/f2.graphql", "#import \"../f1.graphql\"\nfragment F2 on U {\n  ... on A { ...F1 }\n  ... on B { ...F1 }\n  ... on M { k }\n}\n"),
        ("d/f3.graphql", "fragment F3 on W {\n  ... on O { z }\n  ... on C { c name }\n}\n"),
        ("d/w.graphql", "mutation W($l: [L!], $p: P) {\n  a { old u { ... on C { c } ... on A { a } } }\n}\n"),
        ("bad.graphql", "query Bad($q: Nope, $r: Nope2) {\n  nope\n  a { nope2 o { near } }\n  u { ... on E { id } }\n}\n"),
    ]
}
fn arguments(threads: usize) -> Vec<String> {
    args(&["src", "-s", "schema.json", "--use-custom-scalars", "--show-deprecation-warnings", "--num-threads", &threads.to_string()])
}
fn outs(t: &Tree) -> Tree {
    t.iter().filter(|(k, _)| k.ends_with(".ts")).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn differs(a: &Tree, b: &Tree) -> Option<String> {
    let keys: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
    keys.into_iter().find(|k| a.get(*k) != b.get(*k)).map(|k| match (a.get(k), b.get(k)) {
        (Some(x), Some(y)) => {
            let (x, y) = (String::from_utf8_lossy(x).into_owned(), String::from_utf8_lossy(y).into_owned());
            let d = x.lines().zip(y.lines()).find(|(p, q)| p != q).map(|(p, q)| format!(": {p:?} / {q:?}")).unwrap_or_default();
            format!("{k} differs{d}")
        }
        (x, _) => format!("{k} is {}", if x.is_some() { "missing" } else { "extra" }),
    })
}
/// Kinds of outputs that are there already.
const LEFTOVERS: usize = 11;
fn install(slot: &Slot, schema: &str, leftovers: usize, want: &Tree) {
    slot.reset();
    put(&slot.dir, "schema.json", schema);
    for (f, t) in docs() {
        put(&slot.dir, &format!("src/{f}"), t);
    }
    for (k, v) in want {
        match leftovers {
            1 => put(&slot.dir, k, v),
            2 => put(&slot.dir, k, [v.as_slice(), b"export type More = never;\n"].concat()),
            3 => put(&slot.dir, k, "x"),
            // nearly right
            4 => put(&slot.dir, k, String::from_utf8_lossy(v).replace('\n', "\r\n")),
            5 => put(&slot.dir, k, String::from_utf8_lossy(v).replace("  ", "\t").replace(";\n", ";  \n")),
            6 => put(&slot.dir, k, &v[..v.len() - 1]),
            7 => put(&slot.dir, k, String::from_utf8_lossy(v).to_uppercase()),
            8 => put(&slot.dir, k, v.iter().rev().copied().collect::<Vec<u8>>()),
            9 => {
                // what it would be but for the comments, or with the properties in another order
                let t = String::from_utf8_lossy(v).into_owned();
                let mut l: Vec<&str> = t.lines().filter(|l| !l.trim_start().starts_with(['/', '*'])).collect();
                l.sort();
                put(&slot.dir, k, l.join("\n"))
            }
            10 => {
                // an old file, of the same size
                put(&slot.dir, k, vec![b' '; v.len()]);
                let f = std::fs::File::options().write(true).open(slot.dir.join(k)).unwrap();
                f.set_modified(std::time::SystemTime::now() + std::time::Duration::from_secs(86400)).unwrap();
            }
            _ => {}
        }
    }
}
pub fn c03(r: &Report) {
    let t = r.thorough;
    let schema = documented().json().dump();
    let slot = Slot::new();
    install(&slot, &schema, 0, &Tree::new());
    let o = slot.run(&slot.dir, &arguments(1), &Env::default());
    let want = outs(&tree(&slot.dir));
    let report = diag::parse(&o.stdout).canon();
    if o.abnormal().is_some() || want.len() != 6 || o.code() != 1 {
        r.violation("the reference run", &format!("{} outputs, exit status {}", want.len(), o.code()), o.stdout);
        return;
    }
    let mut total = 0;
    // (a) answers of the environment
    let mut envs = vec![];
    let seeds = if t { 200 } else { 24 };
    for perm in 0..24u32 {
        for threads in [1usize, 2, 3, 8] {
            for left in 0..LEFTOVERS {
                for unknown in [false, true] {
                    envs.push((perm, 7 + u64::from(perm) * 31 + threads as u64, threads, left, unknown));
                }
            }
        }
    }
    for seed in 0..seeds {
        for left in 0..2 {
            for threads in [1, 2] {
                for perm in [0, 13] {
                    envs.push((perm, seed * 7919 + 1, threads, left, false));
                }
            }
        }
    }
    let bad = par(&envs, |slot, _, (perm, seed, threads, left, unknown)| {
        install(slot, &schema, *left, &want);
        let o = slot.run(&slot.dir, &arguments(*threads), &Env { dirperm: *perm, hashseed: *seed, dtype_unknown: *unknown, ..Env::default() });
        let help: Vec<String> = diag::parse(&o.stdout).list.iter().filter_map(|d| d.help.clone()).collect();
        let e = o
            .abnormal()
            .or_else(|| differs(&want, &outs(&tree(&slot.dir))))
            .or_else(|| (diag::parse(&o.stdout).canon() != report).then(|| "another report".into()))
            .or_else(|| (o.code() != 1).then(|| "another exit status".into()));
        // once more over its own results
        let e = e.or_else(|| {
            let o = slot.run(&slot.dir, &arguments(*threads), &Env { dirperm: *perm, hashseed: seed + 1, ..Env::default() });
            o.abnormal().or_else(|| differs(&want, &outs(&tree(&slot.dir))).map(|e| format!("the second time {e}")))
        });
        (e, help, o.stdout)
    });
    let mut helps = BTreeSet::new();
    for ((perm, seed, threads, left, unknown), (e, help, x)) in envs.iter().zip(bad) {
        helps.insert(help);
        if let Some(e) = e {
            r.violation(&format!("listing order {perm}, seed {seed}, {threads} threads, leftovers {left}, types unknown {unknown}: {e}"), &e, x);
        }
    }
    total += envs.len();
    r.cov("environments", n(envs.len()));
    r.cov("hash_orders_seen_in_help_texts", n(helps.len()));
    if r.bad() == 0 {
        total += schemas(r, &want);
        total += documents(r);
        total += names(r);
        total += junk(r);
        total += histories(r);
        total += surroundings(r, &schema, &want);
        schedules(r, &schema, &want, &report);
    }
    r.sample(format!("{} environments: 24 listing orders x 4 thread counts x {LEFTOVERS} kinds of leftovers x file types given or not, and {seeds} hash seeds", envs.len()));
    r.count("states", total);
    r.count("transitions", total);
    r.count("traces_validated_against_impl", total);
    r.cov("exhaustive", J::Bool(true));
    r.assume("hash seeds are an enumerated set, not all of them");
}
/// Everywhere in the schema where the order of a list means nothing.
fn lists(j: &J, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
    match j {
        J::Arr(v) => {
            if v.len() > 1 {
                out.push((path.clone(), v.len()));
            }
            for (i, x) in v.iter().enumerate() {
                path.push(i);
                lists(x, path, out);
                path.pop();
            }
        }
        J::Obj(v) => {
            if v.len() > 1 {
                out.push((path.clone(), v.len()));
            }
            for (i, x) in v.iter().enumerate() {
                path.push(i);
                lists(&x.1, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(j: &'a mut J, p: &[usize]) -> &'a mut J {
    match (p.split_first(), j) {
        (None, j) => j,
        (Some((i, r)), J::Arr(v)) => at(&mut v[*i], r),
        (Some((i, r)), J::Obj(v)) => at(&mut v[*i].1, r),
        _ => unreachable!(),
    }
}
fn permute<T: Clone>(v: &mut Vec<T>, p: &[usize]) {
    let old = v.clone();
    for (i, k) in p.iter().enumerate() {
        v[i] = old[*k].clone();
    }
}
fn perms(n: usize, all_up_to: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    if n <= all_up_to {
        fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if cur.len() == n {
                out.push(cur.clone());
                return;
            }
            for i in 0..n {
                if !cur.contains(&i) {
                    cur.push(i);
                    go(n, cur, out);
                    cur.pop();
                }
            }
        }
        go(n, &mut vec![], &mut out);
        out.retain(|p| *p != id);
    } else {
        out.push(id.iter().rev().copied().collect());
        for i in 0..n - 1 {
            let mut p = id.clone();
            p.swap(i, i + 1);
            out.push(p);
        }
        for k in 1..n {
            let mut p = id.clone();
            p.rotate_left(k);
            out.push(p);
        }
    }
    out
}
fn schemas(r: &Report, want: &Tree) -> usize {
    let base = documented().json();
    let mut ls = vec![];
    lists(&base, &mut vec![], &mut ls);
    let mut items: Vec<(Vec<(usize, Vec<usize>)>, u64)> = vec![];
    for (k, (_, len)) in ls.iter().enumerate() {
        for p in perms(*len, if r.thorough { 5 } else { 4 }) {
            items.push((vec![(k, p)], 7));
        }
    }
    // two lists, and all of them
    let big: Vec<usize> = (0..ls.len()).filter(|k| ls[*k].1 > 1).collect();
    let rev = |k: usize| (k, (0..ls[k].1).rev().collect::<Vec<_>>());
    let inner_first = |mut v: Vec<(usize, Vec<usize>)>| {
        // deeper lists first, so that the paths stay right
        v.sort_by_key(|x| std::cmp::Reverse(ls[x.0].0.len()));
        v
    };
    for (i, a) in big.iter().enumerate() {
        for b in &big[i + 1..] {
            if r.thorough || (a + b) % 7 == 0 {
                items.push((inner_first(vec![rev(*a), rev(*b)]), 7));
            }
        }
    }
    for seed in 0..20 {
        items.push((inner_first(big.iter().map(|k| rev(*k)).collect()), seed));
        items.push((
            inner_first(
                big.iter()
                    .map(|k| {
                        let mut p: Vec<usize> = (0..ls[*k].1).collect();
                        let m = 1 + seed as usize % p.len();
                        p.rotate_left(m % ls[*k].1);
                        (*k, p)
                    })
                    .collect(),
            ),
            seed,
        ));
    }
    let bad = par(&items, |slot, i, (edits, seed)| {
        let mut j = base.clone();
        for (k, p) in edits {
            match at(&mut j, &ls[*k].0) {
                J::Arr(v) => permute(v, p),
                J::Obj(v) => permute(v, p),
                _ => {}
            }
        }
        let mut text = j.dump();
        if i % 3 == 1 {
            text = text.replace(',', " ,\n ").replace(':', " : ");
        }
        install(slot, &text, 0, &Tree::new());
        let o = slot.run(&slot.dir, &arguments(1), &Env { hashseed: *seed, ..Env::default() });
        o.abnormal().or_else(|| differs(want, &outs(&tree(&slot.dir)))).map(|e| (e, text))
    });
    for ((edits, seed), e) in items.iter().zip(bad) {
        if let Some((e, x)) = e {
            let w: Vec<String> = edits.iter().take(3).map(|(k, p)| format!("{:?} by {p:?}", ls[*k].0)).collect();
            r.violation(&format!("schema order {} (seed {seed}): {e}", w.join(", ")), &format!("the order of the schema shows: {e}"), x);
        }
    }
    r.cov("schema_lists_permuted", n(ls.len()));
    r.cov("schema_orders", n(items.len()));
    items.len()
}
/// All small documents under other seeds.
fn documents(r: &Report) -> usize {
    let schema = Schema::sdl(super::types::SDL);
    let lib = library();
    let frags = frags_of(&lib);
    let mut p = Project::new(schema.json().dump());
    p.common = common_of(&lib);
    let mut all = vec![];
    for f in families() {
        all.extend(family_docs(&f, &schema, &frags, f.quick - if r.thorough { 1 } else { 2 }));
    }
    let step = if r.thorough { 1 } else { all.len() / 12000 + 1 };
    let cases: Vec<Case> = all.iter().step_by(step).map(|d| Case::one(d.text())).collect();
    let (want, ww) = run_cases(&p, &cases);
    let seeds: &[u64] = if r.thorough { &[1, 2, 3, 4, 5, 6, 8, 9] } else { &[1, 2] };
    for s in seeds {
        let mut q = p.clone();
        q.env.hashseed = *s;
        q.env.dirperm = *s as u32;
        // the order of types in the schema as well
        let mut sch = schema.clone();
        sch.types.reverse();
        if s % 2 == 0 {
            q.schema = Schema::new(sch.types).json().dump();
        }
        let (got, gw) = run_cases(&q, &cases);
        for ((c, w), g) in cases.iter().zip(&want).zip(&got) {
            if w.outs != g.outs || g.abnormal.is_some() {
                r.violation(&format!("seed {s}: {}", super::types::one_line(c)), "the output of a document depends on hash seeds or the order of the schema", format!("{}\n{}\n{}", c.show(), w.show(), g.show()));
            }
        }
        for (a, b) in ww.iter().zip(&gw) {
            if a.globals != b.globals {
                r.violation(&format!("global types, seed {s}"), "the global types file depends on hash seeds or the order of the schema", format!("{:?}\n{:?}", a.globals, b.globals));
            }
        }
    }
    r.cov("documents", n(cases.len()));
    r.cov("seeds_per_document", n(seeds.len() + 1));
    cases.len() * (seeds.len() + 1)
}
/// A schema, and documents, of names that some orders cannot tell apart: names that differ by case, by
/// an underscore or by a digit, of every sort.
fn names(r: &Report) -> usize {
    use super::types::NAMES;
    let enums = ["Kind", "kind", "KIND", "kInd", "_Kind", "Kind_", "Kind1", "Kind10", "Kind2", "Kin", "Kinds"];
    let scalars = ["Date", "date", "DATE", "_Date", "Date2", "Date10"];
    let inputs = ["In", "IN", "iN", "_In", "In_", "In2", "In10"];
    let objects = ["A", "a", "_A", "A_", "A2", "A10", "aa", "AA"];
    let mut sdl = String::new();
    for e in enums {
        sdl.push_str(&format!("enum {e} {{ {} }} ", NAMES.iter().filter(|x| **x != "null").copied().collect::<Vec<_>>().join(" ")));
    }
    for x in scalars {
        sdl.push_str(&format!("scalar {x} "));
    }
    let pick = |i: usize| enums.iter().chain(&scalars).nth(i % (enums.len() + scalars.len())).unwrap().to_string();
    let in_fields = |k: usize| NAMES.iter().enumerate().map(|(i, x)| format!("{x}: {}", if i % 4 == 3 { format!("[{}]", inputs[(i + k) % inputs.len()]) } else { pick(i + k) })).collect::<Vec<_>>().join(" ");
    for (k, x) in inputs.iter().enumerate() {
        sdl.push_str(&format!("input {x} {{ {} }} ", in_fields(k)));
    }
    let out_fields = |k: usize| NAMES.iter().filter(|x| !x.starts_with("__")).enumerate().map(|(i, x)| format!("{x}: {}", pick(i + k))).collect::<Vec<_>>().join(" ");
    for i in ["N", "n"] {
        sdl.push_str(&format!("interface {i} {{ f: {i} {} }} ", out_fields(0)));
    }
    for (k, x) in objects.iter().enumerate() {
        sdl.push_str(&format!("type {x} implements {} {{ f: {} g{}: U k{k}: Int {} }} ", ["N", "n", "N & n"][k % 3], ["N", "n", "N"][k % 3], k % 2, out_fields(0)));
    }
    sdl.push_str(&format!("union U = {} union u = {} ", objects.join(" | "), objects[..3].join(" | ")));
    sdl.push_str("type Query { x: U y: u z: N w: n }");
    let schema = Schema::sdl(&sdl);
    let mut texts: Vec<(String, String)> = vec![];
    let all = NAMES.iter().filter(|x| !x.starts_with("__")).copied().collect::<Vec<_>>().join(" ");
    let alts = |f: &dyn Fn(usize) -> String| objects.iter().enumerate().map(|(k, o)| format!("... on {o} {{ {} }}", f(k))).collect::<Vec<_>>().join(" ");
    texts.push(("all.graphql".into(), format!("query All {{ x {{ {} }} y {{ ... on a {{ {all} }} }} z {{ {all} ... on A {{ k0 }} ... on A_ {{ k3 }} }} w {{ {all} ... on a {{ k1 }} }} }}\n", alts(&|k| format!("{all} k{k}")))));
    texts.push(("some.graphql".into(), format!("query Some {{ x {{ {} }} }}\n", alts(&|k| format!("{} k{k}", NAMES[k + 5])))));
    texts.push(("deep.graphql".into(), format!("query Deep {{ x {{ {} }} z {{ f {{ f {{ id }} }} }} w {{ f {{ f {{ ID }} }} }} }}\n", alts(&|k| format!("g{}{{ {} }}", k % 2, alts(&|j| format!("k{j} _"))).replace("g0", &format!("{}: g0", NAMES[k])).replace("g1", &format!("{}: g1", NAMES[k]))))));
    let vars = NAMES.iter().enumerate().map(|(i, x)| format!("${x}: {}", if i % 3 == 0 { inputs[i % inputs.len()].to_string() } else { pick(i) })).collect::<Vec<_>>().join(", ");
    texts.push(("vars.graphql".into(), format!("query Vars({vars}) {{ x {{ __typename }} }}\n")));
    for (i, e) in enums.iter().chain(&scalars).chain(&inputs).enumerate() {
        texts.push((format!("one{i}.graphql"), format!("query One{i}($v: {e}) {{ x {{ __typename }} }}\n")));
    }
    let put_all = |slot: &Slot, schema: &str| {
        slot.reset();
        put(&slot.dir, "schema.json", schema);
        for (f, t) in &texts {
            put(&slot.dir, &format!("src/{f}"), t);
        }
    };
    let json = schema.json().dump();
    let slot = Slot::new();
    put_all(&slot, &json);
    let o = slot.run(&slot.dir, &arguments(1), &Env::default());
    let want = outs(&tree(&slot.dir));
    if o.abnormal().is_some() || o.code() != 0 || want.len() != texts.len() + 1 {
        r.violation("names: the reference run", &format!("{} outputs, exit status {}", want.len(), o.code()), format!("{sdl}\n{}", o.stdout));
        return 1;
    }
    let mut items = vec![];
    for seed in 0..if r.thorough { 400u64 } else { 60 } {
        for (threads, turn) in [(1usize, 0usize), (1, 1), (2, 2), (3, 0)] {
            items.push((seed, threads, turn));
        }
    }
    let bad = par(&items, |slot, _, (seed, threads, turn)| {
        let mut sch = schema.clone();
        match turn {
            1 => sch.types.reverse(),
            2 => {
                let n = sch.types.len();
                sch.types.rotate_left(*seed as usize % n)
            }
            _ => {}
        }
        put_all(slot, &Schema::new(sch.types).json().dump());
        let o = slot.run(&slot.dir, &arguments(*threads), &Env { hashseed: seed * 104729 + 3, dirperm: (*seed % 24) as u32, ..Env::default() });
        o.abnormal().or_else(|| differs(&want, &outs(&tree(&slot.dir)))).map(|e| (e, o.stdout))
    });
    for ((seed, threads, turn), e) in items.iter().zip(bad) {
        if let Some((e, x)) = e {
            r.violation(&format!("names that are nearly the same, seed {seed}, {threads} threads, order {turn}: {e}"), &format!("names that are nearly the same: {e}"), x);
        }
    }
    r.cov("runs_over_similar_names", n(items.len()));
    items.len()
}
/// Inputs that leave something open, or ought to be refused: whatever is made of them, it is the same each time.
fn junk(r: &Report) -> usize {
    let mut schema = Schema::sdl(SDL);
    // everything twice, the second time a little different
    let mut again = Schema::sdl(&SDL.replace("{ Z X Y }", "{ W Z Z }").replace("name: String", "name: Int! name: [ID]").replace("l: L", "l: L l: Int").replace("union U = A | B", "union U = A | A")).types;
    let docs: Vec<(&str, Vec<(&str, &str)>)> = vec![
        ("a name defined by two imports", vec![
            ("a.graphql", "#import \"./x.graphql\"\n#import \"./y.graphql\"\nquery A { n { ...F } a { ...F } }\n"),
            ("b.graphql", "#import \"./y.graphql\"\n#import \"./x.graphql\"\nquery A { n { ...F } a { ...F } }\n"),
            ("c.graphql", "#import \"./x.graphql\"\n#import \"./y.graphql\"\nfragment F on N { e }\nquery A { n { ...F } }\n"),
            ("x.graphql", "fragment F on N { id }\n"),
            ("y.graphql", "fragment F on N { name }\n"),
            ("z.graphql", "#import \"./a.graphql\"\n#import \"./b.graphql\"\nquery Z { a { ...F } }\n"),
        ]),
        ("imports of everything", vec![
            ("a.graphql", "#import \"./a.graphql\"\n#import \"./b.graphql\"\n#import \"./c.graphql\"\n#import \"./d.graphql\"\n#import \"./none.graphql\"\nquery A { n { ...B ...C ...D } }\n"),
            ("b.graphql", "#import \"./c.graphql\"\n#import \"./a.graphql\"\nfragment B on N { id ...C nope }\n"),
            ("c.graphql", "#import \"./b.graphql\"\n#import \"./d.graphql\"\nfragment C on N { name ...B ...D }\n"),
            ("d.graphql", "#import \"./c.graphql\"\n#import \"./c.graphql\"\n#import \"./nothing\"\nfragment D on N { e ...C ...D ...E }\n"),
        ]),
        ("everything twice in a document", vec![
            ("a.graphql", "query A($x: I, $x: J, $y: Int, $y: H, $z: Nope) { a: n { id } a: a { id } a { id: name id: e } n { ... on A { id: e } ... on B { id: k } ... on N { id: name } } }\nquery A { n { id } }\nmutation A { a { id } }\n"),
            ("b.graphql", "fragment F on N { id }\nfragment F on A { a }\nfragment f on N { e }\nquery A { n { ...F ...f ...F } }\n"),
            ("c.graphql", "{ n { id } }\nquery { a { id } }\nquery { a { k } }\n"),
            ("d.graphql", "{ n { id id name id } n { name id e } n { ... on A { k } } n { ... on B { k } } }\n"),
        ]),
        ("the same name in many files", vec![
            ("a.graphql", "query Q($i: I, $h: H) { n { id } }\n"),
            ("b.graphql", "query Q($i: I, $l: L) { n { id } }\n"),
            ("d/a.graphql", "query Q($i: [I!]!, $k: K) { n { e } }\n"),
            ("d/b.graphql", "mutation Q($p: P) { a { e k } }\n"),
            ("d/d/a.graphql", "query E($e: E) { n { e } }\nquery I { a { k } }\n"),
        ]),
        ("nothing much", vec![("a.graphql", ""), ("b.graphql", "#import\n"), ("c.graphql", "\u{feff}query A { n { id } }\n"), ("d.graphql", "query A { n {} }\n"), ("e.graphql", "type A { id: ID }\nenum X { A B }\nquery A { n { id } }\n")]),
    ];
    let mut items = vec![];
    for k in 0..docs.len() {
        for twice in 0..3 {
            for run in 0..if r.thorough { 200u64 } else { 30 } {
                items.push((k, twice, run));
            }
        }
    }
    let once = schema.json().dump();
    let half = again.split_off(again.len() / 2);
    schema.types.extend(half);
    let twice1 = Schema::new(schema.types.clone()).json().dump();
    schema.types.extend(again);
    schema.types.reverse();
    let texts = [once, twice1, Schema::new(schema.types).json().dump()];
    let go = |slot: &Slot, k: usize, twice: usize, threads: usize, env: &Env| {
        slot.reset();
        put(&slot.dir, "schema.json", &texts[twice]);
        for (f, t) in &docs[k].1 {
            put(&slot.dir, &format!("src/{f}"), t);
        }
        let o = slot.run(&slot.dir, &arguments(threads), env);
        // some messages name a file by its absolute path
        (outs(&tree(&slot.dir)), diag::parse(&o.stdout.replace(slot.dir.to_str().unwrap(), "$W")).canon(), o)
    };
    let wants = {
        let slot = Slot::new();
        (0..docs.len()).map(|k| [0, 1, 2].map(|w| go(&slot, k, w, 1, &Env::default()))).collect::<Vec<_>>()
    };
    let bad = par(&items, |slot, _, (k, twice, run)| {
        let threads = [1, 1, 2, 3][*run as usize % 4];
        let (t, d, o) = go(slot, *k, *twice, threads, &Env { hashseed: run * 15485863 + 11, dirperm: (*run % 24) as u32, ..Env::default() });
        let w = &wants[*k][*twice];
        let how = |o: &Outcome| o.abnormal().unwrap_or_else(|| format!("exit status {}", o.code()));
        let e = if how(&o) != how(&w.2) {
            Some(format!("{} instead of {}", how(&o), how(&w.2)))
        } else {
            differs(&w.0, &t).or_else(|| (d != w.1).then(|| "another report".into()))
        };
        e.map(|e| (format!("{}, seed {run}, {threads} threads: {e}", docs[*k].0), format!("{}\n{}\n---\n{}", texts[*twice], w.2.stdout, o.stdout)))
    });
    for (e, x) in bad.into_iter().flatten() {
        r.violation(&e, &e, x);
    }
    r.cov("runs_over_open_inputs", n(items.len()));
    items.len()
}
/// From every state of a small project to every other: what earlier runs left makes no difference.
fn histories(r: &Report) -> usize {
    // a, b, f: absent or one of two versions; two schemas; two configurations
    let text = |k: usize, v: usize| -> Option<&'static str> {
        match (k, v) {
            (_, 0) => None,
            (0, 1) => Some("#import \"f.graphql\"\nquery A { n { ...F id } }\n"),
            (0, _) => Some("query A($h: H) { a { e } }\n"),
            (1, 1) => Some("query B($i: I) { a { k } }\n"),
            (1, _) => Some("query B { nope }\n"),
            (_, 1) => Some("fragment F on N { name }\n"),
            _ => Some("fragment F on N { e ... on A { a } }\n"),
        }
    };
    let schemas = [Schema::sdl(SDL).json().dump(), Schema::sdl(&SDL.replace("{ Z X Y }", "{ Z X }").replace("name: String", "name: String!")).json().dump()];
    let states: Vec<[usize; 5]> = (0..108).map(|i| [i % 3, i / 3 % 3, i / 9 % 3, i / 27 % 2, i / 54]).collect();
    let lay = |slot: &Slot, s: &[usize; 5]| {
        for (k, f) in ["a", "b", "f"].iter().enumerate() {
            let p = slot.dir.join(format!("src/{f}.graphql"));
            match text(k, s[k]) {
                Some(t) => std::fs::write(p, t).unwrap(),
                None => {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
        put(&slot.dir, "schema.json", &schemas[s[3]]);
        put(&slot.dir, ".qlcrc.json", ["{}", "{ \"disableReadonlyTypes\": true, \"globalTypesModuleName\": \"g\" }"][s[4]]);
    };
    let a = args(&["src", "-s", "schema.json", "--num-threads", "1"]);
    let fresh = |slot: &Slot, s: &[usize; 5]| {
        slot.reset();
        std::fs::create_dir_all(slot.dir.join("src")).unwrap();
        lay(slot, s);
        let o = slot.run(&slot.dir, &a, &Env::default());
        (outs(&tree(&slot.dir)), o.code(), diag::parse(&o.stdout).canon())
    };
    let wants = par(&states, |slot, _, s| fresh(slot, s));
    let step = if r.thorough { 1 } else { 3 };
    let bad = par(&states, |slot, i, s| {
        let mut bad = vec![];
        for (k, t) in states.iter().enumerate().skip(i % step).step_by(step) {
            fresh(slot, s);
            lay(slot, t);
            let o = slot.run(&slot.dir, &a, &Env::default());
            let now = outs(&tree(&slot.dir));
            let (want, code, report) = &wants[k];
            // what is written is as it would be; outputs that nothing stands for any more may stay
            let kept: Tree = now.iter().filter(|(k, _)| want.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            let e = o.abnormal().or_else(|| differs(want, &kept)).or_else(|| (o.code() != *code || diag::parse(&o.stdout).canon() != *report).then(|| "another report".to_string()));
            if let Some(e) = e {
                bad.push((format!("{s:?} then {t:?}: {e}"), o.stdout));
            }
        }
        bad
    });
    for (e, x) in bad.into_iter().flatten() {
        r.violation(&format!("versions {e}"), "what an earlier run left makes a difference", x);
    }
    let mut by: BTreeMap<String, usize> = BTreeMap::new();
    for w in &wants {
        *by.entry(format!("{} outputs, exit status {}", w.0.len(), w.1)).or_default() += 1;
    }
    for (k, c) in by {
        for _ in 0..c {
            r.outcome(&k);
        }
    }
    r.cov("project_states", n(states.len()));
    r.cov("project_state_changes", n(states.len() * states.len() / step));
    states.len() * states.len() / step
}
/// Files of other tools.
pub const BESIDE: &[(&str, &str)] = &[
    (".gitignore", "*\n"), (".ignore", "*\n"), (".npmignore", "*\n"), (".qlcignore", "*\n"), (".graphqlignore", "*\n"), (".eslintignore", "**/*.graphql\n"),
    (".env", "QLC_SCHEMA_PATH=none\n"), (".qlcrc", "{ \"disableReadonlyTypes\": true }"), ("qlc.json", "{ \"disableReadonlyTypes\": true }"), ("qlc.config.json", "{ \"disableReadonlyTypes\": true }"),
    ("package.json", "{ \"type\": \"module\", \"qlc\": { \"disableReadonlyTypes\": true } }"), ("tsconfig.json", "{ \"compilerOptions\": { \"strictNullChecks\": false, \"baseUrl\": \".\" } }"), ("jsconfig.json", "{}"),
    (".prettierrc", "{ \"semi\": false, \"tabWidth\": 4 }"), (".editorconfig", "[*]\nindent_style = tab\nend_of_line = crlf\n"), (".gitattributes", "* eol=crlf\n"), (".graphqlconfig", "{}"), (".graphqlrc", "schema: none\n"), ("graphql.config.json", "{}"),
    ("schema.graphqls", "type Query { x: Int }"), ("schema.gql", "type Query { x: Int }"), ("index.ts", "export {};\n"), ("m.graphql.ts", "export {};\n"), ("m.graphql.js", ""), ("m.d.ts", ""), ("f1", ""), ("f1.gql", "fragment F1 on N { k }"), ("f1.graphql.bak", "fragment F1 on N { k }"),
    (".git/HEAD", "ref: refs/heads/x\n"), ("node_modules/qlc/package.json", "{}"), ("qlc.lock", ""), (".qlc-cache/x", ""), ("globals.ts", ""), ("graphql-globals.d.ts", "export enum E { Wrong }\n"),
];
/// What lies around the project and is none of qlc's business: environment variables, files of other tools,
/// the times and modes of files, where the project lies, what it is called and where the run starts.
fn surroundings(r: &Report, schema: &str, want: &Tree) -> usize {
    use std::os::unix::fs::PermissionsExt;
    use std::time::{Duration, SystemTime};
    const VARS: &[&[(&str, &str)]] = &[
        &[("CI", "true"), ("GITHUB_ACTIONS", "true"), ("TRAVIS", "1"), ("BUILD_NUMBER", "7")],
        &[("NODE_ENV", "production"), ("DEBUG", "*"), ("VERBOSE", "1"), ("npm_config_loglevel", "silent"), ("npm_lifecycle_event", "test")],
        &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("LC_COLLATE", "de_DE"), ("LANGUAGE", "tr")],
        &[("LANG", "C"), ("LC_ALL", "POSIX"), ("TZ", "Asia/Kathmandu"), ("SOURCE_DATE_EPOCH", "0")],
        &[("HOME", "/nonexistent"), ("USER", "nobody"), ("LOGNAME", ""), ("TMPDIR", "/nonexistent"), ("XDG_CONFIG_HOME", "/nonexistent"), ("SHELL", "/bin/false")],
        &[("PWD", "/nonexistent"), ("OLDPWD", "/"), ("INIT_CWD", "/"), ("CDPATH", "/"), ("PATH", "")],
        &[("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full"), ("RUST_LIB_BACKTRACE", "1"), ("RUST_MIN_STACK", "1000000"), ("CARGO_MANIFEST_DIR", "/"), ("RAYON_NUM_THREADS", "1")],
        &[("COLUMNS", "8"), ("LINES", "1"), ("TERM", "dumb"), ("PAGER", "false"), ("EDITOR", "false")],
        &[("QLC_ROOT_DIR", "none"), ("QLC_SCHEMA_PATH", "none"), ("QLC_CONFIG_FILE", "none"), ("QLC_CONFIG", "none"), ("QLC_NUM_THREADS", "0"), ("NUM_THREADS", "0"), ("SCHEMA_PATH", "none"), ("CONFIG_FILE", "none")],
        &[("QLC_USE_CUSTOM_SCALARS", "0"), ("QLC_DISABLE_READONLY_TYPES", "1"), ("QLC_CUSTOM_SCALAR_PREFIX", "X"), ("QLC_GLOBAL_TYPES_MODULE_NAME", "x"), ("QLC_ROOT_DIR_IMPORT_PREFIX", "x"), ("USE_CUSTOM_SCALARS", "0"), ("DISABLE_READONLY_TYPES", "1")],
    ];
    #[derive(Clone)]
    enum Around {
        Vars(usize),
        Beside(&'static str, usize),
        AllBeside,
        Times(usize),
        Modes(u32),
        Called(&'static str),
        From(usize),
    }
    let mut cases: Vec<(String, Around)> = vec![];
    for i in 0..VARS.len() {
        cases.push((format!("variables {:?}", VARS[i].iter().map(|x| x.0).collect::<Vec<_>>()), Around::Vars(i)));
    }
    for i in 0..BESIDE.len() {
        for d in ["", "src/", "src/d/"] {
            cases.push((format!("{d}{} beside the project", BESIDE[i].0), Around::Beside(d, i)));
        }
    }
    cases.push(("files of all other tools beside the project".into(), Around::AllBeside));
    for i in 0..5 {
        cases.push((format!("times of files, {i}"), Around::Times(i)));
    }
    for m in [0o400u32, 0o444, 0o666, 0o777, 0o4755] {
        cases.push((format!("modes of files {m:o}"), Around::Modes(m)));
    }
    for d in ["graphql", "a.graphql", "src.d.ts", "x y", "node_modules", ".hidden", "schema", "src-s", "é", "a/b/c/d/e/f", "d", "lib.graphql/src", "SRC", "test", "dist", "#", "a'b", "src;", "tmp"] {
        cases.push((format!("a root directory named {d}"), Around::Called(d)));
    }
    for i in 0..9 {
        cases.push((format!("run from elsewhere, {i}"), Around::From(i)));
    }
    let errors = {
        let slot = Slot::new();
        install(&slot, schema, 0, want);
        diag::parse(&slot.run(&slot.dir, &arguments(1), &Env::default()).stdout).errors()
    };
    let bad = par(&cases, |slot, _, (_, around)| {
        let mut v = vec![];
        for threads in [1usize, 2] {
            install(slot, schema, 0, want);
            let mut a = arguments(threads);
            let mut dir = slot.dir.clone();
            let mut env = Env::default();
            let mut root = "src".to_string();
            match around {
                Around::Vars(i) => env.vars = VARS[*i],
                Around::Beside(d, i) => {
                    put(&slot.dir, &format!("{d}{}", BESIDE[*i].0), BESIDE[*i].1);
                }
                Around::AllBeside => {
                    for (f, t) in BESIDE {
                        for d in ["", "src/", "src/d/"] {
                            put(&slot.dir, &format!("{d}{f}"), t);
                        }
                    }
                }
                Around::Times(i) => {
                    install(slot, schema, i % 3, want);
                    let now = SystemTime::now();
                    let of = |k: usize| match (i, k % 3) {
                        (0, _) => SystemTime::UNIX_EPOCH,
                        (1, _) => now + Duration::from_secs(40_000_000),
                        (2, 0) | (3, 1) | (4, 2) => now - Duration::from_secs(1_000_000),
                        (2, 1) | (3, 2) | (4, 0) => now + Duration::from_secs(1_000_000),
                        _ => now,
                    };
                    for f in tree(&slot.dir).keys().filter(|f| !f.ends_with('/')) {
                        let k = if f.ends_with(".graphql") { 0 } else if f.ends_with(".json") { 1 } else { 2 };
                        std::fs::File::options().write(true).open(slot.dir.join(f)).unwrap().set_modified(of(k)).unwrap();
                    }
                }
                Around::Modes(m) => {
                    for f in tree(&slot.dir).keys().filter(|f| !f.ends_with('/')) {
                        std::fs::set_permissions(slot.dir.join(f), std::fs::Permissions::from_mode(*m)).unwrap();
                    }
                }
                Around::Called(d) => {
                    let to = slot.dir.join(d);
                    std::fs::create_dir_all(to.parent().unwrap()).unwrap();
                    std::fs::rename(slot.dir.join("src"), to).unwrap();
                    root = d.to_string();
                    a[0] = root.clone();
                }
                Around::From(i) => {
                    std::fs::create_dir_all(slot.dir.join("else/where")).unwrap();
                    let at = |x: &str| slot.dir.join(x).to_str().unwrap().to_string();
                    std::os::unix::fs::symlink("src", slot.dir.join("link")).unwrap();
                    let (d, root, schema) = match i {
                        0 => ("", at("src"), at("schema.json")),
                        1 => ("else/where", at("src"), at("schema.json")),
                        2 => ("else/where", "../../src".into(), "../../schema.json".into()),
                        3 => ("", "./else/../src/.".into(), "././schema.json".into()),
                        4 => ("", "src/".into(), "src/../schema.json".into()),
                        5 => ("src", ".".into(), "../schema.json".into()),
                        6 => ("src/d", "..".into(), "../../schema.json".into()),
                        7 => ("", "link".into(), "schema.json".into()),
                        _ => ("", at("link/"), "link/../schema.json".into()),
                    };
                    dir = slot.dir.join(d);
                    a[0] = root;
                    a[2] = schema;
                }
            }
            let o = slot.run(&dir, &a, &env);
            let got: Tree = outs(&tree(&slot.dir)).into_iter().map(|(k, t)| (k.replacen(&format!("{root}/"), "src/", 1), t)).filter(|(k, _)| want.contains_key(k) || k.ends_with("graphql.d.ts") || !BESIDE.iter().any(|b| k.ends_with(b.0))).collect();
            let d = diag::parse(&o.stdout);
            let e = o.abnormal().or_else(|| differs(want, &got)).or_else(|| (o.code() != 1 || d.errors() != errors).then(|| format!("exit status {}, {} errors", o.code(), d.errors())));
            v.extend(e.map(|e| (e, o)));
        }
        v.pop()
    });
    for ((what, _), x) in cases.iter().zip(bad) {
        if let Some((e, o)) = x {
            r.violation(&format!("{what}: {e}"), &format!("{what}: {e}"), format!("{}\n{}", o.stdout, o.stderr));
        }
    }
    r.cov("surroundings", n(cases.len()));
    cases.len()
}
/// Every interleaving up to a bound gives the same bytes, under several seeds and listing orders.
fn schedules(r: &Report, schema: &str, want: &Tree, report: &[String]) {
    let bound = 1;
    let mut execs = 0;
    let mut left = 0;
    let envs: Vec<(u64, u32)> = if r.thorough { vec![(7, 0), (1, 5), (2, 11), (3, 23)] } else { vec![(1, 5)] };
    for (seed, perm) in envs {
        let setup = |s: &Slot| {
            install(s, schema, 0, &Tree::new());
            (s.dir.clone(), arguments(2))
        };
        let reset = |s: &Slot| {
            for k in outs(&tree(&s.dir)).keys() {
                let _ = std::fs::remove_file(s.dir.join(k));
            }
        };
        let check = |s: &Slot, o: &Outcome| {
            if let Some(a) = o.abnormal() {
                return Err(a);
            }
            if let Some(e) = differs(want, &outs(&tree(&s.dir))) {
                return Err(e);
            }
            if diag::parse(&o.stdout).canon() != report {
                return Err("another report".into());
            }
            Ok("the same".into())
        };
        let st = explore(&Harness { name: "six documents, 2 threads".into(), setup: &setup, reset: &reset, check: &check, env: Env { hashseed: seed, dirperm: perm, ..Env::default() }, bound, time_s: if r.thorough { 200.0 } else { 10.0 }, stop_after: 2 });
        execs += st.execs;
        left += usize::from(st.completed != Some(bound));
        for (k, e) in &st.violations {
            r.violation(&format!("schedule, seed {seed}: {k}"), k, e.clone());
        }
    }
    r.cov("schedules", n(execs));
    r.cov("schedule_preemption_bound", n(bound));
    r.cov("schedule_harnesses_capped_by_time", n(left));
}
