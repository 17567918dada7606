//! E06: what a diagnostic shows and suggests is true.
use super::errors::{faults, Bad};
use super::types::{common_of, done, families, family_docs, frags_of, library, one_line};
use crate::batch::*;
use crate::diag::{self, Diag};
use crate::doc::Doc;
use crate::report::Report;
use crate::runner::*;
use crate::schema::*;
use std::collections::{BTreeMap, BTreeSet};

/// The lines of a text, as GraphQL ends them.
fn lines(t: &str) -> Vec<(usize, &str)> {
    let mut out = vec![];
    let b = t.as_bytes();
    let (mut at, mut i) = (0, 0);
    while i < b.len() {
        if b[i] == b'\n' || b[i] == b'\r' {
            out.push((at, &t[at..i]));
            if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') {
                i += 1;
            }
            at = i + 1;
        }
        i += 1;
    }
    out.push((at, &t[at..]));
    out
}
fn bare(t: &str) -> String {
    t.replace('\u{feff}', "")
}
/// Does the picture show the line named, with its mark below the column named?
pub fn picture(d: &Diag, text: &str) -> Option<String> {
    let (Some(line), Some(col)) = (d.line, d.col) else {
        return (!d.body.trim().is_empty() && d.line.is_some()).then(|| "a line without a column".to_string());
    };
    let all = lines(text);
    let Some((_, want)) = all.get(line.wrapping_sub(1)) else { return Some(format!("names line {line} of {}", all.len())) };
    let head = format!("{line} |");
    let rows: Vec<&str> = d.body.lines().collect();
    let Some(at) = rows.iter().position(|l| l.trim_start().starts_with(&head)) else { return Some(format!("line {line} is not shown")) };
    let bar = rows[at].find('|').unwrap();
    let shown = rows[at][bar + 1..].strip_prefix(' ').unwrap_or(&rows[at][bar + 1..]);
    if bare(shown.trim_end_matches('\r')) != bare(want) {
        return Some(format!("shows {shown:?} as line {line}, which is {want:?}"));
    }
    let Some(mark) = rows.get(at + 1) else { return Some("no mark below the line".into()) };
    if mark.get(..bar + 1).map(|x| x.trim()) != Some("|") {
        return Some(format!("the mark's row {mark:?} is not in line with that of the source"));
    }
    let m = mark[bar + 1..].strip_prefix(' ').unwrap_or("");
    if m.trim_start_matches(' ') != "^" || m.len() != col {
        return Some(format!("the mark {m:?} is not below column {col}"));
    }
    let wide: usize = want.chars().map(|c| if c == '\t' { 8 } else { 1 }).sum();
    if col > wide {
        return Some(format!("column {col} of a line of {wide}"));
    }
    None
}
/// Where the byte `at` of a text is; a tab counts as one column or as eight, a byte order mark as none or one.
fn places(text: &str, at: usize) -> BTreeSet<(usize, usize)> {
    let all = lines(text);
    let k = all.iter().rposition(|(s, _)| *s <= at).unwrap();
    let before = &text[all[k].0..at];
    let mut out = BTreeSet::new();
    for tab in [1, 8] {
        for bom in [0, 1] {
            out.insert((k + 1, 1 + before.chars().map(|c| match c { '\t' => tab, '\u{feff}' => bom, _ => 1 }).sum::<usize>()));
        }
    }
    out
}
fn seqs(al: &[&str], n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| al.iter().map(move |c| format!("{s}{c}"))).collect();
        all.extend(last.clone());
    }
    all
}
const SDL: &str = "interface N { id: ID! n: N } type A implements N { id: ID! n: N a: Int old: Int @deprecated f: Int k: B } \
 type B implements N { id: ID! n: N b: Int } union U = A | B input I { a: Int } enum E { X Y } scalar S \
 type Query { id: ID a: A n: N u: U f: Int old: Int @deprecated }";
const SPACE: &[&str] = &[" ", "\n", "\r\n", "\r", "\t", ",", "# é }\n", "#c\r\n", "\u{feff}", "#😀 \"\r", "#\u{2028}x\u{85}y\u{2029}\n"];
const INNER: &[&str] = &[" ", "\n", "\r\n", "\r", "\t", ",", "# é }\n", "#c\r\n", "\u{feff}", "id ", "v:f(x: \"é😀#\") ", "v:f(x: \"\"\"é\n \"\" #z\"\"\")", "a{id}", "v:f(x: \"\u{2028}\u{85}\")", "#\u{2029}\n"];
const ABOVE: &[&str] = &["\n", "\r\n", "\r", "#\n", "# é\r\n", " \t\n", "  # #import \"x\"\n", "#\u{2028}\u{85}\n"];
/// One thing to complain of: what is before it, the item, what is after it, what the complaint names.
struct Kind {
    pre: &'static str,
    noise: &'static [&'static str],
    item: &'static str,
    post: &'static str,
    /// offset of the place within the item
    off: usize,
    says: &'static [&'static str],
}
const fn kind(pre: &'static str, noise: &'static [&'static str], item: &'static str, post: &'static str, says: &'static [&'static str]) -> Kind {
    Kind { pre, noise, item, post, off: 0, says }
}
const KINDS: &[Kind] = &[
    kind("query Q {", INNER, "nope", " id }", &["unknown field `nope`", "`Query`"]),
    kind("query Q {", INNER, "id: nope", "}\n", &["unknown field `nope`"]),
    kind("query Q { id n {id ... on A {", INNER, "nope @x", "}}}", &["unknown field `nope`", "`A`"]),
    Kind { off: 3, ..kind("query Q {", INNER, "...Nope", " }", &["unknown spread fragment name `Nope`"]) },
    Kind { off: 4, ..kind("query Q {", INNER, "... on Nope{ id }", " }", &["`Nope`"]) },
    Kind { off: 4, ..kind("query Q {", INNER, "... { id }", " }", &["missing type condition"]) },
    kind("query Q {", INNER, "n", " }", &["expected selection on field of type `N`"]),
    kind("query Q {", INNER, "f { id }", " }", &["unexpected selection on field of type `Int`"]),
    Kind { off: 4, ..kind("query Q { a {", INNER, "... on B { id }", "}}", &["fragment over narrowing with type `B`"]) },
    kind("query Q { u {...on A{", INNER, "old", "}}}", &["use of deprecated field `old` on type `A`"]),
    kind("query Q($k: E,", SPACE, "$v: Nope", ") { id }", &["unknown type for variable `Nope`"]),
    kind("query Q($k: E,", SPACE, "$v: [[I]]", ") { id }", &["unsupported list of lists type"]),
    kind("query Q($k: E,", SPACE, "$v: A!", ") { id }", &["unexpected output type for variable `A`"]),
    kind("", SPACE, "{ id }", "", &["unsupported selection set as operation"]),
    kind("", SPACE, "fragment F on Nope", " { id }", &["`Nope`"]),
    kind("", SPACE, "mutation", " { id }", &["`Mutation`"]),
    kind("query Q { id }", SPACE, "query R", " { id }", &["multi definition"]),
    kind("fragment F on A { id }", SPACE, "{ id }", "", &["multi definition"]),
    Kind { pre: "", noise: ABOVE, item: "#import \"./nope.graphql\"\n", post: "query { id }", off: 8, says: &["could not read", "nope.graphql"] },
    Kind { pre: "#import \"./good.graphql\"\r\n", noise: ABOVE, item: "#import \"q.graphql\"\r\n", post: "query { id }", off: 8, says: &["cannot import non-fragment", "q.graphql"] },
];
/// Every complaint, after everything that can come before it.
fn places_of_kinds(r: &Report) -> usize {
    let mut p = Project::new(Schema::sdl(SDL).json().dump());
    p.args = args(&["--show-deprecation-warnings"]);
    p.common = vec![("q.graphql".into(), "query { id }\n".into())];
    let mut cases = vec![];
    let mut of = vec![];
    for (k, x) in KINDS.iter().enumerate() {
        let n = if x.noise.len() > 11 { 3 } else { 4 } + r.thorough as usize;
        for noise in seqs(x.noise, n) {
            let text = format!("{}{noise}{}{}", x.pre, x.item, x.post);
            of.push((k, x.pre.len() + noise.len() + x.off));
            cases.push(Case { files: vec![("m.graphql".into(), text), ("good.graphql".into(), "fragment G on A { id }\n".into())] });
        }
    }
    let mut seen = BTreeMap::new();
    for (lo, part) in cases.chunks(60000).enumerate().map(|(i, c)| (i * 60000, c)) {
        let (got, _) = run_cases(&p, part);
        for (i, (c, g)) in part.iter().zip(&got).enumerate() {
            let (k, at) = of[lo + i];
            let text = &c.files[0].1;
            let want = places(text, at);
            let mut e = g.abnormal.clone();
            let hit = g.diags.iter().find(|d| KINDS[k].says.iter().all(|s| format!("{} {}", d.msg, d.help.as_deref().unwrap_or("")).contains(s)));
            match hit {
                _ if e.is_some() => {}
                None => e = Some(format!("nobody says {:?}", KINDS[k].says)),
                Some(d) => {
                    let got = (d.line.unwrap_or(0), d.col.unwrap_or(0));
                    if !want.contains(&got) {
                        e = Some(format!("{} at {got:?} instead of {want:?}", d.msg.trim()));
                    }
                }
            }
            let e = e.or_else(|| g.diags.iter().find_map(|d| picture(d, text)));
            if let Some(e) = e {
                let w = KINDS[k].says[0];
                r.violation(&format!("{w} {}: {e}", one_line(&Case::one(text.clone()))), &format!("{w}: {}", e.split(" at (").next().unwrap_or("")), format!("{e}\n{:?}\n{}{:#?}", text, c.show(), g.diags));
            } else {
                *seen.entry(k).or_insert(0usize) += 1;
            }
        }
    }
    for (k, c) in seen {
        r.outcome(&format!("{} in {c} places", KINDS[k].says[0]));
    }
    r.sample(format!("{} complaints, each after every sequence of up to 3 or 4 things that can come before it: {} documents", KINDS.len(), cases.len()));
    cases.len()
}
/// Long texts and long lines: numbers of every length.
fn far(r: &Report) -> usize {
    let p = Project::new(Schema::sdl(SDL).json().dump());
    let mut texts = vec![];
    for k in (0..1100).chain([9990, 9997, 9998, 9999, 10000, 99998, 99999, 100001]) {
        texts.push(format!("query Q {{{}nope }}", "\n".repeat(k)));
    }
    for k in (0..300).chain([990, 999, 1000, 9999, 70000]) {
        texts.push(format!("query Q {{{}nope }}", " ".repeat(k)));
        texts.push(format!("query Q {{{}{}nope }}", "\n# é\n".repeat(k % 13), ", ".repeat(k)));
    }
    let cases: Vec<Case> = texts.iter().map(|t| Case::one(t.clone())).collect();
    let (got, _) = run_cases(&p, &cases);
    for (c, g) in cases.iter().zip(&got) {
        let t = &c.files[0].1;
        let want = places(t, t.find("nope").unwrap());
        let e = g.abnormal.clone().or_else(|| match g.diags.first() {
            Some(d) if want.contains(&(d.line.unwrap_or(0), d.col.unwrap_or(0))) => picture(d, t),
            d => Some(format!("at {:?} instead of {want:?}", d.map(|d| (d.line, d.col)))),
        });
        if let Some(e) = e {
            r.violation(&format!("far away, {want:?}: {e}"), "far away", format!("{e}\n{:?}\n{}", t.chars().take(2000).collect::<String>(), g.show()));
        }
    }
    cases.len()
}
/// The faulty documents of E01, smaller: the picture of everything said of them.
fn pictures(r: &Report) -> usize {
    let schema = Schema::sdl(super::types::SDL);
    let lib = library();
    let frags = frags_of(&lib);
    let mut p = Project::new(schema.json().dump());
    p.args = args(&["--show-deprecation-warnings"]);
    p.common = common_of(&lib);
    let mut bads: Vec<Bad> = vec![];
    for f in families() {
        if ["narrowing", "nested merge", "deep", "spreads", "queries", "mutations"].contains(&f.name) {
            let docs = family_docs(&f, &schema, &frags, if r.thorough { 3 } else { 2 });
            bads.extend(docs.iter().enumerate().flat_map(|(i, d)| faults(&schema, &Doc { layout: (i % 5) as u8, ..d.clone() })));
        }
    }
    let eol = ["\n", "\r\n", "\r"];
    let cases: Vec<Case> = bads.iter().enumerate().map(|(i, b)| Case::one(b.files[0].1.replace("\r\n", "\n").replace('\n', eol[i % 3]))).collect();
    let (got, _) = run_cases(&p, &cases);
    for ((c, g), b) in cases.iter().zip(&got).zip(&bads) {
        let text = &c.files[0].1;
        let e = g.abnormal.clone().or_else(|| g.diags.iter().find_map(|d| picture(d, text))).or_else(|| {
            let l = b.line?;
            g.errors().iter().find(|d| d.line != Some(l)).map(|d| format!("line {:?} instead of {l}", d.line))
        });
        if let Some(e) = e {
            r.violation(&format!("{}: {e}", one_line(c)), &format!("{}: picture", b.kind), format!("{e}\n{:?}\n{}{:#?}", text, c.show(), g.diags));
        }
    }
    cases.len()
}
/// Is one word reached from the other by fewer than three edits?
fn near(a: &str) -> BTreeSet<String> {
    // by trying them all: an edit takes a letter away, puts one in, replaces one or swaps two neighbours
    let step = |s: &str| -> Vec<String> {
        let c: Vec<char> = s.chars().collect();
        let mut out = vec![];
        for i in 0..=c.len() {
            for x in LETTERS.chars() {
                let mut d = c.clone();
                d.insert(i, x);
                out.push(d.iter().collect());
                if i < c.len() {
                    let mut d = c.clone();
                    d[i] = x;
                    out.push(d.iter().collect());
                }
            }
            if i < c.len() {
                let mut d = c.clone();
                d.remove(i);
                out.push(d.iter().collect());
            }
            if i + 1 < c.len() {
                let mut d = c.clone();
                d.swap(i, i + 1);
                out.push(d.iter().collect());
            }
        }
        out
    };
    let one: BTreeSet<String> = step(a).into_iter().chain([a.to_string()]).collect();
    one.iter().flat_map(|s| step(s)).chain(one.iter().cloned()).collect()
}
const LETTERS: &str = "abcABC_";
fn words(al: &str, lo: usize, hi: usize) -> Vec<String> {
    let mut out = vec![];
    let mut last = vec![String::new()];
    for k in 1..=hi {
        last = last.iter().flat_map(|s| al.chars().map(move |c| format!("{s}{c}"))).collect();
        if k >= lo {
            out.extend(last.clone());
        }
    }
    out
}
/// The names a help text has in backticks.
fn ticked(t: &str) -> Vec<String> {
    t.split('`').skip(1).step_by(2).map(|x| x.to_string()).collect()
}
fn same(got: &[String], want: &BTreeSet<String>) -> bool {
    got.len() == want.len() && got.iter().all(|x| want.contains(x))
}
/// Every misspelling of every short name, among fields and among fragments.
fn suggestions(r: &Report) -> usize {
    let mut total = 0;
    let fields = words("ab", 1, if r.thorough { 5 } else { 4 });
    let mut asked = words("abc", 1, if r.thorough { 6 } else { 5 });
    asked.extend(words("aA_", 1, 4));
    asked.retain(|a| !fields.contains(a));
    let nears: Vec<BTreeSet<String>> = pmap(&asked, |_, a| near(a));
    let sdl = format!("type Query {{ {} }} type Other {{ bac: Int cab: Int }}", fields.iter().map(|f| format!("{f}: Int")).collect::<Vec<_>>().join(" "));
    let p = Project::new(Schema::sdl(&sdl).json().dump());
    let cases: Vec<Case> = asked.iter().map(|a| Case::one(format!("query {{ {a} }}\n"))).collect();
    let (got, _) = run_cases(&p, &cases);
    total += cases.len();
    let mut some = 0;
    for ((a, near), g) in asked.iter().zip(&nears).zip(&got) {
        let want: BTreeSet<String> = fields.iter().filter(|f| near.contains(*f)).cloned().collect();
        let e = match g.diags.as_slice() {
            [d] => {
                let t = ticked(d.help.as_deref().unwrap_or(""));
                some += want.len();
                if t.first().map(|x| x.as_str()) != Some("Query") {
                    Some("the help does not name the type".into())
                } else {
                    (!same(&t[1..], &want)).then(|| format!("{:?} are suggested instead of {want:?}", &t[1..]))
                }
            }
            d => Some(format!("{} messages", d.len())),
        };
        if let Some(e) = e {
            r.violation(&format!("a field {a}: {e}"), "suggested fields", format!("{e}\n{}", g.show()));
        }
    }
    // fragments: exactly those in scope
    let names = ["a", "ab", "abc", "cab", "aab", "bbbb", "A_", "aBc"];
    let others = ["b", "abcc", "ba", "bbb"];
    let mut p = Project::new(Schema::sdl(SDL).json().dump());
    for (i, x) in names.iter().chain(&others).enumerate() {
        p.common.push((format!("f{i}.graphql"), format!("{}fragment {x} on A {{ id }}\n", if i + 1 < names.len() && i % 3 != 2 { format!("#import \"f{}.graphql\"\n", i + 1) } else { String::new() })));
    }
    // importing i imports all up to the next multiple of three
    let scope = |from: &[usize]| -> BTreeSet<&str> { from.iter().flat_map(|i| (*i..=(*i / 3 * 3 + 2).min(names.len() - 1)).map(|k| names[k])).collect() };
    let mut cases = vec![];
    let mut of = vec![];
    let ask = words("abc", 1, if r.thorough { 4 } else { 3 });
    for from in [vec![], vec![0], vec![1], vec![2], vec![3, 6], vec![0, 3, 6], vec![5], vec![7, 1]] {
        for a in &ask {
            let in_scope = scope(&from);
            if !in_scope.contains(a.as_str()) {
                of.push((a.clone(), in_scope));
                cases.push(Case::one(format!("{}query {{ a {{ ...{a} }} }}\n", from.iter().map(|i| format!("#import \"f{i}.graphql\"\n")).collect::<String>())));
            }
        }
    }
    let (got, _) = run_cases(&p, &cases);
    total += cases.len();
    for (((a, sc), g), c) in of.iter().zip(&got).zip(&cases) {
        let near = near(a);
        let want: BTreeSet<String> = sc.iter().filter(|f| near.contains(**f)).map(|x| x.to_string()).collect();
        let e = match g.diags.as_slice() {
            [d] => {
                let h = d.help.as_deref().unwrap_or("");
                let t = ticked(h);
                if !same(&t, &want) {
                    Some(format!("{t:?} are suggested instead of {want:?}"))
                } else {
                    (want.is_empty() != h.contains("forget to import")).then(|| format!("with {} suggestions the help is {h:?}", want.len()))
                }
            }
            d => Some(format!("{} messages", d.len())),
        };
        if let Some(e) = e {
            r.violation(&format!("a fragment {a} with {sc:?} in scope: {e}"), "suggested fragments", format!("{e}\n{}{}", c.show(), g.show()));
        }
    }
    // the type asked is the one at hand
    let schema = Schema::sdl("interface N { name: Int n: N } type A implements N { name: Int n: N nama: Int namb: Int b: B u: U } type B implements N { name: Int n: N naam: Int a: A } union U = A | B type Query { a: A n: N u: U b: B namq: Int }");
    let p = Project::new(schema.json().dump());
    let mut ways: Vec<(String, String, String)> = vec![("query { ".into(), "}".into(), "Query".into())];
    let mut last = ways.clone();
    for _ in 0..if r.thorough { 4 } else { 3 } {
        let mut next = vec![];
        for (a, z, t) in &last {
            for f in schema.fields(t) {
                if schema.composite(f.ty.named()) {
                    next.push((format!("{a}{} {{ ", f.name), format!(" }}{z}"), f.ty.named().to_string()));
                }
            }
            for c in ["A", "B", "N", "U"] {
                if t != "Query" {
                    next.push((format!("{a}... on {c} {{ "), format!(" }}{z}"), c.to_string()));
                }
            }
        }
        ways.extend(next.clone());
        last = next;
    }
    let ask = ["nam", "namc", "naame", "typename", "__typenam", "x", "nmae", "namqq"];
    let nears: Vec<BTreeSet<String>> = ask.iter().map(|a| schema_near(a)).collect();
    let cases: Vec<Case> = ways.iter().flat_map(|(a, z, _)| ask.iter().map(move |q| Case::one(format!("{a}{q}{z}\n")))).collect();
    let (got, _) = run_cases(&p, &cases);
    total += cases.len();
    for (i, g) in got.iter().enumerate() {
        let (t, q) = (&ways[i / ask.len()].2, i % ask.len());
        let want: BTreeSet<String> = schema.fields(t).iter().map(|f| f.name.as_str()).chain(["__typename"]).filter(|f| nears[q].contains(*f)).map(|x| x.to_string()).collect();
        let e = match g.errors().as_slice() {
            [d] => {
                let k = ticked(d.help.as_deref().unwrap_or(""));
                (k.first() != Some(t) || !same(&k[1..], &want)).then(|| format!("names {k:?} instead of {t} and {want:?}"))
            }
            d => Some(format!("{} errors", d.len())),
        };
        if let Some(e) = e {
            r.violation(&format!("{}: {e}", one_line(&cases[i])), "suggested fields of a type", format!("{e}\n{}{}", cases[i].show(), g.show()));
        }
    }
    r.cov("suggestions_met", crate::json::n(some));
    total
}
/// As `near`, for the few names of a schema: by the distance itself.
fn schema_near(a: &str) -> BTreeSet<String> {
    ["name", "n", "nama", "namb", "naam", "a", "b", "u", "namq", "__typename"]
        .iter()
        .filter(|x| {
            // meet in the middle, over the letters of both
            let al: BTreeSet<char> = a.chars().chain(x.chars()).collect();
            let ball = |s: &str| -> BTreeSet<String> {
                let c: Vec<char> = s.chars().collect();
                let mut out = BTreeSet::from([s.to_string()]);
                for i in 0..=c.len() {
                    for l in &al {
                        let mut d = c.clone();
                        d.insert(i, *l);
                        out.insert(d.iter().collect());
                        if i < c.len() {
                            d = c.clone();
                            d[i] = *l;
                            out.insert(d.iter().collect());
                        }
                    }
                    if i < c.len() {
                        let mut d = c.clone();
                        d.remove(i);
                        out.insert(d.iter().collect());
                    }
                    if i + 1 < c.len() {
                        let mut d = c.clone();
                        d.swap(i, i + 1);
                        out.insert(d.iter().collect());
                    }
                }
                out
            };
            !ball(a).is_disjoint(&ball(x))
        })
        .map(|x| x.to_string())
        .collect()
}
/// Which types a narrowing warning says were possible.
fn narrowing(r: &Report) -> usize {
    let schema = Schema::sdl("interface N { id: ID } interface M { id: ID } type A implements N & M { id: ID } type B implements N { id: ID } type C implements M { id: ID } type D { id: ID } \
        union U = A | B union V = C | D union W = A | D type Query { n: N m: M u: U v: V w: W a: A d: D l: [[U!]] }");
    let p = Project::new(schema.json().dump());
    let conds = ["N", "M", "U", "V", "W", "A", "B", "C", "D"];
    let mut chains: Vec<Vec<&str>> = vec![vec![]];
    let mut last = chains.clone();
    for _ in 0..if r.thorough { 4 } else { 3 } {
        last = last.iter().flat_map(|c| conds.iter().map(move |x| [c.as_slice(), &[*x]].concat())).collect();
        chains.extend(last.clone());
    }
    let mut cases = vec![];
    let mut wants: Vec<Vec<(String, BTreeSet<String>)>> = vec![];
    for f in schema.fields("Query") {
        for c in &chains {
            let mut poss: BTreeSet<String> = schema.possible(f.ty.named()).into_iter().collect();
            let mut want = vec![];
            for x in c {
                let q: BTreeSet<String> = schema.possible(x).into_iter().collect();
                let both: BTreeSet<String> = poss.intersection(&q).cloned().collect();
                if both.is_empty() {
                    want.push((x.to_string(), poss.clone()));
                }
                poss = both;
            }
            want.sort();
            wants.push(want);
            cases.push(Case::one(format!("query {{ {} {{ __typename {} __typename {} }} }}\n", f.name, c.iter().map(|x| format!("... on {x} {{ ")).collect::<String>(), " }".repeat(c.len()))));
        }
    }
    let (got, _) = run_cases(&p, &cases);
    for ((c, g), want) in cases.iter().zip(&got).zip(&wants) {
        let mut have: Vec<(String, BTreeSet<String>)> = vec![];
        let mut e = g.abnormal.clone();
        for d in g.warnings() {
            let t = ticked(&d.msg).pop().unwrap_or_default();
            let h = ticked(d.help.as_deref().unwrap_or(""));
            if h.last() != Some(&t) || ticked(&d.msg).len() != 1 {
                e = Some("the help speaks of another type".into());
            }
            let of: Vec<String> = h[..h.len().saturating_sub(1)].iter().filter(|x| !x.is_empty()).cloned().collect();
            let set: BTreeSet<String> = of.iter().cloned().collect();
            if set.len() != of.len() {
                e = Some("a type is listed twice".into());
            }
            have.push((t, set));
        }
        have.sort();
        if e.is_none() && have != *want {
            e = Some(format!("the possible types are given as {have:?} instead of {want:?}"));
        }
        if let Some(e) = e {
            r.violation(&format!("{}: {e}", one_line(c)), "types left by narrowing", format!("{e}\n{}{}{:#?}", c.show(), g.show(), g.diags));
        }
    }
    cases.len() + crowds(r)
}
/// However many types are still possible, all are listed.
fn crowds(r: &Report) -> usize {
    let max = if r.thorough { 300 } else { 130 };
    let mut sdl = String::from("type Z { id: ID } ");
    let mut query = String::from("type Query { z: Z ");
    for i in 0..max {
        sdl.push_str(&format!("type T{i} {{ id: ID }} "));
    }
    for k in 1..=max {
        sdl.push_str(&format!("union U{k} = {} ", (0..k).map(|i| format!("T{i}")).collect::<Vec<_>>().join(" | ")));
        query.push_str(&format!("u{k}: U{k} "));
    }
    let p = Project::new(Schema::sdl(&format!("{sdl} {query} }}")).json().dump());
    let cases: Vec<Case> = (1..=max).map(|k| Case::one(format!("query {{ u{k} {{ __typename ... on Z {{ id }} }} }}\n"))).collect();
    let (got, _) = run_cases(&p, &cases);
    for (i, (c, g)) in cases.iter().zip(&got).enumerate() {
        let want: BTreeSet<String> = (0..=i).map(|i| format!("T{i}")).collect();
        let w = g.warnings();
        let have: Vec<String> = w.first().and_then(|d| d.help.as_deref()).map(ticked).unwrap_or_default().into_iter().filter(|x| x != "Z").collect();
        if g.abnormal.is_some() || w.len() != 1 || !same(&have, &want) {
            r.violation(&format!("{} possible types are listed as {}", i + 1, have.len()), "types left by narrowing", format!("{}{}", c.show(), g.show()));
        }
    }
    cases.len()
}
/// Colours are added to the text and can be turned off.
fn colours(r: &Report) -> usize {
    let schema = Schema::sdl(SDL).json().dump();
    let texts: Vec<(&str, Vec<(&str, &str)>)> = vec![
        ("nothing wrong", vec![("src/a.graphql", "query { id }\n")]),
        ("everything", vec![("src/a.graphql", "query Q { nope n { idd } ...X a { ... on B { id } old } }\n"), ("src/b.graphql", "query Q { a { ... on B { id } old } }\n"), ("src/c.graphql", "query {\n"), ("src/d.graphql", "#import \"x\"\nquery { id }\n"), ("src/e.graphql", "{ id }")]),
        ("a bad schema", vec![("schema.json", "{}"), ("src/a.graphql", "query { id }\n")]),
        ("a bad configuration", vec![(".qlcrc.json", "{\"numThreads\": \"x\"}"), ("src/a.graphql", "query { id }\n")]),
        ("a bad name", vec![(".qlcrc.json", "{\"globalTypesModuleName\": \"..\"}"), ("src/a.graphql", "query($e: E) { id }\n")]),
    ];
    let strip = |t: &str| -> String {
        let mut out = String::new();
        let mut rest = t;
        while let Some(i) = rest.find('\u{1b}') {
            out.push_str(&rest[..i]);
            rest = rest[i..].split_once('m').map_or("", |x| x.1);
        }
        out + rest
    };
    let mut total = 0;
    for (what, files) in &texts {
        let slot = Slot::new();
        let go = |flag: bool, vars: &'static [(&'static str, &'static str)]| {
            slot.reset();
            put(&slot.dir, "schema.json", &schema);
            for (f, t) in files {
                put(&slot.dir, f, t);
            }
            let mut a = args(&["src", "-s", "schema.json", "--show-deprecation-warnings", "--num-threads", "1"]);
            if flag {
                a.push("--no-color".into());
            }
            slot.run(&slot.dir, &a, &Env { vars, ..Env::default() })
        };
        let paint = |o: &Outcome| -> Vec<String> {
            let mut d: Vec<String> = diag::parse(&o.stdout).canon();
            d.push(o.stdout.lines().count().to_string());
            d.push(o.code().to_string());
            d
        };
        let plain = go(false, &[]);
        let want = paint(&plain);
        let runs: [(&str, bool, &'static [(&'static str, &'static str)], Option<bool>); 8] = [
            ("--no-color", true, &[], Some(false)),
            ("CLICOLOR_FORCE", false, &[("CLICOLOR_FORCE", "1")], Some(true)),
            ("CLICOLOR_FORCE --no-color", true, &[("CLICOLOR_FORCE", "1")], Some(false)),
            ("CLICOLOR_FORCE CLICOLOR --no-color", true, &[("CLICOLOR_FORCE", "1"), ("CLICOLOR", "1"), ("TERM", "xterm")], Some(false)),
            ("NO_COLOR", false, &[("NO_COLOR", "1")], Some(false)),
            ("TERM", false, &[("TERM", "xterm-256color")], Some(false)),
            ("CLICOLOR=0", false, &[("CLICOLOR", "0")], Some(false)),
            ("NO_COLOR --no-color", true, &[("NO_COLOR", "1")], Some(false)),
        ];
        for (name, flag, vars, colour) in runs {
            let mut o = go(flag, vars);
            total += 1;
            let has = o.stdout.contains('\u{1b}');
            let mut e = o.abnormal();
            if e.is_none() && colour.is_some_and(|c| has != (c && !plain.stdout.trim().is_empty())) {
                e = Some(if has { "colours nobody wants".to_string() } else { "no colours".into() });
            }
            o.stdout = strip(&o.stdout);
            if e.is_none() && paint(&o) != want {
                e = Some("another text than without colours".into());
            }
            if let Some(e) = e {
                r.violation(&format!("{what}, {name}: {e}"), &e, format!("{:?}\n{:?}", plain.stdout, o.stdout));
            }
        }
    }
    total
}
pub fn e06(r: &Report) {
    let mut total = 0;
    for f in [places_of_kinds, far, pictures, suggestions, narrowing, colours] {
        total += f(r);
    }
    done(r, total);
}
