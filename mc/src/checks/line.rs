//! G04: the command line.
use super::types::done;
use crate::diag;
use crate::report::Report;
use crate::runner::*;
use crate::schema::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

const SDL: &str = "scalar Date enum E { X Y } type A { id: ID! d: Date old: Int @deprecated e: E } type Query { a: A }";
/// Options that take a value, with their short forms.
const VALUED: &[(&str, &str)] = &[
    ("config-file", "c"),
    ("schema-path", "s"),
    ("custom-scalar-prefix", ""),
    ("root-dir-import-prefix", ""),
    ("global-types-module-name", ""),
    ("typed-graphql-documentnode-module-name", ""),
    ("num-threads", ""),
];
const FLAGS: &[&str] = &["use-custom-scalars", "disable-readonly-types", "show-deprecation-warnings", "no-color"];

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Given {
    root: Option<String>,
    options: BTreeMap<&'static str, String>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Read {
    Runs(Given),
    Refused,
    /// help or version
    Tells,
    /// help or version beside something wrong
    Either,
}
/// What a command line says, read by the book.
fn read(tokens: &[&str]) -> Read {
    let mut g = Given::default();
    let (mut bad, mut tells) = (false, false);
    let put = |g: &mut Given, name: &'static str, v: Option<&str>| match v {
        None => true,
        Some(v) => {
            let ill = match name {
                "num-threads" => v.parse::<usize>().is_err(),
                "schema-path" | "config-file" => v.is_empty(),
                _ => false,
            };
            g.options.insert(name, v.to_string()).is_some() || ill
        }
    };
    let mut i = 0;
    let mut ended = false;
    while i < tokens.len() {
        let t = tokens[i];
        i += 1;
        // the value of an option is the next word, unless that is an option
        let mut next = || -> Option<&str> {
            let v = tokens.get(i).copied().filter(|v| !v.starts_with('-') || *v == "-");
            i += v.is_some() as usize;
            v
        };
        if ended || !t.starts_with('-') || t == "-" {
            bad |= g.root.replace(t.to_string()).is_some() || t.is_empty();
        } else if t == "--" {
            ended = true;
        } else if let Some(name) = t.strip_prefix("--") {
            let (name, value) = match name.split_once('=') {
                Some((n, v)) => (n, Some(v)),
                None => (name, None),
            };
            if name == "help" || name == "version" {
                bad |= value.is_some();
                tells |= value.is_none();
            } else if let Some(f) = FLAGS.iter().find(|f| **f == name) {
                bad |= value.is_some() || g.options.insert(f, String::new()).is_some();
            } else if let Some((n, _)) = VALUED.iter().find(|x| x.0 == name) {
                let v = value.or_else(&mut next);
                bad |= put(&mut g, n, v);
            } else {
                bad = true;
            }
        } else {
            let (short, rest) = t[1..].split_at(1);
            if let Some((n, _)) = VALUED.iter().find(|x| x.1 == short) {
                let v = if rest.is_empty() { next() } else { Some(rest.strip_prefix('=').unwrap_or(rest)) };
                bad |= put(&mut g, n, v);
            } else if short == "h" || short == "V" {
                tells = true;
                bad |= !rest.is_empty();
            } else {
                bad = true;
            }
        }
    }
    bad |= g.options.contains_key("custom-scalar-prefix") && !g.options.contains_key("use-custom-scalars");
    match (tells, bad) {
        (true, false) => Read::Tells,
        (true, true) => Read::Either,
        (false, true) => Read::Refused,
        (false, false) => Read::Runs(g),
    }
}
/// One way of writing what is given: the long form of each option, in the order of their names.
fn plain(g: &Given) -> Vec<String> {
    let mut v = vec![];
    for (n, x) in &g.options {
        if FLAGS.contains(n) {
            v.push(format!("--{n}"));
        } else if x.starts_with('-') {
            v.push(format!("--{n}={x}"));
        } else {
            v.extend([format!("--{n}"), x.clone()]);
        }
    }
    if let Some(root) = &g.root {
        v.extend(["--".to_string(), root.clone()]);
    }
    v
}
fn install(slot: &Slot) {
    slot.reset();
    for (at, e) in [("a.json", "X Y"), ("b.json", "X Z"), ("schema.json", "X W"), ("src/schema.json", "X V"), ("other/schema.json", "X U")] {
        put(&slot.dir, at, Schema::sdl(&SDL.replace("X Y", e)).json().dump());
    }
    for d in ["src", "other"] {
        put(&slot.dir, &format!("{d}/f.graphql"), "fragment F on A { d }\n");
        put(&slot.dir, &format!("{d}/q.graphql"), "#import \"@/f.graphql\"\nquery Q($e: E) { a { ...F old e } }\n");
        put(&slot.dir, &format!("{d}/r.graphql"), "query R($e: E) { a { d e old } }\n");
    }
    put(&slot.dir, "c.json", "{\"globalTypesModuleName\": \"c\", \"schemaFile\": \"b.json\", \"customScalarPrefix\": \"C\", \"rootDirImportPrefix\": \"@/\"}");
    put(&slot.dir, "d.json", "{\"disableReadonlyTypes\": true, \"useCustomScalars\": true, \"typedGraphqlDocumentnodeModuleName\": \"d\"}");
}
/// What help or version leaves out.
fn untold(line: &[&str], out: &str) -> Option<String> {
    let help = line.iter().position(|t| ["-h", "--help"].contains(t)).unwrap_or(usize::MAX);
    let version = line.iter().position(|t| ["-V", "--version"].contains(t)).unwrap_or(usize::MAX);
    if version < help {
        let manifest = std::fs::read_to_string(crate::build::repo().join("Cargo.toml")).unwrap();
        let v = manifest.lines().find_map(|l| l.strip_prefix("version = \"")).unwrap().trim_end_matches('"');
        return (!out.split_whitespace().any(|w| w == v)).then(|| format!("the version told is not {v}"));
    }
    VALUED.iter().map(|x| x.0).chain(FLAGS.iter().copied()).find(|n| !out.contains(&format!("--{n}"))).map(|n| format!("help has no --{n}"))
}
type Result = (Tree, Vec<String>, i32);
fn shown(slot: &Slot, o: &Outcome) -> Result {
    (tree(&slot.dir), diag::parse(&o.stdout).canon(), o.code())
}
pub fn g04(r: &Report) {
    let mut words: Vec<Vec<&str>> = vec![
        vec!["src"],
        vec!["other"],
        vec!["-s", "a.json"],
        vec!["-sb.json"],
        vec!["-s=a.json"],
        vec!["--schema-path", "b.json"],
        vec!["--schema-path=a.json"],
        vec!["-c", "c.json"],
        vec!["-cd.json"],
        vec!["--config-file=c.json"],
        vec!["--use-custom-scalars"],
        vec!["--custom-scalar-prefix", "P"],
        vec!["--custom-scalar-prefix=Q_"],
        vec!["--root-dir-import-prefix", "@/"],
        vec!["--root-dir-import-prefix=@"],
        vec!["--global-types-module-name", "g"],
        vec!["--typed-graphql-documentnode-module-name=m"],
        vec!["--disable-readonly-types"],
        vec!["--show-deprecation-warnings"],
        vec!["--num-threads", "1"],
        vec!["--num-threads=3"],
        vec!["--no-color"],
        vec!["--nope"],
        vec!["-s"],
        vec!["--"],
        vec!["--help"],
        vec!["-V"],
    ];
    if r.thorough {
        words.extend([
            vec!["--config-file", "d.json"],
            vec!["-c=c.json"],
            vec!["."],
            vec!["--global-types-module-name=x/y"],
            vec!["--typed-graphql-documentnode-module-name", "m"],
            vec!["--num-threads"],
            vec!["-h"],
            vec!["--version"],
        ]);
    }
    let mut lines: Vec<Vec<&str>> = vec![vec![]];
    let mut last = lines.clone();
    for _ in 0..3 {
        last = last.iter().flat_map(|l| words.iter().map(move |w| [l.as_slice(), w].concat())).collect();
        lines.extend(last.clone());
    }
    // single oddities, alone and beside a good line
    let odd: &[&[&str]] = &[
        &["-x"], &["-sx", "-sy"], &["--schema"], &["--schema-pat", "a.json"], &["--schema-pathx=a.json"], &["-S", "a.json"], &["-C", "c.json"], &["--num-threads=x"], &["--num-threads="],
        &["--num-threads", "-1"], &["--num-threads=-1"], &["--num-threads=1.5"], &["--num-threads=0x2"], &["--num-threads", " 2"], &["--num-threads=99999999999999999999999"], &["--num-threads=007"],
        &["--no-color=1"], &["--no-color="], &["--no-colour"], &["--NO-COLOR"], &["-no-color"], &["--use-custom-scalars=true"], &["--use-custom-scalars", "true"], &["--disable-readonly-types", "x", "y"],
        &["--schema-path="], &["-s", ""], &["-c", ""], &["", "src"], &["--config-file"], &["--global-types-module-name"], &["--custom-scalar-prefix=", "--use-custom-scalars"], &["--custom-scalar-prefix"],
        &["src", "src"], &["src", "other"], &["--help=1"], &["-hV"], &["help"], &["--", "--help"], &["--", "src", "-s"], &["---"], &["-"], &["--=x"], &["@file"], &["-vv"], &["-s", "--", "src"],
        &["--schema-path", "-a.json"], &["--schema-path=-a.json"], &["--no-color", "--no-color"], &["--show-deprecation-warnings", "--show-deprecation-warnings"], &["--num-threads=1", "--num-threads=1"],
    ];
    for o in odd {
        lines.push(o.to_vec());
        for w in &words {
            lines.push([w.as_slice(), o].concat());
            lines.push([o, w.as_slice()].concat());
        }
    }
    // a long line, in every rotation and reversed: the order of options says nothing
    let long: Vec<Vec<&str>> = vec![
        vec!["src"], vec!["-s", "a.json"], vec!["--use-custom-scalars"], vec!["--custom-scalar-prefix=P"], vec!["--root-dir-import-prefix", "@/"], vec!["--global-types-module-name=@/g"],
        vec!["--typed-graphql-documentnode-module-name", "m"], vec!["--disable-readonly-types"], vec!["--show-deprecation-warnings"], vec!["--num-threads", "2"], vec!["--no-color"], vec!["-cc.json"],
    ];
    for k in 0..long.len() {
        for skip in 0..=long.len() {
            let mut v: Vec<&Vec<&str>> = long.iter().enumerate().filter(|(i, _)| *i != skip).map(|(_, w)| w).collect();
            let n = v.len();
            v.rotate_left(k % n);
            lines.push(v.iter().flat_map(|w| w.iter().copied()).collect());
            v.reverse();
            lines.push(v.iter().flat_map(|w| w.iter().copied()).collect());
        }
    }
    let reads: Vec<Read> = lines.iter().map(|l| read(l)).collect();
    // what each thing that can be given does, in its plainest form
    let known: Mutex<HashMap<Given, Result>> = Mutex::new(HashMap::new());
    let given: Vec<Given> = {
        let mut s = std::collections::HashSet::new();
        reads.iter().filter_map(|x| if let Read::Runs(g) = x { Some(g.clone()) } else { None }).filter(|g| s.insert(g.clone())).collect()
    };
    par(&given, |slot, _, g| {
        install(slot);
        let o = slot.run(&slot.dir, &plain(g), &Env::default());
        if let Some(e) = o.abnormal().or_else(|| (o.code() == 2).then(|| format!("refused: {}", o.stderr.lines().next().unwrap_or("")))) {
            r.violation(&format!("{}: {e}", plain(g).join(" ")), &e, o.stderr.clone());
        }
        known.lock().unwrap().insert(g.clone(), shown(slot, &o));
    });
    let known = known.into_inner().unwrap();
    if r.bad() == 0 {
        let slot = Slot::new();
        install(&slot);
        let before = tree(&slot.dir);
        let bad = par(&lines, |slot, i, l| {
            install(slot);
            let a: Vec<String> = l.iter().map(|x| x.to_string()).collect();
            let o = slot.run(&slot.dir, &a, &Env::default());
            if let Some(e) = o.abnormal() {
                return Some((e, o));
            }
            let idle = || {
                if tree(&slot.dir) != before {
                    Some("something was written".to_string())
                } else {
                    o.io.iter().find(|e| !e.denied && e.path.ends_with(".graphql") || e.path.ends_with(".json")).map(|e| format!("{} was read", e.path))
                }
            };
            let e = match &reads[i] {
                Read::Refused if o.code() != 2 => Some(format!("exit status {} instead of being refused", o.code())),
                Read::Refused if o.stderr.trim().is_empty() => Some("refused without a word".into()),
                Read::Tells if o.code() != 0 => Some(format!("exit status {} instead of help or version", o.code())),
                Read::Tells => untold(l, &o.stdout).or_else(idle),
                Read::Either if o.code() != 0 && o.code() != 2 => Some(format!("exit status {}", o.code())),
                Read::Refused | Read::Either => idle(),
                Read::Runs(g) => {
                    let (t, d, c) = shown(slot, &o);
                    let w = &known[g];
                    if c != w.2 {
                        Some(format!("exit status {c} instead of {} {}", w.2, o.stderr.lines().next().unwrap_or("")))
                    } else if t != w.0 {
                        Some("other files than with the plain form".into())
                    } else {
                        (d != w.1).then(|| "another report than with the plain form".into())
                    }
                }
            };
            e.map(|e| (e, o))
        });
        for (l, e) in lines.iter().zip(bad) {
            if let Some((e, o)) = e {
                r.violation(&format!("qlc {}: {e}", l.join(" ")), &e, format!("{:?}\n{}\n{}", read(l), o.stdout, o.stderr));
            }
        }
    }
    let count = |f: &dyn Fn(&Read) -> bool| reads.iter().filter(|x| f(x)).count();
    for (what, c) in [
        ("run", count(&|x| matches!(x, Read::Runs(_)))),
        ("refused", count(&|x| *x == Read::Refused)),
        ("help or version", count(&|x| matches!(x, Read::Tells | Read::Either))),
    ] {
        r.outcome(&format!("{what}: {c} lines"));
    }
    r.cov("distinct_settings", crate::json::n(given.len()));
    r.sample(format!("all lines of up to 3 of {} words and {} oddities", words.len(), odd.len()));
    done(r, lines.len());
}
