//! N01, N02, N03: the scripts and declarations of the npm package.
use super::types::{common_of, families, family_docs, frags_of, library, SDL};
use crate::build::{repo, target, verif};
use crate::doc::*;
use crate::json::{n, J};
use crate::report::Report;
use crate::runner::{args, put, tree, Env, Slot};
use crate::schema::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn package() -> PathBuf {
    repo().join("pkg/npm")
}
/// Runs npm/drive.js and takes over what it reports.
fn drive(r: &Report, id: &str, schemas: Option<&Path>) {
    let so = target().join("npmfault.so");
    let part = target().join(format!("npmfault.{}.so", std::process::id()));
    let ok = Command::new("gcc")
        .args(["-O1", "-shared", "-fPIC", "-w", "-o"])
        .arg(&part)
        .arg(verif().join("npm/fault.c"))
        .arg("-ldl")
        .status()
        .is_ok_and(|s| s.success());
    if !ok || std::fs::rename(&part, &so).is_err() {
        eprintln!("npm/fault.c does not compile");
        std::process::exit(3);
    }
    let dir = crate::runner::scratch().join("npm");
    let mut c = Command::new("node");
    c.arg(verif().join("npm/drive.js")).args([id, if r.thorough { "thorough" } else { "quick" }]).arg(package()).arg(&dir).arg(&so);
    if let Some(s) = schemas {
        c.arg(s);
    }
    let out = c.stdin(Stdio::null()).stderr(Stdio::inherit()).output().expect("node");
    let text = String::from_utf8_lossy(&out.stdout);
    let mut counted = false;
    for l in text.lines() {
        let Some(j) = crate::json::parse(l) else { continue };
        let get = |k: &str| j.get(k).and_then(|x| x.str()).unwrap_or("").to_string();
        if get("t") == "violation" {
            r.violation(&get("key"), &get("what"), get("replay"));
        }
        if get("t") == "counts" {
            counted = true;
            if let Some(J::Obj(v)) = j.get("counts") {
                for (k, x) in v {
                    r.cov(k, x.clone());
                }
                r.cov("evaluations", j.get("counts").unwrap().get("scenarios").cloned().unwrap_or(n(0)));
            }
            if let Some(J::Obj(v)) = j.get("outcomes") {
                for (k, x) in v {
                    if let J::Num(x) = x {
                        r.outcomes.lock().unwrap().insert(k.clone(), *x as usize);
                    }
                }
            }
            if let Some(J::Arr(v)) = j.get("samples") {
                for x in v {
                    r.sample(x.str().unwrap_or(""));
                }
            }
        }
    }
    if !counted {
        eprintln!("npm/drive.js failed: {}", out.status);
        std::process::exit(3);
    }
}
pub fn n01(r: &Report) {
    drive(r, "N01", None);
    r.assume("the server answers on the loopback interface; every idle timeout of at least five seconds is shortened to two, any other time is real; tar is the system's, or one of four failing ones; a server that never stops sending is left out");
    r.assume("close() is not made to fail, as node does not call it through the C library");
}
pub fn n04(r: &Report) {
    let slot = Slot::new();
    let o = slot.run(&slot.dir, &args(&["--version"]), &Env::default());
    drive(r, "N04", Some(Path::new(o.stdout.trim())));
    r.assume("cargo, ghr and yarn are stand-ins that build, store and publish files; each job starts from a fresh checkout and what .circleci/config.yml keeps of the jobs before it; a failed job is run again once");
}
pub fn n02(r: &Report) {
    let dir = crate::runner::scratch().join("schemas");
    std::fs::create_dir_all(&dir).unwrap();
    let all = schemas();
    for (name, text, _) in &all {
        std::fs::write(dir.join(format!("{name}.full.json")), text).unwrap();
    }
    drive(r, "N02", Some(&dir));
    let slot = Slot::new();
    let mut files = 0;
    for (name, full, docs) in &all {
        let Ok(asked) = std::fs::read_to_string(dir.join(format!("{name}.asked.json"))) else {
            if r.bad() == 0 {
                r.violation(&format!("query: {name}"), "no schema was made from the introspection query", "");
            }
            continue;
        };
        let run = |schema: &str| {
            slot.reset();
            put(&slot.dir, "schema.json", schema);
            for (f, t) in docs {
                put(&slot.dir, &format!("src/{f}"), t);
            }
            let o = slot.run(&slot.dir, &args(&["src", "-s", "schema.json", "--num-threads", "1", "--show-deprecation-warnings"]), &Env::default());
            let mut t = tree(&slot.dir);
            t.remove("schema.json");
            (o.code(), o.stdout.clone() + &o.stderr, t)
        };
        let (a, b) = (run(full), run(&asked));
        files += a.2.len();
        if a.0 != 0 {
            eprintln!("N02: the documents for {name} are not valid:\n{}", a.1);
            std::process::exit(3);
        }
        if a != b {
            let diff: Vec<String> = a.2.iter().filter(|(k, v)| b.2.get(*k) != Some(v)).map(|(k, v)| format!("--- {k}\n{v:?}\n+++\n{:?}", b.2.get(k))).collect();
            r.violation(
                &format!("query: {name}: other output"),
                &format!("the schema the introspection query asks for gives other output than the whole schema ({name})"),
                format!("{}\n{}\n{}\n\nasked schema:\n{asked}", a.1, b.1, diff.join("\n")),
            );
        }
    }
    r.cov("schemas_asked_for", n(all.len()));
    r.cov("files_compared", n(files));
    r.assume("the server answers on the loopback interface; every idle timeout of at least five seconds is shortened to two; a body ended by closing the connection cannot be told from a truncated one and is not truncated");
    r.assume("the introspected server lists input fields whether deprecated or not, as the specification had it before inputs could be deprecated; type references are at most seven wrappers deep");
}
/// (name, whole introspection result, documents that use all of it)
fn schemas() -> Vec<(String, String, Vec<(String, String)>)> {
    let mut out = vec![];
    let doc = |f: &str, t: &str| (f.to_string(), t.to_string());
    // every kind of type, description and deprecation
    let mut s = Schema::sdl(SDL);
    for t in &mut s.types {
        t.desc = Some(format!("about {}", t.name));
        if let Kind::Object(f) | Kind::Interface(f, _) | Kind::Input(f) = &mut t.kind {
            for (i, x) in f.iter_mut().enumerate() {
                x.desc = Some(format!("about {}.{}", t.name, x.name));
                x.deprecated = i % 2 == 1;
            }
        }
    }
    let s = Schema::new(s.types.into_iter().map(|mut t| {
        if let Kind::Input(f) = &mut t.kind {
            f.iter_mut().for_each(|x| x.deprecated = false);
        }
        t
    }).collect());
    let text = s.json().dump().replace("\"name\":\"Y\",\"description\":null,\"isDeprecated\":false", "\"name\":\"Y\",\"description\":\"the y\",\"isDeprecated\":true");
    if !text.contains("the y") {
        eprintln!("N02: the deprecated enum value is missing");
        std::process::exit(3);
    }
    let mut all: Vec<(String, String)> = vec![];
    for (i, t) in s.types.iter().enumerate() {
        if !s.composite(&t.name) {
            continue;
        }
        let sels: Vec<String> = s.fields(&t.name).iter().map(|f| if s.composite(f.ty.named()) { format!("{} {{ __typename }}", f.name) } else { f.name.clone() }).collect();
        let sels = if sels.is_empty() { "__typename".to_string() } else { sels.join(" ") };
        all.push((format!("t{i}.graphql"), format!("fragment T{i} on {} {{ {sels} }}", t.name)));
        for (j, p) in s.possible(&t.name).iter().enumerate() {
            all.push((format!("t{i}_{j}.graphql"), format!("fragment T{i}x{j} on {} {{ __typename ... on {p} {{ id }} }}", t.name)));
        }
    }
    all.push(doc("v.graphql", "query V($e: E, $g: [G!]!, $i: I, $k: K!, $d: Date) { id a { e } }"));
    all.push(doc("m.graphql", "mutation M($i: I!) { id n { id } }"));
    all.push(doc("q.graphql", "query { u { ... on B { g } } w { __typename } d }"));
    out.push(("all kinds".to_string(), text.clone(), all.clone()));
    // no mutation type
    let t = Schema::new(s.types.iter().filter(|t| t.name != "Mutation").cloned().collect());
    out.push(("no mutations".to_string(), t.json().dump(), vec![doc("q.graphql", "query($k: K) { id a { e l { id } } }")]));
    // every wrapper chain of up to three lists around every kind of type, in results, arguments and inputs
    for named in ["Int", "Date", "E", "A", "N", "U"] {
        let chains = Ty::chains(named, 3);
        let fields: Vec<String> = chains.iter().enumerate().map(|(i, t)| format!("f{i}: {}", t.sdl())).collect();
        let sdl = format!("type A {{ id: ID }} interface N {{ id: ID }} type B implements N {{ id: ID }} union U = A | B enum E {{ X Y }} scalar Date type Query {{ id: ID {} }}", fields.join(" "));
        let s = Schema::sdl(&sdl);
        let sub = if s.composite(named) { " { __typename }" } else { "" };
        let sels: Vec<String> = (0..chains.len()).map(|i| format!("f{i}{sub}")).collect();
        out.push((format!("chains around {named}"), s.json().dump(), vec![("q.graphql".to_string(), format!("query {{ {} }}", sels.join(" ")))]));
    }
    for named in ["Int", "Date", "E", "J"] {
        let chains: Vec<Ty> = Ty::chains(named, 3);
        let fields: Vec<String> = chains.iter().enumerate().map(|(i, t)| format!("f{i}: {}", t.sdl())).collect();
        let sdl = format!("enum E {{ X Y }} scalar Date input J {{ j: J e: E }} input I {{ z: Int {} }} type Query {{ id: ID }}", fields.join(" "));
        out.push((format!("input chains around {named}"), Schema::sdl(&sdl).json().dump(), vec![doc("q.graphql", "query($i: I!) { id }")]));
    }
    out
}

// ---------------------------------------------------------------- N03

const GRAPHQL_STUB: &str = "export interface DocumentNode { readonly kind: 'Document'; readonly definitions: ReadonlyArray<object>; }\n";
const HELPERS: &str = "type Equal<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;\n\
declare function same<T extends true>(): void;\n";

/// Lays out a project that has the package installed.
fn install(dir: &Path) {
    put(dir, "node_modules/graphql/package.json", "{\"name\":\"graphql\",\"version\":\"0.0.0\",\"types\":\"index.d.ts\",\"main\":\"index.js\"}");
    put(dir, "node_modules/graphql/index.d.ts", GRAPHQL_STUB);
    for (f, t) in tree(&package()) {
        if !f.ends_with('/') {
            put(dir, &format!("node_modules/@notarize/qlc-cli/{f}"), t);
        }
    }
}
fn tsconfig(dir: &Path, strict: bool, resolution: &str, exact: bool) {
    let module = if resolution == "bundler" { "esnext" } else { resolution };
    put(
        dir,
        "tsconfig.json",
        format!("{{\"compilerOptions\":{{\"strict\":{strict},\"noEmit\":true,\"skipLibCheck\":false,\"exactOptionalPropertyTypes\":{},\"module\":\"{module}\",\"moduleResolution\":\"{resolution}\",\"target\":\"es2020\",\"types\":[],\"allowArbitraryExtensions\":true}},\"include\":[\"**/*.ts\"],\"exclude\":[\"node_modules\"]}}", exact && strict),
    );
}
/// The compiler's complaints as (file, line, message).
fn tsc(dir: &Path) -> Vec<(String, usize, String)> {
    let out = Command::new("tsc").current_dir(dir).args(["-p", ".", "--pretty", "false"]).stdin(Stdio::null()).output().expect("tsc");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut v = vec![];
    for l in text.lines() {
        // file(line,col): error TSn: message
        let Some((pos, msg)) = l.split_once("): error ") else {
            if l.starts_with("error ") {
                v.push((String::new(), 0, l.to_string()));
            }
            continue;
        };
        let Some((f, lc)) = pos.rsplit_once('(') else { continue };
        let line = lc.split(',').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        v.push((f.to_string(), line, msg.to_string()));
    }
    if v.is_empty() && !out.status.success() {
        v.push((String::new(), 0, format!("{} {}", text, String::from_utf8_lossy(&out.stderr))));
    }
    v
}
pub fn n03(r: &Report) {
    let slot = Slot::new();
    let mut total = 0;
    // all data and variables types built from the parts qlc generates
    let leafs = ["string", "number | null", "boolean", "any", "Date1", "En", "readonly string[]", "ReadonlyArray<number | null> | null", "null", "\"A\" | \"B\""];
    let mut data: Vec<String> = vec!["{}".into()];
    for a in &leafs {
        data.push(format!("{{ readonly a: {a} }}"));
        data.push(format!("{{ a: {a} }}"));
        for b in if r.thorough { &leafs[..] } else { &leafs[..3] } {
            data.push(format!("{{ readonly a: {a}; b: {b} }}"));
            data.push(format!("{{ readonly a: {{ x: {a} }}; readonly b: {{ y: {b} }} | null }}"));
            data.push(format!("{{ readonly __typename: \"A\"; a: {a} }} | {{ readonly __typename: \"B\" | \"C\"; b: {b} }}"));
        }
        data.push(format!("{{ readonly a: ({{ x: {a} }} | {{ y: string }})[] }}"));
    }
    data.push("Rec".into());
    data.push("{ readonly r: Rec | null }".into());
    let mut vars: Vec<String> = vec!["never".into(), "{}".into()];
    for a in &leafs {
        vars.push(format!("{{ a: {a} }}"));
        vars.push(format!("{{ a?: {a} | null }}"));
        if r.thorough {
            for b in &leafs {
                vars.push(format!("{{ a: {a}; b?: {b} | null }}"));
            }
        }
    }
    vars.push("{ i: In }".into());
    vars.push("{ i?: ReadonlyArray<In | null> | null; e: En }".into());
    let prelude = "enum En { X = \"X\", Y = \"Y\" }\ntype Date1 = Date | string;\ntype Rec = { a: string; r: Rec | null };\ntype In = { a: number; i?: In | null };\n";
    let mut text = format!(
        "import type {{ QueryDocumentNode, MutationDocumentNode, SubscriptionDocumentNode, FragmentDocumentNode, DataOf, VariablesOf }} from \"@notarize/qlc-cli/typed-documentnode\";\n{HELPERS}{prelude}"
    );
    let mut what: Vec<String> = text.lines().map(|_| String::new()).collect();
    let mut line = |text: &mut String, l: String| {
        text.push_str(&l);
        text.push('\n');
        what.push(l);
        total += 1;
    };
    for k in ["Query", "Mutation", "Subscription"] {
        for d in &data {
            for v in &vars {
                let node = format!("{k}DocumentNode<{d}, {v}>");
                line(&mut text, format!("same<Equal<DataOf<{node}>, {d}>>();"));
                line(&mut text, format!("same<Equal<VariablesOf<{node}>, {v}>>();"));
            }
        }
    }
    for d in &data {
        line(&mut text, format!("same<Equal<DataOf<FragmentDocumentNode<{d}>>, {d}>>();"));
        line(&mut text, format!("same<Equal<VariablesOf<FragmentDocumentNode<{d}>>, never>>();"));
    }
    let matrix = what.clone();
    // real modules: what qlc makes of enumerated documents, used by a program
    let schema = Schema::sdl(SDL);
    let lib = library();
    let frags = frags_of(&lib);
    let mut docs: Vec<Doc> = vec![];
    for f in families() {
        let mut max = f.quick - if r.thorough { 2 } else { 3 };
        let mut v = family_docs(&f, &schema, &frags, max);
        while v.len() > if r.thorough { 4000 } else { 400 } && max > 2 {
            max -= 1;
            v = family_docs(&f, &schema, &frags, max);
        }
        docs.extend(v);
    }
    for kind in [OpKind::Query, OpKind::Mutation] {
        for vars in 0..64usize {
            for named in [true, false] {
                let mut d = Doc::query("Op", vec![leaf("id"), node("a", vec![leaf("e"), leaf("id")])]);
                d.kind = kind;
                if !named {
                    d.name = None;
                }
                for (i, (v, t)) in [("a", "E!"), ("b", "I"), ("c", "[G!]"), ("d", "Date"), ("e", "K"), ("f", "Int")].iter().enumerate() {
                    if vars & (1 << i) != 0 {
                        d.vars.push((v.to_string(), Ty::parse(t)));
                    }
                }
                docs.push(d);
            }
        }
    }
    let scalars: &[&[&str]] = &[&[], &["--use-custom-scalars"], &["--use-custom-scalars", "--custom-scalar-prefix", "GQL_"]];
    let mut modules = 0;
    for (pi, (opts, resolution, strict)) in [(scalars[0], "bundler", true), (scalars[1], "node16", true), (scalars[2], "bundler", false)].into_iter().enumerate() {
        if !r.thorough && pi == 1 {
            // same documents, only the resolution differs: a slice is enough
        }
        slot.reset();
        let dir = &slot.dir;
        put(dir, "schema.json", schema.json().dump());
        for (f, t) in common_of(&lib) {
            put(dir, &format!("src/{f}"), t);
        }
        let step = if !r.thorough && pi > 0 { 5 } else { 1 };
        let used: Vec<(usize, &Doc)> = docs.iter().enumerate().step_by(step).collect();
        for (i, d) in &used {
            put(dir, &format!("src/d{i}.graphql"), d.text());
        }
        let mut a = args(&["src", "-s", "schema.json", "--num-threads", "4", "--root-dir-import-prefix", "./", "--global-types-module-name", "./global"]);
        a.extend(args(opts));
        let o = slot.run(dir, &a, &Env { sched: false, alarm_s: 120, ..Env::default() });
        if o.code() != 0 {
            r.violation("qlc: documents refused", "qlc refuses the documents to be used", o.stdout.clone() + &o.stderr);
            return;
        }
        install(dir);
        tsconfig(dir, strict, resolution, pi == 0);
        if pi == 1 {
            put(dir, "package.json", "{\"type\":\"commonjs\"}");
        }
        put(dir, "scalars.d.ts", "declare type GQL_Date = { brand: 'date' };\n");
        let mut uses = format!("import type {{ DataOf, VariablesOf }} from \"@notarize/qlc-cli/typed-documentnode\";\n{HELPERS}");
        let mut lines: Vec<String> = uses.lines().map(|_| String::new()).collect();
        for (i, d) in &used {
            let name = d.type_name();
            let v = if d.vars.is_empty() || d.kind == OpKind::Fragment { None } else { Some(format!("{name}Variables")) };
            let names = match &v {
                Some(v) => format!("{name} as T{i}, {v} as V{i}"),
                None => format!("{name} as T{i}"),
            };
            for l in [
                format!("import type D{i} from \"./src/d{i}.graphql\"; import type {{ {names} }} from \"./src/d{i}.graphql\";"),
                format!("same<Equal<DataOf<typeof D{i}>, T{i}>>();"),
                format!("same<Equal<VariablesOf<typeof D{i}>, {}>>();", v.map_or("never".into(), |_| format!("V{i}"))),
            ] {
                uses.push_str(&l);
                uses.push('\n');
                lines.push(l);
            }
            total += 2;
        }
        modules += used.len();
        put(dir, "uses.ts", &uses);
        if pi == 0 {
            put(dir, "matrix.ts", &text);
        }
        let mut seen = 0;
        for (f, line, msg) in tsc(dir) {
            seen += 1;
            if seen > 15 {
                break;
            }
            let at = match f.as_str() {
                "uses.ts" => {
                    let l = lines.get(line - 1).cloned().unwrap_or_default();
                    let i: usize = l.split(|c: char| !c.is_ascii_digit()).find(|x| !x.is_empty()).and_then(|x| x.parse().ok()).unwrap_or(0);
                    docs.get(i).map(|d| format!("{}: {l}", d.text().split_whitespace().collect::<Vec<_>>().join(" "))).unwrap_or(l)
                }
                "matrix.ts" => matrix.get(line - 1).cloned().unwrap_or_default(),
                _ => {
                    let i: Option<usize> = f.strip_prefix("src/d").and_then(|x| x.split('.').next()).and_then(|x| x.parse().ok());
                    i.and_then(|i| docs.get(i)).map(|d| d.text().split_whitespace().collect::<Vec<_>>().join(" ")).unwrap_or_else(|| format!("{f}:{line}"))
                }
            };
            let module = f.strip_prefix("src/").and_then(|_| std::fs::read_to_string(dir.join(&f)).ok()).unwrap_or_default();
            r.violation(&format!("{resolution}: {at}"), &format!("{at}: {msg}"), format!("{f}:{line}: {msg}\n{at}\n{module}"));
        }
    }
    // the module is also there at run time
    slot.reset();
    install(&slot.dir);
    put(&slot.dir, "t.js", "const m = require('@notarize/qlc-cli/typed-documentnode'); const p = require('@notarize/qlc-cli'); process.exit(typeof p === 'string' && require('path').basename(p) === 'qlc' && require('fs').existsSync(require('path').dirname(p)) ? 0 : 1);");
    let o = Command::new("node").current_dir(&slot.dir).arg("t.js").output().expect("node");
    if !o.status.success() {
        r.violation("require", "the package's modules cannot be required", String::from_utf8_lossy(&o.stderr).to_string());
    }
    r.cov("evaluations", n(total));
    r.cov("states", n(total));
    r.cov("modules_compiled_by_tsc", n(modules));
    r.cov("data_types", n(data.len()));
    r.cov("variables_types", n(vars.len()));
    r.assume("decided by the installed TypeScript compiler, strict and not, with the two module resolutions that know package exports");
}
