//! Compiles many small projects with one run of the real qlc each few hundred.
use crate::diag::{self, Diag};
use crate::runner::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Debug, Default)]
pub struct Case {
    /// (path inside the case's own directory, text)
    pub files: Vec<(String, String)>,
}
impl Case {
    pub fn one(text: String) -> Case {
        Case { files: vec![("m.graphql".into(), text)] }
    }
    pub fn show(&self) -> String {
        self.files.iter().map(|(f, t)| format!("--- {f}\n{t}\n")).collect()
    }
}
/// What qlc made of one case.
#[derive(Clone, Debug, Default)]
pub struct Got {
    /// generated text by source name
    pub outs: BTreeMap<String, String>,
    /// diagnostics with the file relative to the case's directory
    pub diags: Vec<Diag>,
    /// set when qlc did not survive this case
    pub abnormal: Option<String>,
}
impl Got {
    pub fn out(&self) -> Option<&str> {
        self.outs.get("m.graphql").map(|x| x.as_str())
    }
    pub fn errors(&self) -> Vec<&Diag> {
        self.diags.iter().filter(|d| d.level != "warning").collect()
    }
    pub fn warnings(&self) -> Vec<&Diag> {
        self.diags.iter().filter(|d| d.level == "warning").collect()
    }
    pub fn show(&self) -> String {
        let mut t = String::new();
        for (f, x) in &self.outs {
            t.push_str(&format!("--- {f}.d.ts\n{x}\n"));
        }
        for d in &self.diags {
            t.push_str(&format!("{}: {} {:?}:{:?}:{:?}\n", d.level, d.msg, d.file, d.line, d.col));
        }
        if let Some(a) = &self.abnormal {
            t.push_str(a);
        }
        t
    }
}
#[derive(Clone, Debug)]
pub struct Project {
    pub schema: String,
    /// after `src -s schema.json`
    pub args: Vec<String>,
    pub config: Option<String>,
    /// files shared by the cases, relative to src/
    pub common: Vec<(String, String)>,
    pub per_batch: usize,
    pub env: Env,
}
impl Project {
    pub fn new(schema: String) -> Project {
        Project { schema, args: vec![], config: None, common: vec![], per_batch: 300, env: Env::default() }
    }
    pub fn args(&self) -> Vec<String> {
        let mut a = args(&["src", "-s", "schema.json"]);
        a.extend(self.args.clone());
        if !a.iter().any(|x| x.starts_with("--num-threads")) {
            a.extend(args(&["--num-threads", "1"]));
        }
        a
    }
}
/// A whole run: for what concerns all of its cases together.
#[derive(Clone, Debug)]
pub struct Whole {
    pub outcome: Outcome,
    pub globals: Option<String>,
    /// diagnostics without a file or about the shared ones
    pub other: Vec<Diag>,
    pub range: (usize, usize),
    pub err_summary: Option<String>,
    pub warn_summary: Option<String>,
}
fn name(i: usize) -> String {
    format!("c{i:07}")
}
fn one_run(p: &Project, slot: &Slot, cases: &[Case], lo: usize, hi: usize) -> (Option<String>, Vec<Got>, Whole) {
    slot.reset();
    put(&slot.dir, "schema.json", &p.schema);
    if let Some(c) = &p.config {
        put(&slot.dir, ".qlcrc.json", c);
    }
    let src = slot.dir.join("src");
    std::fs::create_dir_all(&src).unwrap();
    for (f, t) in &p.common {
        put(&src, f, t);
    }
    for i in lo..hi {
        let d = src.join(name(i));
        std::fs::create_dir(&d).unwrap();
        for (f, t) in &cases[i].files {
            put(&d, f, t);
        }
    }
    let o = slot.run(&slot.dir, &p.args(), &p.env);
    let mut ab = o.abnormal();
    if ab.is_none() && o.code() == 2 {
        ab = Some(format!("exit status 2: {}", o.stderr));
    }
    let mut got: Vec<Got> = vec![];
    let d = diag::parse(&o.stdout);
    for i in lo..hi {
        let dir = src.join(name(i));
        let mut g = Got::default();
        for (f, _) in &cases[i].files {
            if f.ends_with(".graphql") {
                if let Ok(t) = std::fs::read(dir.join(format!("{f}.d.ts"))) {
                    g.outs.insert(f.clone(), String::from_utf8_lossy(&t).into_owned());
                }
            }
        }
        got.push(g);
    }
    let mut other = vec![];
    for mut x in d.list {
        // by location, or by the path the message names
        let text = x.file.clone().unwrap_or_else(|| x.msg.clone());
        let at = text.find("src/c").and_then(|k| {
            let t = &text[k + 5..];
            let (n, _) = t.split_once('/')?;
            n.parse::<usize>().ok()
        });
        match at {
            Some(i) if i >= lo && i < hi => {
                if let Some(f) = &x.file {
                    x.file = Some(norm(f, &format!("src/{}", name(i))));
                }
                x.msg = x.msg.replace(&format!("src/{}/", name(i)), "");
                got[i - lo].diags.push(x);
            }
            _ => other.push(x),
        }
    }
    let globals = std::fs::read(src.join("graphql-globals.ts")).ok().map(|b| String::from_utf8_lossy(&b).into_owned());
    let w = Whole { outcome: o, globals, other, range: (lo, hi), err_summary: d.err_summary, warn_summary: d.warn_summary };
    (ab, got, w)
}
/// The path inside the case's directory: `src/c00001/./a/../b` is `b`.
fn norm(f: &str, base: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in f.split('/') {
        match c {
            "." | "" => {}
            ".." if v.last().is_some_and(|x| *x != "..") => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    let j = v.join("/");
    j.strip_prefix(&format!("{base}/")).map(|x| x.to_string()).unwrap_or(j)
}
fn solve(p: &Project, slot: &Slot, cases: &[Case], lo: usize, hi: usize, wholes: &Mutex<Vec<Whole>>, out: &mut Vec<Got>) {
    let (ab, mut got, w) = one_run(p, slot, cases, lo, hi);
    if ab.is_none() {
        wholes.lock().unwrap().push(w);
        out.append(&mut got);
    } else if hi - lo <= 1 {
        got[0].abnormal = ab;
        out.append(&mut got);
    } else {
        let mid = (lo + hi) / 2;
        solve(p, slot, cases, lo, mid, wholes, out);
        solve(p, slot, cases, mid, hi, wholes, out);
    }
}
/// Every case's result, in order.
pub fn run_cases(p: &Project, cases: &[Case]) -> (Vec<Got>, Vec<Whole>) {
    let chunks: Vec<(usize, usize)> =
        (0..cases.len()).step_by(p.per_batch).map(|a| (a, (a + p.per_batch).min(cases.len()))).collect();
    let wholes = Mutex::new(vec![]);
    let r = par(&chunks, |slot, _, (lo, hi)| {
        let mut out = vec![];
        solve(p, slot, cases, *lo, *hi, &wholes, &mut out);
        out
    });
    let mut w = wholes.into_inner().unwrap();
    w.sort_by_key(|x| x.range);
    (r.into_iter().flatten().collect(), w)
}
/// The same on one slot, without spreading over cores.
pub fn run_cases_on(p: &Project, slot: &Slot, cases: &[Case]) -> (Vec<Got>, Vec<Whole>) {
    let wholes = Mutex::new(vec![]);
    let mut out = vec![];
    for lo in (0..cases.len()).step_by(p.per_batch) {
        solve(p, slot, cases, lo, (lo + p.per_batch).min(cases.len()), &wholes, &mut out);
    }
    (out, wholes.into_inner().unwrap())
}
/// What every run owes its reader: the status agrees with the report, the global types are whole.
pub fn whole_faults(w: &Whole) -> Option<String> {
    let d = diag::parse(&w.outcome.stdout);
    let (e, n) = (d.errors(), d.warnings());
    if w.outcome.code() != i32::from(e > 0) {
        return Some(format!("exit status {} with {e} errors", w.outcome.code()));
    }
    let want = |c: usize, one: &str, many: &str| match c {
        0 => None,
        1 => Some(one.to_string()),
        c => Some(many.replace('#', &c.to_string())),
    };
    if d.err_summary != want(e, "failure due to 1 error", "failure due to # errors") {
        return Some(format!("error summary {:?} with {e} errors", d.err_summary));
    }
    if d.warn_summary != want(n, "1 warning emitted", "# warnings emitted") {
        return Some(format!("warning summary {:?} with {n} warnings", d.warn_summary));
    }
    None
}
