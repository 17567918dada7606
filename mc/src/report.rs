//! Verdicts, known findings and the evidence file.
use crate::build::verif;
use crate::json::{n, obj, s, J};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::time::Instant;

pub struct Known {
    property: String,
    key: String,
    what: String,
}
pub struct Violation {
    pub key: String,
    pub what: String,
    pub replay: String,
}
pub struct Report {
    pub id: String,
    pub thorough: bool,
    pub level: &'static str,
    start: Instant,
    known: Vec<Known>,
    violations: Mutex<Vec<Violation>>,
    hits: Mutex<BTreeMap<String, usize>>,
    pub cov: Mutex<Vec<(String, J)>>,
    pub samples: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub outcomes: Mutex<BTreeMap<String, usize>>,
}
impl Report {
    pub fn new(id: &str, thorough: bool, level: &'static str) -> Report {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(verif().join("known_findings.txt")) {
            // known: property=<id> key=<key> | <what>
            for l in t.lines() {
                let Some(rest) = l.strip_prefix("known: property=") else { continue };
                let Some((p, rest)) = rest.split_once(" key=") else { continue };
                let Some((k, w)) = rest.split_once(" | ") else { continue };
                if p == id {
                    known.push(Known { property: p.into(), key: k.trim().into(), what: w.trim().into() });
                }
            }
        }
        Report {
            id: id.into(),
            thorough,
            level,
            start: Instant::now(),
            known,
            violations: Mutex::new(vec![]),
            hits: Mutex::new(BTreeMap::new()),
            cov: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            outcomes: Mutex::new(BTreeMap::new()),
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// `key` names the failing input and the wrong behaviour; only a listed key is a known finding.
    pub fn violation(&self, key: &str, what: &str, replay: impl Into<String>) {
        if let Some(k) = self.known.iter().find(|k| k.property == self.id && k.key == key) {
            *self.hits.lock().unwrap().entry(k.key.clone()).or_default() += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        v.push(Violation { key: key.into(), what: what.into(), replay: replay.into() });
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|k| k.key == key)
    }
    pub fn bad(&self) -> usize {
        self.violations.lock().unwrap().len()
    }
    pub fn cov(&self, k: &str, v: J) {
        let mut c = self.cov.lock().unwrap();
        if let Some(e) = c.iter_mut().find(|(a, _)| a == k) {
            e.1 = v;
        } else {
            c.push((k.into(), v));
        }
    }
    pub fn count(&self, k: &str, by: usize) {
        let mut c = self.cov.lock().unwrap();
        if let Some(e) = c.iter_mut().find(|(a, _)| a == k) {
            if let J::Num(x) = &mut e.1 {
                *x += by as f64;
            }
        } else {
            c.push((k.into(), n(by)));
        }
    }
    pub fn sample(&self, t: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            v.push(t.into());
        }
    }
    pub fn outcome(&self, o: &str) {
        *self.outcomes.lock().unwrap().entry(o.to_string()).or_default() += 1;
    }
    pub fn assume(&self, t: &str) {
        self.assumptions.lock().unwrap().push(t.into());
    }
    pub fn finish(&self) -> i32 {
        let ev = verif().join("evidence");
        let _ = std::fs::create_dir_all(ev.join("replays"));
        let v = self.violations.lock().unwrap();
        // one line per distinct key, at most ten
        let mut seen = std::collections::BTreeSet::new();
        let mut lines = vec![];
        for x in v.iter() {
            if !seen.insert(x.key.clone()) || lines.len() >= 10 {
                continue;
            }
            let p = ev.join("replays").join(format!("{}-{}.txt", self.id, lines.len()));
            let _ = std::fs::write(&p, format!("property {}\nkey {}\n{}\n\n{}\n", self.id, x.key, x.what, x.replay));
            lines.push(format!("VIOLATION property={} replay={}", self.id, p.display()));
            println!("{} [{}]", x.what.lines().next().unwrap_or(""), x.key.lines().next().unwrap_or(""));
            println!("{}", lines.last().unwrap());
        }
        for k in &self.known {
            println!("KNOWN-FINDING: property={} {}", self.id, k.what);
        }
        let mut cov = self.cov.lock().unwrap().clone();
        cov.push(("samples".into(), J::Arr(self.samples.lock().unwrap().iter().map(|x| s(x.clone())).collect())));
        let oc = self.outcomes.lock().unwrap();
        if !oc.is_empty() {
            cov.push((
                "observed_outcomes".into(),
                J::Obj(oc.iter().take(40).map(|(k, c)| (k.clone(), n(*c))).collect()),
            ));
            cov.push(("distinct_outcomes".into(), n(oc.len())));
        }
        cov.push(("qlc_executions".into(), n(crate::runner::RUNS.load(std::sync::atomic::Ordering::Relaxed))));
        cov.push((
            "known_findings_met".into(),
            J::Obj(self.hits.lock().unwrap().iter().map(|(k, c)| (k.clone(), n(*c))).collect()),
        ));
        let seed: usize = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let j = obj(vec![
            ("property", s(self.id.clone())),
            ("tier", s(if self.thorough { "thorough" } else { "quick" })),
            ("seed", n(seed)),
            ("level", s(self.level)),
            ("coverage", J::Obj(cov)),
            ("assumptions", J::Arr(self.assumptions.lock().unwrap().iter().map(|x| s(x.clone())).collect())),
            ("wall_s", J::Num((self.elapsed() * 100.0).round() / 100.0)),
            ("violations", n(v.len())),
        ]);
        let _ = std::fs::write(ev.join(format!("{}.json", self.id)), j.dump() + "\n");
        println!("{}: {} violation(s), {:.1} s", self.id, v.len(), self.elapsed());
        i32::from(!v.is_empty())
    }
}
