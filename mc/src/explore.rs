//! Stateless exploration of thread schedules, by number of preemptions.
use crate::runner::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

pub struct Harness<'a> {
    pub name: String,
    /// prepares a slot once: working directory and command line
    pub setup: &'a (dyn Fn(&Slot) -> (PathBuf, Vec<String>) + Sync),
    /// brings the directory back to its initial state
    pub reset: &'a (dyn Fn(&Slot) + Sync),
    /// the oracle: a label of the observed outcome, or what is wrong
    pub check: &'a (dyn Fn(&Slot, &Outcome) -> Result<String, String> + Sync),
    pub env: Env,
    pub bound: usize,
    pub time_s: f64,
    /// stop handing out children after this many violations
    pub stop_after: usize,
}
#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub execs: usize,
    pub states: usize,
    pub transitions: usize,
    pub longest: usize,
    pub max_threads: usize,
    /// largest number of preemptions completely explored
    pub completed: Option<usize>,
    pub replayed: usize,
    pub outcomes: BTreeMap<String, usize>,
    pub violations: Vec<(String, String)>,
    pub by_bound: Vec<usize>,
}
struct Item {
    parent: Arc<Vec<u8>>,
    at: usize,
    alt: u8,
    cost: usize,
}
impl Item {
    fn prefix(&self) -> Vec<u8> {
        let mut v = self.parent[..self.at].to_vec();
        if self.alt != 255 {
            v.push(self.alt);
        }
        v
    }
}
struct Queue {
    levels: Vec<Vec<Item>>,
    busy: usize,
    busy_at: Vec<usize>,
    stop: bool,
}
pub fn explore(h: &Harness) -> Stats {
    let start = Instant::now();
    let mut levels: Vec<Vec<Item>> = (0..=h.bound).map(|_| vec![]).collect();
    levels[0].push(Item { parent: Arc::new(vec![]), at: 0, alt: 255, cost: 0 });
    let q = Mutex::new(Queue { levels, busy: 0, busy_at: vec![0; h.bound + 1], stop: false });
    let cv = Condvar::new();
    let st = Mutex::new(Stats { by_bound: vec![0; h.bound + 1], ..Stats::default() });
    let execs = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            sc.spawn(|| {
                let slot = Slot::new();
                let (cwd, args) = (h.setup)(&slot);
                let mut srv = Server::new(&slot, &cwd, &args);
                loop {
                    let item = {
                        let mut g = q.lock().unwrap();
                        loop {
                            if g.stop {
                                return;
                            }
                            // lowest number of preemptions first; a level starts when lower ones are done
                            let lvl = g.levels.iter().position(|l| !l.is_empty());
                            let lower_busy = |g: &Queue, l: usize| g.busy_at[..l].iter().any(|b| *b > 0);
                            match lvl {
                                Some(l) if !lower_busy(&g, l) => {
                                    let it = g.levels[l].pop().unwrap();
                                    g.busy += 1;
                                    g.busy_at[l] += 1;
                                    break it;
                                }
                                None if g.busy == 0 => {
                                    g.stop = true;
                                    cv.notify_all();
                                    return;
                                }
                                _ => g = cv.wait(g).unwrap(),
                            }
                        }
                    };
                    let prefix = item.prefix();
                    let run = |srv: &mut Server, p: &[u8]| {
                        (h.reset)(&slot);
                        let c = slot.shm.c();
                        h.env_put(c, p);
                        let s = srv.go();
                        srv.outcome(s)
                    };
                    let o = run(&mut srv, &prefix);
                    let n_exec = execs.fetch_add(1, Ordering::Relaxed);
                    let c = slot.shm.c();
                    if c.diverged != 0 {
                        eprintln!("harness error: a replayed schedule diverged in {}", h.name);
                        crate::runner::cleanup();
                        std::process::exit(3);
                    }
                    let np = (c.n_points as usize).min(crate::ctl::MAXPTS);
                    let pts: Vec<crate::ctl::Point> = c.points[..np].to_vec();
                    let chosen: Vec<u8> = pts.iter().map(|p| p.chosen).collect();
                    let mut res = (h.check)(&slot, &o);
                    let mut replayed = 0;
                    if res.is_err() || n_exec < 16 {
                        // the same schedule must give the same observation
                        let o2 = run(&mut srv, &chosen);
                        let c = slot.shm.c();
                        let ch2: Vec<u8> = c.points[..(c.n_points as usize).min(crate::ctl::MAXPTS)].iter().map(|p| p.chosen).collect();
                        let r2 = (h.check)(&slot, &o2);
                        replayed = 1;
                        if ch2 != chosen || r2.is_ok() != res.is_ok() {
                            eprintln!("harness error: replay of a schedule differs in {}: {res:?} / {r2:?}", h.name);
                            crate::runner::cleanup();
                            std::process::exit(3);
                        }
                        if let Err(e) = &mut res {
                            let compact: Vec<String> = pts
                                .iter()
                                .enumerate()
                                .filter(|(_, p)| p.chosen != 0)
                                .map(|(i, p)| format!("{i}:{}{}", p.chosen, if p.cur_enabled != 0 { "!" } else { "" }))
                                .collect();
                            e.push_str(&format!(
                                "\nharness {}\nschedule (point:choice, ! = preemption): {}\nfull choices: {:?}\nstdout:\n{}\nstderr:\n{}",
                                h.name,
                                compact.join(" "),
                                chosen,
                                o.stdout,
                                o.stderr
                            ));
                        }
                    }
                    let chosen = Arc::new(chosen);
                    let mut kids = vec![];
                    // cost along this execution
                    let mut cost = pts.iter().take(prefix.len()).filter(|p| p.chosen != 0 && p.cur_enabled != 0).count();
                    for (i, p) in pts.iter().enumerate().skip(prefix.len()) {
                        let k = cost + usize::from(p.cur_enabled != 0);
                        if k <= h.bound {
                            for alt in (1..p.nalts).rev() {
                                if alt != p.chosen {
                                    kids.push(Item { parent: chosen.clone(), at: i, alt, cost: k });
                                }
                            }
                        }
                        if p.chosen != 0 && p.cur_enabled != 0 {
                            cost += 1;
                        }
                    }
                    let bad = {
                        let mut s = st.lock().unwrap();
                        s.execs += 1;
                        s.by_bound[item.cost] += 1;
                        s.states += np - prefix.len().min(np) + 1;
                        s.transitions += np + 1;
                        s.longest = s.longest.max(np);
                        s.max_threads = s.max_threads.max(o.n_threads as usize);
                        s.replayed += replayed;
                        match res {
                            Ok(l) => *s.outcomes.entry(l).or_default() += 1,
                            Err(e) => s.violations.push((format!("{}", e.lines().next().unwrap_or("")), e)),
                        }
                        s.violations.len()
                    };
                    let mut g = q.lock().unwrap();
                    g.busy -= 1;
                    g.busy_at[item.cost] -= 1;
                    for k in kids {
                        let l = k.cost;
                        g.levels[l].push(k);
                    }
                    if bad >= h.stop_after || start.elapsed().as_secs_f64() > h.time_s {
                        g.stop = true;
                    }
                    cv.notify_all();
                }
            });
        }
    });
    let mut s = st.into_inner().unwrap();
    let g = q.into_inner().unwrap();
    s.completed = if g.levels.iter().all(|l| l.is_empty()) {
        Some(h.bound)
    } else {
        // a level is complete when nothing is left in it or below
        let first_left = g.levels.iter().position(|l| !l.is_empty()).unwrap();
        first_left.checked_sub(1)
    };
    s
}
impl Harness<'_> {
    fn env_put(&self, c: &mut crate::ctl::Ctl, prefix: &[u8]) {
        let mut e = self.env.clone();
        e.sched = true;
        c.sched = 1;
        c.alarm_s = patience(e.alarm_s);
        c.hashseed = e.hashseed;
        c.dirperm = e.dirperm;
        c.dtype_unknown = e.dtype_unknown as u32;
        c.f_at = [-1, -1];
        c.f_kind = [0, 0];
        for (i, f) in e.faults.iter().take(2).enumerate() {
            c.f_at[i] = f.0;
            c.f_kind[i] = f.1;
            c.f_arg[i] = f.2;
        }
        c.short_all = e.short_all;
        c.out_stop = 0;
        c.out_piece = 0;
        c.max_points = 20000;
        c.n_prefix = prefix.len() as u32;
        c.prefix[..prefix.len()].copy_from_slice(prefix);
    }
}
