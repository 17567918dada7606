//! All selection sets up to a size over a given alphabet, each multiset once.
use crate::doc::{leaf, Frags, Sel};
use crate::schema::Schema;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Alphabet {
    /// parent type or "*" -> fields without selection, as `name` or `alias:name`
    pub leaves: Vec<(&'static str, Vec<&'static str>)>,
    /// the same for fields that need a selection
    pub nodes: Vec<(&'static str, Vec<&'static str>)>,
    pub inlines: Vec<&'static str>,
    pub spreads: Vec<&'static str>,
    /// also fragments no possible type of the parent satisfies
    pub impossible: bool,
}
pub struct Gen<'a> {
    pub schema: &'a Schema,
    pub frags: &'a Frags,
    pub al: Alphabet,
    items: HashMap<(String, usize), Rc<Vec<Sel>>>,
    sets: HashMap<(String, usize), Rc<Vec<Vec<Sel>>>>,
}
pub fn field(t: &str) -> Sel {
    match t.split_once(':') {
        Some((a, n)) => Sel::Field { alias: Some(a.into()), name: n.into(), args: String::new(), sels: vec![] },
        None => leaf(t),
    }
}
impl<'a> Gen<'a> {
    pub fn new(schema: &'a Schema, frags: &'a Frags, al: Alphabet) -> Gen<'a> {
        Gen { schema, frags, al, items: HashMap::new(), sets: HashMap::new() }
    }
    fn of(list: &[(&'static str, Vec<&'static str>)], p: &str, out: &mut Vec<Sel>) {
        for (t, v) in list {
            if *t == p || *t == "*" {
                out.extend(v.iter().map(|x| field(x)));
            }
        }
    }
    fn overlap(&self, a: &str, b: &str) -> bool {
        let p = self.schema.possible(a);
        self.schema.possible(b).iter().any(|x| p.contains(x))
    }
    pub fn items(&mut self, p: &str, n: usize) -> Rc<Vec<Sel>> {
        if let Some(v) = self.items.get(&(p.to_string(), n)) {
            return v.clone();
        }
        let mut out = vec![];
        if n == 1 {
            let mut v = vec![];
            Self::of(&self.al.leaves, p, &mut v);
            out.extend(v.into_iter().filter(|x| match x {
                Sel::Field { name, .. } => name == "__typename" || self.schema.field(p, name).is_some_and(|f| !self.schema.composite(f.ty.named())),
                _ => true,
            }));
            for s in &self.al.spreads {
                if self.al.impossible || self.frags.get(*s).is_some_and(|f| self.overlap(&f.on, p)) {
                    out.push(Sel::Spread(s.to_string()));
                }
            }
        } else {
            let mut v = vec![];
            Self::of(&self.al.nodes, p, &mut v);
            for h in v {
                let Sel::Field { alias, name, .. } = h else { continue };
                let Some(f) = self.schema.field(p, &name) else { continue };
                let t = f.ty.named().to_string();
                if !self.schema.composite(&t) {
                    continue;
                }
                for set in self.sets(&t, n - 1).iter() {
                    out.push(Sel::Field { alias: alias.clone(), name: name.clone(), args: String::new(), sels: set.clone() });
                }
            }
            for t in self.al.inlines.clone() {
                if !self.al.impossible && !self.overlap(t, p) {
                    continue;
                }
                for set in self.sets(t, n - 1).iter() {
                    out.push(Sel::Inline { on: t.into(), sels: set.clone() });
                }
            }
        }
        let r = Rc::new(out);
        self.items.insert((p.to_string(), n), r.clone());
        r
    }
    /// Selection sets of exactly n nodes.
    pub fn sets(&mut self, p: &str, n: usize) -> Rc<Vec<Vec<Sel>>> {
        if let Some(v) = self.sets.get(&(p.to_string(), n)) {
            return v.clone();
        }
        let mut out = vec![];
        self.build(p, n, 1, 0, &mut vec![], &mut out);
        let r = Rc::new(out);
        self.sets.insert((p.to_string(), n), r.clone());
        r
    }
    fn build(&mut self, p: &str, left: usize, size: usize, from: usize, cur: &mut Vec<Sel>, out: &mut Vec<Vec<Sel>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        for sz in size..=left {
            let it = self.items(p, sz);
            let st = if sz == size { from } else { 0 };
            for (i, x) in it.iter().enumerate().skip(st) {
                cur.push(x.clone());
                self.build(p, left - sz, sz, i, cur, out);
                cur.pop();
            }
        }
    }
    pub fn upto(&mut self, p: &str, n: usize) -> Vec<Vec<Sel>> {
        (1..=n).flat_map(|k| self.sets(p, k).iter().cloned().collect::<Vec<_>>()).collect()
    }
}
