//! The part of GraphQL validation the enumerations need: can the selected fields be merged?
use crate::doc::{Frags, Sel};
use crate::schema::{Kind, Schema, Ty};
use std::collections::BTreeMap;

struct F<'a> {
    parent: String,
    name: &'a str,
    args: &'a str,
    ty: Ty,
    sels: &'a [Sel],
}
pub struct V<'a> {
    pub schema: &'a Schema,
    pub frags: &'a Frags,
}
impl<'a> V<'a> {
    fn collect(&self, parent: &str, sels: &'a [Sel], out: &mut BTreeMap<&'a str, Vec<F<'a>>>) {
        for x in sels {
            match x {
                Sel::Field { name, args, sels, .. } => {
                    let ty = if name == "__typename" {
                        Ty::parse("String!")
                    } else {
                        match self.schema.field(parent, name) {
                            Some(f) => f.ty.clone(),
                            None => continue,
                        }
                    };
                    out.entry(x.key().unwrap()).or_default().push(F { parent: parent.into(), name, args, ty, sels });
                }
                Sel::Inline { on, sels } => self.collect(on, sels, out),
                Sel::Spread(n) => {
                    if let Some(f) = self.frags.get(n) {
                        self.collect(&f.on, &f.sels, out);
                    }
                }
            }
        }
    }
    fn object(&self, n: &str) -> bool {
        matches!(self.schema.get(n).map(|t| &t.kind), Some(Kind::Object(_)))
    }
    fn same_shape(&self, a: &F<'a>, b: &F<'a>) -> bool {
        let (mut x, mut y) = (&a.ty, &b.ty);
        loop {
            match (x, y) {
                (Ty::NonNull(p), Ty::NonNull(q)) | (Ty::List(p), Ty::List(q)) => (x, y) = (p, q),
                (Ty::Named(p), Ty::Named(q)) => {
                    if !self.schema.composite(p) || !self.schema.composite(q) {
                        return p == q;
                    }
                    break;
                }
                _ => return false,
            }
        }
        let mut m = BTreeMap::new();
        self.collect(a.ty.named(), a.sels, &mut m);
        self.collect(b.ty.named(), b.sels, &mut m);
        m.values().all(|v| pairs(v, &|p, q| self.same_shape(p, q)))
    }
    fn can_merge(&self, sets: &[(&str, &'a [Sel])]) -> bool {
        let mut m = BTreeMap::new();
        for (p, s) in sets {
            self.collect(p, s, &mut m);
        }
        m.values().all(|v| {
            pairs(v, &|a, b| {
                if !self.same_shape(a, b) {
                    return false;
                }
                if a.parent == b.parent || !self.object(&a.parent) || !self.object(&b.parent) {
                    return a.name == b.name
                        && a.args == b.args
                        && self.can_merge(&[(a.ty.named(), a.sels), (b.ty.named(), b.sels)]);
                }
                true
            })
        }) && m.values().flatten().all(|f| f.sels.is_empty() || self.can_merge(&[(f.ty.named(), f.sels)]))
    }
    pub fn mergeable(&self, parent: &str, sels: &'a [Sel]) -> bool {
        self.can_merge(&[(parent, sels)])
    }
}
fn pairs<T>(v: &[T], f: &dyn Fn(&T, &T) -> bool) -> bool {
    (0..v.len()).all(|i| (i + 1..v.len()).all(|j| f(&v[i], &v[j])))
}
