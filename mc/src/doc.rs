//! GraphQL documents and the reference semantics they are judged by.
use crate::schema::{Kind, Schema, Ty};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sel {
    Field { alias: Option<String>, name: String, args: String, sels: Vec<Sel> },
    Inline { on: String, sels: Vec<Sel> },
    Spread(String),
}
/// A field, `name` or `alias:name`, without a selection.
pub fn leaf(name: &str) -> Sel {
    node(name, vec![])
}
/// A field, `name` or `alias:name`, with a selection.
pub fn node(name: &str, sels: Vec<Sel>) -> Sel {
    let (alias, name) = match name.split_once(':') {
        Some((a, n)) => (Some(a.into()), n),
        None => (None, name),
    };
    Sel::Field { alias, name: name.into(), args: String::new(), sels }
}
pub fn inl(on: &str, sels: Vec<Sel>) -> Sel {
    Sel::Inline { on: on.into(), sels }
}
impl Sel {
    pub fn key(&self) -> Option<&str> {
        match self {
            Sel::Field { alias, name, .. } => Some(alias.as_deref().unwrap_or(name)),
            _ => None,
        }
    }
    pub fn sels(&self) -> &[Sel] {
        match self {
            Sel::Field { sels, .. } | Sel::Inline { sels, .. } => sels,
            Sel::Spread(_) => &[],
        }
    }
    pub fn sels_mut(&mut self) -> Option<&mut Vec<Sel>> {
        match self {
            Sel::Field { sels, .. } | Sel::Inline { sels, .. } => Some(sels),
            Sel::Spread(_) => None,
        }
    }
    pub fn size(&self) -> usize {
        1 + self.sels().iter().map(Sel::size).sum::<usize>()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OpKind {
    Query,
    Mutation,
    Subscription,
    Fragment,
}
impl OpKind {
    pub fn root(self) -> &'static str {
        match self {
            OpKind::Query => "Query",
            OpKind::Mutation => "Mutation",
            // The tool resolves subscriptions, and names their document node, as if they were
            // queries: one of its fixtures fixes that.
            OpKind::Subscription => "Query",
            OpKind::Fragment => "",
        }
    }
    /// The name an operation without one gets.
    pub fn fallback(self) -> &'static str {
        match self {
            OpKind::Subscription => "Subscription",
            k => k.root(),
        }
    }
    pub fn node(self) -> &'static str {
        match self {
            OpKind::Query => "QueryDocumentNode",
            OpKind::Mutation => "MutationDocumentNode",
            OpKind::Subscription => "QueryDocumentNode",
            OpKind::Fragment => "FragmentDocumentNode",
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Doc {
    pub kind: OpKind,
    pub name: Option<String>,
    pub on: String,
    pub vars: Vec<(String, Ty)>,
    pub sels: Vec<Sel>,
    pub imports: Vec<String>,
    /// how it is laid out: see `print`
    pub layout: u8,
}
/// Where each selection starts (pre-order), as line and column counted from 1.
pub struct Printed {
    pub text: String,
    pub pos: Vec<(usize, usize)>,
    pub var_pos: Vec<(usize, usize)>,
}
impl Printed {
    /// Line, first and last column of something that starts at `at[k]`: to the next of its kind or the
    /// end of the line.
    pub fn extent(&self, at: &[(usize, usize)], k: usize) -> (usize, usize, usize) {
        let (l, c) = at[k];
        let end = self.text.split('\n').nth(l - 1).map_or(0, |x| x.trim_end_matches('\r').chars().count());
        let next = at.iter().filter(|(m, d)| *m == l && *d > c).map(|x| x.1 - 1).min();
        (l, c, next.unwrap_or(end))
    }
}
impl Doc {
    pub fn frag(name: &str, on: &str, sels: Vec<Sel>) -> Doc {
        Doc { kind: OpKind::Fragment, name: Some(name.into()), on: on.into(), vars: vec![], sels, imports: vec![], layout: 0 }
    }
    pub fn query(name: &str, sels: Vec<Sel>) -> Doc {
        Doc { kind: OpKind::Query, name: Some(name.into()), on: "Query".into(), vars: vec![], sels, imports: vec![], layout: 0 }
    }
    pub fn type_name(&self) -> String {
        self.name.clone().unwrap_or_else(|| self.kind.fallback().to_string())
    }
    pub fn size(&self) -> usize {
        self.sels.iter().map(Sel::size).sum()
    }
    pub fn text(&self) -> String {
        self.print().text
    }
    /// Layouts: (0) a selection on every line, (1) all on one line, (2) as 0 with CRLF, (3) now and then
    /// a new line, (4) a token on every line, unindented.
    pub fn print(&self) -> Printed {
        struct Out {
            t: String,
            line: usize,
            layout: u8,
            breaks: usize,
        }
        impl Out {
            fn here(&self) -> (usize, usize) {
                let at = self.t.rfind('\n').map_or(0, |i| i + 1);
                (self.line, self.t[at..].chars().count() + 1)
            }
            fn add(&mut self, x: &str) {
                self.t.push_str(x);
            }
            /// The end of a line, in the first layout.
            fn end(&mut self, ind: usize) {
                self.breaks += 1;
                match self.layout {
                    1 => self.add(" "),
                    3 if self.breaks % 3 != 0 => self.add(" ,"),
                    2 => self.add("\r\n"),
                    _ => self.add("\n"),
                }
                if self.t.ends_with('\n') {
                    self.line += 1;
                    if self.layout != 4 {
                        self.add(&" ".repeat(ind));
                    }
                }
            }
            /// A space, in the first layout.
            fn space(&mut self) {
                if self.layout == 4 {
                    self.add("\n");
                    self.line += 1;
                } else {
                    self.add(" ");
                }
            }
            fn sels(&mut self, sels: &[Sel], ind: usize, pos: &mut Vec<(usize, usize)>) {
                self.space();
                self.add("{");
                for x in sels {
                    self.end(ind);
                    pos.push(self.here());
                    let sub: &[Sel] = match x {
                        Sel::Field { alias, name, args, sels } => {
                            if let Some(a) = alias {
                                self.add(a);
                                self.add(":");
                                self.space();
                            }
                            self.add(name);
                            self.add(args);
                            sels
                        }
                        Sel::Inline { on, sels } => {
                            // the parser locates these at their `on`
                            self.add("... on");
                            self.space();
                            self.add(on);
                            sels
                        }
                        Sel::Spread(n) => {
                            self.add("...");
                            self.add(n);
                            &[]
                        }
                    };
                    if !sub.is_empty() {
                        self.sels(sub, ind + 2, pos);
                    }
                }
                self.end(ind - 2);
                self.add("}");
            }
        }
        let mut o = Out { t: String::new(), line: 1, layout: self.layout, breaks: 0 };
        for i in &self.imports {
            o.add(&format!("#import \"{i}\"\n"));
            o.line += 1;
        }
        let mut var_pos = vec![];
        match self.kind {
            OpKind::Fragment => {
                o.add("fragment");
                o.space();
                o.add(self.name.as_deref().unwrap_or("F"));
                o.space();
                o.add("on");
                o.space();
                o.add(&self.on);
            }
            k => {
                o.add(match k {
                    OpKind::Query => "query",
                    OpKind::Mutation => "mutation",
                    _ => "subscription",
                });
                if let Some(n) = &self.name {
                    o.space();
                    o.add(n);
                }
                if !self.vars.is_empty() {
                    o.add("(");
                    for (n, ty) in &self.vars {
                        o.end(2);
                        var_pos.push(o.here());
                        o.add(&format!("${n}: {}", ty.sdl()));
                    }
                    o.end(0);
                    o.add(")");
                }
            }
        }
        let mut pos = vec![];
        o.sels(&self.sels, 2, &mut pos);
        o.add("\n");
        Printed { text: o.t, pos, var_pos }
    }
}

pub type Frags = BTreeMap<String, Doc>;

/// How scalar names are printed.
#[derive(Clone, Debug, Default)]
pub struct Naming {
    pub custom: bool,
    pub prefix: Option<String>,
}
impl Naming {
    pub fn scalar(&self, n: &str) -> String {
        match n {
            "String" | "ID" => "string".into(),
            "Int" | "Float" => "number".into(),
            "Boolean" => "boolean".into(),
            _ if !self.custom => "any".into(),
            _ => format!("{}{n}", self.prefix.as_deref().unwrap_or("")),
        }
    }
}

pub struct Model<'a> {
    pub schema: &'a Schema,
    pub frags: &'a Frags,
    pub naming: Naming,
}
/// A selected field of one concrete type: declared types (merged) with their sub-selections.
struct Slot<'x> {
    ty: Ty,
    subs: Vec<(String, &'x [Sel])>,
    typename: bool,
}
impl<'a> Model<'a> {
    pub fn wrap(t: &Ty, inner: &str) -> String {
        // nullable unless wrapped in NonNull
        fn go(t: &Ty, inner: &str) -> String {
            match t {
                Ty::NonNull(x) => bare(x, inner),
                _ => format!("N({})", bare(t, inner)),
            }
        }
        fn bare(t: &Ty, inner: &str) -> String {
            match t {
                Ty::Named(_) => inner.to_string(),
                Ty::List(x) => format!("L({})", go(x, inner)),
                Ty::NonNull(x) => bare(x, inner),
            }
        }
        go(t, inner)
    }
    /// A type usable in input position or as a leaf result.
    pub fn leaf(&self, n: &str) -> String {
        match self.schema.get(n).map(|t| &t.kind) {
            Some(Kind::Enum(_)) | Some(Kind::Input(_)) => format!("@{n}"),
            _ => self.naming.scalar(n),
        }
    }
    fn collect<'x>(&'x self, c: &str, parent: &str, sels: &'x [Sel], out: &mut BTreeMap<String, Slot<'x>>, depth: usize) {
        assert!(depth < 200, "cyclic fragments in the model");
        for x in sels {
            match x {
                Sel::Field { name, sels, .. } => {
                    let key = x.key().unwrap().to_string();
                    if name == "__typename" {
                        out.entry(key).or_insert(Slot { ty: Ty::parse("String!"), subs: vec![], typename: true });
                        continue;
                    }
                    let Some(f) = self.schema.field(parent, name) else { continue };
                    let sub = (f.ty.named().to_string(), &sels[..]);
                    out.entry(key)
                        .and_modify(|e| e.subs.push(sub.clone()))
                        .or_insert(Slot { ty: f.ty.clone(), subs: vec![sub], typename: false });
                }
                Sel::Inline { on, sels } => {
                    if self.schema.possible(on).iter().any(|p| p == c) {
                        self.collect(c, on, sels, out, depth + 1);
                    }
                }
                Sel::Spread(n) => {
                    if let Some(f) = self.frags.get(n) {
                        if self.schema.possible(&f.on).iter().any(|p| p == c) {
                            self.collect(c, &f.on, &f.sels, out, depth + 1);
                        }
                    }
                }
            }
        }
    }
    /// The set of shapes of a selection: one per possible concrete type, equal ones written once.
    pub fn shapes(&self, subs: &[(String, &[Sel])]) -> String {
        let mut set: Option<BTreeSet<String>> = None;
        for (p, _) in subs {
            let poss: BTreeSet<String> = self.schema.possible(p).into_iter().collect();
            set = Some(match set {
                None => poss,
                Some(s) => s.intersection(&poss).cloned().collect(),
            });
        }
        let mut out = BTreeSet::new();
        for c in set.unwrap_or_default() {
            let mut m = BTreeMap::new();
            for (p, sels) in subs {
                self.collect(&c, p, sels, &mut m, 0);
            }
            let fields: Vec<String> = m
                .iter()
                .map(|(k, v)| {
                    let inner = if v.typename {
                        format!("\"{c}\"")
                    } else {
                        let n = v.ty.named();
                        if self.schema.composite(n) {
                            self.shapes(&v.subs)
                        } else {
                            self.leaf(n)
                        }
                    };
                    format!("{k}:{}", Self::wrap(&v.ty, &inner))
                })
                .collect();
            out.insert(format!("{{{}}}", fields.join(";")));
        }
        if out.is_empty() {
            // an interface that nothing implements
            return "never".into();
        }
        out.into_iter().collect::<Vec<_>>().join("|")
    }
    pub fn data(&self, d: &Doc) -> String {
        let on = if d.kind == OpKind::Fragment { d.on.clone() } else { d.kind.root().to_string() };
        self.shapes(&[(on, &d.sels)])
    }
    pub fn variables(&self, d: &Doc) -> Option<String> {
        if d.vars.is_empty() {
            return None;
        }
        Some(self.input_like(&d.vars))
    }
    pub fn input_like(&self, v: &[(String, Ty)]) -> String {
        let m: BTreeMap<&String, &Ty> = v.iter().map(|(n, t)| (n, t)).collect();
        let f: Vec<String> = m
            .iter()
            .map(|(n, t)| format!("{n}{}:{}", if t.is_non_null() { "" } else { "?" }, Self::wrap(t, &self.leaf(t.named()))))
            .collect();
        format!("{{{}}}", f.join(";"))
    }
    /// Enums in the result and enums and input objects in the variables.
    pub fn globals(&self, d: &Doc) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let data = self.data(d);
        let vars = self.variables(d).unwrap_or_default();
        for t in [data, vars] {
            for part in t.split('@').skip(1) {
                out.insert(part.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
            }
        }
        out
    }
    /// Names exported by the global types file when `used` are used.
    pub fn closure(&self, used: &BTreeSet<String>) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let mut todo: Vec<String> = used.iter().cloned().collect();
        while let Some(n) = todo.pop() {
            let Some(t) = self.schema.get(&n) else { continue };
            if matches!(t.kind, Kind::Enum(_) | Kind::Input(_)) && out.insert(n.clone()) {
                if let Kind::Input(f) = &t.kind {
                    todo.extend(f.iter().map(|f| f.ty.named().to_string()));
                }
            }
        }
        out
    }
    /// What the global types file must say, canonically.
    pub fn globals_file(&self, used: &BTreeSet<String>) -> BTreeMap<String, String> {
        self.closure(used)
            .into_iter()
            .map(|n| {
                let body = match &self.schema.get(&n).unwrap().kind {
                    Kind::Enum(v) => {
                        let mut v: Vec<String> = v.iter().map(|x| format!("{x}={x}")).collect();
                        v.sort();
                        format!("enum {}", v.join(","))
                    }
                    Kind::Input(f) => {
                        let v: Vec<(String, Ty)> = f.iter().map(|f| (f.name.clone(), f.ty.clone())).collect();
                        self.input_like(&v)
                    }
                    _ => unreachable!(),
                };
                (n, body)
            })
            .collect()
    }
}
