//! GraphQL schemas: written as SDL text, printed as introspection JSON.
use crate::json::{obj, s, J};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Named(String),
    List(Box<Ty>),
    NonNull(Box<Ty>),
}
impl Ty {
    pub fn parse(t: &str) -> Ty {
        let t = t.trim();
        if let Some(r) = t.strip_suffix('!') {
            return Ty::NonNull(Box::new(Ty::parse(r)));
        }
        if let Some(r) = t.strip_prefix('[') {
            return Ty::List(Box::new(Ty::parse(r.strip_suffix(']').expect("]"))));
        }
        Ty::Named(t.to_string())
    }
    pub fn named(&self) -> &str {
        match self {
            Ty::Named(n) => n,
            Ty::List(t) | Ty::NonNull(t) => t.named(),
        }
    }
    pub fn sdl(&self) -> String {
        match self {
            Ty::Named(n) => n.clone(),
            Ty::List(t) => format!("[{}]", t.sdl()),
            Ty::NonNull(t) => format!("{}!", t.sdl()),
        }
    }
    pub fn lists(&self) -> usize {
        match self {
            Ty::Named(_) => 0,
            Ty::List(t) => 1 + t.lists(),
            Ty::NonNull(t) => t.lists(),
        }
    }
    pub fn is_non_null(&self) -> bool {
        matches!(self, Ty::NonNull(_))
    }
    /// All wrapper chains around `n` with at most `l` lists.
    pub fn chains(n: &str, l: usize) -> Vec<Ty> {
        let base = Ty::Named(n.into());
        let mut out = vec![base.clone(), Ty::NonNull(Box::new(base))];
        let mut last = out.clone();
        for _ in 0..l {
            let mut next = vec![];
            for t in &last {
                let x = Ty::List(Box::new(t.clone()));
                next.push(x.clone());
                next.push(Ty::NonNull(Box::new(x)));
            }
            out.extend(next.clone());
            last = next;
        }
        out
    }
}
#[derive(Clone, Debug)]
pub struct FieldD {
    pub name: String,
    pub ty: Ty,
    pub desc: Option<String>,
    pub deprecated: bool,
}
impl FieldD {
    pub fn new(name: &str, ty: Ty) -> FieldD {
        FieldD { name: name.into(), ty, desc: None, deprecated: false }
    }
}
#[derive(Clone, Debug)]
pub enum Kind {
    Object(Vec<FieldD>),
    Interface(Vec<FieldD>, Vec<String>),
    Union(Vec<String>),
    Enum(Vec<String>),
    Input(Vec<FieldD>),
    Scalar,
}
#[derive(Clone, Debug)]
pub struct TypeD {
    pub name: String,
    pub kind: Kind,
    pub desc: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub types: Vec<TypeD>,
    idx: HashMap<String, usize>,
}
pub const BUILTIN: [&str; 5] = ["String", "ID", "Int", "Float", "Boolean"];

impl Schema {
    pub fn new(types: Vec<TypeD>) -> Schema {
        let idx = types.iter().enumerate().map(|(i, t)| (t.name.clone(), i)).collect();
        Schema { types, idx }
    }
    /// SDL subset: type/interface/input with `name: Type [@deprecated]` per field, union, enum, scalar.
    pub fn sdl(text: &str) -> Schema {
        let mut types: Vec<TypeD> =
            BUILTIN.iter().map(|b| TypeD { name: b.to_string(), kind: Kind::Scalar, desc: None }).collect();
        let mut imps: Vec<(String, String)> = vec![];
        let toks: Vec<String> = {
            let mut v: Vec<String> = vec![];
            let mut cur = String::new();
            for c in text.chars() {
                match c {
                    '{' | '}' | ':' | '|' | '=' | '&' => {
                        if !cur.is_empty() {
                            v.push(std::mem::take(&mut cur));
                        }
                        v.push(c.to_string());
                    }
                    c if c.is_whitespace() || c == ',' => {
                        if !cur.is_empty() {
                            v.push(std::mem::take(&mut cur));
                        }
                    }
                    c => cur.push(c),
                }
            }
            if !cur.is_empty() {
                v.push(cur);
            }
            v
        };
        let mut i = 0;
        while i < toks.len() {
            let kw = toks[i].clone();
            let name = toks[i + 1].clone();
            i += 2;
            let kind = match kw.as_str() {
                "scalar" => Kind::Scalar,
                "union" => {
                    i += 1; // =
                    let mut v = vec![toks[i].clone()];
                    i += 1;
                    while i < toks.len() && toks[i] == "|" {
                        v.push(toks[i + 1].clone());
                        i += 2;
                    }
                    Kind::Union(v)
                }
                "enum" => {
                    i += 1;
                    let mut v = vec![];
                    while toks[i] != "}" {
                        v.push(toks[i].clone());
                        i += 1;
                    }
                    i += 1;
                    Kind::Enum(v)
                }
                _ => {
                    if toks[i] == "implements" {
                        i += 1;
                        while toks[i] != "{" {
                            if toks[i] != "&" {
                                imps.push((toks[i].clone(), name.clone()));
                            }
                            i += 1;
                        }
                    }
                    i += 1;
                    let mut v = vec![];
                    while toks[i] != "}" {
                        let mut f = FieldD::new(&toks[i], Ty::parse(&toks[i + 2]));
                        i += 3;
                        if toks[i] == "@deprecated" {
                            f.deprecated = true;
                            i += 1;
                        }
                        v.push(f);
                    }
                    i += 1;
                    match kw.as_str() {
                        "type" => Kind::Object(v),
                        "interface" => Kind::Interface(v, vec![]),
                        "input" => Kind::Input(v),
                        _ => panic!("sdl keyword {kw}"),
                    }
                }
            };
            types.push(TypeD { name, kind, desc: None });
        }
        let obj: Vec<String> =
            types.iter().filter(|t| matches!(t.kind, Kind::Object(_))).map(|t| t.name.clone()).collect();
        for t in &mut types {
            if let Kind::Interface(_, p) = &mut t.kind {
                for (a, b) in &imps {
                    if *a == t.name && obj.contains(b) {
                        p.push(b.clone());
                    }
                }
            }
        }
        Schema::new(types)
    }
    pub fn get(&self, n: &str) -> Option<&TypeD> {
        self.idx.get(n).map(|i| &self.types[*i])
    }
    pub fn fields(&self, n: &str) -> &[FieldD] {
        match self.get(n).map(|t| &t.kind) {
            Some(Kind::Object(f)) | Some(Kind::Interface(f, _)) | Some(Kind::Input(f)) => f,
            _ => &[],
        }
    }
    pub fn field(&self, t: &str, f: &str) -> Option<&FieldD> {
        self.fields(t).iter().find(|x| x.name == f)
    }
    pub fn composite(&self, n: &str) -> bool {
        matches!(self.get(n).map(|t| &t.kind), Some(Kind::Object(_) | Kind::Interface(..) | Kind::Union(_)))
    }
    pub fn possible(&self, n: &str) -> Vec<String> {
        match self.get(n).map(|t| &t.kind) {
            Some(Kind::Object(_)) => vec![n.to_string()],
            Some(Kind::Interface(_, p)) | Some(Kind::Union(p)) => p.clone(),
            _ => vec![],
        }
    }
    fn ref_kind(&self, n: &str) -> &'static str {
        match self.get(n).map(|t| &t.kind) {
            Some(Kind::Object(_)) => "OBJECT",
            Some(Kind::Interface(..)) => "INTERFACE",
            Some(Kind::Union(_)) => "UNION",
            Some(Kind::Enum(_)) => "ENUM",
            Some(Kind::Input(_)) => "INPUT_OBJECT",
            _ => "SCALAR",
        }
    }
    pub fn ty_json(&self, t: &Ty) -> J {
        match t {
            Ty::Named(n) => obj(vec![("kind", s(self.ref_kind(n))), ("name", s(n.clone())), ("ofType", J::Null)]),
            Ty::List(t) => obj(vec![("kind", s("LIST")), ("name", J::Null), ("ofType", self.ty_json(t))]),
            Ty::NonNull(t) => obj(vec![("kind", s("NON_NULL")), ("name", J::Null), ("ofType", self.ty_json(t))]),
        }
    }
    fn fields_json(&self, f: &[FieldD], input: bool) -> J {
        J::Arr(
            f.iter()
                .map(|f| {
                    let mut v = vec![
                        ("name", s(f.name.clone())),
                        ("description", f.desc.clone().map_or(J::Null, s)),
                        ("type", self.ty_json(&f.ty)),
                    ];
                    if input {
                        v.push(("defaultValue", J::Null));
                    } else {
                        v.push(("args", J::Arr(vec![])));
                    }
                    if !input || f.deprecated {
                        v.push(("isDeprecated", J::Bool(f.deprecated)));
                        v.push(("deprecationReason", if f.deprecated { s("old") } else { J::Null }));
                    }
                    obj(v)
                })
                .collect(),
        )
    }
    pub fn type_json(&self, t: &TypeD) -> J {
        let names = |v: &[String]| {
            J::Arr(v.iter().map(|x| obj(vec![("kind", s("OBJECT")), ("name", s(x.clone())), ("ofType", J::Null)])).collect())
        };
        let mut fields = J::Null;
        let mut input = J::Null;
        let mut en = J::Null;
        let mut poss = J::Null;
        let kind = match &t.kind {
            Kind::Object(f) => {
                fields = self.fields_json(f, false);
                "OBJECT"
            }
            Kind::Interface(f, p) => {
                fields = self.fields_json(f, false);
                poss = names(p);
                "INTERFACE"
            }
            Kind::Union(p) => {
                poss = names(p);
                "UNION"
            }
            Kind::Enum(v) => {
                en = J::Arr(
                    v.iter()
                        .map(|x| {
                            obj(vec![("name", s(x.clone())), ("description", J::Null), ("isDeprecated", J::Bool(false))])
                        })
                        .collect(),
                );
                "ENUM"
            }
            Kind::Input(f) => {
                input = self.fields_json(f, true);
                "INPUT_OBJECT"
            }
            Kind::Scalar => "SCALAR",
        };
        obj(vec![
            ("kind", s(kind)),
            ("name", s(t.name.clone())),
            ("description", t.desc.clone().map_or(J::Null, s)),
            ("fields", fields),
            ("inputFields", input),
            ("interfaces", J::Arr(vec![])),
            ("enumValues", en),
            ("possibleTypes", poss),
        ])
    }
    pub fn json(&self) -> J {
        let types = self.types.iter().map(|t| self.type_json(t)).collect();
        let nm = |n: &str| if self.get(n).is_some() { obj(vec![("name", s(n))]) } else { J::Null };
        obj(vec![(
            "data",
            obj(vec![(
                "__schema",
                obj(vec![
                    ("queryType", nm("Query")),
                    ("mutationType", nm("Mutation")),
                    ("subscriptionType", nm("Subscription")),
                    ("types", J::Arr(types)),
                    ("directives", J::Arr(vec![])),
                ]),
            )]),
        )])
    }
}
