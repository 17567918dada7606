//! Parser for the TypeScript qlc may emit, and its canonical meaning.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Str(String),
    P(char),
}
#[derive(Clone, Debug)]
pub struct Token {
    pub t: Tok,
    /// comments before this token
    pub doc: String,
}
pub fn lex(src: &str) -> Result<Vec<Token>, String> {
    let b: Vec<char> = src.chars().collect();
    let (mut i, mut out, mut doc) = (0, vec![], String::new());
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            let mut j = i + 2;
            while j + 1 < b.len() && !(b[j] == '*' && b[j + 1] == '/') {
                j += 1;
            }
            if j + 1 >= b.len() {
                return Err("unterminated comment".into());
            }
            doc.extend(&b[i + 2..j]);
            doc.push('\n');
            i = j + 2;
        } else if c.is_alphanumeric() || c == '_' || c == '$' {
            let st = i;
            // a dot: a custom scalar prefix may name a namespace
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$' || b[i] == '.') {
                i += 1;
            }
            out.push(Token { t: Tok::Id(b[st..i].iter().collect()), doc: std::mem::take(&mut doc) });
        } else if c == '"' || c == '\'' {
            let st = i + 1;
            i += 1;
            while i < b.len() && b[i] != c && b[i] != '\n' {
                i += if b[i] == '\\' { 2 } else { 1 };
            }
            if i >= b.len() || b[i] != c {
                return Err("unterminated string".into());
            }
            out.push(Token { t: Tok::Str(b[st..i].iter().collect()), doc: std::mem::take(&mut doc) });
            i += 1;
        } else if "{}[]()<>|;:,=?*&".contains(c) {
            out.push(Token { t: Tok::P(c), doc: std::mem::take(&mut doc) });
            i += 1;
        } else {
            return Err(format!("unexpected character {c:?}"));
        }
    }
    Ok(out)
}
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String, Vec<T>),
    Lit(String),
    Null,
    Arr(Box<T>),
    Union(Vec<T>),
    Obj(Vec<Member>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Member {
    pub name: String,
    pub opt: bool,
    pub readonly: bool,
    pub ty: T,
    pub doc: String,
}
#[derive(Clone, Debug, Default)]
pub struct Enum {
    pub name: String,
    pub vals: Vec<(String, String)>,
    pub doc: String,
}
#[derive(Clone, Debug, Default)]
pub struct Module {
    pub imports: Vec<(Vec<String>, String)>,
    pub types: Vec<(String, T)>,
    pub enums: Vec<Enum>,
    pub declared: Option<(String, T)>,
    pub default: Option<String>,
}
struct P {
    v: Vec<Token>,
    i: usize,
}
type R<X> = Result<X, String>;
impl P {
    fn peek(&self) -> Option<&Tok> {
        self.v.get(self.i).map(|t| &t.t)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.v.get(self.i).ok_or("unexpected end")?.t.clone();
        self.i += 1;
        Ok(t)
    }
    fn p(&mut self, c: char) -> R<()> {
        match self.next()? {
            Tok::P(x) if x == c => Ok(()),
            t => Err(format!("expected {c:?}, found {t:?}")),
        }
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn opt(&mut self, c: char) -> bool {
        let y = self.is(c);
        if y {
            self.i += 1;
        }
        y
    }
    fn id(&mut self) -> R<String> {
        match self.next()? {
            Tok::Id(x) => Ok(x),
            t => Err(format!("expected a name, found {t:?}")),
        }
    }
    fn word(&mut self, w: &str) -> R<()> {
        let x = self.id()?;
        if x == w {
            Ok(())
        } else {
            Err(format!("expected {w}, found {x}"))
        }
    }
    fn str(&mut self) -> R<String> {
        match self.next()? {
            Tok::Str(x) => Ok(x),
            t => Err(format!("expected a string, found {t:?}")),
        }
    }
    fn ty(&mut self) -> R<T> {
        self.opt('|');
        let mut v = vec![self.postfix()?];
        while self.opt('|') {
            v.push(self.postfix()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { T::Union(v) })
    }
    fn postfix(&mut self) -> R<T> {
        let mut t = self.prim()?;
        while self.is('[') {
            self.i += 1;
            self.p(']')?;
            t = T::Arr(Box::new(t));
        }
        Ok(t)
    }
    fn prim(&mut self) -> R<T> {
        if self.opt('(') {
            let t = self.ty()?;
            self.p(')')?;
            return Ok(t);
        }
        if self.opt('{') {
            let mut m = vec![];
            while !self.opt('}') {
                let doc = self.v.get(self.i).map(|t| t.doc.clone()).unwrap_or_default();
                let mut name = self.id()?;
                let mut readonly = false;
                if name == "readonly" && matches!(self.peek(), Some(Tok::Id(_))) {
                    readonly = true;
                    name = self.id()?;
                }
                let opt = self.opt('?');
                self.p(':')?;
                let ty = self.ty()?;
                if !self.opt(';') && !self.opt(',') && !self.is('}') {
                    return Err(format!("expected ; after {name}"));
                }
                m.push(Member { name, opt, readonly, ty, doc });
            }
            return Ok(T::Obj(m));
        }
        match self.next()? {
            Tok::Str(x) => Ok(T::Lit(x)),
            Tok::Id(x) if x == "null" => Ok(T::Null),
            Tok::Id(x) => {
                let mut a = vec![];
                if self.opt('<') {
                    loop {
                        a.push(self.ty()?);
                        if !self.opt(',') {
                            break;
                        }
                    }
                    self.p('>')?;
                    if x == "Array" || x == "ReadonlyArray" {
                        return Ok(T::Arr(Box::new(a.pop().unwrap())));
                    }
                }
                Ok(T::Id(x, a))
            }
            t => Err(format!("expected a type, found {t:?}")),
        }
    }
}
pub fn parse(src: &str) -> R<Module> {
    let mut p = P { v: lex(src)?, i: 0 };
    let mut m = Module::default();
    while p.i < p.v.len() {
        let doc = p.v[p.i].doc.clone();
        match p.id()?.as_str() {
            "import" => {
                if p.peek() == Some(&Tok::Id("type".into())) {
                    p.i += 1;
                }
                p.p('{')?;
                let mut names = vec![];
                while !p.opt('}') {
                    names.push(p.id()?);
                    p.opt(',');
                }
                p.word("from")?;
                let from = p.str()?;
                p.opt(';');
                m.imports.push((names, from));
            }
            "export" => match p.id()?.as_str() {
                "type" => {
                    let n = p.id()?;
                    p.p('=')?;
                    let t = p.ty()?;
                    p.opt(';');
                    m.types.push((n, t));
                }
                "enum" => {
                    let name = p.id()?;
                    p.p('{')?;
                    let mut vals = vec![];
                    while !p.opt('}') {
                        let k = p.id()?;
                        p.p('=')?;
                        vals.push((k, p.str()?));
                        if !p.opt(',') && !p.is('}') {
                            return Err("expected , in enum".into());
                        }
                    }
                    m.enums.push(Enum { name, vals, doc });
                }
                "default" => {
                    if m.default.is_some() {
                        return Err("two default exports".into());
                    }
                    m.default = Some(p.id()?);
                    p.opt(';');
                }
                x => return Err(format!("export {x}")),
            },
            "declare" => {
                p.word("const")?;
                let n = p.id()?;
                p.p(':')?;
                let t = p.ty()?;
                p.opt(';');
                if m.declared.is_some() {
                    return Err("two declarations".into());
                }
                m.declared = Some((n, t));
            }
            x => return Err(format!("unexpected {x}")),
        }
    }
    Ok(m)
}
pub const PRIMS: [&str; 6] = ["string", "number", "boolean", "any", "never", "unknown"];
impl Module {
    pub fn get(&self, n: &str) -> Option<&T> {
        self.types.iter().find(|(a, _)| a == n).map(|(_, t)| t)
    }
    pub fn imported(&self) -> BTreeMap<&str, &str> {
        self.imports.iter().flat_map(|(n, f)| n.iter().map(move |x| (x.as_str(), f.as_str()))).collect()
    }
    /// The meaning of a type, in the notation of doc.rs.
    pub fn canon(&self, t: &T) -> R<String> {
        self.canon_d(t, 0)
    }
    fn canon_d(&self, t: &T, d: usize) -> R<String> {
        if d > 400 {
            return Err("recursive type".into());
        }
        match t {
            T::Arr(x) => Ok(format!("L({})", self.canon_d(x, d + 1)?)),
            T::Union(v) if v.iter().any(|x| matches!(x, T::Union(_))) => {
                let mut flat = vec![];
                for x in v {
                    match x {
                        T::Union(y) => flat.extend(y.iter().cloned()),
                        x => flat.push(x.clone()),
                    }
                }
                self.canon_d(&T::Union(flat), d + 1)
            }
            T::Union(v) if v.contains(&T::Null) => {
                let rest: Vec<T> = v.iter().filter(|x| **x != T::Null).cloned().collect();
                let inner = match rest.len() {
                    0 => return Err("only null".into()),
                    1 => self.canon_d(&rest[0], d + 1)?,
                    _ => self.canon_d(&T::Union(rest), d + 1)?,
                };
                Ok(format!("N({inner})"))
            }
            T::Union(v) if v.iter().all(|x| matches!(x, T::Lit(_))) => {
                let s: BTreeSet<String> =
                    v.iter().map(|x| if let T::Lit(l) = x { format!("\"{l}\"") } else { unreachable!() }).collect();
                Ok(s.into_iter().collect::<Vec<_>>().join("|"))
            }
            T::Lit(l) => Ok(format!("\"{l}\"")),
            T::Null => Ok("null".into()),
            T::Id(n, a) if a.is_empty() => {
                if let Some(x) = self.get(n) {
                    return self.canon_d(x, d + 1);
                }
                if self.enums.iter().any(|e| e.name == *n) {
                    return Ok(format!("@{n}"));
                }
                Ok(if self.imported().contains_key(n.as_str()) { format!("@{n}") } else { n.clone() })
            }
            T::Id(n, _) => Err(format!("generic {n}")),
            T::Obj(_) | T::Union(_) => {
                let mut set = BTreeSet::new();
                self.shapes(t, d, &mut set)?;
                Ok(set.into_iter().collect::<Vec<_>>().join("|"))
            }
        }
    }
    fn shapes(&self, t: &T, d: usize, out: &mut BTreeSet<String>) -> R<()> {
        if d > 400 {
            return Err("recursive type".into());
        }
        match t {
            T::Union(v) => v.iter().try_for_each(|x| self.shapes(x, d + 1, out)),
            T::Id(n, _) if n == "never" => Ok(()),
            T::Id(n, _) => {
                let x = self.get(n).ok_or(format!("{n} is not declared in the file"))?;
                self.shapes(x, d + 1, out)
            }
            T::Obj(m) => {
                let mut names = BTreeSet::new();
                // literal unions (type names) are expanded together
                let mut lits: Option<Vec<String>> = None;
                let mut fields: BTreeMap<String, (bool, Result<String, ()>)> = BTreeMap::new();
                for f in m {
                    if !names.insert(&f.name) {
                        return Err(format!("property {} declared twice", f.name));
                    }
                    let ls = match &f.ty {
                        T::Lit(l) => Some(vec![l.clone()]),
                        T::Union(v) if v.iter().all(|x| matches!(x, T::Lit(_))) => {
                            Some(v.iter().map(|x| if let T::Lit(l) = x { l.clone() } else { unreachable!() }).collect())
                        }
                        _ => None,
                    };
                    if let Some(mut ls) = ls {
                        ls.sort();
                        ls.dedup();
                        if lits.as_ref().is_some_and(|l| *l != ls) {
                            return Err("type name properties of one shape disagree".into());
                        }
                        lits = Some(ls);
                        fields.insert(f.name.clone(), (f.opt, Err(())));
                    } else {
                        fields.insert(f.name.clone(), (f.opt, Ok(self.canon_d(&f.ty, d + 1)?)));
                    }
                }
                for l in lits.unwrap_or_else(|| vec![String::new()]) {
                    let v: Vec<String> = fields
                        .iter()
                        .map(|(k, (o, c))| {
                            let c = match c {
                                Ok(c) => c.clone(),
                                Err(()) => format!("\"{l}\""),
                            };
                            format!("{k}{}:{c}", if *o { "?" } else { "" })
                        })
                        .collect();
                    out.insert(format!("{{{}}}", v.join(";")));
                }
                Ok(())
            }
            _ => Err(format!("unexpected alternative {t:?}")),
        }
    }
    /// T05: declared once, nothing undeclared, no unused import.  `scalars`: allowed free names.
    pub fn closed(&self, scalars: &dyn Fn(&str) -> bool) -> R<()> {
        let mut names: BTreeMap<&str, usize> = BTreeMap::new();
        for (n, _) in &self.types {
            *names.entry(n).or_default() += 1;
        }
        for e in &self.enums {
            *names.entry(&e.name).or_default() += 1;
        }
        for (ns, _) in &self.imports {
            for n in ns {
                *names.entry(n).or_default() += 1;
            }
        }
        if let Some((n, c)) = names.iter().find(|(_, c)| **c > 1) {
            return Err(format!("{n} declared {c} times"));
        }
        for n in names.keys() {
            if PRIMS.contains(n) {
                return Err(format!("{n} shadows a built-in type"));
            }
        }
        let mut used = BTreeSet::new();
        fn walk<'t>(t: &'t T, used: &mut BTreeSet<&'t str>) {
            match t {
                T::Id(n, a) => {
                    used.insert(n);
                    a.iter().for_each(|x| walk(x, used));
                }
                T::Arr(x) => walk(x, used),
                T::Union(v) => v.iter().for_each(|x| walk(x, used)),
                T::Obj(m) => m.iter().for_each(|f| walk(&f.ty, used)),
                _ => {}
            }
        }
        for (_, t) in &self.types {
            walk(t, &mut used);
        }
        if let Some((_, t)) = &self.declared {
            walk(t, &mut used);
        }
        for u in &used {
            if !names.contains_key(u) && !PRIMS.contains(u) && !scalars(u) {
                return Err(format!("{u} is used but neither declared nor imported"));
            }
        }
        for (ns, _) in &self.imports {
            for n in ns {
                if !used.contains(n.as_str()) {
                    return Err(format!("import {n} is not used"));
                }
            }
        }
        Ok(())
    }
}
impl Module {
    /// The global types file: name -> meaning, in the notation of Model::globals_file.
    pub fn globals(&self) -> R<BTreeMap<String, String>> {
        let mut flat = self.clone();
        flat.types.clear();
        for (n, _) in &self.types {
            flat.enums.push(Enum { name: n.clone(), ..Enum::default() });
        }
        let mut out = BTreeMap::new();
        for e in &self.enums {
            let mut v: Vec<String> = e.vals.iter().map(|(k, x)| format!("{k}={x}")).collect();
            v.sort();
            if out.insert(e.name.clone(), format!("enum {}", v.join(","))).is_some() {
                return Err(format!("{} exported twice", e.name));
            }
        }
        for (n, t) in &self.types {
            if out.insert(n.clone(), flat.canon(t)?).is_some() {
                return Err(format!("{n} exported twice"));
            }
        }
        Ok(out)
    }
    /// The main data type's name and the variables type's name from the document node annotation.
    pub fn node(&self) -> R<(String, Vec<String>)> {
        match &self.declared {
            Some((n, T::Id(k, a))) => {
                if self.default.as_deref() != Some(n.as_str()) {
                    return Err("the default export is not the declared document".into());
                }
                let mut v = vec![];
                for x in a {
                    match x {
                        T::Id(n, b) if b.is_empty() => v.push(n.clone()),
                        x => return Err(format!("document node argument {x:?}")),
                    }
                }
                Ok((k.clone(), v))
            }
            _ => Err("no document node declaration".into()),
        }
    }
}
