//! Reader for the published TypeScript declarations (src/types.rs).
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Name(String),
    Lit(String),
    Obj(Vec<(String, bool, T)>),
    Union(Vec<T>),
    Inter(Vec<T>),
    Arr(Box<T>),
    Idx(Box<T>, String),
}
#[derive(Clone, Debug, Default)]
pub struct KeyDecl {
    pub required: bool,
    pub never: bool,
    pub node: bool,
    pub vec: bool,
    pub types: Option<BTreeSet<String>>,
}
#[derive(Clone, Debug, Default)]
pub struct Decl {
    pub keys: BTreeMap<String, KeyDecl>,
    pub token_required: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Ts {
    pub types: BTreeMap<String, Decl>,
    pub declared: usize,
}

struct P {
    t: Vec<String>,
    i: usize,
}
fn lex(src: &str) -> Vec<String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(c[s..i].iter().collect());
        } else if c[i] == '"' || c[i] == '\'' {
            let q = c[i];
            let s = i;
            i += 1;
            while i < c.len() && c[i] != q {
                i += 1;
            }
            i += 1;
            out.push(format!("\"{}\"", c[s + 1..i - 1].iter().collect::<String>()));
        } else {
            out.push(c[i].to_string());
            i += 1;
        }
    }
    out
}
impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> String {
        let s = self.peek().to_string();
        self.i += 1;
        s
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.peek() == s {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ty(&mut self) -> T {
        self.eat("|");
        let mut v = vec![self.inter()];
        while self.eat("|") {
            v.push(self.inter());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            T::Union(v)
        }
    }
    fn inter(&mut self) -> T {
        self.eat("&");
        let mut v = vec![self.post()];
        while self.eat("&") {
            v.push(self.post());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            T::Inter(v)
        }
    }
    fn post(&mut self) -> T {
        let mut t = self.prim();
        while self.peek() == "[" {
            self.i += 1;
            if self.eat("]") {
                t = T::Arr(Box::new(t));
            } else {
                let k = self.next();
                self.eat("]");
                t = T::Idx(Box::new(t), k.trim_matches('"').to_string());
            }
        }
        t
    }
    fn prim(&mut self) -> T {
        if self.eat("(") {
            let t = self.ty();
            self.eat(")");
            return t;
        }
        if self.eat("{") {
            return self.obj();
        }
        let s = self.next();
        if let Some(x) = s.strip_prefix('"') {
            return T::Lit(x.trim_end_matches('"').to_string());
        }
        T::Name(s)
    }
    fn obj(&mut self) -> T {
        let mut v = vec![];
        while self.peek() != "}" && !self.peek().is_empty() {
            let k = self.next().trim_matches('"').to_string();
            let opt = self.eat("?");
            if !self.eat(":") {
                continue;
            }
            let t = self.ty();
            v.push((k, opt, t));
            while self.eat(";") || self.eat(",") {}
        }
        self.eat("}");
        T::Obj(v)
    }
}

pub fn parse(src: &str) -> Ts {
    // all raw string constants of the file that hold TypeScript
    let mut text = String::new();
    let mut rest = src;
    while let Some(p) = rest.find("r#\"") {
        let body = &rest[p + 3..];
        let e = body.find("\"#").unwrap_or(body.len());
        text.push_str(&body[..e]);
        text.push('\n');
        rest = &body[e..];
    }
    let mut p = P { t: lex(&text), i: 0 };
    let mut defs: BTreeMap<String, T> = BTreeMap::new();
    while p.i < p.t.len() {
        let w = p.next();
        if w == "type" {
            let n = p.next();
            if p.eat("=") {
                let t = p.ty();
                defs.insert(n, t);
            }
        } else if w == "interface" {
            let n = p.next();
            while p.peek() != "{" && !p.peek().is_empty() {
                p.next();
            }
            p.eat("{");
            let t = p.obj();
            defs.insert(n, t);
        }
    }
    let mut ts = Ts::default();
    let mut union: BTreeSet<String> = BTreeSet::new();
    if let Some(T::Union(v)) = defs.get("UnknownNode") {
        for t in v {
            if let T::Name(n) = t {
                union.insert(n.clone());
            }
        }
    }
    // concrete name -> node_type literal
    let mut concrete: BTreeMap<String, String> = BTreeMap::new();
    for n in defs.keys() {
        let mut f = vec![];
        fields(&defs, &T::Name(n.clone()), "node_type", &mut f, 0);
        for (_, t) in f {
            if let T::Lit(l) = t {
                concrete.insert(n.clone(), l);
            }
        }
    }
    for n in &union {
        let lit = match concrete.get(n) {
            Some(l) => l.clone(),
            None => continue,
        };
        let mut d = Decl::default();
        let mut ch = vec![];
        fields(&defs, &T::Name(n.clone()), "children", &mut ch, 0);
        for (_, c) in ch {
            let mut objs = vec![];
            objects(&defs, &c, &mut objs, 0);
            for (k, opt, t) in objs {
                let kd = key(&defs, &concrete, &t);
                let e = d.keys.entry(k);
                match e {
                    std::collections::btree_map::Entry::Vacant(v) => {
                        let mut kd = kd;
                        kd.required = !opt && !kd.never;
                        v.insert(kd);
                    }
                    std::collections::btree_map::Entry::Occupied(mut o) => {
                        let x = o.get_mut();
                        x.never |= kd.never;
                        x.node &= kd.node;
                        x.vec &= kd.vec;
                        x.required = (x.required || !opt) && !x.never;
                        x.types = match (x.types.take(), kd.types) {
                            (Some(a), Some(b)) => Some(a.intersection(&b).cloned().collect()),
                            (Some(a), None) | (None, Some(a)) => Some(a),
                            _ => None,
                        };
                    }
                }
            }
        }
        let mut tk = vec![];
        fields(&defs, &T::Name(n.clone()), "token", &mut tk, 0);
        d.token_required = tk.iter().any(|(_, t)| *t == T::Name("Token".into()));
        ts.types.insert(lit, d);
    }
    ts.declared = union.len();
    ts
}
fn fields(defs: &BTreeMap<String, T>, t: &T, f: &str, out: &mut Vec<(bool, T)>, d: u32) {
    if d > 30 {
        return;
    }
    match t {
        T::Name(n) => {
            if let Some(x) = defs.get(n) {
                fields(defs, x, f, out, d + 1)
            }
        }
        T::Inter(v) => {
            for x in v {
                fields(defs, x, f, out, d + 1)
            }
        }
        T::Obj(v) => {
            for (k, o, x) in v {
                if k == f {
                    out.push((*o, x.clone()))
                }
            }
        }
        _ => {}
    }
}
fn objects(defs: &BTreeMap<String, T>, t: &T, out: &mut Vec<(String, bool, T)>, d: u32) {
    if d > 30 {
        return;
    }
    match t {
        T::Obj(v) => out.extend(v.iter().cloned()),
        T::Inter(v) => {
            for x in v {
                objects(defs, x, out, d + 1)
            }
        }
        T::Name(n) => {
            if let Some(x) = defs.get(n) {
                objects(defs, x, out, d + 1)
            }
        }
        T::Idx(b, f) => {
            let mut fs = vec![];
            fields(defs, b, f, &mut fs, d + 1);
            for (_, x) in fs {
                objects(defs, &x, out, d + 1)
            }
        }
        _ => {}
    }
}
fn key(defs: &BTreeMap<String, T>, conc: &BTreeMap<String, String>, t: &T) -> KeyDecl {
    let mut k = KeyDecl::default();
    let alts: Vec<T> = match t {
        T::Union(v) => v.clone(),
        x => vec![x.clone()],
    };
    let mut types: Option<BTreeSet<String>> = Some(BTreeSet::new());
    for a in alts {
        if let T::Name(n) = &a {
            if n == "undefined" || n == "never" {
                continue;
            }
        }
        let mut o = vec![];
        objects(defs, &a, &mut o, 0);
        for (f, _, x) in o {
            if f == "Node" {
                k.node = true;
            } else if f == "NodeVec" {
                k.vec = true;
            }
            let s = names(defs, conc, &x, 0);
            types = match (types, s) {
                (Some(mut a), Some(b)) => {
                    a.extend(b);
                    Some(a)
                }
                _ => None,
            };
        }
    }
    if !k.node && !k.vec {
        k.never = true;
    }
    k.types = types;
    k
}
/// the concrete node types a type admits; None = no restriction
fn names(defs: &BTreeMap<String, T>, conc: &BTreeMap<String, String>, t: &T, d: u32) -> Option<BTreeSet<String>> {
    if d > 30 {
        return None;
    }
    match t {
        T::Name(n) => {
            if n == "UnknownNode" {
                return None;
            }
            if let Some(l) = conc.get(n) {
                return Some([l.clone()].into());
            }
            match defs.get(n) {
                Some(x) => names(defs, conc, x, d + 1),
                None => None,
            }
        }
        T::Arr(x) => names(defs, conc, x, d + 1),
        T::Union(v) => {
            let mut r = BTreeSet::new();
            for x in v {
                r.extend(names(defs, conc, x, d + 1)?);
            }
            Some(r)
        }
        T::Inter(v) => {
            let mut r: Option<BTreeSet<String>> = None;
            for x in v {
                if let Some(s) = names(defs, conc, x, d + 1) {
                    r = Some(match r {
                        None => s,
                        Some(a) => a.intersection(&s).cloned().collect(),
                    });
                }
            }
            r
        }
        _ => None,
    }
}
