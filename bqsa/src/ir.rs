//! Loader for the program dump written by mirdump.
use serde::Deserialize;
use serde_json::Value;
use std::collections::{BTreeSet, HashMap};

#[derive(Deserialize, Debug, Clone, Default)]
pub struct Ty {
    pub s: String,
    pub k: String,
    #[serde(default)]
    pub def: String,
    #[serde(default)]
    pub args: Vec<usize>,
    #[serde(default, rename = "enum")]
    pub is_enum: bool,
    #[serde(default)]
    pub local: bool,
    #[serde(default)]
    pub vars: Vec<String>,
    #[serde(default)]
    pub discrs: Vec<String>,
    #[serde(default)]
    pub fields: Vec<String>,
    #[serde(default, rename = "mut")]
    pub mutbl: bool,
    #[serde(default)]
    pub n: i64,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pe {
    Deref,
    Field(u32, String, usize),
    Var(u32),
    Index(u32),
    CIdx(u64, bool),
    Other,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Place {
    pub l: u32,
    pub p: Vec<Pe>,
}

#[derive(Debug, Clone)]
pub struct FnRef {
    pub path: String,
    pub norm: String,
    pub res: Option<String>,
    pub local: bool,
    pub id: i64,
    pub targs: Vec<usize>,
    pub is_unsafe: bool,
    pub krate: String,
}

#[derive(Debug, Clone)]
pub enum Const {
    Str(String),
    Int(u128),
    Bool(bool),
    Char(char),
    Variant(u32),
    Fn(FnRef),
    Static(String),
    Other(String),
}

#[derive(Debug, Clone)]
pub enum Op {
    Copy(Place),
    Move(Place),
    Const { c: Const, ty: usize, item: Option<String> },
    Rt,
}

#[derive(Debug, Clone)]
pub enum Agg {
    Array,
    Tuple,
    Adt { def: String, var: u32, vname: String, fields: Vec<String> },
    Closure(String),
    Other,
}

#[derive(Debug, Clone)]
pub enum Rv {
    Use(Op),
    Ref { mutbl: bool, fake: bool, pl: Place },
    RawPtr(Place),
    Cast(String, Op, usize),
    Bin(String, Op, Op),
    Un(String, Op),
    Discr(Place),
    Agg(Agg, Vec<Op>),
    Repeat(Op, i64),
    Other,
}

#[derive(Debug, Clone)]
pub enum Stmt {
    Assign(Place, Rv, std::rc::Rc<str>),
    Dead(u32),
    SetDiscr(Place, u32),
    Other,
}

#[derive(Debug, Clone)]
pub enum Term {
    Goto(usize),
    Switch { o: Op, ty: usize, v: Vec<(u128, usize)>, e: usize },
    Ret,
    Unreachable,
    Drop { pl: Place, b: usize, rep: bool },
    Call { f: Op, a: Vec<Op>, d: Place, b: Option<usize>, src: String },
    Assert { c: Op, ex: bool, k: String, ops: Vec<Op>, b: usize },
    Resume,
    Asm,
    Other,
}

#[derive(Debug, Clone)]
pub struct Block {
    pub cl: bool,
    pub s: Vec<Stmt>,
    pub t: Term,
    pub sp: std::rc::Rc<str>,
}

#[derive(Debug, Clone)]
pub struct Local {
    pub t: usize,
    pub n: Option<String>,
}

#[derive(Debug, Clone)]
pub struct Func {
    pub name: String,
    pub id: i64,
    pub kind: String,
    pub sp: std::rc::Rc<str>,
    pub exp: bool,
    pub derived: bool,
    pub tr: Option<String>,
    pub is_pub: bool,
    pub unsafe_blocks: Vec<String>,
    pub argc: usize,
    pub locals: Vec<Local>,
    pub blocks: Vec<Block>,
    pub live_in: Vec<BTreeSet<u32>>,
    pub mut_parser: std::cell::Cell<Option<bool>>,
    pub is_result: bool,
    pub rpo: Vec<usize>,
}

#[derive(Debug, Clone, Deserialize, Default)]
pub struct ItemField {
    pub n: String,
    pub t: usize,
}

#[derive(Debug, Clone, Deserialize, Default)]
pub struct Item {
    pub name: String,
    pub kind: String,
    #[serde(default)]
    pub ty: usize,
    #[serde(default)]
    pub sp: String,
    #[serde(default)]
    pub exp: bool,
    #[serde(default)]
    pub freeze: bool,
    #[serde(default, rename = "mut")]
    pub mutbl: bool,
    #[serde(default)]
    pub str: Option<String>,
    #[serde(default)]
    pub pp: Option<String>,
    #[serde(default)]
    pub fields: Vec<ItemField>,
    #[serde(default)]
    pub vars: Vec<String>,
}

pub struct Ir {
    pub tys: Vec<Ty>,
    pub items: Vec<Item>,
    pub fns: Vec<Func>,
    pub by_name: HashMap<String, usize>,
    pub by_id: HashMap<i64, usize>,
}

/// `std::vec::Vec::<T, A>::push` -> `std::vec::Vec::push`; `core::str::<impl str>::chars` -> `core::str::str::chars`
pub fn norm(path: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = path.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '<' {
            let mut depth = 0;
            let start = i;
            while i < b.len() {
                if b[i] == '<' {
                    depth += 1;
                } else if b[i] == '>' && b[i - 1] != '-' && b[i - 1] != '=' {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                i += 1;
            }
            let inner: String = b[start + 1..i.min(b.len())].iter().collect();
            i += 1;
            if let Some(t) = inner.strip_prefix("impl ") {
                if !t.contains(" for ") {
                    let t = match t.find('<') {
                        Some(p) => &t[..p],
                        None => t,
                    };
                    out.push_str(t.rsplit("::").next().unwrap_or(t));
                } else {
                    out.push_str("impl");
                }
            } else if start == 0 {
                out.push('<');
                out.push_str(&inner);
                out.push('>');
            } else {
                // generic args: drop with preceding ::
                while out.ends_with(':') {
                    out.pop();
                }
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// last two path segments of a normalised path
pub fn tail2(n: &str) -> String {
    let segs: Vec<&str> = n.split("::").collect();
    if segs.len() >= 2 {
        format!("{}::{}", segs[segs.len() - 2], segs[segs.len() - 1])
    } else {
        n.to_string()
    }
}

fn place(v: &Value) -> Place {
    let l = v["l"].as_u64().unwrap() as u32;
    let mut p = vec![];
    if let Some(a) = v["p"].as_array() {
        for e in a {
            if let Some(s) = e.as_str() {
                p.push(if s == "*" { Pe::Deref } else { Pe::Other });
            } else if let Some(f) = e.get("f") {
                p.push(Pe::Field(
                    f.as_u64().unwrap() as u32,
                    e["n"].as_str().unwrap_or("").to_string(),
                    e["t"].as_u64().unwrap_or(0) as usize,
                ));
            } else if let Some(x) = e.get("v") {
                p.push(Pe::Var(x.as_u64().unwrap() as u32));
            } else if let Some(x) = e.get("i") {
                p.push(Pe::Index(x.as_u64().unwrap() as u32));
            } else if let Some(x) = e.get("ci") {
                p.push(Pe::CIdx(x.as_u64().unwrap(), e["fe"].as_bool().unwrap_or(false)));
            } else {
                p.push(Pe::Other);
            }
        }
    }
    Place { l, p }
}

fn fnref(v: &Value) -> FnRef {
    let path = v["fn"].as_str().unwrap().to_string();
    FnRef {
        norm: norm(&path),
        path,
        res: v["res"].as_str().map(|s| s.to_string()),
        local: v["local"].as_bool().unwrap_or(false),
        id: v["id"].as_i64().unwrap_or(-1),
        targs: v["targs"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default(),
        is_unsafe: v["unsafe"].as_bool().unwrap_or(false),
        krate: v["krate"].as_str().unwrap_or("").to_string(),
    }
}

fn op(v: &Value) -> Op {
    if let Some(p) = v.get("c") {
        return Op::Copy(place(p));
    }
    if let Some(p) = v.get("m") {
        return Op::Move(place(p));
    }
    if let Some(k) = v.get("k") {
        let ty = k["ty"].as_u64().unwrap_or(0) as usize;
        let item = k.get("item").and_then(|x| x.as_str()).map(|s| s.to_string());
        let c = if let Some(f) = k.get("fndef") {
            Const::Fn(fnref(f))
        } else if let Some(s) = k.get("str") {
            Const::Str(s.as_str().unwrap().to_string())
        } else if let Some(s) = k.get("int") {
            Const::Int(s.as_str().unwrap().parse().unwrap())
        } else if let Some(b) = k.get("bool") {
            Const::Bool(b.as_bool().unwrap())
        } else if let Some(c) = k.get("char") {
            Const::Char(char::from_u32(c.as_u64().unwrap() as u32).unwrap_or('\u{0}'))
        } else if let Some(c) = k.get("variant") {
            Const::Variant(c.as_u64().unwrap() as u32)
        } else if let Some(c) = k.get("static") {
            Const::Static(c.as_str().unwrap().to_string())
        } else {
            Const::Other(k.get("pp").and_then(|x| x.as_str()).unwrap_or("").to_string())
        };
        return Op::Const { c, ty, item };
    }
    Op::Rt
}

fn rv(v: &Value) -> Rv {
    match v["r"].as_str().unwrap() {
        "use" => Rv::Use(op(&v["o"])),
        "ref" => Rv::Ref { mutbl: v["mut"].as_bool().unwrap(), fake: v["fake"].as_bool().unwrap(), pl: place(&v["pl"]) },
        "rawptr" => Rv::RawPtr(place(&v["pl"])),
        "cast" => Rv::Cast(v["kind"].as_str().unwrap().to_string(), op(&v["o"]), v["t"].as_u64().unwrap() as usize),
        "bin" => Rv::Bin(v["op"].as_str().unwrap().to_string(), op(&v["a"]), op(&v["b"])),
        "un" => Rv::Un(v["op"].as_str().unwrap().to_string(), op(&v["o"])),
        "discr" => Rv::Discr(place(&v["pl"])),
        "agg" => {
            let os = v["os"].as_array().unwrap().iter().map(op).collect();
            let k = match v["ak"].as_str().unwrap() {
                "array" => Agg::Array,
                "tuple" => Agg::Tuple,
                "adt" => Agg::Adt {
                    def: v["def"].as_str().unwrap().to_string(),
                    var: v["v"].as_u64().unwrap() as u32,
                    vname: v["vn"].as_str().unwrap().to_string(),
                    fields: v["fields"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                },
                "closure" => Agg::Closure(v["def"].as_str().unwrap().to_string()),
                _ => Agg::Other,
            };
            Rv::Agg(k, os)
        }
        "repeat" => Rv::Repeat(op(&v["o"]), v["n"].as_i64().unwrap_or(-1)),
        _ => Rv::Other,
    }
}

fn term(v: &Value) -> Term {
    let b = |k: &str| v[k].as_u64().unwrap() as usize;
    match v["t"].as_str().unwrap() {
        "goto" => Term::Goto(b("b")),
        "switch" => Term::Switch {
            o: op(&v["o"]),
            ty: b("ty"),
            v: v["v"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().parse().unwrap(), x[1].as_u64().unwrap() as usize)).collect(),
            e: b("e"),
        },
        "ret" => Term::Ret,
        "unreachable" => Term::Unreachable,
        "drop" => Term::Drop { pl: place(&v["pl"]), b: b("b"), rep: v["rep"].as_bool().unwrap() },
        "call" => Term::Call {
            f: op(&v["f"]),
            a: v["a"].as_array().unwrap().iter().map(op).collect(),
            d: place(&v["d"]),
            b: { let x = v["b"].as_i64().unwrap(); if x < 0 { None } else { Some(x as usize) } },
            src: v["src"].as_str().unwrap_or("").to_string(),
        },
        "assert" => Term::Assert {
            c: op(&v["c"]),
            ex: v["ex"].as_bool().unwrap(),
            k: v["k"].as_str().unwrap().to_string(),
            ops: v["ops"].as_array().unwrap().iter().map(op).collect(),
            b: b("b"),
        },
        "resume" => Term::Resume,
        "asm" => Term::Asm,
        _ => Term::Other,
    }
}

impl Term {
    pub fn succs(&self) -> Vec<usize> {
        match self {
            Term::Goto(b) => vec![*b],
            Term::Switch { v, e, .. } => {
                let mut r: Vec<usize> = v.iter().map(|x| x.1).collect();
                r.push(*e);
                r
            }
            Term::Drop { b, .. } => vec![*b],
            Term::Call { b, .. } => b.iter().cloned().collect(),
            Term::Assert { b, .. } => vec![*b],
            _ => vec![],
        }
    }
}

fn op_uses(o: &Op, f: &mut dyn FnMut(u32)) {
    match o {
        Op::Copy(p) | Op::Move(p) => place_uses(p, f),
        _ => {}
    }
}
fn place_uses(p: &Place, f: &mut dyn FnMut(u32)) {
    f(p.l);
    for e in &p.p {
        if let Pe::Index(l) = e {
            f(*l)
        }
    }
}

impl Func {
    pub fn new_analysed(mut self) -> Func {
        let n = self.blocks.len();
        // borrowed locals stay live until StorageDead
        let mut borrowed: BTreeSet<u32> = BTreeSet::new();
        for b in &self.blocks {
            for s in &b.s {
                if let Stmt::Assign(_, r, _) = s {
                    match r {
                        Rv::Ref { pl, .. } | Rv::RawPtr(pl) => {
                            if !pl.p.contains(&Pe::Deref) {
                                borrowed.insert(pl.l);
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        let mut live: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); n];
        // rpo
        let mut seen = vec![false; n];
        let mut post = vec![];
        let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
        seen[0] = true;
        while let Some((b, i)) = stack.pop() {
            let s = self.blocks[b].t.succs();
            if i < s.len() {
                stack.push((b, i + 1));
                if !seen[s[i]] {
                    seen[s[i]] = true;
                    stack.push((s[i], 0));
                }
            } else {
                post.push(b);
            }
        }
        let mut rpo = vec![usize::MAX; n];
        for (i, b) in post.iter().rev().enumerate() {
            rpo[*b] = i;
        }
        let mut changed = true;
        while changed {
            changed = false;
            for &b in post.iter() {
                let blk = &self.blocks[b];
                let mut l: BTreeSet<u32> = BTreeSet::new();
                for s in blk.t.succs() {
                    l.extend(live[s].iter().cloned());
                }
                match &blk.t {
                    Term::Switch { o, .. } => op_uses(o, &mut |x| {
                        l.insert(x);
                    }),
                    Term::Drop { pl, .. } => place_uses(pl, &mut |x| {
                        l.insert(x);
                    }),
                    Term::Ret => {
                        l.insert(0);
                    }
                    Term::Call { f, a, d, .. } => {
                        if d.p.is_empty() {
                            l.remove(&d.l);
                        }
                        if !d.p.is_empty() {
                            place_uses(d, &mut |x| {
                                l.insert(x);
                            });
                        }
                        op_uses(f, &mut |x| {
                            l.insert(x);
                        });
                        for o in a {
                            op_uses(o, &mut |x| {
                                l.insert(x);
                            });
                        }
                    }
                    Term::Assert { c, ops, .. } => {
                        op_uses(c, &mut |x| {
                            l.insert(x);
                        });
                        for o in ops {
                            op_uses(o, &mut |x| {
                                l.insert(x);
                            });
                        }
                    }
                    _ => {}
                }
                for s in blk.s.iter().rev() {
                    match s {
                        Stmt::Assign(p, r, _) => {
                            if p.p.is_empty() {
                                l.remove(&p.l);
                            } else {
                                place_uses(p, &mut |x| {
                                    l.insert(x);
                                });
                            }
                            let mut u = |x: u32| {
                                l.insert(x);
                            };
                            match r {
                                Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Un(_, o) | Rv::Repeat(o, _) => op_uses(o, &mut u),
                                Rv::Ref { pl, .. } | Rv::RawPtr(pl) | Rv::Discr(pl) => place_uses(pl, &mut u),
                                Rv::Bin(_, a, b) => {
                                    op_uses(a, &mut u);
                                    op_uses(b, &mut u);
                                }
                                Rv::Agg(_, os) => {
                                    for o in os {
                                        op_uses(o, &mut u)
                                    }
                                }
                                Rv::Other => {}
                            }
                        }
                        Stmt::Dead(x) => {
                            l.remove(x);
                        }
                        _ => {}
                    }
                }
                if l != live[b] {
                    live[b] = l;
                    changed = true;
                }
            }
        }
        for l in live.iter_mut() {
            for b in &borrowed {
                l.insert(*b);
            }
            for a in 0..=self.argc {
                // return place and arguments never pruned when they may hold state
                if a == 0 {
                    l.insert(0);
                }
            }
        }
        self.live_in = live;
        self.rpo = rpo;
        self
    }
}

pub fn load(path: &str) -> Ir {
    let txt = std::fs::read_to_string(path).expect("read ir");
    let mut de = serde_json::Deserializer::from_str(&txt);
    let v: Value = Value::deserialize(&mut de).expect("parse ir");
    let tys: Vec<Ty> = v["types"].as_array().unwrap().iter().map(|t| Ty::deserialize(t).unwrap()).collect();
    let items: Vec<Item> = v["items"].as_array().unwrap().iter().map(|t| Item::deserialize(t).unwrap()).collect();
    let mut fns = vec![];
    for f in v["fns"].as_array().unwrap() {
        let derived = f["derived"].as_bool().unwrap();
        let exp = f["exp"].as_bool().unwrap();
        let name = f["name"].as_str().unwrap().to_string();
        let blocks = f["blocks"]
            .as_array()
            .unwrap()
            .iter()
            .map(|b| Block {
                cl: b["cl"].as_bool().unwrap(),
                s: b["s"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|s| match s["s"].as_str().unwrap() {
                        "a" => Stmt::Assign(place(&s["pl"]), rv(&s["rv"]), s["sp"].as_str().unwrap().into()),
                        "dead" => Stmt::Dead(s["l"].as_u64().unwrap() as u32),
                        "setd" => Stmt::SetDiscr(place(&s["pl"]), s["v"].as_u64().unwrap() as u32),
                        _ => Stmt::Other,
                    })
                    .collect(),
                t: term(&b["t"]),
                sp: b["sp"].as_str().unwrap().into(),
            })
            .collect();
        let fun = Func {
            name,
            id: f["id"].as_i64().unwrap(),
            kind: f["kind"].as_str().unwrap().to_string(),
            sp: f["sp"].as_str().unwrap().into(),
            exp,
            derived,
            tr: f["trait"].as_str().map(|s| s.to_string()),
            is_pub: f["pub"].as_bool().unwrap_or(false),
            unsafe_blocks: f["unsafe_blocks"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
            argc: f["argc"].as_u64().unwrap() as usize,
            locals: f["locals"]
                .as_array()
                .unwrap()
                .iter()
                .map(|l| Local { t: l["t"].as_u64().unwrap() as usize, n: l.get("n").and_then(|x| x.as_str()).map(|s| s.to_string()) })
                .collect(),
            blocks,
            live_in: vec![],
            mut_parser: std::cell::Cell::new(None),
            is_result: false,
            rpo: vec![],
        };
        fns.push(if derived { fun } else { fun.new_analysed() });
    }
    canon_roles(&tys, &mut fns);
    let mut by_name = HashMap::default();
    let mut by_id = HashMap::default();
    for (i, f) in fns.iter().enumerate() {
        by_name.insert(f.name.clone(), i);
        by_id.insert(f.id, i);
    }
    Ir { tys, items, fns, by_name, by_id }
}

/// The analyses speak of a few private helpers of the parser by name. If one of them is missing,
/// the function that has its signature (and its place in the call graph) takes the role: what a
/// helper is called does not matter.
fn canon_roles(tys: &[Ty], fns: &mut Vec<Func>) {
    let mut calls: HashMap<i64, usize> = HashMap::default();
    let mut edges: BTreeSet<(i64, i64)> = BTreeSet::new();
    for f in fns.iter() {
        for b in &f.blocks {
            if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, .. } = &b.t {
                *calls.entry(r.id).or_default() += 1;
                edges.insert((f.id, r.id));
            }
        }
    }
    let sig = |f: &Func| -> Vec<String> { (0..=f.argc).map(|i| tys[f.locals[i].t].s.clone()).collect() };
    let roles: &[(&str, &[&str], &str)] = &[
        ("parser::Parser::get_token", &["Result<&token::Token,", "&parser::Parser", "usize"], ""),
        ("parser::Parser::get_offset_index", &["Result<usize,", "&parser::Parser", "usize"], "parser::Parser::get_token"),
        ("parser::Parser::is_eof", &["bool", "&parser::Parser", "usize"], ""),
        ("parser::Parser::next_token", &["Result<(),", "&mut parser::Parser"], ""),
        ("parser::Parser::construct_node", &["Result<cst::Node,", "&parser::Parser", "cst::NodeType"], ""),
    ];
    let mut taken: BTreeSet<String> = roles.iter().map(|r| r.0.to_string()).collect();
    taken.insert("parser::Parser::get_precedence".into());
    let mut ren: Vec<(String, String)> = vec![];
    for (role, want, caller) in roles {
        if fns.iter().any(|f| f.name == *role) {
            continue;
        }
        let cid = fns.iter().find(|f| f.name == *caller || ren.iter().any(|r| r.1 == *caller && r.0 == f.name)).map(|f| f.id);
        let best = fns
            .iter()
            .filter(|f| !f.derived && f.name.starts_with("parser::Parser::") && !f.name.contains('{') && !taken.contains(&f.name))
            .filter(|f| {
                let s = sig(f);
                s.len() == want.len() && s.iter().zip(want.iter()).all(|(a, b)| if b.ends_with(',') { a.contains(b) } else { a == b })
            })
            .filter(|f| caller.is_empty() || cid.map(|c| edges.contains(&(c, f.id))).unwrap_or(false))
            .max_by_key(|f| calls.get(&f.id).cloned().unwrap_or(0))
            .map(|f| f.name.clone());
        if let Some(n) = best {
            taken.insert(n.clone());
            ren.push((n, role.to_string()));
        }
    }
    // token predicates: only when exactly one is missing and exactly one is unknown
    let known = ["is_string", "is_identifier", "is_parameter", "is_template", "is_numeric", "is_boolean", "is_reserved_keyword", "is_comment"];
    let missing: Vec<&&str> = known.iter().filter(|k| !fns.iter().any(|f| f.name == format!("token::Token::{}", k))).collect();
    if missing.len() == 1 {
        let c: Vec<String> = fns
            .iter()
            .filter(|f| !f.derived && f.name.starts_with("token::Token::") && !f.name.contains('{') && sig(f) == ["bool", "&token::Token"])
            .filter(|f| !known.iter().any(|k| f.name == format!("token::Token::{}", k)))
            .map(|f| f.name.clone())
            .collect();
        if c.len() == 1 {
            ren.push((c[0].clone(), format!("token::Token::{}", missing[0])));
        }
    }
    let ids: HashMap<i64, (String, String)> = fns.iter().filter_map(|f| ren.iter().find(|r| r.0 == f.name).map(|r| (f.id, r.clone()))).collect();
    let fix = |o: &mut Op| {
        if let Op::Const { c: Const::Fn(r), .. } = o {
            if let Some((from, to)) = ids.get(&r.id) {
                r.path = r.path.replace(from.as_str(), to);
                r.norm = r.norm.replace(from.as_str(), to);
                r.res = r.res.as_ref().map(|x| x.replace(from.as_str(), to));
            }
        }
    };
    if !ids.is_empty() {
        for f in fns.iter_mut() {
            for b in f.blocks.iter_mut() {
                if let Term::Call { f, a, .. } = &mut b.t {
                    fix(f);
                    a.iter_mut().for_each(&fix);
                }
            }
        }
    }
    for (from, to) in &ren {
        for f in fns.iter_mut() {
            if f.name == *from {
                f.name = to.clone();
            } else if let Some(rest) = f.name.strip_prefix(&format!("{}::", from)) {
                f.name = format!("{}::{}", to, rest);
            }
        }
    }
}

impl Ir {
    /// position, leading, trailing, tokens of the parser: found by name, or else by type (and, for
    /// the two lists of indices, by order)
    pub fn parser_fields(&self) -> [Option<usize>; 4] {
        let it = match self.items.iter().find(|i| i.name == "parser::Parser") {
            Some(i) => i,
            None => return [None; 4],
        };
        let ix = |n: &str| it.fields.iter().position(|f| f.n == n);
        let by = |t: &str| -> Vec<usize> { (0..it.fields.len()).filter(|i| self.tys[it.fields[*i].t].s == t).collect() };
        let one = |t: &str| by(t).first().cloned().filter(|_| by(t).len() == 1);
        let l = by("std::vec::Vec<usize>");
        let (mut a, mut b) = (ix("leading_comment_indices"), ix("trailing_comment_indices"));
        if l.len() == 2 {
            a = a.or_else(|| l.iter().find(|x| Some(**x) != b).cloned());
            b = b.or_else(|| l.iter().find(|x| Some(**x) != a).cloned());
        }
        [ix("position").or_else(|| one("usize")), a, b, ix("tokens").or_else(|| one("std::vec::Vec<token::Token>"))]
    }
}
