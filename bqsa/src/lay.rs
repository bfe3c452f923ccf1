//! C08: what the parser does may depend on the positions of tokens only through adjacency. Every
//! function that reads a position is followed in lockstep under a family of layouts that agree on
//! which neighbouring tokens touch and differ in everything else; the layouts must not part ways.
//! In the tokenizer no decision may depend on a line or a column at all.
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Default)]
pub struct LayOut {
    pub finds: BTreeMap<String, (String, String)>,
    pub undecided: BTreeMap<String, String>,
    pub reads: BTreeSet<String>,
    pub fns: BTreeSet<String>,
    pub exempt: BTreeSet<String>,
    pub states: usize,
    pub layouts: usize,
    pub lexer_fns: usize,
    pub lexer_reads: usize,
}

/// type of the place before its i-th projection
fn base_ty(ir: &Ir, f: &Func, p: &Place, n: usize) -> usize {
    let mut t = f.locals[p.l as usize].t;
    for e in &p.p[..n] {
        match e {
            Pe::Deref => {
                let ty = &ir.tys[t];
                t = ty.args.first().cloned().unwrap_or(t);
            }
            Pe::Field(_, _, x) => t = *x,
            Pe::Index(_) | Pe::CIdx(..) => {
                let ty = &ir.tys[t];
                t = ty.args.first().cloned().unwrap_or(t);
            }
            _ => {}
        }
    }
    t
}
/// the place reads a line or column of something of this type
fn pos_read(ir: &Ir, f: &Func, p: &Place, def: &str) -> Option<usize> {
    for (i, e) in p.p.iter().enumerate() {
        if let Pe::Field(_, n, _) = e {
            if (n == "line" || n == "column") && ir.tys[base_ty(ir, f, p, i)].def == def {
                return Some(i);
            }
        }
    }
    None
}
fn places<'b>(b: &'b Block) -> Vec<&'b Place> {
    let mut v = vec![];
    for (o, _) in crate::eff::ops_of(b) {
        if let Op::Copy(p) | Op::Move(p) = o {
            v.push(p);
        }
    }
    for s in &b.s {
        if let Stmt::Assign(_, Rv::Ref { pl, .. } | Rv::RawPtr(pl) | Rv::Discr(pl), _) = s {
            v.push(pl);
        }
    }
    v
}
fn has_read(ir: &Ir, f: &Func) -> bool {
    f.blocks.iter().any(|b| places(b).iter().any(|p| pos_read(ir, f, p, "token::Token").is_some()))
}
fn callee<'a>(ir: &'a Ir, r: &FnRef) -> Option<usize> {
    if !r.local {
        return None;
    }
    ir.by_id.get(&r.id).or_else(|| r.res.as_ref().and_then(|n| ir.by_name.get(n))).cloned()
}
fn takes_mut_parser(ir: &Ir, f: &Func) -> bool {
    (1..=f.argc).any(|i| {
        let t = &ir.tys[f.locals[i].t];
        t.k == "ref" && t.mutbl && t.args.first().map_or(false, |a| ir.tys[*a].def == "parser::Parser")
    })
}

// ----- layouts -----
/// positions of the tokens; every token is three characters wide
struct World {
    kind: usize,
    touch: &'static [i64], // gaps without white space: number of the token in front of it
}
const KINDS: usize = 7;
impl World {
    fn gap(&self, i: i64) -> (i64, i64) {
        // (line breaks, spaces); spaces count from column 1 behind a line break
        if self.touch.contains(&i) {
            return (0, 0);
        }
        let odd = i.rem_euclid(2) == 1;
        match self.kind {
            0 => (0, 1),
            1 => (0, 4),
            2 => (1, -1), // in the column where it would touch
            3 => (1, 0),
            4 => if odd { (1, 0) } else { (0, 1) },
            5 => if odd { (0, 1) } else { (2, 9) },
            _ => (1, 30),
        }
    }
    fn pos(&self, i: i64) -> (i64, i64) {
        let (mut l, mut c) = if self.kind == 3 { (1, 1) } else { (10, 21) };
        let lo = -8;
        for j in lo..i {
            let (br, sp) = self.gap(j);
            if br == 0 {
                c += 3 + sp;
            } else {
                l += br;
                c = if sp < 0 { c + 3 } else { 1 + sp };
            }
        }
        (l, c)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum V {
    Un,
    Tok(i64),
    Far,                 // a token further away
    Int(i64),            // known number; tainted by positions
    K(i64),              // known number, not from positions
    Taint,
    Adt(u32, Vec<V>),
    Ref(u32, Vec<u32>),  // of a local of this frame
    Lit(i64),            // text of a token
    Clo(String, Vec<V>),
}
use V::*;
fn tainted(v: &V) -> bool {
    match v {
        Int(_) | Taint => true,
        Adt(_, fs) | Clo(_, fs) => fs.iter().any(tainted),
        _ => false,
    }
}
fn num(v: &V) -> Option<(i64, bool)> {
    match v {
        Int(x) => Some((*x, true)),
        K(x) => Some((*x, false)),
        _ => None,
    }
}
/// are they equal, and do positions have a part in it
fn same(a: &V, b: &V) -> Option<(bool, bool)> {
    match (a, b) {
        (Adt(x, fs), Adt(y, gs)) if *x < 50 && *y < 50 => {
            if x != y || fs.len() != gs.len() {
                return Some((false, tainted(a) || tainted(b)));
            }
            let mut r = (true, false);
            for (f, g) in fs.iter().zip(gs) {
                let z = same(f, g)?;
                r = (r.0 && z.0, r.1 || z.1);
            }
            Some(r)
        }
        _ => match (num(a), num(b)) {
            (Some((x, s)), Some((y, t))) => Some((x == y, s || t)),
            _ => None,
        },
    }
}
fn mk(x: i64, t: bool) -> V {
    if t {
        Int(x)
    } else {
        K(x)
    }
}
type Env = BTreeMap<u32, V>;

enum Ev {
    Next(usize),
    Fork(Vec<usize>),   // an unknown condition
    Visible,            // something happens here
    Ret,
    Dead,
}

struct L<'a> {
    ir: &'a Ir,
    out: LayOut,
    readers: HashSet<usize>, // functions through which positions may be read without changing the parser
    steps: usize,
    cur: String,
}

impl<'a> L<'a> {
    fn load(&self, env: &Env, p: &Place, w: &World, f: &Func) -> V {
        let mut v = env.get(&p.l).cloned().unwrap_or(Un);
        let mut var = 0;
        for (i, e) in p.p.iter().enumerate() {
            v = match e {
                Pe::Deref => match v {
                    Ref(l, path) => {
                        let mut x = env.get(&l).cloned().unwrap_or(Un);
                        for k in path {
                            x = fld(&x, 0, k);
                        }
                        x
                    }
                    v => v,
                },
                Pe::Var(x) => {
                    var = *x;
                    v
                }
                Pe::Field(k, n, _) => {
                    let d = &self.ir.tys[base_ty(self.ir, f, p, i)].def;
                    let r = if d == "token::Token" {
                        match (&v, n.as_str()) {
                            (Tok(t), "line") => Int(w.pos(*t).0),
                            (Tok(t), "column") => Int(w.pos(*t).1),
                            (Tok(t), "literal") => Lit(*t),
                            (_, "line" | "column") => Taint,
                            _ => Un,
                        }
                    } else {
                        fld(&v, var, *k)
                    };
                    var = 0;
                    r
                }
                _ => Un,
            };
        }
        v
    }
    fn op(&self, env: &Env, o: &Op, w: &World, f: &Func) -> V {
        match o {
            Op::Copy(p) | Op::Move(p) => self.load(env, p, w, f),
            Op::Const { c, .. } => match c {
                Const::Int(i) => K(*i as i64),
                Const::Bool(b) => K(*b as i64),
                Const::Variant(v) => Adt(*v, vec![]),
                Const::Fn(r) => Clo(r.res.clone().unwrap_or(r.path.clone()), vec![]),
                _ => Un,
            },
            _ => Un,
        }
    }
    fn store(&self, env: &mut Env, p: &Place, v: V) {
        if p.p.is_empty() {
            env.insert(p.l, v);
            return;
        }
        if let [Pe::Field(k, _, _)] = &p.p[..] {
            let cur = env.get(&p.l).cloned().unwrap_or(Un);
            let n = match cur {
                Adt(x, mut fs) => {
                    while fs.len() <= *k as usize {
                        fs.push(Un);
                    }
                    fs[*k as usize] = v;
                    Adt(x, fs)
                }
                Tok(_) | Lit(_) => Un,
                c => c,
            };
            env.insert(p.l, n);
            return;
        }
        if let [Pe::Deref] = &p.p[..] {
            if let Some(Ref(l, path)) = env.get(&p.l).cloned() {
                if path.is_empty() {
                    env.insert(l, v);
                }
            }
        }
    }
    fn rv(&self, env: &Env, r: &Rv, w: &World, f: &Func) -> V {
        match r {
            Rv::Use(o) | Rv::Cast(_, o, _) => self.op(env, o, w, f),
            Rv::Ref { pl, .. } | Rv::RawPtr(pl) => {
                let v = self.load(env, pl, w, f);
                match v {
                    Tok(_) | Lit(_) | Int(_) | Taint | K(_) | Clo(..) => {
                        // plain data is passed by value, except where a local may be written through it
                        if let (Rv::Ref { mutbl: true, .. }, true) = (r, pl.p.is_empty()) {
                            Ref(pl.l, vec![])
                        } else {
                            v
                        }
                    }
                    v => {
                        if pl.p.is_empty() {
                            Ref(pl.l, vec![])
                        } else {
                            v
                        }
                    }
                }
            }
            Rv::Bin(op, a, b) => {
                let (x, y) = (self.op(env, a, w, f), self.op(env, b, w, f));
                match (num(&x), num(&y)) {
                    (Some((x, s)), Some((y, t))) => {
                        let t = s || t;
                        let b = |c: bool| mk(c as i64, t);
                        match op.as_str() {
                            "Add" | "AddUnchecked" => mk(x + y, t),
                            "Sub" | "SubUnchecked" => mk(x - y, t),
                            "Mul" => mk(x * y, t),
                            "AddWithOverflow" => Adt(0, vec![mk(x + y, t), K(0)]),
                            "SubWithOverflow" => Adt(0, vec![mk(x - y, t), mk((x < y) as i64, t)]),
                            "MulWithOverflow" => Adt(0, vec![mk(x * y, t), K(0)]),
                            "Eq" => b(x == y),
                            "Ne" => b(x != y),
                            "Lt" => b(x < y),
                            "Le" => b(x <= y),
                            "Gt" => b(x > y),
                            "Ge" => b(x >= y),
                            "BitAnd" => mk(x & y, t),
                            "BitOr" => mk(x | y, t),
                            "BitXor" => mk(x ^ y, t),
                            "Cmp" => Adt((x > y) as u32 + 1, vec![mk(x - y, t)]),
                            _ => if t { Taint } else { Un },
                        }
                    }
                    _ => {
                        // and / or with one side decided
                        let dec = |v: &V, k: i64| num(v).map_or(false, |z| z.0 == k);
                        if op == "BitAnd" && (dec(&x, 0) || dec(&y, 0)) {
                            return if dec(&x, 0) { x } else { y };
                        }
                        if op == "BitOr" && (dec(&x, 1) || dec(&y, 1)) {
                            return if dec(&x, 1) { x } else { y };
                        }
                        if op == "BitAnd" && (dec(&x, 1) || dec(&y, 1)) {
                            return if dec(&x, 1) { y } else { x };
                        }
                        if op == "BitOr" && (dec(&x, 0) || dec(&y, 0)) {
                            return if dec(&x, 0) { y } else { x };
                        }
                        if tainted(&x) || tainted(&y) {
                            if op.ends_with("WithOverflow") {
                                Adt(0, vec![Taint, Un])
                            } else {
                                Taint
                            }
                        } else {
                            Un
                        }
                    }
                }
            }
            Rv::Un(op, o) => match (op.as_str(), self.op(env, o, w, f)) {
                ("Not", Int(x)) if x == 0 || x == 1 => Int(1 - x),
                ("Not", K(x)) if x == 0 || x == 1 => K(1 - x),
                (_, v) => if tainted(&v) { Taint } else { Un },
            },
            Rv::Discr(p) => {
                let mut v = self.load(env, p, w, f);
                if let Ref(l, path) = &v {
                    if path.is_empty() {
                        v = env.get(l).cloned().unwrap_or(Un);
                    }
                }
                match v {
                    Adt(x, fs) => {
                        if fs.len() == 1 && fs[0] == Taint && x >= 90 {
                            Taint
                        } else if x >= 50 && x < 90 {
                            Int(x as i64 - 60)
                        } else {
                            K(x as i64)
                        }
                    }
                    Taint | Int(_) => Taint,
                    _ => Un,
                }
            }
            Rv::Agg(k, os) => {
                let fs: Vec<V> = os.iter().map(|o| self.op(env, o, w, f)).collect();
                match k {
                    Agg::Adt { def, var, fields, .. } => {
                        if def == "token::Token" {
                            // a copy of a token
                            if let (Some(i), Some(j)) = (fields.iter().position(|x| x == "line"), fields.iter().position(|x| x == "literal")) {
                                if let (Int(_), Lit(t)) = (&fs[i], &fs[j]) {
                                    return Tok(*t);
                                }
                            }
                            return Un;
                        }
                        if def.contains("BQ2CSTError") || def == "cst::Node" {
                            return Un;
                        }
                        Adt(*var, fs)
                    }
                    Agg::Tuple => Adt(0, fs),
                    Agg::Closure(d) => Clo(d.clone(), fs),
                    _ => if fs.iter().any(tainted) { Taint } else { Un },
                }
            }
            _ => Un,
        }
    }
    fn strip(&self, env: &Env, v: V) -> V {
        match v {
            Ref(l, p) if p.is_empty() => {
                let x = env.get(&l).cloned().unwrap_or(Un);
                self.strip(env, x)
            }
            v => v,
        }
    }
    fn is_tok_ref(&self, t: usize) -> bool {
        let ty = &self.ir.tys[t];
        ty.def == "token::Token" || (ty.k == "ref" && ty.args.first().map_or(false, |a| self.ir.tys[*a].def == "token::Token"))
    }

    /// value of a call nothing visible happens in; None: it is visible
    fn call(&mut self, env: &mut Env, base: &mut i64, fop: &Op, a: &[Op], w: &World, f: &Func, depth: usize) -> Option<V> {
        let vals: Vec<V> = a.iter().map(|o| self.op(env, o, w, f)).collect();
        let r = match fop {
            Op::Const { c: Const::Fn(r), .. } => r,
            _ => return Some(if vals.iter().any(tainted) { Taint } else { Un }),
        };
        let name = r.res.clone().unwrap_or(r.path.clone());
        let n = norm(&name);
        let last = n.rsplit("::").next().unwrap_or(&n).to_string();
        let s: Vec<V> = vals.iter().map(|v| self.strip(env, v.clone())).collect();
        let s0 = s.get(0).cloned().unwrap_or(Un);
        if name == "parser::Parser::get_token" {
            return Some(match s.get(1) {
                Some(K(k)) => Adt(0, vec![Tok(*base + *k)]),
                _ => Un,
            });
        }
        if name == "parser::Parser::get_offset_index" || name == "parser::Parser::is_eof" || name == "parser::Parser::get_precedence" {
            return Some(Un);
        }
        if tok_cmp(self.ir, f, &last, a) {
            return Some(Taint);
        }
        if let Some(fi) = callee(self.ir, r) {
            let g = &self.ir.fns[fi];
            if g.derived {
                if last == "clone" {
                    return Some(s0);
                }
                if (last == "eq" || last == "ne") && self.is_tok_ref(g.locals[1].t) {
                    return Some(Taint);
                }
                if last == "eq" || last == "ne" {
                    let d = &self.ir.tys[g.locals[1].t].s;
                    if d.contains("cst::Node") && !d.contains("NodeType") {
                        return Some(Taint);
                    }
                    // other types without positions
                    return Some(if s.iter().any(tainted) { Taint } else { Un });
                }
                return Some(Un);
            }
            if takes_mut_parser(self.ir, g) || (1..=g.argc).any(|i| self.ir.tys[g.locals[i].t].def == "cst::Node") || self.ir.tys[g.locals[0].t].s.contains("cst::Node") {
                // the current token is another one now: what was read before is relative to it
                if takes_mut_parser(self.ir, g) {
                    let d = if name == "parser::Parser::next_token" { 1 } else { 100 };
                    for v in env.values_mut() {
                        shift(v, d);
                    }
                }
                return None;
            }
            if self.ir.tys[g.locals[0].t].s.contains("BQ2CSTError") && !self.ir.tys[g.locals[0].t].s.starts_with("std::result::Result") {
                return Some(Un);
            }
            if self.readers.contains(&fi) && depth < 6 {
                return Some(self.eval(fi, s, *base, w, depth + 1));
            }
            return Some(Un);
        }
        if n.contains("panicking::") || n.contains("begin_panic") {
            return None;
        }
        // things put into lists or maps of nodes are visible
        if a.iter().any(|o| match o {
            Op::Copy(p) | Op::Move(p) => {
                let t = &self.ir.tys[base_ty(self.ir, f, p, p.p.len())].s;
                t.contains("cst::Node") && !t.contains("NodeType") && !matches!(last.as_str(), "len" | "is_empty" | "iter" | "deref" | "next" | "into_iter" | "branch" | "contains_key" | "keys" | "get" | "last" | "first" | "as_ref" | "clone" | "from_residual")
            }
            _ => false,
        }) {
            return None;
        }
        let boolop = |f: fn(i64, i64) -> bool| -> Option<V> {
            match (num(&s0), s.get(1).and_then(num)) {
                (Some((x, p)), Some((y, q))) => Some(mk(f(x, y) as i64, p || q)),
                _ => None,
            }
        };
        let v = match last.as_str() {
            "eq" => same(&s0, s.get(1).unwrap_or(&Un)).map(|(x, t)| mk(x as i64, t)),
            "ne" => same(&s0, s.get(1).unwrap_or(&Un)).map(|(x, t)| mk(!x as i64, t)),
            "lt" => boolop(|x, y| x < y),
            "le" => boolop(|x, y| x <= y),
            "gt" => boolop(|x, y| x > y),
            "ge" => boolop(|x, y| x >= y),
            "cmp" => match (num(&s0), s.get(1).and_then(num)) {
                (Some((x, _)), Some((y, _))) => Some(Adt((60 + (x > y) as i64 - (x < y) as i64) as u32, vec![])),
                _ => None,
            },
            "abs_diff" | "saturating_sub" | "wrapping_sub" | "saturating_add" | "wrapping_add" | "min" | "max" | "add" | "sub" => match (num(&s0), s.get(1).and_then(num)) {
                (Some((x, p)), Some((y, q))) => Some(mk(
                    match last.as_str() {
                        "abs_diff" => (x - y).abs(),
                        "saturating_sub" => (x - y).max(0),
                        "wrapping_sub" | "sub" => x - y,
                        "min" => x.min(y),
                        "max" => x.max(y),
                        _ => x + y,
                    },
                    p || q,
                )),
                _ => None,
            },
            "checked_sub" | "checked_add" => match (num(&s0), s.get(1).and_then(num)) {
                (Some((x, p)), Some((y, q))) => {
                    let z = if last == "checked_sub" { x - y } else { x + y };
                    Some(if z < 0 { Adt(0, vec![]) } else { Adt(1, vec![mk(z, p || q)]) })
                }
                _ => None,
            },
            "clone" | "to_owned" | "deref" | "as_ref" | "borrow" | "as_str" | "to_string" | "into" | "from" | "cloned" | "copied" | "chars" | "as_bytes" | "into_iter" | "iter" | "by_ref" | "trim" => Some(s0.clone()),
            "count" | "len" => match s0 {
                Lit(_) => Some(K(3)),
                _ => None,
            },
            "branch" => match &s0 {
                Adt(v, fs) => {
                    let good = if n.contains("option::Option") || n.contains("Option<") { *v == 1 } else { *v == 0 };
                    Some(if good { Adt(0, fs.clone()) } else { Adt(1, vec![s0.clone()]) })
                }
                _ => None,
            },
            "from_residual" => Some(s0.clone()),
            "unwrap" | "expect" | "unwrap_or_default" => match &s0 {
                Adt(_, fs) if fs.len() == 1 => Some(fs[0].clone()),
                _ => None,
            },
            "ok" => match &s0 {
                Adt(0, fs) => Some(Adt(1, fs.clone())),
                Adt(1, _) => Some(Adt(0, vec![])),
                _ => None,
            },
            "is_ok" | "is_none" => match &s0 {
                Adt(v, _) => Some(K((*v == 0) as i64)),
                _ => None,
            },
            "is_err" | "is_some" => match &s0 {
                Adt(v, _) => Some(K((*v == 1) as i64)),
                _ => None,
            },
            "map" | "map_or" | "is_some_and" | "is_ok_and" | "is_none_or" | "and_then" | "then" | "filter" | "map_or_else" if n.contains("Option") || n.contains("Result") || last == "then" => {
                let res = n.contains("Result");
                match &s0 {
                    Adt(v, fs) => {
                        let good = if res { *v == 0 } else { *v == 1 };
                        if good {
                            let c = s[s.len() - 1].clone();
                            let x = self.apply(&c, fs.clone(), *base, w, depth);
                            Some(match last.as_str() {
                                "map" => Adt(*v, vec![x]),
                                "filter" => match num(&x) {
                                    Some((1, _)) => s0.clone(),
                                    Some((0, _)) => Adt(0, vec![]),
                                    _ => if tainted(&x) { Adt(95, vec![Taint]) } else { Un },
                                },
                                _ => x,
                            })
                        } else {
                            match last.as_str() {
                                "map" | "and_then" | "filter" => Some(s0.clone()),
                                "is_some_and" | "is_ok_and" => Some(K(0)),
                                "is_none_or" => Some(K(1)),
                                "map_or" => s.get(1).cloned(),
                                _ => None,
                            }
                        }
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(v) = v {
            return Some(v);
        }
        // formatting and errors carry positions to messages only
        if n.contains("fmt::") || n.contains("format") || n.contains("Arguments") {
            return Some(Un);
        }
        // closures that read positions, handed to something unknown
        let clo = s.iter().any(|v| match v {
            Clo(d, _) => self.ir.by_name.get(d).map_or(false, |i| self.readers.contains(i)),
            _ => false,
        });
        Some(if clo || s.iter().any(tainted) { Taint } else { Un })
    }
    fn apply(&mut self, c: &V, args: Vec<V>, base: i64, w: &World, depth: usize) -> V {
        if let Clo(d, caps) = c {
            if let Some(&fi) = self.ir.by_name.get(d) {
                if self.readers.contains(&fi) && depth < 6 {
                    let mut a = vec![Clo(d.clone(), caps.clone())];
                    a.extend(args);
                    return self.eval(fi, a, base, w, depth + 1);
                }
            }
        }
        Un
    }
    /// result of a function that leaves the parser alone
    fn eval(&mut self, fi: usize, args: Vec<V>, base: i64, w: &World, depth: usize) -> V {
        let f = &self.ir.fns[fi];
        let mut env = Env::new();
        for (i, a) in args.into_iter().enumerate() {
            env.insert(i as u32 + 1, a);
        }
        let mut rets: BTreeSet<V> = BTreeSet::new();
        let mut seen = BTreeSet::new();
        let mut todo = vec![(0usize, env)];
        let mut lost = false;
        while let Some((b, mut env)) = todo.pop() {
            self.steps += 1;
            if seen.len() > 3000 {
                lost = true;
                break;
            }
            if !seen.insert((b, env.clone())) {
                continue;
            }
            let mut bs = base;
            match self.step(f, b, &mut env, &mut bs, w, depth) {
                Ev::Next(t) => todo.push((t, env)),
                Ev::Fork(ts) => ts.into_iter().for_each(|t| todo.push((t, refine(f, b, t, &env)))),
                Ev::Visible => lost = true,
                Ev::Ret => {
                    let v = env.get(&0).cloned().unwrap_or(Un);
                    rets.insert(self.strip(&env, v));
                }
                Ev::Dead => {}
            }
        }
        if lost {
            return Taint;
        }
        if rets.len() == 1 {
            return rets.into_iter().next().unwrap();
        }
        if rets.iter().any(tainted) {
            // a condition on something else decides whether positions matter
            return match rets.iter().map(|v| num(v).map(|x| x.0)).collect::<Option<BTreeSet<_>>>() {
                Some(s) if s.len() == 1 => Int(*s.iter().next().unwrap()),
                _ => Adt(96, vec![Taint]),
            };
        }
        Un
    }
    /// one block; unknown conditions give all their targets
    fn step(&mut self, f: &Func, b: usize, env: &mut Env, base: &mut i64, w: &World, depth: usize) -> Ev {
        let blk = &f.blocks[b];
        for s in &blk.s {
            if let Stmt::Assign(p, r, _) = s {
                let v = self.rv(env, r, w, f);
                self.store(env, p, v);
            }
        }
        match &blk.t {
            Term::Goto(t) | Term::Drop { b: t, .. } => Ev::Next(*t),
            Term::Assert { b: t, .. } => Ev::Next(*t),
            Term::Ret => Ev::Ret,
            Term::Switch { o, v, e, .. } => {
                let x = self.op(env, o, w, f);
                let x = self.strip(env, x);
                match num(&x) {
                    Some((i, _)) => Ev::Next(v.iter().find(|y| (y.0 as i64) == i || (y.0 as u8 as i8 as i64) == i && i < 0).map(|y| y.1).unwrap_or(*e)),
                    None => {
                        if tainted(&x) {
                            self.out.finds.entry(format!("{}|position", self.cur)).or_insert((blk.sp.to_string(), "a decision depends on the line or column of a token otherwise than through whether two neighbouring tokens touch".into()));
                        }
                        let mut ts: BTreeSet<usize> = v.iter().map(|y| y.1).collect();
                        ts.insert(*e);
                        Ev::Fork(ts.into_iter().filter(|t| !matches!(f.blocks[*t].t, Term::Unreachable)).collect())
                    }
                }
            }
            Term::Call { f: fo, a, d, b: t, .. } => {
                let r = self.call(env, base, fo, a, w, f, depth);
                let vis = r.is_none();
                let mut v = r.unwrap_or(Un);
                if let Adt(96, _) = v {
                    v = Taint;
                }
                self.store(env, d, v);
                match t {
                    _ if vis => Ev::Visible,
                    Some(t) => Ev::Next(*t),
                    None => Ev::Dead,
                }
            }
            _ => Ev::Dead,
        }
    }
    /// where a layout on its own gets to: blocks in which something happens (with the state in front of them)
    fn events(&mut self, f: &Func, b: usize, env: Env, base: i64, w: &World) -> BTreeMap<(usize, bool), (Env, i64)> {
        let mut out = BTreeMap::new();
        let mut seen = BTreeSet::new();
        let mut todo = vec![(b, env, base)];
        while let Some((b, env, base)) = todo.pop() {
            if seen.len() > 2000 || !seen.insert((b, env.clone())) {
                continue;
            }
            let mut e2 = env.clone();
            let mut b2 = base;
            match self.step(f, b, &mut e2, &mut b2, w, 0) {
                Ev::Next(t) => todo.push((t, e2, b2)),
                Ev::Fork(ts) => ts.into_iter().for_each(|t| todo.push((t, refine(f, b, t, &e2), b2))),
                Ev::Visible => {
                    out.insert((b, false), (env, base));
                }
                Ev::Ret => {
                    out.insert((b, true), (env, base));
                }
                Ev::Dead => {}
            }
        }
        out
    }
    fn check(&mut self, fi: usize, worlds: &[World]) {
        let f = &self.ir.fns[fi];
        self.cur = f.name.clone();
        type St = (usize, Vec<(Env, i64)>);
        let mut seen: BTreeSet<St> = BTreeSet::new();
        let mut e0 = Env::new();
        for i in 1..=f.argc {
            if self.is_tok_ref(f.locals[i].t) {
                e0.insert(i as u32, Tok(i as i64 - 1));
            }
        }
        let mut todo: Vec<St> = vec![(0, worlds.iter().map(|_| (e0.clone(), 0)).collect())];
        while let Some((b, ws)) = todo.pop() {
            self.steps += 1;
            if seen.len() > 30000 {
                self.out.undecided.insert(format!("{}: more states than allowed", self.cur), "-".into());
                break;
            }
            if !seen.insert((b, ws.clone())) {
                continue;
            }
            self.out.states += 1;
            let mut ws = ws;
            let mut tg: Vec<Ev> = vec![];
            for (i, w) in worlds.iter().enumerate() {
                let (env, base) = &mut ws[i];
                tg.push(self.step(f, b, env, base, w, 0));
            }
            // what is not read any more does not matter
            match &tg[0] {
                Ev::Dead => continue,
                Ev::Ret => {
                    let vs: BTreeSet<V> = ws.iter().map(|x| match x.0.get(&0) {
                        Some(Adt(v, fs)) => Adt(*v, fs.iter().filter(|x| matches!(x, Int(_) | K(_))).cloned().collect()),
                        Some(v) => v.clone(),
                        None => Un,
                    }).collect();
                    if vs.len() > 1 && takes_mut_parser(self.ir, f) {
                        self.out.finds.entry(format!("{}|result", self.cur)).or_insert((f.blocks[b].sp.to_string(), "what is returned depends on the layout between tokens".into()));
                    }
                    continue;
                }
                _ => {}
            }
            let term_next = |f: &Func| match &f.blocks[b].t {
                Term::Call { b: Some(t), .. } => Some(*t),
                _ => None,
            };
            if tg.iter().all(|e| matches!(e, Ev::Visible)) {
                if let Some(t) = term_next(f) {
                    let ws = self.prune(f, t, ws);
                    todo.push((t, ws));
                }
                continue;
            }
            if tg.iter().all(|e| matches!(e, Ev::Fork(_))) {
                if let Ev::Fork(ts) = &tg[0] {
                    for t in ts {
                        let x = ws.iter().map(|(e, x)| (refine(f, b, *t, e), *x)).collect();
                        let x = self.prune(f, *t, x);
                        todo.push((*t, x));
                    }
                }
                continue;
            }
            let ts: BTreeSet<usize> = tg.iter().filter_map(|e| if let Ev::Next(t) = e { Some(*t) } else { None }).collect();
            if ts.len() == 1 && tg.iter().all(|e| matches!(e, Ev::Next(_))) {
                let t = *ts.iter().next().unwrap();
                let ws = self.prune(f, t, ws);
                todo.push((t, ws));
                continue;
            }
            // the layouts part here: they must come together before anything happens
            let mut all: Vec<BTreeMap<(usize, bool), (Env, i64)>> = vec![];
            for (i, w) in worlds.iter().enumerate() {
                let (env, base) = ws[i].clone();
                let starts: Vec<usize> = match &tg[i] {
                    Ev::Next(t) => vec![*t],
                    Ev::Fork(ts) => ts.clone(),
                    _ => vec![],
                };
                let mut m = BTreeMap::new();
                for s in starts {
                    let env = if let Ev::Fork(_) = &tg[i] { refine(f, b, s, &env) } else { env.clone() };
                    m.extend(self.events(f, s, env, base, w));
                }
                all.push(m);
            }
            let keys: BTreeSet<Vec<(usize, bool)>> = all.iter().map(|m| m.keys().cloned().collect()).collect();
            if keys.len() > 1 {
                self.out.finds.entry(format!("{}|position", self.cur)).or_insert((f.blocks[b].sp.to_string(), "white space or a line break between two tokens that are separated anyway decides what is parsed".into()));
                continue;
            }
            let ks = keys.into_iter().next().unwrap();
            if ks.len() > 1 {
                self.out.undecided.insert(format!("{}: a condition on positions is mixed with another one", self.cur), f.blocks[b].sp.to_string());
            }
            for k in ks {
                let st: Vec<(Env, i64)> = all.iter().map(|m| m[&k].clone()).collect();
                todo.push((k.0, st));
            }
        }
    }
    fn prune(&self, f: &Func, b: usize, ws: Vec<(Env, i64)>) -> Vec<(Env, i64)> {
        let live = f.live_in.get(b);
        ws.into_iter()
            .map(|(e, x)| match live {
                Some(l) => (e.into_iter().filter(|(k, v)| *v != Un && (*k == 0 || l.contains(k))).collect(), x),
                None => (e, x),
            })
            .collect()
    }
}
/// what an undecided switch says about the variable it looked at
fn refine(f: &Func, b: usize, t: usize, env: &Env) -> Env {
    let mut env = env.clone();
    if let Term::Switch { o: Op::Copy(p) | Op::Move(p), v, e, .. } = &f.blocks[b].t {
        let hits: Vec<i64> = v.iter().filter(|y| y.1 == t).map(|y| y.0 as i64).collect();
        let mut k = match (hits.as_slice(), t == *e) {
            ([k], false) => *k,
            ([], true) if v.len() == 1 && v[0].0 == 0 => 1,
            _ => return env,
        };
        if !p.p.is_empty() || k != 0 && k != 1 {
            return env;
        }
        let mut l = p.l;
        loop {
            if matches!(env.get(&l), None | Some(Un)) {
                env.insert(l, K(k));
            }
            let src = f.blocks[b].s.iter().rev().find_map(|s| match s {
                Stmt::Assign(d, r, _) if d.l == l && d.p.is_empty() => Some(match r {
                    Rv::Use(Op::Copy(q) | Op::Move(q)) if q.p.is_empty() => Some((q.l, false)),
                    Rv::Un(op, Op::Copy(q) | Op::Move(q)) if op == "Not" && q.p.is_empty() => Some((q.l, true)),
                    _ => None,
                }),
                _ => None,
            });
            match src {
                Some(Some((q, neg))) if q != l => {
                    l = q;
                    if neg {
                        k = 1 - k;
                    }
                }
                _ => break,
            }
        }
    }
    env
}
fn shift(v: &mut V, d: i64) {
    match v {
        Tok(k) => {
            *k -= d;
            if *k < -4 {
                *v = Far;
            }
        }
        Lit(k) => {
            *k -= d;
            if *k < -4 {
                *v = Un;
            }
        }
        Int(_) => *v = Taint,
        Adt(_, fs) | Clo(_, fs) => fs.iter_mut().for_each(|x| shift(x, d)),
        _ => {}
    }
}
fn fld(v: &V, var: u32, k: u32) -> V {
    match v {
        Adt(x, fs) => {
            if *x >= 90 {
                return Taint;
            }
            if *x != var && var != 0 {
                return Un;
            }
            fs.get(k as usize).cloned().unwrap_or(Un)
        }
        Clo(_, fs) => fs.get(k as usize).cloned().unwrap_or(Un),
        Taint => Taint,
        _ => Un,
    }
}

/// tokens or nodes are compared as a whole, positions included
fn tok_cmp(ir: &Ir, f: &Func, last: &str, a: &[Op]) -> bool {
    matches!(last, "eq" | "ne" | "cmp" | "partial_cmp" | "lt" | "le" | "gt" | "ge" | "hash")
        && a.iter().any(|o| match o {
            Op::Copy(p) | Op::Move(p) => {
                let s = ir.tys[base_ty(ir, f, p, p.p.len())].s.replace("token::TokenError", "");
                s.contains("token::Token") || s.contains("cst::Node") && !s.contains("NodeType")
            }
            _ => false,
        })
}
pub fn run(ir: &Ir) -> LayOut {
    let mut out = LayOut::default();
    let own = |f: &Func| !f.derived && !f.exp && !f.name.starts_with("lexer::") && !f.name.starts_with("error::") && !f.name.contains("::tests::");
    // functions that read positions and leave the parser alone
    let mut readers: HashSet<usize> = HashSet::new();
    let mut direct: BTreeSet<usize> = BTreeSet::new();
    for (i, f) in ir.fns.iter().enumerate() {
        if own(f) && has_read(ir, f) {
            direct.insert(i);
            out.reads.insert(f.name.clone());
        }
    }
    let calls: HashMap<usize, BTreeSet<usize>> = ir
        .fns
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let mut s = BTreeSet::new();
            for b in &f.blocks {
                for (o, _) in crate::eff::ops_of(b) {
                    if let Op::Const { c: Const::Fn(r), .. } = o {
                        if let Some(g) = callee(ir, r) {
                            s.insert(g);
                        }
                    }
                }
                for st in &b.s {
                    if let Stmt::Assign(_, Rv::Agg(Agg::Closure(d), _), _) = st {
                        if let Some(g) = ir.by_name.get(d) {
                            s.insert(*g);
                        }
                    }
                }
            }
            (i, s)
        })
        .collect();
    // the cursor primitives place comments by lines: decided by C02
    let mut exempt: BTreeSet<usize> = ["parser::Parser::new", "parser::Parser::next_token"].iter().filter_map(|n| ir.by_name.get(*n)).cloned().collect();
    loop {
        let n = exempt.len();
        for i in 0..ir.fns.len() {
            let callers: Vec<usize> = (0..ir.fns.len()).filter(|c| calls[c].contains(&i)).collect();
            if !callers.is_empty() && callers.iter().all(|c| exempt.contains(c)) {
                exempt.insert(i);
            }
        }
        if exempt.len() == n {
            break;
        }
    }
    loop {
        let n = readers.len();
        for (i, f) in ir.fns.iter().enumerate() {
            if own(f) && !exempt.contains(&i) && !takes_mut_parser(ir, f) && !ir.tys[f.locals[0].t].s.contains("cst::Node") && (direct.contains(&i) || calls[&i].iter().any(|g| readers.contains(g))) {
                readers.insert(i);
            }
        }
        if readers.len() == n {
            break;
        }
    }
    // token comparisons are reads, too
    let cmp = |f: &Func| {
        f.blocks.iter().any(|b| {
            if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, a, .. } = &b.t {
                let n = norm(&r.path);
                if tok_cmp(ir, f, n.rsplit("::").next().unwrap_or(&n), a) {
                    return true;
                }
            }
            crate::eff::ops_of(b).iter().any(|(o, _)| match o {
                Op::Const { c: Const::Fn(r), .. } => callee(ir, r).map_or(false, |g| {
                    let g = &ir.fns[g];
                    g.derived && (g.name.ends_with("::eq") || g.name.ends_with("::ne")) && { let s = &ir.tys[g.locals[1].t].s; s.contains("token::Token") || s.contains("cst::Node") && !s.contains("NodeType") }
                }),
                _ => false,
            })
        })
    };
    let todo: Vec<usize> = (0..ir.fns.len())
        .filter(|i| {
            let f = &ir.fns[*i];
            own(f) && !exempt.contains(i) && (direct.contains(i) || cmp(f) || calls[i].iter().any(|g| readers.contains(g)))
        })
        .collect();
    out.exempt = exempt.iter().map(|i| ir.fns[*i].name.clone()).collect();
    let mut l = L { ir, out, readers, steps: 0, cur: String::new() };
    let fams: [&'static [i64]; 5] = [&[], &[0], &[1], &[0, 1], &[-1]];
    for fi in todo {
        let f = &ir.fns[fi];
        // a closure or helper that leaves the parser alone is judged where it is used
        if !takes_mut_parser(ir, f) && l.readers.contains(&fi) {
            continue;
        }
        l.out.fns.insert(f.name.clone());
        for t in fams {
            let ws: Vec<World> = (0..KINDS).map(|k| World { kind: k, touch: t }).collect();
            l.out.layouts += ws.len();
            l.check(fi, &ws);
        }
    }
    let mut out = l.out;
    lexer(ir, &mut out);
    out
}

/// no decision of the tokenizer depends on a line or a column
fn lexer(ir: &Ir, out: &mut LayOut) {
    for f in ir.fns.iter().filter(|f| f.name.starts_with("lexer::") && !f.derived && !f.name.contains("::tests::")) {
        out.lexer_fns += 1;
        let mut t: HashSet<u32> = HashSet::new();
        let src = |p: &Place| pos_read(ir, f, p, "lexer::Lexer").is_some() || pos_read(ir, f, p, "token::Token").is_some();
        for b in &f.blocks {
            out.lexer_reads += places(b).iter().filter(|p| src(p)).count();
        }
        loop {
            let n = t.len();
            for b in &f.blocks {
                for s in &b.s {
                    if let Stmt::Assign(d, r, _) = s {
                        let hot = |o: &Op, t: &HashSet<u32>| match o {
                            Op::Copy(p) | Op::Move(p) => src(p) || t.contains(&p.l),
                            _ => false,
                        };
                        let h = match r {
                            Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Un(_, o) => hot(o, &t),
                            Rv::Bin(_, a, b) => hot(a, &t) || hot(b, &t),
                            Rv::Ref { pl, .. } => src(pl) || (t.contains(&pl.l)),
                            Rv::Discr(p) => t.contains(&p.l),
                            Rv::Agg(Agg::Tuple, os) => os.iter().any(|o| hot(o, &t)),
                            _ => false,
                        };
                        if h && !d.p.iter().any(|e| matches!(e, Pe::Deref)) {
                            t.insert(d.l);
                        }
                    }
                }
                if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, a, d, .. } = &b.t {
                    let hot = a.iter().any(|o| match o {
                        Op::Copy(p) | Op::Move(p) => src(p) || t.contains(&p.l),
                        _ => false,
                    });
                    let ty = &ir.tys[f.locals[d.l as usize].t].s;
                    if hot && !r.local && !ty.contains("token::Token") && !ty.contains("BQ2CSTError") && !ty.contains("fmt::") && ty != "std::string::String" {
                        t.insert(d.l);
                    }
                    if hot && r.local && d.p.is_empty() && matches!(ty.as_str(), "bool" | "usize") {
                        t.insert(d.l);
                    }
                }
            }
            if t.len() == n {
                break;
            }
        }
        for b in &f.blocks {
            if let Term::Switch { o: Op::Copy(p) | Op::Move(p), .. } = &b.t {
                if t.contains(&p.l) || src(p) {
                    out.finds.entry(format!("{}|position", f.name)).or_insert((b.sp.to_string(), "a decision of the tokenizer depends on a line or a column".into()));
                }
            }
        }
    }
}
