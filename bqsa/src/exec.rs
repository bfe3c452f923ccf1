//! Statement / terminator semantics, calls, and the fixpoint.
use crate::dom::*;
use crate::interp::*;
use crate::ir::*;
use crate::fx::Fx as DefaultHasher;
use crate::fx::{HashMap, HashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hasher;
use std::rc::Rc;

fn seg(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}
pub fn ok(v: V) -> V {
    V::Enum(intern("Result"), 0, vec![v])
}
pub fn err() -> V {
    V::Enum(intern("Result"), 1, vec![V::Top])
}
pub fn some(v: V) -> V {
    V::Enum(intern("Option"), 1, vec![v])
}
pub fn none() -> V {
    V::Enum(intern("Option"), 0, vec![])
}
pub fn is_res(v: &V, var: u32) -> bool {
    matches!(v, V::Enum(d, x, _) if *x == var && *d == intern("Result"))
}
fn scalar(v: &V) -> bool {
    matches!(
        v,
        V::Str(_) | V::Tok(_) | V::TokIdx(_) | V::Bool(_) | V::BoolTop | V::Int(_) | V::IntGe(_) | V::IntTop | V::VLen(_) | V::PField(_) | V::TokLen | V::LastIdx | V::TokLine(_) | V::TokCol(_) | V::Top | V::Opq | V::StrTop | V::Fn(_) | V::FnStd(_)
    )
}

pub type Outs = Vec<(State, V)>;

impl<'a> Interp<'a> {
    // ---------- forks ----------
    /// keep only states in which token k satisfies `f`
    pub fn meet_fact(&self, st: &State, k: u8, f: &TF) -> Option<State> {
        let k = k as usize;
        if k >= NF {
            return Some(st.clone());
        }
        let m = st.ps.facts[k].meet(f)?;
        let mut s = st.clone();
        s.ps.facts[k] = m;
        // a token exists behind k only if k is not the end marker
        if !s.ps.facts[k].may(intern("")) {
            for j in 0..k {
                let ne = TF::Neg(vec![intern("")]);
                s.ps.facts[j] = s.ps.facts[j].meet(&ne)?;
            }
        }
        Some(s)
    }
    pub fn fork_lit(&mut self, st: State, r: TokR, up: bool, lit: u32) -> Outs {
        let l = istr(lit);
        if self.record {
            let s = self.cur_site.to_string();
            self.stats.cmps.insert(s);
        }
        match r {
            TokR::Off(k) => {
                let u = l.to_uppercase();
                if up {
                    if u != l {
                        return vec![(st, V::Bool(false))];
                    }
                } else if u.to_lowercase() != u {
                    // a spelling with letters compared without case folding
                    self.viol("C07", &format!("case-sensitive({})", l), &format!("a token is compared with {:?} without folding its letter case", l));
                    let mut r = vec![];
                    if let Some(s) = self.meet_fact(&st, k, &TF::one(&u)) {
                        r.push((s, V::Bool(true)));
                    }
                    r.push((st, V::Bool(false)));
                    return r;
                }
                let mut r = vec![];
                if let Some(s) = self.meet_fact(&st, k, &TF::Pos(vec![intern(&u)])) {
                    r.push((s, V::Bool(true)));
                }
                if let Some(s) = self.meet_fact(&st, k, &TF::Neg(vec![intern(&u)])) {
                    r.push((s, V::Bool(false)));
                }
                r
            }
            TokR::Raw => {
                self.viol("C09", &format!("raw-token({})", l), &format!("the parser inspects a token fetched by raw index (compared with {:?}); a comment in that place changes the outcome", l));
                vec![(st.clone(), V::Bool(true)), (st, V::Bool(false))]
            }
            TokR::Comment => {
                self.viol("C09", &format!("comment-token({})", l), "the parser inspects the text of a comment");
                vec![(st.clone(), V::Bool(true)), (st, V::Bool(false))]
            }
            _ => {
                if !up && l.to_uppercase().to_lowercase() != l.to_uppercase() {
                    self.viol("C07", &format!("case-sensitive({})", l), &format!("a token is compared with {:?} without folding its letter case", l));
                }
                vec![(st.clone(), V::Bool(true)), (st, V::Bool(false))]
            }
        }
    }
    pub fn fork_bool(&self, mut st: State) -> Outs {
        if self.probe && !st.ps.advanced {
            st.ps.fuzzy = true;
        }
        vec![(st.clone(), V::Bool(true)), (st, V::Bool(false))]
    }
    fn fork_eof(&mut self, st: State, k: u8, yes: bool) -> Outs {
        let mut r = vec![];
        if let Some(s) = self.meet_fact(&st, k, &TF::one("")) {
            r.push((s, V::Bool(yes)));
        }
        if let Some(s) = self.meet_fact(&st, k, &TF::Neg(vec![intern("")])) {
            r.push((s, V::Bool(!yes)));
        }
        r
    }
    pub fn deref_all(&self, st: &State, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..6 {
            match &v {
                V::Ref(t) => v = self.read(st, t),
                _ => break,
            }
        }
        v
    }
    /// equality of two abstract values, forking the state
    pub fn eq_vals(&mut self, st: State, a: &V, b: &V, neg: bool) -> Outs {
        let fin = |o: Outs| -> Outs {
            o.into_iter()
                .map(|(s, v)| match v {
                    V::Bool(x) => (s, V::Bool(x != neg)),
                    v => (s, v),
                })
                .collect()
        };
        // node types with refinement
        for (x, y) in [(a, b), (b, a)] {
            let yv = self.deref_all(&st, y);
            if let V::Ref(t) = x {
                let mut t = t.clone();
                while let V::Ref(t2) = self.read(&st, &t) {
                    t = t2;
                }
                if t.path.last() == Some(&PathE::F(self.node_f.1)) {
                    if let V::NT(bits) = &yv {
                        if bits.count() == 1 {
                            let mut nt = t.clone();
                            nt.path.pop();
                            if let V::Node(n) = self.read(&st, &nt) {
                                if !n.any {
                                    return fin(self.fork_node_type(st, &nt, bits));
                                }
                            }
                        }
                    }
                }
            }
        }
        let av = self.deref_all(&st, a);
        let bv = self.deref_all(&st, b);
        match (&av, &bv) {
            (V::VLen(t), V::Int(c)) | (V::Int(c), V::VLen(t)) => {
                let (t, c) = (t.clone(), *c);
                self.cmp_len(st, if neg { "Ne" } else { "Eq" }, &t, c, false)
            }
            (V::Str(x), V::Str(y)) => match (x, y) {
                (StrV::Const(p), StrV::Const(q)) => vec![(st, V::Bool((p == q) != neg))],
                (StrV::Tok(r, up), StrV::Const(c)) | (StrV::Const(c), StrV::Tok(r, up)) => {
                    let (r, up, c) = (*r, *up, *c);
                    fin(self.fork_lit(st, r, up, c))
                }
                _ => self.fork_bool(st),
            },
            (V::NT(x), V::NT(y)) => {
                if x.and(y).is_empty() {
                    vec![(st, V::Bool(neg))]
                } else if x.count() == 1 && x == y {
                    vec![(st, V::Bool(!neg))]
                } else {
                    self.fork_bool(st)
                }
            }
            (V::Int(x), V::Int(y)) => vec![(st, V::Bool((x == y) != neg))],
            (V::Bool(x), V::Bool(y)) => vec![(st, V::Bool((x == y) != neg))],
            (V::TokLine(x), V::TokLine(y)) => {
                if x == y && *x != TokR::Unknown {
                    return vec![(st, V::Bool(!neg))];
                }
                self.fork_bool(st)
            }
            (V::TokIdx(TokR::Off(k)), V::LastIdx) | (V::LastIdx, V::TokIdx(TokR::Off(k))) => {
                let k = *k;
                fin(self.fork_eof(st, k, true))
            }
            (V::TokIdx(TokR::P1(k)), V::TokLen) | (V::TokLen, V::TokIdx(TokR::P1(k))) => {
                let k = *k;
                fin(self.fork_eof(st, k, true))
            }
            (V::TokIdx(TokR::Off(_)), V::TokLen) | (V::TokLen, V::TokIdx(TokR::Off(_))) => vec![(st, V::Bool(neg))],
            _ => self.fork_bool(st),
        }
    }
    fn fork_node_type(&mut self, st: State, nt: &Target, bits: &Bits) -> Outs {
        let n = match self.read(&st, nt) {
            V::Node(n) => n,
            _ => return self.fork_bool(st),
        };
        let mut yes = (*n).clone();
        yes.alts.retain(|k, _| bits.has(*k));
        let mut no = (*n).clone();
        no.alts.retain(|k, _| !bits.has(*k));
        let mut r = vec![];
        if !yes.alts.is_empty() {
            let mut s = st.clone();
            self.set_raw(&mut s, nt, V::Node(Rc::new(yes)));
            r.push((s, V::Bool(true)));
        }
        if !no.alts.is_empty() {
            let mut s = st;
            self.set_raw(&mut s, nt, V::Node(Rc::new(no)));
            r.push((s, V::Bool(false)));
        }
        r
    }
    fn set_raw(&mut self, st: &mut State, t: &Target, v: V) {
        let off = st.ps.own_off;
        self.write(st, t, v);
        st.ps.own_off = off;
    }
    pub fn cmp_vals(&mut self, st: State, op: &str, a: &V, b: &V) -> Outs {
        match op {
            "Eq" => return self.eq_vals(st, a, b, false),
            "Ne" => return self.eq_vals(st, a, b, true),
            _ => {}
        }
        let a = self.deref_all(&st, a);
        let b = self.deref_all(&st, b);
        // normalise to Lt / Le
        let (op, a, b) = match op {
            "Gt" => ("Lt", b, a),
            "Ge" => ("Le", b, a),
            o => (o, a, b),
        };
        match (&a, &b) {
            (V::VLen(t), V::Int(c)) => {
                let (t, c) = (t.clone(), *c);
                self.cmp_len(st, op, &t, c, false)
            }
            (V::Int(c), V::VLen(t)) => {
                let (t, c) = (t.clone(), *c);
                self.cmp_len(st, op, &t, c, true)
            }
            (V::Int(x), V::Int(y)) => {
                let r = if op == "Lt" { x < y } else { x <= y };
                vec![(st, V::Bool(r))]
            }
            (V::Int(x), V::IntGe(y)) => {
                let sure = if op == "Lt" { x < y } else { x <= y };
                if sure {
                    vec![(st, V::Bool(true))]
                } else {
                    self.fork_bool(st)
                }
            }
            (V::IntGe(x), V::Int(y)) => {
                let never = if op == "Lt" { x >= y } else { x > y };
                if never {
                    vec![(st, V::Bool(false))]
                } else {
                    self.fork_bool(st)
                }
            }
            (V::TokIdx(TokR::Off(k)), V::LastIdx) if op == "Lt" => {
                let k = *k;
                self.fork_eof(st, k, false)
            }
            (V::LastIdx, V::TokIdx(TokR::Off(k))) if op == "Le" => {
                let k = *k;
                self.fork_eof(st, k, true)
            }
            (V::TokIdx(TokR::Off(_)), V::TokLen) => vec![(st, V::Bool(true))],
            (V::TokLen, V::TokIdx(TokR::Off(_))) => vec![(st, V::Bool(false))],
            (V::TokIdx(TokR::Off(_)), V::LastIdx) => vec![(st, V::Bool(true))],
            (V::LastIdx, V::TokIdx(TokR::Off(_))) => vec![(st, V::Bool(false))],
            (V::TokIdx(TokR::P1(k)), V::TokLen) if op == "Lt" => {
                let k = *k;
                self.fork_eof(st, k, false)
            }
            (V::TokLen, V::TokIdx(TokR::P1(k))) if op == "Le" => {
                let k = *k;
                self.fork_eof(st, k, true)
            }
            (V::TokIdx(TokR::P1(_)), V::TokLen) => vec![(st, V::Bool(true))],
            (V::TokLen, V::TokIdx(TokR::P1(_))) => vec![(st, V::Bool(false))],
            _ => self.fork_bool(st),
        }
    }
    /// split on how the length of a list compares with a constant
    pub fn cmp_len(&mut self, st: State, op: &str, t: &Target, c: i128, flip: bool) -> Outs {
        let v = match self.read(&st, t) {
            V::NVec(v) => v,
            _ => return self.fork_bool(st),
        };
        let holds = |n: i128| -> bool {
            let (a, b) = if flip { (c, n) } else { (n, c) };
            match op {
                "Eq" => a == b,
                "Ne" => a != b,
                "Lt" => a < b,
                _ => a <= b,
            }
        };
        let mut out = vec![];
        for want in [true, false] {
            // possible lengths with this answer (3 stands for every length from 3 on)
            let mut ls: Vec<u8> = vec![];
            for n in v.len.lo..=v.len.hi {
                let ok = if n < 3 { holds(n as i128) == want } else { (3..=(c.max(0) + 4).max(4)).any(|m| holds(m) == want) };
                if ok {
                    ls.push(n);
                }
            }
            if ls.is_empty() {
                continue;
            }
            let mut m = (*v).clone();
            m.len = Len { lo: ls[0], hi: *ls.last().unwrap() };
            if m.len.hi == 0 {
                m.elem = None;
            }
            let mut s = st.clone();
            self.keep_len = true;
            self.set_raw(&mut s, t, V::NVec(Rc::new(m)));
            self.keep_len = false;
            out.push((s, V::Bool(want)));
        }
        out
    }
    fn arith(&mut self, st: &mut State, op: &str, a: &V, b: &V) -> V {
        match (a, b) {
            (V::Int(x), V::Int(y)) => {
                let r = match op {
                    "Add" => x + y,
                    "Sub" => x - y,
                    "Mul" => x * y,
                    _ => return V::IntTop,
                };
                if op == "Add" && r > 8 && r < 64 {
                    st.ev |= EV_INC;
                    return V::IntGe(9);
                }
                V::Int(r)
            }
            (V::IntGe(x), V::Int(y)) | (V::Int(y), V::IntGe(x)) if op == "Add" => {
                if *y > 0 {
                    st.ev |= EV_INC;
                }
                V::IntGe((*x + *y).min(9))
            }
            (V::TokLen, V::Int(1)) if op == "Sub" => V::LastIdx,
            (V::TokIdx(TokR::Off(0)), V::Int(0)) if op == "Add" => a.clone(),
            (V::TokIdx(TokR::Off(k)), V::Int(1)) | (V::Int(1), V::TokIdx(TokR::Off(k))) if op == "Add" => V::TokIdx(TokR::P1(*k)),
            (V::TokIdx(TokR::P1(k)), V::Int(1)) if op == "Sub" => V::TokIdx(TokR::Off(*k)),
            (V::LastIdx, V::Int(1)) | (V::Int(1), V::LastIdx) if op == "Add" => V::TokLen,
            (V::TokIdx(_), _) | (_, V::TokIdx(_)) => V::TokIdx(TokR::Raw),
            _ => V::IntTop,
        }
    }

    // ---------- rvalues ----------
    pub fn rvalue(&mut self, st: State, r: &Rv) -> Outs {
        let mut st = st;
        match r {
            Rv::Use(o) => {
                let v = self.eval(&mut st, o);
                vec![(st, v)]
            }
            Rv::Ref { mutbl, pl, .. } => {
                let v = match self.resolve(&st, pl) {
                    Loc::Val(v) => v,
                    Loc::T(t) => {
                        let v = self.read(&st, &t);
                        let children = t.path.last() == Some(&PathE::F(self.node_f.2)) && {
                            let mut p = t.clone();
                            p.path.pop();
                            matches!(self.read(&st, &p), V::Node(_))
                        };
                        if !*mutbl && scalar(&v) && !children {
                            v
                        } else if let (V::PField(_), true) = (&v, *mutbl) {
                            V::Ref(t)
                        } else {
                            V::Ref(t)
                        }
                    }
                };
                vec![(st, v)]
            }
            Rv::RawPtr(_) => vec![(st, V::Top)],
            Rv::Cast(k, o, _) => {
                let v = match self.eval(&mut st, o) {
                    V::Bool(b) if k.contains("IntToInt") => V::Int(b as i128),
                    v => v,
                };
                vec![(st, v)]
            }
            Rv::Bin(op, a, b) => {
                let x = self.eval(&mut st, a);
                let y = self.eval(&mut st, b);
                match op.as_str() {
                    "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" => self.cmp_vals(st, op, &x, &y),
                    "AddWithOverflow" | "SubWithOverflow" | "MulWithOverflow" => {
                        let v = self.arith(&mut st, &op[..3], &x, &y);
                        vec![(st, V::Agg(vec![v, V::Bool(false)]))]
                    }
                    "Add" | "Sub" | "Mul" | "AddUnchecked" | "SubUnchecked" | "MulUnchecked" => {
                        let v = self.arith(&mut st, &op[..3], &x, &y);
                        vec![(st, v)]
                    }
                    "BitAnd" | "BitOr" | "BitXor" => {
                        let v = match (op.as_str(), &x, &y) {
                            ("BitAnd", V::Bool(p), V::Bool(q)) => V::Bool(*p && *q),
                            ("BitOr", V::Bool(p), V::Bool(q)) => V::Bool(*p || *q),
                            ("BitXor", V::Bool(p), V::Bool(q)) => V::Bool(*p != *q),
                            ("BitAnd", V::Bool(false), _) | ("BitAnd", _, V::Bool(false)) => V::Bool(false),
                            ("BitOr", V::Bool(true), _) | ("BitOr", _, V::Bool(true)) => V::Bool(true),
                            (_, V::BoolTop, _) | (_, _, V::BoolTop) => V::BoolTop,
                            _ => V::IntTop,
                        };
                        vec![(st, v)]
                    }
                    _ => vec![(st, V::IntTop)],
                }
            }
            Rv::Un(op, o) => {
                let x = self.eval(&mut st, o);
                let v = match (op.as_str(), x) {
                    ("Not", V::Bool(b)) => V::Bool(!b),
                    ("Not", V::BoolTop) => V::BoolTop,
                    _ => V::IntTop,
                };
                vec![(st, v)]
            }
            Rv::Discr(pl) => {
                let v = match self.resolve(&st, pl) {
                    Loc::T(t) => {
                        let x = self.read(&st, &t);
                        match x {
                            V::Enum(_, v, _) => V::Int(v as i128),
                            V::NT(b) if b.count() == 1 && b != Bits::all() => V::Int(b.iter()[0] as i128),
                            V::NT(_) => V::Discr(t),
                            _ => V::IntTop,
                        }
                    }
                    Loc::Val(V::Enum(_, v, _)) => V::Int(v as i128),
                    Loc::Val(V::NT(b)) if b.count() == 1 => V::Int(b.iter()[0] as i128),
                    _ => V::IntTop,
                };
                vec![(st, v)]
            }
            Rv::Agg(k, os) => {
                let vs: Vec<V> = os.iter().map(|o| self.eval(&mut st, o)).collect();
                let v = match k {
                    Agg::Array | Agg::Tuple => V::Agg(vs),
                    Agg::Closure(d) => {
                        let id = self.ir.by_name.get(d).map(|i| self.ir.fns[*i].id).unwrap_or(-1);
                        V::Closure(id, vs)
                    }
                    Agg::Adt { def, var, vname, fields } => match seg(def) {
                        "NodeType" if vs.is_empty() => V::NT(Bits::one(*var as u8)),
                        "Node" if fields.iter().any(|f| f == "node_type") => self.make_node(&mut st, fields, vs),
                        "Token" if fields.iter().any(|f| f == "literal") => V::Tok(TokR::Unknown),
                        "BQ2CSTError" => {
                            self.check_error(&mut st, fields, &vs);
                            V::Enum(intern("BQ2CSTError"), 0, vec![])
                        }
                        "Parser" => V::Parser,
                        _ => {
                            let is_enum = vname.as_str() != seg(def);
                            if is_enum || matches!(seg(def), "Option" | "Result" | "ControlFlow" | "ContentType") {
                                V::Enum(intern(seg(def)), *var, vs)
                            } else {
                                V::Agg(vs)
                            }
                        }
                    },
                    Agg::Other => V::Top,
                };
                vec![(st, v)]
            }
            Rv::Repeat(o, _) => {
                self.eval(&mut st, o);
                vec![(st, V::Top)]
            }
            Rv::Other => vec![(st, V::Top)],
        }
    }
    fn check_error(&mut self, st: &mut State, fields: &[String], vs: &[V]) {
        if self.record {
            let s = self.cur_site.to_string();
            self.stats.errs.insert(s);
        }
        let g = |n: &str| fields.iter().position(|f| f == n).and_then(|i| vs.get(i)).cloned().unwrap_or(V::Top);
        let (l, c, m) = (g("line"), g("column"), g("message"));
        let _ = st;
        match (&l, &c) {
            (V::TokLine(a), V::TokCol(b)) if a == b => {}
            (V::TokLine(TokR::Unknown), V::TokCol(_)) | (V::TokLine(_), V::TokCol(TokR::Unknown)) => {}
            _ if matches!(l, V::Top) && matches!(c, V::Top) => {} // plain constructor: judged at its call sites
            _ => self.viol("C11", "position", "an error is built with a position that is not the unmodified line and column of one token"),
        }
        if let V::Str(StrV::Const(s)) = &m {
            if istr(*s).trim().is_empty() {
                self.viol("C11", "message", "an error is built with an empty message");
            }
        }
    }
    fn make_node(&mut self, st: &mut State, fields: &[String], vs: Vec<V>) -> V {
        let g = |n: &str| fields.iter().position(|f| f == n).and_then(|i| vs.get(i)).cloned().unwrap_or(V::Top);
        let tok = g("token");
        let nt = g("node_type");
        let ch = g("children");
        let bits = match nt {
            V::NT(b) => b,
            _ => Bits::all(),
        };
        let mut own = Own::default();
        match &tok {
            V::Enum(_, 1, fs) => match fs.get(0) {
                Some(V::Tok(TokR::Off(0))) => {
                    own.cur = true;
                    own.bare = true;
                    if self.record {
                        let s = self.cur_site.to_string();
                        self.stats.claims.insert(s);
                    }
                }
                Some(V::Tok(TokR::Comment)) => {}
                _ => {
                    st.ps.own_off = true;
                    self.undecided("node built from a token that is not the current one");
                }
            },
            V::Enum(_, 0, _) => {}
            _ => {
                st.ps.own_off = true;
                self.undecided("node built from an unknown token");
            }
        }
        let mut n = NodeV::fresh(&bits, own);
        if ch != V::EmptyMap {
            n.any = true;
            n.alts.clear();
        }
        V::Node(Rc::new(n))
    }

    // ---------- statements ----------
    pub fn assign(&mut self, st: &mut State, pl: &Place, v: V) {
        match self.resolve(st, pl) {
            Loc::T(t) => {
                if t.path.is_empty() {
                    if let Base::Local(_) = t.base {
                        let cur = self.read(st, &t);
                        if !matches!(cur, V::Parser) {
                            *self.local_mut(st, pl.l, &t) = v;
                            return;
                        }
                    }
                }
                self.write(st, &t, v)
            }
            Loc::Val(_) => {
                // through an unknown reference
                if v.has_nodes() {
                    st.ps.own_off = true;
                }
            }
        }
    }
    fn local_mut<'s>(&self, st: &'s mut State, _l: u32, t: &Target) -> &'s mut V {
        match t.base {
            Base::Local(l) => st.loc.entry(l).or_insert(V::Uninit),
            Base::Cell(c) => &mut st.cells[c as usize],
        }
    }

    /// run one block for one entry state
    pub fn step(&mut self, f: &Func, b: usize, st: State) -> Vec<(usize, State)> {
        self.stats.steps += 1;
        let blk = &f.blocks[b];
        let mut cur = vec![st];
        for s in &blk.s {
            match s {
                Stmt::Assign(pl, rv, sp) => {
                    self.cur_site = sp.clone();
                    let mut nx = vec![];
                    for st in cur {
                        for (mut s2, v) in self.rvalue(st, rv) {
                            self.assign(&mut s2, pl, v);
                            nx.push(s2);
                        }
                    }
                    cur = nx;
                }
                Stmt::Dead(l) => {
                    for s in cur.iter_mut() {
                        s.loc.remove(l);
                    }
                }
                Stmt::SetDiscr(..) | Stmt::Other => {}
            }
        }
        self.cur_site = blk.sp.clone();
        let mut out = vec![];
        for st in cur {
            self.cur_site = blk.sp.clone();
            self.term(f, &blk.t, st, &mut out);
        }
        out
    }
    fn term(&mut self, f: &Func, t: &Term, mut st: State, out: &mut Vec<(usize, State)>) {
        match t {
            Term::Goto(b) => out.push((*b, st)),
            Term::Switch { o, v, e, .. } => {
                let x = self.eval(&mut st, o);
                match x {
                    V::Bool(b) => {
                        let n = b as u128;
                        let t = v.iter().find(|p| p.0 == n).map(|p| p.1).unwrap_or(*e);
                        out.push((t, st));
                    }
                    V::Int(i) => {
                        let n = i as u128;
                        let t = v.iter().find(|p| p.0 == n).map(|p| p.1).unwrap_or(*e);
                        out.push((t, st));
                    }
                    V::VLen(tg) => {
                        let mut cur = vec![st];
                        for (val, tb) in v {
                            let mut nx = vec![];
                            for s in cur {
                                for (s2, r) in self.cmp_len(s, "Eq", &tg, *val as i128, false) {
                                    if r == V::Bool(true) {
                                        out.push((*tb, s2));
                                    } else {
                                        nx.push(s2);
                                    }
                                }
                            }
                            cur = nx;
                        }
                        for s in cur {
                            out.push((*e, s));
                        }
                    }
                    V::Discr(tg) => {
                        let mut nt = tg.clone();
                        let isnode = nt.path.last() == Some(&PathE::F(self.node_f.1));
                        if isnode {
                            nt.path.pop();
                        }
                        let bits = match self.read(&st, &tg) {
                            V::NT(b) => b,
                            _ => Bits::all(),
                        };
                        let mut rest = bits;
                        for (val, tb) in v {
                            let b1 = Bits::one(*val as u8);
                            if bits.and(&b1).is_empty() {
                                continue;
                            }
                            rest = rest.minus(&b1);
                            let mut s = st.clone();
                            self.refine_nt(&mut s, &tg, &nt, isnode, &b1);
                            out.push((*tb, s));
                        }
                        if !rest.is_empty() {
                            if bits != Bits::all() {
                                self.refine_nt(&mut st, &tg, &nt, isnode, &rest);
                            }
                            out.push((*e, st));
                        }
                    }
                    _ => {
                        let mut seen = BTreeSet::new();
                        for (_, tb) in v {
                            if seen.insert(*tb) {
                                out.push((*tb, st.clone()));
                            }
                        }
                        if seen.insert(*e) {
                            out.push((*e, st));
                        }
                    }
                }
            }
            Term::Drop { pl, b, .. } => {
                let v = match self.resolve(&st, pl) {
                    Loc::T(t) if t.path.is_empty() => match t.base {
                        Base::Local(l) => st.loc.remove(&l).unwrap_or(V::Moved),
                        _ => self.read(&st, &t),
                    },
                    Loc::T(t) => {
                        let v = self.read(&st, &t);
                        if v.has_nodes() {
                            self.write(&mut st, &t, V::Moved);
                        }
                        v
                    }
                    Loc::Val(_) => V::Moved,
                };
                self.drop_value(&mut st, v);
                out.push((*b, st));
            }
            Term::Assert { b, .. } => out.push((*b, st)),
            Term::Call { f: fo, a, d, b, .. } => {
                let fv = match fo {
                    Op::Const { c: Const::Fn(r), .. } => Err(r.clone()),
                    o => Ok(self.eval(&mut st, o)),
                };
                let args: Vec<V> = a.iter().map(|o| self.eval(&mut st, o)).collect();
                self.shared = a
                    .iter()
                    .map(|o| match o {
                        Op::Copy(p) | Op::Move(p) if p.p.is_empty() => {
                            let t = &self.ir.tys[f.locals[p.l as usize].t].s;
                            t.starts_with('&') && !t.starts_with("&mut ")
                        }
                        _ => false,
                    })
                    .collect();
                let outs = match fv {
                    Err(r) => self.call(f, st, &r, args),
                    Ok(v) => self.call_value(st, v, args),
                };
                if let Some(b) = b {
                    for (mut s, v) in outs {
                        self.assign(&mut s, d, v);
                        out.push((*b, s));
                    }
                }
            }
            _ => {}
        }
    }
    fn refine_nt(&mut self, st: &mut State, tg: &Target, nt: &Target, isnode: bool, bits: &Bits) {
        if isnode {
            if let V::Node(n) = self.read(st, nt) {
                if !n.any {
                    let mut n = (*n).clone();
                    n.alts.retain(|k, _| bits.has(*k));
                    self.set_raw(st, nt, V::Node(Rc::new(n)));
                }
            }
        } else if let V::NT(_) = self.read(st, tg) {
            self.set_raw(st, tg, V::NT(*bits));
        }
    }
    pub fn drop_value(&mut self, st: &mut State, v: V) {
        self.drop_val(st, v)
    }

    // ---------- calls ----------
    pub fn call_value(&mut self, mut st: State, f: V, args: Vec<V>) -> Outs {
        let f = self.deref_all(&st, &f);
        match f {
            V::Fn(id) => {
                if let Some(i) = self.ir.by_id.get(&id) {
                    return self.call_fn(st, *i, args);
                }
                self.escape(&mut st, &args);
                vec![(st, V::Top)]
            }
            V::Closure(..) => self.call_closure(st, f, args),
            _ => {
                self.escape(&mut st, &args);
                vec![(st, V::Top)]
            }
        }
    }
    pub fn call_closure(&mut self, mut st: State, clo: V, args: Vec<V>) -> Outs {
        let (target, c) = match &clo {
            V::Ref(t) => (Some(t.clone()), self.deref_all(&st, &clo)),
            _ => (None, clo.clone()),
        };
        if let V::Closure(id, _) = &c {
            if let Some(i) = self.ir.by_id.get(id).cloned() {
                let by_ref = {
                    let f = &self.ir.fns[i];
                    f.argc >= 1 && self.ir.tys[f.locals[1].t].s.starts_with('&')
                };
                let mut a = vec![];
                if by_ref && target.is_some() {
                    a.push(V::Ref(target.unwrap()));
                } else {
                    a.push(c.clone());
                }
                a.extend(args);
                return self.call_fn(st, i, a);
            }
        }
        if let V::Fn(_) = &c {
            return self.call_value(st, c, args);
        }
        self.escape(&mut st, &args);
        vec![(st, V::Top)]
    }
    /// values handed to code that is not modelled
    pub fn escape(&mut self, st: &mut State, args: &[V]) {
        let mut esc = false;
        for a in args {
            if a.has_nodes() {
                esc = true;
            }
            if let V::Ref(t) = a {
                if self.read(st, t).has_nodes() {
                    esc = true;
                }
            }
        }
        if esc {
            st.ps.own_off = true;
            let n = format!("node handed to unmodelled code at {}", self.callee.clone());
            self.undecided(&n);
        }
    }
    fn call(&mut self, caller: &Func, st: State, r: &FnRef, args: Vec<V>) -> Outs {
        if r.local {
            if let Some(i) = self.lookup(r) {
                if !self.ir.fns[i].derived {
                    return self.call_fn(st, i, args);
                }
            }
        }
        self.callee = r.norm.clone();
        self.model(caller, st, r, args)
    }
    pub fn call_fn(&mut self, st: State, fi: usize, args: Vec<V>) -> Outs {
        let f = &self.ir.fns[fi];
        let name = f.name.clone();
        if self.record {
            let s = self.cur_site.to_string();
            self.stats.calls.insert(s);
            if let Some(flt) = &self.call_filter {
                if name.ends_with(flt.as_str()) {
                    let rec = CallRec { caller: self.ir.fns[self.cur_fn].name.clone(), callee: name.clone(), args: args.clone(), facts: st.ps.facts.clone(), fuzzy: st.ps.fuzzy, site: self.cur_site.to_string() };
                    self.on_call.push(rec);
                }
            }
        }
        // cursor primitives and lexical predicates
        if name == "parser::Parser::next_token" {
            return self.prim_next_token(st);
        }
        if name == "parser::Parser::get_offset_index" {
            let k = args.get(1).cloned().unwrap_or(V::Top);
            return self.prim_offset_index(st, k);
        }
        if name == "parser::Parser::get_token" && !self.ir.by_name.contains_key("parser::Parser::get_offset_index") {
            let k = args.get(1).cloned().unwrap_or(V::Top);
            return self
                .prim_offset_index(st, k)
                .into_iter()
                .map(|(s, v)| match v {
                    V::Enum(_, 0, fs) => match fs.first() {
                        Some(V::TokIdx(r)) => (s, ok(V::Tok(*r))),
                        _ => (s, ok(V::Tok(TokR::Unknown))),
                    },
                    v => (s, v),
                })
                .collect();
        }
        if let Some(p) = name.strip_prefix("token::Token::") {
            if matches!(p, "is_identifier" | "is_string" | "is_numeric" | "is_boolean" | "is_parameter" | "is_template" | "is_reserved_keyword" | "is_comment") {
                let t = self.deref_all(&st, &args[0]);
                return self.prim_pred(st, p, t);
            }
        }
        if name == "parser::Parser::construct_node" {
            let off = st.ps.own_off;
            let mut outs = self.call_summary(st, fi, args);
            for (s, v) in outs.iter_mut() {
                self.settle_leaf(s, v, off);
            }
            return outs;
        }
        self.call_summary(st, fi, args)
    }
    /// Which token a leaf node carries and which comments it gets is decided by the primitives
    /// machine (seg.rs) for the body of construct_node; what its callers rely on is that contract.
    fn settle_leaf(&mut self, s: &mut State, v: &mut V, off: bool) {
        let eof = self.nt_names.iter().position(|n| n == "EOF").map(|i| i as u8);
        let com = self.nt_names.iter().position(|n| n == "Comment").map(|i| i as u8);
        if let (V::Enum(_, 0, fs), Some(eof), Some(com)) = (v, eof, com) {
            if let Some(V::Node(n)) = fs.get_mut(0) {
                if n.any {
                    return;
                }
                s.ps.own_off = off;
                let n = Rc::make_mut(n);
                if !n.alts.contains_key(&eof) {
                    n.own = Own { cur: true, ..Own::default() };
                }
                for (_, ks) in n.alts.iter_mut() {
                    let mut k = Kids::new();
                    for key in ["leading_comments", "trailing_comments"] {
                        let mut types = Bits::none();
                        types.set(com);
                        k.insert(intern(key), Kid { must: false, node: false, vec: true, types });
                    }
                    if **ks != k {
                        *ks = Rc::new(k);
                    }
                }
            }
        }
    }
    fn prim_pred(&mut self, st: State, p: &str, t: V) -> Outs {
        let r = match t {
            V::Tok(r) => r,
            _ => return self.fork_bool(st),
        };
        if r == TokR::Raw && p != "is_comment" {
            self.viol("C09", &format!("raw-token({})", p), "the parser classifies a token fetched by raw index; a comment in that place changes the outcome");
        }
        let k = match r {
            TokR::Off(k) => k,
            _ => return self.fork_bool(st),
        };
        if p == "is_comment" {
            return vec![(st, V::Bool(false))];
        }
        if k as usize >= NF {
            return self.fork_bool(st);
        }
        let fact = st.ps.facts[k as usize].clone();
        let mut out = vec![];
        match fact {
            TF::Pos(v) => {
                let spec = self.spec.clone();
                let mut yes = vec![];
                let mut no = vec![];
                for l in v {
                    match spec.pred(p, &istr(l)) {
                        Some(true) => yes.push(l),
                        Some(false) => no.push(l),
                        None => {
                            yes.push(l);
                            no.push(l)
                        }
                    }
                }
                if !yes.is_empty() {
                    if let Some(s) = self.meet_fact(&st, k, &TF::Pos(yes)) {
                        out.push((s, V::Bool(true)));
                    }
                }
                if !no.is_empty() {
                    if let Some(s) = self.meet_fact(&st, k, &TF::Pos(no)) {
                        out.push((s, V::Bool(false)));
                    }
                }
            }
            TF::Neg(_) => {
                let yes = match p {
                    "is_boolean" => TF::Pos({
                        let mut v = vec![intern("FALSE"), intern("TRUE")];
                        v.sort();
                        v
                    }),
                    _ => TF::Neg(vec![intern("")]),
                };
                if let Some(s) = self.meet_fact(&st, k, &yes) {
                    out.push((s, V::Bool(true)));
                }
                let no = match p {
                    "is_boolean" => TF::Neg({
                        let mut v = vec![intern("FALSE"), intern("TRUE")];
                        v.sort();
                        v
                    }),
                    _ => TF::top(),
                };
                if let Some(s) = self.meet_fact(&st, k, &no) {
                    out.push((s, V::Bool(false)));
                }
            }
        }
        out
    }
    fn prim_offset_index(&mut self, mut st: State, k: V) -> Outs {
        self.use_cursor(&mut st);
        let n = match k {
            V::Int(n) if n >= 0 && n < 200 => n as usize,
            _ => {
                let mut s = st.clone();
                s.ev |= EV_LOOK;
                s.ps.looked = true;
                return vec![(s, ok(V::TokIdx(TokR::Unknown))), (st, err())];
            }
        };
        if n == 0 {
            return vec![(st, ok(V::TokIdx(TokR::Off(0))))];
        }
        let eof = intern("");
        let mut out = vec![];
        // exists token n: no end marker before it
        let mut s = st.clone();
        let mut good = true;
        let mut sure = true;
        for j in 0..n.min(NF) {
            if s.ps.facts[j].may(eof) {
                sure = false;
            }
            match s.ps.facts[j].meet(&TF::Neg(vec![eof])) {
                Some(m) => s.ps.facts[j] = m,
                None => {
                    good = false;
                    break;
                }
            }
        }
        if n > NF {
            sure = false;
        }
        if good {
            out.push((s, ok(V::TokIdx(if n < 250 { TokR::Off(n as u8) } else { TokR::Unknown }))));
        }
        if !sure {
            out.push((st, err()));
        }
        out
    }
    fn prim_next_token(&mut self, mut st: State) -> Outs {
        self.use_cursor(&mut st);
        if self.record {
            let s = self.cur_site.to_string();
            self.stats.advances.insert(s);
        }
        let eof = intern("");
        let mut out = vec![];
        if let Some(mut s) = self.meet_fact(&st, 0, &TF::Neg(vec![eof])) {
            self.claim_advance(&mut s);
            self.shift_all(&mut s, Some(1));
            s.ps.facts.remove(0);
            s.ps.facts.push(TF::top());
            s.ev |= EV_ADV;
            out.push((s, ok(V::Top)));
        }
        if st.ps.facts[0].may(eof) {
            st.ps.garbage = true;
            st.ps.failed = true;
            st.ps.restored = 0;
            out.push((st, err()));
        }
        out
    }

    // ---------- summaries ----------
    fn export(&self, st: &State, v: &V, cells: &mut Vec<(Target, V)>) -> V {
        match v {
            V::Ref(t) => {
                if let Some(i) = cells.iter().position(|c| &c.0 == t) {
                    return V::Ref(Target { base: Base::Cell(i as u32), path: vec![] });
                }
                let i = cells.len();
                cells.push((t.clone(), V::Moved));
                let inner = self.read(st, t);
                let e = self.export(st, &inner, cells);
                cells[i].1 = e;
                V::Ref(Target { base: Base::Cell(i as u32), path: vec![] })
            }
            V::Discr(_) | V::Children(_) | V::OptChild(..) => V::Top,
            V::VLen(_) => V::IntTop,
            V::Enum(d, x, fs) => V::Enum(*d, *x, fs.iter().map(|f| self.export(st, f, cells)).collect()),
            V::Agg(fs) => V::Agg(fs.iter().map(|f| self.export(st, f, cells)).collect()),
            V::Closure(i, fs) => V::Closure(*i, fs.iter().map(|f| self.export(st, f, cells)).collect()),
            V::CIter(fs, n) => V::CIter(fs.iter().map(|f| self.export(st, f, cells)).collect(), *n),
            v => v.clone(),
        }
    }
    fn import(&self, v: &V, map: &[Target]) -> V {
        match v {
            V::Ref(t) => match t.base {
                Base::Cell(c) => match map.get(c as usize) {
                    Some(m) => {
                        let mut x = m.clone();
                        x.path.extend(t.path.iter().cloned());
                        V::Ref(x)
                    }
                    None => V::Top,
                },
                _ => V::Top,
            },
            V::Discr(_) | V::VLen(_) => V::IntTop,
            V::Enum(d, x, fs) => V::Enum(*d, *x, fs.iter().map(|f| self.import(f, map)).collect()),
            V::Agg(fs) => V::Agg(fs.iter().map(|f| self.import(f, map)).collect()),
            V::Closure(i, fs) => V::Closure(*i, fs.iter().map(|f| self.import(f, map)).collect()),
            V::CIter(fs, n) => V::CIter(fs.iter().map(|f| self.import(f, map)).collect(), *n),
            v => v.clone(),
        }
    }
    fn canon_facts(&self, f: &Func, facts: &[TF]) -> Vec<TF> {
        let eof = intern("");
        if !self.takes_mut_parser(f) {
            return facts.to_vec();
        }
        if self.probe && facts.iter().any(|t| matches!(t, TF::Pos(v) if v.len() == 1 && istr(v[0]).starts_with(crate::prec::MARK))) {
            return facts.to_vec();
        }
        facts
            .iter()
            .enumerate()
            .map(|(i, t)| match t {
                TF::Pos(v) if i == 0 && v.len() <= 30 => t.clone(),
                TF::Pos(v) if v.len() == 1 && v[0] == eof => t.clone(),
                _ => {
                    if i <= 1 && !t.may(eof) {
                        TF::Neg(vec![eof])
                    } else {
                        TF::top()
                    }
                }
            })
            .collect()
    }
    fn strip(v: &V) -> V {
        match v {
            V::Node(n) => {
                let mut m = (**n).clone();
                for (_, k) in m.alts.iter_mut() {
                    *k = Rc::new(Kids::new());
                }
                V::Node(Rc::new(m))
            }
            V::NVec(x) => {
                let mut y = (**x).clone();
                if let Some(e) = &mut y.elem {
                    for (_, k) in e.alts.iter_mut() {
                        *k = Rc::new(Kids::new());
                    }
                }
                V::NVec(Rc::new(y))
            }
            V::Enum(d, x, fs) => V::Enum(*d, *x, fs.iter().map(Self::strip).collect()),
            V::Agg(fs) => V::Agg(fs.iter().map(Self::strip).collect()),
            V::Closure(i, fs) => V::Closure(*i, fs.iter().map(Self::strip).collect()),
            v => v.clone(),
        }
    }
    pub fn get_ctx(&mut self, f: usize, args: Vec<V>, cells: Vec<V>, ps: PS) -> usize {
        let key = if self.takes_mut_parser(&self.ir.fns[f]) {
            Key { f, args: args.iter().map(Self::strip).collect(), cells: cells.iter().map(Self::strip).collect(), ps }
        } else {
            // helpers are small: one context per argument
            Key { f, args: args.clone(), cells: cells.clone(), ps }
        };
        if let Some(i) = self.by_key.get(&key) {
            let i = *i;
            let mut ch = false;
            let c = &mut self.ctxs[i];
            for (x, y) in c.args.iter_mut().zip(&args).chain(c.cells.iter_mut().zip(&cells)) {
                if x != y {
                    let j = join_v(x, y);
                    if &j != x {
                        *x = j;
                        ch = true;
                    }
                }
            }
            if ch {
                self.ctxs[i].restart = true;
                self.enqueue(i);
            }
            return i;
        }
        let i = self.ctxs.len();
        self.ctxs.push(Ctx { key: key.clone(), args, cells, out: HashMap::default(), deps: HashSet::default(), calls: HashMap::default(), queued: false, runs: 0, cost: 0, work: None, restart: false, dirty: BTreeSet::new() });
        self.by_key.insert(key, i);
        self.enqueue(i);
        i
    }
    fn enqueue(&mut self, i: usize) {
        if !self.ctxs[i].queued {
            self.ctxs[i].queued = true;
            self.wl.push(i);
        }
    }
    fn call_summary(&mut self, st: State, fi: usize, args: Vec<V>) -> Outs {
        let mut st = st;
        let f = &self.ir.fns[fi];
        let mut_parser = self.takes_mut_parser(f);
        let returns_comments = self.reads_comments.contains(&fi);
        let mut cells: Vec<(Target, V)> = vec![];
        let mut eargs: Vec<V> = args.iter().map(|a| self.export(&st, a, &mut cells)).collect();
        // take exported nodes out of the caller while the callee runs
        for (t, v) in &cells {
            if v.has_nodes() {
                let t = t.clone();
                self.set_moved(&mut st, &t);
            }
        }
        // foreign contested bits
        let mut fb = 0u8;
        for v in eargs.iter().chain(cells.iter().map(|c| &c.1)) {
            v.for_own(&mut |o| fb |= o.cont);
        }
        let mut fmap: Vec<(u8, u8)> = vec![];
        if fb != 0 {
            let mut slot = 4;
            for i in 0..8 {
                if fb & (1 << i) != 0 {
                    if slot > 7 {
                        st.ps.own_off = true;
                        break;
                    }
                    fmap.push((1 << i, 1 << slot));
                    slot += 1;
                }
            }
            let mm = fmap.clone();
            let mut remap = |o: &Own| {
                let mut o = *o;
                let mut c = 0;
                for (a, b) in &mm {
                    if o.cont & a != 0 {
                        c |= b
                    }
                }
                o.cont = c;
                o
            };
            for v in eargs.iter_mut() {
                v.map_own(&mut remap);
            }
            for c in cells.iter_mut() {
                c.1.map_own(&mut remap);
            }
        }
        let k = self.count_cur(&st);
        let caller_ext = if st.ps.advanced { 0 } else { st.ps.ext as u32 };
        let tot = k + caller_ext;
        let mut ps = PS::new();
        ps.facts = self.canon_facts(f, &st.ps.facts);
        ps.ext = if mut_parser { tot.min(2) as u8 } else { 0 };
        ps.own_off = st.ps.own_off;
        // a helper that is handed a saved state may restore it for its caller
        let pass = st.ps.garbage && mut_parser && eargs.iter().chain(cells.iter().map(|c| &c.1)).any(has_snap);
        if pass {
            ps.garbage = true;
            ps.failed = st.ps.failed;
            ps.restored = st.ps.restored;
        } else if st.ps.garbage {
            self.use_cursor(&mut st);
        }
        let ecells: Vec<V> = cells.iter().map(|c| c.1.clone()).collect();
        let ci = self.get_ctx(fi, eargs, ecells, ps);
        let me = self.cur_ctx;
        self.ctxs[ci].deps.insert(me);
        self.sid_calls.push((ci, self.cur_sid));
        let adv = st.ps.advanced;
        let e = self.ctxs[me].calls.entry(ci).or_insert(false);
        if !adv {
            *e = true;
        }
        let map: Vec<Target> = cells.iter().map(|c| c.0.clone()).collect();
        let outs: Vec<Outcome> = self.ctxs[ci].out.values().cloned().collect();
        let mut res = vec![];
        for o in outs {
            let mut s = st.clone();
            let failed = mut_parser && is_res(&o.ret, 1);
            if !o.ps.advanced {
                let mut okk = true;
                for j in 0..NF {
                    match s.ps.facts[j].meet(&o.ps.facts[j]) {
                        Some(m) => s.ps.facts[j] = m,
                        None => {
                            okk = false;
                            break;
                        }
                    }
                }
                if !okk {
                    continue;
                }
            } else if !failed {
                s.ps.facts = o.ps.facts.clone();
            }
            s.ps.own_off |= o.ps.own_off;
            s.ps.fuzzy |= o.ps.fuzzy && !adv;
            if o.ps.looked && !mut_parser {
                s.ev |= EV_LOOK;
                s.ps.looked = true;
            }
            if !mut_parser && is_res(&o.ret, 1) && matches!(&o.ret, V::Enum(_, _, p) if matches!(p.first(), Some(V::Enum(d, _, _)) if *d == intern("BQ2CSTError"))) {
                // an error of its own, not just a look beyond the end of the input
                s.ps.failed = true;
            }
            let helper = !self.result_fn(&self.ir.fns[fi]);
            for p in &o.ps.pend {
                let p = if helper { self.rename_pend(*p) } else { *p };
                s.ps.pend.insert(p);
            }
            let mut ret = o.ret.clone();
            let mut ocells = o.cells.clone();
            if pass {
                s.ps.garbage = o.ps.garbage;
                s.ps.failed = o.ps.failed;
                s.ps.restored = o.ps.restored;
            }
            if failed {
                if o.ps.advanced || o.ps.garbage {
                    s.ps.garbage = true;
                    s.ps.restored = 0;
                }
                s.ps.failed = true;
                if self.record {
                    let x = self.cur_site.to_string();
                    self.stats.errcalls.insert(x);
                }
                for v in ocells.iter_mut() {
                    v.map_own(&mut |_| Own::default());
                }
            } else {
                if o.ps.garbage {
                    s.ps.garbage = true;
                }
                if o.ps.failed {
                    s.ps.failed = true;
                }
                // contested bits of the callee become bits of the caller
                let mut inner = 0u8;
                ret.for_own(&mut |x| inner |= x.cont);
                for v in &ocells {
                    v.for_own(&mut |x| inner |= x.cont);
                }
                let mut map8: Vec<(u8, u8)> = vec![];
                for (a, b) in &fmap {
                    map8.push((*b, *a));
                }
                let mut avoid = fb;
                for i in 1..4 {
                    let b = 1u8 << i;
                    if inner & b != 0 {
                        match self.alloc_bit(&s, avoid) {
                            Some(n) => {
                                avoid |= n;
                                map8.push((b, n));
                            }
                            None => s.ps.own_off = true,
                        }
                    }
                }
                if o.ps.advanced {
                    let contested = o.ps.ext_cont;
                    let bit = if contested && tot > 0 || tot >= 2 {
                        if caller_ext > 0 {
                            if contested || k > 0 {
                                s.ps.ext_cont = true;
                            }
                            Some(1u8)
                        } else {
                            let b = self.alloc_bit(&s, avoid);
                            if b.is_none() {
                                s.ps.own_off = true;
                            }
                            b
                        }
                    } else {
                        None
                    };
                    match bit {
                        Some(b) => {
                            map8.push((1, b));
                            self.map_all_own(&mut s, |o| {
                                let mut o = *o;
                                if o.cur {
                                    o.cur = false;
                                    o.cont |= b;
                                }
                                o
                            });
                        }
                        None => {
                            self.map_all_own(&mut s, |o| {
                                let mut o = *o;
                                if o.cur {
                                    o.cur = false;
                                    o.settled = true;
                                }
                                o
                            });
                        }
                    }
                    self.shift_all(&mut s, None);
                    s.ps.advanced = true;
                    s.ev |= EV_ADV;
                }
                let mut remap = |o: &Own| {
                    let mut o = *o;
                    let mut c = 0;
                    for (a, b) in &map8 {
                        if o.cont & a != 0 {
                            c |= b
                        }
                    }
                    o.cont = c;
                    if returns_comments {
                        o.bare = false;
                    }
                    o
                };
                ret.map_own(&mut remap);
                for v in ocells.iter_mut() {
                    v.map_own(&mut remap);
                }
            }
            for (i, v) in ocells.iter().enumerate() {
                let t = &map[i];
                let iv = self.import(v, &map);
                if matches!(iv, V::Parser) {
                    continue;
                }
                self.put(&mut s, t, iv);
            }
            let r = self.import(&ret, &map);
            // bits passed to the callee that nobody holds any more
            if !failed && !s.ps.own_off {
                for (a, _) in &fmap {
                    if *a > 1 && *a < 16 {
                        let mut held = self.holders(&s, *a) > 0;
                        r.for_own(&mut |o| held |= o.cont & a != 0);
                        if !held {
                            self.pend(&mut s, "C01", "dropped-contested".into(), "the last node claiming a consumed token is discarded".into());
                        }
                    }
                }
            }
            res.push((s, r));
        }
        res
    }
    /// attribute a finding inside a small helper to its caller
    fn rename_pend(&mut self, p: u32) -> u32 {
        let q = self.pends[(p / 2) as usize].clone();
        let rest = q.key.splitn(3, '|').nth(2).unwrap_or("").to_string();
        let full = format!("{}|{}|{}", q.prop, self.ir.fns[self.cur_fn].name, rest);
        if let Some(i) = self.pend_ix.get(&full) {
            return *i;
        }
        self.new_pend(Pend { prop: q.prop, key: full, msg: q.msg, site: self.cur_site.to_string() })
    }
    /// write back a cell without triggering write effects
    fn put(&mut self, st: &mut State, t: &Target, v: V) {
        let cur = self.read(st, t);
        if cur == v {
            return;
        }
        if t.path.is_empty() {
            match t.base {
                Base::Local(l) => {
                    st.loc.insert(l, v);
                }
                Base::Cell(c) => st.cells[c as usize] = v,
            }
            return;
        }
        let pend = st.ps.pend.clone();
        let off = st.ps.own_off;
        self.write(st, t, v);
        st.ps.pend = pend;
        st.ps.own_off = off;
    }

    // ---------- fixpoint ----------
    pub fn run(&mut self) {
        while let Some(c) = self.pop_wl() {
            if self.gave_up.is_some() {
                self.wl.clear();
                return;
            }
            self.ctxs[c].queued = false;
            if self.ctxs.len() > self.rec_at {
                // a recursion that consumes nothing shows long before its fixpoint is reached
                self.rec_at = self.rec_at * 5 / 4;
                if !self.early_cycles(None).is_empty() {
                    self.gave_up = Some("a recursion that consumes nothing".into());
                    self.wl.clear();
                    return;
                }
            }
            let t = std::time::Instant::now();
            let s0 = self.stats.states;
            self.analyze(c, false);
            self.ctxs[c].cost += self.stats.states - s0;
            if self.debug {
                let e = self.prof.entry(self.ir.fns[self.ctxs[c].key.f].name.clone()).or_insert((0, 0.0, 0));
                e.0 += 1;
                e.1 += t.elapsed().as_secs_f64();
                e.2 += self.stats.states - s0;
                if self.stats.runs % 2000 == 0 {
                    eprintln!("runs {} ctxs {} wl {}", self.stats.runs, self.ctxs.len(), self.wl.len());
                    let mut v: Vec<_> = self.prof.iter().collect();
                    v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
                    for (n, x) in v.iter().take(12) {
                        let nc = self.ctxs.iter().filter(|c| &self.ir.fns[c.key.f].name == *n).count();
                        eprintln!("   {:50} ctx {:5} runs {:6} {:8.2}s states {}", n, nc, x.0, x.1, x.2);
                    }
                }
            }
        }
    }
    fn pop_wl(&mut self) -> Option<usize> {
        // least analysed first: expensive recursive functions wait until their callees settle
        let (k, _) = self.wl.iter().enumerate().min_by_key(|(_, c)| (self.ctxs[**c].cost, std::cmp::Reverse(**c)))?;
        Some(self.wl.swap_remove(k))
    }
    pub fn result_fn(&self, f: &Func) -> bool {
        self.ir.tys[f.locals[0].t].s.starts_with("std::result::Result")
    }
    pub fn analyze(&mut self, c: usize, record: bool) {
        self.record = record;
        self.cur_ctx = c;
        let fi = self.ctxs[c].key.f;
        self.cur_fn = fi;
        let ir = self.ir;
        let f = &ir.fns[fi];
        self.stats.runs += 1;
        self.ctxs[c].runs += 1;
        if record {
            self.stats.fns.insert(f.name.clone());
        }
        let mut st = State { loc: BTreeMap::new(), cells: self.ctxs[c].cells.clone(), ps: self.ctxs[c].key.ps.clone(), ev: 0 };
        for (i, a) in self.ctxs[c].args.iter().enumerate() {
            st.loc.insert(i as u32 + 1, a.clone());
        }
        self.ctxs[c].calls.clear();
        let n = f.blocks.len();
        let mut wl: BTreeSet<(usize, usize)> = BTreeSet::new(); // (rpo, state id)
        let mut edges: BTreeMap<(usize, usize), u8> = BTreeMap::new();
        let dirty = std::mem::take(&mut self.ctxs[c].dirty);
        let work = self.ctxs[c].work.take();
        let restart = std::mem::take(&mut self.ctxs[c].restart);
        let (mut tab, mut states, mut callers) = match work {
            Some(w) if !restart => {
                // resume: only the calls whose callee changed have to be looked at again;
                // recording goes over all states once more
                if record {
                    for (i, x) in w.states.iter().enumerate() {
                        wl.insert((f.rpo[x.0], i));
                    }
                }
                for d in &dirty {
                    if let Some(v) = w.callers.get(d) {
                        for i in v {
                            wl.insert((f.rpo[w.states[*i].0], *i));
                        }
                    }
                }
                (w.tab, w.states, w.callers)
            }
            _ => {
                let mut tab: Vec<HashMap<u64, usize>> = vec![HashMap::default(); n];
                let mut states: Vec<(usize, State)> = vec![];
                let h = hash_state(&st, &self.part_keys);
                tab[0].insert(h, 0);
                states.push((0, st));
                wl.insert((f.rpo[0], 0));
                (tab, states, HashMap::default())
            }
        };
        let steps0 = self.stats.steps;
        let _ = steps0;
        let mut outs: HashMap<u64, Outcome> = HashMap::default();
        while let Some((_, sid)) = wl.pop_first() {
            self.ticks += 1;
            if self.ticks & 1023 == 0 && crate::GLOBAL.held() > self.max_mem {
                self.gave_up = Some(format!("memory limit reached in {}", f.name));
                return;
            }
            if self.ticks & 4095 == 0 && self.t0.elapsed().as_secs() > self.max_s {
                self.gave_up = Some(format!("time limit of {} s reached in {}", self.max_s, f.name));
                return;
            }
            let (b, st) = states[sid].clone();
            if matches!(f.blocks[b].t, Term::Ret) {
                // statements before return
                for s in self.step_stmts(f, b, st) {
                    self.finish(f, b, s, &mut outs);
                }
                continue;
            }
            let mut st = st;
            st.ev = 0;
            self.cur_sid = sid;
            self.sid_calls.clear();
            self.stats.states += 1;
            let nexts = self.step(f, b, st);
            for (ci, sid) in self.sid_calls.drain(..) {
                callers.entry(ci).or_insert_with(BTreeSet::new).insert(sid);
            }
            for (nb, mut s) in nexts {
                let ev = s.ev;
                s.ev = 0;
                if self.takes_mut_parser(f) {
                    s.ps.looked = false;
                }
                self.prune(f, nb, &mut s);
                let h = hash_state(&s, &self.part_keys);
                let id = match tab[nb].get(&h) {
                    Some(i) => {
                        let i = *i;
                        if join_state(&mut states[i].1, &s) {
                            wl.insert((f.rpo[nb], i));
                        }
                        i
                    }
                    None => {
                        let i = states.len();
                        states.push((nb, s));
                        tab[nb].insert(h, i);
                        wl.insert((f.rpo[nb], i));
                        i
                    }
                };
                if record {
                    let e = edges.entry((sid, id)).or_insert(255);
                    *e &= ev;
                }
            }
            if states.len() > 200_000 {
                self.gave_up = Some(format!("state explosion in {} ({} states)", f.name, states.len()));
                return;
            }
        }
        if record {
            self.check_loops(f, &states, &edges);
        }
        if self.takes_mut_parser(f) {
            self.ctxs[c].work = Some(Work { tab, states, callers });
        }
        // merge outcomes
        let mut ch = false;
        {
            let cx = &mut self.ctxs[c];
            for (k, o) in outs {
                match cx.out.get_mut(&k) {
                    None => {
                        cx.out.insert(k, o);
                        ch = true;
                    }
                    Some(p) => {
                        let j = join_v(&p.ret, &o.ret);
                        if j != p.ret {
                            p.ret = j;
                            ch = true;
                        }
                        for (x, y) in p.cells.iter_mut().zip(&o.cells) {
                            let j = join_v(x, y);
                            if &j != x {
                                *x = j;
                                ch = true;
                            }
                        }
                        if !o.ps.pend.is_subset(&p.ps.pend) {
                            p.ps.pend.extend(o.ps.pend.iter().cloned());
                            ch = true;
                        }
                        for (x, y) in p.ps.facts.iter_mut().zip(&o.ps.facts) {
                            let j = x.join(y);
                            if &j != x {
                                *x = j;
                                ch = true;
                            }
                        }
                    }
                }
            }
        }
        if ch {
            let deps: Vec<usize> = self.ctxs[c].deps.iter().cloned().collect();
            for d in deps {
                self.ctxs[d].dirty.insert(c);
                self.enqueue(d);
            }
        }
    }
    fn step_stmts(&mut self, f: &Func, b: usize, st: State) -> Vec<State> {
        let mut cur = vec![st];
        for x in &f.blocks[b].s {
            match x {
                Stmt::Assign(pl, rv, sp) => {
                    self.cur_site = sp.clone();
                    let mut nx = vec![];
                    for st in cur {
                        for (mut s2, v) in self.rvalue(st, rv) {
                            self.assign(&mut s2, pl, v);
                            nx.push(s2);
                        }
                    }
                    cur = nx;
                }
                Stmt::Dead(l) => {
                    for s in cur.iter_mut() {
                        s.loc.remove(l);
                    }
                }
                _ => {}
            }
        }
        cur
    }
    fn prune(&self, f: &Func, b: usize, s: &mut State) {
        let live = &f.live_in[b];
        s.loc.retain(|l, _| live.contains(l));
    }
    fn finish(&mut self, f: &Func, b: usize, mut s: State, outs: &mut HashMap<u64, Outcome>) {
        self.cur_site = f.blocks[b].sp.clone();
        let ret = s.loc.remove(&0).unwrap_or(V::Top);
        s.loc.clear();
        let resf = self.result_fn(f);
        let is_err = resf && is_res(&ret, 1);
        if resf && !is_err {
            if self.record {
                let x = self.cur_site.to_string();
                self.stats.okrets.insert(format!("{} {}", f.name, x));
            }
            if s.ps.garbage && self.takes_mut_parser(f) {
                self.pend(&mut s, "C16", "success-after-failure".into(), "success is returned although a failed attempt left the cursor somewhere and nothing was restored".into());
            }
            if s.ps.failed && self.takes_mut_parser(f) {
                self.pend(&mut s, "C17", "swallowed-error".into(), "success is returned although a sub-parser reported an error on this path".into());
            }
            if f.name == "parser::Parser::parse_code" {
                self.check_root(&mut s, &ret);
            }
            let p: Vec<u32> = s.ps.pend.iter().cloned().collect();
            if self.record {
                for i in p {
                    let p = self.pends[(i / 2) as usize].clone();
                    self.viols.entry(p.key.clone()).or_insert(Viol { prop: p.prop.to_string(), key: p.key.clone(), msg: p.msg.clone(), site: p.site.clone() });
                }
            }
            s.ps.pend.clear();
            s.ps.failed = false;
            s.ps.garbage = false;
        } else if is_err {
            s.ps.pend.clear();
            s.ps.failed = false;
        }
        if is_err {
            s.ps.facts = if s.ps.advanced { vec![TF::top(); NF] } else { s.ps.facts };
            for c in s.cells.iter_mut() {
                c.map_own(&mut |_| Own::default());
            }
        }
        if !s.ps.garbage || resf {
            s.ps.restored = 0;
        }
        if self.takes_mut_parser(f) {
            s.ps.looked = false;
        }
        let mut h = DefaultHasher::new();
        ret.shape(&mut h, &self.part_keys);
        let mut tmp = s.clone();
        tmp.loc.insert(0, ret.clone());
        let k = hash_state(&tmp, &self.part_keys);
        let _ = h.finish();
        let o = Outcome { ret, cells: s.cells, ps: s.ps };
        match outs.get_mut(&k) {
            None => {
                outs.insert(k, o);
            }
            Some(p) => {
                p.ret = join_v(&p.ret, &o.ret);
                for (x, y) in p.cells.iter_mut().zip(&o.cells) {
                    *x = join_v(x, y);
                }
                for (x, y) in p.ps.facts.iter_mut().zip(&o.ps.facts) {
                    *x = x.join(y);
                }
                p.ps.pend.extend(o.ps.pend.iter().cloned());
            }
        }
    }
    fn check_root(&mut self, s: &mut State, ret: &V) {
        let eof = TF::one("");
        if s.ps.facts[0] != eof {
            let f = s.ps.facts[0].show();
            self.pend(s, "C15", "unconsumed-input".into(), format!("parsing reports success while the current token may be {}", f));
        }
        if let V::Enum(_, 0, fs) = ret {
            if let Some(V::NVec(v)) = fs.get(0) {
                if let Some(e) = v.elem.clone() {
                    if e.own.bare {
                        self.pend(s, "C02", "bare-node(root)".into(), "a top-level node was built without the comments of its token".into());
                    }
                    self.check_ts(s, &e);
                }
            }
        }
    }
    /// every cycle of the abstract state graph has to make progress
    fn check_loops(&mut self, f: &Func, states: &[(usize, State)], edges: &BTreeMap<(usize, usize), u8>) {
        let n = states.len();
        let sccs = |drop_mask: &dyn Fn(u8) -> bool| -> Vec<Vec<usize>> {
            let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
            for ((a, b), e) in edges {
                if !drop_mask(*e) {
                    adj[*a].push(*b);
                }
            }
            tarjan(&adj)
        };
        let all = sccs(&|_| false);
        for c in &all {
            let b = c.iter().map(|i| f.rpo[states[*i].0]).min().unwrap();
            if let Some(bb) = f.rpo.iter().position(|r| *r == b) {
                self.stats.loops.insert(format!("{} {}", f.name, f.blocks[bb].sp));
            }
        }
        // progress: consuming input or stepping a finite iterator
        let rest = sccs(&|e| e & (EV_ADV | EV_ITER | EV_POP) != 0);
        for c in rest {
            let set: HashSet<usize> = c.iter().cloned().collect();
            // look-ahead loops: must both look and move the offset; descents must step to a child
            let acyc = |mask: u8| -> bool {
                let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
                for ((a, b), e) in edges {
                    if set.contains(a) && set.contains(b) && e & (EV_ADV | EV_ITER | EV_POP) == 0 && e & mask == 0 {
                        adj[*a].push(*b);
                    }
                }
                tarjan(&adj).is_empty()
            };
            if acyc(EV_DESC) || (acyc(EV_LOOK) && acyc(EV_INC)) {
                continue;
            }
            let b = c.iter().map(|i| (f.rpo[states[*i].0], states[*i].0)).min().unwrap().1;
            let mut head = f.blocks[b].sp.clone();
            for i in &c {
                let x = &f.blocks[states[*i].0].sp;
                if line_no(x) < line_no(&head) {
                    head = x.clone();
                }
            }
            self.cur_site = head;
            self.viol("C04", "loop-without-progress", "a loop can go round without consuming input, looking further ahead or stepping a finite iterator");
        }
    }
    /// cycles of calls before any of which input is consumed
    fn early_cycles(&self, reach: Option<&HashSet<usize>>) -> Vec<Vec<usize>> {
        let n = self.ctxs.len();
        let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, c) in self.ctxs.iter().enumerate() {
            if reach.map_or(false, |r| !r.contains(&i)) {
                continue;
            }
            for (t, early) in &c.calls {
                if *early {
                    adj[i].push(*t);
                }
            }
        }
        tarjan(&adj)
    }
    pub fn check_recursion(&mut self, reach: Option<&HashSet<usize>>) {
        for c in self.early_cycles(reach) {
            let mut names: Vec<String> = c.iter().map(|i| self.ir.fns[self.ctxs[*i].key.f].name.clone()).collect();
            names.sort();
            names.dedup();
            self.record = true;
            self.cur_fn = self.ctxs[c[0]].key.f;
            self.cur_site = self.ir.fns[self.cur_fn].sp.clone();
            self.viol("C04", &format!("recursion-without-progress({})", names.join(",")), &format!("functions can call each other without consuming input: {}", names.join(" -> ")));
        }
    }
    /// re-run every context reachable from the roots with the final summaries, recording;
    /// repeated while the re-runs ask for contexts that have no summary yet
    pub fn record_from(&mut self, roots: &[usize]) -> HashSet<usize> {
        loop {
            self.viols.clear();
            self.stats = Stats::default();
            self.keys_pushed.clear();
            self.on_call.clear();
            let mut reach: HashSet<usize> = HashSet::default();
            let mut todo: Vec<usize> = roots.to_vec();
            while let Some(c) = todo.pop() {
                if !reach.insert(c) {
                    continue;
                }
                self.analyze(c, true);
                if self.gave_up.is_some() {
                    return reach;
                }
                let mut cs: Vec<usize> = self.ctxs[c].calls.keys().cloned().collect();
                cs.sort();
                todo.extend(cs);
            }
            self.stats.contexts = reach.len();
            if self.debug {
                eprintln!("recorded {} contexts, {} left", reach.len(), self.wl.len());
            }
            if self.wl.is_empty() || self.gave_up.is_some() {
                return reach;
            }
            self.run();
        }
    }
}

fn line_no(s: &str) -> u32 {
    s.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(u32::MAX)
}

/// strongly connected components with at least one internal edge
pub fn tarjan(adj: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let n = adj.len();
    let mut idx = vec![usize::MAX; n];
    let mut low = vec![0; n];
    let mut on = vec![false; n];
    let mut st = vec![];
    let mut out = vec![];
    let mut next = 0;
    for r in 0..n {
        if idx[r] != usize::MAX {
            continue;
        }
        let mut stack: Vec<(usize, usize)> = vec![(r, 0)];
        idx[r] = next;
        low[r] = next;
        next += 1;
        st.push(r);
        on[r] = true;
        while let Some((v, i)) = stack.pop() {
            if i < adj[v].len() {
                stack.push((v, i + 1));
                let w = adj[v][i];
                if idx[w] == usize::MAX {
                    idx[w] = next;
                    low[w] = next;
                    next += 1;
                    st.push(w);
                    on[w] = true;
                    stack.push((w, 0));
                } else if on[w] {
                    low[v] = low[v].min(idx[w]);
                }
            } else {
                if low[v] == idx[v] {
                    let mut c = vec![];
                    loop {
                        let w = st.pop().unwrap();
                        on[w] = false;
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    if c.len() > 1 || adj[v].contains(&v) {
                        out.push(c);
                    }
                }
                if let Some((p, _)) = stack.last() {
                    let p = *p;
                    low[p] = low[p].min(low[v]);
                }
            }
        }
    }
    out
}
fn has_snap(v: &V) -> bool {
    match v {
        V::Snap(_) | V::SnapF(..) | V::TokIdx(TokR::Off(0)) => true,
        V::Enum(_, _, f) | V::Agg(f) | V::Closure(_, f) => f.iter().any(has_snap),
        _ => false,
    }
}
