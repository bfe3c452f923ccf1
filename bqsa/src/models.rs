//! Effects of library functions on the abstract state, by normalised path.
use crate::dom::*;
use crate::exec::*;
use crate::interp::*;
use crate::ir::*;
use std::rc::Rc;

fn nvec_of(vs: &[V]) -> Option<V> {
    let mut elem: Option<NodeV> = None;
    for v in vs {
        match v {
            V::Node(n) => {
                elem = Some(match elem {
                    None => (**n).clone(),
                    Some(e) => join_node(&e, n),
                })
            }
            _ => return None,
        }
    }
    let l = vs.len().min(3) as u8;
    Some(V::NVec(Rc::new(NVecV { len: Len { lo: l, hi: l }, elem })))
}

impl<'a> Interp<'a> {
    fn one(&self, st: State, v: V) -> Outs {
        vec![(st, v)]
    }
    fn opt_fork(&self, mut st: State, v: V) -> Outs {
        if self.probe && !st.ps.advanced {
            st.ps.fuzzy = true;
        }
        vec![(st.clone(), some(v)), (st, none())]
    }
    /// a place that may panic: `safe` says whether the abstract state excludes it
    pub fn panic_site(&mut self, safe: bool, key: &str, msg: &str) {
        if self.record {
            let s = format!("{} {}", key, self.cur_site);
            self.stats.panics.insert(s);
        }
        if !safe {
            self.viol("C03", key, msg);
        }
    }
    fn target_of(&self, st: &State, v: &V) -> Option<Target> {
        let mut t = match v {
            V::Ref(t) => t.clone(),
            _ => return None,
        };
        while let V::Ref(t2) = self.read(st, &t) {
            t = t2;
        }
        Some(t)
    }
    fn node_is_vec_ty(&self, r: &FnRef) -> bool {
        r.targs.first().map(|t| self.ir.tys[*t].s.ends_with("cst::Node") || self.ir.tys[*t].s == "Node").unwrap_or(false)
    }
    fn to_iter(&mut self, st: &State, v: &V, by_ref: bool) -> V {
        let d = self.deref_all(st, v);
        match d {
            V::Agg(vs) if vs.len() == 2 && matches!(v, V::Agg(_)) && vs.iter().all(|x| matches!(x, V::Int(_) | V::IntGe(_) | V::IntTop | V::TokIdx(_) | V::LastIdx | V::TokLen | V::Top)) && !by_ref => V::Agg(vs),
            V::Agg(vs) if (by_ref || matches!(v, V::Ref(_))) && vs.iter().any(|x| x.has_nodes()) => match self.target_of(st, v) {
                // references to the elements
                Some(t) => V::CIter(
                    (0..vs.len())
                        .map(|i| {
                            let mut t = t.clone();
                            t.path.push(PathE::F(i as u32));
                            V::Ref(t)
                        })
                        .collect(),
                    0,
                ),
                None => V::Top,
            },
            V::Agg(vs) => V::CIter(vs, 0),
            V::NVec(n) | V::NIter(n) => {
                if by_ref || matches!(v, V::Ref(_)) {
                    let mut m = (*n).clone();
                    if let Some(e) = &mut m.elem {
                        e.own = Own::default();
                        e.any = true;
                        e.alts.clear();
                    }
                    V::NIter(Rc::new(m))
                } else {
                    V::NIter(n)
                }
            }
            V::PField(f) => V::Enum(intern("PIter"), 0, vec![V::PField(f)]),
            V::CIter(..) | V::Children(_) | V::Enum(..) => d,
            _ => V::Top,
        }
    }
    fn iter_next(&mut self, mut st: State, it: &V) -> Outs {
        let t = match self.target_of(&st, it) {
            Some(t) => t,
            None => {
                let mut s = st.clone();
                s.ev |= EV_ITER;
                return vec![(s, some(V::Top)), (st, none())];
            }
        };
        match self.read(&st, &t) {
            V::Children(n) => {
                let it = V::Enum(intern("KeyIter"), 0, vec![V::Children(n), V::Int(0)]);
                self.write(&mut st, &t, it);
                self.key_next(st, &t)
            }
            V::Enum(k, _, _) if k == intern("KeyIter") => self.key_next(st, &t),
            V::CIter(mut vs, i) => {
                if (i as usize) < vs.len() {
                    // a node is handed over, not copied
                    let v = if vs[i as usize].has_nodes() { std::mem::replace(&mut vs[i as usize], V::Moved) } else { vs[i as usize].clone() };
                    self.write(&mut st, &t, V::CIter(vs, i + 1));
                    st.ev |= EV_ITER;
                    self.one(st, some(v))
                } else {
                    self.one(st, none())
                }
            }
            V::Agg(vs) if vs.len() == 2 => match (&vs[0], &vs[1]) {
                (V::Int(a), V::Int(b)) => {
                    if a < b {
                        let v = vs[0].clone();
                        let n = if *a > 40 { V::IntGe(9) } else { V::Int(a + 1) };
                        self.write(&mut st, &t, V::Agg(vec![n, vs[1].clone()]));
                        st.ev |= EV_ITER;
                        self.one(st, some(v))
                    } else {
                        self.one(st, none())
                    }
                }
                _ => {
                    let mut s = st.clone();
                    let n = match &vs[0] {
                        V::Int(_) => V::IntTop,
                        x => x.clone(),
                    };
                    self.write(&mut s, &t, V::Agg(vec![n, vs[1].clone()]));
                    s.ev |= EV_ITER;
                    vec![(s, some(V::IntTop)), (st, none())]
                }
            },
            V::NIter(n) => {
                let mut out = vec![];
                if n.len.hi > 0 {
                    if let Some(e) = &n.elem {
                        let mut s = st.clone();
                        let last = n.len.hi == 1;
                        let mut rest = (*n).clone();
                        if rest.len.hi < 3 {
                            rest.len.hi -= 1;
                        }
                        rest.len.lo = rest.len.lo.saturating_sub(1);
                        let mut el = e.clone();
                        if last {
                            rest.elem = None;
                        } else if let Some(r) = &mut rest.elem {
                            r.own.cur = false;
                            r.own.cont = 0;
                            el.any = el.any;
                        }
                        self.write(&mut s, &t, V::NIter(Rc::new(rest)));
                        s.ev |= EV_ITER;
                        out.push((s, some(V::Node(Rc::new(el)))));
                    }
                }
                if n.len.lo == 0 {
                    self.write(&mut st, &t, V::NIter(Rc::new(NVecV { len: Len { lo: 0, hi: 0 }, elem: None })));
                    out.push((st, none()));
                }
                out
            }
            V::Enum(d, _, fs) if d == intern("PIter") => {
                let _ = fs;
                let mut s = st.clone();
                s.ev |= EV_ITER;
                vec![(s, some(V::TokIdx(TokR::Comment))), (st, none())]
            }
            V::Enum(d, pos, fs) if d == intern("Chars") => {
                let inner = fs.first().cloned().unwrap_or(V::Top);
                let mut out = vec![];
                if pos == 0 {
                    for (mut s, nonempty) in self.str_nonempty(st, &inner) {
                        if nonempty {
                            self.write(&mut s, &t, V::Enum(d, 1, fs.clone()));
                            s.ev |= EV_ITER;
                            out.push((s, some(V::IntTop)));
                        } else {
                            out.push((s, none()));
                        }
                    }
                } else {
                    let mut s = st.clone();
                    s.ev |= EV_ITER;
                    out.push((s, some(V::IntTop)));
                    out.push((st, none()));
                }
                out
            }
            _ => {
                let mut s = st.clone();
                s.ev |= EV_ITER;
                vec![(s, some(V::Top)), (st, none())]
            }
        }
    }
    /// split on whether a text is empty
    fn str_nonempty(&mut self, st: State, v: &V) -> Vec<(State, bool)> {
        match self.deref_all(&st, v) {
            V::Str(StrV::Const(c)) => vec![(st, !istr(c).is_empty())],
            V::Str(StrV::Tok(TokR::Off(k), _)) => {
                let mut out = vec![];
                if let Some(s) = self.meet_fact(&st, k, &TF::Neg(vec![intern("")])) {
                    out.push((s, true));
                }
                if let Some(s) = self.meet_fact(&st, k, &TF::one("")) {
                    out.push((s, false));
                }
                out
            }
            V::Str(StrV::Tok(TokR::Comment, _)) => vec![(st, true)],
            V::StrTop => vec![(st, true)],
            _ => vec![(st.clone(), true), (st, false)],
        }
    }
    fn vec_push(&mut self, st: &mut State, t: &Target, item: V) {
        let cur = self.read(st, t);
        match (cur, item) {
            (V::NVec(v), V::Node(n)) => {
                let mut v = (*v).clone();
                if n.own.bare {
                    self.pend(st, "C02", "bare-node(list)".into(), "a node in a list carries a token but was built without the comments of that token".into());
                }
                if let Some(e) = &v.elem {
                    if !st.ps.own_off && (e.own.cur && n.own.cur || e.own.cont & n.own.cont != 0) {
                        self.pend(st, "C01", "duplicated-token(list)".into(), "two nodes of one list represent the same token".into());
                    }
                    v.elem = Some(join_node(e, &n));
                } else {
                    v.elem = Some((*n).clone());
                }
                v.len = Len { lo: v.len.lo + 1, hi: v.len.hi + 1 }.norm();
                self.write(st, t, V::NVec(Rc::new(v)));
                self.settle(st);
            }
            (V::Agg(mut vs), item) => {
                if item.has_nodes() || vs.len() < 6 {
                    vs.push(item);
                    self.write(st, t, V::Agg(vs));
                } else {
                    self.write(st, t, V::Top);
                }
            }
            (V::PField(i), _) => self.parser_field_write(st, i, V::Top),
            (_, item) => {
                if item.has_nodes() {
                    st.ps.own_off = true;
                    self.undecided("node pushed into an untracked list");
                }
            }
        }
    }
    fn split_children(&mut self, st: State, t: &Target, key: u32) -> Vec<(State, bool, Kid)> {
        let unk = Kid { must: false, node: true, vec: true, types: Bits::all() };
        match self.read(&st, t) {
            V::Node(n) if !n.any => {
                let mut out = vec![];
                let mut yes = (*n).clone();
                let mut no = (*n).clone();
                let mut kid: Option<Kid> = None;
                yes.alts.retain(|_, k| k.contains_key(&key));
                for (_, k) in yes.alts.iter_mut() {
                    let m = Rc::make_mut(k);
                    let x = m.get_mut(&key).unwrap();
                    x.must = true;
                    kid = Some(match kid {
                        None => x.clone(),
                        Some(y) => Kid { must: true, node: x.node || y.node, vec: x.vec || y.vec, types: x.types.or(&y.types) },
                    });
                }
                no.alts.retain(|_, k| k.get(&key).map(|x| !x.must).unwrap_or(true));
                for (_, k) in no.alts.iter_mut() {
                    if k.contains_key(&key) {
                        Rc::make_mut(k).remove(&key);
                    }
                }
                if !yes.alts.is_empty() {
                    let mut s = st.clone();
                    self.set_node(&mut s, t, yes);
                    out.push((s, true, kid.unwrap_or(unk.clone())));
                }
                if !no.alts.is_empty() {
                    let mut s = st;
                    self.set_node(&mut s, t, no);
                    out.push((s, false, unk));
                }
                out
            }
            _ => vec![(st.clone(), true, unk.clone()), (st, false, unk)],
        }
    }
    fn set_node(&mut self, st: &mut State, t: &Target, n: NodeV) {
        let off = st.ps.own_off;
        let p = st.ps.pend.clone();
        self.write(st, t, V::Node(Rc::new(n)));
        st.ps.own_off = off;
        st.ps.pend = p;
    }
    /// node target if `v` refers to the children of a node
    fn children_of(&self, st: &State, v: &V) -> Option<Target> {
        if let V::Children(t) = v {
            return Some(t.clone());
        }
        if let V::Ref(t) = v {
            if t.path.last() == Some(&PathE::F(self.node_f.2)) {
                let mut n = t.clone();
                n.path.pop();
                // step through references to the node
                loop {
                    match self.read(st, &n) {
                        V::Ref(t2) => n = t2,
                        _ => break,
                    }
                }
                return Some(n);
            }
            if let V::Children(t) = self.read(st, t) {
                return Some(t);
            }
        }
        None
    }
    fn content(&self, k: &Kid) -> Vec<V> {
        let n = NodeV { any: true, alts: Default::default(), own: Own::default() };
        let mut r = vec![];
        if k.node {
            r.push(V::Enum(intern("ContentType"), 0, vec![V::Node(Rc::new(n.clone()))]));
        }
        if k.vec {
            r.push(V::Enum(intern("ContentType"), 1, vec![V::NVec(Rc::new(NVecV { len: Len { lo: 0, hi: 3 }, elem: Some(n) }))]));
        }
        r
    }
    fn is_true(&self, v: &V) -> (bool, bool) {
        match v {
            V::Bool(b) => (*b, !*b),
            _ => (true, true),
        }
    }
    /// any / all over known elements
    fn quantify(&mut self, st: State, elems: &[V], f: &V, any: bool) -> Outs {
        let mut cur = vec![st];
        let mut out = vec![];
        for e in elems {
            let mut nx = vec![];
            for s in cur {
                for (s2, v) in self.call_value_or_closure(s, f, vec![e.clone()]) {
                    let (t, fl) = self.is_true(&v);
                    if t {
                        if any {
                            out.push((s2.clone(), V::Bool(true)));
                        } else {
                            nx.push(s2.clone());
                        }
                    }
                    if fl {
                        if any {
                            nx.push(s2);
                        } else {
                            out.push((s2, V::Bool(false)));
                        }
                    }
                }
            }
            cur = nx;
        }
        for s in cur {
            out.push((s, V::Bool(!any)));
        }
        out
    }
    pub fn call_value_or_closure(&mut self, st: State, f: &V, args: Vec<V>) -> Outs {
        let d = self.deref_all(&st, f);
        match d {
            V::Closure(..) => self.call_closure(st, f.clone(), args),
            V::Fn(_) => self.call_value(st, d, args),
            V::FnStd(n) => {
                let name = istr(n);
                let r = FnRef { path: name.clone(), norm: name, res: None, local: false, id: -1, targs: vec![], is_unsafe: false, krate: String::new() };
                self.model_std(st, &r, args)
            }
            _ => {
                let mut st = st;
                self.escape(&mut st, &args);
                vec![(st, V::Top)]
            }
        }
    }
    /// split an Option/Result value into its variants; unknown values give both
    fn variants(&self, st: &State, v: &V, adt: &str) -> Vec<(u32, V)> {
        let d = self.deref_all(st, v);
        match d {
            V::Enum(_, x, fs) => vec![(x, fs.first().cloned().unwrap_or(V::Top))],
            _ => {
                let inner = if d == V::Opq { V::Opq } else { V::Top };
                let _ = adt;
                vec![(0, inner.clone()), (1, inner)]
            }
        }
    }
    pub fn model(&mut self, _caller: &Func, st: State, r: &FnRef, args: Vec<V>) -> Outs {
        self.model_std(st, r, args)
    }
    pub fn model_std(&mut self, mut st: State, r: &FnRef, args: Vec<V>) -> Outs {
        let t2 = tail2(&r.norm).replace("[T]::", "slice::");
        let name = t2.rsplit("::").next().unwrap_or("").to_string();
        let owner = t2.split("::").next().unwrap_or("").to_string();
        let a0 = args.first().cloned().unwrap_or(V::Top);
        let a1 = args.get(1).cloned().unwrap_or(V::Top);
        let res = r.res.clone().unwrap_or_default();
        if matches!(t2.as_str(), "Vec::is_empty" | "slice::is_empty" | "Vec::len" | "slice::len" | "slice::first" | "slice::last" | "Vec::last" | "slice::get" | "slice::contains" | "Vec::contains") {
            if let V::PField(i) = self.deref_all(&st, &a0) {
                if (i == self.par_f.1 || i == self.par_f.2) && !self.in_prims() {
                    self.viol("C09", "comment-list", "what the parser does depends on which comments there are at the current token");
                }
            }
        }
        if matches!(t2.as_str(), "HashMap::contains_key" | "HashMap::get") {
            if let V::Str(StrV::Const(c)) = self.deref_all(&st, &a1) {
                if matches!(istr(c).as_str(), "leading_comments" | "trailing_comments") && !self.in_prims() {
                    self.viol("C09", "comment-child", "what the parser does depends on which comments a node has");
                }
            }
        }
        match t2.as_str() {
            "Try::branch" => {
                let d = self.deref_all(&st, &a0);
                let cf = intern("ControlFlow");
                return match &d {
                    V::Enum(e, v, fs) => {
                        let is_opt = *e == intern("Option");
                        let good = (*v == 1) == is_opt;
                        if good {
                            let inner = fs.first().cloned().unwrap_or(V::Top);
                            self.one(st, V::Enum(cf, 0, vec![inner]))
                        } else {
                            self.one(st, V::Enum(cf, 1, vec![if is_opt { none() } else { err() }]))
                        }
                    }
                    x => {
                        let inner = if *x == V::Opq { V::Opq } else { V::Top };
                        vec![(st.clone(), V::Enum(cf, 0, vec![inner])), (st, V::Enum(cf, 1, vec![V::Top]))]
                    }
                };
            }
            "FromResidual::from_residual" => {
                return if res.contains("option::Option<T> as") { self.one(st, none()) } else { self.one(st, err()) };
            }
            "PartialEq::eq" | "PartialEq::ne" => {
                let neg = name == "ne";
                return self.eq_any(st, &a0, &a1, neg);
            }
            "Deref::deref" | "DerefMut::deref_mut" | "String::as_str" | "AsRef::as_ref" | "Borrow::borrow" | "Vec::as_slice" | "Vec::as_mut_slice" | "String::as_mut_str" => {
                return self.one(st, a0);
            }
            "ToString::to_string" | "ToOwned::to_owned" | "From::from" | "Into::into" | "str::to_owned" | "str::into_string" | "String::from" | "hint::must_use" | "convert::identity" | "str::to_string" | "Box::new" | "Vec::into_boxed_slice" | "slice::to_vec" | "slice::into_vec" | "Rc::new" => {
                let v = match &a0 {
                    V::Ref(_) => {
                        let d = self.deref_all(&st, &a0);
                        if d.has_nodes() {
                            a0
                        } else {
                            d
                        }
                    }
                    // a list made from an array of nodes
                    V::Agg(vs) if !vs.is_empty() && vs.iter().all(|x| matches!(x, V::Node(_))) && matches!(t2.as_str(), "From::from" | "Into::into" | "slice::into_vec") => nvec_of(vs).unwrap_or(V::Agg(vs.clone())),
                    v => v.clone(),
                };
                return self.one(st, v);
            }
            "Iterator::collect" if matches!(&a0, V::CIter(vs, i) if (*i as usize) < vs.len() && vs[*i as usize..].iter().all(|x| matches!(x, V::Node(_)))) => {
                let v = match &a0 {
                    V::CIter(vs, i) => nvec_of(&vs[*i as usize..]).unwrap_or(V::Top),
                    _ => V::Top,
                };
                return self.one(st, v);
            }
            "Iterator::collect" if matches!(&a0, V::NIter(n) if n.elem.as_ref().map_or(true, |e| !e.any)) => {
                let v = match a0 {
                    V::NIter(n) => V::NVec(n),
                    v => v,
                };
                return self.one(st, v);
            }
            "str::to_uppercase" | "str::to_ascii_uppercase" => {
                let d = self.deref_all(&st, &a0);
                let v = match d {
                    V::Str(StrV::Tok(k, _)) => V::Str(StrV::Tok(k, true)),
                    V::Str(StrV::Const(c)) => V::Str(StrV::Const(intern(&istr(c).to_uppercase()))),
                    _ => V::Top,
                };
                return self.one(st, v);
            }
            "str::to_lowercase" | "str::to_ascii_lowercase" => {
                let d = self.deref_all(&st, &a0);
                let v = match d {
                    V::Str(StrV::Tok(k, _)) => V::Enum(intern("Lower"), 0, vec![V::Str(StrV::Tok(k, true))]),
                    V::Str(StrV::Const(c)) => V::Str(StrV::Const(intern(&istr(c).to_lowercase()))),
                    _ => V::Top,
                };
                return self.one(st, v);
            }
            "str::eq_ignore_ascii_case" => {
                let up = |x: V| match x {
                    V::Str(StrV::Tok(k, _)) => V::Str(StrV::Tok(k, true)),
                    V::Str(StrV::Const(c)) => V::Str(StrV::Const(intern(&istr(c).to_uppercase()))),
                    o => o,
                };
                let x = up(self.deref_all(&st, &a0));
                let y = up(self.deref_all(&st, &a1));
                return self.eq_vals(st, &x, &y, false);
            }
            "str::chars" => {
                let d = self.deref_all(&st, &a0);
                return self.one(st, V::Enum(intern("Chars"), 0, vec![d]));
            }
            "str::is_empty" | "String::is_empty" => {
                return self.str_nonempty(st, &a0).into_iter().map(|(s, n)| (s, V::Bool(!n))).collect();
            }
            "str::len" | "String::len" | "Iterator::count" => return self.one(st, V::IntTop),
            "Iterator::last" => {
                let d = self.deref_all(&st, &a0);
                if let V::Enum(c, 0, fs) = &d {
                    if *c == intern("Chars") {
                        return self.str_nonempty(st, &fs[0]).into_iter().map(|(s, n)| (s, if n { some(V::IntTop) } else { none() })).collect();
                    }
                }
                return self.opt_fork(st, V::Top);
            }
            "Box::new_uninit" => return self.one(st, V::Uninit),
            "boxed::box_assume_init_into_vec_unsafe" => {
                let v = match a0 {
                    V::Agg(vs) => {
                        if vs.iter().any(|x| matches!(x, V::Node(_))) {
                            nvec_of(&vs).unwrap_or(V::Agg(vs))
                        } else {
                            V::Agg(vs)
                        }
                    }
                    v => v,
                };
                if let V::NVec(n) = &v {
                    if n.elem.as_ref().map(|e| e.own.bare).unwrap_or(false) {
                        self.pend(&mut st, "C02", "bare-node(list)".into(), "a node in a list carries a token but was built without the comments of that token".into());
                    }
                }
                return self.one(st, v);
            }
            "Vec::new" | "Vec::with_capacity" => {
                let v = if self.node_is_vec_ty(r) { V::NVec(Rc::new(NVecV { len: Len { lo: 0, hi: 0 }, elem: None })) } else { V::Agg(vec![]) };
                return self.one(st, v);
            }
            "Vec::push" => {
                if let Some(t) = self.target_of(&st, &a0) {
                    self.vec_push(&mut st, &t, a1);
                } else if a1.has_nodes() {
                    st.ps.own_off = true;
                    self.undecided("node pushed into an untracked list");
                } else if let V::PField(i) = a0 {
                    self.parser_field_write(&mut st, i, V::Top);
                }
                return self.one(st, V::Agg(vec![]));
            }
            "Vec::insert" => {
                let a2 = args.get(2).cloned().unwrap_or(V::Top);
                if let Some(t) = self.target_of(&st, &a0) {
                    if a2.has_nodes() {
                        self.vec_push(&mut st, &t, a2);
                    } else {
                        self.write(&mut st, &t, V::Top);
                    }
                }
                return self.one(st, V::Agg(vec![]));
            }
            "Vec::extend" | "Extend::extend" | "Vec::append" | "Vec::extend_from_slice" => {
                if let Some(t) = self.target_of(&st, &a0) {
                    let src = self.deref_all(&st, &a1);
                    let src = match src {
                        V::CIter(vs, 0) | V::Agg(vs) if !vs.is_empty() && vs.iter().all(|x| matches!(x, V::Node(_))) => nvec_of(&vs).unwrap_or(V::Top),
                        x => x,
                    };
                    match (self.read(&st, &t), src) {
                        (V::NVec(x), V::NVec(y)) | (V::NVec(x), V::NIter(y)) => {
                            let elem = match (&x.elem, &y.elem) {
                                (Some(a), Some(b)) => Some(join_node(a, b)),
                                (Some(a), None) | (None, Some(a)) => Some(a.clone()),
                                _ => None,
                            };
                            let len = Len { lo: x.len.lo + y.len.lo, hi: x.len.hi + y.len.hi }.norm();
                            self.write(&mut st, &t, V::NVec(Rc::new(NVecV { len, elem })));
                            if let (Some(t1), "append") = (self.target_of(&st, &a1), name.as_str()) {
                                self.write(&mut st, &t1, V::NVec(Rc::new(NVecV { len: Len { lo: 0, hi: 0 }, elem: None })));
                            }
                            self.settle(&mut st);
                        }
                        (_, y) => {
                            if y.has_nodes() {
                                st.ps.own_off = true;
                                self.undecided("nodes appended to an untracked list");
                            }
                        }
                    }
                }
                return self.one(st, V::Agg(vec![]));
            }
            "Vec::pop" | "Vec::remove" | "Vec::swap_remove" => {
                let opt = name == "pop";
                let wrap = |v: V| if opt { some(v) } else { v };
                if let Some(t) = self.target_of(&st, &a0) {
                    match self.read(&st, &t) {
                        V::NVec(v) => {
                            let mut out = vec![];
                            if v.len.hi > 0 && v.elem.is_some() {
                                let mut s = st.clone();
                                let mut rest = (*v).clone();
                                let el = v.elem.clone().unwrap();
                                if v.len.hi == 1 {
                                    rest.elem = None;
                                } else if let Some(e) = &mut rest.elem {
                                    e.own.cur = false;
                                    e.own.cont = 0;
                                }
                                if rest.len.hi < 3 {
                                    rest.len.hi -= 1;
                                }
                                rest.len.lo = rest.len.lo.saturating_sub(1);
                                self.write(&mut s, &t, V::NVec(Rc::new(rest)));
                                s.ev |= EV_POP;
                                out.push((s, wrap(V::Node(Rc::new(el)))));
                            }
                            if v.len.lo == 0 {
                                if opt {
                                    let mut s = st;
                                    self.write(&mut s, &t, V::NVec(Rc::new(NVecV { len: Len { lo: 0, hi: 0 }, elem: None })));
                                    out.push((s, none()));
                                } else {
                                    self.panic_site(false, "vec-remove", "removal from a list that may be too short");
                                }
                            }
                            return out;
                        }
                        V::Agg(mut vs) => {
                            if let Some(x) = vs.pop() {
                                self.write(&mut st, &t, V::Agg(vs));
                                st.ev |= EV_POP;
                                return self.one(st, wrap(x));
                            }
                            return self.one(st, none());
                        }
                        _ => {}
                    }
                }
                let mut s = st.clone();
                s.ev |= EV_POP;
                return vec![(s, wrap(V::Top)), (st, none())];
            }
            "Vec::clear" | "Vec::truncate" => {
                if let Some(t) = self.target_of(&st, &a0) {
                    let v = self.read(&st, &t);
                    if let V::PField(i) = v {
                        self.parser_field_write(&mut st, i, V::Top);
                    } else if v.has_nodes() {
                        self.write(&mut st, &t, V::NVec(Rc::new(NVecV { len: Len { lo: 0, hi: 3 }, elem: None })));
                        self.drop_val(&mut st, v);
                    } else {
                        self.write(&mut st, &t, V::Agg(vec![]));
                    }
                }
                return self.one(st, V::Agg(vec![]));
            }
            "Vec::len" | "slice::len" => {
                let d = self.deref_all(&st, &a0);
                let v = match &d {
                    V::PField(i) if *i == self.par_f.3 => V::TokLen,
                    V::NVec(n) if n.len.lo == n.len.hi && n.len.hi < 3 => V::Int(n.len.lo as i128),
                    V::NVec(n) => match self.target_of(&st, &a0) {
                        Some(t) => V::VLen(t),
                        None => V::IntGe(n.len.lo as i128),
                    },
                    V::Agg(vs) => V::Int(vs.len() as i128),
                    _ => V::IntTop,
                };
                return self.one(st, v);
            }
            "Vec::is_empty" | "slice::is_empty" => {
                if let Some(t) = self.target_of(&st, &a0) {
                    if let V::NVec(n) = self.read(&st, &t) {
                        let mut out = vec![];
                        if n.len.lo == 0 {
                            let mut s = st.clone();
                            let mut m = (*n).clone();
                            m.len.hi = 0;
                            if m.elem.as_ref().map(|e| e.own.none()).unwrap_or(true) {
                                m.elem = None;
                                self.write(&mut s, &t, V::NVec(Rc::new(m)));
                                out.push((s, V::Bool(true)));
                            }
                        }
                        if n.len.hi > 0 {
                            let mut m = (*n).clone();
                            m.len.lo = m.len.lo.max(1);
                            self.write(&mut st, &t, V::NVec(Rc::new(m)));
                            out.push((st, V::Bool(false)));
                        }
                        return out;
                    }
                }
                return match self.deref_all(&st, &a0) {
                    V::Agg(vs) => self.one(st, V::Bool(vs.is_empty())),
                    V::PField(i) if i == self.par_f.3 => self.one(st, V::Bool(false)),
                    _ => self.fork_bool(st),
                };
            }
            "slice::last" | "slice::first" | "Vec::last" | "slice::get" => {
                let d = self.deref_all(&st, &a0);
                return match &d {
                    V::PField(i) if *i == self.par_f.3 => {
                        if name == "last" {
                            self.one(st, some(V::Tok(TokR::Unknown)))
                        } else {
                            let k = match self.deref_all(&st, &a1) {
                                V::TokIdx(TokR::P1(_)) => TokR::Raw,
                                V::TokIdx(k) => k,
                                _ => TokR::Raw,
                            };
                            if matches!(k, TokR::Off(_)) {
                                self.one(st, some(V::Tok(k)))
                            } else {
                                self.opt_fork(st, V::Tok(k))
                            }
                        }
                    }
                    V::PField(_) => self.opt_fork(st, V::TokIdx(TokR::Comment)),
                    V::NVec(n) => {
                        let e = V::Node(Rc::new(NodeV { any: true, alts: Default::default(), own: Own::default() }));
                        if n.len.lo > 0 {
                            self.one(st, some(e))
                        } else if n.len.hi == 0 {
                            self.one(st, none())
                        } else {
                            self.opt_fork(st, e)
                        }
                    }
                    V::Agg(vs) => match if name == "last" { vs.last() } else { vs.first() } {
                        Some(v) if name != "get" => {
                            let v = v.clone();
                            self.one(st, some(v))
                        }
                        None => self.one(st, none()),
                        _ => self.opt_fork(st, V::Top),
                    },
                    _ => self.opt_fork(st, V::Top),
                };
            }
            "slice::last_mut" | "slice::first_mut" | "slice::get_mut" => {
                if let Some(t) = self.target_of(&st, &a0) {
                    let v = self.read(&st, &t);
                    let mut e = t.clone();
                    e.path.push(PathE::Elem);
                    match v {
                        V::NVec(n) if n.len.lo > 0 => return self.one(st, some(V::Ref(e))),
                        V::NVec(n) if n.len.hi == 0 => return self.one(st, none()),
                        V::NVec(_) => return self.opt_fork(st, V::Ref(e)),
                        _ => {}
                    }
                }
                return self.opt_fork(st, V::Top);
            }
            "slice::contains" | "Vec::contains" => {
                let d = self.deref_all(&st, &a0);
                if let V::Agg(vs) = d {
                    let mut cur = vec![st];
                    let mut out = vec![];
                    for e in vs {
                        let mut nx = vec![];
                        for s in cur {
                            for (s2, v) in self.eq_any(s, &a1, &e, false) {
                                let (t, f) = self.is_true(&v);
                                if t {
                                    out.push((s2.clone(), V::Bool(true)));
                                }
                                if f {
                                    nx.push(s2);
                                }
                            }
                        }
                        cur = nx;
                    }
                    for s in cur {
                        out.push((s, V::Bool(false)));
                    }
                    return out;
                }
                return self.fork_bool(st);
            }
            "Index::index" | "IndexMut::index_mut" => {
                let d = self.deref_all(&st, &a0);
                let i = self.deref_all(&st, &a1);
                return match (&d, &i) {
                    (V::PField(f), V::TokIdx(k)) if *f == self.par_f.3 => {
                        let k = if matches!(k, TokR::P1(_)) { TokR::Raw } else { *k };
                        self.panic_site(matches!(k, TokR::Off(_) | TokR::Comment | TokR::Unknown), "token-index", "the token list is indexed with a position that may lie beyond its end");
                        self.one(st, V::Tok(k))
                    }
                    (V::PField(f), V::LastIdx) if *f == self.par_f.3 => {
                        self.panic_site(true, "token-index", "");
                        self.one(st, V::Tok(TokR::Unknown))
                    }
                    (V::PField(f), _) if *f == self.par_f.3 => {
                        self.panic_site(false, "token-index", "the token list is indexed with a computed position that may lie beyond its end");
                        self.one(st, V::Tok(TokR::Raw))
                    }
                    (V::Agg(vs), V::Int(n)) => {
                        let v = vs.get(*n as usize).cloned();
                        self.panic_site(v.is_some(), "index", "indexing beyond the end");
                        match v {
                            Some(v) => self.one(st, v),
                            None => vec![],
                        }
                    }
                    (V::NVec(n), _) => {
                        let safe = matches!(&i, V::Int(x) if *x >= 0 && (*x as u128) < n.len.lo as u128);
                        self.panic_site(safe, "index", "a list is indexed at a position it may not have");
                        if let Some(mut t) = self.target_of(&st, &a0) {
                            t.path.push(PathE::Elem);
                            return self.one(st, V::Ref(t));
                        }
                        self.one(st, V::Top)
                    }
                    _ => {
                        self.panic_site(false, "index", "indexing with a position that is not shown to be in range");
                        self.one(st, V::Top)
                    }
                };
            }
            "IntoIterator::into_iter" | "slice::iter" | "slice::iter_mut" | "Vec::iter" | "Vec::drain" => {
                let by_ref = name.starts_with("iter");
                let v = self.to_iter(&st, &a0, by_ref);
                return self.one(st, v);
            }
            "Iterator::next" => return self.iter_next(st, &a0),
            "Iterator::any" | "Iterator::all" => {
                let any = name == "any";
                let d = self.deref_all(&st, &a0);
                match d {
                    V::CIter(vs, i) => {
                        let es: Vec<V> = vs[(i as usize).min(vs.len())..].to_vec();
                        return self.quantify(st, &es, &a1, any);
                    }
                    V::Children(t) if any => return self.any_key(st, &t, &a1, false),
                    V::Enum(k, 1, fs) if any && k == intern("KeyIter") => {
                        if let V::Children(t) = &fs[0] {
                            return self.any_key(st, t, &a1, true);
                        }
                        return self.fork_bool(st);
                    }
                    _ => return self.fork_bool(st),
                }
            }
            "Iterator::find" => match self.deref_all(&st, &a0) {
                V::Children(t) => return self.any_key(st, &t, &a1, false).into_iter().map(|(s, b)| (s, if b == V::Bool(true) { some(V::Top) } else { none() })).collect(),
                V::Enum(k, 1, fs) if k == intern("KeyIter") => {
                    if let V::Children(t) = &fs[0] {
                        return self.any_key(st, t, &a1, true).into_iter().map(|(s, b)| (s, if b == V::Bool(true) { some(V::Top) } else { none() })).collect();
                    }
                    return self.opt_fork(st, V::Top);
                }
                _ => return self.opt_fork(st, V::Top),
            },
            "Iterator::position" => {
                if let V::CIter(vs, i) = self.deref_all(&st, &a0) {
                    let es: Vec<V> = vs[(i as usize).min(vs.len())..].to_vec();
                    let mut cur = vec![st];
                    let mut out = vec![];
                    for (n, e) in es.iter().enumerate() {
                        let mut nx = vec![];
                        for s in cur {
                            for (s2, v) in self.call_value_or_closure(s, &a1, vec![e.clone()]) {
                                let (t, f) = self.is_true(&v);
                                if t {
                                    out.push((s2.clone(), some(V::Int(n as i128))));
                                }
                                if f {
                                    nx.push(s2);
                                }
                            }
                        }
                        cur = nx;
                    }
                    out.extend(cur.into_iter().map(|s| (s, none())));
                    return out;
                }
                return self.opt_fork(st, V::IntTop);
            }
            "Iterator::contains" => return self.fork_bool(st),
            "HashMap::new" | "HashMap::with_capacity" | "Default::default" => {
                if t2 == "Default::default" && !res.contains("HashMap") {
                    return self.one(st, V::Top);
                }
                return self.one(st, V::EmptyMap);
            }
            "HashMap::insert" => {
                let a2 = args.get(2).cloned().unwrap_or(V::Top);
                if let Some(n) = self.children_of(&st, &a0) {
                    let key = self.deref_all(&st, &a1);
                    self.link(&mut st, &n, key, a2);
                    return self.one(st, none());
                }
                self.escape(&mut st, &[a2]);
                return self.one(st, none());
            }
            "HashMap::entry" => return self.one(st, V::Enum(intern("MapEntry"), 0, vec![a0, a1])),
            "Entry::or_insert" | "Entry::insert_entry" => {
                if let V::Enum(_, _, fs) = &a0 {
                    if let Some(n) = self.children_of(&st, &fs[0]) {
                        let key = self.deref_all(&st, &fs[1]);
                        self.link(&mut st, &n, key, a1);
                        return self.one(st, V::Top);
                    }
                }
                self.escape(&mut st, &[a1]);
                return self.one(st, V::Top);
            }
            "HashMap::keys" | "HashMap::into_keys" => {
                if let Some(n) = self.children_of(&st, &a0) {
                    return self.one(st, V::Children(n));
                }
                return self.one(st, V::Top);
            }
            "HashMap::iter" => {
                if let Some(n) = self.children_of(&st, &a0) {
                    return self.one(st, V::Enum(intern("KeyIter"), 1, vec![V::Children(n), V::Int(0)]));
                }
                return self.one(st, V::Top);
            }
            "HashMap::contains_key" => {
                if let (Some(n), V::Str(StrV::Const(k))) = (self.children_of(&st, &a0), self.deref_all(&st, &a1)) {
                    return self.split_children(st, &n, k).into_iter().map(|(s, b, _)| (s, V::Bool(b))).collect();
                }
                return self.fork_bool(st);
            }
            "HashMap::get" | "HashMap::get_mut" | "HashMap::remove" => {
                if let (Some(n), V::Str(StrV::Const(k))) = (self.children_of(&st, &a0), self.deref_all(&st, &a1)) {
                    let mut out = vec![];
                    for (mut s, b, kid) in self.split_children(st, &n, k) {
                        if !b {
                            out.push((s, none()));
                            continue;
                        }
                        s.ev |= EV_DESC;
                        if name == "remove" {
                            if let V::Node(nd) = self.read(&s, &n) {
                                let mut nd = (*nd).clone();
                                for (_, ks) in nd.alts.iter_mut() {
                                    Rc::make_mut(ks).remove(&k);
                                }
                                self.set_node(&mut s, &n, nd);
                            }
                        }
                        for c in self.content(&kid) {
                            let mut c = c;
                            if name == "remove" {
                                c.map_own(&mut |_| Own { settled: true, ..Own::default() });
                            }
                            out.push((s.clone(), some(c)));
                        }
                    }
                    return out;
                }
                return self.opt_fork(st, V::Top);
            }
            "Clone::clone" => {
                // field of the parser or the parser itself
                let d = self.deref_all(&st, &a0);
                return match d {
                    V::Parser => {
                        let s = SnapV { stale: false, facts: st.ps.facts.clone(), advanced: st.ps.advanced };
                        self.one(st, V::Snap(Rc::new(s)))
                    }
                    V::PField(i) => {
                        let s = SnapV { stale: false, facts: st.ps.facts.clone(), advanced: st.ps.advanced };
                        self.one(st, V::SnapF(i, Rc::new(s)))
                    }
                    V::Node(_) | V::NVec(_) => {
                        let t = self.target_of(&st, &a0);
                        let mut v = d.clone();
                        let o = v.total_own();
                        if let (Some(t), true) = (t, o.settled) {
                            if let Some(b) = self.alloc_bit(&st, 0) {
                                let mut orig = d.clone();
                                let mut f = |o: &Own| Own { settled: false, cont: o.cont | b, ..*o };
                                orig.map_own(&mut f);
                                v.map_own(&mut f);
                                self.write(&mut st, &t, orig);
                            } else {
                                st.ps.own_off = true;
                                self.undecided("too many contested tokens");
                            }
                        }
                        self.one(st, v)
                    }
                    V::Enum(..) | V::Agg(_) if d.has_nodes() => {
                        st.ps.own_off = true;
                        self.undecided("clone of an aggregate holding nodes");
                        self.one(st, d)
                    }
                    d => self.one(st, d),
                };
            }
            "mem::replace" | "Option::replace" => {
                if let Some(t) = self.target_of(&st, &a0) {
                    let old = self.read(&st, &t);
                    if let V::PField(i) = old {
                        self.parser_field_write(&mut st, i, a1);
                        let s = SnapV { stale: false, facts: st.ps.facts.clone(), advanced: st.ps.advanced };
                        return self.one(st, V::SnapF(i, Rc::new(s)));
                    }
                    if let V::Parser = old {
                        let s = SnapV { stale: false, facts: st.ps.facts.clone(), advanced: st.ps.advanced };
                        self.write(&mut st, &t, a1);
                        return self.one(st, V::Snap(Rc::new(s)));
                    }
                    let nv = if owner == "Option" { some(a1) } else { a1 };
                    self.write(&mut st, &t, nv);
                    return self.one(st, old);
                }
                self.escape(&mut st, &args);
                return self.one(st, V::Top);
            }
            "mem::take" | "Option::take" => {
                if let Some(t) = self.target_of(&st, &a0) {
                    let old = self.read(&st, &t);
                    let nv = match &old {
                        V::NVec(_) => V::NVec(Rc::new(NVecV { len: Len { lo: 0, hi: 0 }, elem: None })),
                        V::PField(i) => {
                            let i = *i;
                            self.parser_field_write(&mut st, i, V::Top);
                            let s = SnapV { stale: false, facts: st.ps.facts.clone(), advanced: st.ps.advanced };
                            return self.one(st, V::SnapF(i, Rc::new(s)));
                        }
                        V::Enum(e, ..) if *e == intern("Option") => none(),
                        V::Bool(_) | V::BoolTop => V::Bool(false),
                        V::Agg(_) => V::Agg(vec![]),
                        _ => {
                            if owner == "Option" {
                                none()
                            } else {
                                V::Top
                            }
                        }
                    };
                    self.write(&mut st, &t, nv);
                    return self.one(st, old);
                }
                return self.one(st, V::Top);
            }
            "mem::swap" => {
                if let (Some(x), Some(y)) = (self.target_of(&st, &a0), self.target_of(&st, &a1)) {
                    let (vx, vy) = (self.read(&st, &x), self.read(&st, &y));
                    self.write(&mut st, &x, vy);
                    self.write(&mut st, &y, vx);
                    return self.one(st, V::Agg(vec![]));
                }
                self.escape(&mut st, &args);
                return self.one(st, V::Agg(vec![]));
            }
            "mem::drop" => {
                self.drop_val(&mut st, a0);
                return self.one(st, V::Agg(vec![]));
            }
            "fmt::format" | "slice::join" | "str::repeat" => return self.one(st, V::StrTop),
            "FnOnce::call_once" | "FnMut::call_mut" | "Fn::call" => {
                let a = match self.deref_all(&st, &a1) {
                    V::Agg(vs) => vs,
                    v => vec![v],
                };
                return self.call_value_or_closure(st, &a0, a);
            }
            "panicking::panic_fmt" | "panicking::panic" | "panicking::panic_default_msg" | "panicking::panic_explicit" | "panicking::unreachable_display" | "panicking::panic_display" => {
                self.panic_site(false, "panic", "an explicit panic is reachable");
                return vec![];
            }
            _ => {}
        }
        // Option / Result combinators
        if owner == "Option" || owner == "Result" {
            let isopt = owner == "Option";
            let good: u32 = if isopt { 1 } else { 0 };
            let mk_good = |v: V| if isopt { some(v) } else { ok(v) };
            let mk_bad = || if isopt { none() } else { err() };
            let raw = self.deref_all(&st, &a0);
            let vs = self.variants(&st, &a0, &owner);
            let known = matches!(raw, V::Enum(..));
            let mut out: Outs = vec![];
            for (x, inner) in vs {
                let mut s = st.clone();
                let g = x == good;
                match name.as_str() {
                    "unwrap" | "expect" => {
                        if g {
                            out.push((s, inner));
                        } else if self.serialised(&raw) {
                        } else {
                            let what = if known { "may be empty here" } else { "is not shown to be present" };
                            self.panic_site(false, &name, &format!("{}() on a value that {}", name, what));
                        }
                        if g {
                            self.panic_site(true, &name, "");
                        }
                    }
                    "is_some" | "is_ok" => out.push((s, V::Bool(g))),
                    "is_none" | "is_err" => out.push((s, V::Bool(!g))),
                    "ok" => out.push((s, if g { some(inner) } else { none() })),
                    "err" => out.push((s, if g { none() } else { some(V::Top) })),
                    "as_ref" | "as_mut" | "as_deref" | "as_deref_mut" => {
                        if g {
                            let v = match self.target_of(&s, &a0) {
                                Some(mut t) if known => {
                                    t.path.push(PathE::F(0));
                                    V::Ref(t)
                                }
                                _ => inner,
                            };
                            out.push((s, mk_good(v)));
                        } else {
                            out.push((s, mk_bad()));
                        }
                    }
                    "unwrap_or" | "unwrap_or_default" | "unwrap_or_else" | "map_or" | "map_or_else" => {
                        if name == "map_or" && g {
                            let f = args.get(2).cloned().unwrap_or(V::Top);
                            out.extend(self.call_value_or_closure(s, &f, vec![inner]));
                        } else if name == "map_or_else" && g {
                            let f = args.get(2).cloned().unwrap_or(V::Top);
                            out.extend(self.call_value_or_closure(s, &f, vec![inner]));
                        } else if g {
                            self.drop_val(&mut s, a1.clone());
                            out.push((s, inner));
                        } else if name == "unwrap_or" || name == "map_or" {
                            out.push((s, a1.clone()));
                        } else if name == "unwrap_or_default" {
                            out.push((s, V::Top));
                        } else {
                            let a = if isopt { vec![] } else { vec![V::Top] };
                            out.extend(self.call_value_or_closure(s, &a1, a));
                        }
                    }
                    "map" => {
                        if g {
                            for (s2, v) in self.call_value_or_closure(s, &a1, vec![inner]) {
                                out.push((s2, mk_good(v)));
                            }
                        } else {
                            out.push((s, mk_bad()));
                        }
                    }
                    "and_then" => {
                        if g {
                            out.extend(self.call_value_or_closure(s, &a1, vec![inner]));
                        } else {
                            out.push((s, mk_bad()));
                        }
                    }
                    "map_err" => {
                        if g {
                            out.push((s, ok(inner)));
                        } else {
                            for (s2, _) in self.call_value_or_closure(s, &a1, vec![V::Top]) {
                                out.push((s2, err()));
                            }
                        }
                    }
                    "or_else" => {
                        if g {
                            out.push((s, mk_good(inner)));
                        } else {
                            let a = if isopt { vec![] } else { vec![V::Top] };
                            out.extend(self.call_value_or_closure(s, &a1, a));
                        }
                    }
                    "or" => out.push(if g { (s, mk_good(inner)) } else { (s, a1.clone()) }),
                    "ok_or" => out.push((s, if g { ok(inner) } else { err() })),
                    "ok_or_else" => {
                        if g {
                            out.push((s, ok(inner)));
                        } else {
                            for (s2, _) in self.call_value_or_closure(s, &a1, vec![]) {
                                out.push((s2, err()));
                            }
                        }
                    }
                    "is_some_and" | "is_ok_and" => {
                        if g {
                            out.extend(self.call_value_or_closure(s, &a1, vec![inner]));
                        } else {
                            out.push((s, V::Bool(false)));
                        }
                    }
                    "copied" | "cloned" => out.push((s, if g { mk_good(inner) } else { mk_bad() })),
                    "filter" => {
                        if g {
                            for (s2, v) in self.call_value_or_closure(s, &a1, vec![inner.clone()]) {
                                let (t, f) = self.is_true(&v);
                                if t {
                                    out.push((s2.clone(), some(inner.clone())));
                                }
                                if f {
                                    out.push((s2, none()));
                                }
                            }
                        } else {
                            out.push((s, none()));
                        }
                    }
                    _ => {
                        self.escape(&mut s, &args);
                        out.push((s, V::Top));
                    }
                }
            }
            return out;
        }
        if name == "then" && owner == "bool" {
            let mut out = vec![];
            let (t, f) = self.is_true(&self.deref_all(&st, &a0));
            if f {
                out.push((st.clone(), none()));
            }
            if t {
                for (s, v) in self.call_value_or_closure(st, &a1, vec![]) {
                    out.push((s, some(v)));
                }
            }
            return out;
        }
        if t2.starts_with("Argument::") || t2.starts_with("Arguments::") {
            return self.one(st, V::Top);
        }
        if owner == "PartialOrd" || owner == "Ord" {
            let op = match name.as_str() {
                "lt" => "Lt",
                "le" => "Le",
                "gt" => "Gt",
                "ge" => "Ge",
                _ => return self.one(st, V::Top),
            };
            return self.cmp_vals(st, op, &a0, &a1);
        }
        if owner == "str" || owner == "String" || owner == "char" || owner == "Regex" {
            if matches!(name.as_str(), "starts_with" | "ends_with" | "contains" | "find" | "rfind" | "strip_prefix" | "strip_suffix" | "split" | "split_once" | "trim_start_matches" | "trim_end_matches") {
                let (x, y) = (self.deref_all(&st, &a0), self.deref_all(&st, &a1));
                if let (V::Str(StrV::Tok(TokR::Off(_), false)), V::Str(StrV::Const(c))) = (&x, &y) {
                    let l = istr(*c);
                    if l.len() > 1 && l.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && l.chars().any(|c| c.is_ascii_alphabetic()) {
                        self.viol("C07", &format!("case-sensitive({})", l), &format!("the text of a token is searched for {:?} without folding its letter case", l));
                    }
                }
                // the text decides on a token that may be a comment
                if let (V::Str(StrV::Tok(TokR::Raw, _)), V::Str(StrV::Const(c))) = (&x, &y) {
                    if !["--", "#", "/*", "*/", "//"].contains(&istr(*c).as_str()) {
                    self.viol("C09", &format!("raw-token({})", name), "the parser inspects the text of a token fetched by raw index; a comment in that place changes the outcome");
                    }
                }
            }
            let rt_bool = matches!(name.as_str(), "starts_with" | "ends_with" | "contains" | "is_match" | "is_digit" | "is_alphabetic" | "is_whitespace" | "is_ascii_digit" | "is_alphanumeric" | "is_numeric" | "is_ascii_alphabetic");
            return if rt_bool { self.fork_bool(st) } else { self.one(st, V::Top) };
        }
        // unknown: everything reachable through mutable references may have changed
        self.escape(&mut st, &args);
        let shared = self.shared.clone();
        for (i, a) in args.iter().enumerate() {
            if shared.get(i) == Some(&true) {
                continue;
            }
            if let Some(t) = self.target_of(&st, a) {
                let v = self.read(&st, &t);
                if !v.has_nodes() && !matches!(v, V::Parser | V::PField(_)) {
                    self.write(&mut st, &t, V::Top);
                }
            }
        }
        self.one(st, V::Top)
    }
    fn in_prims(&self) -> bool {
        let n = &self.ir.fns[self.cur_fn].name;
        self.prims.contains(&self.cur_fn) || self.prims.iter().any(|p| n.starts_with(&format!("{}::", self.ir.fns[*p].name)))
    }
    fn serialised(&self, _v: &V) -> bool {
        false
    }
    fn eq_any(&mut self, st: State, a: &V, b: &V, neg: bool) -> Outs {
        let x = self.deref_all(&st, a);
        let y = self.deref_all(&st, b);
        let lower = intern("Lower");
        for (p, q) in [(&x, &y), (&y, &x)] {
            if let (V::Enum(l, _, fs), V::Str(StrV::Const(c))) = (p, q) {
                if *l == lower {
                    let c = istr(*c);
                    if c.to_lowercase() != c {
                        return self.one(st, V::Bool(neg));
                    }
                    let k = V::Str(StrV::Const(intern(&c.to_uppercase())));
                    let t = fs[0].clone();
                    return self.eq_vals(st, &t, &k, neg);
                }
            }
        }
        if let (V::Enum(d, v, f), V::Enum(e, w, g)) = (&x, &y) {
            if d == e {
                if v != w {
                    return self.one(st, V::Bool(neg));
                }
                if f.is_empty() && g.is_empty() {
                    return self.one(st, V::Bool(!neg));
                }
                if f.len() == 1 && g.len() == 1 {
                    let (p, q) = (f[0].clone(), g[0].clone());
                    return self.eq_any(st, &p, &q, neg);
                }
            }
        }
        self.eq_vals(st, a, b, neg)
    }
    /// next key (or entry) of the children of a node: the keys that are asked for somewhere one by one, then
    /// any number of others
    fn key_next(&mut self, mut st: State, it: &Target) -> Outs {
        let (fl, n, i) = match self.read(&st, it) {
            V::Enum(_, fl, fs) => match (&fs[0], &fs[1]) {
                (V::Children(n), V::Int(i)) => (fl, n.clone(), *i as usize),
                _ => return self.opt_fork(st, V::Top),
            },
            _ => return self.opt_fork(st, V::Top),
        };
        let elem = |v: V| if fl == 1 { V::Agg(vec![v, V::Top]) } else { v };
        let known = matches!(self.read(&st, &n), V::Node(x) if !x.any);
        let keys = self.part_keys.clone();
        if !known || i >= keys.len() {
            let mut s = st.clone();
            s.ev |= EV_ITER;
            return vec![(s, some(elem(V::Top))), (st, none())];
        }
        self.write(&mut st, it, V::Enum(intern("KeyIter"), fl, vec![V::Children(n.clone()), V::Int(i as i128 + 1)]));
        st.ev |= EV_ITER;
        let mut out = vec![];
        for (s, yes, _) in self.split_children(st, &n, keys[i]) {
            if yes {
                out.push((s, some(elem(V::Str(StrV::Const(keys[i]))))));
            } else {
                out.extend(self.key_next(s, it));
            }
        }
        out
    }
    fn any_key(&mut self, st: State, t: &Target, f: &V, entry: bool) -> Outs {
        let n = match self.read(&st, t) {
            V::Node(n) if !n.any => (*n).clone(),
            _ => return self.fork_bool(st),
        };
        let mut keys: Vec<u32> = n.alts.values().flat_map(|k| k.keys().cloned()).collect();
        keys.sort();
        keys.dedup();
        let mut hit = vec![];
        for k in keys {
            let rs = self.call_value_or_closure(st.clone(), f, vec![if entry { V::Agg(vec![V::Str(StrV::Const(k)), V::Top]) } else { V::Str(StrV::Const(k)) }]);
            if self.debug && self.record {
                eprintln!("ANYKEY {} -> {:?}", istr(k), rs.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
            }
            if rs.is_empty() {
                return vec![]; // the closure has no summary yet
            }
            if rs.iter().any(|(_, v)| !matches!(v, V::Bool(false))) {
                if rs.iter().any(|(_, v)| !matches!(v, V::Bool(true))) {
                    return self.fork_bool(st);
                }
                hit.push(k);
            }
        }
        let mut out = vec![];
        let mut yes = n.clone();
        yes.alts.retain(|_, k| hit.iter().any(|h| k.contains_key(h)));
        if !yes.alts.is_empty() {
            let mut s = st.clone();
            self.set_node(&mut s, t, yes);
            out.push((s, V::Bool(true)));
        }
        let mut no = n;
        no.alts.retain(|_, k| !hit.iter().any(|h| k.get(h).map(|x| x.must).unwrap_or(false)));
        for (_, k) in no.alts.iter_mut() {
            if hit.iter().any(|h| k.contains_key(h)) {
                let m = Rc::make_mut(k);
                for h in &hit {
                    m.remove(h);
                }
            }
        }
        if !no.alts.is_empty() {
            let mut s = st;
            self.set_node(&mut s, t, no);
            out.push((s, V::Bool(false)));
        }
        out
    }
}
