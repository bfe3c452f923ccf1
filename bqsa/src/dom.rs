//! Abstract domain of the parser analysis.
use std::cell::RefCell;
use crate::fx::HashMap;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

thread_local! {
    static INTERN: RefCell<(HashMap<String, u32>, Vec<String>)> = RefCell::new((HashMap::default(), vec![]));
}
pub fn intern(s: &str) -> u32 {
    INTERN.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(i) = t.0.get(s) {
            return *i;
        }
        let i = t.1.len() as u32;
        t.1.push(s.to_string());
        t.0.insert(s.to_string(), i);
        i
    })
}
pub fn istr(i: u32) -> String {
    INTERN.with(|t| t.borrow().1[i as usize].clone())
}

// ---- token facts ----
/// Knowledge about the upper-cased literal of a token: one of / none of a set of literals.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TF {
    Pos(Vec<u32>),
    Neg(Vec<u32>),
}
impl TF {
    pub fn top() -> TF {
        TF::Neg(vec![])
    }
    pub fn is_top(&self) -> bool {
        matches!(self, TF::Neg(v) if v.is_empty())
    }
    pub fn one(s: &str) -> TF {
        TF::Pos(vec![intern(s)])
    }
    pub fn join(&self, o: &TF) -> TF {
        match (self, o) {
            (TF::Pos(a), TF::Pos(b)) => {
                let mut v: Vec<u32> = a.iter().chain(b.iter()).cloned().collect();
                v.sort();
                v.dedup();
                if v.len() > 120 {
                    return TF::top();
                }
                TF::Pos(v)
            }
            (TF::Neg(a), TF::Neg(b)) => TF::Neg(a.iter().filter(|x| b.contains(x)).cloned().collect()),
            (TF::Pos(p), TF::Neg(n)) | (TF::Neg(n), TF::Pos(p)) => TF::Neg(n.iter().filter(|x| !p.contains(x)).cloned().collect()),
        }
    }
    pub fn meet(&self, o: &TF) -> Option<TF> {
        let r = match (self, o) {
            (TF::Pos(a), TF::Pos(b)) => TF::Pos(a.iter().filter(|x| b.contains(x)).cloned().collect()),
            (TF::Neg(a), TF::Neg(b)) => {
                let mut v: Vec<u32> = a.iter().chain(b.iter()).cloned().collect();
                v.sort();
                v.dedup();
                TF::Neg(v)
            }
            (TF::Pos(p), TF::Neg(n)) | (TF::Neg(n), TF::Pos(p)) => TF::Pos(p.iter().filter(|x| !n.contains(x)).cloned().collect()),
        };
        if let TF::Pos(v) = &r {
            if v.is_empty() {
                return None;
            }
        }
        Some(r)
    }
    pub fn may(&self, l: u32) -> bool {
        match self {
            TF::Pos(v) => v.contains(&l),
            TF::Neg(v) => !v.contains(&l),
        }
    }
    pub fn show(&self) -> String {
        let f = |v: &Vec<u32>| v.iter().map(|x| format!("{:?}", istr(*x))).collect::<Vec<_>>().join(" ");
        match self {
            TF::Pos(v) => format!("one of {}", f(v)),
            TF::Neg(v) if v.is_empty() => "anything".to_string(),
            TF::Neg(v) => format!("not {}", f(v)),
        }
    }
}

// ---- node types ----
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Bits(pub [u64; 3]);
impl Bits {
    pub fn none() -> Bits {
        Bits([0; 3])
    }
    pub fn all() -> Bits {
        Bits([!0; 3])
    }
    pub fn one(i: u8) -> Bits {
        let mut b = Bits::none();
        b.set(i);
        b
    }
    pub fn set(&mut self, i: u8) {
        self.0[(i >> 6) as usize] |= 1 << (i & 63);
    }
    pub fn has(&self, i: u8) -> bool {
        self.0[(i >> 6) as usize] & (1 << (i & 63)) != 0
    }
    pub fn or(&self, o: &Bits) -> Bits {
        Bits([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2]])
    }
    pub fn and(&self, o: &Bits) -> Bits {
        Bits([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2]])
    }
    pub fn minus(&self, o: &Bits) -> Bits {
        Bits([self.0[0] & !o.0[0], self.0[1] & !o.0[1], self.0[2] & !o.0[2]])
    }
    pub fn count(&self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
    pub fn is_empty(&self) -> bool {
        self.count() == 0
    }
    pub fn iter(&self) -> Vec<u8> {
        (0..192u16).filter(|i| self.has(*i as u8)).map(|i| i as u8).collect()
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Kid {
    pub must: bool,
    pub node: bool,
    pub vec: bool,
    pub types: Bits, // all() = unknown
}
pub type Kids = BTreeMap<u32, Kid>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Own {
    pub cur: bool,     // claims the current token
    pub settled: bool, // sole owner of at least one token already passed
    pub cont: u8,      // contested claims (bit 0: the token current at function entry)
    pub bare: bool,    // carries a token but its comments have not been attached
}
impl Own {
    pub fn union(&self, o: &Own) -> Own {
        Own { cur: self.cur || o.cur, settled: self.settled || o.settled, cont: self.cont | o.cont, bare: self.bare || o.bare }
    }
    pub fn none(&self) -> bool {
        !self.cur && !self.settled && self.cont == 0
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct NodeV {
    pub any: bool,
    pub alts: BTreeMap<u8, Rc<Kids>>,
    pub own: Own,
}
impl NodeV {
    pub fn fresh(t: &Bits, own: Own) -> NodeV {
        let mut alts = BTreeMap::new();
        if *t == Bits::all() {
            return NodeV { any: true, alts, own };
        }
        for i in t.iter() {
            alts.insert(i, Rc::new(Kids::new()));
        }
        NodeV { any: false, alts, own }
    }
    pub fn types(&self) -> Bits {
        if self.any {
            return Bits::all();
        }
        let mut b = Bits::none();
        for k in self.alts.keys() {
            b.set(*k);
        }
        b
    }
    pub fn key_class(&self, key: u32) -> u8 {
        // 0 never, 1 maybe, 2 always
        if self.any || self.alts.is_empty() {
            return 1;
        }
        let (mut mu, mut ma) = (true, false);
        for k in self.alts.values() {
            match k.get(&key) {
                Some(x) => {
                    ma = true;
                    if !x.must {
                        mu = false
                    }
                }
                None => mu = false,
            }
        }
        if mu {
            2
        } else if ma {
            1
        } else {
            0
        }
    }
}

pub fn join_kids(a: &Rc<Kids>, b: &Rc<Kids>) -> Rc<Kids> {
    if Rc::ptr_eq(a, b) || a == b {
        return a.clone();
    }
    let mut r = Kids::new();
    for (k, x) in a.iter() {
        match b.get(k) {
            Some(y) => {
                r.insert(*k, Kid { must: x.must && y.must, node: x.node || y.node, vec: x.vec || y.vec, types: x.types.or(&y.types) });
            }
            None => {
                r.insert(*k, Kid { must: false, ..x.clone() });
            }
        }
    }
    for (k, y) in b.iter() {
        if !a.contains_key(k) {
            r.insert(*k, Kid { must: false, ..y.clone() });
        }
    }
    if &r == &**a {
        return a.clone();
    }
    Rc::new(r)
}
pub fn join_node(a: &NodeV, b: &NodeV) -> NodeV {
    let own = a.own.union(&b.own);
    if a.any || b.any {
        return NodeV { any: true, alts: BTreeMap::new(), own };
    }
    let mut alts = a.alts.clone();
    for (t, k) in &b.alts {
        match alts.get(t) {
            Some(x) => {
                let j = join_kids(x, k);
                alts.insert(*t, j);
            }
            None => {
                alts.insert(*t, k.clone());
            }
        }
    }
    NodeV { any: false, alts, own }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Len {
    pub lo: u8,
    pub hi: u8,
} // hi==3 means >=3
impl Len {
    pub fn norm(self) -> Len {
        Len { lo: self.lo.min(3), hi: self.hi.min(3) }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct NVecV {
    pub len: Len,
    pub elem: Option<NodeV>, // joined element, ownership aggregated
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum StrV {
    Const(u32),
    Tok(TokR, bool), // literal of token, upper-cased?
    Unknown,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum TokR {
    Off(u8),
    P1(u8), // the index after that of a token: nothing is known about what is there
    Comment,
    Raw, // fetched by raw index arithmetic: may be a comment
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Base {
    Local(u32),
    Cell(u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum PathE {
    F(u32),
    Elem,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Target {
    pub base: Base,
    pub path: Vec<PathE>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SnapV {
    pub stale: bool,
    pub facts: Vec<TF>,
    pub advanced: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Top,
    Opq,
    Moved,
    Bool(bool),
    BoolTop,
    Int(i128),
    IntGe(i128),
    IntTop,
    Str(StrV),
    Tok(TokR),
    TokIdx(TokR),
    Parser,
    PField(u32),
    TokLen,
    LastIdx,
    TokLine(TokR),
    TokCol(TokR),
    Chars,
    Snap(Rc<SnapV>),
    SnapF(u32, Rc<SnapV>),
    NT(Bits),
    Node(Rc<NodeV>),
    NVec(Rc<NVecV>),
    NIter(Rc<NVecV>),
    Enum(u32, u32, Vec<V>),
    Agg(Vec<V>),
    CIter(Vec<V>, u32),
    Ref(Target),
    Discr(Target),
    Children(Target), // &node.children / iterator over its keys
    OptChild(Target, u32),
    Fn(i64),
    FnStd(u32),
    Closure(i64, Vec<V>),
    Uninit,
    EmptyMap,
    StrTop, // unknown but non-empty text
    VLen(Target), // length of a list of nodes
}

impl V {
    pub fn has_nodes(&self) -> bool {
        match self {
            V::Node(_) => true,
            V::NVec(v) | V::NIter(v) => v.elem.is_some(),
            V::Enum(_, _, f) | V::Agg(f) | V::Closure(_, f) | V::CIter(f, _) => f.iter().any(|x| x.has_nodes()),
            _ => false,
        }
    }
    pub fn for_own<F: FnMut(&Own)>(&self, f: &mut F) {
        match self {
            V::Node(n) => f(&n.own),
            V::NVec(v) | V::NIter(v) => {
                if let Some(e) = &v.elem {
                    f(&e.own)
                }
            }
            V::Enum(_, _, fs) | V::Agg(fs) | V::Closure(_, fs) | V::CIter(fs, _) => {
                for x in fs {
                    x.for_own(f)
                }
            }
            _ => {}
        }
    }
    pub fn map_own<F: FnMut(&Own) -> Own>(&mut self, f: &mut F) {
        match self {
            V::Node(n) => {
                let o = f(&n.own);
                if o != n.own {
                    Rc::make_mut(n).own = o;
                }
            }
            V::NVec(v) | V::NIter(v) => {
                if let Some(e) = &v.elem {
                    let o = f(&e.own);
                    if o != e.own {
                        Rc::make_mut(v).elem.as_mut().unwrap().own = o;
                    }
                }
            }
            V::Enum(_, _, fs) | V::Agg(fs) | V::Closure(_, fs) | V::CIter(fs, _) => {
                for x in fs {
                    x.map_own(f)
                }
            }
            _ => {}
        }
    }
    pub fn total_own(&self) -> Own {
        let mut o = Own::default();
        self.for_own(&mut |x| o = o.union(x));
        o
    }
    /// shift token references after the cursor advanced (n = Some(1)) or moved by an unknown amount
    pub fn shift_tok(&mut self, n: Option<u8>) {
        let sh = |t: &mut TokR| {
            if let TokR::Off(k) = *t {
                *t = match n {
                    Some(n) if k >= n => TokR::Off(k - n),
                    _ => TokR::Unknown,
                }
            } else if let TokR::P1(k) = *t {
                *t = match n {
                    Some(n) if k >= n => TokR::P1(k - n),
                    _ => TokR::Raw,
                }
            }
        };
        match self {
            V::Tok(t) | V::TokIdx(t) | V::TokLine(t) | V::TokCol(t) => sh(t),
            V::Str(StrV::Tok(t, _)) => sh(t),
            V::Snap(s) | V::SnapF(_, s) => {
                if !s.stale {
                    Rc::make_mut(s).stale = true;
                }
            }
            V::Enum(_, _, fs) | V::Agg(fs) | V::Closure(_, fs) | V::CIter(fs, _) => {
                for x in fs {
                    x.shift_tok(n)
                }
            }
            _ => {}
        }
    }
    /// discriminating part of the value: states that differ in it are kept apart
    pub fn shape<H: Hasher>(&self, h: &mut H, semi: &[u32]) {
        match self {
            V::Node(n) => {
                20u8.hash(h);
                n.own.hash(h);
                n.any.hash(h);
                for k in semi {
                    n.key_class(*k).hash(h);
                }
            }
            V::NVec(v) | V::NIter(v) => {
                21u8.hash(h);
                matches!(self, V::NIter(_)).hash(h);
                v.len.hash(h);
                if let Some(e) = &v.elem {
                    e.own.hash(h);
                    e.any.hash(h);
                }
            }
            V::Enum(d, v, fs) => {
                22u8.hash(h);
                d.hash(h);
                v.hash(h);
                for f in fs {
                    f.shape(h, semi)
                }
            }
            V::Agg(fs) => {
                23u8.hash(h);
                fs.len().hash(h);
                for f in fs {
                    f.shape(h, semi)
                }
            }
            V::Closure(i, fs) => {
                24u8.hash(h);
                i.hash(h);
                for f in fs {
                    f.shape(h, semi)
                }
            }
            V::NT(_) => 25u8.hash(h),
            V::Snap(s) => {
                26u8.hash(h);
                s.stale.hash(h);
            }
            V::SnapF(f, s) => {
                27u8.hash(h);
                f.hash(h);
                s.stale.hash(h);
            }
            o => {
                28u8.hash(h);
                o.hash(h)
            }
        }
    }
}

pub fn join_v(a: &V, b: &V) -> V {
    if a == b {
        return a.clone();
    }
    match (a, b) {
        (V::Node(x), V::Node(y)) => V::Node(Rc::new(join_node(x, y))),
        (V::NVec(x), V::NVec(y)) => V::NVec(Rc::new(join_vec(x, y))),
        (V::NIter(x), V::NIter(y)) => V::NIter(Rc::new(join_vec(x, y))),
        (V::Enum(d, v, f), V::Enum(d2, v2, g)) if d == d2 && v == v2 && f.len() == g.len() => {
            V::Enum(*d, *v, f.iter().zip(g).map(|(x, y)| join_v(x, y)).collect())
        }
        (V::Agg(f), V::Agg(g)) if f.len() == g.len() => V::Agg(f.iter().zip(g).map(|(x, y)| join_v(x, y)).collect()),
        (V::Closure(i, f), V::Closure(j, g)) if i == j && f.len() == g.len() => V::Closure(*i, f.iter().zip(g).map(|(x, y)| join_v(x, y)).collect()),
        (V::NT(x), V::NT(y)) => V::NT(x.or(y)),
        (V::Snap(x), V::Snap(y)) => V::Snap(Rc::new(join_snap(x, y))),
        (V::SnapF(f, x), V::SnapF(g, y)) if f == g => V::SnapF(*f, Rc::new(join_snap(x, y))),
        (V::Bool(_), V::Bool(_)) => V::BoolTop,
        _ => {
            if a.has_nodes() || b.has_nodes() || *a == V::Opq || *b == V::Opq {
                V::Opq
            } else {
                V::Top
            }
        }
    }
}
fn join_snap(x: &SnapV, y: &SnapV) -> SnapV {
    SnapV {
        stale: x.stale || y.stale,
        facts: x.facts.iter().zip(&y.facts).map(|(a, b)| a.join(b)).collect(),
        advanced: x.advanced || y.advanced,
    }
}
fn join_vec(x: &NVecV, y: &NVecV) -> NVecV {
    NVecV {
        len: Len { lo: x.len.lo.min(y.len.lo), hi: x.len.hi.max(y.len.hi) },
        elem: match (&x.elem, &y.elem) {
            (Some(a), Some(b)) => Some(join_node(a, b)),
            (Some(a), None) | (None, Some(a)) => Some(a.clone()),
            _ => None,
        },
    }
}
