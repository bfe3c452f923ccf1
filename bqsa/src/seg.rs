//! The primitives every sub-parser relies on (Parser::new, next_token, get_offset_index, get_token,
//! is_eof, construct_node), followed over an abstract token list: a sequence of non-comment tokens
//! and runs of comments of any length, with what is known about which of them start on one line.
use crate::ir::*;
use crate::mach::intern;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum K {
    T, // one token that is no comment and not the last one
    C, // one comment
    R, // two or more comments
    E, // the last token, no comment
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Seg {
    a: u16,
    b: u16,
    rev: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
struct VecV {
    node: bool,
    segs: Vec<Seg>,
    bad: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Src {
    Range(V, V),
    Segs(Vec<Seg>, bool),
    Toks(Option<u16>, Option<u16>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Stage {
    Map(V),
    Filter(V),
    TakeWhile(V),
    SkipWhile(V, bool),
    Take(u8),
    Enum,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct It {
    src: Src,
    rev: bool,
    done: bool,
    st: Vec<Stage>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Path {
    fr: u16,
    l: u32,
    p: Vec<u32>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum V {
    Un,
    Op, // something derived only from parameters and from tokens known not to be comments
    B(bool),
    I(i64),
    Idx(u16),
    Len(i8),
    VLen(u16, bool), // length of a list of positions: at least n, exactly n if the flag is unset
    Line(u16),
    LineP(u16, u8), // so many lines further down
    Tok(u16),
    Tx, // the text of a comment
    Toks,
    TSlice(Option<u16>, Option<u16>),
    Str(Rc<str>),
    Adt(u32, u32, Vec<V>),
    Clo(usize, Vec<V>),
    Fun(Rc<str>),
    Ref(Path, bool),
    Vec(VecV),
    Map(BTreeMap2),
    It(Box<It>),
}
type BTreeMap2 = Vec<(Rc<str>, V)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Frame {
    f: usize,
    b: usize,
    l: Vec<V>,
    ret: Option<(Place, Option<usize>)>,
    stop: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct St {
    cells: Vec<K>,
    facts: Vec<(u16, u16, bool)>,
    end: bool,
    start: bool,
    dirty: bool,
    fr: Vec<Frame>,
}

type Outs = Vec<(St, V)>;

#[derive(Clone, Debug)]
pub struct Find {
    pub prop: &'static str,
    pub key: String,
    pub site: String,
    pub msg: String,
}

#[derive(Clone, Default)]
pub struct SegOut {
    pub finds: Vec<Find>,
    pub undecided: Vec<(String, String)>,
    pub runs: usize,
    pub states: usize,
    pub fns: Vec<String>,
    pub obligations: usize,
    pub missing: Vec<String>,
    pub failed: bool,
}

struct M<'a> {
    ir: &'a Ir,
    newmode: Option<usize>,
    finds: BTreeMap<(String, String), Find>,
    undecided: BTreeMap<String, String>,
    fns: BTreeSet<String>,
    states: usize,
    span: Rc<str>,
    joins: HashMap<usize, Rc<Vec<bool>>>,
    prog: bool,
    overflow: bool,
    pf: [usize; 4], // position, leading, trailing, tokens
    nf: [usize; 3], // token, node_type, children
    tf: [usize; 2], // line, literal
    comment: u32,
    nodevec: u32,
    what: String,
    obligations: usize,
    t0: std::time::Instant,
}

const ROOT: usize = usize::MAX;
const LIMIT: usize = 40_000;

fn walk(v: &mut V, f: &mut dyn FnMut(&mut u16, bool)) {
    // bool: the number names a cell (and not a boundary)
    match v {
        V::Idx(n) => f(n, false),
        V::Line(n) | V::LineP(n, _) | V::Tok(n) => f(n, true),
        V::TSlice(a, b) => {
            if let Some(a) = a {
                f(a, false)
            }
            if let Some(b) = b {
                f(b, false)
            }
        }
        V::Adt(_, _, vs) | V::Clo(_, vs) => vs.iter_mut().for_each(|x| walk(x, f)),
        V::Vec(x) => x.segs.iter_mut().for_each(|s| {
            f(&mut s.a, false);
            f(&mut s.b, false)
        }),
        V::Map(m) => m.iter_mut().for_each(|x| walk(&mut x.1, f)),
        V::It(it) => {
            match &mut it.src {
                Src::Range(a, b) => {
                    walk(a, f);
                    walk(b, f)
                }
                Src::Segs(s, _) => s.iter_mut().for_each(|s| {
                    f(&mut s.a, false);
                    f(&mut s.b, false)
                }),
                Src::Toks(a, b) => {
                    if let Some(a) = a {
                        f(a, false)
                    }
                    if let Some(b) = b {
                        f(b, false)
                    }
                }
            }
            for s in it.st.iter_mut() {
                match s {
                    Stage::Map(v) | Stage::Filter(v) | Stage::TakeWhile(v) | Stage::SkipWhile(v, _) => walk(v, f),
                    Stage::Enum | Stage::Take(_) => {}
                }
            }
        }
        _ => {}
    }
}

impl St {
    fn each(&mut self, f: &mut dyn FnMut(&mut u16, bool)) {
        for fr in self.fr.iter_mut() {
            for v in fr.l.iter_mut() {
                walk(v, f);
            }
        }
    }
    /// do the tokens i and j start on one line? lines never decrease from token to token
    fn same(&self, i: u16, j: u16) -> Option<bool> {
        let (i, j) = (i.min(j), i.max(j));
        if i == j {
            return Some(true);
        }
        let mut reach = i;
        loop {
            let mut r = reach;
            for (a, b, s) in &self.facts {
                if *s && *a <= reach && *b > r {
                    r = *b;
                }
            }
            if r >= j {
                return Some(true);
            }
            if r == reach {
                break;
            }
            reach = r;
        }
        for (a, b, s) in &self.facts {
            if !*s && i <= *a && *b <= j {
                return Some(false);
            }
        }
        None
    }
    fn learn(&mut self, i: u16, j: u16, s: bool) {
        let f = (i.min(j), i.max(j), s);
        if !self.facts.contains(&f) {
            self.facts.push(f);
            self.facts.sort();
        }
    }
    /// make cell n one token; the caller made sure that it exists
    fn mat(self, n: u16) -> Vec<St> {
        let len = self.cells.len() as u16;
        if n < len {
            if self.cells[n as usize] != K::R {
                return vec![self];
            }
            let mut out = vec![];
            for k in [K::C, K::R] {
                let mut s = self.clone();
                s.cells[n as usize] = K::C;
                s.cells.insert(n as usize + 1, k);
                s.each(&mut |x, _| {
                    if *x > n {
                        *x += 1
                    }
                });
                s.split_facts(n);
                out.push(s);
            }
            return out;
        }
        if n > len || self.end {
            return vec![];
        }
        [K::T, K::C, K::E]
            .iter()
            .map(|k| {
                let mut s = self.clone();
                s.cells.push(*k);
                s.end = *k == K::E;
                s
            })
            .collect()
    }
    fn split_facts(&mut self, n: u16) {
        let old = std::mem::take(&mut self.facts);
        for (a, b, s) in old {
            let a2: Vec<u16> = if a == n { vec![n, n + 1] } else { vec![if a > n { a + 1 } else { a }] };
            let b2: Vec<u16> = if b == n { vec![n, n + 1] } else { vec![if b > n { b + 1 } else { b }] };
            for x in &a2 {
                for y in &b2 {
                    if x < y {
                        self.learn(*x, *y, s);
                    }
                }
            }
        }
    }
    /// make the cell in front of boundary n one token; returns the boundary before that token
    fn mat_back(self, n: u16) -> Vec<(St, u16)> {
        if n == 0 {
            return vec![];
        }
        if self.cells[n as usize - 1] != K::R {
            return vec![(self, n - 1)];
        }
        let m = n - 1;
        let mut out = vec![];
        for k in [K::C, K::R] {
            let mut s = self.clone();
            s.cells[m as usize] = k;
            s.cells.insert(m as usize + 1, K::C);
            s.each(&mut |x, _| {
                if *x > m {
                    *x += 1
                }
            });
            s.split_facts(m);
            out.push((s, m + 1));
        }
        out
    }
    /// forget where inside a run of comments nothing points
    fn fold(&mut self) {
        let mut used: HashSet<u16> = HashSet::new();
        let mut cell: HashSet<u16> = HashSet::new();
        self.each(&mut |x, c| {
            if c {
                cell.insert(*x);
            } else {
                used.insert(*x);
            }
        });
        let mut i = 0;
        while i + 1 < self.cells.len() {
            let (a, b) = (i as u16, i as u16 + 1);
            let com = |k: K| k == K::C || k == K::R;
            let ok = com(self.cells[i]) && com(self.cells[i + 1]) && !used.contains(&b) && !cell.contains(&a) && !cell.contains(&b) && {
                (0..i).all(|t| com(self.cells[t]) || self.same(t as u16, a) == self.same(t as u16, b))
            };
            if !ok {
                i += 1;
                continue;
            }
            self.cells[i] = K::R;
            self.cells.remove(i + 1);
            let shift = |x: &mut u16| {
                if *x > a {
                    *x -= 1
                }
            };
            self.each(&mut |x, _| shift(x));
            used = used.into_iter().map(|mut x| { shift(&mut x); x }).collect();
            cell = cell.into_iter().map(|mut x| { shift(&mut x); x }).collect();
            let old = std::mem::take(&mut self.facts);
            for (mut x, mut y, s) in old {
                // what starts at one of the two comments is forgotten
                if x == a || x == b {
                    continue;
                }
                shift(&mut x);
                shift(&mut y);
                if x < y {
                    self.learn(x, y, s);
                }
            }
        }
    }
}

enum Cur {
    P(Path),
    Val(V),
}

fn last_seg(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}
fn some(v: V) -> V {
    V::Adt(intern("Option"), 1, vec![v])
}
fn none() -> V {
    V::Adt(intern("Option"), 0, vec![])
}

impl<'a> M<'a> {
    fn here(&self, st: &St) -> String {
        st.fr.last().and_then(|f| self.ir.fns.get(f.f)).map(|f| last_seg(&f.name).to_string()).unwrap_or("-".into())
    }
    fn find(&mut self, st: &St, prop: &'static str, key: &str, msg: &str) {
        if st.dirty {
            let k = format!("{}: {} (depends on something not modelled)", self.what, key);
            let s = self.span.to_string();
            self.undecided.entry(k).or_insert(s);
            return;
        }
        let key = format!("{}|{}", self.what, key);
        let site = self.span.to_string();
        self.finds.entry((prop.to_string(), key.clone())).or_insert(Find { prop, key, site, msg: msg.to_string() });
    }
    fn undec(&mut self, st: &St, what: &str) {
        let k = format!("{}: {}", self.here(st), what);
        let s = self.span.to_string();
        self.undecided.entry(k).or_insert(s);
    }
    fn get(&self, st: &St, p: &Path) -> V {
        let mut v = match st.fr.get(p.fr as usize).and_then(|f| f.l.get(p.l as usize)) {
            Some(v) => v.clone(),
            None => return V::Un,
        };
        for i in &p.p {
            v = self.field(st, &v, *i);
        }
        v
    }
    fn field(&self, st: &St, v: &V, i: u32) -> V {
        match v {
            V::Adt(_, _, fs) | V::Clo(_, fs) => fs.get(i as usize).cloned().unwrap_or(V::Un),
            V::Tok(n) => {
                if i as usize == self.tf[0] {
                    V::Line(*n)
                } else if i as usize == self.tf[1] && st.cells.get(*n as usize) == Some(&K::C) {
                    V::Tx
                } else {
                    self.opaque(st, *n)
                }
            }
            V::Op => V::Op,
            _ => V::Un,
        }
    }
    fn opaque(&self, st: &St, n: u16) -> V {
        match st.cells.get(n as usize) {
            Some(K::T) | Some(K::E) => V::Op,
            _ => V::Un,
        }
    }
    fn set_in(v: &mut V, p: &[u32], x: V) -> bool {
        if p.is_empty() {
            *v = x;
            return true;
        }
        match v {
            V::Adt(_, _, fs) | V::Clo(_, fs) => {
                let i = p[0] as usize;
                while fs.len() <= i {
                    fs.push(V::Un);
                }
                Self::set_in(&mut fs[i], &p[1..], x)
            }
            V::Un | V::Op => {
                let mut fs = vec![V::Un; p[0] as usize + 1];
                let r = Self::set_in(&mut fs[p[0] as usize], &p[1..], x);
                *v = V::Adt(0, 0, fs);
                r
            }
            _ => {
                *v = V::Un;
                true
            }
        }
    }
    fn set(&self, st: &mut St, p: &Path, x: V) {
        if let Some(f) = st.fr.get_mut(p.fr as usize) {
            if let Some(l) = f.l.get_mut(p.l as usize) {
                Self::set_in(l, &p.p, x);
            }
        }
    }
    fn cur(&mut self, st: &St, pl: &Place) -> Cur {
        let fr = (st.fr.len() - 1) as u16;
        let mut c = Cur::P(Path { fr, l: pl.l, p: vec![] });
        for e in &pl.p {
            match e {
                Pe::Deref => {
                    let v = match &c {
                        Cur::P(p) => self.get(st, p),
                        Cur::Val(v) => v.clone(),
                    };
                    c = match v {
                        V::Ref(p, _) => Cur::P(p),
                        x => Cur::Val(x),
                    };
                }
                Pe::Field(i, _, _) => {
                    c = match c {
                        Cur::P(mut p) => {
                            p.p.push(*i);
                            Cur::P(p)
                        }
                        Cur::Val(v) => Cur::Val(self.field(st, &v, *i)),
                    }
                }
                Pe::Var(_) => {}
                Pe::Index(l) => {
                    let base = match &c {
                        Cur::P(p) => self.get(st, p),
                        Cur::Val(v) => v.clone(),
                    };
                    let i = st.fr.last().unwrap().l.get(*l as usize).cloned().unwrap_or(V::Un);
                    c = Cur::Val(match (base, i) {
                        (V::Toks | V::TSlice(None, None), V::Idx(n)) if (n as usize) < st.cells.len() && st.cells[n as usize] != K::R => V::Tok(n),
                        _ => V::Un,
                    });
                }
                _ => c = Cur::Val(V::Un),
            }
        }
        c
    }
    fn read(&mut self, st: &St, pl: &Place) -> V {
        match self.cur(st, pl) {
            Cur::P(p) => self.get(st, &p),
            Cur::Val(v) => v,
        }
    }
    fn write(&mut self, st: &mut St, pl: &Place, v: V) {
        // a named index variable of Parser::new starts at the first token
        let v = match (&v, self.newmode) {
            (V::I(0), Some(f)) => {
                let fr = st.fr.last().unwrap();
                let fun = &self.ir.fns[fr.f];
                let loc = &fun.locals[pl.l as usize];
                if fr.f == f && pl.p.is_empty() && loc.n.is_some() && self.ir.tys[loc.t].s == "usize" {
                    V::Idx(0)
                } else {
                    v
                }
            }
            _ => v,
        };
        match self.cur(st, pl) {
            Cur::P(p) => {
                let v = self.as_position(st, &p, v);
                self.set(st, &p, v)
            }
            Cur::Val(_) => st.dirty = true,
        }
    }
    fn as_position(&self, st: &St, p: &Path, v: V) -> V {
        if v == V::I(0) && st.start && !p.p.is_empty() {
            let mut q = p.clone();
            let i = q.p.pop().unwrap();
            if i as usize == self.pf[0] {
                if let V::Adt(d, _, _) = self.get(st, &q) {
                    if d == intern("Parser") {
                        return V::Idx(0);
                    }
                }
            }
        }
        v
    }
    fn deref(&self, st: &St, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..8 {
            v = match v {
                V::Ref(p, _) => self.get(st, &p),
                x => return x,
            }
        }
        v
    }
    fn operand(&mut self, st: &St, o: &Op) -> V {
        match o {
            Op::Copy(p) | Op::Move(p) => self.read(st, p),
            Op::Const { c, ty, .. } => match c {
                Const::Int(n) => V::I((*n).min(i64::MAX as u128) as i64),
                Const::Bool(b) => V::B(*b),
                Const::Str(s) => V::Str(s.as_str().into()),
                Const::Variant(v) => V::Adt(intern(last_seg(&norm(&self.ir.tys[*ty].def))), *v, vec![]),
                Const::Fn(r) => V::Fun(r.path.as_str().into()),
                _ => V::Op,
            },
            Op::Rt => V::B(false),
        }
    }
    // ---------------------------------------------------------------- arithmetic and comparison
    fn either(&mut self, st: St, clean: bool) -> Outs {
        let mut s = st;
        if !clean {
            s.dirty = true;
        }
        vec![(s.clone(), V::B(true)), (s, V::B(false))]
    }
    /// three-way comparison
    fn compare(&mut self, st: St, a: &V, b: &V) -> Vec<(St, Option<std::cmp::Ordering>)> {
        use std::cmp::Ordering::*;
        match (a, b) {
            (V::Idx(x), V::Idx(y)) => vec![(st, Some(x.cmp(y)))],
            (V::I(x), V::I(y)) => vec![(st, Some(x.cmp(y)))],
            (V::Len(x), V::Len(y)) => vec![(st, Some(x.cmp(y)))],
            (V::Idx(n), V::Len(d)) => {
                let (n, d) = (*n, *d);
                let len = st.cells.len() as u16;
                if d == -2 {
                    if st.end {
                        if len < 2 {
                            return vec![(st, None)];
                        }
                        let o = if n >= len - 1 { Greater } else if st.cells[len as usize - 2] == K::R && n == len - 2 { Less } else { n.cmp(&(len - 2)) };
                        return vec![(st, Some(o))];
                    }
                    if n + 1 < len {
                        return vec![(st, Some(Less))];
                    }
                    let mut out = vec![];
                    for s in st.mat(len) {
                        out.extend(self.compare(s, &V::Idx(n), &V::Len(d)));
                    }
                    return out;
                }
                if st.end {
                    let m = match d {
                        0 => len,
                        -1 => len - 1,
                        _ => return vec![(st, None)],
                    };
                    return vec![(st, Some(n.cmp(&m)))];
                }
                if d > 0 || d < -1 {
                    return vec![(st, None)];
                }
                if n < len {
                    return vec![(st, Some(Less))];
                }
                let mut out = vec![];
                for s in st.mat(n) {
                    out.extend(self.compare(s, &V::Idx(n), &V::Len(d)));
                }
                out
            }
            (V::Len(_), V::Idx(_)) | (V::I(_), V::Idx(_)) | (V::I(_), V::VLen(..)) | (V::I(_), V::Len(_)) => self.compare(st, b, a).into_iter().map(|(s, o)| (s, o.map(|x| x.reverse()))).collect(),
            (V::Idx(n), V::I(k)) => {
                if *k == 0 {
                    if st.start {
                        return vec![(st, Some(n.cmp(&0)))];
                    }
                    if *n > 0 {
                        return vec![(st, Some(Greater))];
                    }
                }
                vec![(st, None)]
            }
            (V::Len(d), V::I(k)) => {
                if *k <= 0 && *d == 0 {
                    return vec![(st, Some(Greater))];
                }
                vec![(st, None)]
            }
            (V::VLen(n, more), V::I(k)) => {
                let n = *n as i64;
                if !*more {
                    return vec![(st, Some(n.cmp(k)))];
                }
                if n > *k {
                    return vec![(st, Some(Greater))];
                }
                let mut o = vec![(st.clone(), Some(Greater)), (st.clone(), Some(Equal))];
                if n < *k {
                    o.push((st, Some(Less)));
                }
                o
            }
            (V::Line(i), V::Line(j)) => {
                let (i, j) = (*i, *j);
                let fwd = i < j;
                let of = |s: bool| if s { Equal } else if fwd { Less } else { Greater };
                match st.same(i, j) {
                    Some(s) => vec![(st, Some(of(s)))],
                    None => {
                        let mut y = st.clone();
                        y.learn(i, j, true);
                        let mut n = st;
                        n.learn(i, j, false);
                        vec![(y, Some(Equal)), (n, Some(of(false)))]
                    }
                }
            }
            (V::LineP(i, k), V::Line(j)) => {
                let k = *k;
                let mut out = vec![];
                for (s, o) in self.compare(st, &V::Line(*i), &V::Line(*j)) {
                    match o {
                        Some(Less) => {
                            out.push((s.clone(), Some(Less)));
                            out.push((s.clone(), Some(Equal)));
                            if k > 1 {
                                out.push((s, Some(Greater)));
                            }
                        }
                        Some(_) => out.push((s, Some(Greater))),
                        None => out.push((s, None)),
                    }
                }
                out
            }
            (V::Line(_), V::LineP(..)) => self.compare(st, b, a).into_iter().map(|(s, o)| (s, o.map(|x| x.reverse()))).collect(),
            (V::B(x), V::B(y)) => vec![(st, Some(x.cmp(y)))],
            _ => vec![(st, None)],
        }
    }
    fn clean(&self, v: &V) -> bool {
        match v {
            V::Op | V::B(_) | V::I(_) | V::Str(_) | V::Fun(_) | V::Idx(_) | V::Len(_) | V::Toks => true,
            V::Adt(_, _, fs) => fs.iter().all(|x| self.clean(x)),
            _ => false,
        }
    }
    fn binop(&mut self, st: St, op: &str, a: V, b: V) -> Outs {
        let (a, b) = (self.deref(&st, &a), self.deref(&st, &b));
        use std::cmp::Ordering::*;
        match op {
            "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" => {
                if let (V::Adt(d1, v1, f1), V::Adt(d2, v2, f2)) = (&a, &b) {
                    if d1 == d2 && (v1 != v2 || f1.is_empty() && f2.is_empty()) && (op == "Eq" || op == "Ne") {
                        return vec![(st, V::B((v1 == v2) == (op == "Eq")))];
                    }
                }
                let mut out = vec![];
                for (s, o) in self.compare(st, &a, &b) {
                    match o {
                        Some(o) => {
                            let r = match op {
                                "Eq" => o == Equal,
                                "Ne" => o != Equal,
                                "Lt" => o == Less,
                                "Le" => o != Greater,
                                "Gt" => o == Greater,
                                _ => o != Less,
                            };
                            out.push((s, V::B(r)));
                        }
                        None => {
                            let c = matches!((&a, &b), (V::Op, _) | (_, V::Op)) && self.clean(&a) && self.clean(&b) || matches!((&a, &b), (V::Op, V::Line(_)) | (V::Line(_), V::Op));
                            out.extend(self.either(s, c));
                        }
                    }
                }
                out
            }
            "Add" | "AddUnchecked" | "AddWithOverflow" => {
                let r: Outs = match (&a, &b) {
                    (V::I(x), V::I(y)) => vec![(st, V::I(x + y))],
                    (V::Idx(n), V::I(k)) | (V::I(k), V::Idx(n)) if *k >= 0 && *k < 1 << 20 => {
                        self.prog = true;
                        // runs of comments have any length: what happens behind a distant place happens
                        // behind a near one as well, if the distance were smaller
                        let k = &if *k <= 8 { *k } else { 4 };
                        let mut cur = vec![(st, *n)];
                        let mut lost = vec![];
                        for _ in 0..*k {
                            let mut nx = vec![];
                            for (s, n) in cur {
                                if s.end && n as usize >= s.cells.len() {
                                    lost.push((s, V::Un));
                                    continue;
                                }
                                nx.extend(s.mat(n).into_iter().map(|s| (s, n + 1)));
                            }
                            cur = nx;
                        }
                        let mut o: Outs = cur.into_iter().map(|(s, n)| (s, V::Idx(n))).collect();
                        o.extend(lost);
                        o
                    }
                    (V::Len(d), V::I(k)) | (V::I(k), V::Len(d)) if k.abs() < 4 => vec![(st, V::Len(d + *k as i8))],
                    (V::Op, _) | (_, V::Op) if self.clean(&a) && self.clean(&b) => vec![(st, V::Op)],
                    (V::Op, V::Line(_)) | (V::Line(_), V::Op) => vec![(st, V::Op)],
                    (V::Line(n), V::I(0)) => vec![(st, V::Line(*n))],
                    (V::Line(n), V::I(k)) | (V::I(k), V::Line(n)) if (1..9).contains(k) => vec![(st, V::LineP(*n, *k as u8))],
                    _ => vec![(st, V::Un)],
                };
                if op == "AddWithOverflow" {
                    return r.into_iter().map(|(s, v)| (s, V::Adt(0, 0, vec![v, V::B(false)]))).collect();
                }
                r
            }
            "Sub" | "SubUnchecked" | "SubWithOverflow" => {
                let r: Vec<(St, V, bool)> = match (&a, &b) {
                    (V::I(x), V::I(y)) => vec![(st, V::I(x - y), x < y)],
                    (V::Idx(n), V::I(0)) => vec![(st, V::Idx(*n), false)],
                    (V::Idx(n), V::I(1)) => {
                        self.prog = true;
                        if *n == 0 {
                            let u = st.start;
                            vec![(st, V::Un, u)]
                        } else {
                            st.mat_back(*n).into_iter().map(|(s, m)| (s, V::Idx(m), false)).collect()
                        }
                    }
                    (V::Len(d), V::I(k)) if (*k == 1 || *k == 2) && *d - *k as i8 >= -2 => vec![(st, V::Len(d - *k as i8), false)],
                    (V::Op, _) | (_, V::Op) if self.clean(&a) && self.clean(&b) => vec![(st, V::Op, false)],
                    _ => vec![(st, V::Un, false)],
                };
                if op == "SubWithOverflow" {
                    return r.into_iter().map(|(s, v, u)| (s, V::Adt(0, 0, vec![v, V::B(u)]))).collect();
                }
                r.into_iter().map(|(s, v, _)| (s, v)).collect()
            }
            "BitAnd" | "BitOr" | "BitXor" => match (&a, &b) {
                (V::B(x), V::B(y)) => vec![(st, V::B(match op { "BitAnd" => *x & *y, "BitOr" => *x | *y, _ => *x ^ *y }))],
                _ => {
                    let c = self.clean(&a) && self.clean(&b);
                    self.either(st, c)
                }
            },
            _ => {
                let v = if self.clean(&a) && self.clean(&b) { V::Op } else { V::Un };
                vec![(st, v)]
            }
        }
    }
    fn rvalue(&mut self, st: St, r: &Rv) -> Outs {
        match r {
            Rv::Use(o) => {
                let v = self.operand(&st, o);
                vec![(st, v)]
            }
            Rv::Ref { pl, mutbl, .. } => match self.cur(&st, pl) {
                Cur::P(p) => vec![(st, V::Ref(p, *mutbl))],
                Cur::Val(v) => vec![(st, v)],
            },
            Rv::RawPtr(pl) => match self.cur(&st, pl) {
                Cur::P(p) => vec![(st, V::Ref(p, true))],
                Cur::Val(v) => vec![(st, v)],
            },
            Rv::Cast(_, o, _) => {
                let v = self.operand(&st, o);
                vec![(st, v)]
            }
            Rv::Bin(op, a, b) => {
                let (a, b) = (self.operand(&st, a), self.operand(&st, b));
                self.binop(st, op, a, b)
            }
            Rv::Un(op, o) => {
                let v = self.operand(&st, o);
                let d = self.deref(&st, &v);
                let v = match (op.as_str(), d) {
                    ("Not", V::B(b)) => V::B(!b),
                    ("PtrMetadata", V::Toks) | ("PtrMetadata", V::TSlice(None, None)) => V::Len(0),
                    ("PtrMetadata", V::Vec(x)) => self.vlen(&st, &x),
                    (_, V::Op) => V::Op,
                    _ => V::Un,
                };
                vec![(st, v)]
            }
            Rv::Discr(pl) => {
                let v = self.read(&st, pl);
                let v = match self.deref(&st, &v) {
                    V::Adt(_, v, _) => V::I(v as i64),
                    V::Op => V::Op,
                    _ => V::Un,
                };
                vec![(st, v)]
            }
            Rv::Agg(k, os) => {
                let mut vs: Vec<V> = os.iter().map(|o| self.operand(&st, o)).collect();
                let v = match k {
                    Agg::Adt { def, var, .. } => {
                        let d = last_seg(&norm(def)).to_string();
                        if d == "Parser" && st.start {
                            if let Some(x) = vs.get_mut(self.pf[0]) {
                                if *x == V::I(0) {
                                    *x = V::Idx(0)
                                }
                            }
                        }
                        V::Adt(intern(&d), *var, vs)
                    }
                    Agg::Tuple => V::Adt(0, 0, vs),
                    Agg::Closure(def) => match self.ir.by_name.get(def).or_else(|| self.ir.by_name.get(&norm(def))) {
                        Some(i) => V::Clo(*i, vs),
                        None => V::Un,
                    },
                    _ => V::Un,
                };
                vec![(st, v)]
            }
            _ => vec![(st, V::Un)],
        }
    }
    fn vlen(&self, st: &St, v: &VecV) -> V {
        if v.bad {
            return V::VLen(1, true);
        }
        let mut n = 0u16;
        let mut more = false;
        for s in &v.segs {
            for c in s.a..s.b {
                match st.cells.get(c as usize) {
                    Some(K::R) => {
                        n += 2;
                        more = true;
                    }
                    _ => n += 1,
                }
            }
        }
        V::VLen(n, more)
    }
    // ---------------------------------------------------------------- exploration
    fn joins(&mut self, f: usize) -> Rc<Vec<bool>> {
        if let Some(j) = self.joins.get(&f) {
            return j.clone();
        }
        let fun = &self.ir.fns[f];
        let mut n = vec![0usize; fun.blocks.len()];
        let mut r = vec![false; fun.blocks.len()];
        for (i, b) in fun.blocks.iter().enumerate() {
            if b.cl {
                continue;
            }
            for s in b.t.succs() {
                n[s] += 1;
                if fun.rpo.get(s).cloned().unwrap_or(0) <= fun.rpo.get(i).cloned().unwrap_or(0) {
                    r[s] = true;
                }
            }
        }
        let v = Rc::new((0..n.len()).map(|i| n[i] > 1 || r[i]).collect::<Vec<bool>>());
        self.joins.insert(f, v.clone());
        v
    }
    fn prune(&self, st: &mut St) {
        let fr = st.fr.last_mut().unwrap();
        if let Some(live) = self.ir.fns[fr.f].live_in.get(fr.b) {
            for (i, v) in fr.l.iter_mut().enumerate() {
                if *v != V::Un && !live.contains(&(i as u32)) {
                    *v = V::Un;
                }
            }
        }
        st.fold();
    }
    /// run the top frame until it returns; loops that make no progress are reported
    fn run(&mut self, st: St) -> Outs {
        let depth = st.fr.len();
        let mut seen: HashMap<St, usize> = HashMap::new();
        let mut locs: Vec<(usize, usize)> = vec![];
        let mut dirty: Vec<bool> = vec![];
        let mut edges: Vec<(usize, usize, bool)> = vec![];
        let mut out = vec![];
        let mut stack: Vec<(St, usize, bool)> = vec![(st, usize::MAX, false)];
        let keep = self.prog;
        while let Some((mut st, mut from, mut prog)) = stack.pop() {
            let (f, b) = {
                let t = st.fr.last().unwrap();
                (t.f, t.b)
            };
            self.fns.insert(self.ir.fns[f].name.clone());
            if from == usize::MAX || self.joins(f)[b] {
                self.prune(&mut st);
                let n = seen.len();
                let id = *seen.entry(st.clone()).or_insert(n);
                if from != usize::MAX {
                    edges.push((from, id, prog));
                }
                if id != n {
                    continue;
                }
                locs.push((f, b));
                dirty.push(st.dirty);
                self.states += 1;
                if self.states > LIMIT || self.states % 256 == 0 && self.t0.elapsed().as_secs() > 120 {
                    self.overflow = true;
                }
                from = id;
                prog = false;
            }
            if self.overflow {
                break;
            }
            self.prog = false;
            for (s, v) in self.block(st) {
                match v {
                    Some(v) if s.fr.len() == depth => out.push((s, v)),
                    _ => {
                        let p = prog || self.prog;
                        stack.push((s, from, p));
                    }
                }
            }
        }
        self.prog = keep;
        // a cycle of abstract states on which no position moved
        let n = locs.len();
        let mut adj: Vec<Vec<usize>> = vec![vec![]; n];
        for (a, b, p) in &edges {
            if !*p {
                adj[*a].push(*b);
            }
        }
        let mut color = vec![0u8; n];
        for r in 0..n {
            if color[r] != 0 {
                continue;
            }
            let mut stk = vec![(r, 0usize)];
            color[r] = 1;
            while let Some((x, i)) = stk.pop() {
                if i < adj[x].len() {
                    stk.push((x, i + 1));
                    let y = adj[x][i];
                    if color[y] == 0 {
                        color[y] = 1;
                        stk.push((y, 0));
                    } else if color[y] == 1 && !dirty[y] {
                        let (f, b) = locs[y];
                        let name = last_seg(&self.ir.fns[f].name).to_string();
                        let key = format!("loop({})", name);
                        let site = self.ir.fns[f].blocks[b].sp.to_string();
                        self.finds.entry(("C04".into(), key.clone())).or_insert(Find { prop: "C04", key, site, msg: "this loop can go round without moving any position".into() });
                    }
                } else {
                    color[x] = 2;
                }
            }
        }
        out
    }
    fn block(&mut self, st: St) -> Vec<(St, Option<V>)> {
        let (fi, bi) = {
            let t = st.fr.last().unwrap();
            (t.f, t.b)
        };
        let ir = self.ir;
        let blk = &ir.fns[fi].blocks[bi];
        let mut cur = vec![st];
        for s in &blk.s {
            match s {
                Stmt::Assign(pl, rv, sp) => {
                    self.span = sp.clone();
                    let mut next = vec![];
                    for st in cur {
                        for (mut s2, v) in self.rvalue(st, rv) {
                            self.write(&mut s2, pl, v);
                            next.push(s2);
                        }
                    }
                    cur = next;
                }
                Stmt::Dead(l) => {
                    for s in cur.iter_mut() {
                        s.fr.last_mut().unwrap().l[*l as usize] = V::Un;
                    }
                }
                Stmt::SetDiscr(pl, v) => {
                    for s in cur.iter_mut() {
                        if let V::Adt(d, _, fs) = self.read(s, pl) {
                            self.write(s, pl, V::Adt(d, *v, fs));
                        }
                    }
                }
                _ => {}
            }
        }
        self.span = blk.sp.clone();
        let mut out = vec![];
        for st in cur {
            out.extend(self.term(st, &blk.t));
        }
        out
    }
    fn goto(mut st: St, b: usize) -> (St, Option<V>) {
        st.fr.last_mut().unwrap().b = b;
        (st, None)
    }
    fn term(&mut self, st: St, t: &Term) -> Vec<(St, Option<V>)> {
        match t {
            Term::Goto(b) | Term::Drop { b, .. } => vec![Self::goto(st, *b)],
            Term::Switch { o, v, e, .. } => {
                let x = self.operand(&st, o);
                let x = self.deref(&st, &x);
                match x {
                    V::B(_) | V::I(_) => {
                        let n = match x {
                            V::B(b) => b as i128,
                            V::I(i) => i as i128,
                            _ => 0,
                        };
                        let t = v.iter().find(|a| a.0 as i128 == n).map(|a| a.1).unwrap_or(*e);
                        vec![Self::goto(st, t)]
                    }
                    x => {
                        let mut s = st;
                        if x != V::Op {
                            self.undec(&s, "branch on a value that is not modelled");
                            s.dirty = true;
                        }
                        let mut ts: Vec<usize> = v.iter().map(|a| a.1).collect();
                        ts.push(*e);
                        ts.into_iter().filter(|b| !matches!(self.ir.fns[s.fr.last().unwrap().f].blocks[*b].t, Term::Unreachable)).map(|b| Self::goto(s.clone(), b)).collect()
                    }
                }
            }
            Term::Ret => {
                let fr = st.fr.last().unwrap();
                let v = fr.l[0].clone();
                if fr.stop || fr.ret.is_none() {
                    return vec![(st, Some(v))];
                }
                let (pl, b) = fr.ret.clone().unwrap();
                let mut s = st;
                s.fr.pop();
                self.write(&mut s, &pl, v);
                match b {
                    Some(b) => vec![Self::goto(s, b)],
                    None => vec![],
                }
            }
            Term::Assert { c, ex, k, b, .. } => {
                let x = self.operand(&st, c);
                match self.deref(&st, &x) {
                    V::B(v) if v == *ex => vec![Self::goto(st, *b)],
                    V::B(_) => {
                        self.find(&st, "C03", &format!("assert({})", k), &format!("this check ({}) can fail, which is a panic", k));
                        vec![]
                    }
                    _ => vec![Self::goto(st, *b)],
                }
            }
            Term::Call { f, a, d, b, .. } => {
                let args: Vec<V> = a.iter().map(|o| self.operand(&st, o)).collect();
                let r = match f {
                    Op::Const { c: Const::Fn(r), .. } => r.clone(),
                    o => {
                        let g = self.operand(&st, o);
                        let g = self.deref(&st, &g);
                        let r = self.apply(st, &g, args);
                        return self.done(r, d, *b);
                    }
                };
                let fi = if r.local { self.ir.by_id.get(&r.id).or_else(|| r.res.as_ref().and_then(|n| self.ir.by_name.get(n))).cloned() } else { None };
                if let Some(fi) = fi {
                    let fun = &self.ir.fns[fi];
                    let nm = fun.name.clone();
                    let parts: Vec<&str> = nm.split("::").collect();
                    let a0 = args.first().map(|x| self.deref(&st, x));
                    if nm.starts_with("error::") || nm.contains("BQ2CSTError") {
                        return self.done(vec![(st, V::Op)], d, *b);
                    }
                    if let Some(V::Tok(n)) = &a0 {
                        if nm.ends_with("::is_comment") {
                            let v = match st.cells.get(*n as usize) {
                                Some(K::C) => V::B(true),
                                Some(K::T) | Some(K::E) => V::B(false),
                                _ => V::Un,
                            };
                            return self.done(vec![(st, v)], d, *b);
                        }
                        if nm.ends_with("::clone") || last_seg(&nm) == "clone" {
                            let v = a0.clone().unwrap();
                            return self.done(vec![(st, v)], d, *b);
                        }
                        if parts.contains(&"Token") {
                            let v = self.opaque(&st, *n);
                            return self.done(vec![(st, v)], d, *b);
                        }
                    }
                    if !fun.blocks.is_empty() && !fun.live_in.is_empty() && st.fr.len() < 30 {
                        let mut s = st;
                        self.push(&mut s, fi, args, Some((d.clone(), *b)), false);
                        return vec![(s, None)];
                    }
                }
                let r = self.model(st, &r, args);
                self.done(r, d, *b)
            }
            _ => vec![],
        }
    }
    fn done(&mut self, r: Outs, d: &Place, b: Option<usize>) -> Vec<(St, Option<V>)> {
        let b = match b {
            Some(b) => b,
            None => return vec![],
        };
        r.into_iter()
            .map(|(mut s, v)| {
                self.write(&mut s, d, v);
                Self::goto(s, b)
            })
            .collect()
    }
    fn push(&self, st: &mut St, f: usize, args: Vec<V>, ret: Option<(Place, Option<usize>)>, stop: bool) {
        let mut l = vec![V::Un; self.ir.fns[f].locals.len()];
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 < l.len() {
                l[i + 1] = a;
            }
        }
        st.fr.push(Frame { f, b: 0, l, ret, stop });
    }
    fn apply(&mut self, st: St, f: &V, args: Vec<V>) -> Outs {
        let f = self.deref(&st, f);
        let (fi, full) = match &f {
            V::Clo(fi, _) => {
                let mut a = vec![f.clone()];
                a.extend(args);
                (*fi, a)
            }
            V::Fun(p) => match self.ir.by_name.get(&norm(p)) {
                Some(fi) => (*fi, args),
                None => {
                    let name = last_seg(&norm(p)).to_string();
                    if name == "is_comment" {
                        if let V::Tok(n) = self.deref(&st, &args[0]) {
                            let v = V::B(st.cells[n as usize] == K::C);
                            return vec![(st, v)];
                        }
                    }
                    return vec![(st, V::Un)];
                }
            },
            _ => return vec![(st, V::Un)],
        };
        let nm = self.ir.fns[fi].name.clone();
        if nm.ends_with("Token::is_comment") {
            if let V::Tok(n) = self.deref(&st, &full[0]) {
                let v = V::B(st.cells[n as usize] == K::C);
                return vec![(st, v)];
            }
        }
        if st.fr.len() > 30 || self.ir.fns[fi].blocks.is_empty() || self.ir.fns[fi].live_in.is_empty() {
            return vec![(st, V::Un)];
        }
        let mut s = st;
        self.push(&mut s, fi, full, None, true);
        let span = self.span.clone();
        let r = self.run(s);
        self.span = span;
        r.into_iter()
            .map(|(mut s, v)| {
                let v = match &v {
                    V::Ref(p, _) if p.fr as usize == s.fr.len() - 1 => self.deref(&s, &v),
                    _ => v,
                };
                s.fr.pop();
                (s, v)
            })
            .collect()
    }
    // ---------------------------------------------------------------- lists and iterators
    fn vec_push(&mut self, st: St, p: &Path, x: V) -> Vec<St> {
        let x = self.deref(&st, &x);
        let (n, node) = match &x {
            V::Idx(n) => (*n, false),
            V::Adt(_, _, fs) => {
                // a comment node built from a token of the list, untouched
                let tok = fs.get(self.nf[0]).cloned();
                let ty = fs.get(self.nf[1]).cloned();
                let ch = fs.get(self.nf[2]).cloned();
                match (tok, ty, ch) {
                    (Some(V::Adt(_, 1, t)), Some(V::Adt(_, k, _)), Some(V::Map(m))) if k == self.comment && m.is_empty() => match t.first() {
                        Some(V::Tok(n)) => (*n, true),
                        _ => return self.spoil(st, p),
                    },
                    _ => return self.spoil(st, p),
                }
            }
            V::Tok(_) => return self.spoil(st, p),
            _ => {
                let mut st = st;
                st.dirty = true;
                return vec![st];
            }
        };
        if n as usize >= st.cells.len() && st.end {
            return self.spoil(st, p);
        }
        let mut out = vec![];
        for mut s in st.mat(n) {
            let mut v = match self.get(&s, p) {
                V::Vec(v) => v,
                _ => {
                    s.dirty = true;
                    out.push(s);
                    continue;
                }
            };
            if v.segs.is_empty() {
                v.node = node;
            }
            if v.node != node || v.segs.len() > 4 {
                v.bad = true;
            } else {
                let single = |g: &Seg| g.b == g.a + 1 && s.cells.get(g.a as usize) != Some(&K::R);
                match v.segs.last_mut() {
                    Some(g) if !g.rev && g.b == n => g.b = n + 1,
                    Some(g) if (g.rev || single(g)) && g.a == n + 1 => {
                        g.a = n;
                        g.rev = true;
                    }
                    _ => v.segs.push(Seg { a: n, b: n + 1, rev: false }),
                }
            }
            self.set(&mut s, p, V::Vec(v));
            out.push(s);
        }
        out
    }
    fn spoil(&mut self, mut st: St, p: &Path) -> Vec<St> {
        match self.get(&st, p) {
            V::Vec(mut v) => {
                v.bad = true;
                v.segs.clear();
                self.set(&mut st, p, V::Vec(v))
            }
            _ => st.dirty = true,
        }
        vec![st]
    }
    /// next element of the raw source of the iterator at p
    fn pull(&mut self, st: St, p: &Path) -> Vec<(St, Option<V>)> {
        self.prog = true;
        let it = match self.get(&st, p) {
            V::It(it) => it,
            _ => {
                let mut s = st;
                s.dirty = true;
                return vec![(s.clone(), None), (s, Some(V::Un))];
            }
        };
        let put = |m: &M, s: &mut St, src: Src| {
            if let V::It(mut it) = m.get(s, p) {
                it.src = src;
                m.set(s, p, V::It(it));
            }
        };
        match it.src.clone() {
            Src::Range(a, b) => {
                let mut out = vec![];
                for (s, o) in self.compare(st, &a, &b) {
                    match o {
                        Some(std::cmp::Ordering::Less) => {
                            let (a, b) = match self.get(&s, p) {
                                V::It(it) => match it.src {
                                    Src::Range(a, b) => (a, b),
                                    _ => continue,
                                },
                                _ => continue,
                            };
                            if it.rev {
                                let b2 = match b {
                                    V::Idx(_) => b,
                                    V::Len(d) if s.end => V::Idx((s.cells.len() as i32 + d as i32) as u16),
                                    _ => {
                                        let mut s = s;
                                        s.dirty = true;
                                        out.push((s.clone(), None));
                                        out.push((s, Some(V::Un)));
                                        continue;
                                    }
                                };
                                for (mut s2, v) in self.binop(s, "Sub", b2, V::I(1)) {
                                    let a = match self.get(&s2, p) {
                                        V::It(it) => match it.src {
                                            Src::Range(a, _) => a,
                                            _ => continue,
                                        },
                                        _ => continue,
                                    };
                                    put(self, &mut s2, Src::Range(a, v.clone()));
                                    out.push((s2, Some(v)));
                                }
                            } else {
                                for (mut s2, v) in self.binop(s, "Add", a.clone(), V::I(1)) {
                                    let b = match self.get(&s2, p) {
                                        V::It(it) => match it.src {
                                            Src::Range(_, b) => b,
                                            _ => continue,
                                        },
                                        _ => continue,
                                    };
                                    put(self, &mut s2, Src::Range(v, b));
                                    out.push((s2, Some(a.clone())));
                                }
                            }
                        }
                        Some(_) => out.push((s, None)),
                        None => {
                            let mut s = s;
                            s.dirty = true;
                            out.push((s.clone(), None));
                            out.push((s, Some(V::Un)));
                        }
                    }
                }
                out
            }
            Src::Segs(segs, node) => {
                if segs.is_empty() {
                    return vec![(st, None)];
                }
                let k = if it.rev { segs.len() - 1 } else { 0 };
                let g = segs[k].clone();
                let back = it.rev != g.rev;
                let sts: Vec<(St, u16)> = if back { st.mat_back(g.b) } else { st.mat(g.a).into_iter().map(|s| (s, g.a)).collect() };
                let mut out = vec![];
                for (mut s, n) in sts {
                    let mut segs = match self.get(&s, p) {
                        V::It(it) => match it.src {
                            Src::Segs(x, _) => x,
                            _ => continue,
                        },
                        _ => continue,
                    };
                    if back {
                        segs[k].b = n;
                    } else {
                        segs[k].a = n + 1;
                    }
                    if segs[k].a == segs[k].b {
                        segs.remove(k);
                    }
                    put(self, &mut s, Src::Segs(segs, node));
                    let x = if node {
                        V::Adt(intern("Node"), 0, self.comment_node(n))
                    } else {
                        V::Idx(n)
                    };
                    out.push((s, Some(x)));
                }
                out
            }
            Src::Toks(a, b) => {
                let a = match a {
                    Some(a) => a,
                    None if st.start => 0,
                    None => {
                        let mut s = st;
                        s.dirty = true;
                        return vec![(s.clone(), None), (s, Some(V::Un))];
                    }
                };
                if it.rev {
                    let mut s = st;
                    s.dirty = true;
                    return vec![(s.clone(), None), (s, Some(V::Un))];
                }
                if b == Some(a) || st.end && a as usize >= st.cells.len() {
                    return vec![(st, None)];
                }
                let mut out = vec![];
                for mut s in st.mat(a) {
                    let b = match self.get(&s, p) {
                        V::It(it) => match it.src {
                            Src::Toks(_, b) => b,
                            _ => continue,
                        },
                        _ => continue,
                    };
                    put(self, &mut s, Src::Toks(Some(a + 1), b));
                    out.push((s, Some(V::Tok(a))));
                }
                out
            }
        }
    }
    fn comment_node(&self, n: u16) -> Vec<V> {
        let mut fs = vec![V::Un; 3];
        fs[self.nf[0]] = some(V::Tok(n));
        fs[self.nf[1]] = V::Adt(intern("NodeType"), self.comment, vec![]);
        fs[self.nf[2]] = V::Map(vec![]);
        fs
    }
    /// next element after all adapters
    fn pull_all(&mut self, st: St, p: &Path, budget: usize) -> Vec<(St, Option<V>)> {
        if budget == 0 {
            let mut s = st;
            s.dirty = true;
            return vec![(s, None)];
        }
        if let V::It(it) = self.get(&st, p) {
            if it.done {
                return vec![(st, None)];
            }
        }
        let mut out = vec![];
        let mut seen: HashSet<St> = HashSet::new();
        let mut work = vec![st];
        while let Some(mut s) = work.pop() {
            s.fold();
            if !seen.insert(s.clone()) || seen.len() > 400 {
                continue;
            }
            for (s, x) in self.pull(s, p) {
                let x = match x {
                    Some(x) => x,
                    None => {
                        out.push((s, None));
                        continue;
                    }
                };
                // carry the element through the adapters in a scratch frame, so that it is renumbered with the rest
                let mut s = s;
                s.fr.push(Frame { f: ROOT, b: 0, l: vec![x], ret: None, stop: true });
                let top = (s.fr.len() - 1) as u16;
                let xp = Path { fr: top, l: 0, p: vec![] };
                let stages = match self.get(&s, p) {
                    V::It(it) => it.st.len(),
                    _ => 0,
                };
                let mut cur = vec![s];
                let mut ends = vec![];
                for i in 0..stages {
                    let mut next = vec![];
                    for s in cur {
                        let stage = match self.get(&s, p) {
                            V::It(it) => it.st[i].clone(),
                            _ => continue,
                        };
                        let x = self.get(&s, &xp);
                        match stage {
                            Stage::Enum => {
                                let mut s = s;
                                let v = match x {
                                    V::Tok(n) => V::Adt(0, 0, vec![V::Idx(n), V::Tok(n)]),
                                    _ => {
                                        s.dirty = true;
                                        V::Un
                                    }
                                };
                                self.set(&mut s, &xp, v);
                                next.push(s);
                            }
                            Stage::Map(c) => {
                                for (mut s, v) in self.apply(s, &c, vec![x.clone()]) {
                                    let v = self.deref(&s, &v);
                                    self.set(&mut s, &xp, v);
                                    next.push(s);
                                }
                            }
                            Stage::Filter(c) | Stage::TakeWhile(c) | Stage::SkipWhile(c, false) => {
                                for (mut s, v) in self.apply(s, &c, vec![x.clone()]) {
                                    let vs = match self.deref(&s, &v) {
                                        V::B(b) => vec![b],
                                        V::Op => vec![true, false],
                                        _ => {
                                            s.dirty = true;
                                            vec![true, false]
                                        }
                                    };
                                    for b in vs {
                                        let mut s = s.clone();
                                        let st2 = match self.get(&s, p) {
                                            V::It(it) => it.st[i].clone(),
                                            _ => continue,
                                        };
                                        match (st2, b) {
                                            (Stage::Filter(_), true) | (Stage::TakeWhile(_), true) => next.push(s),
                                            (Stage::Filter(_), false) | (Stage::SkipWhile(..), true) => {
                                                s.fr.pop();
                                                work.push(s);
                                            }
                                            (Stage::TakeWhile(_), false) => {
                                                if let V::It(mut it) = self.get(&s, p) {
                                                    it.done = true;
                                                    self.set(&mut s, p, V::It(it));
                                                }
                                                s.fr.pop();
                                                ends.push(s);
                                            }
                                            (Stage::SkipWhile(c, _), false) => {
                                                if let V::It(mut it) = self.get(&s, p) {
                                                    it.st[i] = Stage::SkipWhile(c, true);
                                                    self.set(&mut s, p, V::It(it));
                                                }
                                                next.push(s);
                                            }
                                            _ => {}
                                        }
                                    }
                                }
                            }
                            Stage::SkipWhile(_, true) => next.push(s),
                            Stage::Take(k) => {
                                let mut s = s;
                                if let V::It(mut it) = self.get(&s, p) {
                                    if k == 0 {
                                        it.done = true;
                                    } else {
                                        it.st[i] = Stage::Take(k - 1);
                                    }
                                    self.set(&mut s, p, V::It(it));
                                }
                                if k == 0 {
                                    s.fr.pop();
                                    ends.push(s);
                                } else {
                                    next.push(s);
                                }
                            }
                        }
                    }
                    cur = next;
                }
                for mut s in cur {
                    let x = self.get(&s, &xp);
                    s.fr.pop();
                    out.push((s, Some(x)));
                }
                for s in ends {
                    out.push((s, None));
                }
            }
        }
        out
    }
    /// run an iterator to its end, doing something with each element; the iterator and an accumulator live in a scratch frame
    fn drain(&mut self, st: St, it: V, acc: V, f: &mut dyn FnMut(&mut M, St, &Path, V) -> Vec<(St, bool)>) -> Outs {
        let mut s = st;
        s.fr.push(Frame { f: ROOT, b: 0, l: vec![it, acc, V::Un], ret: None, stop: true });
        let top = (s.fr.len() - 1) as u16;
        let ip = Path { fr: top, l: 0, p: vec![] };
        let ap = Path { fr: top, l: 1, p: vec![] };
        let mut seen: HashSet<St> = HashSet::new();
        let mut work = vec![s];
        let mut out = vec![];
        while let Some(mut s) = work.pop() {
            s.fold();
            if !seen.insert(s.clone()) {
                continue;
            }
            if seen.len() > 2000 {
                self.overflow = true;
                break;
            }
            for (s, x) in self.pull_all(s, &ip, 100) {
                match x {
                    None => out.push(s),
                    Some(x) => {
                        for (s, go) in f(self, s, &ap, x) {
                            if go {
                                work.push(s)
                            } else {
                                out.push(s)
                            }
                        }
                    }
                }
            }
        }
        out.into_iter()
            .map(|mut s| {
                let v = self.get(&s, &ap);
                s.fr.pop();
                (s, v)
            })
            .collect()
    }
    fn iter_of(&mut self, st: &St, v: &V) -> Option<V> {
        let mk = |src: Src| Some(V::It(Box::new(It { src, rev: false, done: false, st: vec![] })));
        match self.deref(st, v) {
            V::It(i) => Some(V::It(i)),
            V::Adt(d, _, fs) if d == intern("Range") && fs.len() == 2 => mk(Src::Range(fs[0].clone(), fs[1].clone())),
            V::Vec(x) if !x.bad => mk(Src::Segs(x.segs, x.node)),
            V::Toks => mk(Src::Toks(None, None)),
            V::TSlice(a, b) => mk(Src::Toks(a, b)),
            _ => None,
        }
    }
    fn edge(&mut self, st: St, v: &VecV, last: bool) -> Outs {
        if v.segs.is_empty() {
            return vec![(st, none())];
        }
        let g = if last { v.segs.last().unwrap() } else { &v.segs[0] }.clone();
        let node = v.node;
        if last != g.rev {
            st.mat_back(g.b).into_iter().map(|(s, n)| (s, some(if node { V::Op } else { V::Idx(n) }))).collect()
        } else {
            st.mat(g.a).into_iter().map(|s| (s, some(if node { V::Op } else { V::Idx(g.a) }))).collect()
        }
    }
    // ---------------------------------------------------------------- the standard library
    fn model(&mut self, st: St, r: &FnRef, args: Vec<V>) -> Outs {
        let n = r.norm.clone();
        let name = last_seg(&n).to_string();
        let n = n.as_str();
        let d: Vec<V> = args.iter().map(|x| self.deref(&st, x)).collect();
        let a0 = d.first().cloned().unwrap_or(V::Un);
        let path = |v: &V| match v {
            V::Ref(p, _) => Some(p.clone()),
            _ => None,
        };
        let one = |st: St, v: V| vec![(st, v)];
        // reference to a reference: find the innermost place
        let place0 = {
            let mut p = args.first().and_then(path);
            while let Some(q) = &p {
                match self.get(&st, q) {
                    V::Ref(q2, _) => p = Some(q2),
                    _ => break,
                }
            }
            p
        };
        match name.as_str() {
            "branch" => match &a0 {
                V::Adt(x, v, fs) if *x == intern("Result") => {
                    let w = if *v == 0 { V::Adt(intern("ControlFlow"), 0, fs.clone()) } else { V::Adt(intern("ControlFlow"), 1, vec![a0.clone()]) };
                    return one(st, w);
                }
                V::Adt(x, v, fs) if *x == intern("Option") => {
                    let w = if *v == 1 { V::Adt(intern("ControlFlow"), 0, fs.clone()) } else { V::Adt(intern("ControlFlow"), 1, vec![a0.clone()]) };
                    return one(st, w);
                }
                _ => {}
            },
            "from_residual" | "from" | "into" | "borrow" | "as_ref" | "as_mut" | "as_slice" | "as_mut_slice" | "deref" | "deref_mut" | "by_ref" | "copied" | "cloned" | "to_owned" | "iter_mut" => {
                if matches!(name.as_str(), "deref_mut" | "as_mut" | "as_mut_slice" | "by_ref" | "deref" | "as_slice" | "as_ref") {
                    if let Some(p) = &place0 {
                        let m = matches!(&args[0], V::Ref(_, true));
                        if !matches!(a0, V::Adt(..)) {
                            return one(st, V::Ref(p.clone(), m));
                        }
                    }
                }
                if name != "iter_mut" {
                    return one(st, a0);
                }
            }
            "clone" | "to_vec" => return one(st, a0),
            "new" | "with_capacity" | "default" if n.contains("Vec") || (name == "default" && self.dest_is_vec(r)) => return one(st, V::Vec(VecV::default())),
            "new" | "default" if n.contains("HashMap") => return one(st, V::Map(vec![])),
            "to_string" | "to_uppercase" | "as_str" => {
                if let V::Str(_) = a0 {
                    return one(st, a0);
                }
            }
            "take" if n.contains("mem::take") => {
                if let Some(p) = place0 {
                    let mut s = st;
                    let empty = match &a0 {
                        V::Vec(_) => V::Vec(VecV::default()),
                        _ => V::Un,
                    };
                    self.set(&mut s, &p, empty);
                    return one(s, a0);
                }
            }
            "replace" if n.contains("mem::replace") => {
                if let Some(p) = place0 {
                    let mut s = st;
                    self.set(&mut s, &p, d[1].clone());
                    return one(s, a0);
                }
            }
            "insert" if matches!(a0, V::Map(_)) && d.len() == 3 => {
                if let (Some(p), V::Map(mut m), V::Str(k)) = (place0.clone(), a0.clone(), d[1].clone()) {
                    let mut s = st;
                    let mut v = d[2].clone();
                    if let V::Adt(_, _, fs) = &mut v {
                        for f in fs.iter_mut() {
                            *f = self.deref(&s, f);
                        }
                    }
                    let old = m.iter().position(|x| x.0 == k).map(|i| m.remove(i));
                    m.push((k, v));
                    m.sort_by(|a, b| a.0.cmp(&b.0));
                    self.set(&mut s, &p, V::Map(m));
                    return one(s, match old { Some(o) => some(o.1), None => none() });
                }
            }
            "push" | "push_back" => {
                if let (Some(p), V::Vec(_)) = (&place0, &a0) {
                    return self.vec_push(st, p, args[1].clone()).into_iter().map(|s| (s, V::Op)).collect();
                }
            }
            "clear" => {
                if let (Some(p), V::Vec(_)) = (&place0, &a0) {
                    let mut s = st;
                    self.set(&mut s, p, V::Vec(VecV::default()));
                    return one(s, V::Op);
                }
            }
            "reverse" => {
                if let (Some(p), V::Vec(v)) = (&place0, &a0) {
                    let mut s = st;
                    let mut v = v.clone();
                    v.segs.reverse();
                    for g in v.segs.iter_mut() {
                        if !(g.b == g.a + 1 && s.cells.get(g.a as usize) != Some(&K::R)) {
                            g.rev = !g.rev;
                        }
                    }
                    self.set(&mut s, p, V::Vec(v));
                    return one(s, V::Op);
                }
            }
            "len" => match &a0 {
                V::Toks | V::TSlice(None, None) => return one(st, V::Len(0)),
                V::Vec(v) => {
                    let x = self.vlen(&st, v);
                    return one(st, x);
                }
                _ => {}
            },
            "is_empty" => match &a0 {
                V::Toks => return one(st, V::B(false)),
                V::Vec(v) if !v.bad => return one(st, V::B(v.segs.is_empty())),
                V::Adt(x, _, fs) if *x == intern("Range") && fs.len() == 2 => {
                    let fs = fs.clone();
                    return self.binop(st, "Ge", fs[0].clone(), fs[1].clone());
                }
                _ => {}
            },
            "last" | "first" => match &a0 {
                V::Vec(v) if !v.bad => {
                    let v = v.clone();
                    return self.edge(st, &v, name == "last");
                }
                V::Toks if name == "last" => return one(st, some(V::Op)),
                _ => {}
            },
            "index" | "get" => {
                if let (V::Toks | V::TSlice(None, None), Some(i)) = (&a0, d.get(1)) {
                    let get = name == "get";
                    let i = match i {
                        V::I(0) if st.start => V::Idx(0),
                        x => x.clone(),
                    };
                    match i {
                        V::Idx(k) => {
                            if st.end && k as usize >= st.cells.len() {
                                if get {
                                    return one(st, none());
                                }
                                self.find(&st, "C03", "token-index", "the token list is indexed beyond its end");
                                return vec![];
                            }
                            return st.mat(k).into_iter().map(|s| (s, if get { some(V::Tok(k)) } else { V::Tok(k) })).collect();
                        }
                        V::Len(0) if !get => {
                            self.find(&st, "C03", "token-index", "the token list is indexed beyond its end");
                            return vec![];
                        }
                        V::Len(-1) => {
                            let v = if st.end { V::Tok(st.cells.len() as u16 - 1) } else { V::Op };
                            return one(st, if get { some(v) } else { v });
                        }
                        V::Adt(x, _, fs) if !get => {
                            let ix = |v: Option<&V>| match v {
                                Some(V::Idx(n)) => Some(Some(*n)),
                                Some(V::Len(0)) => Some(None),
                                Some(V::I(0)) => Some(None),
                                _ => None,
                            };
                            let (a, b) = if x == intern("RangeFrom") { (ix(fs.first()), Some(None)) } else if x == intern("RangeTo") { (Some(None), ix(fs.first())) } else if x == intern("Range") { (ix(fs.first()), ix(fs.get(1))) } else { (None, None) };
                            if let (Some(a), Some(b)) = (a, b) {
                                if let (Some(a), Some(b)) = (a, b) {
                                    if a > b {
                                        self.find(&st, "C03", "token-slice", "the token list is sliced with an end before its start");
                                        return vec![];
                                    }
                                }
                                return one(st, V::TSlice(a, b));
                            }
                        }
                        _ => {}
                    }
                }
            }
            "iter" | "into_iter" => {
                if let Some(v) = self.iter_of(&st, &a0) {
                    // an iterator by reference stays where it is
                    if matches!(a0, V::It(_)) && matches!(args[0], V::Ref(..)) {
                        return one(st, args[0].clone());
                    }
                    return one(st, v);
                }
            }
            "rev" | "map" | "filter" | "take_while" | "skip_while" | "enumerate" | "skip" | "take" if self.iter_of(&st, &a0).is_some() => {
                if let Some(V::It(mut it)) = self.iter_of(&st, &a0) {
                    let f = args.get(1).cloned().unwrap_or(V::Un);
                    let f = self.deref(&st, &f);
                    match name.as_str() {
                        "rev" if it.st.is_empty() => {
                            it.rev = !it.rev;
                            return one(st, V::It(it));
                        }
                        "rev" if it.st.iter().all(|s| matches!(s, Stage::Map(_))) => {
                            it.rev = !it.rev;
                            return one(st, V::It(it));
                        }
                        "map" => it.st.push(Stage::Map(f)),
                        "filter" => it.st.push(Stage::Filter(f)),
                        "take_while" => it.st.push(Stage::TakeWhile(f)),
                        "skip_while" => it.st.push(Stage::SkipWhile(f, false)),
                        "enumerate" if it.st.is_empty() && matches!(it.src, Src::Toks(None, _)) => it.st.push(Stage::Enum),
                        "skip" => match (&mut it.src, &f) {
                            (Src::Toks(a @ None, _), V::Idx(k)) if it.st.iter().all(|s| matches!(s, Stage::Enum)) => *a = Some(*k),
                            _ => return one(st, V::Un),
                        },
                        "take" if matches!(f, V::I(k) if (0..=9).contains(&k)) => it.st.push(Stage::Take(match f { V::I(k) => k as u8, _ => 0 })),
                        "take" => match (&mut it.src, &f) {
                            (Src::Toks(None, b @ None), V::Idx(k)) if it.st.iter().all(|s| matches!(s, Stage::Enum)) => *b = Some(*k),
                            _ => return one(st, V::Un),
                        },
                        _ => return one(st, V::Un),
                    }
                    return one(st, V::It(it));
                }
            }
            "next" => {
                if let Some(p) = place0.clone() {
                    // a plain range is turned into an iterator where it stands
                    let mut s = st;
                    if !matches!(a0, V::It(_)) {
                        match self.iter_of(&s, &a0) {
                            Some(v) => self.set(&mut s, &p, v),
                            None => {
                                s.dirty = true;
                                return vec![(s.clone(), none()), (s, some(V::Un))];
                            }
                        }
                    }
                    return self
                        .pull_all(s, &p, 50)
                        .into_iter()
                        .map(|(s, v)| (s, match v { Some(v) => some(v), None => none() }))
                        .collect();
                }
            }
            "collect" => {
                if let Some(it) = self.iter_of(&st, &a0) {
                    return self.drain(st, it, V::Vec(VecV::default()), &mut |m, s, ap, x| m.vec_push(s, ap, x).into_iter().map(|s| (s, true)).collect());
                }
            }
            "extend" | "append" | "extend_from_slice" => {
                if let (Some(p), V::Vec(_)) = (place0.clone(), &a0) {
                    if let Some(it) = self.iter_of(&st, &d[1]) {
                        let src = args.get(1).and_then(path);
                        let r = self.drain(st, it, V::Un, &mut |m, s, _, x| m.vec_push(s, &p, x).into_iter().map(|s| (s, true)).collect());
                        return r
                            .into_iter()
                            .map(|(mut s, _)| {
                                if name == "append" {
                                    if let Some(q) = &src {
                                        self.set(&mut s, q, V::Vec(VecV::default()));
                                    }
                                }
                                (s, V::Op)
                            })
                            .collect();
                    }
                }
            }
            "for_each" => {
                if let Some(it) = self.iter_of(&st, &a0) {
                    let f = args[1].clone();
                    return self.drain(st, it, f, &mut |m, s, ap, x| {
                        let f = m.get(&s, ap);
                        m.apply(s, &f, vec![x]).into_iter().map(|(s, _)| (s, true)).collect()
                    });
                }
            }
            "find" | "any" | "all" if self.iter_of(&st, &a0).is_some() => {
                if let Some(it) = self.iter_of(&st, &a0) {
                    let f = args[1].clone();
                    let f = self.deref(&st, &f);
                    let kind = name.clone();
                    let end = match kind.as_str() {
                        "find" => none(),
                        "any" => V::B(false),
                        _ => V::B(true),
                    };
                    let r = self.drain(st, it, V::Adt(0, 0, vec![f, end]), &mut |m, s, ap, x| {
                        let mut s = s;
                        s.fr.push(Frame { f: ROOT, b: 0, l: vec![x.clone()], ret: None, stop: true });
                        let xp = Path { fr: (s.fr.len() - 1) as u16, l: 0, p: vec![] };
                        let f = match m.get(&s, ap) {
                            V::Adt(_, _, fs) => fs[0].clone(),
                            _ => V::Un,
                        };
                        let mut out = vec![];
                        for (mut s, v) in m.apply(s, &f, vec![x]) {
                            let bs = match m.deref(&s, &v) {
                                V::B(b) => vec![b],
                                V::Op => vec![true, false],
                                _ => {
                                    s.dirty = true;
                                    vec![true, false]
                                }
                            };
                            for b in bs {
                                let mut s = s.clone();
                                let x = m.get(&s, &xp);
                                s.fr.pop();
                                let stop = match kind.as_str() {
                                    "find" | "any" => b,
                                    _ => !b,
                                };
                                if stop {
                                    if let V::Adt(_, _, mut fs) = m.get(&s, ap) {
                                        fs[1] = match kind.as_str() {
                                            "find" => some(x),
                                            "any" => V::B(true),
                                            _ => V::B(false),
                                        };
                                        m.set(&mut s, ap, V::Adt(0, 0, fs));
                                    }
                                }
                                out.push((s, !stop));
                            }
                        }
                        out
                    });
                    return r
                        .into_iter()
                        .map(|(s, v)| match v {
                            V::Adt(_, _, fs) => (s, fs[1].clone()),
                            v => (s, v),
                        })
                        .collect();
                }
            }
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" => {
                if d.len() == 2 {
                    let op = match name.as_str() {
                        "eq" => "Eq",
                        "ne" => "Ne",
                        "lt" => "Lt",
                        "le" => "Le",
                        "gt" => "Gt",
                        _ => "Ge",
                    };
                    return self.binop(st, op, d[0].clone(), d[1].clone());
                }
            }
            "add" | "sub" | "wrapping_add" | "saturating_add" | "saturating_sub" | "add_assign" | "sub_assign" if d.len() == 2 => {
                let (x, y) = (d[0].clone(), d[1].clone());
                let r = self.binop(st, if name.contains("add") { "Add" } else { "Sub" }, x, y);
                if name.ends_with("_assign") {
                    if let Some(p) = place0 {
                        return r
                            .into_iter()
                            .map(|(mut s, v)| {
                                self.set(&mut s, &p, v);
                                (s, V::Op)
                            })
                            .collect();
                    }
                } else {
                    return r;
                }
                return vec![];
            }
            "contains" => match (&a0, d.get(1)) {
                (V::Vec(v), Some(V::Idx(k))) if !v.bad && !v.node => {
                    let b = v.segs.iter().any(|g| g.a <= *k && *k < g.b);
                    return one(st, V::B(b));
                }
                (V::Adt(x, _, fs), Some(k)) if *x == intern("Range") && fs.len() == 2 => {
                    let (lo, hi, k) = (fs[0].clone(), fs[1].clone(), k.clone());
                    let mut out = vec![];
                    for (s, v) in self.binop(st, "Le", lo, k.clone()) {
                        match v {
                            V::B(false) => out.push((s, V::B(false))),
                            _ => out.extend(self.binop(s, "Lt", k.clone(), hi.clone())),
                        }
                    }
                    return out;
                }
                _ => {}
            },
            "nth" => {
                if let (Some(it), Some(V::I(k))) = (self.iter_of(&st, &a0), d.get(1)) {
                    let r = self.drain(st, it, V::Adt(0, 0, vec![V::I(*k), none()]), &mut |m, mut s, ap, x| {
                        let left = match m.get(&s, ap) {
                            V::Adt(_, _, fs) => match fs[0] {
                                V::I(k) => k,
                                _ => 0,
                            },
                            _ => 0,
                        };
                        let v = if left == 0 { vec![V::I(0), some(x)] } else { vec![V::I(left - 1), none()] };
                        m.set(&mut s, ap, V::Adt(0, 0, v));
                        vec![(s, left > 0)]
                    });
                    return r
                        .into_iter()
                        .map(|(s, v)| match v {
                            V::Adt(_, _, fs) => (s, fs[1].clone()),
                            v => (s, v),
                        })
                        .collect();
                }
            }
            "max" | "min" if d.len() == 2 => {
                let (x, y) = (d[0].clone(), d[1].clone());
                let mut out = vec![];
                for (s, o) in self.compare(st, &x, &y) {
                    match o {
                        Some(o) => {
                            let big = if o == std::cmp::Ordering::Less { y.clone() } else { x.clone() };
                            let small = if o == std::cmp::Ordering::Less { x.clone() } else { y.clone() };
                            out.push((s, if name == "max" { big } else { small }));
                        }
                        None => out.push((s, V::Un)),
                    }
                }
                return out;
            }
            "unwrap" | "expect" | "unwrap_or" | "unwrap_or_default" | "is_some" | "is_none" | "is_ok" | "is_err" | "ok" | "err" | "unwrap_or_else" | "map_or" | "map_or_else" | "and_then" | "ok_or" | "ok_or_else" | "map_err" | "is_some_and" | "is_ok_and" => {
                if let V::Adt(x, v, fs) = &a0 {
                    let opt = *x == intern("Option");
                    if opt || *x == intern("Result") {
                        let good = if opt { *v == 1 } else { *v == 0 };
                        let inner = fs.first().cloned().unwrap_or(V::Un);
                        let b = |x: bool, st: St| vec![(st, V::B(x))];
                        match name.as_str() {
                            "unwrap" | "expect" => {
                                if good {
                                    return one(st, inner);
                                }
                                self.find(&st, "C03", &name, "this value can be absent, which is a panic");
                                return vec![];
                            }
                            "unwrap_or" => return one(st, if good { inner } else { d[1].clone() }),
                            "unwrap_or_else" => {
                                if good {
                                    return one(st, inner);
                                }
                                let f = args[1].clone();
                                return self.apply(st, &f, if opt { vec![] } else { vec![inner] });
                            }
                            "is_some" | "is_ok" => return b(good, st),
                            "is_none" | "is_err" => return b(!good, st),
                            "ok" => return one(st, if good { some(inner) } else { none() }),
                            "err" => return one(st, if good { none() } else { some(inner) }),
                            "map_or" => {
                                if !good {
                                    return one(st, d[1].clone());
                                }
                                let f = args[2].clone();
                                return self.apply(st, &f, vec![inner]);
                            }
                            "map_or_else" => {
                                let f = args[if good { 2 } else { 1 }].clone();
                                let a = if good || !opt { vec![inner] } else { vec![] };
                                return self.apply(st, &f, a);
                            }
                            "and_then" | "is_some_and" | "is_ok_and" => {
                                if !good {
                                    return one(st, if name == "and_then" { a0.clone() } else { V::B(false) });
                                }
                                let f = args[1].clone();
                                return self.apply(st, &f, vec![inner]);
                            }
                            "ok_or" | "ok_or_else" => {
                                return one(st, if good { V::Adt(intern("Result"), 0, vec![inner]) } else { V::Adt(intern("Result"), 1, vec![V::Op]) });
                            }
                            "map_err" => return one(st, a0.clone()),
                            _ => {}
                        }
                    }
                }
            }
            _ => {}
        }
        if name == "map" {
            if let V::Adt(x, v, fs) = &a0 {
                let opt = *x == intern("Option");
                if opt || *x == intern("Result") {
                    let good = if opt { *v == 1 } else { *v == 0 };
                    if !good {
                        return one(st, a0.clone());
                    }
                    let (x, v) = (*x, *v);
                    let f = args[1].clone();
                    let inner = fs.first().cloned().unwrap_or(V::Un);
                    return self.apply(st, &f, vec![inner]).into_iter().map(|(s, r)| (s, V::Adt(x, v, vec![r]))).collect();
                }
            }
        }
        if name.starts_with("panic") || n.contains("panicking") || name == "begin_panic" || name == "unreachable" {
            self.find(&st, "C03", "panic", "a panic can be reached");
            return vec![];
        }
        // how long a comment is and what is in it is open, except for how it starts
        if a0 == V::Tx && matches!(name.as_str(), "matches" | "len" | "contains" | "ends_with" | "lines" | "trim_end" | "rmatches" | "rfind" | "split" | "rsplit") {
            return one(st, V::Op);
        }
        // anything else: the result depends on its arguments only; what it may write to is lost
        let mut s = st;
        let hot = args.iter().any(|a| matches!(a, V::Ref(_, true)));
        if hot {
            self.undec(&s, &format!("effect of {}", n));
            s.dirty = true;
        }
        let clean = args.iter().zip(&d).all(|(_, x)| self.clean(x) || matches!(x, V::Tok(k) if self.opaque(&s, *k) == V::Op));
        one(s, if clean { V::Op } else { V::Un })
    }
    fn dest_is_vec(&self, r: &FnRef) -> bool {
        r.res.as_deref().map_or(false, |x| x.contains("vec::Vec")) || r.path.contains("vec::Vec")
    }
}

fn base(cells: Vec<K>, end: bool, start: bool) -> St {
    St { cells, facts: vec![], end, start, dirty: false, fr: vec![] }
}

/// every situation in which a method of the parser may be called: the cursor stands on a token, the comments
/// before it back to the trailing comments of its predecessor are listed as leading, and the unbroken run of
/// comments after it that start on its line as trailing
fn situations(m: &M) -> Vec<(St, u16)> {
    let mut out = vec![];
    for lead in [None, Some(K::C), Some(K::R)] {
        for (cur, trail, next) in [
            (K::E, None, None),
            (K::T, None, Some(K::T)),
            (K::T, None, Some(K::E)),
            (K::T, None, Some(K::C)),
            (K::T, Some(K::C), Some(K::T)),
            (K::T, Some(K::C), Some(K::E)),
            (K::T, Some(K::C), Some(K::C)),
            (K::T, Some(K::R), Some(K::T)),
            (K::T, Some(K::R), Some(K::E)),
            (K::T, Some(K::R), Some(K::C)),
        ] {
            let mut cells = vec![];
            if let Some(k) = lead {
                cells.push(k);
            }
            let p = cells.len() as u16;
            cells.push(cur);
            let mut facts = vec![];
            let mut tr = vec![];
            if let Some(k) = trail {
                facts.push((p, cells.len() as u16, true));
                tr.push(Seg { a: p + 1, b: p + 2, rev: false });
                cells.push(k);
            }
            let mut end = cur == K::E;
            if let Some(k) = next {
                if k == K::C {
                    facts.push((p, cells.len() as u16, false));
                }
                end |= k == K::E;
                cells.push(k);
            }
            let mut st = base(cells, end, false);
            st.facts = facts;
            let ld = if lead.is_some() { vec![Seg { a: 0, b: 1, rev: false }] } else { vec![] };
            let mut fs = vec![V::Un; 4];
            fs[m.pf[0]] = V::Idx(p);
            fs[m.pf[1]] = V::Vec(VecV { node: false, segs: ld, bad: false });
            fs[m.pf[2]] = V::Vec(VecV { node: false, segs: tr, bad: false });
            fs[m.pf[3]] = V::Toks;
            st.fr.push(Frame { f: ROOT, b: 0, l: vec![V::Adt(intern("Parser"), 0, fs), V::Idx(p)], ret: None, stop: true });
            out.push((st, p));
        }
    }
    out
}

impl<'a> M<'a> {
    fn kth(&self, st: &St, p: u16, k: usize) -> Result<u16, bool> {
        // Ok(cell), Err(true): certainly none, Err(false): not known yet
        if k == 0 {
            return Ok(p);
        }
        let mut n = 0;
        for i in p as usize + 1..st.cells.len() {
            if matches!(st.cells[i], K::T | K::E) {
                n += 1;
                if n == k {
                    return Ok(i as u16);
                }
            }
        }
        Err(st.end)
    }
    /// the cells of a list of positions, in order; None if it is not understood
    fn listed(&self, v: &V, node: bool) -> Option<Vec<u16>> {
        match v {
            V::Vec(x) if !x.bad && (x.segs.is_empty() || x.node == node) => {
                let mut out = vec![];
                for g in &x.segs {
                    if g.rev {
                        // a reversed stretch: told apart by descending cells; a run of several comments shows itself by repetition
                        out.extend((g.a..g.b).rev());
                        out.push(u16::MAX);
                    } else {
                        out.extend(g.a..g.b);
                    }
                }
                Some(out)
            }
            _ => None,
        }
    }
    /// the comment lists of the cursor must be exactly the runs around the token at p
    fn check_lists(&mut self, st: &St, from: u16, p: u16, lead: &V, trail: &V, node: bool) {
        self.obligations += 2;
        let com = |i: u16| matches!(st.cells.get(i as usize), Some(K::C) | Some(K::R));
        let want: Vec<u16> = (from..p).collect();
        match self.listed(lead, node) {
            None => self.find(st, "C02", "leading-kind", "the leading comments of a token are not its comments"),
            Some(x) if x == want => {}
            Some(x) => {
                let mut y: Vec<u16> = x.iter().cloned().filter(|i| *i != u16::MAX).collect();
                y.sort();
                if x.iter().any(|i| *i != u16::MAX && !com(*i)) {
                    self.find(st, "C02", "leading-token", "a token that is no comment is listed as a leading comment")
                } else if y == want {
                    self.find(st, "C02", "leading-order", "the comments in front of a token are not kept in source order")
                } else if want.iter().any(|i| !y.contains(i)) {
                    self.find(st, "C02", "leading-lost", "a comment in front of a token is not listed as its leading comment")
                } else {
                    self.find(st, "C02", "leading-extra", "a comment is listed as leading that is not in front of the token, or is listed twice")
                }
            }
        }
        match self.listed(trail, node) {
            None => self.find(st, "C02", "trailing-kind", "the trailing comments of a token are not its comments"),
            Some(x) => {
                let n = x.len() as u16;
                let want: Vec<u16> = (p + 1..p + 1 + n).collect();
                if x != want {
                    let mut y: Vec<u16> = x.iter().cloned().filter(|i| *i != u16::MAX).collect();
                    y.sort();
                    if x.contains(&u16::MAX) && y == (p + 1..p + 1 + y.len() as u16).collect::<Vec<_>>() {
                        self.find(st, "C02", "trailing-order", "the comments behind a token are not kept in source order")
                    } else {
                        self.find(st, "C02", "trailing-run", "the trailing comments of a token are not the run of comments right behind it")
                    }
                    return;
                }
                for i in &want {
                    if !com(*i) {
                        self.find(st, "C02", "trailing-token", "a token that is no comment is listed as a trailing comment");
                        return;
                    }
                    if st.same(p, *i) != Some(true) {
                        self.find(st, "C02", "trailing-line", "a comment that does not start on the line of the token is listed as its trailing comment");
                        return;
                    }
                }
                let e = p + 1 + n;
                if (e as usize) < st.cells.len() {
                    if com(e) && st.same(p, e) != Some(false) {
                        self.find(st, "C02", "trailing-missed", "a comment that starts on the line of the token, right behind it, is not listed as its trailing comment");
                    }
                } else if !st.end {
                    self.find(st, "C02", "trailing-missed", "a comment that starts on the line of the token, right behind it, is not listed as its trailing comment");
                }
            }
        }
    }
    fn parser_fields(&self, v: &V) -> Option<[V; 4]> {
        match v {
            V::Adt(_, _, fs) if fs.len() == 4 => Some([fs[self.pf[0]].clone(), fs[self.pf[1]].clone(), fs[self.pf[2]].clone(), fs[self.pf[3]].clone()]),
            _ => None,
        }
    }
    fn enter(&mut self, st: &St, f: usize, args: Vec<V>) -> Outs {
        self.states = 0;
        if self.t0.elapsed().as_secs() > 90 {
            let w = self.what.clone();
            self.undecided.insert(format!("{}: time ran out", w), "-".into());
            return vec![];
        }
        let mut s = st.clone();
        self.push(&mut s, f, args, None, true);
        let r = self.run(s);
        if self.overflow {
            self.overflow = false;
            let w = self.what.clone();
            self.undecided.insert(format!("{}: too many abstract states", w), "-".into());
            return vec![];
        }
        r.into_iter()
            .map(|(mut s, v)| {
                let v = if matches!(v, V::Ref(..)) { self.deref(&s, &v) } else { v };
                let top = s.fr.len() - 1;
                s.fr[0].l.push(v);
                s.fr.remove(top);
                let v = s.fr[0].l.last().unwrap().clone();
                (s, v)
            })
            .collect()
    }
}

pub fn run(ir: &Ir) -> SegOut {
    let mut out = SegOut::default();
    let item = |n: &str| ir.items.iter().find(|i| i.name == n);
    let ix = |n: &str, f: &str| item(n).and_then(|i| i.fields.iter().position(|x| x.n == f));
    let vx = |n: &str, f: &str| {
        item(n).and_then(|i| i.vars.iter().position(|x| x == f)).or_else(|| ir.tys.iter().find(|t| t.def == n && t.is_enum).and_then(|t| t.vars.iter().position(|x| x == f)))
    };
    let p = "parser::Parser";
    let pf = ir.parser_fields();
    let nf = [ix("cst::Node", "token"), ix("cst::Node", "node_type"), ix("cst::Node", "children")];
    let tf = [ix("token::Token", "line"), ix("token::Token", "literal")];
    let (comment, nodevec) = (vx("cst::NodeType", "Comment"), vx("cst::ContentType", "NodeVec"));
    let nfields = item(p).map(|i| i.fields.len()).unwrap_or(0);
    if pf.iter().chain(&nf).chain(&tf).any(|x| x.is_none()) || comment.is_none() || nodevec.is_none() || nfields != 4 {
        out.undecided.push(("the cursor of the parser is not represented as expected".into(), "-".into()));
        out.failed = true;
        return out;
    }
    let u = |x: Option<usize>| x.unwrap();
    let mut m = M {
        ir,
        newmode: None,
        finds: Default::default(),
        undecided: Default::default(),
        fns: Default::default(),
        states: 0,
        span: "-".into(),
        joins: Default::default(),
        prog: false,
        overflow: false,
        pf: [u(pf[0]), u(pf[1]), u(pf[2]), u(pf[3])],
        nf: [u(nf[0]), u(nf[1]), u(nf[2])],
        tf: [u(tf[0]), u(tf[1])],
        comment: u(comment) as u32,
        nodevec: u(nodevec) as u32,
        what: String::new(),
        obligations: 0,
        t0: std::time::Instant::now(),
    };
    let get = |n: &str| ir.by_name.get(&format!("{}::{}", p, n)).cloned();
    let selfref = V::Ref(Path { fr: 0, l: 0, p: vec![] }, true);
    let sits = situations(&m);
    // ---- Parser::new
    match get("new") {
        None => out.missing.push("parser::Parser::new".into()),
        Some(f) => {
            m.what = "Parser::new".into();
            m.newmode = Some(f);
            let mut st = base(vec![], false, true);
            st.fr.push(Frame { f: ROOT, b: 0, l: vec![], ret: None, stop: true });
            for (s, v) in m.enter(&st, f, vec![V::Toks]) {
                out.runs += 1;
                let fs = match m.parser_fields(&v) {
                    Some(x) => x,
                    None => {
                        m.undecided.insert("Parser::new: result".into(), "-".into());
                        continue;
                    }
                };
                if fs[3] != V::Toks {
                    m.undecided.insert("Parser::new: token list".into(), "-".into());
                    continue;
                }
                match &fs[0] {
                    V::Idx(n) => {
                        m.obligations += 1;
                        let com = |i: usize| matches!(s.cells.get(i), Some(K::C) | Some(K::R));
                        let first = (0..s.cells.len()).find(|i| !com(*i));
                        if first != Some(*n as usize) {
                            m.find(&s, "C01", "start", "parsing does not start at the first token that is no comment");
                            continue;
                        }
                        m.check_lists(&s, 0, *n, &fs[1], &fs[2], false);
                    }
                    _ => {
                        m.undecided.insert("Parser::new: position".into(), "-".into());
                    }
                }
            }
            m.newmode = None;
        }
    }
    // ---- get_offset_index, get_token, is_eof
    for fname in ["get_offset_index", "get_token", "is_eof"] {
        let f = match get(fname) {
            None => {
                if fname == "get_token" {
                    out.missing.push(format!("{}::{}", p, fname));
                }
                continue;
            }
            Some(f) => f,
        };
        m.what = format!("Parser::{}", fname);
        for (st, pos) in &sits {
            for k in 0..=6usize {
                for (s, v) in m.enter(st, f, vec![selfref.clone(), V::I(k as i64)]) {
                    out.runs += 1;
                    m.obligations += 1;
                    let pos = match s.fr[0].l[1] {
                        V::Idx(n) => n,
                        _ => *pos,
                    };
                    let want = m.kth(&s, pos, k);
                    if fname == "is_eof" {
                        let w = match want {
                            Ok(i) => s.cells[i as usize] == K::E,
                            Err(true) => true,
                            Err(false) => {
                                m.find(&s, "C01", &format!("eof({})", k), "end of input is decided without looking at the token in question");
                                continue;
                            }
                        };
                        match v {
                            V::B(b) if b == w => {}
                            V::B(_) => m.find(&s, "C15", &format!("eof({})", k), "the end of the input is not recognised where it is, or is seen where it is not"),
                            _ => {
                                m.undecided.insert(format!("{}: result", fname), "-".into());
                            }
                        }
                        continue;
                    }
                    match v {
                        V::Adt(_, 0, fs) => {
                            let got = match fs.first().map(|x| m.deref(&s, x)) {
                                Some(V::Idx(n)) if fname == "get_offset_index" => Some(n),
                                Some(V::Tok(n)) if fname == "get_token" => Some(n),
                                _ => None,
                            };
                            match got {
                                Some(g) => {
                                    if want != Ok(g) {
                                        let com = matches!(s.cells.get(g as usize), Some(K::C) | Some(K::R));
                                        let prop = if com || k > 0 { "C09" } else { "C01" };
                                        let msg = if com { "looking ahead can yield a comment" } else { "looking ahead does not yield the token that many non-comment tokens further on" };
                                        m.find(&s, prop, &format!("lookahead({})", k), msg);
                                        if !com {
                                            m.find(&s, "C01", &format!("lookahead({})", k), msg);
                                        }
                                    }
                                }
                                None => {
                                    m.undecided.insert(format!("{}: result", fname), "-".into());
                                }
                            }
                        }
                        V::Adt(_, 1, _) => {
                            if want != Err(true) {
                                m.find(&s, "C09", &format!("lookahead-fails({})", k), "looking ahead fails although there is such a token");
                            }
                        }
                        _ => {
                            m.undecided.insert(format!("{}: result", fname), "-".into());
                        }
                    }
                }
            }
        }
    }
    // ---- next_token
    match get("next_token") {
        None => out.missing.push(format!("{}::next_token", p)),
        Some(f) => {
            m.what = "Parser::next_token".into();
            for (st, _) in &sits {
                // remember where the trailing comments end
                let mut st = st.clone();
                let e = match &st.fr[0].l[0] {
                    V::Adt(_, _, fs) => match (&fs[m.pf[2]], &st.fr[0].l[1]) {
                        (V::Vec(v), V::Idx(p)) => v.segs.first().map(|g| g.b).unwrap_or(*p + 1),
                        _ => 0,
                    },
                    _ => 0,
                };
                // a position after the last token cannot be named as a cell, but it can as a boundary
                st.fr[0].l.push(V::Idx(e));
                for (s, v) in m.enter(&st, f, vec![selfref.clone()]) {
                    out.runs += 1;
                    m.obligations += 1;
                    let (p0, e) = match (&s.fr[0].l[1], &s.fr[0].l[2]) {
                        (V::Idx(p), V::Idx(e)) => (*p, *e),
                        _ => continue,
                    };
                    let want = m.kth(&s, p0, 1);
                    match v {
                        V::Adt(_, 1, _) => {
                            if want != Err(true) {
                                m.find(&s, "C01", "advance-fails", "moving on fails although there is a further token");
                            }
                        }
                        V::Adt(_, 0, _) => {
                            let fs = match m.parser_fields(&s.fr[0].l[0]) {
                                Some(x) => x,
                                None => {
                                    m.undecided.insert("next_token: cursor".into(), "-".into());
                                    continue;
                                }
                            };
                            match fs[0] {
                                V::Idx(n) => {
                                    if want != Ok(n) {
                                        m.find(&s, "C01", "advance", "moving on does not lead to the next token that is no comment");
                                        continue;
                                    }
                                    m.check_lists(&s, e, n, &fs[1], &fs[2], false);
                                }
                                _ => {
                                    m.undecided.insert("next_token: position".into(), "-".into());
                                }
                            }
                        }
                        _ => {
                            m.undecided.insert("next_token: result".into(), "-".into());
                        }
                    }
                }
            }
        }
    }
    // ---- construct_node
    match get("construct_node") {
        None => out.missing.push(format!("{}::construct_node", p)),
        Some(f) => {
            let nt = ir.tys.iter().find(|t| t.def == "cst::NodeType" && t.is_enum);
            let vars: Vec<String> = nt.map(|t| t.vars.clone()).unwrap_or_default();
            let mut order: Vec<(usize, &String)> = vars.iter().enumerate().collect();
            order.sort_by_key(|x| !matches!(x.1.as_str(), "EOF" | "Unknown" | "Keyword"));
            for (vi, vn) in order {
                m.what = "Parser::construct_node".into();
                for (st, _) in &sits {
                    if st.cells.len() > 4 {
                        continue;
                    }
                    for (s, v) in m.enter(st, f, vec![selfref.clone(), V::Adt(intern("NodeType"), vi as u32, vec![])]) {
                        out.runs += 1;
                        let pos = match s.fr[0].l[1] {
                            V::Idx(n) => n,
                            _ => continue,
                        };
                        let node = match v {
                            V::Adt(_, 0, fs) => fs.first().map(|x| m.deref(&s, x)).unwrap_or(V::Un),
                            V::Adt(_, 1, _) => continue,
                            _ => V::Un,
                        };
                        let (tok, kids) = match &node {
                            V::Adt(_, _, fs) if fs.len() == 3 => (fs[m.nf[0]].clone(), fs[m.nf[2]].clone()),
                            _ => {
                                m.undecided.insert("construct_node: result".into(), "-".into());
                                continue;
                            }
                        };
                        m.obligations += 1;
                        let good = if vn == "EOF" { matches!(tok, V::Adt(_, 0, _)) } else { matches!(&tok, V::Adt(_, 1, t) if t.first() == Some(&V::Tok(pos))) };
                        if !good {
                            let prop = if vn == "EOF" { "C15" } else { "C01" };
                            m.find(&s, prop, &format!("token({})", if vn == "EOF" { "EOF" } else { "node" }), "a node is not built from the current token");
                        }
                        let kids = match kids {
                            V::Map(k) => k,
                            _ => {
                                m.undecided.insert("construct_node: children".into(), "-".into());
                                continue;
                            }
                        };
                        let mut lists = vec![];
                        for k in ["leading_comments", "trailing_comments"] {
                            lists.push(match kids.iter().find(|x| &*x.0 == k) {
                                None => V::Vec(VecV { node: true, segs: vec![], bad: false }),
                                Some((_, V::Adt(_, w, fs))) if *w == m.nodevec => match fs.first() {
                                    Some(V::Vec(x)) if x.segs.is_empty() && !x.bad => {
                                        m.find(&s, "C02", "empty-list", "a node gets an empty list of comments");
                                        V::Vec(x.clone())
                                    }
                                    Some(x) => x.clone(),
                                    None => V::Un,
                                },
                                Some((_, V::Adt(..))) => V::Vec(VecV { bad: true, ..Default::default() }),
                                _ => V::Un,
                            });
                        }
                        if lists.iter().any(|x| *x == V::Un) {
                            m.undecided.insert("construct_node: comment lists".into(), "-".into());
                            continue;
                        }
                        // leading comments are the cells in front of the cursor, from the first one on
                        m.check_lists(&s, 0, pos, &lists[0], &lists[1], true);
                    }
                }
            }
        }
    }
    out.finds = m.finds.values().cloned().collect();
    out.undecided.extend(m.undecided.iter().map(|(k, v)| (k.clone(), v.clone())));
    out.states = out.runs;
    out.fns = m.fns.iter().cloned().collect();
    out.obligations = m.obligations;
    out
}
