//! A small abstract machine for rustc MIR that inlines calls and explores the finite graph of
//! abstract states (used for the tokenizer and for the token predicates).
//! Integers are known relative to the start of the current token and to the reading position,
//! characters are sets of character classes, text is a slice of the input or a lexical category.
use crate::fx::{HashMap as FxMap, HashSet as FxSet};
use crate::ir::*;
use crate::spec;
use std::collections::BTreeMap;
use std::rc::Rc;

// ---------------------------------------------------------------- characters
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct CS(pub [u64; 3]);
pub const NONASCII: std::ops::Range<usize> = 128..132; // alphabetic, whitespace, numeric, other
pub const EOF: usize = 132;
pub const NATOM: usize = 133;
impl CS {
    pub const EMPTY: CS = CS([0, 0, 0]);
    pub fn one(i: usize) -> CS {
        let mut c = CS::EMPTY;
        c.0[i / 64] |= 1 << (i % 64);
        c
    }
    pub fn by(f: impl Fn(usize) -> bool) -> CS {
        let mut c = CS::EMPTY;
        for i in 0..NATOM {
            if f(i) {
                c = c.or(CS::one(i));
            }
        }
        c
    }
    pub fn full() -> CS {
        CS::by(|_| true)
    }
    pub fn chars() -> CS {
        CS::by(|i| i != EOF)
    }
    pub fn of(s: &str) -> CS {
        let mut c = CS::EMPTY;
        for ch in s.chars() {
            c = c.or(CS::one(atom(ch)));
        }
        c
    }
    pub fn or(self, o: CS) -> CS {
        CS([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2]])
    }
    pub fn and(self, o: CS) -> CS {
        CS([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2]])
    }
    pub fn minus(self, o: CS) -> CS {
        CS([self.0[0] & !o.0[0], self.0[1] & !o.0[1], self.0[2] & !o.0[2]])
    }
    pub fn is_empty(self) -> bool {
        self == CS::EMPTY
    }
    pub fn len(self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
    pub fn has(self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn iter(self) -> impl Iterator<Item = usize> {
        (0..NATOM).filter(move |i| self.has(*i))
    }
    pub fn single(self) -> Option<usize> {
        if self.len() == 1 {
            self.iter().next()
        } else {
            None
        }
    }
    pub fn show(self) -> String {
        let n = self.len();
        if n == 0 {
            return "nothing".into();
        }
        if n as usize >= NATOM - 1 {
            return "any".into();
        }
        let mut s = String::new();
        for i in self.iter().take(12) {
            match i {
                EOF => s.push_str("<end>"),
                128 => s.push_str("<letter>"),
                129 => s.push_str("<blank>"),
                130 => s.push_str("<numeral>"),
                131 => s.push_str("<other>"),
                _ => s.push_str(&(i as u8 as char).escape_default().to_string()),
            }
        }
        if n > 12 {
            s.push_str("..");
        }
        s
    }
}
pub fn atom(c: char) -> usize {
    if c.is_ascii() {
        c as usize
    } else if c.is_alphabetic() {
        128
    } else if c.is_whitespace() {
        129
    } else if c.is_numeric() {
        130
    } else {
        131
    }
}
/// atoms on which a predicate of char holds, may hold
fn pred(name: &str, radix: Option<u64>) -> Option<(CS, CS)> {
    let a = |f: &dyn Fn(char) -> bool, na: [u8; 4]| -> (CS, CS) {
        // na: 0 no, 1 yes, 2 either, for the four non-ASCII classes
        let yes = CS::by(|i| if i < 128 { f(i as u8 as char) } else { i < EOF && na[i - 128] > 0 });
        let no = CS::by(|i| if i < 128 { !f(i as u8 as char) } else { i < EOF && na[i - 128] != 1 });
        (yes, no)
    };
    Some(match name {
        "is_alphabetic" => a(&|c| c.is_alphabetic(), [1, 0, 0, 0]),
        "is_alphanumeric" => a(&|c| c.is_alphanumeric(), [1, 0, 1, 0]),
        "is_numeric" => a(&|c| c.is_numeric(), [2, 0, 1, 0]),
        "is_whitespace" => a(&|c| c.is_whitespace(), [0, 1, 0, 0]),
        "is_control" => a(&|c| c.is_control(), [0, 0, 0, 2]),
        "is_uppercase" => a(&|c| c.is_uppercase(), [2, 0, 0, 2]),
        "is_lowercase" => a(&|c| c.is_lowercase(), [2, 0, 0, 2]),
        "is_ascii" => a(&|_| true, [0; 4]),
        "is_ascii_alphabetic" => a(&|c| c.is_ascii_alphabetic(), [0; 4]),
        "is_ascii_alphanumeric" => a(&|c| c.is_ascii_alphanumeric(), [0; 4]),
        "is_ascii_digit" => a(&|c| c.is_ascii_digit(), [0; 4]),
        "is_ascii_hexdigit" => a(&|c| c.is_ascii_hexdigit(), [0; 4]),
        "is_ascii_whitespace" => a(&|c| c.is_ascii_whitespace(), [0; 4]),
        "is_ascii_punctuation" => a(&|c| c.is_ascii_punctuation(), [0; 4]),
        "is_ascii_graphic" => a(&|c| c.is_ascii_graphic(), [0; 4]),
        "is_ascii_control" => a(&|c| c.is_ascii_control(), [0; 4]),
        "is_ascii_uppercase" => a(&|c| c.is_ascii_uppercase(), [0; 4]),
        "is_ascii_lowercase" => a(&|c| c.is_ascii_lowercase(), [0; 4]),
        "is_digit" => {
            let r = radix? as u32;
            if !(2..=36).contains(&r) {
                return None;
            }
            a(&|c| c.is_digit(r), [0; 4])
        }
        _ => return None,
    })
}

// ---------------------------------------------------------------- values
/// distance from the start of the current token / from the reading position, where known
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Off {
    pub s: Option<i8>,
    pub c: Option<i8>,
}
impl Off {
    pub const NONE: Off = Off { s: None, c: None };
    fn add(self, k: i64) -> Off {
        let f = |o: Option<i8>, lo: i64, hi: i64| {
            o.and_then(|x| {
                let v = x as i64 + k;
                if v < lo || v > hi {
                    None
                } else {
                    Some(v as i8)
                }
            })
        };
        Off { s: f(self.s, -1, 4), c: f(self.c, -3, 5) }
    }
    fn lost(self) -> bool {
        self.s.is_none() && self.c.is_none()
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum I {
    K(u64),
    Pos(Off),
    Line(Off),
    Col(Off),
    Len,
    Depth(i8),
    Dist, // length of a part of the token that is long enough to be of any length
    Cnt,
    Top,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Elem {
    Comment,
    Cm(u8), // a comment of one kind: #, --, /*
    NC,
    Older,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ch {
    pub set: CS,
    pub at: Off,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Str {
    K(Rc<str>),
    Sl(Off, Off, bool),
    Of(Ch),
    El(Elem, bool),
    Cat(u16, bool),
    Msg,
    Text, // the program text as it was passed
    Alt,  // text of the program that was altered
    Top,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Lazy(Rc<str>), // a static
    Un,
    I(I),
    B(bool),
    C(Ch),
    S(Str),
    Adt(u32, u32, Rc<Vec<V>>), // interned def, variant, fields
    Ref(Path),
    Val(Rc<V>), // reference to a value that is not in a place
    Clo(usize, Rc<Vec<V>>),
    Fun(Rc<str>),
    Input,
    Slice(Off, Off),
    ChIt(Off, Off),
    Toks,
    Tok(Elem),
    TokIt { rev: bool, filt: Option<Rc<V>>, started: u8 },
    Words(Rc<Vec<Rc<str>>>), // list of constant strings
    WordIt(Rc<Vec<Rc<str>>>, u16),
    CatIt(u16, u16), // iterator over the characters of a text of this category
    Re(Rc<str>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Path {
    fr: u16,
    l: u32,
    p: Vec<u32>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Frame {
    pub f: usize,
    pub b: usize,
    pub l: Rc<Vec<V>>,
    pub ret: Option<(Place, Option<usize>)>,
    pub stop: bool, // nested evaluation ends when this frame returns
}
pub const LOOK: usize = 4;
pub const DMAX: u8 = 4;
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct St {
    pub fr: Vec<Frame>,
    pub win: [CS; LOOK + 2], // -1 ..= LOOK around the reading position
    pub s0: CS,
    pub d: Option<u8>,
    pub spec: u8,
    pub col1: bool,
    pub line1: bool,
    pub dz: u8,   // nesting of type parameters: 0 none, 1 some, 2 unknown
    pub last: u8, // last token: 0 none, 1 comment, 2 other
    pub nc: u8,   // last non-comment token, one of: 1 ARRAY, 2 STRUCT, 4 other (8: not a word); 0 none
    pub err: bool,
    pub eofs: u8,
    pub imp: bool, // a branch was taken without knowing which: nothing found from here on is certain
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub prop: &'static str,
    pub key: String,
    pub site: String,
    pub msg: String,
}
pub enum Mode {
    Lexer,
    Pred,
}
pub struct M<'a> {
    pub ir: &'a Ir,
    pub mode: Mode,
    pub finds: BTreeMap<(String, String), Finding>,
    pub undecided: BTreeMap<String, String>,
    pub unmod: usize, // calls that are not modelled
    pub seen: FxMap<St, usize>,
    pub edges: Vec<(usize, usize, bool)>,
    pub locs: Vec<(usize, usize)>,
    pub nstates: usize,
    pub steps: usize,
    pub fns: std::collections::BTreeSet<String>,
    pub emits: std::collections::BTreeSet<String>,
    pub panics: std::collections::BTreeSet<String>,
    pub errsites: std::collections::BTreeSet<String>,
    pub cmps: std::collections::BTreeSet<String>,
    pub results: Vec<(St, V)>,
    pub fpos: usize,
    pub fline: usize,
    pub fcol: usize,
    pub fextra: Vec<usize>,
    pub ftoks: usize,
    pub tlit: usize,
    pub tline: usize,
    pub tcol: usize,
    pub root: bool,
    pub cats: Vec<spec::Cat>,
    pub head: Option<V>,
    pub limit: usize,
    pub nloops: usize,
    pub overflow: bool,
    prog: bool,
    joins: Vec<Option<Rc<Vec<bool>>>>,
    cur_span: Rc<str>,
}

pub fn intern(s: &str) -> u32 {
    crate::dom::intern(s)
}
fn opt(v: Option<V>) -> V {
    match v {
        Some(x) => V::Adt(intern("Option"), 1, Rc::new(vec![x])),
        None => V::Adt(intern("Option"), 0, Rc::new(vec![])),
    }
}
fn last_seg(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}
type Outs = Vec<(St, V)>;

enum Cur {
    P(Path),
    Val(V),
}

impl<'a> M<'a> {
    pub fn new(ir: &'a Ir, mode: Mode) -> M<'a> {
        let fld = |item: &str, n: &str| ir.items.iter().find(|i| i.name == item).and_then(|i| i.fields.iter().position(|f| f.n == n)).unwrap_or(99);
        let lx = "lexer::Lexer";
        let extra = ir
            .items
            .iter()
            .find(|i| i.name == lx)
            .map(|i| i.fields.iter().enumerate().filter(|(_, f)| ir.tys[f.t].s == "usize" && !["position", "line", "column"].contains(&f.n.as_str())).map(|x| x.0).collect())
            .unwrap_or_default();
        M {
            ir,
            mode,
            finds: BTreeMap::new(),
            undecided: BTreeMap::new(),
            unmod: 0,
            seen: Default::default(),
            edges: vec![],
            locs: vec![],
            nstates: 0,
            steps: 0,
            fns: Default::default(),
            emits: Default::default(),
            panics: Default::default(),
            errsites: Default::default(),
            cmps: Default::default(),
            results: vec![],
            fpos: fld(lx, "position"),
            fline: fld(lx, "line"),
            fcol: fld(lx, "column"),
            fextra: extra,
            ftoks: fld(lx, "tokens"),
            tlit: fld("token::Token", "literal"),
            tline: fld("token::Token", "line"),
            tcol: fld("token::Token", "column"),
            root: false,
            head: None,
            cats: vec![],
            limit: 400_000,
            nloops: 0,
            overflow: false,
            prog: false,
            joins: vec![None; ir.fns.len()],
            cur_span: "".into(),
        }
    }
    pub fn init(&self, f: usize, args: Vec<V>) -> St {
        let mut l = vec![V::Un; self.ir.fns[f].locals.len()];
        for (i, a) in args.into_iter().enumerate() {
            l[i + 1] = a;
        }
        let mut win = [CS::full(); LOOK + 2];
        win[0] = CS::EMPTY; // nothing before the input
        St {
            fr: vec![Frame { f, b: 0, l: Rc::new(l), ret: None, stop: false }],
            win,
            s0: CS::EMPTY,
            d: None,
            spec: spec::BETWEEN,
            col1: true,
            line1: true,
            dz: 0,
            last: 0,
            nc: 0,
            err: false,
            eofs: 0,
            imp: false,
        }
    }
    fn here(&self, st: &St) -> String {
        // innermost function of the crate
        st.fr.last().map(|f| self.ir.fns[f.f].name.clone()).unwrap_or_default()
    }
    fn who(&self, st: &St) -> String {
        // innermost function below the dispatcher: names the construct without line numbers
        let n: Vec<&str> = st.fr.iter().map(|f| last_seg(&self.ir.fns[f.f].name)).collect();
        let n: Vec<&str> = n.into_iter().filter(|x| !["next_char", "construct_token", "get_char"].contains(x)).collect();
        n.last().cloned().unwrap_or("?").to_string()
    }
    pub fn find(&mut self, st: &St, prop: &'static str, key: &str, msg: &str) {
        if st.imp {
            self.undec(st, &format!("{} {}", prop, key));
            return;
        }
        let site = self.cur_span.to_string();
        let key = format!("{}|{}", self.who(st), key);
        self.finds.entry((prop.to_string(), key.clone())).or_insert(Finding { prop, key, site, msg: msg.to_string() });
    }
    fn undec(&mut self, st: &St, what: &str) {
        let k = format!("{}: {}", self.here(st), what);
        let sp = self.cur_span.to_string();
        self.undecided.entry(k).or_insert(sp);
    }
    // ------------------------------------------------------------ places
    fn get(&self, st: &St, p: &Path) -> V {
        let mut v = match st.fr.get(p.fr as usize).and_then(|f| f.l.get(p.l as usize)) {
            Some(v) => v.clone(),
            None => return V::Un,
        };
        for i in &p.p {
            v = self.field(&v, *i);
        }
        v
    }
    fn field(&self, v: &V, i: u32) -> V {
        match v {
            V::Adt(_, _, fs) | V::Clo(_, fs) => fs.get(i as usize).cloned().unwrap_or(V::Un),
            V::Tok(e) => {
                if i as usize == self.tlit {
                    V::S(Str::El(*e, false))
                } else {
                    V::Un
                }
            }
            _ => V::Un,
        }
    }
    fn set_in(v: &mut V, p: &[u32], x: V) {
        if p.is_empty() {
            *v = x;
            return;
        }
        match v {
            V::Adt(_, _, fs) | V::Clo(_, fs) => {
                let fs = Rc::make_mut(fs);
                let i = p[0] as usize;
                while fs.len() <= i {
                    fs.push(V::Un);
                }
                Self::set_in(&mut fs[i], &p[1..], x);
            }
            V::Un => {
                let mut fs = vec![V::Un; p[0] as usize + 1];
                Self::set_in(&mut fs[p[0] as usize], &p[1..], x);
                *v = V::Adt(0, 0, Rc::new(fs));
            }
            _ => *v = V::Un,
        }
    }
    fn set(&self, st: &mut St, p: &Path, x: V) {
        if let Some(f) = st.fr.get_mut(p.fr as usize) {
            let l = Rc::make_mut(&mut f.l);
            Self::set_in(&mut l[p.l as usize], &p.p, x);
        }
    }
    fn cur(&mut self, st: &St, pl: &Place) -> Cur {
        let fr = (st.fr.len() - 1) as u16;
        let mut c = Cur::P(Path { fr, l: pl.l, p: vec![] });
        for e in &pl.p {
            match e {
                Pe::Deref => {
                    let v = match &c {
                        Cur::P(p) => self.get(st, p),
                        Cur::Val(v) => v.clone(),
                    };
                    c = match v {
                        V::Ref(p) => Cur::P(p),
                        V::Val(x) => Cur::Val((*x).clone()),
                        x => Cur::Val(x), // text, slices and the like stand for references to themselves
                    };
                }
                Pe::Field(i, _, _) => {
                    c = match c {
                        Cur::P(mut p) => {
                            p.p.push(*i);
                            Cur::P(p)
                        }
                        Cur::Val(v) => Cur::Val(self.field(&v, *i)),
                    }
                }
                Pe::Var(_) => {}
                _ => c = Cur::Val(V::Un),
            }
        }
        c
    }
    fn read(&mut self, st: &St, pl: &Place) -> V {
        match self.cur(st, pl) {
            Cur::P(p) => self.get(st, &p),
            Cur::Val(v) => v,
        }
    }
    fn write(&mut self, st: &mut St, pl: &Place, v: V) {
        if let Cur::P(p) = self.cur(st, pl) {
            self.set(st, &p, v)
        }
    }
    pub fn deref(&self, st: &St, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..8 {
            v = match v {
                V::Ref(p) => self.get(st, &p),
                V::Val(x) => (*x).clone(),
                x => return x,
            }
        }
        v
    }
    fn operand(&mut self, st: &St, o: &Op) -> V {
        match o {
            Op::Copy(p) | Op::Move(p) => self.read(st, p),
            Op::Const { c, ty, .. } => match c {
                Const::Int(n) => V::I(I::K((*n).min(u64::MAX as u128) as u64)),
                Const::Bool(b) => V::B(*b),
                Const::Char(c) => V::C(Ch { set: CS::one(atom(*c)), at: Off::NONE }),
                Const::Str(s) => V::S(Str::K(s.as_str().into())),
                Const::Variant(v) => V::Adt(intern(last_seg(&norm(&self.ir.tys[*ty].def))), *v, Rc::new(vec![])),
                Const::Fn(r) => V::Fun(r.path.as_str().into()),
                Const::Other(pp) => {
                    if pp.starts_with('[') && pp.contains('"') {
                        if let Ok(w) = serde_json::from_str::<Vec<String>>(pp) {
                            return V::Words(Rc::new(w.iter().map(|x| x.as_str().into()).collect()));
                        }
                    }
                    V::Un
                }
                Const::Static(n) => {
                    if let Some(pp) = self.ir.items.iter().find(|i| &i.name == n).and_then(|i| i.pp.as_ref()) {
                        if let Ok(w) = serde_json::from_str::<Vec<String>>(pp.trim_start_matches('&')) {
                            return V::Words(Rc::new(w.iter().map(|x| x.as_str().into()).collect()));
                        }
                    }
                    V::Lazy(n.as_str().into())
                }
                _ => V::Un,
            },
            Op::Rt => V::Un,
        }
    }
    // ------------------------------------------------------------ characters at positions
    fn slot(&self, st: &St, at: Off) -> Option<CS> {
        if let Some(c) = at.c {
            if c >= -1 && c <= LOOK as i8 {
                return Some(st.win[(c + 1) as usize]);
            }
        }
        if at.s == Some(0) && st.spec != spec::BETWEEN {
            return Some(st.s0);
        }
        None
    }
    /// false if the state becomes impossible
    fn refine(&self, st: &mut St, at: Off, set: CS) -> bool {
        let mut ok = true;
        if let Some(c) = at.c {
            if c >= -1 && c <= LOOK as i8 {
                let i = (c + 1) as usize;
                st.win[i] = st.win[i].and(set);
                ok &= !st.win[i].is_empty();
                if !st.win[i].has(EOF) {
                    for j in 1..i {
                        st.win[j] = st.win[j].minus(CS::one(EOF));
                        ok &= !st.win[j].is_empty();
                    }
                } else if st.win[i].len() == 1 {
                    for j in i + 1..LOOK + 2 {
                        st.win[j] = st.win[j].and(CS::one(EOF));
                        ok &= !st.win[j].is_empty();
                    }
                }
            }
        }
        let first = at.s == Some(0) || (st.d.is_some() && at.c.map(|c| c as i64 + st.d.unwrap() as i64) == Some(0));
        if first && st.spec != spec::BETWEEN {
            st.s0 = st.s0.and(set);
            ok &= !st.s0.is_empty();
            if let Some(d) = st.d {
                if d == 1 {
                    st.win[0] = st.win[0].and(set);
                }
            }
        }
        ok
    }
    fn eff(&self, st: &St, c: &Ch) -> CS {
        match self.slot(st, c.at) {
            Some(s) => c.set.and(s),
            None => c.set,
        }
    }
    fn fork_char(&mut self, st: St, c: &Ch, yes: CS, no: CS) -> Vec<(St, bool)> {
        let e = self.eff(&st, c);
        let mut out = vec![];
        // a character that is no longer in the window: the answer is not remembered
        let loose = self.slot(&st, c.at).is_none() && !e.and(yes).is_empty() && !e.and(no).is_empty();
        for (set, b) in [(yes, true), (no, false)] {
            let x = e.and(set);
            if !x.is_empty() {
                let mut s = st.clone();
                s.imp |= loose;
                if self.refine(&mut s, c.at, x) {
                    out.push((s, b));
                }
            }
        }
        out
    }
    /// is there a character at this position (forks)
    fn fork_in(&mut self, st: St, at: Off) -> Option<Vec<(St, bool)>> {
        let s = self.slot(&st, at)?;
        if at.c.map_or(true, |c| c < 0) {
            return Some(vec![(st, true)]);
        }
        let mut out = vec![];
        for (x, b) in [(s.minus(CS::one(EOF)), true), (s.and(CS::one(EOF)), false)] {
            if !x.is_empty() {
                let mut n = st.clone();
                if self.refine(&mut n, at, x) {
                    out.push((n, b));
                }
            }
        }
        Some(out)
    }
    // ------------------------------------------------------------ the reading position moves
    fn map_vals(st: &mut St, f: &dyn Fn(&mut V)) {
        fn rec(v: &mut V, f: &dyn Fn(&mut V)) {
            f(v);
            match v {
                V::Adt(_, _, fs) | V::Clo(_, fs) => {
                    if fs.iter().any(has_off) {
                        for x in Rc::make_mut(fs).iter_mut() {
                            rec(x, f)
                        }
                    }
                }
                V::Val(x) => {
                    if has_off(x) {
                        rec(Rc::make_mut(x), f)
                    }
                }
                _ => {}
            }
        }
        fn has_off(v: &V) -> bool {
            match v {
                V::I(_) | V::C(_) | V::S(_) | V::Slice(..) | V::ChIt(..) => true,
                V::Adt(_, _, fs) | V::Clo(_, fs) => fs.iter().any(has_off),
                V::Val(x) => has_off(x),
                _ => false,
            }
        }
        for fr in st.fr.iter_mut() {
            if fr.l.iter().any(has_off) {
                for v in Rc::make_mut(&mut fr.l).iter_mut() {
                    rec(v, f);
                }
            }
        }
    }
    fn offs(v: &mut V, pos: &dyn Fn(&mut Off), line: &dyn Fn(&mut Off), col: &dyn Fn(&mut Off)) {
        match v {
            V::I(i) => {
                match i {
                    I::Pos(o) => pos(o),
                    I::Line(o) => line(o),
                    I::Col(o) => col(o),
                    _ => {}
                };
                if let I::Pos(o) | I::Line(o) | I::Col(o) = i {
                    if o.lost() {
                        *i = I::Cnt;
                    }
                }
            }
            V::C(c) => pos(&mut c.at),
            V::S(Str::Sl(a, b, _)) | V::Slice(a, b) | V::ChIt(a, b) => {
                pos(a);
                pos(b);
            }
            V::S(Str::Of(c)) => pos(&mut c.at),
            _ => {}
        }
    }
    fn advance(&mut self, st: St) -> Vec<St> {
        self.prog = true;
        let mut cur = st.win[1];
        if cur.has(EOF) {
            if cur.len() == 1 {
                self.find(&st, "C05", "past-the-end", "the reading position moves past the end of the input");
                return vec![];
            }
            cur = cur.minus(CS::one(EOF));
        }
        // group the possible characters by what they do
        let mut groups: Vec<((u8, bool), CS)> = vec![];
        for a in cur.iter() {
            let ns = spec::step(st.spec, a, st.dz, self.depth_tracked(&st));
            for n in ns {
                let k = (n, a == '\n' as usize);
                match groups.iter_mut().find(|g| g.0 == k) {
                    Some(g) => g.1 = g.1.or(CS::one(a)),
                    None => groups.push((k, CS::one(a))),
                }
            }
        }
        let mut out = vec![];
        for ((ns, nl), set) in groups {
            let mut s = st.clone();
            if !self.refine(&mut s, Off { s: None, c: Some(0) }, set) {
                continue;
            }
            let start = st.spec == spec::BETWEEN && ns != spec::BETWEEN;
            if start {
                s.s0 = set;
                s.d = Some(0);
                Self::map_vals(&mut s, &|v| {
                    let f = |o: &mut Off| o.s = if o.c.map_or(false, |c| c >= -1) { o.c } else { None };
                    Self::offs(v, &f, &f, &f)
                });
                if ns == spec::GT_ZERO {
                    s.dz = 0;
                }
                if ns == spec::GT_POS {
                    s.dz = 1;
                }
            }
            if ns == spec::LOST && st.spec != spec::LOST {
                if !set.and(spec::blank()).is_empty() {
                    self.find(&st, "C08", &format!("blank-in-token({})", spec::name(st.spec)), &format!("white space ({}) does not end {}", set.and(spec::blank()).show(), spec::name(st.spec)));
                }
                self.find(&st, "C18", &format!("continues({})", spec::name(st.spec)), &format!("a token that is complete ({}) goes on with the character {}", spec::name(st.spec), set.show()));
            }
            s.spec = ns;
            let was1 = st.col1;
            // everything known relative to the reading position moves away from it
            let behind = s.win[0];
            Self::map_vals(&mut s, &|v| {
                // what is known about a character that leaves the window stays with its copies
                if let V::C(c) | V::S(Str::Of(c)) = v {
                    if c.at.c == Some(-1) && !behind.is_empty() {
                        c.set = c.set.and(behind);
                    }
                }
                let dec = |o: &mut Off| *o = Off { s: o.s, c: o.add(-1).c };
                let line = |o: &mut Off| {
                    if nl {
                        *o = Off { s: o.s, c: o.add(-1).c }
                    }
                };
                let col = |o: &mut Off| {
                    if nl {
                        // at column 1 the distance stays the same
                        if !was1 {
                            o.c = None
                        }
                    } else {
                        *o = Off { s: o.s, c: o.add(-1).c }
                    }
                };
                Self::offs(v, &dec, &line, &col)
            });
            // a saved line or column of the token's start needs no second description
            for fr in s.fr.iter_mut().skip(if self.root { 1 } else { 0 }) {
                if fr.l.iter().any(|v| matches!(v, V::I(I::Line(Off { s: Some(0), c: Some(_) }) | I::Col(Off { s: Some(0), c: Some(_) })))) {
                    for v in Rc::make_mut(&mut fr.l).iter_mut() {
                        if let V::I(I::Line(o) | I::Col(o)) = v {
                            if o.s == Some(0) {
                                o.c = None;
                            }
                        }
                    }
                }
            }
            s.col1 = nl;
            if nl {
                s.line1 = false;
            }
            for i in 0..LOOK + 1 {
                s.win[i] = s.win[i + 1];
            }
            s.win[LOOK + 1] = if s.win[LOOK] == CS::one(EOF) { CS::one(EOF) } else { CS::full() };
            s.d = match s.d {
                Some(d) if d < DMAX => Some(d + 1),
                _ => None,
            };
            out.push(s);
        }
        out
    }
    fn depth_tracked(&self, st: &St) -> bool {
        self.fextra.len() == 1 && matches!(self.get(st, &Path { fr: 0, l: 1, p: vec![self.fextra[0] as u32] }), V::I(I::Depth(_)))
    }
    fn rootf(&self, i: usize) -> Path {
        Path { fr: 0, l: 1, p: vec![i as u32] }
    }
    /// the tokenizer at the beginning of the input; false if its fields cannot be followed
    pub fn start(&mut self, st: &mut St) -> bool {
        let p = self.rootf(self.fpos);
        if self.get(st, &p) != V::I(I::K(0)) {
            return false;
        }
        self.set(st, &p, V::I(I::Pos(Off { s: None, c: Some(0) })));
        let (l, c) = (self.rootf(self.fline), self.rootf(self.fcol));
        if self.get(st, &l) != V::I(I::K(1)) || self.get(st, &c) != V::I(I::K(1)) {
            self.find(st, "C05", "start", "line and column do not start at 1");
        }
        *st = self.canon(st.clone());
        true
    }
    /// places of cycles of states without progress (after exploration)
    pub fn stuck(&mut self) -> Vec<(String, String)> {
        let n = self.nstates;
        let mut adj: Vec<Vec<u32>> = vec![vec![]; n];
        for (a, b, p) in &self.edges {
            if !*p {
                adj[*a].push(*b as u32);
            }
        }
        // Kahn: what cannot be removed lies on or behind a cycle
        let mut indeg = vec![0u32; n];
        for a in &adj {
            for b in a {
                indeg[*b as usize] += 1;
            }
        }
        let mut work: Vec<usize> = (0..n).filter(|i| indeg[*i] == 0).collect();
        while let Some(i) = work.pop() {
            for b in &adj[i] {
                indeg[*b as usize] -= 1;
                if indeg[*b as usize] == 0 {
                    work.push(*b as usize);
                }
            }
        }
        let mut outdeg = vec![0u32; n];
        let left: Vec<bool> = indeg.iter().map(|x| *x > 0).collect();
        let mut rev: Vec<Vec<u32>> = vec![vec![]; n];
        for i in 0..n {
            if left[i] {
                for b in &adj[i] {
                    if left[*b as usize] {
                        outdeg[i] += 1;
                        rev[*b as usize].push(i as u32);
                    }
                }
            }
        }
        let mut alive = left.clone();
        let mut work: Vec<usize> = (0..n).filter(|i| left[*i] && outdeg[*i] == 0).collect();
        while let Some(i) = work.pop() {
            alive[i] = false;
            for a in rev[i].clone() {
                outdeg[a as usize] -= 1;
                if outdeg[a as usize] == 0 {
                    work.push(a as usize);
                }
            }
        }
        let mut imp = vec![false; n];
        for (s, i) in &self.seen {
            imp[*i] = s.imp;
        }
        let mut out = std::collections::BTreeMap::new();
        for i in 0..n {
            if alive[i] && !imp[i] {
                let (f, b) = self.locs[i];
                let fun = &self.ir.fns[f];
                out.entry(format!("loop({})", last_seg(&fun.name))).or_insert(fun.blocks[b].sp.to_string());
            }
        }
        let mut heads = std::collections::BTreeSet::new();
        for (a, b, _) in &self.edges {
            if self.locs[*a] == self.locs[*b] {
                heads.insert(self.locs[*b]);
            }
        }
        self.nloops = heads.len();
        out.into_iter().collect()
    }
    /// keep the tokenizer's position equal to the reading position
    fn sync(&mut self, st: St) -> Vec<St> {
        if !self.root {
            return vec![st];
        }
        let p = self.rootf(self.fpos);
        match self.get(&st, &p) {
            V::I(I::Pos(Off { c: Some(0), .. })) => vec![self.canon(st)],
            V::I(I::Pos(Off { c: Some(k), .. })) if k > 0 => {
                let mut out = vec![];
                for s in self.advance(st) {
                    out.extend(self.sync(s));
                }
                out
            }
            _ => {
                self.undec(&st, "the reading position is set to something that cannot be followed");
                vec![]
            }
        }
    }
    fn canon(&self, mut st: St) -> St {
        let z = Off { s: None, c: Some(0) };
        let p = self.rootf(self.fcol);
        if st.col1 && self.get(&st, &p) == V::I(I::K(1)) {
            self.set(&mut st, &p, V::I(I::Col(z)));
        }
        let p = self.rootf(self.fline);
        if st.line1 && self.get(&st, &p) == V::I(I::K(1)) {
            self.set(&mut st, &p, V::I(I::Line(z)));
        }
        st.line1 = false;
        if st.dz == 0 {
            for e in self.fextra.clone() {
                let p = self.rootf(e);
                if self.get(&st, &p) == V::I(I::K(0)) {
                    self.set(&mut st, &p, V::I(I::Depth(0)));
                }
            }
        }
        st
    }
    // ------------------------------------------------------------ arithmetic and comparison
    fn add(a: I, b: I, neg: bool) -> I {
        let k = |x: i64, o: Off| o.add(x);
        match (a, b) {
            (I::K(x), I::K(y)) => {
                if neg {
                    if x >= y {
                        I::K(x - y)
                    } else {
                        I::Top
                    }
                } else {
                    match x.checked_add(y) {
                        Some(z) if z <= 3 || x > 64 || y > 64 => I::K(z),
                        _ => I::Cnt,
                    }
                }
            }
            (I::Pos(o), I::K(n)) if n < 64 => I::Pos(k(if neg { -(n as i64) } else { n as i64 }, o)),
            (I::Line(o), I::K(n)) if n < 64 => I::Line(k(if neg { -(n as i64) } else { n as i64 }, o)),
            (I::Col(o), I::K(n)) if n < 64 => I::Col(k(if neg { -(n as i64) } else { n as i64 }, o)),
            (I::K(n), I::Pos(o)) if !neg && n < 64 => I::Pos(k(n as i64, o)),
            (I::K(n), I::Line(o)) if !neg && n < 64 => I::Line(k(n as i64, o)),
            (I::K(n), I::Col(o)) if !neg && n < 64 => I::Col(k(n as i64, o)),
            (I::Depth(d), I::K(n)) if n < 3 => {
                let x = if neg { d as i64 - n as i64 } else { d as i64 + n as i64 };
                if (-2..=2).contains(&x) {
                    I::Depth(x as i8)
                } else {
                    I::Top
                }
            }
            (I::Dist, I::K(n)) if n < 3 => I::Dist,
            (I::K(n), I::Dist) if n < 3 && !neg => I::Dist,
            (I::Top, _) | (_, I::Top) => I::Top,
            _ => I::Cnt,
        }
    }
    fn lostc(i: I) -> I {
        match i {
            // of lines and columns only "that of the token's start" is of interest
            I::Line(Off { s: Some(n), c: Some(c) }) if n != 0 => I::Line(Off { s: None, c: Some(c) }),
            I::Col(Off { s: Some(n), c: Some(c) }) if n != 0 => I::Col(Off { s: None, c: Some(c) }),
            I::Pos(o) | I::Line(o) | I::Col(o) if o.lost() => I::Cnt,
            x => x,
        }
    }
    /// a < b with forks; None: unknown
    fn fork_lt(&mut self, st: St, a: I, b: I) -> Vec<(St, Option<bool>)> {
        match (a, b) {
            (I::K(x), I::K(y)) => vec![(st, Some(x < y))],
            (I::Pos(o), I::Len) => match self.fork_in(st.clone(), o) {
                Some(v) => v.into_iter().map(|(s, b)| (s, Some(b))).collect(),
                None => vec![(st, None)],
            },
            (I::Len, I::Pos(o)) => {
                // o > len: only if the place before o is already outside
                let prev = o.add(-1);
                match self.fork_in(st.clone(), prev) {
                    Some(v) => v.into_iter().map(|(s, b)| (s, Some(!b))).collect(),
                    None => vec![(st, None)],
                }
            }
            (I::K(0), I::Depth(k)) => match (k, st.dz) {
                (0, 0) => vec![(st, Some(false))],
                (0, 1) => vec![(st, Some(true))],
                (0, _) => {
                    let mut t = st.clone();
                    t.dz = 1;
                    let mut f = st;
                    f.dz = 0;
                    vec![(t, Some(true)), (f, Some(false))]
                }
                (k, _) if k > 0 => vec![(st, Some(true))],
                // smaller than the real nesting: zero and more are both possible
                (_, 1) => vec![(st.clone(), Some(true)), (st, Some(false))],
                _ => vec![(st, None)],
            },
            // so is the length of a long token
            (I::Dist, I::K(k)) | (I::K(k), I::Dist) if k > 8 => vec![(st.clone(), Some(true)), (st, Some(false))],
            (I::Dist, I::K(0)) => vec![(st, Some(false))],
            (I::K(0), I::Dist) => vec![(st, Some(true))],
            // how many lines or columns have been read is open: both outcomes occur
            (I::Line(_) | I::Col(_), I::K(_)) | (I::K(_), I::Line(_) | I::Col(_)) => vec![(st.clone(), Some(true)), (st, Some(false))],
            (I::K(0), I::Len) if !st.win[1].has(EOF) || st.spec != spec::BETWEEN || st.last != 0 => vec![(st, Some(true))],
            (I::Depth(0), I::K(1)) => self.fork_lt(st, I::K(0), I::Depth(0)).into_iter().map(|(s, b)| (s, b.map(|x| !x))).collect(),
            (I::Pos(x), I::Pos(y)) | (I::Line(x), I::Line(y)) | (I::Col(x), I::Col(y)) => {
                if let (Some(p), Some(q)) = (x.c, y.c) {
                    return vec![(st, Some(p < q))];
                }
                if let (Some(p), Some(q)) = (x.s, y.s) {
                    return vec![(st, Some(p < q))];
                }
                if let (I::Pos(_), Some(p), Some(q)) = (a, x.s, y.c) {
                    // start + p against cursor + q, distance at least DMAX
                    if st.d.is_none() && st.spec != spec::BETWEEN && (p as i64) < DMAX as i64 + q as i64 {
                        return vec![(st, Some(true))];
                    }
                }
                vec![(st, None)]
            }
            _ => vec![(st, None)],
        }
    }
    fn fork_eqi(&mut self, st: St, a: I, b: I) -> Vec<(St, Option<bool>)> {
        match (a, b) {
            (I::K(x), I::K(y)) => vec![(st, Some(x == y))],
            (I::Len, I::Len) => vec![(st, Some(true))],
            (I::Dist, I::K(k)) | (I::K(k), I::Dist) if k > 8 => vec![(st.clone(), Some(true)), (st, Some(false))],
            (I::Dist, I::K(0)) | (I::K(0), I::Dist) => vec![(st, Some(false))],
            (I::Pos(o), I::Len) | (I::Len, I::Pos(o)) => {
                let mut out = vec![];
                let ins = match self.fork_in(st.clone(), o) {
                    Some(v) => v,
                    None => return vec![(st, None)],
                };
                for (s, inside) in ins {
                    if inside {
                        out.push((s, Some(false)));
                        continue;
                    }
                    if o.c == Some(0) {
                        out.push((s, Some(true)));
                        continue;
                    }
                    match self.fork_in(s.clone(), o.add(-1)) {
                        Some(v) => out.extend(v.into_iter().map(|(s, b)| (s, Some(b)))),
                        None => out.push((s, None)),
                    }
                }
                out
            }
            (I::Depth(_), I::K(0)) => self.fork_lt(st, I::K(0), a).into_iter().map(|(s, b)| (s, b.map(|x| !x))).collect(),
            (I::K(0), I::Depth(_)) => self.fork_eqi(st, b, a),
            (I::Pos(x), I::Pos(y)) | (I::Line(x), I::Line(y)) | (I::Col(x), I::Col(y)) => {
                if let (Some(p), Some(q)) = (x.c, y.c) {
                    return vec![(st, Some(p == q))];
                }
                if let (Some(p), Some(q)) = (x.s, y.s) {
                    return vec![(st, Some(p == q))];
                }
                vec![(st, None)]
            }
            _ => vec![(st, None)],
        }
    }
    fn bools(v: Vec<(St, Option<bool>)>, neg: bool) -> Outs {
        let mut out = vec![];
        for (s, b) in v {
            match b {
                Some(b) => out.push((s, V::B(b != neg))),
                None => out.extend(Self::either(s)),
            }
        }
        out
    }
    fn either(mut s: St) -> Outs {
        s.imp = true;
        vec![(s.clone(), V::B(true)), (s, V::B(false))]
    }
    fn fork_eqc(&mut self, st: St, a: &Ch, b: &Ch) -> Vec<(St, bool)> {
        let (x, y) = (self.eff(&st, a), self.eff(&st, b));
        if x.and(y).is_empty() {
            return vec![(st, false)];
        }
        if a.at == b.at && !a.at.lost() {
            return vec![(st, true)];
        }
        if y.len() == 1 {
            if NONASCII.contains(&y.single().unwrap()) {
                return self.fork_char(st, a, y, CS::full());
            }
            return self.fork_char(st, a, y, CS::full().minus(y));
        }
        if x.len() == 1 {
            return self.fork_eqc(st, b, a);
        }
        let mut out = vec![];
        for i in y.iter() {
            let mut s = st.clone();
            if self.refine(&mut s, b.at, CS::one(i)) {
                let bb = Ch { set: CS::one(i), at: b.at };
                out.extend(self.fork_eqc(s, a, &bb));
            }
        }
        out
    }
    pub fn eq_any(&mut self, st: St, a: &V, b: &V) -> Vec<(St, Option<bool>)> {
        let (a, b) = (self.deref(&st, a), self.deref(&st, b));
        match (&a, &b) {
            (V::I(x), V::I(y)) => self.fork_eqi(st, *x, *y),
            (V::B(x), V::B(y)) => vec![(st, Some(x == y))],
            (V::C(x), V::C(y)) => self.fork_eqc(st, x, y).into_iter().map(|(s, b)| (s, Some(b))).collect(),
            (V::Adt(d, v, f), V::Adt(e, w, g)) if d == e => {
                if v != w {
                    return vec![(st, Some(false))];
                }
                let mut cur = vec![(st, Some(true))];
                for (x, y) in f.iter().zip(g.iter()) {
                    let mut next = vec![];
                    for (s, b) in cur {
                        if b == Some(false) {
                            next.push((s, b));
                            continue;
                        }
                        for (s2, b2) in self.eq_any(s, x, y) {
                            next.push((
                                s2,
                                match (b, b2) {
                                    (_, Some(false)) => Some(false),
                                    (Some(true), Some(true)) => Some(true),
                                    _ => None,
                                },
                            ));
                        }
                    }
                    cur = next;
                }
                cur
            }
            (V::S(x), V::S(y)) => self.eq_str(st, x, y),
            _ => vec![(st, None)],
        }
    }
    fn eq_str(&mut self, st: St, x: &Str, y: &Str) -> Vec<(St, Option<bool>)> {
        match (x, y) {
            (Str::K(a), Str::K(b)) => vec![(st, Some(a == b))],
            (Str::K(_), _) => self.eq_str(st, y, x),
            (Str::El(e, folded), Str::K(w)) => {
                let letters = w.chars().any(|c| c.is_alphabetic());
                let here = self.here(&st);
                self.cmps.insert(format!("{} {:?}", here, w));
                if letters && !*folded {
                    self.find(&st, "C07", &format!("case-sensitive({})", w), &format!("the text of an earlier token is compared with {:?} without folding its letter case", w));
                }
                match e {
                    Elem::Comment | Elem::Cm(_) => {
                        self.find(&st, "C09", &format!("comment-inspected({})", w), "the tokenizer bases a decision on the preceding token without skipping comments");
                        vec![(st, Some(false))]
                    }
                    Elem::NC => {
                        let up = w.to_uppercase();
                        if *folded && letters && **w != *up {
                            return vec![(st, Some(false))];
                        }
                        let code = if up == "ARRAY" {
                            1
                        } else if up == "STRUCT" {
                            2
                        } else {
                            0
                        };
                        if code == 0 {
                            // some other word, or punctuation
                            if st.nc & 4 == 0 || letters && st.nc & 8 != 0 {
                                return vec![(st, Some(false))];
                            }
                            return vec![(st, None)];
                        }
                        let mut out = vec![];
                        for (m, b) in [(st.nc & code, true), (st.nc & !code, false)] {
                            if m & 7 != 0 {
                                let mut t = st.clone();
                                t.nc = m;
                                out.push((t, Some(b)));
                            }
                        }
                        out
                    }
                    // another token of the input may be anything: it need not be this word
                    Elem::Older if self.head.is_some() => {
                        let mut t = st.clone();
                        t.imp = true;
                        vec![(t, Some(true)), (st, Some(false))]
                    }
                    Elem::Older => vec![(st, None)],
                }
            }
            (Str::Cat(c, folded), Str::K(w)) => {
                let here = self.here(&st);
                self.cmps.insert(format!("{} {:?}", here, w));
                match self.cats[*c as usize].eq(w, *folded) {
                    Some(b) => vec![(st, Some(b))],
                    None => vec![(st.clone(), Some(true)), (st, Some(false))],
                }
            }
            (Str::Of(c), Str::K(w)) => {
                let mut it = w.chars();
                match (it.next(), it.next()) {
                    (Some(x), None) => {
                        let k = Ch { set: CS::one(atom(x)), at: Off::NONE };
                        let c = *c;
                        self.fork_eqc(st, &c, &k).into_iter().map(|(s, b)| (s, Some(b))).collect()
                    }
                    _ => vec![(st, Some(false))],
                }
            }
            _ => vec![(st, None)],
        }
    }
    // ------------------------------------------------------------ rvalues
    fn binop(&mut self, st: St, op: &str, a: V, b: V) -> Outs {
        let (a, b) = (self.deref(&st, &a), self.deref(&st, &b));
        let wo = op.ends_with("WithOverflow");
        let base = op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked");
        match (base, &a, &b) {
            ("Add", V::I(x), V::I(y)) => {
                let r = Self::lostc(Self::add(*x, *y, false));
                let v = V::I(r);
                return vec![(st, if wo { V::Adt(0, 0, Rc::new(vec![v, V::B(false)])) } else { v })];
            }
            ("Sub", V::I(I::Pos(x)), V::I(I::Pos(y))) if self.dist(&st, *y, *x).is_some() => {
                let v = V::I(self.dist(&st, *y, *x).unwrap());
                return vec![(st, if wo { V::Adt(0, 0, Rc::new(vec![v, V::B(false)])) } else { v })];
            }
            ("Sub", V::I(x), V::I(y)) => {
                let under = self.underflow(st, *x, *y);
                return under
                    .into_iter()
                    .map(|(s, u)| {
                        let v = if u { V::I(I::Top) } else { V::I(Self::lostc(Self::add(*x, *y, true))) };
                        (s, if wo { V::Adt(0, 0, Rc::new(vec![v, V::B(u)])) } else { v })
                    })
                    .collect();
            }
            ("Mul", V::I(_), V::I(_)) | ("Div", V::I(_), V::I(_)) | ("Rem", V::I(_), V::I(_)) => {
                let v = match (base, &a, &b) {
                    ("Rem", V::I(I::K(x)), V::I(I::K(y))) if *y > 0 => V::I(I::K(x % y)),
                    _ => V::I(I::Cnt),
                };
                return vec![(st, if wo { V::Adt(0, 0, Rc::new(vec![v, V::B(false)])) } else { v })];
            }
            ("Lt", V::I(x), V::I(y)) => return Self::bools(self.fork_lt(st, *x, *y), false),
            ("Gt", V::I(x), V::I(y)) => return Self::bools(self.fork_lt(st, *y, *x), false),
            ("Ge", V::I(x), V::I(y)) => return Self::bools(self.fork_lt(st, *x, *y), true),
            ("Le", V::I(x), V::I(y)) => return Self::bools(self.fork_lt(st, *y, *x), true),
            ("Eq", _, _) => return Self::bools(self.eq_any(st, &a, &b), false),
            ("Ne", _, _) => return Self::bools(self.eq_any(st, &a, &b), true),
            ("Lt" | "Gt" | "Le" | "Ge", V::C(x), V::C(y)) => {
                let (c, k, flip) = match (self.eff(&st, x).single(), self.eff(&st, y).single()) {
                    (_, Some(k)) if k < 128 => (*x, k, false),
                    (Some(k), _) if k < 128 => (*y, k, true),
                    _ => return Self::either(st),
                };
                let o = match (base, flip) {
                    ("Lt", false) | ("Gt", true) => 0,
                    ("Le", false) | ("Ge", true) => 1,
                    ("Gt", false) | ("Lt", true) => 2,
                    _ => 3,
                };
                let yes = CS::by(|i| {
                    i != EOF
                        && match o {
                            0 => i < k,
                            1 => i <= k,
                            2 => i > k,
                            _ => i >= k,
                        }
                });
                return self.fork_char(st, &c, yes, CS::chars().minus(yes)).into_iter().map(|(s, b)| (s, V::B(b))).collect();
            }
            ("BitAnd", V::B(x), V::B(y)) => return vec![(st, V::B(*x && *y))],
            ("BitOr", V::B(x), V::B(y)) => return vec![(st, V::B(*x || *y))],
            ("BitXor", V::B(x), V::B(y)) => return vec![(st, V::B(x != y))],
            _ => {}
        }
        if wo {
            return vec![(st, V::Adt(0, 0, Rc::new(vec![V::Un, V::B(false)])))];
        }
        if ["Lt", "Le", "Gt", "Ge"].contains(&base) {
            return Self::either(st);
        }
        vec![(st, V::Un)]
    }
    /// number of characters between two places
    fn dist(&self, st: &St, from: Off, to: Off) -> Option<I> {
        let n = match (from.s, to.s, from.c, to.c, st.d) {
            (Some(x), Some(y), _, _, _) => y as i64 - x as i64,
            (_, _, Some(x), Some(y), _) => y as i64 - x as i64,
            (Some(x), _, _, Some(y), Some(d)) if st.spec != spec::BETWEEN => d as i64 + y as i64 - x as i64,
            (Some(x), _, _, Some(y), None) if st.spec != spec::BETWEEN && y as i64 - x as i64 >= -2 => return Some(I::Dist),
            _ => return None,
        };
        if n >= 0 {
            Some(I::K(n as u64))
        } else {
            None
        }
    }
    fn underflow(&mut self, st: St, a: I, b: I) -> Vec<(St, bool)> {
        match (a, b) {
            (I::K(x), I::K(y)) => vec![(st, x < y)],
            (I::Depth(k), I::K(1)) => match (k, st.dz) {
                (0, 1) => vec![(st, false)],
                (0, 0) => vec![(st, true)],
                (0, _) => {
                    let mut t = st.clone();
                    t.dz = 1;
                    let mut f = st;
                    f.dz = 0;
                    vec![(t, false), (f, true)]
                }
                (k, _) if k > 0 => vec![(st, false)],
                _ => vec![(st, false)],
            },
            (I::Pos(o), I::K(n)) => {
                let n = n as i64;
                // the token starts at 0 at the earliest
                let low = match (o.s, st.d, o.c) {
                    (Some(s), _, _) => s as i64,
                    (_, Some(d), Some(c)) => d as i64 + c as i64,
                    (_, None, Some(c)) if st.spec != spec::BETWEEN => DMAX as i64 + c as i64,
                    _ => 0,
                };
                if low >= n {
                    vec![(st, false)]
                } else {
                    vec![(st.clone(), true), (st, false)]
                }
            }
            _ => vec![(st, false)],
        }
    }
    fn rvalue(&mut self, st: St, r: &Rv) -> Outs {
        match r {
            Rv::Use(o) => {
                let v = self.operand(&st, o);
                vec![(st, v)]
            }
            Rv::Ref { pl, .. } | Rv::RawPtr(pl) => {
                let v = match self.cur(&st, pl) {
                    Cur::P(p) => V::Ref(p),
                    Cur::Val(v) => match v {
                        V::S(_) | V::Slice(..) | V::Input | V::Words(_) | V::Toks | V::Tok(_) => v,
                        v => V::Val(Rc::new(v)),
                    },
                };
                vec![(st, v)]
            }
            Rv::Cast(_, o, _) => {
                let v = self.operand(&st, o);
                vec![(st, v)]
            }
            Rv::Bin(op, a, b) => {
                let (x, y) = (self.operand(&st, a), self.operand(&st, b));
                self.binop(st, op, x, y)
            }
            Rv::Un(op, o) => {
                let v = self.operand(&st, o);
                let v = match (op.as_str(), v) {
                    ("Not", V::B(b)) => V::B(!b),
                    ("PtrMetadata", x) => match self.deref(&st, &x) {
                        V::Input => V::I(I::Len),
                        _ => V::I(I::Cnt),
                    },
                    _ => V::Un,
                };
                vec![(st, v)]
            }
            Rv::Discr(pl) => {
                let v = match self.read(&st, pl) {
                    V::Adt(_, v, _) => V::I(I::K(v as u64)),
                    _ => V::Un,
                };
                vec![(st, v)]
            }
            Rv::Agg(k, os) => {
                let fs: Vec<V> = os.iter().map(|o| self.operand(&st, o)).collect();
                let v = match k {
                    Agg::Adt { def, var, .. } => {
                        let d = last_seg(&norm(def)).to_string();
                        if d == "BQ2CSTError" {
                            return self.made_error(st, fs);
                        }
                        V::Adt(intern(&d), *var, Rc::new(fs))
                    }
                    Agg::Closure(def) => match self.ir.by_name.get(def) {
                        Some(f) => V::Clo(*f, Rc::new(fs)),
                        None => V::Un,
                    },
                    Agg::Array => {
                        let ws: Vec<Rc<str>> = fs
                            .iter()
                            .filter_map(|v| match v {
                                V::S(Str::K(w)) => Some(w.clone()),
                                _ => None,
                            })
                            .collect();
                        if ws.len() == fs.len() && !ws.is_empty() {
                            V::Words(Rc::new(ws))
                        } else {
                            V::Adt(0, 0, Rc::new(fs))
                        }
                    }
                    _ => V::Adt(0, 0, Rc::new(fs)),
                };
                vec![(st, v)]
            }
            _ => vec![(st, V::Un)],
        }
    }
    fn made_error(&mut self, mut st: St, fs: Vec<V>) -> Outs {
        let site = format!("{} {}", self.here(&st), self.cur_span);
        self.errsites.insert(site);
        if self.root {
            let f = |n: &str| self.ir.items.iter().find(|i| i.name.ends_with("BQ2CSTError")).and_then(|i| i.fields.iter().position(|f| f.n == n)).and_then(|i| fs.get(i)).cloned().unwrap_or(V::Un);
            let (l, c, m) = (f("line"), f("column"), f("message"));
            let (l, c, m) = (self.deref(&st, &l), self.deref(&st, &c), self.deref(&st, &m));
            let bad = match (&l, &c) {
                (V::I(I::Line(a)), V::I(I::Col(b))) => !((a.c == Some(0) && b.c == Some(0)) || (a.s == Some(0) && b.s == Some(0))),
                (V::I(I::Col(_)), _) | (_, V::I(I::Line(_))) | (V::I(I::Pos(_)), _) | (_, V::I(I::Pos(_))) | (V::I(I::K(_)), _) | (_, V::I(I::K(_))) => true,
                _ => {
                    self.undec(&st, "position of an error");
                    false
                }
            };
            if bad {
                self.find(&st, "C11", "error-position", "the error does not carry the line and column of the reading position or of the token's start");
            }
            if matches!(&m, V::S(Str::K(s)) if s.is_empty()) {
                self.find(&st, "C11", "empty-message", "the error has an empty message");
            }
            // an error is in place only where no token can end
            let next = st.win[1];
            let ok: CS = CS::by(|a| spec::may_reject(st.spec, a));
            if !next.minus(ok).is_empty() {
                self.find(&st, "C18", &format!("rejects({})", spec::name(st.spec)), &format!("tokenization fails inside {} although the text may go on with {}", spec::name(st.spec), next.minus(ok).show()));
            }
        }
        st.err = true;
        vec![(st, V::Adt(intern("BQ2CSTError"), 0, Rc::new(fs)))]
    }
    // ------------------------------------------------------------ emission of a token
    fn emit(&mut self, st: St, tok: V) -> Vec<St> {
        let tok = self.deref(&st, &tok);
        let site = format!("{} {}", self.who(&st), self.cur_span);
        self.emits.insert(site);
        let g = |i: usize, me: &Self| {
            let x = me.field(&tok, i as u32);
            me.deref(&st, &x)
        };
        let (lit, line, col) = (g(self.tlit, self), g(self.tline, self), g(self.tcol, self));
        let mut st = st;
        if st.eofs > 0 {
            self.find(&st, "C15", "token-after-end", "a token is added after the end-of-file token");
        }
        if let V::S(Str::K(s)) = &lit {
            if s.is_empty() {
                if st.spec != spec::BETWEEN || st.win[1] != CS::one(EOF) {
                    self.find(&st, "C15", "early-end", "the end-of-file token is added before the end of the input is reached");
                }
                st.eofs = (st.eofs + 1).min(2);
                return vec![st];
            }
        }
        if st.spec == spec::BETWEEN {
            self.find(&st, "C05", "empty-token", "a token is added although no character was consumed for it");
            if !st.win[1].and(spec::blank()).is_empty() {
                self.find(&st, "C08", "blank-not-skipped", &format!("white space ({}) is not skipped between tokens", st.win[1].and(spec::blank()).show()));
            }
            self.find(&st, "C18", "empty-token", "a token is added although only white space, or nothing, was consumed for it");
            return vec![st];
        }
        // the text
        let n = spec::name(st.spec);
        match &lit {
            V::S(Str::Sl(a, b, trim)) => {
                let a0 = a.s == Some(0);
                let b0 = b.c == Some(0);
                if a.lost() || b.lost() {
                    self.undec(&st, "text of a token");
                } else if !a0 || !b0 {
                    self.find(&st, "C05", &format!("slice({})", n), "the literal is not exactly the text from the start of the token to the reading position");
                }
                let want = st.spec == spec::LINE_COMMENT;
                if *trim != want && st.spec != spec::LOST {
                    if *trim {
                        // trimming changes nothing if the last character cannot be blank
                        if !st.win[0].and(spec::blank()).is_empty() {
                            self.find(&st, "C05", &format!("trimmed({})", n), "blanks are cut off a literal that is not a line comment");
                        }
                    } else {
                        self.find(&st, "C05", &format!("untrimmed({})", n), "a line comment keeps its trailing blanks");
                    }
                }
            }
            V::S(Str::Of(c)) => {
                let same = c.at.s == Some(0) || self.eff(&st, c) == st.s0 && st.s0.len() == 1;
                if !same || st.d != Some(1) {
                    self.find(&st, "C05", &format!("slice({})", n), "the literal is not the one character that was consumed");
                }
            }
            V::S(Str::K(w)) => {
                let cs: Vec<char> = w.chars().collect();
                let ok = st.d == Some(cs.len() as u8)
                    && match cs.len() {
                        1 => st.s0.minus(CS::one(atom(cs[0]))).is_empty(),
                        2 => st.s0.minus(CS::one(atom(cs[0]))).is_empty() && st.win[0].minus(CS::one(atom(cs[1]))).is_empty(),
                        _ => true,
                    };
                if !ok {
                    self.find(&st, "C05", &format!("slice({:?})", w), &format!("the literal {:?} is not always the text that was consumed", w));
                }
            }
            V::S(Str::Alt) => self.find(&st, "C05", &format!("altered({})", n), "the literal of the token is not the text it was read from: it is altered on the way"),
            _ => self.undec(&st, "text of a token"),
        }
        match &line {
            V::I(I::Line(o)) if o.s == Some(0) => {}
            V::I(I::Top) | V::I(I::Cnt) | V::Un => self.undec(&st, "line of a token"),
            _ => self.find(&st, "C05", &format!("line({})", n), "the token's line is not the line of its first character"),
        }
        match &col {
            V::I(I::Col(o)) if o.s == Some(0) => {}
            V::I(I::Top) | V::I(I::Cnt) | V::Un => self.undec(&st, "column of a token"),
            _ => self.find(&st, "C05", &format!("column({})", n), "the token's column is not the column of its first character"),
        }
        // may the token end here?
        let mut bad = CS::EMPTY;
        for a in st.win[1].iter() {
            if !spec::accept(st.spec, a, st.win[2]) {
                bad = bad.or(CS::one(a));
            }
        }
        if !bad.is_empty() {
            self.find(&st, "C18", &format!("ends-early({})", n), &format!("{} is ended although the text goes on with {}", n, bad.show()));
        }
        if st.imp {
            return vec![];
        }
        // what follows from this token for the next ones
        let mut outs = vec![];
        let comment = spec::is_comment(st.spec);
        let word = st.spec == spec::WORD;
        let kind = st.spec;
        st.last = if comment { 1 } else { 2 };
        let mut variants = vec![st];
        if kind == spec::LT && variants[0].nc & 3 != 0 && variants[0].nc & 4 != 0 {
            let base = variants.pop().unwrap();
            for w in [base.nc & 3, base.nc & !3] {
                let mut s = base.clone();
                s.nc = w;
                variants.push(s);
            }
        }
        for mut s in variants {
            let mut shift = 0i8;
            if kind == spec::LT && s.nc & 3 != 0 {
                s.dz = 1;
                shift = -1;
            }
            if kind == spec::GT_POS {
                s.dz = 2;
                shift = 1;
            }
            if shift != 0 {
                Self::map_vals(&mut s, &|v| {
                    if let V::I(I::Depth(k)) = v {
                        let n = *k + shift;
                        *v = if (-2..=2).contains(&n) { V::I(I::Depth(n)) } else { V::I(I::Top) };
                    }
                });
            }
            if !comment {
                s.nc = if word { 7 } else { 12 };
            }
            s.spec = spec::BETWEEN;
            s.d = None;
            s.s0 = CS::EMPTY;
            s.win[0] = CS::chars();
            // any token may follow any token: what was seen of the next one is forgotten
            for i in 1..LOOK + 2 {
                if s.win[i] == CS::one(EOF) {
                    break;
                }
                s.win[i] = CS::full();
            }
            Self::map_vals(&mut s, &|v| {
                let f = |o: &mut Off| o.s = None;
                Self::offs(v, &f, &f, &f)
            });
            outs.push(s);
        }
        outs
    }
    // ------------------------------------------------------------ control
    fn joins(&mut self, f: usize) -> Rc<Vec<bool>> {
        if let Some(j) = &self.joins[f] {
            return j.clone();
        }
        let fun = &self.ir.fns[f];
        let mut n = vec![0usize; fun.blocks.len()];
        let mut r = vec![false; fun.blocks.len()];
        for (i, b) in fun.blocks.iter().enumerate() {
            if b.cl {
                continue;
            }
            for s in b.t.succs() {
                n[s] += 1;
                if fun.rpo.get(s).cloned().unwrap_or(0) <= fun.rpo.get(i).cloned().unwrap_or(0) {
                    r[s] = true;
                }
            }
        }
        let v: Vec<bool> = (0..n.len()).map(|i| n[i] > 1 || r[i]).collect();
        let v = Rc::new(v);
        self.joins[f] = Some(v.clone());
        v
    }
    fn prune(&self, st: &mut St) {
        let depth = st.fr.len();
        let fr = st.fr.last_mut().unwrap();
        let fun = &self.ir.fns[fr.f];
        if let Some(live) = fun.live_in.get(fr.b) {
            let l = Rc::make_mut(&mut fr.l);
            for (i, v) in l.iter_mut().enumerate() {
                if *v != V::Un && !live.contains(&(i as u32)) && !(self.root && depth == 1 && i == 1) {
                    *v = V::Un;
                }
            }
        }
    }
    /// explore everything reachable from this state
    pub fn explore(&mut self, st: St) {
        let mut stack: Vec<(St, usize, bool)> = vec![(st, usize::MAX, false)];
        while let Some((mut st, from, prog)) = stack.pop() {
            if self.overflow {
                return;
            }
            if st.imp && st.spec == spec::TANY {
                self.undec(&st, "templates opened by three or more braces");
                continue;
            }
            let top = st.fr.last().unwrap();
            let (f, b) = (top.f, top.b);
            let mut from = from;
            let mut prog = prog;
            self.fns.insert(self.ir.fns[f].name.clone());
            if from == usize::MAX || self.joins(f)[b] {
                self.prune(&mut st);
                let (id, fresh) = match self.seen.get(&st) {
                    Some(i) => (*i, false),
                    None => {
                        let i = self.nstates;
                        self.nstates += 1;
                        self.locs.push((f, b));
                        self.seen.insert(st.clone(), i);
                        (i, true)
                    }
                };
                if from != usize::MAX {
                    self.edges.push((from, id, prog));
                }
                if !fresh {
                    continue;
                }
                if self.nstates > self.limit {
                    self.overflow = true;
                    return;
                }
                from = id;
                prog = false;
            }
            for (s, p) in self.block(st) {
                stack.push((s, from, prog || p));
            }
        }
    }
    /// run one block; finished top-level runs go to results
    fn block(&mut self, st: St) -> Vec<(St, bool)> {
        self.steps += 1;
        let top = st.fr.last().unwrap();
        let (fi, bi) = (top.f, top.b);
        let ir = self.ir;
        let blk = &ir.fns[fi].blocks[bi];
        let mut cur: Vec<(St, bool)> = vec![(st, false)];
        for s in &blk.s {
            match s {
                Stmt::Assign(pl, rv, sp) => {
                    self.cur_span = sp.clone();
                    let mut next = vec![];
                    for (st, p) in cur {
                        for (mut s2, v) in self.rvalue(st, rv) {
                            self.write(&mut s2, pl, v);
                            if pl.p.is_empty() && !(self.root && pl.l == 1) {
                                next.push((s2, p));
                            } else {
                                self.prog = false;
                                let ss = self.sync(s2);
                                let q = self.prog;
                                next.extend(ss.into_iter().map(|x| (x, p || q)));
                            }
                        }
                    }
                    cur = next;
                }
                Stmt::Dead(l) => {
                    for (s, _) in cur.iter_mut() {
                        let root = self.root && s.fr.len() == 1 && *l == 1;
                        if !root {
                            let fr = s.fr.last_mut().unwrap();
                            if fr.l[*l as usize] != V::Un {
                                Rc::make_mut(&mut fr.l)[*l as usize] = V::Un;
                            }
                        }
                    }
                }
                Stmt::SetDiscr(pl, v) => {
                    for (s, _) in cur.iter_mut() {
                        if let V::Adt(d, _, fs) = self.read(s, pl) {
                            self.write(s, pl, V::Adt(d, *v, fs));
                        }
                    }
                }
                _ => {}
            }
        }
        self.cur_span = blk.sp.clone();
        let mut out = vec![];
        for (st, p) in cur {
            self.prog = p;
            let r = self.terminator(st, &blk.t);
            let q = self.prog;
            out.extend(r.into_iter().map(|x| (x, q)));
        }
        out
    }
    fn goto(mut st: St, b: usize) -> St {
        st.fr.last_mut().unwrap().b = b;
        st
    }
    fn terminator(&mut self, st: St, t: &Term) -> Vec<St> {
        match t {
            Term::Goto(b) | Term::Drop { b, .. } => vec![Self::goto(st, *b)],
            Term::Switch { o, v, e, .. } => {
                let x = self.operand(&st, o);
                match self.deref(&st, &x) {
                    V::B(b) => {
                        let n = b as u128;
                        let t = v.iter().find(|a| a.0 == n).map(|a| a.1).unwrap_or(*e);
                        vec![Self::goto(st, t)]
                    }
                    V::I(I::K(n)) => {
                        let t = v.iter().find(|a| a.0 == n as u128).map(|a| a.1).unwrap_or(*e);
                        vec![Self::goto(st, t)]
                    }
                    V::C(c) => {
                        let mut out = vec![];
                        let mut rest = CS::chars();
                        for (n, b) in v {
                            let a = match char::from_u32(*n as u32) {
                                Some(c) => atom(c),
                                None => continue,
                            };
                            let e = self.eff(&st, &c).and(CS::one(a));
                            if !e.is_empty() {
                                let mut s = st.clone();
                                if self.refine(&mut s, c.at, e) {
                                    out.push(Self::goto(s, *b));
                                }
                            }
                            if a < 128 {
                                rest = rest.minus(CS::one(a));
                            }
                        }
                        let r = self.eff(&st, &c).and(rest);
                        if !r.is_empty() {
                            let mut s = st;
                            if self.refine(&mut s, c.at, r) {
                                out.push(Self::goto(s, *e));
                            }
                        }
                        out
                    }
                    V::I(i) => {
                        let mut out = vec![];
                        let mut rest = vec![(st, None)];
                        for (n, b) in v {
                            let mut nr: Vec<(St, Option<bool>)> = vec![];
                            for (s, _) in rest {
                                for (s2, r) in self.fork_eqi(s, i, I::K(*n as u64)) {
                                    if r != Some(false) {
                                        out.push(Self::goto(s2.clone(), *b));
                                    }
                                    if r != Some(true) {
                                        nr.push((s2, None));
                                    }
                                }
                            }
                            rest = nr;
                        }
                        out.extend(rest.into_iter().map(|(s, _)| Self::goto(s, *e)));
                        out
                    }
                    _ => {
                        self.undec(&st, "branch on an unknown value");
                        let mut st = st;
                        st.imp = true;
                        let mut out: Vec<St> = v.iter().map(|a| Self::goto(st.clone(), a.1)).collect();
                        out.push(Self::goto(st, *e));
                        out
                    }
                }
            }
            Term::Ret => self.ret(st),
            Term::Assert { c, ex, k, b, .. } => {
                let x = self.operand(&st, c);
                match self.deref(&st, &x) {
                    V::B(v) => {
                        let site = format!("{} {}", self.here(&st), k);
                        self.panics.insert(site);
                        if v == *ex {
                            vec![Self::goto(st, *b)]
                        } else {
                            self.find(&st, "C03", &format!("assert({})", k), &format!("this check ({}) can fail, which is a panic", k));
                            vec![]
                        }
                    }
                    _ => {
                        self.undec(&st, "condition of an assertion");
                        vec![Self::goto(st, *b)]
                    }
                }
            }
            Term::Call { f, a, d, b, .. } => {
                let args: Vec<V> = a.iter().map(|o| self.operand(&st, o)).collect();
                match f {
                    Op::Const { c: Const::Fn(r), .. } => {
                        let r = r.clone();
                        self.call(st, &r, args, d.clone(), *b)
                    }
                    o => {
                        let g = self.operand(&st, o);
                        let g = self.deref(&st, &g);
                        if let V::Fun(_) | V::Clo(..) = g {
                            if let Some(r) = self.apply(st.clone(), &g, args) {
                                let mut out = vec![];
                                for (s, v) in r {
                                    out.extend(self.done(s, v, d, *b));
                                }
                                return out;
                            }
                        }
                        self.undec(&st, "indirect call");
                        vec![]
                    }
                }
            }
            _ => vec![],
        }
    }
    fn ret(&mut self, mut st: St) -> Vec<St> {
        let fr = st.fr.last().unwrap();
        let v = fr.l[0].clone();
        let ret = fr.ret.clone();
        // a reference into the finished frame would dangle
        if fr.stop || ret.is_none() {
            self.results.push((st, v));
            return vec![];
        }
        st.fr.pop();
        let (pl, b) = ret.unwrap();
        self.write(&mut st, &pl, v);
        let sts = if pl.p.is_empty() && !(self.root && pl.l == 1) { vec![st] } else { self.sync(st) };
        match b {
            Some(b) => sts.into_iter().map(|s| Self::goto(s, b)).collect(),
            None => vec![],
        }
    }
    fn push_frame(&self, st: &mut St, f: usize, args: Vec<V>, ret: Option<(Place, Option<usize>)>, stop: bool) {
        let mut l = vec![V::Un; self.ir.fns[f].locals.len()];
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 < l.len() {
                l[i + 1] = a;
            }
        }
        st.fr.push(Frame { f, b: 0, l: Rc::new(l), ret, stop });
    }
    /// result of a closure or function called by a model
    fn apply(&mut self, st: St, f: &V, args: Vec<V>) -> Option<Outs> {
        let (fi, full) = match f {
            V::Clo(fi, _) => {
                // closures take their captures first and the arguments as one or several locals
                let mut a = vec![V::Val(Rc::new(f.clone()))];
                a.extend(args);
                (*fi, a)
            }
            V::Fun(p) => match self.ir.by_name.get(&norm_local(p)) {
                Some(fi) => (*fi, args),
                None => {
                    let name = last_seg(p).to_string();
                    let c = self.deref(&st, &args[0]);
                    return self.char_pred(st, &c, &name, None);
                }
            },
            V::Val(x) => return self.apply(st, &x.clone(), args),
            V::Ref(_) => {
                let g = self.deref(&st, f);
                if matches!(g, V::Ref(_) | V::Un) {
                    return None;
                }
                return self.apply(st, &g, args);
            }
            _ => return None,
        };
        if st.fr.len() > 40 || self.ir.fns[fi].blocks.is_empty() || self.ir.fns[fi].live_in.is_empty() {
            return None;
        }
        let mut s = st;
        self.push_frame(&mut s, fi, full, None, true);
        let saved = std::mem::take(&mut self.results);
        let mut stack = vec![s];
        let mut seen: FxSet<St> = Default::default();
        let keep = self.prog;
        let span = self.cur_span.clone();
        let mut n = 0;
        while let Some(mut s) = stack.pop() {
            n += 1;
            if n > 20_000 {
                break;
            }
            let top = s.fr.last().unwrap();
            if self.joins(top.f)[top.b] {
                self.prune(&mut s);
                if !seen.insert(s.clone()) {
                    continue;
                }
            }
            self.fns.insert(self.ir.fns[s.fr.last().unwrap().f].name.clone());
            for (x, _) in self.block(s) {
                stack.push(x);
            }
        }
        self.prog = keep;
        self.cur_span = span;
        let res = std::mem::replace(&mut self.results, saved);
        if n > 20_000 {
            return None;
        }
        Some(
            res.into_iter()
                .map(|(mut s, v)| {
                    let v = self.deref(&s, &v);
                    s.fr.pop();
                    (s, v)
                })
                .collect(),
        )
    }
    fn char_pred(&mut self, st: St, c: &V, name: &str, radix: Option<u64>) -> Option<Outs> {
        let c = match c {
            V::C(c) => *c,
            _ => return None,
        };
        let (y, n) = pred(name, radix)?;
        Some(self.fork_char(st, &c, y, n).into_iter().map(|(s, b)| (s, V::B(b))).collect())
    }
    fn call(&mut self, st: St, r: &FnRef, args: Vec<V>, d: Place, b: Option<usize>) -> Vec<St> {
        // functions of the crate are followed
        let fi = if r.local { self.ir.by_id.get(&r.id).or_else(|| r.res.as_ref().and_then(|n| self.ir.by_name.get(n))).cloned() } else { None };
        if let Some(fi) = fi {
            let nm = self.ir.fns[fi].name.clone();
            if nm.ends_with("Token::is_comment") {
                if let V::Tok(e) = self.deref(&st, &args[0]) {
                    return match e {
                        Elem::Comment | Elem::Cm(_) => self.done(st, V::B(true), &d, b),
                        Elem::NC => self.done(st, V::B(false), &d, b),
                        Elem::Older => {
                            let mut o = self.done(st.clone(), V::B(true), &d, b);
                            o.extend(self.done(st, V::B(false), &d, b));
                            o
                        }
                    };
                }
            }
            if nm.ends_with("Parser::get_token") && self.head.is_some() && args.len() == 2 {
                let tok = match self.deref(&st, &args[1]) {
                    V::I(I::K(0)) => self.head.clone().unwrap(),
                    _ => {
                        let n = self.tlit.max(self.tline).max(self.tcol) + 1;
                        let mut fs = vec![V::Un; n];
                        fs[self.tlit] = V::S(Str::El(Elem::Older, false));
                        V::Adt(intern("Token"), 0, Rc::new(fs))
                    }
                };
                let ok = V::Adt(intern("Result"), 0, Rc::new(vec![V::Val(Rc::new(tok))]));
                return self.done(st, ok, &d, b);
            }
            let fun = &self.ir.fns[fi];
            if !fun.blocks.is_empty() && !fun.live_in.is_empty() {
                if st.fr.len() > 40 {
                    self.undec(&st, "recursion");
                    return vec![];
                }
                let mut s = st;
                self.push_frame(&mut s, fi, args, Some((d, b)), false);
                return vec![s];
            }
        }
        let mut out = vec![];
        for (s, v) in self.model(st, r, args) {
            out.extend(self.done(s, v, &d, b));
        }
        out
    }
    fn done(&mut self, mut st: St, v: V, d: &Place, b: Option<usize>) -> Vec<St> {
        let b = match b {
            Some(b) => b,
            None => return vec![],
        };
        self.write(&mut st, d, v);
        let p = self.prog;
        let r = if d.p.is_empty() && !(self.root && d.l == 1) { vec![st] } else { self.sync(st) };
        self.prog |= p;
        r.into_iter().map(|s| Self::goto(s, b)).collect()
    }
    // ------------------------------------------------------------ std
    fn range(&self, st: &St, v: &V) -> Option<(Option<I>, Option<I>)> {
        if let V::Adt(d, _, fs) = self.deref(st, v) {
            let g = |i: usize| match fs.get(i).map(|x| self.deref(st, x)) {
                Some(V::I(x)) => Some(x),
                _ => None,
            };
            let n = crate::dom::istr(d);
            return match n.as_str() {
                "Range" => Some((Some(g(0)?), Some(g(1)?))),
                "RangeFrom" => Some((Some(g(0)?), None)),
                "RangeTo" => Some((None, Some(g(0)?))),
                "RangeFull" => Some((None, None)),
                _ => None,
            };
        }
        None
    }
    fn tok_next(&mut self, st: St, filt: &Option<Rc<V>>) -> Option<Vec<(St, Option<Elem>)>> {
        // elements from the last token backwards, first one that passes
        let mut out = vec![];
        let mut cands = vec![];
        if st.last == 1 {
            cands.push(Elem::Comment);
        }
        if st.nc != 0 {
            cands.push(Elem::NC);
        }
        let mut cur = vec![st];
        for e in cands {
            let mut next = vec![];
            for s in cur {
                match filt {
                    None => out.push((s, Some(e))),
                    Some(f) => {
                        let kinds: &[Elem] = if e == Elem::Comment { &[Elem::Cm(0), Elem::Cm(1), Elem::Cm(2)] } else { &[e] };
                        for k in kinds {
                            for (s2, v) in self.apply(s.clone(), f, vec![V::Val(Rc::new(V::Val(Rc::new(V::Tok(*k)))))])? {
                                match v {
                                    V::B(true) if !out.contains(&(s2.clone(), Some(e))) => out.push((s2, Some(e))),
                                    V::B(false) if !next.contains(&s2) => next.push(s2),
                                    V::B(_) => {}
                                    _ => return None,
                                }
                            }
                        }
                    }
                }
            }
            cur = next;
        }
        for s in cur {
            if s.nc == 0 {
                out.push((s, None));
            } else {
                out.push((s.clone(), Some(Elem::Older)));
                out.push((s, None));
            }
        }
        Some(out)
    }
    fn model(&mut self, st: St, r: &FnRef, args: Vec<V>) -> Outs {
        let t2 = tail2(&r.norm).replace("[T]::", "slice::");
        let name = last_seg(&t2).to_string();
        let a0 = args.first().cloned().unwrap_or(V::Un);
        let a1 = args.get(1).cloned().unwrap_or(V::Un);
        let d0 = self.deref(&st, &a0);
        let d1 = self.deref(&st, &a1);
        let one = |s: St, v: V| vec![(s, v)];
        if name.starts_with("panic") || t2 == "intrinsics::abort" || name == "unreachable_display" || name.ends_with("_failed") {
            let site = format!("{} panic", self.here(&st));
            self.panics.insert(site);
            self.find(&st, "C03", "panic", "an explicit panic is reachable");
            return vec![];
        }
        match t2.as_str() {
            // the characters the tokenizer reads are those of the text
            "Vec::pop" | "Vec::push" | "Vec::truncate" | "Vec::retain" | "Vec::retain_mut" | "Vec::remove" | "Vec::swap_remove" | "Vec::clear" | "Vec::dedup" | "Vec::drain" | "Vec::insert" | "Vec::split_off" | "slice::reverse" | "slice::swap" | "Vec::extend" | "Extend::extend" | "Vec::append" | "Vec::extend_from_slice" | "Iterator::filter" | "Iterator::skip" | "Iterator::skip_while" | "Iterator::take" | "Iterator::take_while" | "Iterator::map" | "Iterator::filter_map" | "Iterator::flat_map" | "Iterator::step_by" | "Iterator::rev" | "Iterator::chain" | "Iterator::map_while"
                if matches!(d0, V::Input) && (!self.root || !t2.starts_with("Iterator")) =>
            {
                self.find(&st, "C05", &format!("input-altered({})", name), "the tokenizer does not read the text as it was passed: characters are dropped, added or replaced before it starts");
                return one(st, V::Input);
            }
            // only so many of the tokens in front, comments among them
            "Iterator::take" if self.root && matches!(d0, V::TokIt { filt: None, .. }) => {
                self.find(&st, "C09", "bounded-look-back", "only a limited number of preceding tokens is looked at, comments included: comments can push the token that matters out of sight");
                return one(st, d0);
            }
            "str::replace" | "str::replacen" | "str::to_lowercase" | "str::to_uppercase" | "str::to_ascii_lowercase" | "str::to_ascii_uppercase" | "str::repeat" | "str::trim" | "str::trim_start" | "str::trim_end" | "str::trim_start_matches" | "str::trim_end_matches" | "str::trim_matches"
                if matches!(d0, V::S(Str::Text | Str::Alt)) || matches!(name.as_str(), "replace" | "replacen" | "repeat" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase") && matches!(d0, V::S(Str::Sl(..) | Str::Of(_))) =>
            {
                return one(st, V::S(Str::Alt));
            }
            "Try::branch" => {
                let cf = intern("ControlFlow");
                if let V::Adt(d, v, fs) = &d0 {
                    let is_opt = *d == intern("Option");
                    let good = (*v == 1) == is_opt;
                    return if good {
                        one(st, V::Adt(cf, 0, Rc::new(vec![fs.first().cloned().unwrap_or(V::Un)])))
                    } else {
                        one(st, V::Adt(cf, 1, Rc::new(vec![d0.clone()])))
                    };
                }
                return vec![(st.clone(), V::Adt(cf, 0, Rc::new(vec![V::Un]))), (st, V::Adt(cf, 1, Rc::new(vec![V::Un])))];
            }
            "FromResidual::from_residual" => return one(st, d0),
            "PartialEq::eq" => return Self::bools(self.eq_any(st, &a0, &a1), false),
            "PartialEq::ne" => return Self::bools(self.eq_any(st, &a0, &a1), true),
            "Deref::deref" | "LazyLock::force" | "OnceLock::get_or_init" | "OnceCell::get_or_init" if matches!(d0, V::Lazy(_)) => {
                let f = if name == "get_or_init" {
                    Some(a1.clone())
                } else if let V::Lazy(n) = &d0 {
                    let p = format!("{}::{{closure", n);
                    self.ir.fns.iter().position(|f| f.name.starts_with(&p) && f.name.ends_with('}')).map(|i| V::Clo(i, Rc::new(vec![])))
                } else {
                    None
                };
                if let Some(f) = f {
                    if let Some(o) = self.apply(st.clone(), &f, vec![]) {
                        return o;
                    }
                }
            }
            "Deref::deref" | "DerefMut::deref_mut" | "String::as_str" | "AsRef::as_ref" | "Borrow::borrow" | "Vec::as_slice" | "Clone::clone" | "ToOwned::to_owned" | "str::to_owned" | "From::from" | "Into::into" | "String::from" | "hint::must_use" | "Option::as_ref" | "Option::cloned" | "Option::copied" | "str::to_string" | "Option::as_deref" | "hint::black_box" | "convert::identity" => {
                if name == "cloned" || name == "copied" {
                    if let V::Adt(d, v, fs) = &d0 {
                        let fs: Vec<V> = fs.iter().map(|x| self.deref(&st, x)).collect();
                        let v = V::Adt(*d, *v, Rc::new(fs));
                        return one(st, v);
                    }
                }
                return match d0 {
                    V::Input | V::Slice(..) | V::S(_) | V::C(_) | V::I(_) | V::B(_) | V::Words(_) | V::Fun(_) => one(st, d0),
                    V::Adt(..) if name != "deref" && name != "deref_mut" && name != "borrow" => one(st, d0),
                    _ => one(st, a0),
                };
            }
            "ToString::to_string" => {
                let v = match d0 {
                    V::C(c) => V::S(Str::Of(c)),
                    V::S(s) => V::S(s),
                    _ => V::S(Str::Top),
                };
                return one(st, v);
            }
            "Vec::len" | "slice::len" | "ExactSizeIterator::len" => {
                return match d0 {
                    V::Input => one(st, V::I(I::Len)),
                    V::Slice(a, b) => {
                        let v = match (a.s, b.s, a.c, b.c) {
                            (Some(x), Some(y), _, _) if y >= x => I::K((y - x) as u64),
                            (_, _, Some(x), Some(y)) if y >= x => I::K((y - x) as u64),
                            _ => I::Cnt,
                        };
                        one(st, V::I(v))
                    }
                    V::Words(w) => one(st, V::I(I::K(w.len() as u64))),
                    _ => one(st, V::I(I::Cnt)),
                };
            }
            "String::len" | "str::len" | "Iterator::count" => {
                return match &d0 {
                    V::S(Str::K(s)) if s.is_ascii() => {
                        let n = s.len() as u64;
                        one(st, V::I(I::K(n)))
                    }
                    V::S(Str::Of(_)) => one(st, V::I(I::K(1))),
                    V::S(Str::Cat(c, _)) => {
                        // lengths up to 3 are told apart
                        let mut out = vec![];
                        if let spec::Kind::Exact(w) = &self.cats[*c as usize].kind {
                            let n = w.len() as u64;
                            return one(st, V::I(I::K(n)));
                        }
                        for n in 0..4u64 {
                            if self.cats[*c as usize].has_len(n as usize) {
                                out.push((st.clone(), V::I(I::K(n))));
                            }
                        }
                        if self.cats[*c as usize].has_len_over(3) {
                            let mut reps: std::collections::BTreeSet<u64> = [8, 99, 1_000_000].into();
                            // lengths the code tells apart
                            let f = st.fr.last().map(|f| f.f);
                            if let Some(f) = f {
                                for b in &self.ir.fns[f].blocks {
                                    for s in &b.s {
                                        if let Stmt::Assign(_, Rv::Bin(_, x, y), _) = s {
                                            for o in [x, y] {
                                                if let Op::Const { c: Const::Int(k), .. } = o {
                                                    if *k < 100_000 {
                                                        reps.extend([(*k as u64).saturating_sub(1), *k as u64, *k as u64 + 1]);
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            let c = *c;
                            for k in reps {
                                if k > 3 && (k > 64 || self.cats[c as usize].has_len(k as usize)) {
                                    out.push((st.clone(), V::I(I::K(k))));
                                }
                            }
                        }
                        out
                    }
                    _ => one(st, V::I(I::Cnt)),
                };
            }
            "String::is_empty" | "str::is_empty" => {
                return match &d0 {
                    V::S(Str::K(s)) => {
                        let v = V::B(s.is_empty());
                        one(st, v)
                    }
                    V::S(Str::Cat(c, _)) => {
                        let c = &self.cats[*c as usize];
                        let mut out = vec![];
                        if c.has_len(0) {
                            out.push((st.clone(), V::B(true)));
                        }
                        if c.has_len_over(0) {
                            out.push((st, V::B(false)));
                        }
                        out
                    }
                    _ => Self::either(st),
                };
            }
            "Vec::is_empty" | "slice::is_empty" => {
                return match d0 {
                    V::Toks => {
                        let e = st.nc == 0 && st.last == 0;
                        one(st, V::B(e))
                    }
                    _ => Self::either(st),
                };
            }
            "Index::index" | "slice::get" | "Vec::get" | "IndexMut::index_mut" | "str::get" => {
                let get = name == "get";
                if let V::Input = d0 {
                    if let V::I(i) = d1 {
                        let i = match i {
                            I::Pos(o) => o,
                            _ => {
                                if get {
                                    let v = V::Val(Rc::new(V::C(Ch { set: CS::chars(), at: Off::NONE })));
                                    return vec![(st.clone(), opt(Some(v))), (st, opt(None))];
                                }
                                // bounds not followed: taken as guarded by the surrounding test
                                self.undec(&st, "index that cannot be followed");
                                return one(st, V::Val(Rc::new(V::C(Ch { set: CS::chars(), at: Off::NONE }))));
                            }
                        };
                        let forks = match self.fork_in(st.clone(), i) {
                            Some(f) => f,
                            None => vec![(st.clone(), true), (st, false)],
                        };
                        let mut out = vec![];
                        let site = format!("{} index", self.here(&forks[0].0));
                        self.panics.insert(site);
                        for (s, inside) in forks {
                            if inside {
                                let set = self.slot(&s, i).unwrap_or(CS::chars()).minus(CS::one(EOF));
                                let v = V::Val(Rc::new(V::C(Ch { set, at: i })));
                                out.push((s, if get { opt(Some(v)) } else { v }));
                            } else if get {
                                out.push((s, opt(None)));
                            } else {
                                self.find(&s, "C03", "index", "the input is indexed at its end, which is a panic");
                            }
                        }
                        return out;
                    }
                    if let Some((a, b)) = self.range(&st, &a1) {
                        let (a, b) = match (a, b) {
                            (Some(I::Pos(a)), Some(I::Pos(b))) => (a, b),
                            _ => {
                                self.undec(&st, "slice bound");
                                let v = V::Slice(Off::NONE, Off::NONE);
                                return one(st, if get { opt(Some(v)) } else { v });
                            }
                        };
                        let site = format!("{} slice", self.here(&st));
                        self.panics.insert(site);
                        // start <= end <= length
                        let mut out = vec![];
                        for (s, lt) in self.fork_lt(st, I::Pos(b), I::Pos(a)) {
                            if lt == Some(true) {
                                self.find(&s, "C03", "slice-order", "the input is sliced with a start after its end, which is a panic");
                                continue;
                            }
                            let ok = match b.c {
                                Some(c) if c <= 0 => Some(vec![(s.clone(), true)]),
                                _ => self.fork_in(s.clone(), b.add(-1)),
                            };
                            for (s2, inside) in ok.unwrap_or(vec![(s, true)]) {
                                if !inside {
                                    self.find(&s2, "C03", "slice-end", "the input is sliced past its end, which is a panic");
                                } else {
                                    let v = V::Slice(a, b);
                                    out.push((s2, if get { opt(Some(v)) } else { v }));
                                }
                            }
                        }
                        return out;
                    }
                }
                if let V::Toks = d0 {
                    let v = V::Val(Rc::new(V::Tok(Elem::Older)));
                    return if get { vec![(st.clone(), opt(Some(v))), (st, opt(None))] } else { one(st, v) };
                }
                if let (V::Words(w), V::I(I::K(i))) = (&d0, &d1) {
                    if let Some(x) = w.get(*i as usize) {
                        let v = V::S(Str::K(x.clone()));
                        return one(st, v);
                    }
                }
                self.undec(&st, "index");
                return vec![];
            }
            "slice::last" | "Vec::last" => {
                if let V::Toks = d0 {
                    let mut out = vec![];
                    let l = st.last;
                    out.push((
                        st,
                        match l {
                            0 => opt(None),
                            1 => opt(Some(V::Val(Rc::new(V::Tok(Elem::Comment))))),
                            _ => opt(Some(V::Val(Rc::new(V::Tok(Elem::NC))))),
                        },
                    ));
                    return out;
                }
            }
            "slice::iter" | "IntoIterator::into_iter" | "Vec::iter" | "Vec::into_iter" => {
                return match d0 {
                    V::Toks => one(st, V::TokIt { rev: false, filt: None, started: 0 }),
                    V::Slice(a, b) => one(st, V::ChIt(a, b)),
                    V::Words(w) => one(st, V::WordIt(w, 0)),
                    V::Adt(0, 0, fs) => one(st, V::Adt(intern("ListIt"), 0, fs)),
                    _ => one(st, a0),
                };
            }
            "Iterator::rev" => {
                if let V::TokIt { rev, filt, started } = d0 {
                    return one(st, V::TokIt { rev: !rev, filt, started });
                }
            }
            "Iterator::filter" => {
                if let V::TokIt { rev, filt: None, started } = d0 {
                    return one(st, V::TokIt { rev, filt: Some(Rc::new(a1)), started });
                }
            }
            "Iterator::copied" | "Iterator::cloned" => return one(st, d0),
            "Iterator::find" | "Iterator::rfind" => {
                if let V::TokIt { rev, filt: None, started: 0 } = &d0 {
                    if *rev == (name == "find") {
                        if let Some(v) = self.tok_next(st.clone(), &Some(Rc::new(a1.clone()))) {
                            return v.into_iter().map(|(s, e)| (s, opt(e.map(|e| V::Val(Rc::new(V::Tok(e))))))).collect();
                        }
                    }
                }
            }
            "Iterator::last" | "DoubleEndedIterator::next_back" | "Iterator::next" | "Iterator::nth" if name != "nth" || matches!(d0, V::CatIt(..)) => {
                let fwd = name == "next";
                if let V::TokIt { rev, filt, started: 0 } = &d0 {
                    if *rev == fwd {
                        if let Some(v) = self.tok_next(st.clone(), filt) {
                            let (rev, filt) = (*rev, filt.clone());
                            self.prog = true;
                            return v
                                .into_iter()
                                .map(|(mut s, e)| {
                                    let it = V::TokIt { rev, filt: filt.clone(), started: if e == Some(Elem::Comment) { 1 } else { 2 } };
                                    if let V::Ref(p) = &a0 {
                                        self.set(&mut s, p, it.clone());
                                    }
                                    (s, opt(e.map(|e| V::Val(Rc::new(V::Tok(e))))))
                                })
                                .collect();
                        }
                    }
                    return vec![(st.clone(), opt(Some(V::Val(Rc::new(V::Tok(Elem::Older)))))), (st, opt(None))];
                }
                if let V::TokIt { rev, filt, started } = &d0 {
                    self.prog = true;
                    let it = |n: u8| V::TokIt { rev: *rev, filt: filt.clone(), started: n };
                    let tok = |e| opt(Some(V::Val(Rc::new(V::Tok(e)))));
                    let mut outs: Vec<(V, u8)> = vec![];
                    if *rev == fwd && filt.is_none() && *started == 1 {
                        outs.push((tok(Elem::Comment), 1));
                        outs.push(if st.nc != 0 { (tok(Elem::NC), 2) } else { (opt(None), 2) });
                    } else {
                        outs.push((tok(Elem::Older), 2));
                        outs.push((opt(None), 2));
                    }
                    return outs
                        .into_iter()
                        .map(|(v, n)| {
                            let mut s = st.clone();
                            if let V::Ref(p) = &a0 {
                                self.set(&mut s, p, it(n));
                            }
                            (s, v)
                        })
                        .collect();
                }
                if let (V::CatIt(c, q), "nth", V::I(I::K(n))) = (&d0, name.as_str(), &d1) {
                    if *n < 16 {
                        let cat = &self.cats[*c as usize];
                        let mut cur: std::collections::BTreeSet<u16> = [*q].into();
                        let mut none = false;
                        for _ in 0..*n {
                            none |= cur.iter().any(|q| cat.accepts(*q));
                            cur = cur.iter().flat_map(|q| cat.steps(*q)).map(|x| x.1).collect();
                        }
                        none |= cur.iter().any(|q| cat.accepts(*q));
                        let next: std::collections::BTreeSet<(usize, u16)> = cur.iter().flat_map(|q| cat.steps(*q)).collect();
                        let c = *c;
                        self.prog = true;
                        let mut out = vec![];
                        for (a, q2) in next {
                            let mut s = st.clone();
                            if let V::Ref(p) = &a0 {
                                self.set(&mut s, p, V::CatIt(c, q2));
                            }
                            out.push((s, opt(Some(V::C(Ch { set: CS::one(a), at: Off::NONE })))));
                        }
                        if none {
                            out.push((st, opt(None)));
                        }
                        return out;
                    }
                }
                if let V::CatIt(c, q) = &d0 {
                    if name == "last" {
                        let set = self.cats[*c as usize].last_chars(*q);
                        let mut out: Outs = set.iter().map(|a| (st.clone(), opt(Some(V::C(Ch { set: CS::one(a), at: Off::NONE }))))).collect();
                        if self.cats[*c as usize].accepts(*q) {
                            out.push((st, opt(None)));
                        }
                        return out;
                    }
                    if fwd {
                        let (c, q) = (*c, *q);
                        let steps = self.cats[c as usize].steps(q);
                        let mut out = vec![];
                        self.prog = true;
                        for (a, q2) in steps {
                            let mut s = st.clone();
                            if let V::Ref(p) = &a0 {
                                self.set(&mut s, p, V::CatIt(c, q2));
                            }
                            out.push((s, opt(Some(V::C(Ch { set: CS::one(a), at: Off::NONE })))));
                        }
                        if self.cats[c as usize].accepts(q) {
                            out.push((st, opt(None)));
                        }
                        return out;
                    }
                }
                if let V::WordIt(w, i) = &d0 {
                    if fwd {
                        let mut s = st;
                        self.prog = true;
                        if (*i as usize) < w.len() {
                            if let V::Ref(p) = &a0 {
                                self.set(&mut s, p, V::WordIt(w.clone(), i + 1));
                            }
                            let v = V::S(Str::K(w[*i as usize].clone()));
                            return one(s, opt(Some(V::Val(Rc::new(v)))));
                        }
                        return one(s, opt(None));
                    }
                }
                if fwd {
                    if let Some((Some(a), Some(b))) = self.range(&st, &a0) {
                        self.prog = true;
                        let mut out = vec![];
                        for (s, lt) in self.fork_lt(st, a, b) {
                            if lt != Some(false) {
                                let mut s2 = s.clone();
                                if let (V::Ref(p), V::Adt(d, v, _)) = (&a0, &d0) {
                                    let n = Self::lostc(Self::add(a, I::K(1), false));
                                    self.set(&mut s2, p, V::Adt(*d, *v, Rc::new(vec![V::I(n), V::I(b)])));
                                }
                                out.push((s2, opt(Some(V::I(a)))));
                            }
                            if lt != Some(true) {
                                out.push((s, opt(None)));
                            }
                        }
                        return out;
                    }
                }
            }
            "Iterator::collect" | "FromIterator::from_iter" | "String::from_iter" => {
                return match d0 {
                    V::ChIt(a, b) | V::Slice(a, b) => one(st, V::S(Str::Sl(a, b, false))),
                    V::CatIt(c, 0) => one(st, V::S(Str::Cat(c, false))),
                    V::Input => one(st, V::Input),
                    V::S(s) => one(st, V::S(s)),
                    V::WordIt(w, i) => one(st, V::Words(Rc::new(w[(i as usize).min(w.len())..].to_vec()))),
                    V::Words(w) => one(st, V::Words(w)),
                    _ => one(st, V::Un),
                };
            }
            "String::new" | "String::with_capacity" => return one(st, V::S(Str::K("".into()))),
            "Default::default" if r.targs.first().map_or(false, |t| self.ir.tys[*t].s == "std::string::String") => return one(st, V::S(Str::K("".into()))),
            "Vec::new" | "Vec::with_capacity" if r.targs.first().map_or(false, |t| self.ir.tys[*t].s == "char") => return one(st, V::S(Str::K("".into()))),
            // the list of tokens only grows at its end
            "Vec::pop" | "Vec::truncate" | "Vec::retain" | "Vec::retain_mut" | "Vec::remove" | "Vec::swap_remove" | "Vec::clear" | "Vec::dedup" | "Vec::dedup_by" | "Vec::dedup_by_key" | "Vec::drain" | "Vec::insert" | "Vec::split_off" | "slice::reverse" | "slice::sort" | "slice::sort_by" | "slice::sort_by_key" | "slice::swap" | "slice::rotate_left" | "slice::rotate_right"
                if self.root && matches!(d0, V::Toks) && r.targs.first().map_or(false, |t| self.ir.tys[*t].s == "token::Token") =>
            {
                self.find(&st, "C05", &format!("list-altered({})", name), "the list of tokens is changed otherwise than by adding a token at its end");
                self.find(&st, "C15", &format!("list-altered({})", name), "tokens that were produced may be taken out of the result, or moved");
                return vec![];
            }
            "Vec::push" if matches!((&d0, &d1), (V::S(_), V::C(_))) => {
                if let (V::Ref(p), V::C(c)) = (&a0, &d1) {
                    let nv = match &d0 {
                        V::S(Str::K(s)) if s.is_empty() && !c.at.lost() => V::S(Str::Sl(c.at, c.at.add(1), false)),
                        V::S(Str::Sl(a, b, false)) if (b.c.is_some() && b.c == c.at.c) || (b.s.is_some() && b.s == c.at.s) => V::S(Str::Sl(*a, c.at.add(1), false)),
                        _ => V::S(Str::Top),
                    };
                    let mut s = st;
                    self.set(&mut s, p, nv);
                    return one(s, V::Un);
                }
            }
            "String::push" => {
                if let (V::Ref(p), V::C(c)) = (&a0, &d1) {
                    let nv = match &d0 {
                        V::S(Str::K(s)) if s.is_empty() && !c.at.lost() => V::S(Str::Sl(c.at, c.at.add(1), false)),
                        V::S(Str::Sl(a, b, false)) if (b.c.is_some() && b.c == c.at.c) || (b.s.is_some() && b.s == c.at.s) => V::S(Str::Sl(*a, c.at.add(1), false)),
                        _ => V::S(Str::Top),
                    };
                    let mut s = st;
                    self.set(&mut s, p, nv);
                    return one(s, V::Un);
                }
            }
            "str::trim_end_matches" | "str::trim_right_matches" if matches!(d0, V::S(Str::Sl(..))) && matches!(d1, V::Clo(..) | V::Fun(_)) => {
                let ws = CS::by(|i| i == 129 || i < 128 && (i as u8 as char).is_whitespace());
                let mut res = [(false, false); 2];
                for (n, set) in [ws, CS::chars().minus(ws)].into_iter().enumerate() {
                    let mut t = st.clone();
                    t.imp = false;
                    match self.apply(t, &a1, vec![V::C(Ch { set, at: Off::NONE })]) {
                        Some(o) => {
                            for (_, v) in o {
                                match v {
                                    V::B(true) => res[n].0 = true,
                                    V::B(false) => res[n].1 = true,
                                    _ => res[n] = (true, true),
                                }
                            }
                        }
                        None => return one(st, V::S(Str::Top)),
                    }
                }
                if let V::S(Str::Sl(a, b, t)) = d0 {
                    return match (res[0], res[1]) {
                        ((true, false), (false, true)) => one(st, V::S(Str::Sl(a, b, true))),
                        ((false, true), (false, true)) => one(st, V::S(Str::Sl(a, b, t))),
                        // something else than white space is cut off
                        (_, (true, _)) => one(st, V::S(Str::Alt)),
                        _ => one(st, V::S(Str::Top)),
                    };
                }
            }
            "str::trim_end" | "str::trim" | "str::trim_right" => {
                if let V::S(Str::Sl(a, b, _)) = d0 {
                    return one(st, V::S(Str::Sl(a, b, true)));
                }
                return one(st, V::S(Str::Top));
            }
            "str::chars" => {
                return match d0 {
                    V::S(Str::Cat(c, _)) => one(st, V::CatIt(c, 0)),
                    V::S(_) if self.root => one(st, V::Un),
                    V::S(Str::Alt) => {
                        self.find(&st, "C05", "input-altered", "the tokenizer does not read the text as it was passed: it is altered before it starts");
                        one(st, V::Input)
                    }
                    _ if !self.root => one(st, V::Input),
                    _ => one(st, V::Un),
                }
            }
            "str::to_uppercase" | "str::to_ascii_uppercase" => {
                let v = match d0 {
                    V::S(Str::El(e, _)) => V::S(Str::El(e, true)),
                    V::S(Str::Cat(c, _)) => V::S(Str::Cat(c, true)),
                    V::S(Str::K(s)) => V::S(Str::K(s.to_uppercase().as_str().into())),
                    _ => V::S(Str::Top),
                };
                return one(st, v);
            }
            "str::eq_ignore_ascii_case" => {
                if let (V::S(x), V::S(y)) = (&d0, &d1) {
                    let up = |s: &Str| match s {
                        Str::K(k) => Str::K(k.to_uppercase().as_str().into()),
                        Str::El(e, _) => Str::El(*e, true),
                        Str::Cat(c, _) => Str::Cat(*c, true),
                        s => s.clone(),
                    };
                    let r = self.eq_str(st, &up(x), &up(y));
                    return Self::bools(r, false);
                }
            }
            "str::starts_with" | "str::ends_with" => {
                if let (V::S(Str::El(e, _)), true) = (&d0, name == "starts_with") {
                    let k = match &d1 {
                        V::S(Str::K(k)) => Some(k.to_string()),
                        V::C(c) => c.set.single().filter(|a| *a < 128).map(|a| (a as u8 as char).to_string()),
                        _ => None,
                    };
                    let marks = ["#", "--", "/*"];
                    match (e, k) {
                        (Elem::Cm(n), Some(k)) => {
                            let m = marks[*n as usize];
                            if m.starts_with(&k) {
                                return one(st, V::B(true));
                            }
                            if !k.starts_with(m) {
                                return one(st, V::B(false));
                            }
                        }
                        (Elem::NC, Some(k)) if marks.iter().any(|m| k.starts_with(m)) => return one(st, V::B(false)),
                        _ => {}
                    }
                }
                if let V::S(Str::Cat(c, _)) = &d0 {
                    let cat = &self.cats[*c as usize];
                    let set = if name == "starts_with" { cat.first_chars() } else { cat.last_chars(0) };
                    let want = match &d1 {
                        V::C(ch) => Some(ch.set),
                        V::S(Str::K(k)) if k.chars().count() == 1 => Some(CS::of(k)),
                        _ => None,
                    };
                    if let Some(w) = want {
                        let mut out = vec![];
                        if !set.and(w).is_empty() {
                            out.push((st.clone(), V::B(true)));
                        }
                        if !set.minus(w).is_empty() || cat.has_len(0) {
                            out.push((st, V::B(false)));
                        }
                        return out;
                    }
                    // longer constant
                    if let V::S(Str::K(k)) = &d1 {
                        if name == "starts_with" {
                            let (y, n) = cat.prefix(k);
                            let mut out = vec![];
                            if y {
                                out.push((st.clone(), V::B(true)));
                            }
                            if n {
                                out.push((st, V::B(false)));
                            }
                            return out;
                        }
                    }
                }
            }
            "slice::contains" | "HashSet::contains" | "BTreeSet::contains" | "Vec::contains" => {
                if let V::Adt(0, 0, fs) = &d0 {
                    let mut cur = vec![st];
                    let mut out = vec![];
                    for x in fs.iter() {
                        let mut next = vec![];
                        for s in cur {
                            for (s2, b) in self.eq_any(s, &d1, x) {
                                match b {
                                    Some(true) => out.push((s2, V::B(true))),
                                    Some(false) => next.push(s2),
                                    None => {
                                        let mut s2 = s2;
                                        s2.imp = true;
                                        out.push((s2.clone(), V::B(true)));
                                        next.push(s2);
                                    }
                                }
                            }
                        }
                        cur = next;
                    }
                    out.extend(cur.into_iter().map(|s| (s, V::B(false))));
                    return out;
                }
                if let V::Words(w) = &d0 {
                    let mut cur = vec![st];
                    let mut out = vec![];
                    for x in w.iter() {
                        let mut next = vec![];
                        for s in cur {
                            for (s2, b) in self.eq_any(s, &d1, &V::S(Str::K(x.clone()))) {
                                if b != Some(false) {
                                    out.push((s2.clone(), V::B(true)));
                                }
                                if b != Some(true) {
                                    next.push(s2);
                                }
                            }
                        }
                        cur = next;
                    }
                    out.extend(cur.into_iter().map(|s| (s, V::B(false))));
                    return out;
                }
            }
            "Iterator::any" | "Iterator::all" => {
                let any = name == "any";
                let list: Option<Vec<V>> = match (&d0, self.range(&st, &a0)) {
                    (_, Some((Some(I::K(x)), Some(I::K(y))))) if y < x + 8 => Some((x..y).map(|i| V::I(I::K(i))).collect()),
                    (V::Adt(d, _, fs), _) if *d == intern("ListIt") => Some(fs.iter().map(|x| V::Val(Rc::new(x.clone()))).collect()),
                    _ => None,
                };
                if let Some(l) = list {
                    let mut cur = vec![st.clone()];
                    let mut out = vec![];
                    let mut fail = false;
                    for x in l {
                        let mut next = vec![];
                        for s in cur {
                            match self.apply(s, &a1, vec![x.clone()]) {
                                Some(r) => {
                                    for (s2, v) in r {
                                        match v {
                                            V::B(b) if b == any => out.push((s2, V::B(any))),
                                            V::B(_) => next.push(s2),
                                            _ => fail = true,
                                        }
                                    }
                                }
                                None => fail = true,
                            }
                        }
                        cur = next;
                    }
                    if !fail {
                        out.extend(cur.into_iter().map(|s| (s, V::B(!any))));
                        return out;
                    }
                }
                if let V::WordIt(w, i) = &d0 {
                    let mut cur = vec![st.clone()];
                    let mut out = vec![];
                    let mut fail = false;
                    for x in w.iter().skip(*i as usize) {
                        let mut next = vec![];
                        for s in cur {
                            match self.apply(s, &a1, vec![V::Val(Rc::new(V::S(Str::K(x.clone()))))]) {
                                Some(r) => {
                                    for (s2, v) in r {
                                        match v {
                                            V::B(b) if b == any => out.push((s2, V::B(any))),
                                            V::B(_) => next.push(s2),
                                            _ => fail = true,
                                        }
                                    }
                                }
                                None => fail = true,
                            }
                        }
                        cur = next;
                    }
                    if !fail {
                        out.extend(cur.into_iter().map(|s| (s, V::B(!any))));
                        return out;
                    }
                }
                if let V::CatIt(c, q) = &d0 {
                    // walk the category's automaton
                    let mut out: Outs = vec![];
                    let mut seen = std::collections::BTreeSet::new();
                    let mut work = vec![*q];
                    let mut fail = false;
                    while let Some(q) = work.pop() {
                        if !seen.insert(q) {
                            continue;
                        }
                        if self.cats[*c as usize].accepts(q) {
                            out.push((st.clone(), V::B(!any)));
                        }
                        for (a, q2) in self.cats[*c as usize].steps(q) {
                            match self.apply(st.clone(), &a1, vec![V::C(Ch { set: CS::one(a), at: Off::NONE })]) {
                                Some(r) => {
                                    for (s2, v) in r {
                                        match v {
                                            V::B(b) if b == any => {
                                                if self.cats[*c as usize].live(q2) {
                                                    out.push((s2, V::B(any)))
                                                }
                                            }
                                            V::B(_) => work.push(q2),
                                            _ => fail = true,
                                        }
                                    }
                                }
                                None => fail = true,
                            }
                        }
                    }
                    if !fail {
                        out.dedup_by(|a, b| a.1 == b.1 && a.0 == b.0);
                        return out;
                    }
                }
            }
            "Option::is_some" | "Option::is_none" | "Result::is_ok" | "Result::is_err" => {
                if let V::Adt(_, v, _) = &d0 {
                    let b = match name.as_str() {
                        "is_some" => *v == 1,
                        "is_none" => *v == 0,
                        "is_ok" => *v == 0,
                        _ => *v == 1,
                    };
                    return one(st, V::B(b));
                }
                return Self::either(st);
            }
            "Option::unwrap" | "Option::expect" | "Result::unwrap" | "Result::expect" => {
                let site = format!("{} {}", self.here(&st), name);
                self.panics.insert(site);
                if let V::Adt(d, v, fs) = &d0 {
                    let good = if *d == intern("Option") { 1 } else { 0 };
                    if *v == good {
                        return one(st, fs.first().cloned().unwrap_or(V::Un));
                    }
                    self.find(&st, "C03", "unwrap", "unwrap of an absent value is reachable");
                    return vec![];
                }
                if let V::Re(_) = d0 {
                    return one(st, d0);
                }
                self.undec(&st, "unwrap");
                return one(st, V::Un);
            }
            "Option::unwrap_or" | "Option::unwrap_or_default" => {
                if let V::Adt(_, v, fs) = &d0 {
                    if *v == 1 {
                        return one(st, fs[0].clone());
                    }
                    return one(st, if name == "unwrap_or" { a1 } else { V::Un });
                }
            }
            "Option::is_some_and" | "Option::is_none_or" | "Option::map_or" | "Option::map" | "Option::filter" | "Option::and_then" => {
                if let V::Adt(_, v, fs) = &d0 {
                    let f = if name == "map_or" { args.get(2).cloned().unwrap_or(V::Un) } else { a1.clone() };
                    if *v == 0 {
                        return one(
                            st,
                            match name.as_str() {
                                "is_some_and" => V::B(false),
                                "is_none_or" => V::B(true),
                                "map_or" => a1,
                                _ => opt(None),
                            },
                        );
                    }
                    let arg = if name == "filter" { V::Val(Rc::new(fs[0].clone())) } else { fs[0].clone() };
                    if let Some(r) = self.apply(st.clone(), &f, vec![arg]) {
                        return r
                            .into_iter()
                            .map(|(s, v)| match name.as_str() {
                                "map" => (s, opt(Some(v))),
                                "filter" => {
                                    let keep = v == V::B(true);
                                    (s, opt(if keep { Some(fs[0].clone()) } else { None }))
                                }
                                _ => (s, v),
                            })
                            .collect();
                    }
                }
            }
            "RangeInclusive::new" => return one(st, V::Adt(intern("RangeInclusive"), 0, Rc::new(vec![a0, a1]))),
            "RangeInclusive::contains" | "Range::contains" => {
                if let V::Adt(_, _, fs) = &d0 {
                    if let (Some(V::C(lo)), Some(V::C(hi)), V::C(c)) = (fs.first(), fs.get(1), &d1) {
                        if let (Some(l), Some(h)) = (lo.set.single(), hi.set.single()) {
                            let incl = t2.starts_with("RangeInclusive");
                            let yes = CS::by(|i| i >= l && (i < h || incl && i == h));
                            return self.fork_char(st, c, yes, CS::chars().minus(yes)).into_iter().map(|(s, b)| (s, V::B(b))).collect();
                        }
                    }
                }
            }
            "Vec::push" => {
                if let V::Toks = d0 {
                    return self.emit(st, a1).into_iter().map(|s| (s, V::Un)).collect();
                }
            }
            "Vec::new" | "Vec::with_capacity" if matches!(self.mode, Mode::Pred) => return one(st, V::Words(Rc::new(vec![]))),
            "Vec::new" | "Vec::with_capacity" => return one(st, V::Toks),
            "mem::take" => {
                if let V::Toks = d0 {
                    return one(st, V::Toks);
                }
            }
            "Regex::new" => {
                if let V::S(Str::K(p)) = &d0 {
                    let v = V::Adt(intern("Result"), 0, Rc::new(vec![V::Re(p.clone())]));
                    return one(st, v);
                }
            }
            "Regex::is_match" => {
                self.unmod += 1;
                if let (V::Re(p), V::S(Str::Cat(c, _))) = (&d0, &d1) {
                    self.unmod -= 1;
                    if let Some((y, n)) = spec::regex_vs(p, &self.cats[*c as usize]) {
                        let mut out = vec![];
                        if y {
                            out.push((st.clone(), V::B(true)));
                        }
                        if n {
                            out.push((st, V::B(false)));
                        }
                        return out;
                    }
                }
            }
            "usize::saturating_sub" => {
                if let (V::I(a), V::I(b)) = (&d0, &d1) {
                    let u = self.underflow(st, *a, *b);
                    return u.into_iter().map(|(s, u)| (s, V::I(if u { I::K(0) } else { Self::lostc(Self::add(*a, *b, true)) }))).collect();
                }
            }
            "usize::saturating_add" | "usize::wrapping_add" => {
                if let (V::I(a), V::I(b)) = (&d0, &d1) {
                    let v = V::I(Self::lostc(Self::add(*a, *b, false)));
                    return one(st, v);
                }
            }
            _ => {}
        }
        if name == "len_utf16" || name == "len_utf8" {
            if let V::C(c) = &d0 {
                let (y, n) = pred("is_ascii", None).unwrap();
                let mut out = vec![];
                for (s, ascii) in self.fork_char(st.clone(), c, y, n) {
                    if ascii {
                        out.push((s, V::I(I::K(1))));
                    } else if name == "len_utf8" {
                        out.push((s.clone(), V::I(I::K(2))));
                        out.push((s, V::I(I::K(3))));
                    } else {
                        out.push((s.clone(), V::I(I::K(1))));
                        out.push((s, V::I(I::K(2))));
                    }
                }
                return out;
            }
        }
        if name.starts_with("is_") {
            let radix = match d1 {
                V::I(I::K(k)) => Some(k),
                _ => None,
            };
            if let Some(o) = self.char_pred(st.clone(), &d0, &name, radix) {
                return o;
            }
        }
        if t2.starts_with("fmt::") || t2.starts_with("Arguments::") || t2.starts_with("Argument::") || t2.contains("format") || t2.starts_with("rt::") {
            return one(st, V::S(Str::Msg));
        }
        if name == "to_ascii_uppercase" || name == "to_ascii_lowercase" {
            if let V::C(c) = &d0 {
                let e = self.eff(&st, c);
                let up = name.ends_with("uppercase");
                let mut out = vec![];
                for a in e.iter() {
                    let b = if a < 128 {
                        let ch = a as u8 as char;
                        (if up { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }) as usize
                    } else {
                        a
                    };
                    let mut s = st.clone();
                    if self.refine(&mut s, c.at, CS::one(a)) {
                        out.push((s, V::C(Ch { set: CS::one(b), at: Off::NONE })));
                    }
                }
                return out;
            }
        }
        // unknown: must not be able to change what is tracked
        let touches = args.iter().any(|a| matches!(a, V::Ref(p) if self.root && p.fr == 0 && p.l == 1));
        self.undec(&st, &format!("call of {}", t2));
        if t2 != "HashMap::new" {
            self.unmod += 1;
        }
        let mut st = st;
        if self.root {
            st.imp = true;
        }
        if touches && !r.norm.contains("Clone") {
            return vec![];
        }
        one(st, V::Un)
    }
}
fn norm_local(p: &str) -> String {
    p.to_string()
}
