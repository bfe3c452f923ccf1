//! Context-sensitive abstract interpreter over the type-checked program (MIR).
//!
//! States are partitioned by the shape of the values they hold; knowledge about look-ahead tokens
//! and the node types a variable may have are joined.  Token ownership ("which node claims the
//! current token") is tracked through moves, calls, links and drops.
use crate::dom::*;
use crate::ir::*;
use crate::fx::Fx as DefaultHasher;
use crate::fx::{HashMap, HashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub const NF: usize = 7;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct PS {
    pub facts: Vec<TF>,
    pub advanced: bool,
    pub ext: u8,        // claimants of the entry token held by callers (0, 1, 2+)
    pub ext_cont: bool, // the entry token is contested between this function and its callers
    pub garbage: bool,  // cursor left somewhere by a failed attempt
    pub failed: bool,   // an error of a sub-parser has been received and not returned
    pub own_off: bool,  // ownership no longer tracked on this path
    pub restored: u8,
    pub fuzzy: bool, // (probes) a decision was taken on an unknown value before anything was consumed
    pub looked: bool, // a look-ahead at an unbounded offset has succeeded
    pub pend: BTreeSet<u32>,
}
impl PS {
    pub fn new() -> PS {
        PS {
            facts: vec![TF::top(); NF],
            advanced: false,
            ext: 0,
            ext_cont: false,
            garbage: false,
            failed: false,
            own_off: false,
            restored: 0,
            fuzzy: false,
            looked: false,
            pend: BTreeSet::new(),
        }
    }
    fn shape<H: Hasher>(&self, h: &mut H) {
        self.advanced.hash(h);
        self.ext.hash(h);
        self.ext_cont.hash(h);
        self.garbage.hash(h);
        self.failed.hash(h);
        self.own_off.hash(h);
        self.restored.hash(h);
        self.looked.hash(h);
        self.fuzzy.hash(h);
        // findings that depend on the path keep states apart (a few of them); the others are merged
        for p in self.pend.iter().filter(|p| *p % 2 == 0).take(3) {
            p.hash(h);
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct State {
    pub loc: BTreeMap<u32, V>,
    pub cells: Vec<V>,
    pub ps: PS,
    pub ev: u8, // events of the current step (progress etc.), not part of the state proper
}

pub const EV_ADV: u8 = 1; // consumed input
pub const EV_ITER: u8 = 2; // advanced a finite iterator
pub const EV_LOOK: u8 = 4; // successful look-ahead at a growing offset
pub const EV_INC: u8 = 8; // incremented an unbounded counter
pub const EV_DESC: u8 = 16; // stepped from a node to one of its children
pub const EV_POP: u8 = 32;

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ret: V,
    pub cells: Vec<V>,
    pub ps: PS,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    pub f: usize,
    pub args: Vec<V>,
    pub cells: Vec<V>,
    pub ps: PS,
}

pub struct Ctx {
    pub key: Key,
    pub args: Vec<V>,
    pub cells: Vec<V>,
    pub out: HashMap<u64, Outcome>,
    pub deps: HashSet<usize>,
    pub calls: HashMap<usize, bool>, // callee context -> some call happens before any advance
    pub queued: bool,
    pub runs: u32,
    pub cost: u64,
    pub work: Option<Work>,
    pub restart: bool, // the arguments grew
    pub dirty: BTreeSet<usize>, // callees whose summary changed since the last run
}
/// explored state graph of a context, kept between runs
pub struct Work {
    pub tab: Vec<HashMap<u64, usize>>,
    pub states: Vec<(usize, State)>,
    pub callers: HashMap<usize, BTreeSet<usize>>, // callee context -> states that call it
}

#[derive(Clone, Debug)]
pub struct Pend {
    pub prop: &'static str,
    pub key: String,
    pub msg: String,
    pub site: String,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: String,
    pub key: String,
    pub msg: String,
    pub site: String,
}

#[derive(Default)]
pub struct Stats {
    pub contexts: usize,
    pub runs: u64,
    pub steps: u64,
    pub states: u64,
    pub claims: BTreeSet<String>,
    pub advances: BTreeSet<String>,
    pub links: BTreeSet<String>,
    pub drops: BTreeSet<String>,
    pub calls: BTreeSet<String>,
    pub cmps: BTreeSet<String>,
    pub errs: BTreeSet<String>,
    pub errcalls: BTreeSet<String>,
    pub okrets: BTreeSet<String>,
    pub loops: BTreeSet<String>,
    pub panics: BTreeSet<String>,
    pub fns: BTreeSet<String>,
    pub undecided: BTreeMap<String, String>,
}

/// Spec of lexical predicates on known literals and on lexical categories.
pub trait Spec {
    fn pred(&self, name: &str, lit: &str) -> Option<bool>;
}

pub struct Interp<'a> {
    pub ir: &'a Ir,
    pub ctxs: Vec<Ctx>,
    pub by_key: HashMap<Key, usize>,
    pub wl: Vec<usize>,
    pub pends: Vec<Pend>,
    pub pend_ix: HashMap<String, u32>,
    pub viols: BTreeMap<String, Viol>,
    pub stats: Stats,
    pub record: bool,
    pub cur_ctx: usize,
    pub cur_fn: usize,
    pub cur_sid: usize,
    pub sid_calls: Vec<(usize, usize)>,
    pub cur_site: Rc<str>,
    pub semi: u32,
    pub part_keys: Vec<u32>, // child keys whose presence keeps states apart
    pub nt_names: Vec<String>,
    pub nt_def: String,
    pub node_f: (u32, u32, u32),       // token, node_type, children
    pub tok_f: (u32, u32, u32),        // line, column, literal
    pub par_f: (u32, u32, u32, u32),   // position, leading, trailing, tokens
    pub required_restore: u8,
    pub shared: Vec<bool>,
    pub probe: bool,
    pub prims: HashSet<usize>, // the cursor primitives and what they call
    pub reads_comments: HashSet<usize>, // functions that (transitively) read both comment lists
    pub ts: Option<Rc<crate::ts::Ts>>,
    pub spec: Rc<dyn Spec>,
    pub keys_pushed: BTreeMap<String, BTreeSet<String>>,
    pub on_call: Vec<CallRec>,
    pub call_filter: Option<String>,
    pub callee: String,
    pub debug: bool,
    pub keep_len: bool,
    pub prof: BTreeMap<String, (u64, f64, u64)>,
    pub gave_up: Option<String>,
    pub rec_at: usize,
    pub t0: std::time::Instant,
    pub ticks: u64,
    pub max_s: u64,
    pub max_mem: usize,
}
#[derive(Clone, Debug)]
pub struct CallRec {
    pub caller: String,
    pub callee: String,
    pub args: Vec<V>,
    pub facts: Vec<TF>,
    pub fuzzy: bool,
    pub site: String,
}

fn seg(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}

pub enum Loc {
    T(Target),
    Val(V),
}

/// the text an operand stands for, through copies and references
fn str_of(f: &Func, o: &Op) -> Option<String> {
    let mut o = o.clone();
    for _ in 0..6 {
        let l = match &o {
            Op::Const { c: Const::Str(s), .. } => return Some(s.clone()),
            Op::Copy(p) | Op::Move(p) => p.l,
            _ => return None,
        };
        let mut nx = None;
        for b in &f.blocks {
            for s in &b.s {
                if let Stmt::Assign(d, r, _) = s {
                    if d.l == l && d.p.is_empty() {
                        nx = match r {
                            Rv::Use(x) => Some(x.clone()),
                            Rv::Ref { pl, .. } => Some(Op::Copy(pl.clone())),
                            _ => None,
                        };
                    }
                }
            }
        }
        o = nx?;
    }
    None
}

impl<'a> Interp<'a> {
    pub fn new(ir: &'a Ir, spec: Rc<dyn Spec>) -> Interp<'a> {
        let fields = |name: &str| -> Vec<String> {
            ir.items.iter().find(|i| i.kind == "Struct" && seg(&i.name) == name).map(|i| i.fields.iter().map(|f| f.n.clone()).collect()).unwrap_or_default()
        };
        let ix = |v: &Vec<String>, n: &str| v.iter().position(|x| x == n).map(|x| x as u32).unwrap_or(99);
        let n = fields("Node");
        let t = fields("Token");
        let nt = ir.items.iter().find(|i| i.kind == "Enum" && seg(&i.name) == "NodeType");
        let mut it = Interp {
            ir,
            ctxs: vec![],
            by_key: HashMap::default(),
            wl: vec![],
            pends: vec![],
            pend_ix: HashMap::default(),
            viols: BTreeMap::new(),
            stats: Stats::default(),
            record: false,
            cur_ctx: 0,
            cur_fn: 0,
            cur_sid: 0,
            sid_calls: vec![],
            cur_site: "".into(),
            semi: intern("semicolon"),
            part_keys: vec![intern("semicolon")],
            nt_names: nt.map(|i| i.vars.clone()).unwrap_or_default(),
            nt_def: nt.map(|i| i.name.clone()).unwrap_or_default(),
            node_f: (ix(&n, "token"), ix(&n, "node_type"), ix(&n, "children")),
            tok_f: (ix(&t, "line"), ix(&t, "column"), ix(&t, "literal")),
            par_f: {
                let f = |i: usize| ir.parser_fields()[i].map(|x| x as u32).unwrap_or(99);
                (f(0), f(1), f(2), f(3))
            },
            required_restore: 0,
            shared: vec![],
            probe: false,
            prims: HashSet::default(),
            reads_comments: HashSet::default(),
            ts: None,
            spec,
            keys_pushed: BTreeMap::new(),
            on_call: vec![],
            call_filter: None,
            callee: String::new(),
            keep_len: false,
            debug: std::env::var("BQSA_DEBUG").is_ok(),
            prof: BTreeMap::new(), gave_up: None, rec_at: 10000, t0: std::time::Instant::now(), ticks: 0, max_s: 500, max_mem: 12 << 30,
        };
        it.scan_parser_fields();
        it.scan_queried_keys();
        it
    }

    /// child keys the program itself asks for: their presence decides paths
    fn scan_queried_keys(&mut self) {
        let mut keys = vec![];
        let strs = |f: &Func| -> Vec<String> {
            let mut v = vec![];
            let mut op = |o: &Op| {
                if let Op::Const { c: Const::Str(s), .. } = o {
                    v.push(s.clone());
                }
            };
            for b in &f.blocks {
                for s in &b.s {
                    if let Stmt::Assign(_, r, _) = s {
                        match r {
                            Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Un(_, o) => op(o),
                            Rv::Bin(_, a, b) => {
                                op(a);
                                op(b)
                            }
                            Rv::Agg(_, os) => os.iter().for_each(&mut op),
                            _ => {}
                        }
                    }
                }
                if let Term::Call { a, .. } = &b.t {
                    a.iter().for_each(&mut op);
                }
            }
            v
        };
        for f in &self.ir.fns {
            if f.derived || f.name.starts_with("cst::") {
                continue;
            }
            let asks = f.blocks.iter().any(|b| match &b.t {
                Term::Call { f: Op::Const { c: Const::Fn(r), .. }, .. } => r.norm.ends_with("HashMap::keys") || r.norm.ends_with("HashMap::iter"),
                _ => false,
            });
            if asks {
                for g in &self.ir.fns {
                    if g.name.starts_with(&format!("{}::{{closure", f.name)) {
                        keys.extend(strs(g));
                    }
                }
            }
            if asks {
                // a loop over the keys: the texts they are compared with
                for b in &f.blocks {
                    if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, a, .. } = &b.t {
                        if r.norm.ends_with("PartialEq::eq") || r.norm.ends_with("PartialEq::ne") {
                            keys.extend(a.iter().filter_map(|o| str_of(f, o)));
                        }
                    }
                }
            }
            for b in &f.blocks {
                if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, a, .. } = &b.t {
                    if r.norm.ends_with("HashMap::contains_key") {
                        keys.extend(a.iter().filter_map(|o| str_of(f, o)));
                    }
                }
            }
        }
        keys.sort();
        keys.dedup();
        for k in keys.into_iter().take(4) {
            let k = intern(&k);
            if !self.part_keys.contains(&k) {
                self.part_keys.push(k);
            }
        }
    }
    /// which Parser fields change while parsing, and which functions read both comment lists
    fn scan_parser_fields(&mut self) {
        let mut written = 0u8;
        let mut reads: HashMap<usize, u8> = HashMap::default();
        let mut calls: HashMap<usize, Vec<usize>> = HashMap::default();
        for (fi, f) in self.ir.fns.iter().enumerate() {
            if f.derived {
                continue;
            }
            let is_parser_ty = |t: usize| -> bool {
                let ty = &self.ir.tys[t];
                let mut s = ty.s.as_str();
                s = s.trim_start_matches('&').trim_start_matches("mut ");
                seg(s) == "Parser"
            };
            let pf = |p: &Place| -> Option<u32> {
                if !is_parser_ty(f.locals[p.l as usize].t) {
                    return None;
                }
                for e in &p.p {
                    if let Pe::Field(i, _, _) = e {
                        return Some(*i);
                    }
                }
                None
            };
            let clones = f.blocks.iter().any(|b| match &b.t {
                Term::Call { f: Op::Const { c: Const::Fn(r), .. }, .. } => r.norm.ends_with("Clone::clone") && r.res.as_deref().map(|x| x.contains("Parser")).unwrap_or(false),
                _ => false,
            });
            let is_new = !f.locals.iter().skip(1).take(f.argc).any(|l| is_parser_ty(l.t));
            for b in &f.blocks {
                for s in &b.s {
                    if let Stmt::Assign(p, r, _) = s {
                        if let Some(i) = pf(p) {
                            if !clones && !is_new {
                                written |= 1 << i;
                            }
                        }
                        match r {
                            Rv::Ref { mutbl, pl, .. } => {
                                if let Some(i) = pf(pl) {
                                    if *mutbl && !clones && !is_new {
                                        written |= 1 << i;
                                    }
                                    if !*mutbl {
                                        *reads.entry(fi).or_default() |= 1 << i;
                                    }
                                }
                            }
                            Rv::Use(Op::Copy(p)) | Rv::Use(Op::Move(p)) => {
                                if let Some(i) = pf(p) {
                                    *reads.entry(fi).or_default() |= 1 << i;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, .. } = &b.t {
                    if r.local {
                        if let Some(t) = self.lookup(r) {
                            calls.entry(fi).or_default().push(t);
                        }
                    }
                }
            }
        }
        self.required_restore = written;
        let mut todo: Vec<usize> = ["construct_node", "next_token", "new", "get_token", "get_offset_index", "is_eof"].iter().filter_map(|n| self.ir.by_name.get(&format!("parser::Parser::{}", n)).cloned()).collect();
        while let Some(f) = todo.pop() {
            if self.prims.insert(f) {
                todo.extend(calls.get(&f).cloned().unwrap_or_default());
            }
        }
        let need = (1u8 << (self.par_f.1 & 7)) | (1u8 << (self.par_f.2 & 7));
        loop {
            let mut ch = false;
            for fi in 0..self.ir.fns.len() {
                let mut m = *reads.get(&fi).unwrap_or(&0);
                for c in calls.get(&fi).cloned().unwrap_or_default() {
                    // reads through helpers that take no mutable parser
                    let n = &self.ir.fns[c];
                    if self.takes_mut_parser(n) {
                        continue;
                    }
                    m |= *reads.get(&c).unwrap_or(&0);
                }
                if m != *reads.get(&fi).unwrap_or(&0) {
                    reads.insert(fi, m);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for (f, m) in reads {
            if m & need == need && !self.takes_mut_parser(&self.ir.fns[f]) {
                self.reads_comments.insert(f);
            }
        }
    }
    pub fn takes_mut_parser(&self, f: &Func) -> bool {
        if let Some(b) = f.mut_parser.get() {
            return b;
        }
        let b = self.takes_mut_parser0(f);
        f.mut_parser.set(Some(b));
        b
    }
    fn takes_mut_parser0(&self, f: &Func) -> bool {
        (1..=f.argc).any(|i| {
            let t = &self.ir.tys[f.locals[i].t];
            t.s.starts_with("&mut ") && (seg(&t.s) == "Parser" || seg(&t.s) == "Lexer") || t.s.contains("&mut parser::Parser")
        })
    }
    pub fn lookup(&self, r: &FnRef) -> Option<usize> {
        if let Some(i) = self.ir.by_id.get(&r.id) {
            return Some(*i);
        }
        if let Some(s) = &r.res {
            if let Some(i) = self.ir.by_name.get(s) {
                return Some(*i);
            }
        }
        self.ir.by_name.get(&r.path).cloned()
    }

    // ---------- reporting ----------
    pub fn pend(&mut self, st: &mut State, prop: &'static str, key: String, msg: String) {
        let fname = self.ir.fns[self.cur_fn].name.clone();
        let full = format!("{}|{}|{}", prop, fname, key);
        let id = match self.pend_ix.get(&full) {
            Some(i) => *i,
            None => {
                self.new_pend(Pend { prop, key: full, msg, site: self.cur_site.to_string() })
            }
        };
        st.ps.pend.insert(id);
    }
    /// even numbers: path-dependent findings
    pub fn new_pend(&mut self, p: Pend) -> u32 {
        let part = matches!(p.prop, "C01" | "C16" | "C17");
        let k = self.pends.len() as u32;
        let i = k * 2 + if part { 0 } else { 1 };
        self.pend_ix.insert(p.key.clone(), i);
        self.pends.push(p);
        i
    }
    pub fn viol(&mut self, prop: &str, key: &str, msg: &str) {
        if !self.record {
            return;
        }
        let fname = self.ir.fns[self.cur_fn].name.clone();
        let full = format!("{}|{}|{}", prop, fname, key);
        let site = self.cur_site.to_string();
        self.viols.entry(full.clone()).or_insert(Viol { prop: prop.to_string(), key: full, msg: msg.to_string(), site });
    }
    pub fn undecided(&mut self, why: &str) {
        if self.record {
            let k = format!("{} in {}", why, self.ir.fns[self.cur_fn].name);
            let s = self.cur_site.to_string();
            self.stats.undecided.entry(k).or_insert(s);
        }
    }

    // ---------- memory ----------
    fn base<'s>(&self, st: &'s State, b: Base) -> Option<&'s V> {
        match b {
            Base::Local(l) => st.loc.get(&l),
            Base::Cell(c) => st.cells.get(c as usize),
        }
    }
    fn base_mut<'s>(&self, st: &'s mut State, b: Base) -> &'s mut V {
        match b {
            Base::Local(l) => st.loc.entry(l).or_insert(V::Uninit),
            Base::Cell(c) => {
                while st.cells.len() <= c as usize {
                    st.cells.push(V::Top);
                }
                &mut st.cells[c as usize]
            }
        }
    }
    pub fn project(&self, v: &V, e: PathE) -> V {
        match (v, e) {
            (V::Enum(_, _, fs), PathE::F(i)) | (V::Agg(fs), PathE::F(i)) | (V::Closure(_, fs), PathE::F(i)) => fs.get(i as usize).cloned().unwrap_or(V::Top),
            (V::Agg(fs), PathE::Elem) => {
                let mut it = fs.iter();
                match it.next() {
                    None => V::Top,
                    Some(f) => it.fold(f.clone(), |a, b| join_v(&a, b)),
                }
            }
            (V::Tok(r), PathE::F(i)) => {
                if i == self.tok_f.2 {
                    V::Str(StrV::Tok(*r, false))
                } else if i == self.tok_f.0 {
                    V::TokLine(*r)
                } else if i == self.tok_f.1 {
                    V::TokCol(*r)
                } else {
                    V::Top
                }
            }
            (V::Node(n), PathE::F(i)) => {
                if i == self.node_f.1 {
                    V::NT(n.types())
                } else {
                    V::Top
                }
            }
            (V::Parser, PathE::F(i)) => {
                if i == self.par_f.0 {
                    V::TokIdx(TokR::Off(0))
                } else {
                    V::PField(i)
                }
            }
            (V::Snap(s), PathE::F(i)) => V::SnapF(i, s.clone()),
            (V::Opq, _) => V::Opq,
            (V::Moved, _) => V::Moved,
            (V::Uninit, _) => V::Uninit,
            _ => V::Top,
        }
    }
    pub fn read(&self, st: &State, t: &Target) -> V {
        let b = match self.base(st, t.base) {
            Some(v) => v,
            None => return V::Moved,
        };
        if t.path.is_empty() {
            return b.clone();
        }
        let mut v = self.project(b, t.path[0]);
        for e in &t.path[1..] {
            if let V::Ref(t2) = &v {
                // field of a reference held in an aggregate
                let inner = self.read(st, t2);
                v = self.project(&inner, *e);
                continue;
            }
            v = self.project(&v, *e);
        }
        v
    }
    pub fn write(&mut self, st: &mut State, t: &Target, val: V) {
        if !self.keep_len {
            for v in st.loc.values_mut() {
                if matches!(v, V::VLen(x) if x.base == t.base) {
                    *v = V::IntTop;
                }
            }
        }
        if t.path.is_empty() {
            let old_parser = matches!(self.base(st, t.base), Some(V::Parser));
            if old_parser {
                if let V::Snap(s) = &val {
                    let s = s.clone();
                    self.restore_all(st, &s);
                    return;
                }
                if let V::Agg(fs) = &val {
                    let fs = fs.clone();
                    if fs.iter().any(|v| matches!(v, V::SnapF(..))) {
                        for i in [self.par_f.0, self.par_f.1, self.par_f.2] {
                            self.parser_field_write(st, i, fs.get(i as usize).cloned().unwrap_or(V::Top));
                        }
                        return;
                    }
                }
                if matches!(t.base, Base::Cell(_)) && !matches!(val, V::Parser | V::Uninit) {
                    st.ps.own_off = true;
                    return;
                }
            }
            *self.base_mut(st, t.base) = val;
            return;
        }
        let mut b = std::mem::replace(self.base_mut(st, t.base), V::Moved);
        let path = t.path.clone();
        let tk = self.node_f;
        let mut parser_write: Option<(u32, V)> = None;
        let mut tok_write = false;
        let mut chl_write = false;
        fn go(b: &mut V, path: &[PathE], val: V, tk: (u32, u32, u32), pw: &mut Option<(u32, V)>, tw: &mut bool, cw: &mut bool) {
            if path.is_empty() {
                *b = val;
                return;
            }
            match b {
                V::Enum(_, _, fs) | V::Agg(fs) | V::Closure(_, fs) => match path[0] {
                    PathE::F(i) => {
                        while fs.len() <= i as usize {
                            fs.push(V::Top);
                        }
                        go(&mut fs[i as usize], &path[1..], val, tk, pw, tw, cw)
                    }
                    PathE::Elem => {
                        for f in fs.iter_mut() {
                            let j = join_v(f, &val);
                            *f = j;
                        }
                    }
                },
                V::Node(n) => {
                    if let PathE::F(i) = path[0] {
                        if i == tk.1 && path.len() == 1 {
                            let nv = Rc::make_mut(n);
                            let bits = match &val {
                                V::NT(b) => *b,
                                _ => Bits::all(),
                            };
                            if nv.any || bits == Bits::all() {
                                if bits != Bits::all() && nv.any {
                                    // type known again, children unknown
                                    nv.any = true;
                                }
                                nv.any = true;
                                nv.alts.clear();
                            } else {
                                let mut k: Option<Rc<Kids>> = None;
                                for x in nv.alts.values() {
                                    k = Some(match k {
                                        None => x.clone(),
                                        Some(y) => join_kids(&y, x),
                                    });
                                }
                                let k = k.unwrap_or_default();
                                nv.alts = bits.iter().into_iter().map(|t| (t, k.clone())).collect();
                            }
                        } else if i == tk.0 {
                            *tw = true;
                        } else if i == tk.2 {
                            *cw = true;
                            if path.len() == 1 {
                                let nv = Rc::make_mut(n);
                                for (_, k) in nv.alts.iter_mut() {
                                    *k = Rc::new(Kids::new());
                                }
                            }
                        }
                    }
                }
                V::Parser => {
                    if let PathE::F(i) = path[0] {
                        *pw = Some((i, if path.len() == 1 { val } else { V::Top }));
                    }
                }
                V::Snap(s) => {
                    // a saved copy of the parser that is altered afterwards
                    if let PathE::F(i) = path[0] {
                        let same = path.len() == 1 && matches!(&val, V::SnapF(j, t) if *j == i && t == s);
                        if !same && i < 8 && !matches!(val, V::Moved | V::Uninit) {
                            let mut fs: Vec<V> = (0..8).map(|j| V::SnapF(j, s.clone())).collect();
                            fs[i as usize] = if path.len() == 1 { val } else { V::Top };
                            *b = V::Agg(fs);
                        }
                    }
                }
                V::Uninit | V::Moved => {
                    // initialisation through a box or of a field of a not yet initialised aggregate
                    if let PathE::F(i) = path[0] {
                        let _ = i;
                        *b = val;
                    }
                }
                _ => {}
            }
        }
        // `(*box).value.value = array`: the box is transparent
        if matches!(b, V::Uninit) {
            b = val;
        } else {
            go(&mut b, &path, val, tk, &mut parser_write, &mut tok_write, &mut chl_write);
        }
        *self.base_mut(st, t.base) = b;
        if let Some((i, v)) = parser_write {
            self.parser_field_write(st, i, v);
        }
        if tok_write {
            st.ps.own_off = true;
            self.undecided("token of a node reassigned");
        }
        if chl_write {
            self.pend(st, "C01", "children-replaced".into(), "the children of a node are replaced as a whole".into());
        }
    }
    fn restore_all(&mut self, st: &mut State, s: &Rc<SnapV>) {
        if s.stale {
            st.ps.own_off = true;
            st.ps.facts = vec![TF::top(); NF];
            st.ps.garbage = false;
            st.ps.failed = false;
            self.undecided("rewind across a successful advance");
            self.shift_all(st, None);
            return;
        }
        st.ps.garbage = false;
        st.ps.failed = false;
        st.ps.restored = 0;
        st.ps.facts = s.facts.clone();
    }
    pub fn parser_field_write(&mut self, st: &mut State, i: u32, v: V) {
        let (ok, stale, snap) = match &v {
            V::SnapF(j, s) if *j == i => (true, s.stale, Some(s.clone())),
            V::TokIdx(TokR::Off(0)) if i == self.par_f.0 => (true, false, None),
            V::PField(j) if *j == i => (true, false, None),
            _ => (false, false, None),
        };
        if ok && stale {
            if let Some(s) = snap {
                self.restore_all(st, &s);
            }
            return;
        }
        if ok {
            if st.ps.garbage {
                st.ps.restored |= 1 << i;
                if st.ps.restored & self.required_restore == self.required_restore {
                    st.ps.garbage = false;
                    st.ps.failed = false;
                    st.ps.restored = 0;
                    if let Some(s) = snap {
                        st.ps.facts = s.facts.clone();
                    }
                }
            }
            return;
        }
        if i == self.par_f.3 {
            return;
        }
        // the cursor or the comment bookkeeping is changed outside the cursor primitive
        self.pend(
            st,
            "C16",
            format!("raw-cursor-write-{}", i),
            "cursor or pending-comment bookkeeping is overwritten with something that is not a value saved from the same state".into(),
        );
        st.ps.own_off = true;
    }
    pub fn resolve(&self, st: &State, p: &Place) -> Loc {
        let mut cur = Loc::T(Target { base: Base::Local(p.l), path: vec![] });
        for e in &p.p {
            cur = match (cur, e) {
                (Loc::T(t), Pe::Deref) => match self.read(st, &t) {
                    V::Ref(t2) => Loc::T(t2),
                    V::Node(_) | V::NVec(_) | V::Agg(_) | V::Enum(..) | V::Uninit | V::Parser | V::Snap(_) | V::Closure(..) | V::NIter(_) => Loc::T(t),
                    v => Loc::Val(v),
                },
                (Loc::Val(V::Ref(t2)), Pe::Deref) => Loc::T(t2),
                (Loc::Val(v), Pe::Deref) => Loc::Val(v),
                (Loc::T(mut t), Pe::Field(i, _, _)) => {
                    // reading through a value-like thing
                    let v = self.read(st, &t);
                    match v {
                        V::Tok(_) | V::SnapF(..) | V::Top | V::Opq => Loc::Val(self.project(&v, PathE::F(*i))),
                        V::Ref(t2) => {
                            t = t2;
                            t.path.push(PathE::F(*i));
                            Loc::T(t)
                        }
                        _ => {
                            t.path.push(PathE::F(*i));
                            Loc::T(t)
                        }
                    }
                }
                (Loc::Val(v), Pe::Field(i, _, _)) => match v {
                    V::Ref(mut t2) => {
                        t2.path.push(PathE::F(*i));
                        Loc::T(t2)
                    }
                    v => Loc::Val(self.project(&v, PathE::F(*i))),
                },
                (c, Pe::Var(_)) => c,
                (Loc::T(mut t), Pe::Index(_)) | (Loc::T(mut t), Pe::CIdx(..)) => {
                    t.path.push(PathE::Elem);
                    Loc::T(t)
                }
                (Loc::Val(v), Pe::Index(_)) | (Loc::Val(v), Pe::CIdx(..)) => Loc::Val(self.project(&v, PathE::Elem)),
                (_, Pe::Other) => Loc::Val(V::Top),
            };
        }
        cur
    }
    fn take(&mut self, st: &mut State, p: &Place) -> V {
        match self.resolve(st, p) {
            Loc::T(t) => {
                let v = self.read(st, &t);
                if t.path.is_empty() {
                    if let Base::Local(l) = t.base {
                        st.loc.remove(&l);
                    }
                } else if v.has_nodes() {
                    // partial move
                    self.set_moved(st, &t);
                }
                v
            }
            Loc::Val(v) => v,
        }
    }
    pub fn set_moved(&mut self, st: &mut State, t: &Target) {
        let mut b = std::mem::replace(self.base_mut(st, t.base), V::Moved);
        fn go(b: &mut V, path: &[PathE]) {
            if path.is_empty() {
                *b = V::Moved;
                return;
            }
            match (b, path[0]) {
                (V::Enum(_, _, fs), PathE::F(i)) | (V::Agg(fs), PathE::F(i)) | (V::Closure(_, fs), PathE::F(i)) => {
                    if let Some(f) = fs.get_mut(i as usize) {
                        go(f, &path[1..])
                    }
                }
                (V::Agg(fs), PathE::Elem) => {
                    for f in fs {
                        *f = V::Moved
                    }
                }
                _ => {}
            }
        }
        go(&mut b, &t.path);
        *self.base_mut(st, t.base) = b;
    }
    pub fn eval(&mut self, st: &mut State, o: &Op) -> V {
        match o {
            Op::Copy(p) => match self.resolve(st, p) {
                Loc::T(t) => self.read(st, &t),
                Loc::Val(v) => v,
            },
            Op::Move(p) => self.take(st, p),
            Op::Const { c, ty, .. } => match c {
                Const::Str(s) => V::Str(StrV::Const(intern(s))),
                Const::Int(i) => {
                    let ty = &self.ir.tys[*ty];
                    if ty.s == "bool" {
                        V::Bool(*i != 0)
                    } else {
                        V::Int(*i as i128)
                    }
                }
                Const::Bool(b) => V::Bool(*b),
                Const::Char(c) => V::Int(*c as i128),
                Const::Variant(v) => {
                    let t = &self.ir.tys[*ty];
                    if seg(&t.s) == "NodeType" {
                        V::NT(Bits::one(*v as u8))
                    } else {
                        V::Enum(intern(seg(&t.def)), *v, vec![])
                    }
                }
                Const::Fn(f) => match self.lookup(f) {
                    Some(_) if f.local => V::Fn(f.id),
                    _ => V::FnStd(intern(&f.norm)),
                },
                _ => V::Top,
            },
            Op::Rt => V::Top,
        }
    }

    // ---------- ownership ----------
    fn each_val<F: FnMut(&V)>(&self, st: &State, mut f: F) {
        for v in st.loc.values() {
            f(v)
        }
        for v in &st.cells {
            f(v)
        }
    }
    pub fn map_all_own<F: FnMut(&Own) -> Own>(&self, st: &mut State, mut f: F) {
        for v in st.loc.values_mut() {
            v.map_own(&mut f)
        }
        for v in st.cells.iter_mut() {
            v.map_own(&mut f)
        }
    }
    pub fn count_cur(&self, st: &State) -> u32 {
        let mut n = 0;
        self.each_val(st, |v| {
            v.for_own(&mut |o| {
                if o.cur {
                    n += 1
                }
            })
        });
        n
    }
    pub fn holders(&self, st: &State, bit: u8) -> u32 {
        let mut n = 0;
        self.each_val(st, |v| {
            v.for_own(&mut |o| {
                if o.cont & bit != 0 {
                    n += 1
                }
            })
        });
        n
    }
    fn used_bits(&self, st: &State) -> u8 {
        let mut n = 0;
        self.each_val(st, |v| v.for_own(&mut |o| n |= o.cont));
        n
    }
    pub fn alloc_bit(&self, st: &State, avoid: u8) -> Option<u8> {
        let u = self.used_bits(st) | avoid;
        (1..4).map(|i| 1u8 << i).find(|b| u & b == 0)
    }
    /// settle contested claims with a single remaining holder
    pub fn settle(&mut self, st: &mut State) {
        let u = self.used_bits(st);
        if u & 0b1110 == 0 {
            return;
        }
        for i in 1..4 {
            let b = 1u8 << i;
            if u & b != 0 && self.holders(st, b) == 1 {
                self.map_all_own(st, |o| {
                    let mut o = *o;
                    if o.cont & b != 0 {
                        o.cont &= !b;
                        o.settled = true;
                    }
                    o
                });
            }
        }
    }
    pub fn shift_all(&self, st: &mut State, n: Option<u8>) {
        for v in st.loc.values_mut() {
            v.shift_tok(n)
        }
        for v in st.cells.iter_mut() {
            v.shift_tok(n)
        }
    }
    pub fn drop_val(&mut self, st: &mut State, v: V) {
        if !v.has_nodes() {
            return;
        }
        if self.record {
            let s = self.cur_site.to_string();
            self.stats.drops.insert(s);
        }
        let o = v.total_own();
        drop(v);
        if st.ps.own_off {
            return;
        }
        if o.settled {
            self.pend(st, "C01", "dropped-node".into(), "a node that already represents consumed tokens is discarded".into());
        }
        for i in 1..8 {
            let b = 1u8 << i;
            if o.cont & b != 0 && self.holders(st, b) == 0 && i < 4 {
                self.pend(st, "C01", "dropped-contested".into(), "the last node claiming a consumed token is discarded".into());
            }
        }
        self.settle(st);
    }
    pub fn claim_advance(&mut self, st: &mut State) {
        if !st.ps.own_off {
            let k = self.count_cur(st);
            let ext = if st.ps.advanced { 0 } else { st.ps.ext as u32 };
            let tot = k + ext;
            if tot == 0 {
                let facts = st.ps.facts[0].show();
                let site = self.cur_site.to_string();
                let _ = site;
                self.pend(st, "C01", format!("skipped-token({})", short(&facts)), format!("the cursor moves past a token ({}) that no node represents", facts));
            } else if tot == 1 {
                if k == 1 {
                    self.map_all_own(st, |o| {
                        let mut o = *o;
                        if o.cur {
                            o.cur = false;
                            o.settled = true;
                        }
                        o
                    });
                }
            } else if k > 0 {
                let bit = if ext > 0 {
                    st.ps.ext_cont = true;
                    Some(1u8)
                } else {
                    self.alloc_bit(st, 0)
                };
                match bit {
                    Some(b) => self.map_all_own(st, |o| {
                        let mut o = *o;
                        if o.cur {
                            o.cur = false;
                            o.cont |= b;
                        }
                        o
                    }),
                    None => {
                        st.ps.own_off = true;
                        self.undecided("too many contested tokens");
                    }
                }
            }
        }
        self.map_all_own(st, |o| {
            let mut o = *o;
            o.cur = false;
            o
        });
        st.ps.advanced = true;
    }
    pub fn use_cursor(&mut self, st: &mut State) {
        if st.ps.garbage {
            self.pend(
                st,
                "C16",
                "cursor-used-after-failure".into(),
                "parsing goes on after a failed attempt without restoring position and pending comments".into(),
            );
        }
    }

    // ---------- linking ----------
    pub fn link(&mut self, st: &mut State, parent: &Target, key: V, content: V) {
        if self.record {
            let s = self.cur_site.to_string();
            self.stats.links.insert(s);
        }
        let (kid_node, kid_vec, child) = match &content {
            V::Enum(_, _, fs) if fs.len() == 1 => match &fs[0] {
                V::Node(n) => (true, false, Some((**n).clone())),
                V::NVec(v) => (false, true, v.elem.clone()),
                V::Agg(fs) if fs.is_empty() => (false, true, None),
                _ => {
                    st.ps.own_off = true;
                    self.undecided("unknown value linked into a node");
                    (false, false, None)
                }
            },
            _ => {
                st.ps.own_off = true;
                self.undecided("unknown value linked into a node");
                (false, false, None)
            }
        };
        let k = match key {
            V::Str(StrV::Const(k)) => Some(k),
            _ => None,
        };
        let kname = k.map(istr).unwrap_or_else(|| "?".into());
        if let Some(c) = &child {
            self.check_child(st, &kname, kid_vec, c);
        }
        let pv = self.read(st, parent);
        let mut n = match pv {
            V::Node(n) => (*n).clone(),
            _ => {
                if child.as_ref().map(|c| !c.own.none()).unwrap_or(false) {
                    st.ps.own_off = true;
                    self.undecided("link into an untracked node");
                }
                return;
            }
        };
        if let Some(k) = k {
            let kt = match &child {
                Some(c) => c.types(),
                None => Bits::none(),
            };
            if !n.any {
                let cls = n.key_class(k);
                if cls > 0 {
                    if self.debug && self.record {
                        eprintln!("OVERWRITE {} in {} ctx {} facts {} own_off {} garbage {}: {}", kname, self.ir.fns[self.cur_fn].name, self.cur_ctx, st.ps.facts[0].show(), st.ps.own_off, st.ps.garbage, n.alts.iter().filter(|(_, ks)| ks.contains_key(&k)).map(|(t, ks)| format!("{}{:?}", self.nt_names[*t as usize], ks.iter().map(|(k, v)| format!("{}{}", istr(*k), if v.must { "!" } else { "?" })).collect::<Vec<_>>())).collect::<Vec<_>>().join("/"));
                    }
                    let p = if kname.ends_with("_comments") { "C02" } else { "C01" };
                    self.pend(st, p, format!("overwritten-child({})", kname), format!("child {:?} is stored in a {} node that may already have one: the earlier child is lost", kname, n.alts.iter().filter(|(_, ks)| ks.contains_key(&k)).map(|(t, _)| self.nt_names[*t as usize].clone()).collect::<Vec<_>>().join("/")));
                }
                for (_, ks) in n.alts.iter_mut() {
                    let m = Rc::make_mut(ks);
                    m.insert(k, Kid { must: true, node: kid_node, vec: kid_vec, types: kt });
                }
            }
        } else {
            n.any = true;
            n.alts.clear();
            self.undecided("child stored under a computed key");
        }
        if let Some(c) = &child {
            if !st.ps.own_off {
                if n.own.cur && c.own.cur || n.own.cont & c.own.cont != 0 {
                    self.pend(st, "C01", format!("duplicated-token({})", kname), format!("the node and its child {:?} both represent the same token", kname));
                }
            }
            let bare = n.own.bare;
            n.own = n.own.union(&c.own);
            n.own.bare = bare;
            if c.own.bare {
                self.pend(st, "C02", format!("bare-node({})", kname), format!("child {:?} carries a token but was built without the comments of that token", kname));
            }
        }
        self.write(st, parent, V::Node(Rc::new(n)));
        self.settle(st);
    }
    pub fn check_child(&mut self, st: &mut State, key: &str, is_vec: bool, c: &NodeV) {
        if !is_vec && c.key_class(self.semi) > 0 && !c.any {
            self.pend(st, "C14", format!("nested-semicolon({})", key), format!("the statement stored as {:?} may have taken the terminating semicolon of its parent", key));
        }
        if self.record {
            for (t, kids) in &c.alts {
                let tn = self.nt_names[*t as usize].clone();
                let e = self.keys_pushed.entry(tn).or_default();
                for (k, kd) in kids.iter() {
                    e.insert(format!("{}{}{}", istr(*k), if kd.node { ":n" } else { "" }, if kd.vec { ":v" } else { "" }));
                }
            }
        }
        self.check_ts(st, c);
    }
    pub fn check_ts(&mut self, st: &mut State, c: &NodeV) {
        let ts = match &self.ts {
            Some(t) => t.clone(),
            None => return,
        };
        for (t, kids) in &c.alts {
            let tn = self.nt_names[*t as usize].clone();
            let decl = match ts.types.get(&tn) {
                Some(d) => d,
                None => {
                    self.pend(st, "C06", format!("type({})", tn), format!("node type {} is not part of the published node union", tn));
                    continue;
                }
            };
            for (k, kd) in kids.iter() {
                let kn = istr(*k);
                if kn == "leading_comments" || kn == "trailing_comments" {
                    // where comments go is decided by C02
                    continue;
                }
                let deco = DECORATION.contains(&kn.as_str());
                match decl.keys.get(&kn).filter(|d| !(deco && d.never)) {
                    None if deco => {
                        // added to whatever node an expression, a table or a statement turned out to be
                        let any = |f: fn(&crate::ts::KeyDecl) -> bool| ts.types.values().any(|d| d.keys.get(&kn).map_or(false, f));
                        if kd.vec && !any(|d| d.vec) || kd.node && !any(|d| d.node) {
                            self.pend(st, "C06", format!("form({}.{})", tn, kn), format!("child {:?} of {} is stored as {}, in which form no declaration has it", kn, tn, if kd.vec { "a node list" } else { "a single node" }));
                        }
                    }
                    None => self.pend(st, "C06", format!("key({}.{})", tn, kn), format!("child {:?} is stored in a {} node but not declared for it", kn, tn)),
                    Some(d) => {
                        if d.never || kd.node && !d.node || kd.vec && !d.vec {
                            self.pend(
                                st,
                                "C06",
                                format!("form({}.{})", tn, kn),
                                format!("child {:?} of {} is stored as {} but declared as {}", kn, tn, if kd.vec && !d.vec { "a node list" } else { "a single node" }, if d.never { "absent" } else if d.vec { "a node list" } else { "a single node" }),
                            );
                        }
                        if let Some(adm) = d.types.as_ref().filter(|_| !deco && !d.never) {
                            if kd.types != Bits::all() {
                                for ct in kd.types.iter() {
                                    let cn = &self.nt_names[ct as usize].clone();
                                    if !adm.contains(cn) {
                                        self.pend(
                                            st,
                                            "C06",
                                            format!("child({}.{}={})", tn, kn, cn),
                                            format!("child {:?} of {} may be a {} node, which the declaration does not admit", kn, tn, cn),
                                        );
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

/// children that are added from outside to a node of any type: for them only the form is claimed
pub const DECORATION: &[&str] = &[
    "leading_label", "colon", "trailing_label", "row_value_alias", "as", "alias", "comma", "order", "null_order", "for_system_time_as_of", "tablesample", "pivot", "unpivot", "match_recognize", "with_offset",
];
pub fn short(s: &str) -> String {
    if s.len() <= 80 {
        return s.to_string();
    }
    let mut e = 77;
    while !s.is_char_boundary(e) {
        e -= 1
    }
    format!("{}...", &s[..e])
}

pub fn hash_state(st: &State, semi: &[u32]) -> u64 {
    let mut h = DefaultHasher::new();
    for (k, v) in &st.loc {
        k.hash(&mut h);
        v.shape(&mut h, semi);
    }
    for v in &st.cells {
        v.shape(&mut h, semi);
    }
    st.ps.shape(&mut h);
    h.finish()
}

pub fn join_state(a: &mut State, b: &State) -> bool {
    let mut ch = false;
    for (k, v) in &b.loc {
        match a.loc.get_mut(k) {
            Some(x) => {
                if x != v {
                    let j = join_v(x, v);
                    if &j != x {
                        *x = j;
                        ch = true;
                    }
                }
            }
            None => {
                a.loc.insert(*k, v.clone());
                ch = true;
            }
        }
    }
    for (x, v) in a.cells.iter_mut().zip(&b.cells) {
        if x != v {
            let j = join_v(x, v);
            if &j != x {
                *x = j;
                ch = true;
            }
        }
    }
    if !b.ps.pend.is_subset(&a.ps.pend) {
        a.ps.pend.extend(b.ps.pend.iter().cloned());
        ch = true;
    }
    for (x, v) in a.ps.facts.iter_mut().zip(&b.ps.facts) {
        if x != v {
            let j = x.join(v);
            if &j != x {
                *x = j;
                ch = true;
            }
        }
    }
    ch
}
