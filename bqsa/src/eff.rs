//! C10: effects of everything reachable from the exported functions, and where the order of a hash
//! collection can reach a result.
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Default)]
pub struct EffOut {
    pub finds: BTreeMap<String, (String, String)>,
    pub undecided: BTreeMap<String, String>,
    pub fns: usize,
    pub calls: usize,
    pub statics: usize,
    pub ext: BTreeSet<String>,
    pub hash_iters: usize,
    pub missing: Vec<String>,
}

fn last(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}
pub fn ops_of<'b>(b: &'b Block) -> Vec<(&'b Op, &'b str)> {
    let mut v = vec![];
    for s in &b.s {
        if let Stmt::Assign(_, r, sp) = s {
            match r {
                Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Un(_, o) | Rv::Repeat(o, _) => v.push((o, &**sp)),
                Rv::Bin(_, a, b) => {
                    v.push((a, &**sp));
                    v.push((b, &**sp));
                }
                Rv::Agg(_, os) => v.extend(os.iter().map(|o| (o, &**sp))),
                _ => {}
            }
        }
    }
    match &b.t {
        Term::Call { f, a, .. } => {
            v.push((f, &*b.sp));
            v.extend(a.iter().map(|o| (o, &*b.sp)));
        }
        Term::Switch { o, .. } => v.push((o, &*b.sp)),
        Term::Assert { c, ops, .. } => {
            v.push((c, &*b.sp));
            v.extend(ops.iter().map(|o| (o, &*b.sp)));
        }
        _ => {}
    }
    v
}

fn contains_def(ir: &Ir, t: usize, pred: &dyn Fn(&Ty) -> bool, seen: &mut HashSet<usize>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    let ty = &ir.tys[t];
    if pred(ty) {
        return true;
    }
    if ty.args.clone().into_iter().any(|a| contains_def(ir, a, pred, seen)) {
        return true;
    }
    if ty.k == "adt" && ty.local {
        if let Some(i) = ir.items.iter().find(|i| i.name == ty.def) {
            let fs: Vec<usize> = i.fields.iter().map(|f| f.t).collect();
            if fs.into_iter().any(|f| contains_def(ir, f, pred, seen)) {
                return true;
            }
        }
    }
    false
}
fn is_hash(t: &Ty) -> bool {
    t.k == "adt" && matches!(last(&t.def), "HashMap" | "HashSet")
}
fn local_defs(ir: &Ir, t: usize, out: &mut BTreeSet<String>, seen: &mut HashSet<usize>) {
    if !seen.insert(t) {
        return;
    }
    let ty = ir.tys[t].clone();
    for a in &ty.args {
        local_defs(ir, *a, out, seen);
    }
    if ty.k == "adt" && ty.local && out.insert(ty.def.clone()) {
        if let Some(i) = ir.items.iter().find(|i| i.name == ty.def) {
            for f in i.fields.clone() {
                local_defs(ir, f.t, out, seen);
            }
        }
        // the payloads of the variants of an enum are not in the dump: its siblings are taken in
        if ty.is_enum {
            for i in &ir.items {
                if i.kind == "Struct" && i.name.rsplit_once("::").map(|x| x.0) == ty.def.rsplit_once("::").map(|x| x.0) {
                    out.insert(i.name.clone());
                }
            }
        }
    }
}

/// functions that may run during a call of one of the roots
pub fn reach(ir: &Ir, roots: &[usize]) -> BTreeSet<usize> {
    let mut impls: HashMap<String, Vec<usize>> = HashMap::new();
    for (i, f) in ir.fns.iter().enumerate() {
        if f.tr.is_some() {
            for it in &ir.items {
                if matches!(it.kind.as_str(), "Struct" | "Enum") && (f.name.contains(&format!("for {}>", it.name)) || f.name.starts_with(&format!("<{} as ", it.name))) {
                    impls.entry(it.name.clone()).or_default().push(i);
                }
            }
        }
    }
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = roots.to_vec();
    let mut tys: HashSet<usize> = HashSet::new();
    while let Some(f) = todo.pop() {
        if !seen.insert(f) {
            continue;
        }
        let fun = &ir.fns[f];
        let mut defs = BTreeSet::new();
        for l in &fun.locals {
            // values of local types are dropped, compared, printed and serialized somewhere
            if tys.insert(l.t) {
                local_defs(ir, l.t, &mut defs, &mut HashSet::new());
            }
        }
        for d in defs {
            for i in impls.get(&d).into_iter().flatten() {
                if !ir.fns[*i].name.contains("serde::Deserialize") && !ir.fns[*i].name.contains("de::Visitor") {
                    todo.push(*i);
                }
            }
        }
        for b in &fun.blocks {
            for s in &b.s {
                if let Stmt::Assign(_, Rv::Agg(Agg::Closure(d), _), _) = s {
                    if let Some(i) = ir.by_name.get(d) {
                        todo.push(*i);
                    }
                }
            }
            for (o, _) in ops_of(b) {
                if let Op::Const { c: Const::Fn(r), .. } = o {
                    if let Some(i) = local_fn(ir, r) {
                        todo.push(i);
                    }
                    // a closure handed over by type
                    for t in &r.targs {
                        let s = &ir.tys[*t];
                        if s.k == "closure" {
                            if let Some(i) = ir.by_name.get(&s.def) {
                                todo.push(*i);
                            }
                        }
                    }
                }
            }
        }
    }
    seen
}
fn local_fn(ir: &Ir, r: &FnRef) -> Option<usize> {
    if !r.local {
        return None;
    }
    ir.by_id.get(&r.id).or_else(|| r.res.as_ref().and_then(|n| ir.by_name.get(n))).cloned()
}

const BAD: &[(&str, &str)] = &[
    ("std::env::", "reads the environment"),
    ("std::time::", "reads the clock"),
    ("std::fs::", "accesses files"),
    ("std::io::", "does input or output"),
    ("std::net::", "uses the network"),
    ("std::process::", "controls processes"),
    ("std::thread::", "uses threads"),
    ("std::os::", "uses the operating system"),
    ("std::sync::mpsc", "communicates between threads"),
    ("std::random", "draws random numbers"),
    ("core::random", "draws random numbers"),
    ("std::hash::random", "draws a random hash seed"),
    ("std::hash::RandomState", "draws a random hash seed"),
    ("std::collections::hash_map::RandomState", "draws a random hash seed"),
    ("std::backtrace", "reads the call stack"),
    ("core::fmt::rt::Argument::new_pointer", "prints an address"),
    ("std::fmt::rt::Argument::new_pointer", "prints an address"),
];
const BAD_CRATES: &[(&str, &str)] = &[
    ("js_sys", "calls into JavaScript"),
    ("web_sys", "calls into the browser"),
    ("rand", "draws random numbers"),
    ("getrandom", "draws random numbers"),
    ("chrono", "reads the clock"),
    ("log", "writes a log"),
];
const INNER_MUT: &[&str] = &["Cell", "RefCell", "UnsafeCell", "Mutex", "RwLock", "OnceCell", "OnceLock"];

pub fn run(ir: &Ir) -> EffOut {
    let mut o = EffOut::default();
    let mut roots = vec![];
    for r in ["parse", "tokenize"] {
        match ir.by_name.get(r) {
            Some(i) => roots.push(*i),
            None => o.missing.push(r.to_string()),
        }
    }
    if !o.missing.is_empty() {
        return o;
    }
    let fns = reach(ir, &roots);
    o.fns = fns.len();
    let inner = |t: usize| contains_def(ir, t, &|t: &Ty| t.k == "adt" && (INNER_MUT.contains(&last(&t.def)) || last(&t.def).starts_with("Atomic")), &mut HashSet::new());
    for &fi in &fns {
        let f = &ir.fns[fi];
        for b in &f.blocks {
            for s in &b.s {
                if let Stmt::Assign(_, Rv::Cast(k, _, _), sp) = s {
                    if k.contains("ExposeProvenance") || k.contains("ExposeAddress") {
                        o.finds.insert(format!("{}|address", f.name), (sp.to_string(), "turns an address into a number: the result can depend on where memory lies".into()));
                    }
                }
            }
            if let Term::Asm = b.t {
                o.finds.insert(format!("{}|asm", f.name), (b.sp.to_string(), "inline assembly".into()));
            }
            for (op, sp) in ops_of(b) {
                let (c, ty) = match op {
                    Op::Const { c, ty, .. } => (c, *ty),
                    _ => continue,
                };
                match c {
                    Const::Static(n) => {
                        o.statics += 1;
                        let it = ir.items.iter().find(|i| &i.name == n);
                        let key = format!("{}|static({})", f.name, n);
                        match it {
                            Some(i) if i.mutbl => {
                                o.finds.insert(key, (sp.to_string(), format!("uses the mutable static {}, which survives the call", n)));
                            }
                            Some(i) if !i.freeze => {
                                // a lazily built constant is fine: its initialiser sees nothing of the input
                                let t = &ir.tys[i.ty];
                                let lazy = t.k == "adt" && matches!(last(&t.def), "LazyLock" | "LazyCell" | "Lazy") && t.args.first().map_or(false, |a| !inner(*a));
                                let once = t.k == "adt" && matches!(last(&t.def), "OnceLock" | "OnceCell") && t.args.first().map_or(false, |a| !inner(*a)) && once_ok(ir, f, n);
                                if !lazy && !once {
                                    o.finds.insert(key, (sp.to_string(), format!("uses the static {} of type {}, whose value can change and survives the call", n, t.s)));
                                }
                            }
                            Some(_) => {}
                            None => {
                                // a static of another crate, or one declared through a macro
                                let t = &ir.tys[ty];
                                if inner(ty) {
                                    o.finds.insert(key, (sp.to_string(), format!("uses the static {} of type {}, whose value can change and survives the call", n, t.s)));
                                }
                            }
                        }
                    }
                    Const::Fn(r) => {
                        o.calls += 1;
                        if r.local {
                            if last(&r.norm).starts_with("__wbg_") {
                                o.finds.insert(format!("{}|import({})", f.name, last(&r.norm)), (sp.to_string(), "calls a function imported from JavaScript".into()));
                            }
                            continue;
                        }
                        let mut names = vec![r.norm.clone()];
                        if let Some(x) = &r.res {
                            names.push(norm(x));
                        }
                        o.ext.insert(r.norm.clone());
                        for n in &names {
                            for (p, why) in BAD {
                                if n.starts_with(p) && !n.starts_with("std::io::error") {
                                    o.finds.insert(format!("{}|{}", f.name, n), (sp.to_string(), format!("calls {}, which {}", n, why)));
                                }
                            }
                        }
                        if let Some((_, why)) = BAD_CRATES.iter().find(|x| x.0 == r.krate) {
                            o.finds.insert(format!("{}|{}", f.name, r.norm), (sp.to_string(), format!("calls {}, which {}", r.norm, why)));
                        }
                        if names.iter().any(|n| n.contains("thread::local::LocalKey") || n.contains("thread::LocalKey")) {
                            o.finds.insert(format!("{}|thread-local", f.name), (sp.to_string(), "uses a thread-local variable, which survives the call".into()));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    // where hash order can reach a result
    let mut t = Taint { ir, memo: HashMap::new(), busy: HashSet::new(), iters: 0, escapes: BTreeMap::new() };
    for &fi in &fns {
        t.go(fi, 0);
    }
    o.hash_iters = t.iters;
    // a returned order only matters if a root returns it or it is stored; a function that hands it up is
    // judged where its callers put it
    for &fi in &roots {
        if let Some(site) = t.go(fi, 0).0 {
            o.finds.insert("hash-order(result)".into(), (site, "the order of a hash collection reaches the result".into()));
        }
    }
    // the results of the parser and the tokenizer are serialized by code outside this crate
    for n in ["parser::Parser::parse_code", "lexer::Lexer::tokenize_code"] {
        if let Some(fi) = ir.by_name.get(n) {
            if let Some(site) = t.go(*fi, 0).0 {
                o.finds.insert(format!("hash-order({})", n), (site, "the order of a hash collection reaches the result".into()));
            }
        }
    }
    for (k, s) in t.escapes {
        o.finds.insert(k, (s, "the iteration order of a hash collection decides something or is stored".into()));
    }
    o
}

/// get_or_init with a closure without captures only
fn once_ok(ir: &Ir, f: &Func, _n: &str) -> bool {
    let mut ok = true;
    let mut seen = false;
    for b in &f.blocks {
        if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, .. } = &b.t {
            if r.norm.contains("OnceLock") || r.norm.contains("OnceCell") {
                match last(&r.norm) {
                    "get_or_init" => {
                        seen = true;
                        for t in &r.targs {
                            if ir.tys[*t].k == "closure" {
                                let d = ir.tys[*t].def.clone();
                                for b in &f.blocks {
                                    for s in &b.s {
                                        if let Stmt::Assign(_, Rv::Agg(Agg::Closure(c), os), _) = s {
                                            if (c == &d || d.is_empty()) && !os.is_empty() {
                                                ok = false;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    "get" | "deref" | "new" => {}
                    _ => ok = false,
                }
            }
        }
    }
    ok && seen
}

/// blocks that can reach themselves
pub fn in_cycle(f: &Func) -> Vec<bool> {
    let n = f.blocks.len();
    let succ: Vec<Vec<usize>> = f.blocks.iter().map(|b| succs(&b.t)).collect();
    (0..n)
        .map(|i| {
            let mut seen = vec![false; n];
            let mut st = succ[i].clone();
            while let Some(x) = st.pop() {
                if x == i {
                    return true;
                }
                if x < n && !seen[x] {
                    seen[x] = true;
                    st.extend(&succ[x]);
                }
            }
            false
        })
        .collect()
}
pub fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Goto(b) | Term::Drop { b, .. } | Term::Assert { b, .. } => vec![*b],
        Term::Switch { v, e, .. } => {
            let mut x: Vec<usize> = v.iter().map(|a| a.1).collect();
            x.push(*e);
            x
        }
        Term::Call { b: Some(b), .. } => vec![*b],
        _ => vec![],
    }
}

type Site = Option<String>;
struct Taint<'a> {
    ir: &'a Ir,
    memo: HashMap<(usize, u64), (Site, u64)>,
    busy: HashSet<(usize, u64)>,
    iters: usize,
    escapes: BTreeMap<String, String>,
}
const NEUTRAL: &[&str] = &[
    "any", "all", "count", "len", "is_some", "is_none", "is_ok", "is_err", "is_empty", "contains", "contains_key", "eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "max", "min", "sum", "product", "size_hint", "is", "in_", "is_some_and", "is_none_or", "starts_with", "ends_with", "sort", "sort_unstable", "sort_by", "sort_by_key",
    "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key", "sorted",
];
impl<'a> Taint<'a> {
    fn unordered(&self, t: usize) -> bool {
        let mut t = t;
        while matches!(self.ir.tys[t].k.as_str(), "ref" | "ptr") {
            t = self.ir.tys[t].args[0];
        }
        let ty = &self.ir.tys[t];
        ty.k == "bool" || ty.k == "int" || ty.k == "adt" && matches!(last(&ty.def), "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet" | "BinaryHeap")
    }
    fn is_source(&mut self, r: &FnRef) -> bool {
        let n = last(&r.norm).to_string();
        let hashy = |s: &str| s.contains("HashMap") || s.contains("HashSet") || s.contains("hash_map") || s.contains("hash_set") || s.contains("hash::map") || s.contains("hash::set");
        let names = [r.norm.clone(), r.res.clone().unwrap_or_default()];
        let on_hash = names.iter().any(|s| hashy(s)) || r.targs.first().map_or(false, |t| {
            let mut t = *t;
            while self.ir.tys[t].k == "ref" {
                t = self.ir.tys[t].args[0];
            }
            is_hash(&self.ir.tys[t])
        });
        if on_hash && matches!(n.as_str(), "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "into_keys" | "into_values" | "drain" | "into_iter" | "union" | "intersection" | "difference" | "symmetric_difference" | "extract_if") {
            return true;
        }
        if n == "new_debug" && r.targs.first().map_or(false, |t| contains_def(self.ir, *t, &is_hash, &mut HashSet::new())) {
            return true;
        }
        // node.to_string() of something that prints its children in order is judged in its own Display
        false
    }
    /// (where a returned order comes from, which arguments are filled in that order)
    fn go(&mut self, fi: usize, mask: u64) -> (Site, u64) {
        if let Some(r) = self.memo.get(&(fi, mask)) {
            return r.clone();
        }
        if !self.busy.insert((fi, mask)) {
            return (None, 0);
        }
        let f = &self.ir.fns[fi];
        let n = f.locals.len();
        // what a local refers to (for writes through references)
        let mut base: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); n];
        for _ in 0..6 {
            for b in &f.blocks {
                for s in &b.s {
                    if let Stmt::Assign(d, r, _) = s {
                        let src = match r {
                            Rv::Ref { pl, .. } | Rv::RawPtr(pl) => Some(pl.l),
                            Rv::Use(Op::Copy(p)) | Rv::Use(Op::Move(p)) | Rv::Cast(_, Op::Move(p), _) | Rv::Cast(_, Op::Copy(p), _) => Some(p.l),
                            _ => None,
                        };
                        if let Some(l) = src {
                            let mut x = base[l as usize].clone();
                            x.insert(l);
                            base[d.l as usize].extend(x);
                        }
                        if let Rv::Agg(Agg::Closure(_), os) = r {
                            for o in os {
                                if let Op::Copy(p) | Op::Move(p) = o {
                                    let mut x = base[p.l as usize].clone();
                                    x.insert(p.l);
                                    base[d.l as usize].extend(x);
                                }
                            }
                        }
                    }
                }
                if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, a, d, .. } = &b.t {
                    if matches!(last(&r.norm), "deref_mut" | "deref" | "as_mut" | "as_mut_slice" | "as_slice" | "by_ref" | "into_iter" | "iter_mut") {
                        if let Some(Op::Copy(p) | Op::Move(p)) = a.first() {
                            let mut x = base[p.l as usize].clone();
                            x.insert(p.l);
                            base[d.l as usize].extend(x);
                        }
                    }
                }
            }
        }
        let mut sorted: BTreeSet<u32> = BTreeSet::new();
        for b in &f.blocks {
            if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, a, .. } = &b.t {
                if last(&r.norm).starts_with("sort") {
                    if let Some(Op::Copy(p) | Op::Move(p)) = a.first() {
                        sorted.extend(base[p.l as usize].iter().cloned());
                        sorted.insert(p.l);
                    }
                }
            }
        }
        let mut tl: Vec<Site> = vec![None; n];
        for i in 0..f.argc.min(60) {
            if mask >> i & 1 == 1 {
                tl[i + 1] = Some(f.sp.to_string());
            }
        }
        loop {
            let mut ch = false;
            macro_rules! add {
                ($l:expr, $s:expr) => {{
                    let l = $l as usize;
                    if tl[l].is_none() && !sorted.contains(&(l as u32)) && !self.unordered(f.locals[l].t) {
                        tl[l] = Some($s);
                        ch = true;
                    }
                }};
            }
            for b in &f.blocks {
                for s in &b.s {
                    if let Stmt::Assign(d, r, _) = s {
                        let mut src: Site = None;
                        let mut see = |o: &Op| {
                            if let Op::Copy(p) | Op::Move(p) = o {
                                if src.is_none() {
                                    src = tl[p.l as usize].clone();
                                }
                            }
                        };
                        match r {
                            Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Repeat(o, _) => see(o),
                            Rv::Agg(_, os) => os.iter().for_each(|o| see(o)),
                            Rv::Ref { pl, .. } => src = tl[pl.l as usize].clone(),
                            _ => {}
                        }
                        if let Some(s) = src {
                            add!(d.l, s.clone());
                            // a write through a reference
                            if d.p.iter().any(|p| matches!(p, Pe::Deref)) {
                                for x in base[d.l as usize].clone() {
                                    add!(x, s.clone());
                                }
                            }
                        }
                    }
                }
                if let Term::Call { f: fo, a, d, .. } = &b.t {
                    let args: Vec<Option<u32>> = a.iter().map(|o| if let Op::Copy(p) | Op::Move(p) = o { Some(p.l) } else { None }).collect();
                    let src: Site = args.iter().flatten().find_map(|l| tl[*l as usize].clone());
                    let r = match fo {
                        Op::Const { c: Const::Fn(r), .. } => r,
                        _ => {
                            if let Some(s) = src {
                                add!(d.l, s);
                            }
                            continue;
                        }
                    };
                    if self.is_source(r) {
                        if tl[d.l as usize].is_none() {
                            self.iters += 1;
                        }
                        add!(d.l, b.sp.to_string());
                        continue;
                    }
                    let callee = local_fn(self.ir, r);
                    if let Some(ci) = callee {
                        let mut m = 0u64;
                        for (i, l) in args.iter().enumerate() {
                            if l.map_or(false, |l| tl[l as usize].is_some()) && i < 60 {
                                m |= 1 << i;
                            }
                        }
                        let (ret, outm) = self.go(ci, m);
                        if NEUTRAL.contains(&last(&r.norm)) {
                            continue;
                        }
                        if let Some(s) = ret {
                            add!(d.l, src.clone().unwrap_or(s));
                        }
                        for (i, l) in args.iter().enumerate() {
                            if outm >> i & 1 == 1 {
                                if let Some(l) = l {
                                    let s = src.clone().unwrap_or(b.sp.to_string());
                                    for x in base[*l as usize].clone() {
                                        add!(x, s.clone());
                                    }
                                    add!(*l, s);
                                }
                            }
                        }
                        continue;
                    }
                    let s = match src {
                        Some(s) => s,
                        None => continue,
                    };
                    let nm = last(&r.norm);
                    if NEUTRAL.contains(&nm) {
                        continue;
                    }
                    add!(d.l, s.clone());
                    // what the call may fill through a mutable reference
                    for l in args.iter().flatten() {
                        let t = &self.ir.tys[f.locals[*l as usize].t];
                        let is_mut = t.k == "ref" && t.mutbl;
                        let clo = t.k == "closure";
                        if is_mut && !self.unordered(f.locals[*l as usize].t) || clo {
                            for x in base[*l as usize].clone() {
                                add!(x, s.clone());
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        // an element chosen by its place in that order, and what is decided by it
        let cyc = in_cycle(f);
        let mut pk: Vec<Site> = vec![None; n];
        loop {
            let mut ch = false;
            for (bi, b) in f.blocks.iter().enumerate() {
                for s in &b.s {
                    if let Stmt::Assign(d, r, _) = s {
                        let mut src: Site = None;
                        let mut see = |o: &Op| {
                            if let Op::Copy(p) | Op::Move(p) = o {
                                if src.is_none() {
                                    src = pk[p.l as usize].clone();
                                }
                            }
                        };
                        match r {
                            Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Un(_, o) => see(o),
                            Rv::Bin(_, a, b) => {
                                see(a);
                                see(b);
                            }
                            Rv::Agg(_, os) => os.iter().for_each(|o| see(o)),
                            Rv::Ref { pl, .. } => src = pk[pl.l as usize].clone(),
                            _ => {}
                        }
                        if src.is_some() && pk[d.l as usize].is_none() {
                            pk[d.l as usize] = src;
                            ch = true;
                        }
                    }
                }
                match &b.t {
                    Term::Call { f: Op::Const { c: Const::Fn(r), .. }, a, d, .. } => {
                        let nm = last(&r.norm);
                        let mut src: Site = a.iter().find_map(|o| if let Op::Copy(p) | Op::Move(p) = o { pk[p.l as usize].clone() } else { None });
                        let a0 = match a.first() {
                            Some(Op::Copy(p) | Op::Move(p)) => tl[p.l as usize].is_some() || base[p.l as usize].iter().any(|x| tl[*x as usize].is_some()),
                            _ => false,
                        };
                        let const1 = matches!(a.get(1), Some(Op::Const { .. }));
                        if a0 && (nm == "next" && !cyc[bi] || matches!(nm, "nth" | "last" | "first" | "position" | "rposition" | "find" | "find_map" | "reduce" | "pop" | "split_first" | "split_last" | "remove" | "swap_remove" | "next_back") && !cyc[bi] || matches!(nm, "index" | "get") && const1) {
                            src = Some(b.sp.to_string());
                        }
                        if matches!(nm, "is_some" | "is_none" | "is_ok" | "is_err" | "is_empty" | "len" | "count") {
                            src = None;
                        }
                        if src.is_some() && pk[d.l as usize].is_none() {
                            pk[d.l as usize] = src;
                            ch = true;
                        }
                    }
                    Term::Switch { o: Op::Copy(p) | Op::Move(p), .. } => {
                        if let Some(s) = &pk[p.l as usize] {
                            self.escapes.entry(format!("{}|hash-order-decision", f.name)).or_insert(s.clone());
                        }
                    }
                    _ => {}
                }
            }
            if !ch {
                break;
            }
        }
        let mut outm = 0u64;
        for i in 0..f.argc.min(60) {
            let t = &self.ir.tys[f.locals[i + 1].t];
            if t.k == "ref" && t.mutbl && tl[i + 1].is_some() && mask >> i & 1 == 0 {
                outm |= 1 << i;
                let mut x = f.locals[i + 1].t;
                while matches!(self.ir.tys[x].k.as_str(), "ref") {
                    x = self.ir.tys[x].args[0];
                }
                let ty = &self.ir.tys[x];
                if mask == 0 && ty.k == "adt" && ty.local {
                    let site = tl[i + 1].clone().unwrap();
                    self.escapes.insert(format!("{}|hash-order", f.name), site);
                }
            }
        }
        let r = (tl[0].clone(), outm);
        self.busy.remove(&(fi, mask));
        self.memo.insert((fi, mask), r.clone());
        r
    }
}
