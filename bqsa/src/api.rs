//! The exported functions: what reaches JavaScript. A path interpreter over the MIR of `parse` and
//! `tokenize` (their helpers and closures inlined) that follows the values of the program text, the
//! token list, the statements, the error and the serializer; and a check of what the Serialize
//! implementations write.
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct ApiOut {
    pub finds: BTreeMap<(String, String), (String, String)>,
    pub undecided: BTreeMap<String, String>,
    pub missing: Vec<String>,
    pub paths: usize,
    pub fns: BTreeSet<String>,
    pub fields: BTreeSet<String>,
    pub variants: usize,
}

type Loc = (usize, u32, Vec<(u32, u32)>); // frame, local, (variant, field) path

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum V {
    Un,                       // says nothing about the subject
    Code,
    Lexer,
    Tokens,
    Parser,
    Stmts,
    Err(&'static str),        // the error of the tokenizer or the parser
    SerErr,
    Cfg(bool),                // a serializer; true: JSON compatible
    Js(Box<V>, bool),         // JavaScript value made from it
    Bad(String, bool),        // something else made from one of these; true: certainly not the same
    Adt(u32, Vec<V>, bool),   // variant, fields; true: enum
    Ref(Loc),
    Into(Loc),                // a mutable reference into the inside of it
    Clo(String, Vec<V>),
    Int(u128),
}
use V::*;

fn interesting(v: &V) -> Option<&'static str> {
    match v {
        Code => Some("the program text"),
        Lexer => Some("the tokenizer"),
        Tokens => Some("the token list"),
        Parser => Some("the parser"),
        Stmts => Some("the statements"),
        Err(_) => Some("the error"),
        Js(..) => Some("the JavaScript value"),
        Bad(..) => Some("a changed value"),
        Adt(_, fs, _) => fs.iter().filter_map(interesting).next(),
        Clo(_, fs) => fs.iter().filter_map(interesting).next(),
        _ => None,
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Mem {
    m: BTreeMap<(usize, u32), V>,
    next: usize,
    failed: Option<&'static str>,
    serfail: bool,
    weak: bool,
}

struct M<'a> {
    ir: &'a Ir,
    out: ApiOut,
    root: String,
    steps: usize,
    over: bool,
}

enum Exit {
    Ret(V, Mem),
    Dead,
}

impl<'a> M<'a> {
    fn undec(&mut self, k: &str, sp: &str) {
        self.out.undecided.entry(format!("{}: {}", self.root, k)).or_insert(sp.to_string());
    }
    fn find(&mut self, prop: &str, key: &str, sp: &str, msg: &str) {
        let k = format!("{}|{}", self.root, key);
        self.out.finds.entry((prop.to_string(), k)).or_insert((sp.to_string(), msg.to_string()));
    }
    fn get(&self, mem: &Mem, l: &Loc) -> V {
        let mut v = mem.m.get(&(l.0, l.1)).cloned().unwrap_or(Un);
        for (var, f) in &l.2 {
            v = proj(&v, *var, *f);
        }
        v
    }
    fn set(&self, mem: &mut Mem, l: &Loc, v: V) {
        let cur = mem.m.get(&(l.0, l.1)).cloned().unwrap_or(Un);
        let n = put(cur, &l.2, v);
        mem.m.insert((l.0, l.1), n);
    }
    /// location of a place, or the value if it is none
    fn place(&self, mem: &Mem, fr: usize, p: &Place) -> Result<Loc, V> {
        let mut l: Loc = (fr, p.l, vec![]);
        let mut var = 0u32;
        let mut val: Option<V> = None;
        for e in &p.p {
            match e {
                Pe::Deref => {
                    let v = match val.take() {
                        Some(v) => v,
                        None => self.get(mem, &l),
                    };
                    match v {
                        Ref(t) => l = t,
                        v => val = Some(v),
                    }
                    var = 0;
                }
                Pe::Var(v) => var = *v,
                Pe::Field(f, _, _) => {
                    match &val {
                        Some(v) => val = Some(proj(v, var, *f)),
                        None => {
                            let cur = self.get(mem, &l);
                            if matches!(cur, Adt(..) | Clo(..)) {
                                l.2.push((var, *f));
                            } else {
                                match cur {
                                    Un | Int(_) => l.2.push((var, *f)),
                                    v => val = Some(proj(&v, var, *f)),
                                }
                            }
                        }
                    }
                    var = 0;
                }
                _ => {
                    let v = val.take().unwrap_or_else(|| self.get(mem, &l));
                    val = Some(proj(&v, 0, 99));
                }
            }
        }
        match val {
            Some(v) => Result::Err(v),
            None => Ok(l),
        }
    }
    fn op(&self, mem: &Mem, fr: usize, o: &Op) -> V {
        match o {
            Op::Copy(p) | Op::Move(p) => match self.place(mem, fr, p) {
                Ok(l) => self.get(mem, &l),
                Result::Err(v) => v,
            },
            Op::Const { c, .. } => match c {
                Const::Int(i) => Int(*i),
                Const::Bool(b) => Int(*b as u128),
                Const::Variant(v) => Adt(*v, vec![], true),
                Const::Fn(r) => Clo(r.res.clone().unwrap_or(r.path.clone()), vec![]),
                _ => Un,
            },
            _ => Un,
        }
    }
    /// the value behind references
    fn strip(&self, mem: &Mem, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..8 {
            match v {
                Ref(l) => v = self.get(mem, &l),
                _ => break,
            }
        }
        v
    }
    fn spoil(&self, mem: &mut Mem, v: &V, why: &str, sure: bool) {
        let l = match v {
            Ref(l) | Into(l) => l.clone(),
            _ => return,
        };
        let cur = self.get(mem, &l);
        if let Ref(_) | Into(_) = cur {
            let c = cur.clone();
            self.spoil(mem, &c, why, sure);
        } else if interesting(&cur).is_some() || matches!(cur, Cfg(_)) {
            self.set(mem, &l, Bad(why.to_string(), sure));
        }
    }

    fn call_value(&mut self, f: &V, args: Vec<V>, mem: Mem, sp: &str, depth: usize) -> Vec<(V, Mem)> {
        let f = self.strip(&mem, f);
        match f {
            Clo(name, caps) => {
                if let Some(&i) = self.ir.by_name.get(&name) {
                    let fun = &self.ir.fns[i];
                    let mut mem = mem;
                    let a = if fun.kind == "closure" || name.ends_with('}') {
                        let fr = mem.next;
                        mem.next += 1;
                        mem.m.insert((fr, 0), Clo(name.clone(), caps));
                        // by reference or by value, as declared
                        let byref = self.ir.tys[fun.locals[1].t].k == "ref";
                        let mut a = vec![if byref { Ref((fr, 0, vec![])) } else { mem.m[&(fr, 0)].clone() }];
                        a.extend(args);
                        a
                    } else {
                        args
                    };
                    if self.model_local(&name) {
                        return self.call_named(&name, &norm(&name), a, mem, sp, depth);
                    }
                    return self.run(i, a, mem, depth + 1);
                }
                let n = norm(&name);
                self.call_named(&name, &n, args, mem, sp, depth)
            }
            _ => {
                let why = args.iter().filter_map(|a| interesting(&self.strip(&mem, a))).next();
                vec![(why.map(|w| Bad(format!("an unknown function of {}", w), false)).unwrap_or(Un), mem)]
            }
        }
    }
    fn model_local(&self, name: &str) -> bool {
        matches!(name, "lexer::Lexer::new" | "lexer::Lexer::tokenize_code" | "parser::Parser::new" | "parser::Parser::parse_code") || name.ends_with("::serialize")
    }

    fn call_named(&mut self, res: &str, n: &str, args: Vec<V>, mem: Mem, sp: &str, depth: usize) -> Vec<(V, Mem)> {
        let last = n.rsplit("::").next().unwrap_or(n).to_string();
        let a0 = args.get(0).cloned().unwrap_or(Un);
        let s0 = self.strip(&mem, &a0);
        match res {
            "lexer::Lexer::new" => {
                let v = match &s0 {
                    Code => Lexer,
                    Bad(w, true) => {
                        let w = w.clone();
                        self.find("C22", "text-changed", sp, &format!("the tokenizer is given something else than the text passed by the caller ({})", w));
                        Lexer
                    }
                    _ => {
                        self.undec("what text the tokenizer is given", sp);
                        Lexer
                    }
                };
                return vec![(v, mem)];
            }
            "lexer::Lexer::tokenize_code" => {
                if s0 != Lexer {
                    self.undec("which tokenizer runs", sp);
                }
                let mut m2 = mem.clone();
                m2.failed = Some("tokenize_code");
                return vec![(Adt(0, vec![Tokens], true), mem), (Adt(1, vec![Err("tokenize_code")], true), m2)];
            }
            "parser::Parser::new" => {
                match &s0 {
                    Tokens => {}
                    Bad(w, true) => {
                        let w = w.clone();
                        self.find("C22", "tokens-changed", sp, &format!("the parser is given something else than the tokens of the tokenizer ({})", w));
                        if mem.failed.is_some() {
                            self.find("C17", "parse-after-failure", sp, "the parser runs although the tokenizer failed");
                        }
                    }
                    _ => {
                        if mem.failed.is_some() {
                            self.find("C17", "parse-after-failure", sp, "the parser runs although the tokenizer failed");
                        }
                        self.undec("what tokens the parser is given", sp);
                    }
                }
                return vec![(Parser, mem)];
            }
            "parser::Parser::parse_code" => {
                if s0 != Parser {
                    self.undec("which parser runs", sp);
                }
                let mut m2 = mem.clone();
                if m2.failed.is_none() {
                    m2.failed = Some("parse_code");
                }
                return vec![(Adt(0, vec![Stmts], true), mem), (Adt(1, vec![Err("parse_code")], true), m2)];
            }
            _ => {}
        }
        if n.contains("serde_wasm_bindgen") {
            let j = match last.as_str() {
                "json_compatible" => Some(Cfg(true)),
                "new" if n.contains("Serializer") => Some(Cfg(false)),
                "to_value" => None,
                _ if n.contains("Serializer") => Some(match &s0 {
                    Cfg(_) => Cfg(last == "json_compatible"),
                    _ => Un,
                }),
                _ => Some(Un),
            };
            if let Some(j) = j {
                return vec![(j, mem)];
            }
        }
        if last == "serialize" || last == "to_value" {
            let cfg = args.get(1).map(|x| self.strip(&mem, x)).unwrap_or(Cfg(false));
            let json = match cfg {
                Cfg(b) => b,
                _ => {
                    self.undec("how the serializer is set up", sp);
                    true
                }
            };
            let mut m2 = mem.clone();
            m2.serfail = true;
            return vec![(Adt(0, vec![Js(Box::new(s0), json)], true), mem), (Adt(1, vec![SerErr], true), m2)];
        }
        // Option and Result
        let is_res = n.contains("Result") || n.contains("Try>") || n.contains("FromResidual");
        let is_opt = n.contains("option::Option") || n.contains("Option::");
        if last == "branch" {
            if let Adt(v, fs, true) = &s0 {
                // ControlFlow: Continue 0, Break 1
                let ok = if n.contains("Option") || n.contains("option::") { *v == 1 } else { *v == 0 };
                return vec![(if ok { Adt(0, fs.clone(), true) } else { Adt(1, vec![s0.clone()], true) }, mem)];
            }
        }
        if last == "from_residual" {
            return vec![(s0, mem)];
        }
        if is_res || is_opt {
            if let Adt(v, fs, true) = &s0 {
                let good = if is_res { *v == 0 } else { *v == 1 };
                let inner = fs.get(0).cloned().unwrap_or(Un);
                let okv = if is_res { 0 } else { 1 };
                let f1 = args.get(1).cloned().unwrap_or(Un);
                let byref = |l: &V| matches!(l, Ref(_));
                match last.as_str() {
                    "expect" | "unwrap" | "unwrap_unchecked" => {
                        if good {
                            return vec![(inner, mem)];
                        }
                        if matches!(inner, SerErr) {
                            return vec![];
                        }
                        if is_res {
                            self.find("C03", "panic-on-error", sp, "an input that is refused makes this panic instead of returning the error");
                        }
                        return vec![];
                    }
                    "expect_err" | "unwrap_err" => {
                        if !good {
                            return vec![(inner, mem)];
                        }
                        self.find("C03", "panic-on-success", sp, "an input that is accepted makes this panic");
                        return vec![];
                    }
                    "map" | "and_then" => {
                        if !good {
                            return vec![(s0.clone(), mem)];
                        }
                        let wrap = last == "map";
                        let r = self.call_value(&f1, vec![inner], mem, sp, depth);
                        return r.into_iter().map(|(v, m)| (if wrap { Adt(okv, vec![v], true) } else { v }, m)).collect();
                    }
                    "map_err" | "or_else" => {
                        if good {
                            return vec![(s0.clone(), mem)];
                        }
                        let wrap = last == "map_err";
                        let r = self.call_value(&f1, if is_res { vec![inner] } else { vec![] }, mem, sp, depth);
                        return r.into_iter().map(|(v, m)| (if wrap { Adt(1, vec![v], true) } else { v }, m)).collect();
                    }
                    "unwrap_or" => return vec![(if good { inner } else { f1 }, mem)],
                    "unwrap_or_default" => return vec![(if good { inner } else { Bad("a default value".into(), true) }, mem)],
                    "unwrap_or_else" => {
                        if good {
                            return vec![(inner, mem)];
                        }
                        return self.call_value(&f1, if is_res { vec![inner] } else { vec![] }, mem, sp, depth);
                    }
                    "map_or_else" => {
                        let f2 = args.get(2).cloned().unwrap_or(Un);
                        return if good { self.call_value(&f2, vec![inner], mem, sp, depth) } else { self.call_value(&f1, if is_res { vec![inner] } else { vec![] }, mem, sp, depth) };
                    }
                    "map_or" => {
                        let f2 = args.get(2).cloned().unwrap_or(Un);
                        return if good { self.call_value(&f2, vec![inner], mem, sp, depth) } else { vec![(f1, mem)] };
                    }
                    "or" | "or_insert" => return vec![(if good { s0.clone() } else { f1 }, mem)],
                    "and" => return vec![(if good { f1 } else { s0.clone() }, mem)],
                    "ok" => return vec![(if good { Adt(1, vec![inner], true) } else { Adt(0, vec![], true) }, mem)],
                    "err" => return vec![(if good { Adt(0, vec![], true) } else { Adt(1, vec![inner], true) }, mem)],
                    "ok_or" => return vec![(if good { Adt(0, vec![inner], true) } else { Adt(1, vec![f1], true) }, mem)],
                    "is_ok" | "is_some" => return vec![(Int(good as u128), mem)],
                    "is_err" | "is_none" => return vec![(Int(!good as u128), mem)],
                    "as_ref" | "as_mut" | "as_deref" => {
                        if let Ref(l) = &a0 {
                            let mut l = l.clone();
                            while let Ref(l2) = self.get(&mem, &l) {
                                l = l2;
                            }
                            if fs.is_empty() {
                                return vec![(s0.clone(), mem)];
                            }
                            l.2.push((*v, 0));
                            return vec![(Adt(*v, vec![Ref(l)], true), mem)];
                        }
                    }
                    "take" | "replace" => {
                        if byref(&a0) {
                            let mut m = mem;
                            if let Ref(l) = &a0 {
                                self.set(&mut m, l, Adt(0, vec![], true));
                            }
                            return vec![(s0.clone(), m)];
                        }
                    }
                    "clone" | "cloned" | "copied" | "into" | "from" | "from_output" => return vec![(s0.clone(), mem)],
                    "from_iter" => {}
                    _ => {}
                }
            }
            if last == "from_output" {
                return vec![(Adt(okv_of(is_res), vec![a0], true), mem)];
            }
        }
        // panics
        if n.contains("panicking::") || n.contains("panic_fmt") || n.contains("panic_str") || n.contains("rt::begin_panic") {
            if mem.weak {
                self.undec("a panic behind a condition on the result", sp);
            } else if !mem.serfail {
                self.find("C03", "explicit-panic", sp, "some input makes this exported function panic");
            }
            return vec![];
        }
        // the same value in another place or another form
        let same = matches!(
            last.as_str(),
            "clone" | "to_string" | "to_owned" | "into" | "from" | "deref" | "deref_mut" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "as_str" | "as_slice" | "as_mut_slice" | "to_vec" | "into_iter" | "iter" | "cloned" | "copied" | "collect" | "from_iter" | "into_boxed_str" | "into_string" | "into_boxed_slice" | "into_vec" | "into_bytes" | "as_bytes" | "by_ref" | "from_utf8_unchecked" | "identity" | "into_inner" | "get_mut" | "leak" | "into_owned" | "chars" | "into_chars" | "from_str" | "black_box" | "new" | "to_vec_in"
        ) && args.len() <= 2;
        if same && (last != "new" || n.contains("Box") || n.contains("Rc") || n.contains("Arc") || n.contains("Cell") || n.contains("Some")) {
            let v = match last.as_str() {
                "deref" | "deref_mut" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "as_str" | "as_slice" | "as_mut_slice" | "get_mut" | "by_ref" | "iter" | "chars" | "as_bytes" => a0,
                _ => s0,
            };
            return vec![(v, mem)];
        }
        if last == "iter_mut" {
            if let Ref(l) = &a0 {
                let mut l = l.clone();
                while let Ref(l2) = self.get(&mem, &l) {
                    l = l2;
                }
                return vec![(Into(l), mem)];
            }
        }
        if last == "drop" || last == "forget" || last == "shrink_to_fit" || last == "reserve" || last == "with_capacity" {
            return vec![(Un, mem)];
        }
        if matches!(last.as_str(), "take" | "replace" | "swap") && n.contains("mem::") {
            let mut m = mem.clone();
            if let Ref(l) = &a0 {
                let old = self.get(&m, l);
                match last.as_str() {
                    "take" => self.set(&mut m, l, Bad("a default value".into(), true)),
                    "replace" => self.set(&mut m, l, args.get(1).cloned().unwrap_or(Un)),
                    _ => {
                        if let Some(Ref(l2)) = args.get(1) {
                            let o2 = self.get(&m, l2);
                            self.set(&mut m, l2, old.clone());
                            self.set(&mut m, l, o2);
                            return vec![(Un, m)];
                        }
                    }
                }
                return vec![(old, m)];
            }
        }
        if last == "next" || last == "next_back" || last == "last" || last == "first" || last == "get" || last == "first_mut" || last == "last_mut" || last == "peek" {
            let inner = match &s0 {
                Into(l) => Into(l.clone()),
                v => match (&a0, interesting(v)) {
                    (Ref(l), Some(_)) if last.ends_with("_mut") => Into(l.clone()),
                    (_, Some(w)) => Bad(format!("a part of {}", w), true),
                    _ => Un,
                },
            };
            return vec![(Adt(1, vec![inner], true), mem.clone()), (Adt(0, vec![], true), mem)];
        }
        if n.starts_with("core::fmt") || n.starts_with("std::fmt") || n.contains("fmt::Arguments") || n.contains("fmt::rt::") {
            let w = args.iter().filter_map(|a| interesting(&self.strip(&mem, a))).next();
            return vec![(w.map(|w| Bad(format!("text made from {}", w), true)).unwrap_or(Un), mem)];
        }
        if matches!(last.as_str(), "call" | "call_once" | "call_mut") && n.contains("Fn") {
            let rest = match args.get(1).map(|x| self.strip(&mem, x)) {
                Some(Adt(_, fs, false)) => fs,
                _ => vec![],
            };
            return self.call_value(&a0, rest, mem, sp, depth);
        }
        let changing = [
            "push", "push_str", "insert", "insert_str", "pop", "remove", "truncate", "retain", "retain_mut", "clear", "drain", "extend", "append", "split_off", "swap_remove", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key",
            "dedup", "dedup_by", "dedup_by_key", "rotate_left", "rotate_right", "resize", "fill", "swap", "extend_from_slice", "make_ascii_uppercase", "make_ascii_lowercase",
        ];
        let other = [
            "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "strip_prefix", "strip_suffix", "replace", "replacen", "to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase", "lines", "split", "splitn", "split_whitespace", "repeat", "rev", "skip", "take",
            "filter", "filter_map", "skip_while", "take_while", "map_while", "step_by", "split_at", "split_first", "split_last", "concat", "join", "chain", "new", "default", "from_elem", "eof", "box_new", "into_vec", "from_utf8_lossy", "first", "last",
        ];
        let mut m = mem;
        let pure = ["len", "is_empty", "contains", "starts_with", "ends_with", "capacity", "eq", "ne", "cmp", "partial_cmp", "any", "all", "count", "position", "find", "chars", "hash", "fmt", "is_some", "is_none", "is_char_boundary", "lt", "gt", "le", "ge", "nth", "is_ascii"];
        if pure.contains(&last.as_str()) && !args.iter().any(|a| matches!(a, Into(_))) {
            let w = args.iter().filter_map(|a| interesting(&self.strip(&m, a))).next();
            return vec![(w.map(|w| Bad(format!("{} of {}", last, w), true)).unwrap_or(Un), m)];
        }
        if changing.contains(&last.as_str()) {
            // the receiver is what changes
            let w = format!("changed by {}", last);
            self.spoil(&mut m, &a0, &w, true);
            for a in args.iter().skip(1) {
                if matches!(last.as_str(), "append" | "swap") {
                    self.spoil(&mut m, a, &w, true);
                }
            }
            return vec![(Bad(format!("the result of {}", last), true), m)];
        }
        let w = args.iter().filter_map(|a| interesting(&self.strip(&m, a))).next();
        if other.contains(&last.as_str()) {
            return vec![(Bad(match w { Some(w) => format!("{} of {}", last, w), None => format!("the result of {}", last) }, true), m)];
        }
        for a in &args {
            if matches!(a, Ref(_) | Into(_)) && w.is_some() && !self.shared(res) {
                self.spoil(&mut m, a, &format!("passed to {}", last), false);
            }
        }
        vec![(w.map(|w| Bad(format!("{} of {}", last, w), false)).unwrap_or(Un), m)]
    }
    fn shared(&self, _res: &str) -> bool {
        false
    }

    fn run(&mut self, fi: usize, args: Vec<V>, mut mem: Mem, depth: usize) -> Vec<(V, Mem)> {
        if depth > 24 {
            self.over = true;
            return vec![];
        }
        let ir = self.ir;
        let fun = &ir.fns[fi];
        self.out.fns.insert(fun.name.clone());
        let fr = mem.next;
        mem.next += 1;
        // closure called with its arguments spread or as a tuple
        for (i, a) in args.into_iter().enumerate() {
            mem.m.insert((fr, i as u32 + 1), a);
        }
        let mut out: Vec<(V, Mem)> = vec![];
        let mut seen: BTreeSet<(usize, Mem)> = BTreeSet::new();
        let mut todo: Vec<(usize, Mem)> = vec![(0, mem)];
        while let Some((b, mem)) = todo.pop() {
            self.steps += 1;
            if self.steps > 20000 {
                self.over = true;
                return out;
            }
            if !seen.insert((b, mem.clone())) {
                continue;
            }
            for (nb, m, r) in self.block(fi, fr, b, mem, depth) {
                match r {
                    Some(Exit::Ret(v, m)) => out.push((v, m)),
                    Some(Exit::Dead) => {}
                    None => todo.push((nb, m)),
                }
            }
        }
        out
    }

    fn block(&mut self, fi: usize, fr: usize, b: usize, mut mem: Mem, depth: usize) -> Vec<(usize, Mem, Option<Exit>)> {
        let ir = self.ir;
        let fun = &ir.fns[fi];
        let blk = &fun.blocks[b];
        for s in &blk.s {
            match s {
                Stmt::Assign(p, r, _) => {
                    let v = match r {
                        Rv::Use(o) | Rv::Cast(_, o, _) => self.op(&mem, fr, o),
                        Rv::Ref { pl, .. } | Rv::RawPtr(pl) => match self.place(&mem, fr, pl) {
                            Ok(l) => {
                                let cur = self.get(&mem, &l);
                                if let Into(_) = cur {
                                    cur
                                } else {
                                    Ref(l)
                                }
                            }
                            Result::Err(v) => {
                                // a reference to a part of something: through it the whole can change
                                let base = Place { l: pl.l, p: pl.p.iter().take_while(|e| matches!(e, Pe::Deref)).cloned().collect() };
                                match (r, self.place(&mem, fr, &base)) {
                                    (Rv::Ref { mutbl: true, .. }, Ok(l)) => Into(l),
                                    _ => v,
                                }
                            }
                        },
                        Rv::Discr(pl) => {
                            let v = match self.place(&mem, fr, pl) {
                                Ok(l) => self.get(&mem, &l),
                                Result::Err(v) => v,
                            };
                            match self.strip(&mem, &v) {
                                Adt(v, _, true) => Int(v as u128),
                                x => interesting(&x).map(|w| Bad(format!("the kind of {}", w), false)).unwrap_or(Un),
                            }
                        }
                        Rv::Agg(k, os) => {
                            let fs: Vec<V> = os.iter().map(|o| self.op(&mem, fr, o)).collect();
                            match k {
                                Agg::Adt { var, def, .. } => {
                                    let e = ir.tys.iter().any(|t| t.def == *def && t.is_enum);
                                    Adt(*var, fs, e)
                                }
                                Agg::Closure(d) => Clo(d.clone(), fs),
                                Agg::Tuple => Adt(0, fs, false),
                                Agg::Array => fs.iter().filter_map(interesting).next().map(|w| Bad(format!("a list of {}", w), false)).unwrap_or(Bad("a new list".into(), true)),
                                _ => Un,
                            }
                        }
                        Rv::Un(op, o) => match (op.as_str(), self.op(&mem, fr, o)) {
                            ("Not", Int(x)) if x <= 1 => Int(1 - x),
                            (_, v) => interesting(&v).map(|w| Bad(w.to_string(), false)).unwrap_or(Un),
                        },
                        Rv::Bin(op, a, b) => {
                            let (x, y) = (self.op(&mem, fr, a), self.op(&mem, fr, b));
                            match (op.as_str(), &x, &y) {
                                ("Eq", Int(x), Int(y)) => Int((x == y) as u128),
                                ("Ne", Int(x), Int(y)) => Int((x != y) as u128),
                                _ => interesting(&x).or(interesting(&y)).map(|w| Bad(w.to_string(), false)).unwrap_or(Un),
                            }
                        }
                        Rv::Repeat(..) | Rv::Other => Un,
                    };
                    self.assign(&mut mem, fr, p, v);
                }
                Stmt::Dead(_) | Stmt::Other => {}
                Stmt::SetDiscr(..) => {}
            }
        }
        match &blk.t {
            Term::Goto(t) => vec![(*t, mem, None)],
            Term::Drop { b, .. } => vec![(*b, mem, None)],
            Term::Assert { b, .. } => vec![(*b, mem, None)],
            Term::Ret => {
                let v = mem.m.get(&(fr, 0)).cloned().unwrap_or(Un);
                // this frame is gone
                let v = self.detach(&mem, fr, v);
                mem.m.retain(|k, _| k.0 != fr);
                vec![(0, mem.clone(), Some(Exit::Ret(v, mem)))]
            }
            Term::Switch { o, v, e, .. } => {
                let x = self.op(&mem, fr, o);
                match self.strip(&mem, &x) {
                    Int(i) => {
                        let t = v.iter().find(|y| y.0 == i).map(|y| y.1).unwrap_or(*e);
                        vec![(t, mem, None)]
                    }
                    x => {
                        if let Bad(w, _) = &x {
                            if w.contains("statements") || w.contains("token list") {
                                mem.weak = true;
                            }
                        }
                        let mut ts: BTreeSet<usize> = v.iter().map(|y| y.1).collect();
                        ts.insert(*e);
                        ts.into_iter().filter(|t| !matches!(fun.blocks[*t].t, Term::Unreachable)).map(|t| (t, mem.clone(), None)).collect()
                    }
                }
            }
            Term::Call { f, a, d, b, .. } => {
                let args: Vec<V> = a.iter().map(|o| self.op(&mem, fr, o)).collect();
                let sp = blk.sp.to_string();
                let rs = match f {
                    Op::Const { c: Const::Fn(r), .. } => {
                        let name = r.res.clone().unwrap_or(r.path.clone());
                        match ir.by_name.get(&name) {
                            Some(&i) if !self.model_local(&name) && !ir.fns[i].derived => {
                                let ft = &ir.fns[i];
                                if ft.argc == args.len() {
                                    self.run(i, args, mem, depth + 1)
                                } else {
                                    // a closure called through a trait
                                    let rest = match args.get(1).map(|x| self.strip(&mem, x)) {
                                        Some(Adt(_, fs, false)) => fs,
                                        _ => vec![],
                                    };
                                    self.call_value(&args[0].clone(), rest, mem, &sp, depth)
                                }
                            }
                            _ => self.call_named(&name, &norm(&name), args, mem, &sp, depth),
                        }
                    }
                    o => {
                        let fv = self.op(&mem, fr, o);
                        self.call_value(&fv, args, mem, &sp, depth)
                    }
                };
                let mut out = vec![];
                for (v, mut m) in rs {
                    if let Some(t) = b {
                        self.assign(&mut m, fr, d, v);
                        out.push((*t, m, None));
                    }
                }
                out
            }
            _ => vec![(0, mem, Some(Exit::Dead))],
        }
    }
    fn detach(&self, mem: &Mem, fr: usize, v: V) -> V {
        match v {
            Ref(l) if l.0 == fr => self.get(mem, &l),
            Adt(a, fs, e) => Adt(a, fs.into_iter().map(|f| self.detach(mem, fr, f)).collect(), e),
            Clo(n, fs) => Clo(n, fs.into_iter().map(|f| self.detach(mem, fr, f)).collect()),
            v => v,
        }
    }
    fn assign(&mut self, mem: &mut Mem, fr: usize, p: &Place, v: V) {
        match self.place(mem, fr, p) {
            Ok(l) => self.set(mem, &l, v),
            Result::Err(_) => {
                // a write into the inside of something: find what is behind it
                for n in (0..p.p.len()).rev() {
                    let base = Place { l: p.l, p: p.p[..n].to_vec() };
                    match self.place(mem, fr, &base) {
                        Ok(l) => {
                            let cur = self.get(mem, &l);
                            match cur {
                                Into(_) | Ref(_) => self.spoil(mem, &cur, "a part of it is overwritten", true),
                                c if interesting(&c).is_some() => self.set(mem, &l, Bad("a part of it is overwritten".into(), true)),
                                _ => {}
                            }
                            return;
                        }
                        Result::Err(Into(l)) => {
                            self.spoil(mem, &Into(l), "a part of it is overwritten", true);
                            return;
                        }
                        _ => {}
                    }
                }
            }
        }
    }
}
fn okv_of(is_res: bool) -> u32 {
    if is_res {
        0
    } else {
        1
    }
}
fn proj(v: &V, var: u32, f: u32) -> V {
    match v {
        Adt(a, fs, e) => {
            if *e && *a != var {
                return Un;
            }
            fs.get(f as usize).cloned().unwrap_or(Un)
        }
        Clo(_, fs) => fs.get(f as usize).cloned().unwrap_or(Un),
        Bad(w, s) => Bad(w.clone(), *s),
        Into(l) => Into(l.clone()),
        v => interesting(v).map(|w| Bad(format!("a part of {}", w), true)).unwrap_or(Un),
    }
}
fn put(cur: V, path: &[(u32, u32)], v: V) -> V {
    match path.split_first() {
        None => v,
        Some(((var, f), rest)) => match cur {
            Adt(a, mut fs, e) => {
                let i = *f as usize;
                while fs.len() <= i {
                    fs.push(Un);
                }
                fs[i] = put(fs[i].clone(), rest, v);
                Adt(a, fs, e)
            }
            Clo(n, mut fs) => {
                let i = *f as usize;
                while fs.len() <= i {
                    fs.push(Un);
                }
                fs[i] = put(fs[i].clone(), rest, v);
                Clo(n, fs)
            }
            Un | Int(_) => {
                let mut fs = vec![Un; *f as usize + 1];
                fs[*f as usize] = put(Un, rest, v);
                Adt(*var, fs, false)
            }
            c => c,
        },
    }
}

pub fn run(ir: &Ir) -> ApiOut {
    let mut out = ApiOut::default();
    for root in ["parse", "tokenize"] {
        let Some(&fi) = ir.by_name.get(root) else {
            out.missing.push(root.to_string());
            continue;
        };
        let mut m = M { ir, out, root: root.to_string(), steps: 0, over: false };
        let mut mem = Mem { m: BTreeMap::new(), next: 0, failed: None, serfail: false, weak: false };
        mem.next = 1;
        let rs = m.run(fi, vec![Code], mem, 0);
        if m.over {
            m.undec("more paths than allowed", "-");
        }
        if rs.is_empty() && !m.over {
            m.undec("no path returns", "-");
        }
        let sp = ir.fns[fi].sp.to_string();
        let want = if root == "parse" { Stmts } else { Tokens };
        let what = if root == "parse" { "the statements" } else { "the tokens" };
        m.out.paths += rs.len();
        for (v, mem) in rs {
            if mem.serfail {
                continue;
            }
            let v = m.strip(&mem, &v);
            match (&v, mem.failed) {
                (Adt(0, fs, true), None) => match fs.get(0) {
                    Some(Js(x, json)) => {
                        if **x == want {
                            if !*json {
                                m.find("C22", "not-json-compatible", &sp, "the result is not written in the JSON compatible form: children are no plain objects then");
                            }
                        } else if matches!(&**x, Bad(_, true) | Un | Adt(..) | Tokens | Stmts | Code | Err(_)) {
                            m.find("C22", "result-changed", &sp, &format!("what is handed over is not {} as they were made ({})", what, show(x)));
                            if root == "parse" {
                                m.find("C15", "result-changed", &sp, &format!("what is handed over is not {} as they were made ({})", what, show(x)));
                            }
                        } else {
                            m.undec("what is handed over on success", &sp);
                        }
                    }
                    Some(Bad(_, false)) => m.undec("what is handed over on success", &sp),
                    _ => {
                        m.find("C22", "result-changed", &sp, &format!("what is handed over is not {} as they were made", what));
                    }
                },
                (Adt(0, _, true), Some(f)) => {
                    m.find("C17", &format!("success-after-failed({})", f), &sp, "success is returned to the caller although the input was refused");
                    m.find("C22", &format!("success-after-failed({})", f), &sp, "success is returned to the caller although the input was refused");
                }
                (Adt(1, _, true), None) => {
                    m.find("C22", "refused-without-error", &sp, "an input is refused although neither the tokenizer nor the parser failed");
                }
                (Adt(1, fs, true), Some(f)) => match fs.get(0) {
                    Some(Js(x, json)) => {
                        if **x == Err(f) {
                            if !*json {
                                m.find("C22", "error-not-json-compatible", &sp, "the error is not written in the JSON compatible form");
                            }
                        } else if matches!(&**x, Bad(_, false)) {
                            m.undec("what is handed over on failure", &sp);
                        } else {
                            m.find("C22", &format!("error-changed({})", f), &sp, &format!("what is handed over is not the error as it was made ({})", show(x)));
                            m.find("C11", &format!("error-changed({})", f), &sp, &format!("what is handed over is not the error as it was made ({})", show(x)));
                        }
                    }
                    Some(Bad(_, false)) => m.undec("what is handed over on failure", &sp),
                    _ => {
                        m.find("C22", &format!("error-changed({})", f), &sp, "what is handed over is not the error as it was made");
                        m.find("C11", &format!("error-changed({})", f), &sp, "what is handed over is not the error as it was made");
                    }
                },
                _ => m.undec("what is returned", &sp),
            }
        }
        out = m.out;
    }
    serialize(ir, &mut out);
    out
}
fn show(v: &V) -> String {
    match v {
        Bad(w, _) => w.clone(),
        v => interesting(v).unwrap_or("something else").to_string(),
    }
}

const STRUCTS: &[(&str, &[&str])] = &[("token::Token", &["line", "column", "literal"]), ("cst::Node", &["token", "node_type", "children"]), ("error::BQ2CSTError", &["line", "column", "message"])];
const ENUMS: &[&str] = &["cst::ContentType", "cst::NodeType"];

fn serialize(ir: &Ir, out: &mut ApiOut) {
    let find = |t: &str| ir.fns.iter().position(|f| f.name.ends_with(&format!("Serialize for {}>::serialize", t)) || f.name.ends_with(&format!("<{} as serde::Serialize>::serialize", t)));
    for (t, fields) in STRUCTS {
        let Some(i) = find(t) else {
            out.missing.push(format!("Serialize for {}", t));
            continue;
        };
        let f = &ir.fns[i];
        let mut bad = |k: String, m: String, out: &mut ApiOut| {
            out.finds.entry(("C22".into(), format!("serialize({})|{}", t, k))).or_insert((f.sp.to_string(), m));
        };
        let mut got: BTreeMap<String, Vec<(usize, Option<String>)>> = BTreeMap::new();
        let mut structs = 0;
        let mut skips = vec![];
        for (bi, b) in f.blocks.iter().enumerate() {
            if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, a, .. } = &b.t {
                let n = r.norm.rsplit("::").next().unwrap_or("");
                match n {
                    "serialize_struct" => structs += 1,
                    "skip_field" => skips.push(const_str(f, a.get(1))),
                    "serialize_field" | "serialize_entry" => {
                        let key = const_str(f, a.get(1)).unwrap_or("?".into());
                        got.entry(key).or_default().push((bi, self_field(f, a.get(2))));
                    }
                    _ => {}
                }
            }
        }
        if !f.derived && (structs == 0 || got.contains_key("?")) {
            out.undecided.insert(format!("hand-written Serialize for {}", t), f.sp.to_string());
            continue;
        }
        if structs == 0 {
            bad("no-object".into(), "it is not written as an object with its fields".into(), out);
            continue;
        }
        for s in skips.into_iter() {
            bad(format!("skipped({})", s.clone().unwrap_or_default()), "this field is left out in some cases".into(), out);
        }
        for k in *fields {
            out.fields.insert(format!("{}.{}", t, k));
            match got.get(*k) {
                None => bad(format!("missing({})", k), "the published field is not written".into(), out),
                Some(v) => {
                    if v.iter().any(|x| x.1.as_deref() != Some(*k)) {
                        if f.derived || v.iter().any(|x| x.1.is_some()) {
                            bad(format!("other-value({})", k), "the field is not written with its own value".into(), out);
                        } else {
                            out.undecided.insert(format!("Serialize for {}: value of {}", t, k), f.sp.to_string());
                        }
                    }
                    // on every path to a success return
                    let bs: BTreeSet<usize> = v.iter().map(|x| x.0).collect();
                    if avoidable(f, &bs) {
                        bad(format!("conditional({})", k), "the field is left out in some cases".into(), out);
                    }
                }
            }
        }
    }
    for t in ENUMS {
        let Some(i) = find(t) else {
            out.missing.push(format!("Serialize for {}", t));
            continue;
        };
        let f = &ir.fns[i];
        let Some(ty) = ir.tys.iter().find(|x| x.def == *t && !x.vars.is_empty()) else {
            out.missing.push(format!("variants of {}", t));
            continue;
        };
        if !f.derived {
            out.undecided.insert(format!("hand-written Serialize for {}", t), f.sp.to_string());
            continue;
        }
        let mut names: BTreeMap<u128, String> = BTreeMap::new();
        for b in &f.blocks {
            if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, a, .. } = &b.t {
                let n = r.norm.rsplit("::").next().unwrap_or("");
                if n == "serialize_unit_variant" || n == "serialize_newtype_variant" {
                    let idx = match a.get(2) {
                        Some(Op::Const { c: Const::Int(i), .. }) => *i,
                        _ => continue,
                    };
                    names.insert(idx, const_str(f, a.get(3)).unwrap_or("?".into()));
                    out.variants += 1;
                }
            }
        }
        // content is written as the node or the list itself where it is untagged: then by form
        if names.is_empty() {
            out.finds.entry(("C22".into(), format!("serialize({})|no-variants", t))).or_insert((f.sp.to_string(), "its variants are not written under their names".into()));
            continue;
        }
        for (i, v) in ty.vars.iter().enumerate() {
            if names.get(&(i as u128)) != Some(v) {
                out.finds.entry(("C22".into(), format!("serialize({})|renamed({})", t, v))).or_insert((f.sp.to_string(), format!("this variant is not written under its name but as {:?}", names.get(&(i as u128)))));
            }
        }
    }
}

fn trace<'f>(f: &'f Func, o: &'f Op, n: usize) -> Option<&'f Rv> {
    if n == 0 {
        return None;
    }
    let p = match o {
        Op::Copy(p) | Op::Move(p) if p.p.is_empty() => p,
        _ => return None,
    };
    let mut d = None;
    for b in &f.blocks {
        for s in &b.s {
            if let Stmt::Assign(q, r, _) = s {
                if q == p {
                    if d.is_some() {
                        return None;
                    }
                    d = Some(r);
                }
            }
        }
    }
    match d? {
        Rv::Use(o2) => match o2 {
            Op::Const { .. } => d,
            _ => trace(f, o2, n - 1).or(d),
        },
        _ => d,
    }
}
fn const_str(f: &Func, o: Option<&Op>) -> Option<String> {
    match o? {
        Op::Const { c: Const::Str(s), .. } => Some(s.clone()),
        o => match trace(f, o, 6)? {
            Rv::Use(Op::Const { c: Const::Str(s), .. }) => Some(s.clone()),
            Rv::Ref { pl, .. } if pl.p == [Pe::Deref] => const_str_l(f, pl.l),
            _ => None,
        },
    }
}
fn const_str_l(f: &Func, l: u32) -> Option<String> {
    let p = Place { l, p: vec![] };
    for b in &f.blocks {
        for s in &b.s {
            if let Stmt::Assign(q, Rv::Use(Op::Const { c: Const::Str(s), .. }), _) = s {
                if *q == p {
                    return Some(s.clone());
                }
            }
        }
    }
    None
}
/// the field of self a value is a plain reference to
fn self_field(f: &Func, o: Option<&Op>) -> Option<String> {
    let mut o = o?.clone();
    for _ in 0..6 {
        let r = trace(f, &o, 6)?;
        match r {
            Rv::Ref { pl, .. } => {
                if pl.l == 1 {
                    if let [Pe::Deref, Pe::Field(_, n, _)] = &pl.p[..] {
                        return Some(n.clone());
                    }
                    return None;
                }
                if pl.p == [Pe::Deref] || pl.p.is_empty() {
                    o = Op::Copy(Place { l: pl.l, p: vec![] });
                    continue;
                }
                return None;
            }
            Rv::Use(Op::Copy(pl)) | Rv::Use(Op::Move(pl)) => {
                if pl.l == 1 {
                    if let [Pe::Deref, Pe::Field(_, n, _)] = &pl.p[..] {
                        return Some(n.clone());
                    }
                }
                return None;
            }
            _ => return None,
        }
    }
    None
}
/// is there a path from the start to the call of `end` that goes round these blocks
fn avoidable(f: &Func, bs: &BTreeSet<usize>) -> bool {
    let mut seen = vec![false; f.blocks.len()];
    let mut todo = vec![0];
    while let Some(b) = todo.pop() {
        if seen[b] || bs.contains(&b) {
            continue;
        }
        seen[b] = true;
        if let Term::Call { f: Op::Const { c: Const::Fn(r), .. }, .. } = &f.blocks[b].t {
            if r.norm.rsplit("::").next() == Some("end") {
                return true;
            }
        }
        todo.extend(f.blocks[b].t.succs());
    }
    false
}
