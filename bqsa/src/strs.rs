//! C03: text cut at byte offsets. A string is a sequence of characters of one to four bytes; cutting it at
//! an offset inside a character is a panic. Every cut reachable from the exported functions must be at the
//! start, the end, or behind a test that looked at the text (a prefix, a search, a predicate on it): an
//! offset counted in characters or fixed by the length alone is no boundary.
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct StrOut {
    pub finds: BTreeMap<String, (String, String)>,
    pub sites: BTreeSet<String>,
    pub mute: BTreeMap<String, (String, String)>, // C11
    pub conv: BTreeSet<String>,
    pub fns: usize,
}
fn last(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}
fn fnref(o: &Op) -> Option<&FnRef> {
    match o {
        Op::Const { c: Const::Fn(r), .. } => Some(r),
        _ => None,
    }
}
fn op_ty(f: &Func, o: &Op) -> Option<usize> {
    match o {
        Op::Copy(p) | Op::Move(p) if p.p.is_empty() => f.locals.get(p.l as usize).map(|l| l.t),
        Op::Const { ty, .. } => Some(*ty),
        _ => None,
    }
}
fn is_text(s: &str) -> bool {
    let s = s.trim_start_matches('&').trim_start_matches("mut ").trim();
    s == "str" || s == "std::string::String" || s.ends_with("token::Token")
}
const GUARDS: &[&str] = &[
    "starts_with", "ends_with", "strip_prefix", "strip_suffix", "is_char_boundary", "is_ascii", "find", "rfind", "char_indices", "len_utf8", "match_indices", "rmatch_indices", "split_once", "rsplit_once", "contains",
    "is_match", "trim", "trim_end", "trim_start", "trim_end_matches", "trim_start_matches", "trim_matches", "all", "eq", "ne", "eq_ignore_ascii_case", "bytes", "as_bytes", "captures", "floor_char_boundary", "ceil_char_boundary", "split_at_checked", "find_map",
];
/// calls and decisions that look at text
fn guards(ir: &Ir, f: &Func, b: &Block) -> bool {
    match &b.t {
        Term::Call { f: c, a, .. } => match fnref(c) {
            Some(r) if r.local => {
                let g = ir.fns.iter().find(|g| g.id == r.id);
                let boolean = g.map(|g| ir.tys[g.locals[0].t].s == "bool").unwrap_or(false);
                boolean && a.iter().any(|x| op_ty(f, x).map(|t| is_text(&ir.tys[t].s)).unwrap_or(false))
            }
            Some(r) => GUARDS.contains(&last(&r.norm)),
            None => false,
        },
        Term::Switch { ty, .. } => ir.tys[*ty].s == "char" || ir.tys[*ty].s == "u8",
        _ => false,
    }
}
fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch { v, e, .. } => v.iter().map(|x| x.1).chain([*e]).collect(),
        Term::Drop { b, .. } | Term::Assert { b, .. } => vec![*b],
        Term::Call { b, .. } => b.iter().cloned().collect(),
        _ => vec![],
    }
}
/// can block n be reached from the start without passing a block that looks at the text
fn bare(ir: &Ir, f: &Func, n: usize) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo = vec![0usize];
    while let Some(b) = todo.pop() {
        if !seen.insert(b) {
            continue;
        }
        if b == n {
            return true;
        }
        if !guards(ir, f, &f.blocks[b]) {
            todo.extend(succs(&f.blocks[b].t));
        }
    }
    false
}
fn safe_bound(f: &Func, o: &Op, depth: usize) -> bool {
    match o {
        Op::Const { c: Const::Int(0), .. } => true,
        Op::Copy(p) | Op::Move(p) if p.p.is_empty() && depth < 4 => {
            let mut any = false;
            for b in &f.blocks {
                for s in &b.s {
                    if let Stmt::Assign(d, r, _) = s {
                        if d.l == p.l && d.p.is_empty() {
                            any = true;
                            match r {
                                Rv::Use(x) if safe_bound(f, x, depth + 1) => {}
                                _ => return false,
                            }
                        }
                    }
                }
                if let Term::Call { f: c, d, .. } = &b.t {
                    if d.l == p.l && d.p.is_empty() {
                        any = true;
                        let n = fnref(c).map(|r| r.norm.clone()).unwrap_or_default();
                        if !(last(&n) == "len" && (n.contains("str") || n.contains("String"))) {
                            return false;
                        }
                    }
                }
            }
            any
        }
        _ => false,
    }
}
/// the bounds a range operand was made of
fn bounds<'a>(f: &'a Func, o: &Op) -> Option<Vec<&'a Op>> {
    if let Op::Copy(p) | Op::Move(p) = o {
        for b in &f.blocks {
            for s in &b.s {
                if let Stmt::Assign(d, Rv::Agg(Agg::Adt { .. }, os), _) = s {
                    if d.l == p.l && d.p.is_empty() {
                        return Some(os.iter().collect());
                    }
                }
            }
        }
    }
    None
}

/// the one call that gives this local its value, through plain copies; None if there are several, or
/// if it can be changed through a reference
fn origin<'a>(f: &'a Func, o: &Op, depth: usize) -> Option<(&'a FnRef, &'a [Op])> {
    let l = match o {
        Op::Copy(p) | Op::Move(p) if p.p.is_empty() && depth < 6 => p.l,
        _ => return None,
    };
    if (l as usize) >= 1 && (l as usize) <= f.argc as usize {
        return None;
    }
    let mut res: Option<(&FnRef, &[Op])> = None;
    let mut defs = 0;
    for b in &f.blocks {
        for s in &b.s {
            if let Stmt::Assign(d, r, _) = s {
                if d.l == l {
                    defs += 1;
                    match r {
                        Rv::Use(x) if d.p.is_empty() => res = origin(f, x, depth + 1),
                        _ => return None,
                    }
                }
                if let Rv::Ref { mutbl: true, pl, .. } | Rv::RawPtr(pl) = r {
                    if pl.l == l {
                        return None;
                    }
                }
            }
        }
        if let Term::Call { f: c, a, d, .. } = &b.t {
            if d.l == l {
                defs += 1;
                if !d.p.is_empty() {
                    return None;
                }
                res = fnref(c).map(|r| (r, &a[..]));
            }
        }
    }
    if defs == 1 {
        res
    } else {
        None
    }
}
/// text without a single character
fn empty(ir: &Ir, f: &Func, o: &Op) -> bool {
    let (r, a) = match origin(f, o, 0) {
        Some(x) if !x.0.local => x,
        _ => return false,
    };
    let to_string = |t: Option<&usize>| t.map_or(false, |t| ir.tys[*t].s == "std::string::String");
    match last(&r.norm) {
        "new" | "with_capacity" => r.norm.ends_with("String::new") || r.norm.ends_with("String::with_capacity"),
        "default" => to_string(r.targs.first()),
        "to_string" | "to_owned" | "from" | "into" => matches!(a.first(), Some(Op::Const { c: Const::Str(s), .. }) if s.trim().is_empty()),
        _ => false,
    }
}
fn conversions(ir: &Ir, f: &Func, out: &mut StrOut) {
    for b in &f.blocks {
        if b.cl {
            continue;
        }
        if let Term::Call { f: c, a, d, .. } = &b.t {
            let r = match fnref(c) {
                Some(r) => r,
                None => continue,
            };
            // messages
            if r.local && ir.tys[f.locals[d.l as usize].t].s.ends_with("BQ2CSTError") && d.p.is_empty() {
                for x in a {
                    if empty(ir, f, x) {
                        out.mute.insert(format!("{}|empty-message", f.name), (b.sp.to_string(), "an error is built with an empty message".to_string()));
                    }
                }
            }
            // a conversion that can fail, taken for granted
            let n = last(&r.norm);
            if !r.local && matches!(n, "unwrap" | "expect" | "unwrap_unchecked") {
                if let Some((g, ga)) = a.first().and_then(|x| origin(f, x, 0)) {
                    let m = last(&g.norm).to_string();
                    let fails = !g.local && matches!(m.as_str(), "from_str_radix" | "parse" | "from_str" | "from_utf8" | "try_from" | "try_into" | "checked_mul" | "checked_pow");
                    if fails {
                        out.conv.insert(b.sp.to_string());
                        if !ga.iter().all(|x| matches!(x, Op::Const { .. })) {
                            out.finds.insert(format!("{}|conversion({})", f.name, m), (b.sp.to_string(), format!("the result of {} is unwrapped although what is converted comes from the input: a value out of range or of another form makes this a panic", m)));
                        }
                    }
                }
            }
        }
    }
}

/// a number that is calculated, or a constant other than that of the end of the input
fn made_up(ir: &Ir, f: &Func, o: &Op, depth: usize) -> bool {
    let p = match o {
        Op::Copy(p) | Op::Move(p) => p,
        Op::Const { c: Const::Int(k), .. } => return *k != u64::MAX as u128 && *k != u32::MAX as u128,
        _ => return false,
    };
    if depth > 6 || (p.l as usize) <= f.argc as usize && p.l > 0 {
        return false;
    }
    let arith = |op: &str| ["Add", "Sub", "Mul", "Div", "Rem", "Bit", "Shl", "Shr"].iter().any(|x| op.starts_with(x));
    let pair = ir.tys[f.locals[p.l as usize].t].s == "(usize, bool)";
    if !p.p.is_empty() && !pair {
        return false;
    }
    for b in &f.blocks {
        for s in &b.s {
            if let Stmt::Assign(d, r, _) = s {
                if d.l == p.l && d.p.is_empty() {
                    let bad = match r {
                        Rv::Bin(op, _, _) => arith(op),
                        Rv::Use(x) | Rv::Cast(_, x, _) => made_up(ir, f, x, depth + 1),
                        _ => false,
                    };
                    if bad {
                        return true;
                    }
                }
            }
        }
        if let Term::Call { f: c, d, .. } = &b.t {
            if d.l == p.l && d.p.is_empty() {
                if let Some(r) = fnref(c) {
                    let n = last(&r.norm);
                    if !r.local && (["saturating_", "wrapping_", "checked_", "overflowing_"].iter().any(|x| n.starts_with(x)) || matches!(n, "len" | "count" | "add" | "sub")) {
                        return true;
                    }
                }
            }
        }
    }
    false
}
/// the call that made the token an operand refers to
fn maker<'a>(f: &'a Func, o: &Op, depth: usize) -> Option<(&'a FnRef, &'a [Op])> {
    if let Some(x) = origin(f, o, 0) {
        return Some(x);
    }
    let l = match o {
        Op::Copy(p) | Op::Move(p) if p.p.is_empty() && depth < 6 => p.l,
        _ => return None,
    };
    let mut to = None;
    for b in &f.blocks {
        for s in &b.s {
            if let Stmt::Assign(d, r, _) = s {
                if d.l == l {
                    let pl = match r {
                        Rv::Ref { mutbl: false, pl, .. } => pl,
                        Rv::Use(Op::Copy(pl)) | Rv::Use(Op::Move(pl)) => pl,
                        _ => return None,
                    };
                    let plain = pl.p.is_empty() || pl.p.len() == 1 && matches!(pl.p[0], Pe::Deref);
                    if !plain || to.is_some() {
                        return None;
                    }
                    to = Some(Op::Copy(Place { l: pl.l, p: vec![] }));
                }
            }
        }
    }
    maker(f, &to?, depth + 1)
}
/// positions that do not come from a token
fn positions(ir: &Ir, f: &Func, out: &mut StrOut) {
    let ty = |l: u32| ir.tys[f.locals[l as usize].t].s.as_str();
    for b in &f.blocks {
        if b.cl {
            continue;
        }
        for s in &b.s {
            if let Stmt::Assign(d, r, sp) = s {
                let mut base = ty(d.l).trim_start_matches('&').trim_start_matches("mut ").to_string();
                let mut field = None;
                for e in &d.p {
                    if let Pe::Field(_, n, t) = e {
                        field = Some((base.clone(), n.clone()));
                        base = ir.tys[*t].s.clone();
                    }
                }
                if let Some((t, n)) = field {
                    if t.ends_with("BQ2CSTError") && (n == "line" || n == "column") {
                        let bad = match r {
                            Rv::Bin(..) => true,
                            Rv::Use(x) | Rv::Cast(_, x, _) => made_up(ir, f, x, 0),
                            _ => false,
                        };
                        if bad {
                            out.mute.insert(format!("{}|position-changed({})", f.name, n), (sp.to_string(), "the position of an error is changed to a calculated one".to_string()));
                        }
                    }
                }
            }
        }
        if let Term::Call { f: c, a, d, .. } = &b.t {
            let r = match fnref(c) {
                Some(r) if r.local => r,
                _ => continue,
            };
            let _ = r;
            if !d.p.is_empty() || !ty(d.l).ends_with("BQ2CSTError") {
                continue;
            }
            for x in a {
                let t = op_ty(f, x).map(|t| ir.tys[t].s.clone()).unwrap_or_default();
                let bad = if t == "usize" {
                    made_up(ir, f, x, 0)
                } else if t.ends_with("Token") {
                    match maker(f, x, 0) {
                        Some((g, ga)) if g.local => ga.iter().any(|y| op_ty(f, y).map_or(matches!(y, Op::Copy(_) | Op::Move(_)), |t| ir.tys[t].s == "usize") && made_up(ir, f, y, 0)),
                        _ => false,
                    }
                } else {
                    false
                };
                if bad {
                    out.mute.insert(format!("{}|position", f.name), (b.sp.to_string(), "an error is built with a calculated position in place of that of a token".to_string()));
                }
            }
        }
    }
}

pub fn run(ir: &Ir) -> StrOut {
    let mut out = StrOut::default();
    let mut roots = vec![];
    for n in ["parse", "tokenize", "parser::Parser::parse_code", "parser::Parser::new", "lexer::Lexer::tokenize_code", "lexer::Lexer::new"] {
        if let Some(i) = ir.by_name.get(n) {
            roots.push(*i);
        }
    }
    let fns = crate::eff::reach(ir, &roots);
    out.fns = fns.len();
    // the tokenizer has no token to point to: its positions are judged elsewhere
    let lr: Vec<usize> = ["lexer::Lexer::tokenize_code"].iter().filter_map(|n| ir.by_name.get(*n).cloned()).collect();
    let lex: BTreeSet<usize> = crate::eff::reach(ir, &lr).into_iter().collect();
    // can the function be entered from one that has not looked at the text
    let bare_fn = |g: usize| -> bool {
        let id = ir.fns[g].id;
        // what the callers know about a text the function does not get from them does not count
        if !ir.fns[g].locals[1..=ir.fns[g].argc as usize].iter().any(|l| is_text(&ir.tys[l.t].s)) {
            return true;
        }
        let mut callers = 0;
        for &h in &fns {
            for (n, b) in ir.fns[h].blocks.iter().enumerate() {
                if let Term::Call { f: c, .. } = &b.t {
                    if fnref(c).map(|r| r.local && r.id == id).unwrap_or(false) {
                        callers += 1;
                        if bare(ir, &ir.fns[h], n) {
                            return true;
                        }
                    }
                }
            }
        }
        callers == 0
    };
    for &i in &fns {
        let f = &ir.fns[i];
        conversions(ir, f, &mut out);
        if !lex.contains(&i) {
            positions(ir, f, &mut out);
        }
        for (n, b) in f.blocks.iter().enumerate() {
            if b.cl {
                continue;
            }
            if let Term::Call { f: c, a, .. } = &b.t {
                let r = match fnref(c) {
                    Some(r) if !r.local => r,
                    _ => continue,
                };
                let m = last(&r.norm).to_string();
                let recv = a.first().and_then(|x| op_ty(f, x)).map(|t| ir.tys[t].s.clone()).unwrap_or_default();
                let text = is_text(&recv) && !recv.contains("Token");
                let ok = match m.as_str() {
                    "index" | "index_mut" if text && a.len() == 2 => bounds(f, &a[1]).map(|bs| bs.iter().all(|o| safe_bound(f, o, 0))).unwrap_or(false),
                    "split_at" | "truncate" | "split_off" | "insert" | "insert_str" if text && a.len() >= 2 => safe_bound(f, &a[1], 0),
                    "drain" | "replace_range" if text && a.len() >= 2 => bounds(f, &a[1]).map(|bs| bs.iter().all(|o| safe_bound(f, o, 0))).unwrap_or(false),
                    _ => continue,
                };
                out.sites.insert(b.sp.to_string());
                if !ok && bare(ir, f, n) && bare_fn(i) {
                    out.finds.insert(format!("{}|byte-offset({})", f.name, m), (b.sp.to_string(), "text is cut at a byte offset although nothing shows that a character starts there: a character of several bytes makes this a panic".to_string()));
                }
            }
        }
    }
    out
}
