//! Operator precedence. The expression parser is summarised by the abstract interpreter on probes:
//! token lists of which only the first tokens are known (an operand, an operator, an operand) and
//! everything behind them is unknown. A probe shows with which arguments the operand behind an
//! operator is parsed; a second kind of probe shows which operators such a call continues over and
//! before which it stops. Grouping follows from the two, for every expression.
use crate::dom::*;
use crate::exec::is_res;
use crate::interp::*;
use crate::ir::Ir;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct PrecOut {
    pub finds: Vec<(String, String)>,
    pub undecided: Vec<String>,
    pub missing: Vec<String>,
    pub obligations: usize,
    pub operators: usize,
    pub probes: usize,
    pub levels: usize,
    pub site: String,
}

struct ProbeSpec;
impl Spec for ProbeSpec {
    fn pred(&self, n: &str, l: &str) -> Option<bool> {
        if l.starts_with(MARK) {
            return Some(n == "is_numeric");
        }
        None
    }
}
pub const MARK: char = '\u{1}';

/// operator, its tokens, its level; operands are parsed so that exactly the tighter levels go on
/// inside them
struct Infix {
    toks: &'static str,
    level: u32,
    second: bool, // BETWEEN x AND y
    operand: bool,
    kind: Option<&'static str>,
}
fn table() -> Vec<Infix> {
    let mut v = vec![];
    let mut add = |l: u32, ops: &[&'static str], kind: Option<&'static str>, operand: bool, second: bool| {
        for o in ops {
            v.push(Infix { toks: o, level: l, second, operand, kind });
        }
    };
    let b = Some("BinaryOperator");
    add(101, &["(", "[", "."], None, false, false);
    add(103, &["*", "/", "||"], b, true, false);
    add(104, &["+", "-"], b, true, false);
    add(105, &["<<", ">>"], b, true, false);
    add(106, &["&"], b, true, false);
    add(107, &["^"], b, true, false);
    add(108, &["|"], b, true, false);
    add(109, &["=", "<", ">", "<=", ">=", "!=", "<>", "LIKE", "IS", "IS NOT"], b, true, false);
    add(109, &["IS DISTINCT FROM", "IS NOT DISTINCT FROM"], Some("IsDistinctFromOperator"), true, false);
    add(109, &["NOT LIKE", "LIKE ANY", "LIKE SOME", "LIKE ALL", "= ANY"], b, true, false);
    add(109, &["BETWEEN", "NOT BETWEEN"], Some("BetweenOperator"), true, true);
    add(109, &["IN", "NOT IN"], None, false, false);
    add(111, &["AND"], b, true, false);
    add(112, &["OR"], b, true, false);
    add(200, &["=>"], b, true, false);
    v
}
const PREFIX: &[(&str, u32)] = &[("-", 102), ("+", 102), ("~", 102), ("NOT", 110)];

fn level_name(l: u32) -> &'static str {
    match l {
        101 => "a call, an index or a field access",
        102 => "a unary sign",
        103 => "* / ||",
        104 => "+ -",
        105 => "a shift",
        106 => "&",
        107 => "^",
        108 => "|",
        109 => "a comparison",
        110 => "NOT",
        111 => "AND",
        112 => "OR",
        _ => "=>",
    }
}

pub fn run(ir: &Ir) -> PrecOut {
    let mut out = PrecOut::default();
    let pe = match ir.by_name.get("parser::Parser::parse_expr").cloned().or_else(|| {
        let want = ["&mut parser::Parser", "usize", "bool", "bool", "bool", "bool"];
        let c: Vec<usize> = (0..ir.fns.len())
            .filter(|i| {
                let f = &ir.fns[*i];
                f.argc == want.len() && (1..=f.argc).all(|a| ir.tys[f.locals[a].t].s == want[a - 1]) && ir.tys[f.locals[0].t].s.contains("Result<cst::Node,")
            })
            .collect();
        if c.len() == 1 {
            Some(c[0])
        } else {
            None
        }
    }) {
        Some(f) => f,
        None => {
            out.missing.push("parser::Parser::parse_expr".into());
            return out;
        }
    };
    let f = &ir.fns[pe];
    out.site = f.sp.to_string();
    let ty = |a: usize| ir.tys[f.locals[a].t].s.as_str();
    let precs: Vec<usize> = (1..=f.argc).filter(|a| ty(*a) == "usize").collect();
    if precs.len() != 1 || ty(1) != "&mut parser::Parser" || (1..=f.argc).any(|a| !matches!(ty(a), "usize" | "bool" | "&mut parser::Parser")) {
        out.undecided.push("the parameters of the expression parser are not the ones expected".into());
        return out;
    }
    let pa = precs[0] - 1;
    let me = V::Ref(Target { base: Base::Cell(0), path: vec![] });
    let max = V::Int(u64::MAX as i128);
    // a plain expression: no alias, not as a table, not behind a dot
    let plain: Vec<V> = (0..f.argc)
        .map(|i| match i {
            0 => me.clone(),
            i if i == pa => max.clone(),
            _ => V::Bool(false),
        })
        .collect();
    let mut it = Interp::new(ir, Rc::new(ProbeSpec));
    it.probe = true;
    it.call_filter = Some(f.name.clone());
    let table = table();
    out.operators = table.len() + PREFIX.len();
    let facts = |toks: &[String]| -> PS {
        let mut ps = PS::new();
        for (i, t) in toks.iter().enumerate().take(NF) {
            ps.facts[i] = TF::one(t);
        }
        ps
    };
    let mark = |n: u32, o: &str| format!("{}{} {}", MARK, n, o);
    // first kind of probe: operand, operator, operand
    let mut roots: Vec<(usize, String, Option<&'static str>)> = vec![];
    for o in &table {
        let mut t = vec![format!("{}1", MARK)];
        t.extend(o.toks.split(' ').map(|s| s.to_string()));
        if o.operand {
            t.push(mark(2, o.toks));
            if o.second {
                t.push("AND".into());
                t.push(mark(3, o.toks));
            }
            t.push(";".into());
        }
        let known = t.len() <= NF;
        let c = it.get_ctx(pe, plain.clone(), vec![V::Parser], facts(&t));
        roots.push((c, o.toks.to_string(), if known { o.kind } else { None }));
    }
    for (o, _) in PREFIX {
        let name = format!("unary {}", o);
        let c = it.get_ctx(pe, plain.clone(), vec![V::Parser], facts(&[o.to_string(), mark(2, &name), ";".into()]));
        roots.push((c, name, Some("UnaryOperator")));
    }
    // field access, also in the other ways in which expressions are parsed
    let flags: Vec<usize> = (1..f.argc).filter(|i| *i != pa).collect();
    for k in std::iter::once(None).chain(flags.into_iter().map(Some)) {
        let mut a = plain.clone();
        if let Some(k) = k {
            a[k] = V::Bool(true);
        }
        let c = it.get_ctx(pe, a, vec![V::Parser], facts(&[format!("{}1", MARK), ".".into(), mark(2, "."), ";".into()]));
        roots.push((c, ".".into(), None));
    }
    it.run();
    let rs: Vec<usize> = roots.iter().map(|r| r.0).collect();
    it.record_from(&rs);
    if let Some(w) = &it.gave_up {
        out.undecided.push(format!("operator probes: {}", w));
        return out;
    }
    // arguments of the operand calls
    let mut operand: BTreeMap<String, Vec<Vec<V>>> = BTreeMap::new();
    for r in &it.on_call {
        if std::env::var("PD").is_ok() { eprintln!("{} {} {:?}", r.caller, r.site, r.facts.iter().map(|f| f.show()).collect::<Vec<_>>()); }
        if let TF::Pos(v) = &r.facts[0] {
            if v.len() == 1 {
                let l = istr(v[0]);
                if let Some(x) = l.strip_prefix(MARK) {
                    if x == "1" {
                        continue;
                    }
                    if r.fuzzy {
                        out.undecided.push(format!("operand {}", x));
                        continue;
                    }
                    let mut a: Vec<V> = r.args.clone();
                    a[0] = me.clone();
                    let e = operand.entry(x.to_string()).or_default();
                    if !e.contains(&a) {
                        e.push(a);
                    }
                }
            }
        }
    }
    if std::env::var("PD").is_ok() {
        for (c, name, _) in &roots {
            eprintln!("ROOT {} {:?}", name, it.ctxs[*c].out.values().map(|o| format!("{} adv{} {:?}", is_res(&o.ret, 0), o.ps.advanced, o.ps.facts.iter().map(|f| f.show()).collect::<Vec<_>>())).collect::<Vec<_>>());
        }
    }
    for (c, name, kind) in &roots {
        let kind = match kind {
            Some(k) => *k,
            None => continue,
        };
        out.obligations += 1;
        let mut types: BTreeSet<String> = BTreeSet::new();
        let mut any = false;
        for o in it.ctxs[*c].out.values() {
            if !is_res(&o.ret, 0) || !o.ps.advanced {
                continue;
            }
            if let V::Enum(_, _, fs) = &o.ret {
                match fs.first() {
                    Some(V::Node(n)) if !n.any => {
                        for t in n.alts.keys() {
                            types.insert(it.nt_names[*t as usize].clone());
                        }
                    }
                    _ => any = true,
                }
            }
        }
        if any {
            out.undecided.push(format!("kind of node for {}", name));
        } else if types.iter().any(|t| t != kind) {
            let l = types.iter().cloned().collect::<Vec<_>>().join(", ");
            out.finds.push((format!("kind({})", name), format!("an expression `x {} y` can become a node of type {} instead of {}", name, l, kind)));
        }
    }
    // second kind of probe: which operators a call continues over
    let mut keys: Vec<Vec<V>> = vec![plain.clone()];
    for v in operand.values() {
        for a in v {
            if !keys.contains(a) {
                keys.push(a.clone());
            }
        }
    }
    out.levels = keys.len();
    let mut second: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (i, k) in keys.iter().enumerate() {
        if k.iter().skip(1).any(|v| !matches!(v, V::Int(_) | V::Bool(_))) {
            continue;
        }
        for (j, o) in table.iter().enumerate() {
            let mut t = vec![format!("{}1", MARK)];
            t.extend(o.toks.split(' ').map(|s| s.to_string()));
            let c = it.get_ctx(pe, k.clone(), vec![V::Parser], facts(&t));
            second.insert((i, j), c);
        }
    }
    out.probes = roots.len() + second.len();
    it.run();
    if let Some(w) = &it.gave_up {
        out.undecided.push(format!("operator probes: {}", w));
        return out;
    }
    // does the call go over the operator, does it stop before it (on paths without a decision on
    // something unknown), and was everything known
    let cont = |i: usize, j: usize| -> Option<(bool, bool, bool)> {
        let c = second.get(&(i, j))?;
        let (mut go, mut stop, mut sure) = (false, false, true);
        for o in it.ctxs[*c].out.values() {
            if o.ps.fuzzy {
                sure = false;
                continue;
            }
            if is_res(&o.ret, 0) {
                go |= o.ps.advanced;
                stop |= !o.ps.advanced;
            } else if o.ps.advanced {
                go = true;
            }
        }
        if !go && !stop {
            return None;
        }
        Some((go, stop, sure))
    };
    // a plain expression continues over every operator
    for (j, o) in table.iter().enumerate() {
        out.obligations += 1;
        match cont(0, j) {
            Some((true, false, true)) => {}
            Some((true, false, false)) => out.undecided.push(format!("continuation over {}", o.toks)),
            Some(_) => out.finds.push((format!("ends-before({})", o.toks), format!("an expression can end in front of `{}` instead of continuing over it", o.toks))),
            None => out.undecided.push(format!("continuation over {}", o.toks)),
        }
    }
    let mut judge = |name: &str, n: u32, level: u32| {
        let calls = match operand.get(&format!("{} {}", n, name)) {
            Some(c) => c,
            None => {
                out.undecided.push(format!("operand {} of {}", n, name));
                return;
            }
        };
        for a in calls {
            let i = keys.iter().position(|k| k == a).unwrap();
            for (j, o) in table.iter().enumerate() {
                out.obligations += 1;
                let (go, stop, sure) = match cont(i, j) {
                    Some(x) => x,
                    None => {
                        out.undecided.push(format!("{} behind an operand of {}", o.toks, name));
                        continue;
                    }
                };
                if !sure {
                    out.undecided.push(format!("{} behind an operand of {}", o.toks, name));
                }
                if o.level < level && stop {
                    out.finds.push((format!("loose({};{})", name, level_name(o.level)), format!("`{}` behind an operand of `{}` may not belong to that operand, although it binds tighter ({} before {})", o.toks, name, level_name(o.level), level_name(level))));
                }
                if o.level >= level && go {
                    let why = if o.level == level { "they are of the same level and group to the left".to_string() } else { format!("it binds less tightly ({} before {})", level_name(level), level_name(o.level)) };
                    out.finds.push((format!("tight({};{})", name, level_name(o.level)), format!("`{}` behind an operand of `{}` may be taken into that operand, although {}", o.toks, name, why)));
                }
            }
        }
    };
    for o in &table {
        if o.operand {
            judge(o.toks, 2, o.level);
            if o.second {
                judge(o.toks, 3, o.level);
            }
        }
    }
    judge(".", 2, 101);
    for (o, l) in PREFIX {
        judge(&format!("unary {}", o), 2, *l);
    }
    out.finds.sort();
    out.finds.dedup_by(|a, b| a.0 == b.0);
    out
}
