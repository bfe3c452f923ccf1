//! The predicates that classify tokens, evaluated on whole lexical categories (each category is
//! an automaton of spellings, not a sample of them).
use crate::ir::Ir;
use crate::mach::*;
use crate::spec::{self, Cat};
use std::collections::BTreeSet;
use std::rc::Rc;

pub const RESERVED: &str = "ALL AND ANY ARRAY AS ASC ASSERT_ROWS_MODIFIED AT BETWEEN BY CASE CAST COLLATE CONTAINS CREATE CROSS CUBE CURRENT DEFAULT DEFINE DESC DISTINCT ELSE END ENUM ESCAPE EXCEPT EXCLUDE EXISTS EXTRACT FALSE FETCH FOLLOWING FOR FROM FULL GROUP GROUPING GROUPS HASH HAVING IF IGNORE IN INNER INTERSECT INTERVAL INTO IS JOIN LATERAL LEFT LIKE LIMIT LOOKUP MERGE NATURAL NEW NO NOT NULL NULLS OF ON OR ORDER OUTER OVER PARTITION PRECEDING PROTO QUALIFY RANGE RECURSIVE RESPECT RIGHT ROLLUP ROWS SELECT SET SOME STRUCT TABLESAMPLE THEN TO TREAT TRUE UNBOUNDED UNION UNNEST USING WHEN WHERE WINDOW WITH WITHIN";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Word,
    Reserved,
    ForeignWord,
    Quoted,
    Str,
    Num,
    Bool,
    Null,
    Param,
    Template,
    Comment,
    Op,
    End,
}

pub fn cats() -> Vec<(K, Cat)> {
    let all = CS::full();
    let ascii = CS::by(|i| i < 128);
    let foreign = CS::one(128);
    let res: Vec<String> = RESERVED.split(' ').map(|s| s.to_string()).collect();
    let any = CS::EMPTY;
    let mut v = vec![
        (K::Word, Cat::lang("names that are not reserved", &[spec::WORD], ascii, res.clone(), any)),
        (K::ForeignWord, Cat::lang("names with letters outside ASCII", &[spec::WORD], all, vec![], foreign)),
        (K::Quoted, Cat::lang("back-quoted names", &[spec::BQDONE], all, vec![], any)),
        (K::Str, Cat::lang_from("single-quoted strings", &[spec::SDONE, spec::SQ + 3], all, vec![], any, CS::one(atom('\'')))),
        (K::Str, Cat::lang_from("double-quoted strings", &[spec::SDONE, spec::DQ + 3], all, vec![], any, CS::one(atom('"')))),
        (K::Num, Cat::lang("decimal integers", &[spec::N0, spec::NINT], all, vec![], any)),
        (K::Num, Cat::lang("numbers with a fraction", &[spec::NFRAC], all, vec![], any)),
        (K::Num, Cat::lang("numbers with an exponent", &[spec::NEXPD], all, vec![], any)),
        (K::Num, Cat::lang("hexadecimal integers", &[spec::HEX], all, vec![], any)),
        (K::Param, Cat::lang("named parameters", &[spec::ATW, spec::ATBQDONE], all, vec![], any)),
        (K::Param, Cat::exact("?")),
        (K::Template, Cat::lang("templates", &[spec::TDONE], all, vec![], any)),
        (K::Comment, Cat::lang_from("comments starting with #", &[spec::LINE_COMMENT], all, vec![], any, CS::one(atom('#')))),
        (K::Comment, Cat::lang_from("comments starting with --", &[spec::LINE_COMMENT], all, vec![], any, CS::one(atom('-')))),
        (K::Comment, Cat::lang_from("block comments", &[spec::BDONE], all, vec![], any, CS::one(atom('/')))),
        (K::End, Cat::exact("")),
    ];
    for w in ["TRUE", "FALSE"] {
        v.push((K::Bool, Cat::exact(w)));
    }
    v.push((K::Null, Cat::exact("NULL")));
    for w in &res {
        if !["TRUE", "FALSE", "NULL"].contains(&w.as_str()) {
            v.push((K::Reserved, Cat::exact(w)));
        }
    }
    for o in "( ) [ ] , ; . * / + - | || |> & ^ ~ < <= <> << > >= >> = => ! != : % $ } \\".split(' ') {
        v.push((K::Op, Cat::exact(o)));
    }
    v
}

#[derive(Clone, Default)]
pub struct PredOut {
    pub failed: bool,
    pub finds: Vec<(&'static str, String, String)>,
    pub undecided: Vec<(String, String)>,
    pub decided: usize,
    pub fns: BTreeSet<String>,
    pub cats: usize,
    pub words: usize,
    pub found: Vec<String>,
}

fn token(m: &M, lit: V) -> V {
    let n = m.tlit.max(m.tline).max(m.tcol) + 1;
    let mut fs = vec![V::Un; n];
    if m.tlit < n {
        fs[m.tlit] = lit;
    }
    V::Adt(intern("Token"), 0, Rc::new(fs))
}

pub fn run(ir: &Ir) -> PredOut {
    let mut out = PredOut::default();
    let cs = cats();
    out.cats = cs.len();
    let kinds: Vec<K> = cs.iter().map(|c| c.0).collect();
    let names: Vec<String> = cs.iter().map(|c| c.1.name.clone()).collect();
    out.words = kinds.iter().filter(|k| matches!(k, K::Reserved | K::Bool | K::Null)).count();
    let mut m = M::new(ir, Mode::Pred);
    m.cats = cs.into_iter().map(|c| c.1).collect();
    if m.tlit > 20 {
        out.undecided.push(("token::Token has no field literal".into(), "-".into()));
        return out;
    }
    m.limit = 50_000;
    let preds: &[(&str, &'static str, fn(K) -> Option<bool>)] = &[
        ("is_identifier", "C13", |k| Some(matches!(k, K::Word | K::Quoted))),
        ("is_reserved_keyword", "C13", |k| Some(matches!(k, K::Reserved | K::Bool | K::Null))),
        ("is_numeric", "C19", |k| Some(k == K::Num)),
        ("is_string", "C19", |k| Some(k == K::Str)),
        ("is_boolean", "C19", |k| Some(k == K::Bool)),
        ("is_parameter", "C19", |k| Some(k == K::Param)),
        ("is_template", "C19", |k| Some(k == K::Template)),
        ("is_comment", "C09", |k| Some(k == K::Comment)),
    ];
    for (name, prop, want) in preds {
        let f = match ir.by_name.get(&format!("token::Token::{}", name)) {
            Some(f) => *f,
            None => continue,
        };
        if ir.fns[f].argc != 1 {
            continue;
        }
        out.found.push(format!("Token::{}", name));
        for i in 0..kinds.len() {
            let w = match want(kinds[i]) {
                Some(w) => w,
                None => continue,
            };
            let t = V::Val(Rc::new(token(&m, V::S(Str::Cat(i as u16, false)))));
            let rs = eval(&mut m, f, vec![t], &mut out);
            let mut bad = false;
            let mut good = false;
            let mut unk = rs.is_empty();
            for (st, v) in &rs {
                match m.deref(st, v) {
                    V::B(b) => {
                        bad |= b != w && !st.imp;
                        good |= b == w && !st.imp;
                    }
                    _ => unk = true,
                }
                unk |= st.imp;
            }
            if bad && good && matches!(kinds[i], K::Reserved | K::Bool | K::Null) {
                out.finds.push(("C07", format!("{}|{}", name, names[i]), format!("what Token::{} says about {} depends on its letter case", name, names[i])));
            }
            if bad {
                let who = format!("Token::{} on {}", name, names[i]);
                out.finds.push((prop, format!("{}|{}", name, names[i]), format!("{} can be {}, which it must never be", who, !w)));
            } else if unk {
                out.undecided.push((format!("Token::{} on {}", name, names[i]), "-".into()));
            } else {
                out.decided += 1;
            }
        }
    }
    // comparison of token text with keywords
    for (name, list) in [("is", false), ("in_", true)] {
        let f = match ir.by_name.get(&format!("token::Token::{}", name)) {
            Some(f) if ir.fns[*f].argc == 2 => *f,
            _ => continue,
        };
        let find = |w: &str| names.iter().position(|n| n == w);
        for (tok, arg, w) in [("SELECT", "SELECT", true), ("SELECT", "select", true), ("SELECT", "FROM", false), ("WITH", "WITHIN", false), ("WITHIN", "WITH", false), (";", ";", true), ("(", ")", false)] {
            let i = match find(tok) {
                Some(i) => i,
                None => continue,
            };
            let t = V::Val(Rc::new(token(&m, V::S(Str::Cat(i as u16, false)))));
            let a = if list { V::Words(Rc::new(vec!["#".into(), arg.into()])) } else { V::S(Str::K(arg.into())) };
            let rs = eval(&mut m, f, vec![t, a], &mut out);
            let mut bad = false;
            let mut unk = rs.is_empty();
            for (st, v) in &rs {
                match m.deref(st, v) {
                    V::B(b) => bad |= b != w && !st.imp,
                    _ => unk = true,
                }
                unk |= st.imp;
            }
            if bad {
                out.finds.push(("C07", format!("{}({},{})", name, tok, arg), format!("Token::{} does not compare {} (in any letter case) with {:?} as {}", name, tok, arg, w)));
            } else if unk {
                out.undecided.push((format!("Token::{}({}, {})", name, tok, arg), "-".into()));
            } else {
                out.decided += 1;
            }
        }
    }
    // the node type of a token that stands alone
    if let Some(f) = ir.by_name.get("parser::Parser::construct_node").cloned() {
        out.found.push("Parser::construct_node".into());
        classify(ir, &mut m, f, &kinds, &names, &mut out);
    }
    for f in m.finds.values() {
        if f.prop == "C03" {
            out.finds.push(("C03", f.key.clone(), f.msg.clone()));
        }
    }
    out.fns = m.fns.clone();
    for (k, v) in &m.undecided {
        out.undecided.push((k.clone(), v.clone()));
    }
    out
}

fn eval(m: &mut M, f: usize, args: Vec<V>, out: &mut PredOut) -> Vec<(St, V)> {
    m.seen.clear();
    m.edges.clear();
    m.locs.clear();
    m.nstates = 0;
    m.results.clear();
    m.overflow = false;
    let st = m.init(f, args);
    m.explore(st);
    if m.overflow {
        out.undecided.push((format!("{}: too many states", m.ir.fns[f].name), "-".into()));
        return vec![];
    }
    std::mem::take(&mut m.results)
}

fn classify(ir: &Ir, m: &mut M, f: usize, kinds: &[K], names: &[String], out: &mut PredOut) {
    let nt = match ir.items.iter().find(|i| i.name.ends_with("cst::NodeType") || i.name.ends_with("::NodeType")) {
        Some(i) => i,
        None => return,
    };
    let var = |n: &str| nt.vars.iter().position(|v| v == n);
    let vname = |i: u32| nt.vars.get(i as usize).cloned().unwrap_or_default();
    let unknown = match var("Unknown") {
        Some(u) => u as u32,
        None => return,
    };
    let node = match ir.items.iter().find(|i| i.name.ends_with("cst::Node")) {
        Some(i) => i,
        None => return,
    };
    let fty = match node.fields.iter().position(|f| f.n == "node_type") {
        Some(p) => p,
        None => return,
    };
    let parser = match ir.items.iter().find(|i| i.name == "parser::Parser") {
        Some(i) => i,
        None => return,
    };
    for i in 0..kinds.len() {
        let want: &[&str] = match kinds[i] {
            K::Word | K::Quoted => &["Identifier"],
            K::Num => &["NumericLiteral"],
            K::Str => &["StringLiteral"],
            K::Bool => &["BooleanLiteral"],
            K::Null => &["NullLiteral"],
            K::Param => &["Parameter"],
            K::Template => &["Template"],
            K::Reserved | K::Op | K::ForeignWord => &["Unknown", "Identifier"],
            _ => continue,
        };
        m.head = Some(token(m, V::S(Str::Cat(i as u16, false))));
        let fs: Vec<V> = parser
            .fields
            .iter()
            .map(|f| match ir.tys[f.t].s.as_str() {
                "usize" => V::I(I::K(0)),
                s if s.contains("usize") => V::Words(Rc::new(vec![])),
                _ => V::Toks,
            })
            .collect();
        let p = V::Val(Rc::new(V::Adt(intern("Parser"), 0, Rc::new(fs))));
        let t = V::Adt(intern("NodeType"), unknown, Rc::new(vec![]));
        m.unmod = 0;
        let rs = eval(m, f, vec![p, t], out);
        let lost = m.unmod > 0;
        let mut got = BTreeSet::new();
        let mut sure = BTreeSet::new();
        let mut unk = rs.is_empty();
        for (st, v) in &rs {
            if let V::Adt(_, 0, fs) = m.deref(st, v) {
                let n = m.deref(st, fs.first().unwrap_or(&V::Un));
                if let V::Adt(_, _, nf) = &n {
                    if let Some(V::Adt(_, k, _)) = nf.get(fty).map(|x| m.deref(st, x)) {
                        if st.imp && (lost || !matches!(kinds[i], K::Reserved | K::Op | K::ForeignWord)) {
                            unk = true;
                            continue;
                        }
                        got.insert(vname(k));
                        if kinds[i] == K::Reserved && !st.imp {
                            sure.insert(vname(k));
                        }
                        continue;
                    }
                }
                unk = true;
            }
        }
        if sure.contains("Identifier") {
            out.finds.push(("C13", format!("classify|{}", names[i]), format!("the reserved word {} becomes an identifier, whatever follows it", names[i])));
        }
        let bad: Vec<&String> = got.iter().filter(|g| !want.contains(&g.as_str())).collect();
        if !bad.is_empty() && got.len() > 1 && matches!(kinds[i], K::Bool | K::Null) {
            out.finds.push(("C07", format!("classify|{}", names[i]), format!("the node type of {} depends on its letter case", names[i])));
        }
        if !bad.is_empty() && matches!(kinds[i], K::Word | K::Quoted) {
            out.finds.push(("C13", format!("classify|{}", names[i]), format!("{} can become {:?} instead of an identifier", names[i], bad)));
        }
        if !bad.is_empty() {
            out.finds.push(("C19", format!("classify|{}", names[i]), format!("{} standing alone can become {:?} instead of {:?}", names[i], bad, want)));
        } else if unk {
            out.undecided.push((format!("node type of {}", names[i]), "-".into()));
        } else {
            out.decided += 1;
        }
    }
    m.head = None;
}
