//! The tokenizer, followed character class by character class against the lexical rules.
use crate::ir::Ir;
use crate::mach::*;
use crate::spec;

#[derive(Clone, Default)]
pub struct LexOut {
    pub finds: Vec<Finding>,
    pub undecided: Vec<(String, String)>,
    pub states: usize,
    pub steps: usize,
    pub fns: Vec<String>,
    pub emits: Vec<String>,
    pub panics: Vec<String>,
    pub errs: Vec<String>,
    pub cmps: Vec<String>,
    pub loops: usize,
    pub oks: usize,
    pub missing: Vec<String>,
    pub overflow: bool,
}

pub fn run(ir: &Ir) -> LexOut {
    let mut out = LexOut::default();
    let (new, tok) = match (ir.by_name.get("lexer::Lexer::new"), ir.by_name.get("lexer::Lexer::tokenize_code")) {
        (Some(a), Some(b)) => (*a, *b),
        (a, b) => {
            if a.is_none() {
                out.missing.push("lexer::Lexer::new".into());
            }
            if b.is_none() {
                out.missing.push("lexer::Lexer::tokenize_code".into());
            }
            return out;
        }
    };
    let mut m = M::new(ir, Mode::Lexer);
    // the state in which tokenization starts
    let st = m.init(new, vec![V::S(Str::Text)]);
    m.explore(st);
    let starts: Vec<(St, V)> = std::mem::take(&mut m.results);
    let unc = std::mem::take(&mut m.undecided);
    for (k, v) in unc {
        out.undecided.push((k, v));
    }
    m.root = true;
    if starts.is_empty() {
        out.undecided.push(("Lexer::new does not return".into(), "-".into()));
    }
    for (s0, v) in starts {
        let v = m.deref(&s0, &v);
        let mut st = m.init(tok, vec![v]);
        st.imp = s0.imp;
        if !m.start(&mut st) {
            out.undecided.push(("initial state of the tokenizer".into(), "-".into()));
            continue;
        }
        m.explore(st);
    }
    let results = std::mem::take(&mut m.results);
    for (st, v) in &results {
        let v = m.deref(st, v);
        match v {
            V::Adt(_, 0, _) => {
                out.oks += 1;
                if st.err {
                    m.find(st, "C17", "error-dropped", "tokenization succeeds although an error was raised on the way");
                }
                if st.eofs == 0 {
                    m.find(st, "C15", "no-end-token", "tokenization succeeds without an end-of-file token at the end");
                }
                if st.eofs > 1 {
                    m.find(st, "C15", "two-end-tokens", "tokenization succeeds with more than one end-of-file token");
                }
                if st.spec != spec::BETWEEN {
                    m.find(st, "C05", &format!("lost({})", spec::name(st.spec)), "characters were consumed for which no token was produced");
                } else if st.win[1] != CS::one(EOF) {
                    m.find(st, "C15", "partial", "tokenization succeeds before the end of the input");
                }
            }
            V::Adt(_, 1, fs) => {
                if !matches!(fs.first(), Some(V::Adt(..))) {
                    out.undecided.push(("error value".into(), "-".into()));
                }
            }
            _ => out.undecided.push(("result of tokenize_code".into(), "-".into())),
        }
    }
    // cycles that consume nothing
    for l in m.stuck() {
        let site = l.1.clone();
        m.finds.entry(("C04".into(), l.0.clone())).or_insert(Finding { prop: "C04", key: l.0, site, msg: "this loop can go round without consuming input or stepping a finite iterator".into() });
    }
    out.overflow = m.overflow;
    out.finds = m.finds.values().cloned().collect();
    out.undecided.extend(m.undecided.iter().map(|(k, v)| (k.clone(), v.clone())));
    out.states = m.nstates;
    out.steps = m.steps;
    out.fns = m.fns.iter().cloned().collect();
    out.emits = m.emits.iter().cloned().collect();
    out.panics = m.panics.iter().cloned().collect();
    out.errs = m.errsites.iter().cloned().collect();
    out.cmps = m.cmps.iter().cloned().collect();
    out.loops = m.nloops;
    if std::env::var("BQSA_HIST").is_ok() {
        let mut h: std::collections::BTreeMap<(String, usize), usize> = Default::default();
        for (f, b) in &m.locs {
            *h.entry((ir.fns[*f].name.clone(), *b)).or_default() += 1;
        }
        let mut v: Vec<_> = h.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for x in v.iter().take(30) {
            println!("{:?}", x);
        }
        if let Ok(w) = std::env::var("BQSA_AT") {
            let (f, b) = w.split_once('/').unwrap();
            let mut n = 0;
            for s in m.seen.keys() {
                let t = s.fr.last().unwrap();
                if ir.fns[t.f].name.ends_with(f) && t.b == b.parse::<usize>().unwrap() {
                    n += 1;
                    if n % 97 == 0 {
                        println!("dz{} last{} nc{} imp{} col1{} eofs{} spec{} d{:?} err{} s0 {} win {:?}", s.dz, s.last, s.nc, s.imp, s.col1, s.eofs, spec::name(s.spec), s.d, s.err, s.s0.show(), s.win.iter().map(|x| x.show()).collect::<Vec<_>>());
                        for f in &s.fr {
                            for (i, v) in f.l.iter().enumerate() {
                                if *v != V::Un && i < 400 {
                                    println!("   {} _{} = {:?}", ir.fns[f.f].name, i, v);
                                }
                            }
                        }
                    }
                }
                if n > 900 {
                    break;
                }
            }
        }
    }
    out
}
