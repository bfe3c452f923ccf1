//! One entry per property: which analyses decide it and what they have to cover.
use crate::dom::*;
use crate::interp::*;
use crate::ir::Ir;
use crate::lex::{self, LexOut};
use crate::pred::{self, PredOut};
use crate::report::Report;
use crate::seg::{self, SegOut};
use crate::ts;
use std::rc::Rc;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C22", "C06"];

pub struct Env<'a> {
    pub ir: &'a Ir,
    pub src: String,
    pub thorough: bool,
}
#[derive(Default)]
pub struct Cache {
    pub shared_s: f64,
    pub engine: Option<EngineOut>,
    pub engine_ts: Option<EngineOut>,
    pub lex: Option<Rc<LexOut>>,
    pub pred: Option<Rc<PredOut>>,
    pub seg: Option<Rc<SegOut>>,
    pub api: Option<Rc<crate::api::ApiOut>>,
}
#[derive(Clone)]
pub struct EngineOut {
    pub viols: Vec<Viol>,
    pub stats: Rc<Stats>,
    pub states: u64,
    pub runs: u64,
    pub contexts: usize,
    pub missing: Vec<String>,
    pub decls: usize,
    pub gave_up: Option<String>,
}

struct S;
impl Spec for S {
    fn pred(&self, _n: &str, _l: &str) -> Option<bool> {
        None
    }
}

pub fn engine(env: &Env, with_ts: bool) -> EngineOut {
    let ir = env.ir;
    let mut it = Interp::new(ir, Rc::new(S));
    let mut decls = 0;
    if with_ts {
        let t = ts::parse(&std::fs::read_to_string(format!("{}/types.rs", env.src)).unwrap_or_default());
        decls = t.types.len();
        it.ts = Some(Rc::new(t));
    }
    let mut missing = vec![];
    for a in ["parser::Parser::parse_code", "parser::Parser::next_token", "parser::Parser::get_token", "parser::Parser::construct_node", "parser::Parser::new"] {
        if !ir.by_name.contains_key(a) {
            missing.push(a.to_string());
        }
    }
    let f = match ir.by_name.get("parser::Parser::parse_code") {
        Some(f) => *f,
        None => return EngineOut { viols: vec![], stats: Rc::new(Stats::default()), states: 0, runs: 0, contexts: 0, missing, decls, gave_up: None },
    };
    let r = it.get_ctx(f, vec![V::Ref(Target { base: Base::Cell(0), path: vec![] })], vec![V::Parser], PS::new());
    it.run();
    let (states, runs) = (it.stats.states, it.stats.runs);
    let reach = it.record_from(&[r]);
    if let Some(w) = &it.gave_up {
        // nothing is decided by an unfinished fixpoint, except that what it has reached is reachable:
        // a recursion without progress among it is one
        let w = w.clone();
        it.viols.clear();
        it.check_recursion(None);
        return EngineOut { gave_up: Some(w), viols: it.viols.values().cloned().collect(), stats: Rc::new(Stats::default()), states, runs, contexts: 0, missing, decls };
    }
    it.check_recursion(Some(&reach));
    EngineOut { viols: it.viols.values().cloned().collect(), stats: Rc::new(std::mem::take(&mut it.stats)), states, runs, contexts: reach.len(), missing, decls, gave_up: None }
}

fn engine_part(env: &Env, cache: &mut Cache, id: &str, rep: &mut Report) -> Rc<Stats> {
    let with_ts = id == "C06";
    let slot = if with_ts { &mut cache.engine_ts } else { &mut cache.engine };
    if slot.is_none() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| engine(env, with_ts)));
        *slot = Some(r.unwrap_or_else(|_| EngineOut { gave_up: Some("the analyser failed on this code".into()), viols: vec![], stats: Rc::new(Stats::default()), states: 0, runs: 0, contexts: 0, missing: vec![], decls: 0 }));
    }
    let o = slot.clone().unwrap();
    for m in &o.missing {
        rep.find(&format!("anchor({})", m), "-", "this function of the parser, on which the analysis is anchored, no longer exists");
    }
    for v in &o.viols {
        if v.prop == id {
            let k = v.key.splitn(2, '|').nth(1).unwrap_or(&v.key);
            // a node type is declared once, wherever its nodes are made
            let k = if id == "C06" { k.rsplit('|').next().unwrap_or(k) } else { k };
            rep.find(k, &v.site, &v.msg);
        }
    }
    for (k, s) in &o.stats.undecided {
        rep.undecided.insert(k.clone(), s.clone());
    }
    rep.count("parser_functions_analysed", o.stats.fns.len());
    rep.count("parser_contexts", o.contexts);
    rep.coverage.insert("parser_abstract_states".into(), serde_json::json!(o.states));
    if let Some(w) = &o.gave_up {
        rep.undecided.insert(format!("the whole parser: {}", w), "-".into());
        rep.skip_floors = true;
        return o.stats.clone();
    }
    rep.floor("parser functions", o.stats.fns.len(), 60);
    rep.assume("the MIR written by rustc nightly from /repo's working tree is the program; std collections and iterators behave as documented (modelled, see bqsa/src/models.rs)");
    o.stats.clone()
}

fn lex_part(env: &Env, cache: &mut Cache, id: &str, rep: &mut Report) -> Rc<LexOut> {
    let o = cache.lex.get_or_insert_with(|| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lex::run(env.ir)));
        Rc::new(r.unwrap_or_else(|_| LexOut { undecided: vec![("the analyser failed on this code".into(), "-".into())], overflow: true, ..Default::default() }))
    }).clone();
    for m in &o.missing {
        rep.find(&format!("anchor({})", m), "-", "this function of the tokenizer, on which the analysis is anchored, no longer exists");
    }
    for f in &o.finds {
        if f.prop == id {
            rep.find(&format!("lexer|{}", f.key), &f.site, &f.msg);
        }
    }
    for (k, s) in &o.undecided {
        rep.undecided.insert(format!("lexer: {}", k), s.clone());
    }
    if o.overflow {
        rep.skip_floors = true;
        rep.undecided.insert("lexer: more abstract states than allowed; the rest was not explored".into(), "-".into());
    }
    rep.count("lexer_functions_analysed", o.fns.len());
    rep.count("lexer_abstract_states", o.states);
    rep.count("lexer_successful_ends", o.oks);
    rep.assume("characters are treated as 128 ASCII classes, non-ASCII letters, non-ASCII white space and other characters; the lexical rules are those of bqsa/src/spec.rs");
    o
}
fn pred_part(env: &Env, cache: &mut Cache, id: &str, rep: &mut Report) -> Rc<PredOut> {
    let o = cache.pred.get_or_insert_with(|| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pred::run(env.ir)));
        Rc::new(r.unwrap_or_else(|_| PredOut { failed: true, undecided: vec![("the analyser failed on this code".into(), "-".into())], ..Default::default() }))
    }).clone();
    for f in &o.finds {
        if f.0 == id {
            rep.find(&f.1, "src/token.rs / src/parser.rs construct_node", &f.2);
        }
    }
    for (k, s) in &o.undecided {
        rep.undecided.insert(format!("predicates: {}", k), s.clone());
    }
    if o.failed {
        rep.skip_floors = true;
    }
    rep.count("categories_decided", o.decided);
    rep.count("lexical_categories", o.cats);
    rep.list("predicates", o.found.iter().cloned());
    o
}
/// the primitives of the parser over an abstract token list
fn seg_part(env: &Env, cache: &mut Cache, id: &str, rep: &mut Report) -> Rc<SegOut> {
    let o = cache.seg.get_or_insert_with(|| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| seg::run(env.ir)));
        Rc::new(r.unwrap_or_else(|_| SegOut { failed: true, undecided: vec![("the analyser failed on this code".into(), "-".into())], ..Default::default() }))
    }).clone();
    for m in &o.missing {
        rep.find(&format!("anchor({})", m), "-", "this function of the parser, on which the analysis is anchored, no longer exists");
    }
    for f in &o.finds {
        if f.prop == id {
            rep.find(&format!("primitive|{}", f.key), &f.site, &f.msg);
        }
    }
    for (k, s) in &o.undecided {
        rep.undecided.insert(format!("primitives: {}", k), s.clone());
    }
    if o.failed {
        rep.skip_floors = true;
    }
    rep.count("primitive_obligations", o.obligations);
    rep.count("primitive_functions", o.fns.len());
    rep.assume("the token list is not empty, its last token is no comment, and the lines of its tokens never decrease (decided by C05 and C15)");
    o
}

/// the exported functions
fn api_part(env: &Env, cache: &mut Cache, id: &str, rep: &mut Report) {
    let o = cache.api.get_or_insert_with(|| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::api::run(env.ir)));
        Rc::new(r.unwrap_or_else(|_| {
            let mut o = crate::api::ApiOut { paths: 99, ..Default::default() };
            o.undecided.insert("the analyser failed on this code".into(), "-".into());
            o
        }))
    }).clone();
    for m in &o.missing {
        rep.find(&format!("anchor({})", m), "-", "this exported function or implementation, on which the analysis is anchored, no longer exists");
    }
    for ((p, k), (s, m)) in &o.finds {
        if p == id {
            rep.find(&format!("api|{}", k), s, m);
        }
    }
    for (k, s) in &o.undecided {
        rep.undecided.insert(format!("exported functions: {}", k), s.clone());
    }
    rep.count("exported_function_paths", o.paths);
    rep.list("exported_functions_and_helpers", o.fns.iter().cloned());
    rep.list("serialized_fields", o.fields.iter().cloned());
    rep.count("serialized_variants", o.variants);
    if o.undecided.is_empty() {
        rep.floor("paths of the exported functions", o.paths, 2);
    }
}

pub fn run(env: &Env, id: &str, cache: &mut Cache) -> Report {
    let mut rep = Report::default();
    match id {
        "C01" => {
            let s = engine_part(env, cache, id, &mut rep);
            rep.rule("typestate over all paths: when the cursor moves past a token exactly one live node represents it, no such node is dropped, duplicated, overwritten in a child map or linked twice before success is returned");
            rep.list("claim_sites", s.claims.iter().cloned());
            rep.list("advance_sites", s.advances.iter().cloned());
            rep.list("link_sites", s.links.iter().cloned());
            rep.list("drop_sites", s.drops.iter().cloned());
            rep.floor("advance sites", s.advances.len(), 100);
            rep.floor("link sites", s.links.len(), 1);
            let _ = seg_part(env, cache, id, &mut rep);
            rep.rule("Parser::new, next_token, get_token and construct_node stop at, reach and represent each non-comment token in turn, for every arrangement of comments");
        }
        "C02" => {
            let _ = engine_part(env, cache, id, &mut rep);
            let g = seg_part(env, cache, id, &mut rep);
            rep.floor("obligations on the primitives", g.obligations, 30);
            rep.rule("over every arrangement of tokens, comments and line breaks, Parser::new and next_token list as leading exactly the comments between the trailing comments of the previous token and the current one, as trailing exactly the unbroken run behind it on its line, in order; construct_node attaches exactly these lists");
            rep.rule("every node that represents a token and is put into the tree was built together with the comments of that token, and no comment list is overwritten");
        }
        "C03" => {
            let s = engine_part(env, cache, id, &mut rep);
            api_part(env, cache, id, &mut rep);
            rep.rule("every panic site reachable from parse is shown unreachable or safe by the token facts on every path");
            rep.list("panic_sites_discharged_parser", s.panics.iter().cloned());
            let l = lex_part(env, cache, id, &mut rep);
            rep.list("panic_sites_discharged_lexer", l.panics.iter().cloned());
            let _ = seg_part(env, cache, id, &mut rep);
            let _ = pred_part(env, cache, id, &mut rep);
            let o = crate::strs::run(env.ir);
            for (k, (s, m)) in &o.finds {
                rep.find(k, s, m);
            }
            rep.list("cuts_of_text_at_byte_offsets", o.sites.iter().cloned());
            rep.list("unwrapped_conversions", o.conv.iter().cloned());
            rep.rule("no conversion of text or numbers that can fail on some input is unwrapped");
            rep.rule("text is cut at byte offsets only at its ends or behind a test of the text itself");
        }
        "C04" => {
            let s = engine_part(env, cache, id, &mut rep);
            rep.rule("every cycle of the abstract state graph of every function consumes input, steps a finite iterator, or looks further ahead; every recursion cycle consumes input before it closes");
            rep.list("loops", s.loops.iter().cloned());
            let l = lex_part(env, cache, id, &mut rep);
            rep.count("lexer_loops", l.loops);
            let _ = seg_part(env, cache, id, &mut rep);
        }
        "C05" | "C18" => {
            let l = lex_part(env, cache, id, &mut rep);
            if id == "C05" {
                rep.rule("on every path of the tokenizer, every token pushed carries the characters between its first and its last character, and the line and column at its first character; only white space is consumed between tokens; the end-of-file token comes last and once");
            } else {
                rep.rule("on every path of the tokenizer the characters consumed for a token drive the lexical automaton of GoogleSQL (bqsa/src/spec.rs); a token is pushed only in a state, and before a character, where the rules end it, and is refused only where they allow it");
            }
            rep.list("token_creations", l.emits.iter().cloned());
            rep.list("error_sites_lexer", l.errs.iter().cloned());
            rep.floor("token creations", l.emits.len(), 1);
            rep.floor("abstract states of the tokenizer", l.states, 200);
        }
        "C13" | "C19" => {
            let p = pred_part(env, cache, id, &mut rep);
            if id == "C13" {
                rep.rule("is_identifier, is_reserved_keyword and the choice of node type in construct_node are evaluated on the automaton of each lexical category and on each of the 96 reserved words in any letter case");
                rep.count("reserved_words", p.words);
            } else {
                rep.rule("the predicates on tokens and the choice of node type in construct_node are evaluated on the automaton of each lexical category");
            }
            rep.floor("category decisions", p.decided, 5);
        }
        "C06" => {
            let _ = engine_part(env, cache, id, &mut rep);
            rep.rule("every node put into a tree has a published type, and its children are published for it in that form");
        }
        "C07" => {
            let s = engine_part(env, cache, id, &mut rep);
            rep.rule("every comparison of token text with a keyword is made on case-folded text");
            rep.list("text_comparisons", s.cmps.iter().cloned());
            let l = lex_part(env, cache, id, &mut rep);
            rep.list("text_comparisons_lexer", l.cmps.iter().cloned());
            let _ = pred_part(env, cache, id, &mut rep);
        }
        "C09" => {
            let _ = engine_part(env, cache, id, &mut rep);
            rep.rule("no decision of the parser depends on a token fetched without skipping comments");
 
            let _ = lex_part(env, cache, id, &mut rep);
            let _ = pred_part(env, cache, id, &mut rep);
            let _ = seg_part(env, cache, id, &mut rep);
            rep.rule("looking k tokens ahead (k up to 6) yields the k-th non-comment token for every arrangement of comments, and fails only if there is none");
        }
        "C08" => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::lay::run(env.ir)));
            let o = r.unwrap_or_else(|_| {
                let mut o = crate::lay::LayOut::default();
                o.undecided.insert("the analyser failed on this code".into(), "-".into());
                rep.skip_floors = true;
                o
            });
            for (k, (s, m)) in &o.finds {
                rep.find(&format!("layout|{}", k), s, m);
            }
            for (k, s) in &o.undecided {
                rep.undecided.insert(k.clone(), s.clone());
            }
            rep.list("functions_that_read_token_positions", o.reads.iter().cloned());
            rep.list("functions_followed_under_all_layouts", o.fns.iter().cloned());
            rep.list("cursor_primitives", o.exempt.iter().cloned());
            rep.count("lockstep_states", o.states);
            rep.count("layout_runs", o.layouts);
            rep.count("tokenizer_functions", o.lexer_fns);
            rep.count("tokenizer_position_reads", o.lexer_reads);
            rep.floor("tokenizer functions", o.lexer_fns, 4);
            rep.floor("functions that read token positions", o.reads.len(), 1);
            rep.rule("every function of the parser that reads a line or column is followed in lockstep under layouts that agree on which neighbouring tokens touch: they must reach the same calls and returns");
            rep.rule("no decision of the tokenizer depends on a line or column");
            let _ = lex_part(env, cache, id, &mut rep);
            let _ = seg_part(env, cache, id, &mut rep);
        }
        "C22" => {
            api_part(env, cache, id, &mut rep);
            rep.rule("on every path of parse and tokenize the tokenizer is given the text of the caller, the parser the tokens of the tokenizer, and the caller the statements, the tokens or the error, serialized in the JSON compatible form and otherwise unchanged");
            rep.rule("the Serialize implementations write every published field under its name and with its own value on every path, and every variant under its name");
            rep.assume("serde and serde-wasm-bindgen write what they are given; plain data never fails to serialize");
        }
        "C10" => {
            let o = crate::eff::run(env.ir);
            for m in &o.missing {
                rep.find(&format!("anchor({})", m), "-", "this exported function, on which the analysis is anchored, no longer exists");
            }
            for (k, (s, m)) in &o.finds {
                rep.find(k, s, m);
            }
            rep.count("functions_reachable_from_parse_and_tokenize", o.fns);
            rep.count("function_references_classified", o.calls);
            rep.list("external_functions", o.ext.iter().cloned());
            rep.count("uses_of_statics", o.statics);
            rep.count("iterations_over_hash_collections", o.hash_iters);
            rep.floor("functions reachable from parse and tokenize", o.fns, 80);
            rep.rule("nothing reachable from parse or tokenize touches a static whose value can change, a thread-local, the environment, clock, files, console, network, processes, threads, randomness, addresses or functions imported from JavaScript");
            rep.rule("taint: data taken from a HashMap or HashSet in iteration order reaches neither a result nor a stored value (order-independent uses and sorted copies excepted)");
            rep.assume("the order of the keys of one children object is not part of the result; wasm-bindgen, serde, serde-wasm-bindgen and the panic hook are trusted");
        }
        "C11" => {
            let s = engine_part(env, cache, id, &mut rep);
            api_part(env, cache, id, &mut rep);
            rep.rule("every error value takes line and column from one token of the input and has a message");
            rep.list("error_sites", s.errs.iter().cloned());
            rep.floor("error sites", s.errs.len(), 1);
            let l = lex_part(env, cache, id, &mut rep);
            rep.list("error_sites_lexer", l.errs.iter().cloned());
            let o = crate::strs::run(env.ir);
            for (k, (s, m)) in &o.mute {
                rep.find(k, s, m);
            }
        }
        "C12" => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::prec::run(env.ir)));
            let o = r.unwrap_or_else(|_| crate::prec::PrecOut { undecided: vec!["the analyser failed on this code".into()], ..Default::default() });
            for m in &o.missing {
                rep.find(&format!("anchor({})", m), "-", "this function of the parser, on which the analysis is anchored, no longer exists");
            }
            for (k, m) in &o.finds {
                rep.find(k, &o.site, m);
            }
            for u in &o.undecided {
                rep.undecided.insert(u.clone(), "-".into());
            }
            rep.count("operators", o.operators);
            rep.count("probes", o.probes);
            rep.count("operand_call_kinds", o.levels);
            rep.count("obligations", o.obligations);
            if o.undecided.is_empty() {
                rep.floor("obligations on pairs of operators", o.obligations, 1000);
            }
            rep.rule("for every pair of operators: the call that parses the operand behind the first continues over the second exactly if the second binds tighter; a plain expression continues over every operator; the node made for an operator is of its type");
            rep.assume("the expression parser is summarised by the abstract interpreter with everything behind the probe unknown; the precedence table is the one published for GoogleSQL");
        }
        "C14" => {
            let s = engine_part(env, cache, id, &mut rep);
            rep.rule("no node stored as a single child of another node can carry a semicolon child");
            rep.list("link_sites", s.links.iter().cloned());
        }
        "C15" => {
            let s = engine_part(env, cache, id, &mut rep);
            api_part(env, cache, id, &mut rep);
            rep.rule("success of the parser implies that the current token is the end of the input");
            rep.list("success_returns", s.okrets.iter().cloned());
            let _ = lex_part(env, cache, id, &mut rep);
            let _ = seg_part(env, cache, id, &mut rep);
        }
        "C16" => {
            let s = engine_part(env, cache, id, &mut rep);
            rep.rule("after a failed attempt nothing is parsed before every cursor field has been restored from a copy of the same state");
            rep.list("failing_calls", s.errcalls.iter().cloned());
        }
        "C17" => {
            let s = engine_part(env, cache, id, &mut rep);
            api_part(env, cache, id, &mut rep);
            rep.rule("no path on which a sub-parser failed reaches a success return without a complete restore");
            rep.list("failing_calls", s.errcalls.iter().cloned());
            rep.list("success_returns", s.okrets.iter().cloned());
            let _ = lex_part(env, cache, id, &mut rep);
        }
        _ => {
            rep.find("unknown-property", "-", "no such property");
        }
    }
    rep
}
