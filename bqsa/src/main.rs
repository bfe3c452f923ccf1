mod alloc;
mod api;
#[global_allocator]
static GLOBAL: alloc::A = alloc::A::new();
mod checks;
mod dom;
mod eff;
mod exec;
mod fx;
mod interp;
mod ir;
mod lay;
mod lex;
mod mach;
mod models;
mod prec;
mod pred;
mod report;
mod seg;
mod spec;
mod strs;
mod ts;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 || a[1] != "check" {
        eprintln!("usage: bqsa check <property> --ir F --src D --known F --evidence F --replay F --tier T --seed N");
        std::process::exit(2);
    }
    let opt = |n: &str| -> Option<String> { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()) };
    let t0 = std::time::Instant::now();
    if a[2] == "preddebug" {
        let ir = ir::load(&opt("--ir").expect("--ir"));
        let o = pred::run(&ir);
        println!("decided {} cats {} words {} fns {:?}", o.decided, o.cats, o.words, o.fns);
        for u in &o.undecided {
            println!("undecided {} @ {}", u.0, u.1);
        }
        for f in &o.finds {
            println!("FIND {} {}: {}", f.0, f.1, f.2);
        }
        println!("{:.2}s", t0.elapsed().as_secs_f64());
        return;
    }
    if a[2] == "precdebug" {
        let ir = ir::load(&opt("--ir").expect("--ir"));
        let o = prec::run(&ir);
        println!("operators {} probes {} levels {} obligations {} missing {:?}", o.operators, o.probes, o.levels, o.obligations, o.missing);
        for u in o.undecided.iter().take(40) {
            println!("undecided {}", u);
        }
        for f in &o.finds {
            println!("FIND {}: {}", f.0, f.1);
        }
        println!("{:.2}s", t0.elapsed().as_secs_f64());
        return;
    }
    if a[2] == "segdebug" {
        let ir = ir::load(&opt("--ir").expect("--ir"));
        let o = seg::run(&ir);
        println!("runs {} obligations {} fns {:?} missing {:?}", o.runs, o.obligations, o.fns, o.missing);
        for u in o.undecided.iter().take(40) {
            println!("undecided {} @ {}", u.0, u.1);
        }
        for f in &o.finds {
            println!("FIND {} {} @ {}: {}", f.prop, f.key, f.site, f.msg);
        }
        println!("{:.2}s", t0.elapsed().as_secs_f64());
        return;
    }
    if a[2] == "lexdebug" {
        let ir = ir::load(&opt("--ir").expect("--ir"));
        let o = lex::run(&ir);
        println!("states {} steps {} oks {} loops {} overflow {}", o.states, o.steps, o.oks, o.loops, o.overflow);
        println!("fns {:?}\nemits {:#?}\npanics {:#?}\nerrs {:#?} cmps {:?}", o.fns, o.emits.len(), o.panics, o.errs, o.cmps);
        for u in o.undecided.iter().take(40) {
            println!("undecided {} @ {}", u.0, u.1);
        }
        for f in &o.finds {
            println!("FIND {} {} @ {}: {}", f.prop, f.key, f.site, f.msg);
        }
        println!("{:.2}s", t0.elapsed().as_secs_f64());
        return;
    }
    let ir = ir::load(&opt("--ir").expect("--ir"));
    let env = checks::Env { ir: &ir, src: opt("--src").unwrap_or("/repo/src".into()), thorough: opt("--tier").as_deref() == Some("thorough") };
    let id = a[2].clone();
    let ids: Vec<String> = if id == "all" { checks::IDS.iter().map(|s| s.to_string()).collect() } else { vec![id] };
    let mut cache = checks::Cache::default();
    let mut rc = 0;
    for id in ids {
        let t1 = std::time::Instant::now();
        let rep = checks::run(&env, &id, &mut cache);
        let first = std::mem::replace(&mut cache.shared_s, 0.0);
        let _ = first;
        let r = report::finish(
            &id,
            rep,
            opt("--known").as_deref(),
            opt("--evidence").map(|p| if a[2] == "all" { format!("{}/{}.json", p, id) } else { p }),
            opt("--replay").map(|p| if a[2] == "all" { format!("{}-{}", p, id) } else { p }),
            if env.thorough { "thorough" } else { "quick" },
            opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            if a[2] == "all" { t1.elapsed().as_secs_f64() } else { t0.elapsed().as_secs_f64() },
        );
        rc = rc.max(r);
    }
    std::process::exit(rc);
}
