//! Turning what an analysis found into evidence, known-finding lines and VIOLATION lines.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Finding {
    pub key: String, // stable name of the construct: no line numbers
    pub site: String,
    pub msg: String,
}
#[derive(Default)]
pub struct Report {
    pub findings: BTreeMap<String, Finding>,
    pub coverage: Map<String, Value>,
    pub rules: Vec<String>,
    pub assumptions: Vec<String>,
    pub undecided: BTreeMap<String, String>,
    pub skip_floors: bool,
}
impl Report {
    pub fn find(&mut self, key: &str, site: &str, msg: &str) {
        self.findings.entry(key.to_string()).or_insert(Finding { key: key.to_string(), site: site.to_string(), msg: msg.to_string() });
    }
    pub fn count(&mut self, k: &str, n: usize) {
        self.coverage.insert(k.to_string(), json!(n));
    }
    pub fn list<I: IntoIterator<Item = String>>(&mut self, k: &str, it: I) {
        let v: Vec<String> = it.into_iter().collect();
        self.coverage.insert(k.to_string(), json!(v.len()));
        self.coverage.insert(format!("{}_samples", k), json!(v.iter().take(12).collect::<Vec<_>>()));
    }
    /// fewer constructs than a person counted: the analysis has lost its subject
    pub fn floor(&mut self, what: &str, n: usize, min: usize) {
        if n < min && !self.skip_floors {
            self.find(&format!("coverage({})", what), "-", &format!("only {} {} found, at least {} expected: the code the property is about cannot be located", n, what, min));
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }
    pub fn assume(&mut self, s: &str) {
        if !self.assumptions.iter().any(|x| x == s) {
            self.assumptions.push(s.to_string());
        }
    }
}

/// `known: property=<id> key=<key> :: <text>`
fn known(path: Option<&str>, id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Some(t) = path.and_then(|p| std::fs::read_to_string(p).ok()) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((p, r)) = r.split_once(" key=") {
                    if p == id {
                        let (k, d) = r.split_once(" :: ").unwrap_or((r, ""));
                        m.insert(k.trim().to_string(), d.trim().to_string());
                    }
                }
            }
        }
    }
    m
}

pub fn finish(id: &str, rep: Report, known_path: Option<&str>, evidence: Option<String>, replay: Option<String>, tier: &str, seed: i64, wall: f64) -> i32 {
    let kn = known(known_path, id);
    let mut bad = vec![];
    let mut old = vec![];
    for f in rep.findings.values() {
        if let Some(d) = kn.get(&f.key) {
            old.push((f.clone(), d.clone()));
        } else {
            bad.push(f.clone());
        }
    }
    for (f, d) in &old {
        println!("KNOWN-FINDING: property={} {} {}", id, f.key, d);
    }
    let mut cov = rep.coverage.clone();
    let expl = format!(
        "Static analysis of the type-checked program (rustc MIR of /repo's working tree). Rules applied: {}. Violations: {}; known findings met: {}; program points left undecided: {}.",
        rep.rules.join("; "),
        bad.len(),
        old.len(),
        rep.undecided.len()
    );
    cov.insert("explanation".into(), json!(expl));
    cov.insert("undecided".into(), json!(rep.undecided.iter().take(20).map(|(k, s)| format!("{} @ {}", k, s)).collect::<Vec<_>>()));
    if !bad.is_empty() {
        cov.insert("violation_list".into(), json!(bad.iter().take(50).map(|f| format!("{} @ {}: {}", f.key, f.site, f.msg)).collect::<Vec<_>>()));
    }
    if let Some(p) = &evidence {
        let e = json!({
            "property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
            "assumptions": rep.assumptions, "wall_s": wall, "violations": bad.len(),
        });
        let _ = std::fs::write(p, serde_json::to_string_pretty(&e).unwrap() + "\n");
    }
    if bad.is_empty() {
        println!("property {} holds on everything analysed ({} undecided points, {:.1} s)", id, rep.undecided.len(), wall);
        return 0;
    }
    let rp = replay.unwrap_or("-".into());
    if rp != "-" {
        let t: String = bad.iter().map(|f| format!("property {}\nconstruct {}\nat {}\n{}\n\n", id, f.key, f.site, f.msg)).collect();
        let _ = std::fs::write(&rp, t);
    }
    for f in bad.iter().take(25) {
        println!("VIOLATION property={} replay={} {} @ {}: {}", id, rp, f.key, f.site, f.msg);
    }
    if bad.len() > 25 {
        println!("... and {} more", bad.len() - 25);
    }
    1
}
