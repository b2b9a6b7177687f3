//! Evidence, violations, replay files, known findings.
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::time::Instant;

/// where evidence and known-findings.txt are
pub fn verif() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    /// distinct cases counted outside this process (enumerations)
    pub distinct_extra: u64,
    pub classes: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<J>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub violations: Vec<(String, J)>,
    pub exhaustive: Option<bool>,
    pub extra: BTreeMap<String, J>,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Report {
    pub fn new(prop: &str, tier: &str, seed: u64) -> Self {
        Report {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            distinct_extra: 0,
            classes: BTreeMap::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            rule: String::new(),
            assumptions: vec![],
            violations: vec![],
            exhaustive: None,
            extra: BTreeMap::new(),
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_default() += n;
    }
    pub fn class(&mut self, k: &str) {
        *self.classes.entry(k.into()).or_default() += 1;
    }
    pub fn sample(&mut self, v: J) {
        if self.samples.len() < 8 {
            self.samples.push(v);
        }
    }
    pub fn violation(&mut self, msg: &str, detail: J) {
        let msg: String = msg.chars().take(4000).collect();
        self.violations.push((msg, detail));
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Writes the evidence and replay files, prints the verdict; returns the exit code.
    pub fn finish(self) -> i32 {
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len() as u64 + self.distinct_extra));
        cov.insert("rule".into(), json!(self.rule));
        let mut samples = self.samples.clone();
        let clip = |s: &mut J| clip_json(s, 1500);
        samples.iter_mut().for_each(clip);
        cov.insert("samples".into(), J::Array(samples));
        cov.insert("classes".into(), json!(self.classes));
        cov.insert("counters".into(), json!(self.counters));
        if let Some(e) = self.exhaustive {
            cov.insert("exhaustive".into(), json!(e));
        }
        for (k, v) in &self.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": J::Object(cov), "assumptions": self.assumptions,
            "wall_s": self.elapsed(), "violations": self.violations.len(),
        });
        let dir = format!("{}/evidence", verif());
        let _ = std::fs::create_dir_all(&dir);
        let mut txt = serde_json::to_string_pretty(&ev).unwrap();
        if txt.len() > 60_000 {
            let mut ev2 = ev.clone();
            ev2["coverage"]["samples"] = json!([self.samples.first().map(|s| {
                let mut s = s.clone();
                clip_json(&mut s, 400);
                s
            })]);
            txt = serde_json::to_string_pretty(&ev2).unwrap();
        }
        std::fs::write(format!("{}/{}.json", dir, self.prop), txt).unwrap();
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1} s",
            self.prop,
            self.evaluations,
            self.distinct.len() as u64 + self.distinct_extra,
            self.violations.len(),
            self.elapsed()
        );
        for (i, (msg, detail)) in self.violations.iter().enumerate() {
            let rd = format!("{}/evidence/replay", verif());
            let _ = std::fs::create_dir_all(&rd);
            let path = format!("{}/{}-{}-{}.json", rd, self.prop, self.seed, i);
            let body = json!({"property": self.prop, "seed": self.seed, "message": msg, "case": detail});
            std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
            println!("  {}", msg);
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        if !self.violations.is_empty() {
            return 1;
        }
        if self.evaluations == 0 || self.distinct.is_empty() && self.distinct_extra == 0 {
            eprintln!("error: nothing was explored");
            return 2;
        }
        0
    }
}

fn clip_json(v: &mut J, n: usize) {
    match v {
        J::String(s) => {
            if s.len() > n {
                let mut e = n;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                *s = format!("{}... ({} bytes)", &s[..e], s.len());
            }
        }
        J::Array(a) => a.iter_mut().for_each(|x| clip_json(x, n)),
        J::Object(o) => o.values_mut().for_each(|x| clip_json(x, n)),
        _ => {}
    }
}

/// Entries of the committed known-findings file: "known: property=<id> id=<id> <what fails>".
pub fn known(prop: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(format!("{}/known-findings.txt", verif())).unwrap_or_default();
    txt.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let id = it.next()?.strip_prefix("id=")?;
            let what = it.next().unwrap_or("");
            if p == prop {
                Some((id.to_string(), what.to_string()))
            } else {
                None
            }
        })
        .collect()
}
