//! Command line, evidence files, replay files, known findings.
use crate::*;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Report {
    pub property: String,
    pub tier: String,
    seed: i64,
    t0: Instant,
    stats: Stats,
    scenarios: Vec<Value>,
    all_exhausted: bool,
    replay: Option<(String, Vec<u32>)>,
    replayed: bool,
    assumptions: Vec<String>,
    known_seen: Vec<(String, String, Vec<u32>, String)>,
    deadline: Instant,
    only: Option<String>,
}

static CURRENT: Mutex<Option<(String, String, i64)>> = Mutex::new(None);

fn base_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn write_replay(property: &str, v: &Violation) -> PathBuf {
    let dir = base_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.json", property));
    let j = json!({"property": property, "scenario": v.scenario, "choices": v.choices, "message": v.message, "trace": v.trace,
        "replay_cmd": format!("bash /verif/run.sh {} --replay {}", property, p.display())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

/// called by the watchdog; does not return
pub fn report_hang(scenario: &str, choices: Vec<u32>, secs: u64) {
    let cur = CURRENT.lock().unwrap().clone();
    if let Some((property, tier, seed)) = cur {
        let v = Violation {
            scenario: scenario.to_string(),
            choices,
            message: format!("did not terminate within {} s", secs),
            trace: vec![],
        };
        let p = write_replay(&property, &v);
        write_evidence_raw(&property, &tier, seed, json!({"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": false}), secs as f64, 1, &[]);
        println!("non-termination in scenario {}", scenario);
        println!("VIOLATION property={} replay={}", property, p.display());
    }
    std::process::exit(1);
}

fn write_evidence_raw(property: &str, tier: &str, seed: i64, coverage: Value, wall: f64, violations: u64, assumptions: &[String]) {
    let dir = base_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let j = json!({
        "property": property, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": coverage, "wall_s": wall, "violations": violations, "assumptions": assumptions,
    });
    std::fs::write(dir.join(format!("{}.json", property)), serde_json::to_string_pretty(&j).unwrap()).expect("cannot write evidence");
}

impl Report {
    pub fn new(property: &str) -> Report {
        install_panic_hook();
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { "thorough".to_string() } else { "quick".to_string() };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let args: Vec<String> = std::env::args().collect();
        let mut replay = None;
        let mut only = None;
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            let j: Value = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).expect("replay file")).expect("json");
            let choices = j["choices"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u32).collect();
            replay = Some((j["scenario"].as_str().unwrap().to_string(), choices));
        }
        if let Some(i) = args.iter().position(|a| a == "--only") {
            only = Some(args[i + 1].clone());
        }
        *CURRENT.lock().unwrap() = Some((property.to_string(), tier.clone(), seed));
        let limit = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(if tier == "thorough" { 3600 } else { 420 });
        Report {
            property: property.to_string(),
            tier,
            seed,
            t0: Instant::now(),
            stats: Stats::default(),
            scenarios: vec![],
            all_exhausted: true,
            replay,
            replayed: false,
            assumptions: vec![],
            known_seen: vec![],
            deadline: Instant::now() + Duration::from_secs(limit),
            only,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Explore a scenario exhaustively. `bounds` says in words what is enumerated.
    pub fn scenario<F>(&mut self, name: &str, bounds: &str, case: F)
    where
        F: Fn(&mut Ctx) -> Result<(), String> + Sync,
    {
        self.scenario_with(name, bounds, threads(), case)
    }

    pub fn scenario_with<F>(&mut self, name: &str, bounds: &str, num_threads: usize, case: F)
    where
        F: Fn(&mut Ctx) -> Result<(), String> + Sync,
    {
        if let Some((sc, choices)) = &self.replay {
            if sc == name {
                let (r, trace) = crate::replay(choices, case);
                for t in trace {
                    println!("  {}", t);
                }
                self.replayed = true;
                match r {
                    Ok(()) => println!("replay: property held"),
                    Err(m) => {
                        println!("replay: {}", m);
                        std::process::exit(1);
                    }
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let t = Instant::now();
        let out = explore_with(name, Some(self.deadline), num_threads, case);
        let secs = t.elapsed().as_secs_f64();
        println!(
            "{} {}: executions={} states={} ops_checked={} outcomes={} exhausted={} {:.2}s",
            self.property,
            name,
            out.stats.executions,
            out.stats.states,
            out.stats.transitions,
            out.stats.outcomes.len(),
            out.exhausted,
            secs
        );
        self.scenarios.push(json!({
            "name": name, "bounds": bounds, "executions": out.stats.executions, "states": out.stats.states,
            "operations_checked": out.stats.transitions, "choice_points": out.stats.choice_points,
            "distinct_outcomes": out.stats.outcomes.len(), "counters": out.stats.counters, "exhausted": out.exhausted, "wall_s": secs,
        }));
        self.all_exhausted &= out.exhausted;
        self.stats.merge(out.stats);
        for (key, what, choices) in out.known {
            if !self.known_seen.iter().any(|k| k.0 == key) {
                self.known_seen.push((key, what, choices, name.to_string()));
            }
        }
        if let Some(v) = out.violation {
            self.fail(v);
        }
    }

    fn coverage(&self) -> Value {
        json!({
            "states": self.stats.states,
            "transitions": self.stats.transitions,
            "traces_validated_against_impl": self.stats.executions,
            "samples": self.stats.samples,
            "exhaustive": self.all_exhausted,
            "distinct_outcomes": self.stats.outcomes.len(),
            "counters": self.stats.counters,
            "scenarios": self.scenarios,
            "method": "every execution is a run of the real code; the explorer enumerates all choice sequences of each scenario",
        })
    }

    pub fn fail(&mut self, v: Violation) -> ! {
        println!("scenario {}: {}", v.scenario, v.message);
        for t in v.trace.iter().take(40) {
            println!("  {}", t);
        }
        let p = write_replay(&self.property, &v);
        write_evidence_raw(&self.property, &self.tier, self.seed, self.coverage(), self.t0.elapsed().as_secs_f64(), 1, &self.assumptions);
        println!("VIOLATION property={} replay={}", self.property, p.display());
        std::process::exit(1);
    }

    pub fn finish(mut self) -> ! {
        if self.replay.is_some() {
            if !self.replayed {
                println!("replay: no such scenario");
                std::process::exit(2);
            }
            std::process::exit(0);
        }
        // known findings
        let listed = std::fs::read_to_string(base_dir().join("known_findings.txt")).unwrap_or_default();
        let seen = std::mem::take(&mut self.known_seen);
        let mut unlisted = vec![];
        for (key, what, choices, scenario) in seen {
            let tag = format!("known: property={} key={} ", self.property, key);
            if listed.lines().any(|l| (l.to_string() + " ").starts_with(&tag)) {
                println!("KNOWN-FINDING: property={} {}: {}", self.property, key, what);
            } else {
                println!("not listed: property={} key={} {}", self.property, key, what);
                unlisted.push(Violation { scenario, choices, message: format!("{}: {}", key, what), trace: vec![] });
            }
        }
        if let Some(v) = unlisted.into_iter().next() {
            self.fail(v);
        }
        if self.stats.executions == 0 {
            eprintln!("harness error: nothing was explored");
            std::process::exit(3);
        }
        write_evidence_raw(&self.property, &self.tier, self.seed, self.coverage(), self.t0.elapsed().as_secs_f64(), 0, &self.assumptions);
        println!(
            "{} {} tier: held on {} executions, {} states, {} operations checked, exhaustive within bounds: {}, {:.1}s",
            self.property,
            self.tier,
            self.stats.executions,
            self.stats.states,
            self.stats.transitions,
            self.all_exhausted,
            self.t0.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }
}
