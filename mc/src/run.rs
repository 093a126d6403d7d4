//! Command line: run one property's scenarios, or replay one execution.
use crate::ex::*;
use crate::s_reply::Tier;
use serde_json::json;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub scns: fn(Tier) -> Vec<Scn>,
}

pub const VARIANT: &str = if cfg!(feature = "full") { "full" } else { "bare" };

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", scns: crate::s_reply::c01 },
        Prop { id: "C02", scns: crate::s_reply::c02 },
        Prop { id: "C03", scns: crate::s_event::c03 },
        Prop { id: "C04", scns: crate::s_event::c04 },
        Prop { id: "C05", scns: crate::s_event::c05 },
        Prop { id: "C06", scns: crate::s_reply::c06 },
        Prop { id: "C07", scns: crate::s_life::c07 },
        Prop { id: "C08", scns: crate::s_codec::c08 },
        Prop { id: "C09", scns: crate::s_codec::c09 },
        Prop { id: "C10", scns: crate::s_codec::c10 },
        #[cfg(feature = "full")]
        Prop { id: "C11", scns: crate::s_enc::c11 },
        #[cfg(feature = "full")]
        Prop { id: "C12", scns: crate::s_enc::c12 },
        #[cfg(feature = "full")]
        Prop { id: "C13", scns: crate::s_enc::c13 },
        #[cfg(feature = "full")]
        Prop { id: "C14", scns: crate::s_enc::c14 },
        Prop { id: "C15", scns: crate::s_conn::c15 },
        Prop { id: "C17", scns: crate::s_fault::c17 },
        Prop { id: "C18", scns: crate::s_conn::c18 },
        Prop { id: "C19", scns: crate::s_conn::c19 },
        Prop { id: "C20", scns: crate::s_fault::c20 },
        Prop { id: "C21", scns: crate::s_fault::c21 },
        Prop { id: "C22", scns: crate::s_conn::c22 },
        Prop { id: "C23", scns: crate::s_real::c23 },
    ]
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("replay") => replay(&a),
        Some("list") => {
            for p in props() {
                for th in [false, true] {
                    println!("{} thorough={th}: {} scenarios", p.id, (p.scns)(Tier { thorough: th }).len());
                }
            }
            0
        }
        _ => {
            eprintln!("usage: bmc run <property> <quick|thorough> [--out f] [--known k1,k2] [--flight f] [--replays dir] [--only substr] [--threads n]\n       bmc replay <file>");
            2
        }
    }
}

fn run(a: &[String]) -> i32 {
    let id = a[2].as_str();
    let thorough = a[3] == "thorough";
    let t0 = Instant::now();
    let props = props();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let mut scns = (p.scns)(Tier { thorough });
    if !thorough {
        // the quick tier explores every declared bound completely
        for s in &mut scns {
            if s.depth > 0 && s.cap > 1 {
                s.cap = u64::MAX;
            }
        }
    }
    if let Some(c) = arg(a, "--cap").and_then(|c| c.parse().ok()) {
        for s in &mut scns {
            s.cap = c;
        }
    }
    if let Some(o) = arg(a, "--only") {
        scns.retain(|s| s.id.contains(&o));
    }
    {
        let mut ids = std::collections::HashSet::new();
        for s in &scns {
            assert!(ids.insert(s.id.clone()), "duplicate scenario {}", s.id);
        }
    }
    if let Some(f) = arg(a, "--flight") {
        let _ = std::fs::remove_file(&f);
        let _ = FLIGHT.set(Flight::open(&f));
    }
    let known: Vec<String> = arg(a, "--known").map(|k| k.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()).unwrap_or_default();
    let budget: u64 = arg(a, "--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 400 });
    let opts = Opts {
        threads: arg(a, "--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
        deadline: t0 + Duration::from_secs(budget),
        known,
        stop_at: arg(a, "--stop").and_then(|s| s.parse().ok()).unwrap_or(3),
    };
    let st = explore(&scns, &opts);
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let dir = arg(a, "--replays").unwrap_or_else(|| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    for (i, f) in st.found.iter().enumerate() {
        let path = format!("{dir}/{id}-{VARIANT}-{i}.json");
        let scn = scns.iter().find(|s| s.id == f.scn).unwrap();
        let mut again = run_exec(scn, &f.devs, true);
        if again.res.is_ok() {
            again.res = match again.findings.iter().find(|b| b.key == f.bad.key) {
                Some(b) => Err(b.clone()),
                None => Ok(()),
            };
        }
        let j = json!({
            "property": id, "variant": VARIANT, "tier": a[3], "scenario": f.scn,
            "deviations": f.devs, "choices": show_taken(&f.taken), "key": f.bad.key, "what": f.bad.msg,
            "observed": again.obs, "reproduced": again.res.is_err(),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("  {} [{}] {}", f.scn, f.bad.key, f.bad.msg.chars().take(600).collect::<String>());
        println!("  choices: {:?}; reproduced on replay: {}", show_taken(&f.taken), again.res.is_err());
        println!("VIOLATION property={id} replay={path}");
        code = 1;
    }
    for (k, (n, m)) in &st.known {
        println!("  known finding {k}: seen in {n} executions; e.g. {}", m.chars().take(300).collect::<String>());
        println!("KNOWNKEY {k}");
    }
    let complete = st.per.values().filter(|p| p.complete_level >= p.wanted as i64).count();
    let partial: Vec<_> = st
        .per
        .iter()
        .filter(|(_, p)| p.complete_level < p.wanted as i64)
        .map(|(k, p)| {
            let part = p.partial.map(|(l, n, t)| format!("level {l}: {n} of {t}")).unwrap_or_default();
            format!("{k}: complete to {} of {} deviations, {} executions; {part}", p.complete_level, p.wanted, p.execs)
        })
        .collect();
    println!(
        "{id} {VARIANT}: {} scenarios, {} executions, {} steps, {} distinct states, {} distinct outcomes, {} input cases, longest {} choice points, {} complete to their bound, {} partial, {:.1}s",
        scns.len(), st.execs, st.steps, st.states.len(), st.outcomes.len(), st.evals, st.longest, complete, partial.len(), wall
    );
    if a.iter().any(|x| x == "-v") {
        for (k, s) in &st.per {
            println!("   {k}: execs {} points {} level {}/{} {:?}", s.execs, s.choice_points, s.complete_level, s.wanted, s.partial);
        }
    }
    if st.diverged > 0 {
        println!("  note: {} executions diverged from their recorded choices", st.diverged);
    }
    if let Some(o) = arg(a, "--out") {
        let mut by_level = std::collections::BTreeMap::new();
        for p in st.per.values() {
            *by_level.entry(format!("complete_to_{}_deviations", p.complete_level)).or_insert(0u64) += 1;
        }
        let j = json!({
            "variant": VARIANT, "scenarios": scns.len(), "executions": st.execs, "steps": st.steps,
            "states": st.states.len(), "outcomes": st.outcomes.len(), "evals": st.evals,
            "longest_choice_sequence": st.longest, "scenarios_by_level": by_level,
            "partial": partial.iter().take(40).collect::<Vec<_>>(), "partial_count": partial.len(),
            "diverged": st.diverged, "cut": st.cut, "violations": st.found.len(),
            "samples": st.samples, "wall_s": wall, "known": st.known.keys().collect::<Vec<_>>(),
        });
        std::fs::write(o, serde_json::to_string(&j).unwrap()).unwrap();
    }
    code
}

fn replay(a: &[String]) -> i32 {
    let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
    let id = j["property"].as_str().unwrap();
    let sid = j["scenario"].as_str().unwrap();
    if j["variant"].as_str() != Some(VARIANT) {
        eprintln!("this replay belongs to the {} build", j["variant"]);
        return 2;
    }
    let devs: Vec<Dev> = j["deviations"].as_array().unwrap().iter().map(|d| (d[0].as_u64().unwrap() as u32, d[1].as_u64().unwrap() as u16)).collect();
    for th in [false, true] {
        for p in props().iter().filter(|p| p.id == id) {
            for s in (p.scns)(Tier { thorough: th }) {
                if s.id == sid {
                    let e = run_exec(&s, &devs, true);
                    println!("scenario {sid}\nchoices {:?}", show_taken(&e.taken));
                    for o in &e.obs {
                        println!("  {o}");
                    }
                    println!("result {:?} {:?}", e.res, e.findings);
                    let again = e.findings.iter().any(|b| Some(b.key.as_str()) == j["key"].as_str());
                    return if e.res.is_err() || again { 1 } else { 0 };
                }
            }
        }
    }
    eprintln!("scenario not found");
    2
}
