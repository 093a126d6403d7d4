//! Exploration of thread schedules: bthr run <property> <quick|thorough> | replay <file>
mod ex;
#[path = "../../mc/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../mc/src/net.rs"]
#[allow(dead_code)]
mod net;
mod s_conv;
mod s_ids;
mod s_par;
use ex::*;
use serde_json::json;
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Tier {
    pub thorough: bool,
}
impl Tier {
    pub fn p<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }
}
fn scns(id: &str, t: Tier) -> Option<Vec<Scn>> {
    Some(match id {
        "C01" => s_conv::c01(t),
        "C02" => s_conv::c02(t),
        "C03" => s_conv::c03(t),
        "C06" => s_conv::c06(t),
        "C15" => s_conv::c15(t),
        "C21" => s_conv::c21(t),
        "C18" => s_conv::c18(t),
        "C20" => s_conv::c20(t),
        "C16" => s_ids::c16(t),
        "C17" => s_par::c17(t),
        _ => return None,
    })
}
fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    std::process::exit(match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("replay") => replay(&a),
        _ => 2,
    })
}
fn run(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = a[2].as_str();
    let thorough = a[3] == "thorough";
    let Some(mut s) = scns(id, Tier { thorough }) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    if let Some(o) = arg(a, "--only") {
        s.retain(|s| s.id.contains(&o));
    }
    let budget = arg(a, "--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 300 });
    let workers = arg(a, "--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let st = explore(&s, workers, Duration::from_secs(budget));
    let dir = arg(a, "--replays").unwrap_or_else(|| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let mut n = 0;
    let slot = Slot::new();
    for (scn, x) in &st {
        for (devs, key, msg) in &x.found {
            if n >= 4 {
                break;
            }
            let s = s.iter().find(|s| s.id == *scn).unwrap();
            let e = slot.exec(s, devs);
            let path = format!("{dir}/{id}-thr-{n}.json");
            let shown: Vec<String> = devs.iter().map(|d| e.points.get(d.0 as usize).map_or(format!("@{}", d.0), |p| format!("@{} thread {} {} -> option {}", d.0, p.tid, ["atomic", "clock", "yield", "futex", "block", "choice"][p.kind as usize], d.1))).collect();
            let j = json!({"property": id, "variant": "thr", "tier": a[3], "scenario": scn, "deviations": devs, "choices": shown, "key": key, "what": msg, "observed": e.obs.lines().collect::<Vec<_>>(), "reproduced": e.res.is_err()});
            std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            println!("  {scn} [{key}] {}", msg.chars().take(600).collect::<String>());
            println!("  schedule: {shown:?}; reproduced on replay: {}", e.res.is_err());
            println!("VIOLATION property={id} replay={path}");
            n += 1;
        }
    }
    let sum = |f: fn(&Stat) -> u64| st.values().map(f).sum::<u64>();
    let partial: Vec<_> = st
        .values()
        .filter(|x| x.level < x.wanted as i64)
        .map(|x| format!("{}: complete to {} of {} deviations, {} executions; {}", x.id, x.level, x.wanted, x.execs, x.partial.map(|(l, n, t)| format!("level {l}: {n} of {t}")).unwrap_or_default()))
        .collect();
    let longest = st.values().map(|x| x.longest).max().unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    println!(
        "{id} thr: {} scenarios, {} executions, {} steps, {} distinct states, {} distinct outcomes, longest {} points, {} partial, {} diverged, {:.1}s",
        s.len(), sum(|x| x.execs), sum(|x| x.ops), sum(|x| x.states), sum(|x| x.outcomes), longest, partial.len(), sum(|x| x.diverged), wall
    );
    if a.iter().any(|x| x == "-v") {
        for x in st.values() {
            println!("   {}: execs {} points {} relevant {} level {}/{} {:?} outcomes {}", x.id, x.execs, x.longest, x.relevant, x.level, x.wanted, x.partial, x.outcomes);
        }
    }
    if let Some(o) = arg(a, "--out") {
        let mut by_level = std::collections::BTreeMap::new();
        for p in st.values() {
            *by_level.entry(format!("complete_to_{}_deviations", p.level)).or_insert(0u64) += 1;
        }
        let j = json!({
            "variant": "thr", "scenarios": s.len(), "executions": sum(|x| x.execs), "steps": sum(|x| x.ops),
            "states": sum(|x| x.states), "outcomes": sum(|x| x.outcomes), "evals": 0,
            "longest_choice_sequence": longest, "scenarios_by_level": by_level,
            "partial": partial.iter().take(40).collect::<Vec<_>>(), "partial_count": partial.len(),
            "diverged": sum(|x| x.diverged), "cut": 0, "violations": n,
            "samples": st.values().map(|x| x.sample.clone()).filter(|s| !s.is_empty()).take(6).collect::<Vec<_>>(), "wall_s": wall, "known": Vec::<String>::new(),
        });
        std::fs::write(o, serde_json::to_string(&j).unwrap()).unwrap();
    }
    (n > 0) as i32
}
fn replay(a: &[String]) -> i32 {
    let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
    let devs: Vec<Dev> = serde_json::from_value(j["deviations"].clone()).unwrap();
    for thorough in [false, true] {
        for s in scns(j["property"].as_str().unwrap(), Tier { thorough }).unwrap_or_default() {
            if s.id == j["scenario"].as_str().unwrap() {
                let e = Slot::new().exec(&s, &devs);
                println!("scenario {}\n{}\nresult {:?}, {} points, {} operations", s.id, e.obs, e.res, e.points.len(), e.ops);
                if a.iter().any(|x| x == "-v") {
                    for (i, p) in e.points.iter().enumerate().filter(|p| p.1.n > 1) {
                        println!("  {i}: thread {} kind {} {:x} {} options {}", p.tid, p.kind, p.addr, if p.write != 0 { "w" } else { "r" }, p.n);
                    }
                }
                return e.res.is_err() as i32;
            }
        }
    }
    2
}
