mod fw;
mod props;

use fw::*;
use json::{object, JsonValue};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};

const VERIF: &str = env!("VERIF_DIR");

fn load_known() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(Path::new(VERIF).join("known-findings.txt")) {
        for l in s.lines() {
            // finding: property=C01 harness=<name> what=<prefix of the message> :: <description>
            if let Some(r) = l.strip_prefix("finding: property=") {
                let (p, r) = r.split_once(" harness=").unwrap_or((r, ""));
                let (h, r) = r.split_once(" what=").unwrap_or((r, ""));
                let w = r.split(" :: ").next().unwrap_or("");
                if !h.is_empty() && !w.is_empty() {
                    v.push(Known {
                        property: p.into(),
                        harness: h.into(),
                        what: w.into(),
                    });
                }
            }
        }
    }
    v
}

fn ctx(id: &'static str, thorough: bool, k: usize, n: usize) -> Ctx {
    Ctx {
        property: id,
        thorough,
        k,
        n,
        reps: vec![],
        known: load_known(),
        replay: None,
        replayed: None,
        only: std::env::var("MC_ONLY").ok(),
        states_out: vec![],
        time_scale: std::env::var("MC_TIME").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
        began: mcrt::sys::real_now(),
    }
}

fn find(id: &str) -> &'static props::Prop {
    match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            mcrt::sys::exit_now(2)
        }
    }
}

fn worker(p: &'static props::Prop, thorough: bool, k: usize, n: usize, out: PathBuf) {
    mcrt::install_panic_hook();
    let o2 = out.clone();
    watchdog(move |h, c| {
        let j = object! { hang: true, name: h, choices: c };
        let _ = std::fs::write(&o2, j.dump());
    });
    let mut c = ctx(p.id, thorough, k, n);
    (p.run)(&mut c);
    stop_watchdog();
    let mut bin: Vec<u8> = vec![];
    for s in &c.states_out {
        bin.extend_from_slice(&(s.len() as u64).to_le_bytes());
        for x in s {
            bin.extend_from_slice(&x.to_le_bytes());
        }
    }
    let _ = std::fs::write(out.with_extension("states"), bin);
    let j: JsonValue = JsonValue::Array(c.reps.iter().map(rep_json).collect());
    std::fs::write(&out, j.dump()).expect("write report");
    mcrt::sys::exit_now(0);
}

fn write_replay(p: &str, h: &str, what: &str, ch: &[u32]) -> PathBuf {
    let dir = Path::new(VERIF).join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{}.json", p, h.replace(|c: char| !c.is_alphanumeric(), "_")));
    let j = object! { property: p, harness: h, what: what, choices: ch.to_vec() };
    let _ = std::fs::write(&f, json::stringify_pretty(j, 1));
    f
}

fn check(p: &'static props::Prop, thorough: bool) -> i32 {
    let t0 = std::time::Instant::now();
    let n: usize = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 8)
    });
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for k in 0..n {
        let out = dir.join(format!("{}.json", k));
        let c = std::process::Command::new(&exe)
            .args(["worker", p.id, if thorough { "thorough" } else { "quick" }, &k.to_string(), &n.to_string()])
            .arg(&out)
            .spawn()
            .expect("spawn worker");
        kids.push((c, out));
    }
    let mut reps: Vec<Rep> = vec![];
    let mut sets: Vec<HashSet<u64>> = vec![];
    let mut bad = false;
    let mut hang: Option<(String, Vec<u32>)> = None;
    for (mut c, out) in kids {
        let st = c.wait().expect("wait");
        let txt = std::fs::read_to_string(&out).unwrap_or_default();
        let j = json::parse(&txt).unwrap_or(JsonValue::Null);
        if j["hang"].as_bool() == Some(true) {
            hang = Some((j["name"].to_string(), j["choices"].members().map(|x| x.as_u32().unwrap()).collect()));
            continue;
        }
        if !st.success() || !j.is_array() {
            eprintln!("worker of {} failed: {:?}", p.id, st);
            bad = true;
            continue;
        }
        let rs: Vec<Rep> = j.members().map(rep_from).collect();
        let mut bin = vec![];
        if let Ok(mut f) = std::fs::File::open(out.with_extension("states")) {
            let _ = f.read_to_end(&mut bin);
        }
        let mut words = bin.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
        for (i, r) in rs.into_iter().enumerate() {
            if sets.len() <= i {
                sets.push(HashSet::new());
            }
            let cnt = words.next().unwrap_or(0);
            for _ in 0..cnt {
                if let Some(w) = words.next() {
                    sets[i].insert(w);
                }
            }
            if reps.len() <= i {
                reps.push(r);
            } else {
                assert_eq!(reps[i].name, r.name);
                merge(&mut reps[i], r);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut states = 0u64;
    let mut steps = 0u64;
    let mut execs = 0u64;
    let mut exhaustive = true;
    let mut samples = JsonValue::new_array();
    let mut per = JsonValue::new_array();
    let mut nviol = 0;
    for (i, r) in reps.iter_mut().enumerate() {
        if !r.conc {
            r.states = sets[i].len() as u64;
        }
        states += r.states;
        steps += r.steps;
        execs += r.execs;
        exhaustive &= !r.capped;
        let mut j = object! {
            harness: r.name.clone(),
            kind: if r.conc { "schedules of real threads" } else { "sequences of operations" },
            executions: r.execs, steps: r.steps, states: r.states, complete: !r.capped && r.viol.is_none(),
        };
        if r.conc {
            j["every_schedule_with_at_most_this_many_preemptions"] = r.completed.into();
            j["executions_by_preemptions"] = r.by_cost.clone().into();
            j["longest_schedule_points"] = r.max_points.into();
            j["distinct_outcomes"] = r.outcomes.len().into();
            let mut os: Vec<_> = r.outcomes.iter().collect();
            os.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (o, c) in os.into_iter().take(3) {
                let _ = samples.push(format!("{}: {} schedules ended with {}", r.name, c, o));
            }
        } else if !r.sample.is_empty() {
            let s: String = r.sample.join("; ");
            let _ = samples.push(format!("{}: {}", r.name, s.chars().take(1500).collect::<String>()));
        }
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}", j.dump());
        }
        let _ = per.push(j);
        for k in &r.known {
            println!("KNOWN-FINDING: property={} {}", p.id, k);
        }
        if let Some((w, ch)) = &r.viol {
            nviol += 1;
            let f = write_replay(p.id, &r.name, w, ch);
            println!("{}: {}", r.name, w);
            println!("VIOLATION property={} replay={}", p.id, f.display());
        }
    }
    if let Some((h, ch)) = hang {
        nviol += 1;
        let f = write_replay(p.id, &h, "the code under check did not return", &ch);
        println!("{}: the code under check did not return (near these choices)", h);
        println!("VIOLATION property={} replay={}", p.id, f.display());
    }
    if samples.is_empty() {
        let _ = samples.push("none");
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = object! {
        property: p.id,
        tier: if thorough { "thorough" } else { "quick" },
        seed: seed,
        level: "model_checking",
        coverage: {
            states: states,
            transitions: steps,
            traces_validated_against_impl: execs,
            samples: samples,
            exhaustive: exhaustive && nviol == 0 && !bad,
            explanation: p.how,
            harnesses: per,
        },
        assumptions: p.assumptions.iter().map(|s| JsonValue::from(*s)).collect::<Vec<_>>(),
        wall_s: t0.elapsed().as_secs_f64(),
        violations: nviol,
    };
    let evd = Path::new(VERIF).join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    let mut f = std::fs::File::create(evd.join(format!("{}.json", p.id))).expect("evidence");
    f.write_all(json::stringify_pretty(ev, 1).as_bytes()).expect("evidence");
    println!(
        "{} {}: {} executions, {} steps, {} states, {:.1} s{}",
        p.id,
        if thorough { "thorough" } else { "quick" },
        execs,
        steps,
        states,
        t0.elapsed().as_secs_f64(),
        if exhaustive { "" } else { " (wall cap reached)" }
    );
    if nviol > 0 {
        1
    } else if bad || reps.is_empty() {
        2
    } else {
        0
    }
}

fn replay(file: &str) -> i32 {
    mcrt::install_panic_hook();
    let j = json::parse(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let p = find(j["property"].as_str().unwrap());
    let mut c = ctx(p.id, true, 0, 1);
    c.replay = Some((
        j["harness"].to_string(),
        j["choices"].members().map(|x| x.as_u32().unwrap()).collect(),
    ));
    println!("{} {}: recorded {}", p.id, j["harness"], j["what"]);
    (p.run)(&mut c);
    match c.replayed {
        None => {
            println!("no such harness");
            2
        }
        Some(Ok(())) => {
            println!("holds");
            0
        }
        Some(Err(e)) => {
            println!("violated: {}", e);
            1
        }
    }
}

fn main() {
    mcrt::keep();
    let a: Vec<String> = std::env::args().collect();
    let th = |s: &str| s == "thorough";
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            worker(find(&a[2]), th(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].clone().into());
            0
        }
        Some("check") => check(find(&a[2]), a.get(3).map(|s| th(s)).unwrap_or(false)),
        Some("replay") => replay(&a[2]),
        Some("list") => {
            for p in props::ALL {
                println!("{} {}", p.id, p.how);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    mcrt::sys::exit_now(code);
}
