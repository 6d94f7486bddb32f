//! usage: serve PROPERTY out.json cases seed | serve PROPERTY out.json replay FILE | serve module out.ts
mod plan;
mod run;
mod services;
mod socket;
mod stress;
mod wire;

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

#[derive(Default)]
struct Stats {
    cases: u64,
    nontrivial: HashSet<u64>,
    numbers: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

/// what a case covered: is it non-trivial, and what is counted
type Covered = (bool, Vec<(&'static str, u64)>);

fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

enum Mode {
    Search { cases: u32, seed: u64 },
    Replay(String),
}

fn drive<S>(mode: &Mode, out: &str, strategy: S, test: impl Fn(&S::Value) -> Result<Covered, String>)
where
    S: Strategy,
    S::Value: Serialize + DeserializeOwned + Debug,
{
    let stats = RefCell::new(Stats::default());
    let progress = format!("{out}.running");
    let failure = match mode {
        Mode::Replay(file) => {
            let data: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let v: S::Value = serde_json::from_value(data).unwrap();
            stats.borrow_mut().cases += 1;
            test(&v).err().map(|why| (why, serde_json::to_value(&v).unwrap()))
        }
        Mode::Search { cases, seed } => {
            let mut bytes = [0u8; 32];
            for (i, b) in bytes.iter_mut().enumerate() {
                *b = (seed.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(i as u32 * 7) >> (i % 8 * 8)) as u8;
            }
            let config = Config {
                cases: *cases,
                failure_persistence: None,
                max_shrink_iters: 4000,
                max_shrink_time: 60_000,
                max_global_rejects: 1 << 20,
                max_local_rejects: 1 << 24,
                ..Config::default()
            };
            // what is not run when the time is over does not count
            let t0 = std::time::Instant::now();
            let limit = std::env::var("SERVE_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
            let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
            let result = runner.run(&strategy, |v| {
                if t0.elapsed().as_secs() > limit {
                    return Ok(());
                }
                let text = serde_json::to_string(&v).unwrap();
                std::fs::write(&progress, &text).unwrap();
                match test(&v) {
                    Ok((nontrivial, numbers)) => {
                        let mut s = stats.borrow_mut();
                        s.cases += 1;
                        for (k, n) in numbers {
                            *s.numbers.entry(k.to_string()).or_default() += n;
                        }
                        if nontrivial && s.nontrivial.insert(hash(&text)) && s.samples.len() < 4 && text.len() < 1500 {
                            s.samples.push(serde_json::from_str(&text).unwrap());
                        }
                        Ok(())
                    }
                    Err(why) => Err(TestCaseError::fail(why)),
                }
            });
            match result {
                Ok(()) => None,
                Err(TestError::Fail(why, v)) => Some((why.to_string(), serde_json::to_value(&v).unwrap())),
                Err(TestError::Abort(why)) => panic!("{why}"),
            }
        }
    };
    let s = stats.into_inner();
    let report = json!({
        "cases": s.cases,
        "nontrivial": s.nontrivial.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
        "numbers": s.numbers,
        "samples": s.samples,
        "failure": failure.map(|(why, case)| json!({ "why": why, "case": case })),
    });
    std::fs::write(out, report.to_string()).unwrap();
    let _ = std::fs::remove_file(progress);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, out) = (a[1].as_str(), a[2].as_str());
    if prop == "module" {
        use zod::rpc::{clients::WebsocketClient, Backend as _};
        return std::fs::write(out, services::App::generate::<WebsocketClient>()).unwrap();
    }
    let mode = match a[3].as_str() {
        "replay" => Mode::Replay(a[4].clone()),
        n => Mode::Search { cases: n.parse().unwrap(), seed: a[4].parse().unwrap() },
    };
    // panics of the backend's tasks are part of what is looked at
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("SERVE_PANICS").is_some() {
            eprintln!("{info}");
        }
    }));
    match prop {
        "C10" | "C11" | "C12" | "C13" | "C14" => drive(&mode, out, plan::history(&plan::weights(prop)), |h| {
            let p = run::check(prop, h)?;
            let s = &p.stats;
            let conns = p.expects.len();
            let nontrivial = match prop {
                "C10" => s.calls >= 2 && conns >= 2,
                "C11" => s.streams >= 2 && s.concurrent > 0,
                "C12" => s.effective_cancels > 0,
                "C14" => conns >= 2 && s.calls > 0 && s.noise + s.bad + s.gone > 0,
                _ => conns >= 2 && s.bad + s.gone > 0 && s.calls > 0,
            };
            Ok((
                nontrivial,
                vec![
                    ("calls", s.calls as u64),
                    ("streams", s.streams as u64),
                    ("calls under the id of a stream", s.calls_reusing as u64),
                    ("calls under the id of an earlier call", s.calls_again as u64),
                    ("cancellations", s.cancels as u64),
                    ("cancellations of a running stream", s.effective_cancels as u64),
                    ("bad messages", s.bad as u64),
                    ("disconnections", s.gone as u64),
                    ("frames that carry no request", s.noise as u64),
                    ("connections", conns as u64),
                    ("streams opened while another was running", s.concurrent as u64),
                    ("streams under the id of one of another connection", s.id_clashes as u64),
                    ("responses", p.expects.iter().map(Vec::len).sum::<usize>() as u64),
                ],
            ))
        }),
        "C18" => drive(&mode, out, wire::case(), |c| {
            wire::check(c)?;
            use wire::Case::*;
            let (kind, nontrivial) = match c {
                Exec { body, .. } => ("exec", !body.is_empty()),
                Cancel { .. } => ("cancel", true),
                Refused(t) => ("refused", t.len() > 4),
                Method { .. } => ("method", true),
                Stream { .. } => ("stream", true),
                Error { .. } => ("error", true),
            };
            Ok((nontrivial, vec![(kind, 1)]))
        }),
        "C10-threads" | "C11-threads" | "C12-threads" | "C14-threads" => drive(
            &mode, out, stress::case(prop != "C10-threads", prop == "C14-threads"), |c| {
            let (marks, streams) = stress::check(c)?;
            Ok((
                c.conns.len() > 1 && marks + streams > 1,
                vec![("calls", marks as u64), ("streams", streams as u64)],
            ))
        }),
        _ => panic!("unknown property {prop}"),
    }
}
