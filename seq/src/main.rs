//! Exhaustive enumeration of inputs, operation sequences and compositions on the real code,
//! compared step by step with a reference model.
#![allow(dead_code, unused_imports)]
mod ctx;
mod model;
mod real;
mod values;
mod grads;
mod nets;

use ctx::*;
use std::os::unix::fs::FileExt;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn plan(property: &str) -> Option<fn(&mut Ctx)> {
    Some(match property {
        #[cfg(feature = "C01")]
        "C01" => values::c01,
        #[cfg(feature = "C02")]
        "C02" => values::c02,
        #[cfg(feature = "C03")]
        "C03" => values::c03,
        #[cfg(feature = "C04")]
        "C04" => values::c04,
        #[cfg(feature = "C05")]
        "C05" => values::c05,
        #[cfg(feature = "C06")]
        "C06" => values::c06,
        #[cfg(feature = "C07")]
        "C07" => values::c07,
        #[cfg(feature = "C08")]
        "C08" => values::c08,
        #[cfg(feature = "C09")]
        "C09" => values::c09,
        #[cfg(feature = "C10")]
        "C10" => values::c10,
        #[cfg(feature = "C11")]
        "C11" => values::c11,
        #[cfg(feature = "C12")]
        "C12" => grads::c12,
        #[cfg(feature = "C13")]
        "C13" => grads::c13,
        #[cfg(feature = "C14")]
        "C14" => grads::c14,
        #[cfg(feature = "C15")]
        "C15" => grads::c15,
        #[cfg(feature = "C16")]
        "C16" => grads::c16,
        #[cfg(feature = "C17")]
        "C17" => grads::c17,
        #[cfg(feature = "C18")]
        "C18" => nets::c18,
        #[cfg(feature = "C19")]
        "C19" => nets::c19,
        #[cfg(feature = "C20")]
        "C20" => nets::c20,
        #[cfg(feature = "C21")]
        "C21" => nets::c21,
        _ => return None,
    })
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let property = arg("--property").expect("--property");
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let only: Option<u64> = arg("--only").map(|s| s.parse().unwrap());
    let limit_ms: u64 = arg("--case-limit").map_or(60, |s| s.parse::<u64>().unwrap()) * 1000;
    let out = arg("--out");
    // one key per line; `known` cases are reported as such and do not count as violations
    let known: Arc<std::collections::HashSet<String>> = Arc::new(
        arg("--known")
            .map(|f| std::fs::read_to_string(f).unwrap().lines().map(str::to_string).collect())
            .unwrap_or_default(),
    );
    let run = plan(&property).expect("unknown property");
    let shards = if only.is_some() { 1 } else { 8 };
    let trace = arg("--trace").map(|p| {
        let f = std::fs::File::create(p).unwrap();
        f.write_at(&vec![0u8; 8 * 8], 0).unwrap();
        Arc::new(f)
    });
    install_hook();
    let start = Instant::now();
    let progress: Vec<Arc<Progress>> = (0..shards).map(|_| Default::default()).collect();
    {
        let progress = progress.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = start.elapsed().as_millis() as u64 + 1;
            for p in &progress {
                let since = p.since.load(Ordering::Relaxed);
                let index = p.index.load(Ordering::Relaxed);
                if since != 0 && now > since + limit_ms {
                    // whoever else has been at one case for long may be waiting for the same thing
                    let _ = index;
                    for p in &progress {
                        let since = p.since.load(Ordering::Relaxed);
                        if since != 0 && now > since + limit_ms / 2 {
                            println!("HANG {}", p.index.load(Ordering::Relaxed));
                        }
                    }
                    std::process::exit(4);
                }
            }
        });
    }
    let handles: Vec<_> = (0..shards)
        .map(|shard| {
            let progress = progress[shard as usize].clone();
            let trace = trace.clone();
            let known = known.clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let mut ctx =
                        Ctx::new(thorough, shard, shards, only, progress, trace, start);
                    ctx.known = known;
                    run(&mut ctx);
                    let t = TRANSITIONS.with(|t| t.get());
                    (ctx, t)
                })
                .unwrap()
        })
        .collect();
    let mut ctxs = vec![];
    let mut transitions = 0;
    for h in handles {
        match h.join() {
            Ok((c, t)) => {
                ctxs.push(c);
                transitions += t;
            }
            Err(_) => {
                eprintln!("the enumeration itself panicked");
                std::process::exit(5);
            }
        }
    }
    let total = ctxs[0].counter;
    let clean = ctxs.iter().all(|c| c.violations.is_empty());
    if clean && ctxs.iter().any(|c| c.counter != total) {
        eprintln!("shards disagree about the number of cases");
        std::process::exit(5);
    }
    let mut states = std::collections::HashSet::new();
    let mut cases = 0;
    let mut violations: Vec<&Violation> = vec![];
    let mut counts = std::collections::BTreeMap::new();
    let mut samples: Vec<&(String, String)> = vec![];
    for c in &ctxs {
        states.extend(c.states.iter().copied());
        cases += c.cases;
        violations.extend(c.violations.iter());
        for (k, v) in &c.counts {
            *counts.entry(k.clone()).or_insert(0u64) += v;
        }
        for s in &c.samples {
            if samples.iter().filter(|t| t.0 == s.0).count() < 2 {
                samples.push(s);
            }
        }
    }
    violations.sort_by_key(|v| v.index);
    let complete = only.is_none() && violations.is_empty() && cases == total;
    for c in &ctxs {
        for (k, w) in &c.known_hit {
            println!("KNOWN {}\t{}", esc(k), esc(w));
        }
    }
    for v in violations.iter().take(5) {
        println!("FAIL {}\t{}\t{}", v.index, esc(&v.key), esc(&v.what));
    }
    if let Some(out) = out {
        let mut j = String::from("{");
        j += &format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"cases_enumerated\":{},\"exhaustive\":{},",
            states.len(), transitions, cases, total, complete
        );
        j += "\"sections\":{";
        j += &counts
            .iter()
            .map(|(k, v)| format!("\"{}\":{v}", esc(k)))
            .collect::<Vec<_>>()
            .join(",");
        j += "},\"samples\":[";
        j += &samples
            .iter()
            .take(40)
            .map(|(a, b)| format!("\"{}: {}\"", esc(a), esc(b)))
            .collect::<Vec<_>>()
            .join(",");
        j += "]}";
        std::fs::write(out, j).unwrap();
    }
    println!(
        "property={property} cases={cases}/{total} states={} transitions={transitions} time={:.1}s",
        states.len(),
        start.elapsed().as_secs_f64()
    );
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}
