#![allow(unexpected_cfgs)]
#[macro_use]
mod mon;
mod model;
#[path = "gen.rs"]
mod gen_;
mod fixt;
mod props;
mod alloc;
mod open;
mod stats;
mod session;

#[global_allocator]
static ALLOC: alloc::Mon = alloc::Mon;

use mon::*;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    if args.iter().any(|a| a == "--nothing") {
        return;
    }
    let id = arg(&args, "--prop").expect("--prop");
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = arg(&args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let threads: usize = arg(&args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let max_cases: u64 = arg(&args, "--max-cases").and_then(|s| s.parse().ok()).unwrap_or(0);
    let thorough = arg(&args, "--tier").as_deref() == Some("thorough");
    let out = arg(&args, "--out");
    let Some(mut p) = props::get(&id) else {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    };
    if let Some(only) = arg(&args, "--only") {
        p.workloads.retain(|w| only.split(',').any(|o| o == w.name));
        p.required.clear();
        p.finish = None;
    }
    if let Some(skip) = arg(&args, "--skip") {
        p.workloads.retain(|w| !skip.split(',').any(|o| o == w.name));
    }
    if let Some(case) = arg(&args, "--case") {
        let idx: u64 = case.parse().unwrap();
        let w = &p.workloads[0];
        let (cx, r) = run_case(&p, w, seed, idx, thorough);
        for t in &cx.trace {
            println!("  {t}");
        }
        if args.iter().any(|a| a == "--events") {
            for (k, n) in &cx.stats.counters {
                println!("event {k} {n}");
            }
            for h in &cx.stats.distinct {
                println!("distinct {h}");
            }
            if let Some(s) = &cx.sample {
                println!("sample {s}");
            }
        }
        for (k, h) in &cx.outs {
            println!("out {k} {h:016x}");
        }
        match r {
            Ok(()) => println!("case {}#{idx}: held", w.name),
            Err(Fail::Skip(s)) => println!("case skipped: {s}"),
            Err(Fail::Harness(s)) => {
                println!("harness error: {s}");
                std::process::exit(2)
            }
            Err(Fail::Violation { sig, msg }) => {
                println!("violated [{sig}]: {msg}");
                std::process::exit(1)
            }
        }
        return;
    }
    if let Some(f) = arg(&args, "--inflight") {
        let _ = INFLIGHT.set(std::fs::File::create(f).unwrap());
    }
    if let Some(f) = arg(&args, "--transcript") {
        let _ = TRANSCRIPT.set(std::sync::Mutex::new(std::io::BufWriter::new(std::fs::File::create(f).unwrap())));
    }
    let o = run(&p, seed, secs, threads, thorough, max_cases);
    if let Some(t) = TRANSCRIPT.get() {
        use std::io::Write;
        t.lock().unwrap().flush().unwrap();
    }
    let mut missing = vec![];
    for r in &p.required {
        if o.stats.counters.get(*r).copied().unwrap_or(0) == 0 {
            missing.push(*r);
        }
    }
    let mut j = String::from("{");
    j += &format!("\"prop\":{},\"seed\":{seed},\"cases\":{},\"wall\":{:.3},", jstr(&id), o.cases, o.wall);
    j += &format!("\"rule\":{},", jstr(p.rule));
    j += &format!("\"distinct\":{},", o.stats.distinct.len());
    j += "\"counters\":{";
    j += &o
        .stats
        .counters
        .iter()
        .map(|(k, v)| format!("{}:{v}", jstr(k)))
        .collect::<Vec<_>>()
        .join(",");
    j += "},\"samples\":[";
    j += &o.stats.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    j += "],\"missing\":[";
    j += &missing.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    j += "],\"harness\":[";
    j += &o.harness.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    j += "],\"violations\":[";
    j += &o
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"workload\":{},\"idx\":{},\"sig\":{},\"msg\":{},\"trace\":[{}]}}",
                jstr(&v.workload),
                v.idx,
                jstr(&v.sig),
                jstr(&v.msg.chars().take(4000).collect::<String>()),
                v.trace.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    j += "]}";
    if let Some(h) = arg(&args, "--hashes") {
        let b: Vec<u8> = o.stats.distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(h, b).unwrap();
    }
    if let Some(out) = out {
        std::fs::write(out, &j).unwrap();
    } else {
        println!("{j}");
    }
}
