mod crx;
mod gen;
mod hdr;
mod met;
mod mutate;
mod clk;
mod corpus;
mod inx;
mod nav;
mod obs;
mod props;
mod runner;
mod util;

use runner::{run_prop, Prop};
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::time::Instant;

fn home() -> std::path::PathBuf {
    // /verif: the directory that holds work/target/debug/vh
    let exe = std::env::current_exe().unwrap();
    exe.ancestors().nth(4).unwrap().to_path_buf()
}

fn seed() -> u64 {
    let s = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    s.trim().parse::<u64>().unwrap_or_else(|_| s.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)))
}

/// known findings of a property: (signature, description)
fn known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(home().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let (k, desc) = r.split_once(" :: ").expect("known_findings.txt line");
                let mut it = k.split_whitespace();
                let p = it.next().unwrap().strip_prefix("property=").unwrap();
                let sig = it.next().unwrap().strip_prefix("sig=").unwrap();
                if p == id {
                    v.push((sig.to_string(), desc.to_string()));
                }
            }
        }
    }
    v
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(3)
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
        },
        Some("check") => std::process::exit(check(find(&props, &args[2]), &args[3])),
        Some("worker") => worker(find(&props, &args[2]), &args[3], &args[4]),
        Some("one") => {
            runner::install_hook();
            let p = find(&props, &args[2]);
            let part = &p.parts[args[3].parse::<usize>().unwrap()];
            let i = args[4].parse::<u64>().unwrap();
            let mut g = gen::Gen::random(runner::part_seed(seed(), p.id, part.name), i);
            runner::monitor(6, |_, _| std::process::exit(5));
            match runner::watched(part.run, &mut g) {
                Ok(()) => eprintln!("ok\n{}", g.text),
                Err(e) => eprintln!("FAIL [{}] {}\n{}", e.sig, e.msg, g.text),
            }
        },
        // failures of a part, by place: to explore
        Some("census") => {
            runner::install_hook();
            let p = find(&props, &args[2]);
            let part = &p.parts[args[3].parse::<usize>().unwrap()];
            let n = args[4].parse::<u64>().unwrap();
            let mut m: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            for i in 0..n {
                let mut g = gen::Gen::random(runner::part_seed(seed(), p.id, part.name), i);
                if let Err(e) = runner::run_case(part.run, &mut g) {
                    let k = if e.sig == "panic" { e.msg.rsplit(" at ").next().unwrap().to_string() } else { e.sig.clone() };
                    let x = m.entry(k).or_insert((0, i, e.msg.clone()));
                    x.0 += 1;
                }
            }
            for (k, (n, i, msg)) in m {
                println!("{:6} case {:6} {} :: {}", n, i, k, msg.chars().take(160).collect::<String>().replace('\n', " "));
            }
        },
        Some("replay") => {
            runner::install_hook();
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let p = find(&props, v["property"].as_str().unwrap());
            let part = p.parts.iter().find(|q| q.name == v["part"].as_str().unwrap()).unwrap();
            let index = v["index"].as_u64().unwrap();
            let mut g = match v["choices"].as_array() {
                Some(c) => gen::Gen::replaying(c.iter().map(|x| x.as_u64().unwrap()).collect(), index),
                None => gen::Gen::random(runner::part_seed(v["seed"].as_u64().unwrap(), p.id, part.name), index),
            };
            let (id, replay) = (p.id, args[2].clone());
            runner::monitor(6, move |_, _| {
                println!("FAIL [hang] the case does not end\nVIOLATION property={} replay={}", id, replay);
                std::process::exit(1);
            });
            match runner::watched(part.run, &mut g) {
                Ok(()) => println!("the case passes\n{}", g.text),
                Err(e) => {
                    println!("FAIL [{}] {}\n{}", e.sig, e.msg, g.text);
                    println!("VIOLATION property={} replay={}", p.id, args[2]);
                    std::process::exit(1);
                },
            }
        },
        _ => {
            eprintln!("usage: vh list | check ID TIER | replay FILE");
            std::process::exit(3);
        },
    }
}

fn worker(p: &Prop, tier: &str, out: &str) {
    runner::install_hook();
    let kn: Vec<String> = known(p.id).into_iter().map(|k| k.0).collect();
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let t0 = Instant::now();
    let to = out.to_string();
    let leave = move |found: Value| {
        let v = json!({"evaluations": 1, "distinct": 1, "parts": [], "labels": {}, "samples": [], "found": [found], "known_hits": {}});
        std::fs::write(&to, serde_json::to_string(&v).unwrap()).unwrap();
    };
    let (hung, names): (_, Vec<&str>) = (leave.clone(), p.parts.iter().map(|p| p.name).collect());
    runner::monitor(12, move |part, index| {
        if part != runner::SHRINKING {
            hung(json!({"part": names[part as usize], "index": index, "choices": null, "sig": "hang",
                "msg": format!("the case does not end: more than {} s of processor time", runner::CASE_CPU_S), "case": ""}));
        }
        std::process::exit(0);
    });
    let early = move |f: &runner::Found| {
        leave(json!({"part": f.part, "index": f.index, "choices": f.choices, "sig": f.sig, "msg": f.msg, "case": f.text}))
    };
    let o = run_prop(p, tier == "thorough", seed(), &kn, &format!("{}.slots", out), scale, &early);
    let found: Vec<Value> = o
        .found
        .iter()
        .map(|f| json!({"part": f.part, "index": f.index, "choices": f.choices, "sig": f.sig, "msg": f.msg, "case": f.text}))
        .collect();
    let v = json!({
        "evaluations": o.evaluations, "distinct": o.distinct,
        "parts": o.per_part.iter().map(|(k, v)| json!({"part": k, "evaluations": v.0, "distinct_nontrivial": v.1})).collect::<Vec<_>>(),
        "labels": o.labels, "samples": o.samples.iter().map(|(p, s)| json!({"part": p, "case": s.chars().take(3000).collect::<String>()})).collect::<Vec<_>>(),
        "found": found, "known_hits": o.known_hits, "shrink_evals": o.shrink_evals, "wall": t0.elapsed().as_secs_f64(),
    });
    std::fs::write(out, serde_json::to_string(&v).unwrap()).unwrap();
}

fn check(p: &Prop, tier: &str) -> i32 {
    let t0 = Instant::now();
    let h = home();
    let work = h.join("work");
    let _ = std::fs::create_dir_all(&work);
    let out = work.join(format!("{}.{}.json", p.id, std::process::id()));
    let outs = out.to_str().unwrap().to_string();
    let slots = format!("{}.slots", outs);
    let _ = std::fs::remove_file(&out);
    let status = Command::new(std::env::current_exe().unwrap())
        .args(["worker", p.id, tier, &outs])
        .stdout(std::process::Stdio::null())
        .status()
        .expect("spawn");
    let kn = known(p.id);
    let replay_dir = h.join("replay");
    let _ = std::fs::create_dir_all(&replay_dir);
    let mut violations: Vec<String> = vec![];
    let mut res = json!({"evaluations": 0, "distinct": 0, "parts": [], "labels": {}, "samples": [], "known_hits": {}});
    let mut code = 0;
    let signal = status.signal();
    if signal.is_some() && out.exists() {
        // it died while reducing a failure it had already left
        eprintln!("worker killed by signal {:?} while reducing", signal);
    }
    if let Some(sig) = signal.filter(|_| !out.exists()) {
        // the process itself died (stack overflow, abort): find which of the cases in flight does it alone
        let raw = std::fs::read(&slots).unwrap_or_default();
        for c in raw.chunks(16) {
            if c.len() < 16 {
                continue;
            }
            let part = u64::from_le_bytes(c[..8].try_into().unwrap());
            let idx = u64::from_le_bytes(c[8..].try_into().unwrap());
            if part == 0 {
                continue;
            }
            let st = Command::new(std::env::current_exe().unwrap())
                .args(["one", p.id, &(part - 1).to_string(), &idx.to_string()])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .unwrap();
            if matches!(st.signal(), Some(6) | Some(11) | Some(7) | Some(4)) {
                let f = replay_dir.join(format!("{}-crash-{}-{}.json", p.id, part - 1, idx));
                let v = json!({"property": p.id, "part": p.parts[(part - 1) as usize].name, "index": idx, "seed": seed(), "sig": "abort",
                    "msg": format!("the process is killed by signal {:?} (stack overflow or abort)", st.signal())});
                std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                violations.push(f.to_str().unwrap().into());
                println!("process death (signal {:?}) in part {} case {}", st.signal(), p.parts[(part - 1) as usize].name, idx);
                break;
            }
        }
        if violations.is_empty() {
            eprintln!("worker killed by signal {} without a reproducible case", sig);
            code = 3;
        }
    } else if !status.success() && !out.exists() {
        eprintln!("worker failed: {:?}", status);
        code = 3;
    } else {
        res = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
        for f in res["found"].as_array().unwrap() {
            let path = replay_dir.join(format!("{}-{}.json", p.id, f["part"].as_str().unwrap()));
            let mut v = f.clone();
            v["property"] = json!(p.id);
            v["seed"] = json!(seed());
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            println!("part {} sig {}: {}", f["part"].as_str().unwrap(), f["sig"].as_str().unwrap(), f["msg"].as_str().unwrap());
            println!("minimised case:\n{}", f["case"].as_str().unwrap());
            violations.push(path.to_str().unwrap().into());
        }
        for (sig, desc) in &kn {
            println!("KNOWN-FINDING: property={} {} (hit {} times)", p.id, desc, res["known_hits"][sig].as_u64().unwrap_or(0));
        }
    }
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&slots);
    if code == 0 {
        let ev = json!({
            "property": p.id, "tier": tier, "seed": seed() & 0x7fffffffffffffff, "level": "exploration",
            "coverage": {
                "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct"], "rule": p.rule,
                "samples": res["samples"], "parts": res["parts"], "labels": res["labels"], "known_finding_hits": res["known_hits"],
            },
            "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations.len(),
        });
        let _ = std::fs::create_dir_all(h.join("evidence"));
        std::fs::write(h.join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    if violations.is_empty() {
        if code == 0 {
            println!(
                "{}: held on {} cases ({} distinct non-trivial) in {:.1}s, seed {}",
                p.id, res["evaluations"], res["distinct"], t0.elapsed().as_secs_f64(), seed()
            );
        }
        code
    } else {
        for v in violations {
            println!("VIOLATION property={} replay={}", p.id, v);
        }
        1
    }
}
