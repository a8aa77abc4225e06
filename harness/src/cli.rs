//! Command line of one property's harness.
use crate::engine::*;
use serde_json::{json, Value};
use std::path::Path;

fn arg<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

pub fn main(prop: &str, subs: Vec<Sub>) {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for s in &subs {
                println!("{} {} quick={} thorough={}", prop, s.name, s.quick, s.thorough);
            }
        }
        "work" => {
            let known: Vec<String> = arg(&a, "--known").map(|f| serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap()).unwrap_or_default();
            let o = WorkOpts {
                prop,
                thorough: arg(&a, "--tier") == Some("thorough"),
                seed: arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                profile: arg(&a, "--profile").unwrap_or("rel"),
                threads: arg(&a, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                state: arg(&a, "--state").map(Path::new),
                known: &known,
                only: arg(&a, "--only"),
                scale: arg(&a, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
            };
            let v = work(&subs, &o, arg(&a, "--hashes").map(Path::new));
            match arg(&a, "--out") {
                Some(p) => std::fs::write(p, serde_json::to_vec(&v).unwrap()).unwrap(),
                None => println!("{}", serde_json::to_string_pretty(&v).unwrap()),
            }
        }
        // re-execute one stored case: exit 0 holds, 1 violated
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(arg(&a, "--file").unwrap()).unwrap()).unwrap();
            let sub = v["sub"].as_str().unwrap();
            let s = subs.iter().find(|s| s.name == sub).expect("unknown sub-check");
            match s.obj.replay(&v["case"]) {
                Ok(()) => println!("{}", json!({"holds": true})),
                Err(f) => {
                    println!("{}", json!({"holds": false, "sig": f.sig, "msg": f.msg}));
                    std::process::exit(1);
                }
            }
        }
        // generate the case of one index, or shrink it with every candidate run in a child process
        "case" | "shrink-crash" => {
            let s = &subs[arg(&a, "--subindex").unwrap().parse::<usize>().unwrap()];
            let idx: u64 = arg(&a, "--idx").unwrap().parse().unwrap();
            let seed: u64 = arg(&a, "--seed").unwrap().parse().unwrap();
            let profile = arg(&a, "--profile").unwrap();
            let cs = case_seed(seed, prop, s.name, profile, idx);
            let mut r = s.obj.runner();
            if cmd == "case" {
                println!("{}", json!({"property": prop, "sub": s.name, "case": r.gen(cs)}));
                return;
            }
            let exe = std::env::current_exe().unwrap();
            let tmp = arg(&a, "--tmp").unwrap().to_string();
            let exec = |c: &Value| -> Option<Fail> {
                std::fs::write(&tmp, serde_json::to_vec(&json!({"property": prop, "sub": s.name, "case": c})).unwrap()).unwrap();
                let o = std::process::Command::new(&exe).args(["replay", "--file", &tmp]).output().unwrap();
                use std::os::unix::process::ExitStatusExt;
                match o.status.signal() {
                    Some(sg) if sg != 9 && sg != 15 => Some(Fail { sig: "crash".into(), msg: format!("process died with signal {sg} (memory fault)") }),
                    _ => None,
                }
            };
            let (case, f) = r.shrink(cs, 300, Some(&exec));
            println!("{}", json!({"property": prop, "sub": s.name, "case": case, "sig": f.sig, "msg": f.msg}));
        }
        _ => {
            eprintln!("usage: vh list|work|replay|case|shrink-crash");
            std::process::exit(2);
        }
    }
}
