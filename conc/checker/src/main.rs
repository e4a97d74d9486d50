//! Explores the interleavings of small multi-threaded programs that use the real timer code.
//!
//! `checker list TIER`            prints the scenarios of a tier
//! `checker worker`               reads "SCENARIO BOUND MAX" lines, answers one JSON line each
//! `checker replay SCENARIO BOUND c,c,...`  prints the trace of one schedule
mod scen;

use std::io::{BufRead, Write};
use vsched::{alloc, execute, next_path};

#[global_allocator]
static A: alloc::Alloc = alloc::Alloc;

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn digits(p: &[(u8, u8)]) -> String {
    p.iter().map(|c| c.0.to_string()).collect::<Vec<_>>().join(",")
}

fn explore(name: &str, bound: usize, max: u64) -> String {
    let s = scen::parse(name);
    let mut path = Vec::new();
    let (mut execs, mut steps, mut nodes, mut deepest) = (0u64, 0u64, 0u64, 0usize);
    let mut sigs = std::collections::HashSet::new();
    loop {
        let before = path.len();
        let mut sig = 0;
        let o = execute(std::mem::take(&mut path), bound, false, &mut || sig = scen::run(&s));
        execs += 1;
        steps += o.steps;
        nodes += (o.path.len() + 1 - before) as u64;
        deepest = deepest.max(o.path.len());
        sigs.insert(sig);
        path = o.path;
        if let Some(f) = o.failure {
            let taken = digits(&path);
            return format!("{{\"scenario\":{},\"bound\":{bound},\"executions\":{execs},\"steps\":{steps},\"nodes\":{nodes},\"failure\":{},\"path\":[{taken}]}}", json(name), json(&f));
        }
        if !next_path(&mut path, 0) {
            break;
        }
        if execs >= max {
            return format!("{{\"scenario\":{},\"bound\":{bound},\"executions\":{execs},\"steps\":{steps},\"nodes\":{nodes},\"cut\":true}}", json(name));
        }
    }
    format!("{{\"scenario\":{},\"bound\":{bound},\"executions\":{execs},\"steps\":{steps},\"nodes\":{nodes},\"outcomes\":{},\"deepest\":{deepest}}}", json(name), sigs.len())
}

fn main() {
    vsched::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    // what one use of the crate keeps for good
    for paused in ["warm", "paused"] {
        if paused == "warm" || cfg!(feature = "testutil") {
            let s = scen::parse(&format!("{paused}/main/t/n2p;p"));
            let o = execute(Vec::new(), 0, false, &mut || {
                scen::run(&s);
            });
            if let Some(f) = o.failure {
                // the exploration will find and report it
                eprintln!("calibration: {f}");
            }
        }
    }
    match a[1].as_str() {
        "list" => {
            for (s, b) in scen::list(&a[2]) {
                println!("{s} {b}");
            }
        }
        "worker" => {
            let stdin = std::io::stdin();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                let f: Vec<&str> = line.split(' ').collect();
                let r = explore(f[0], f[1].parse().unwrap(), f[2].parse().unwrap());
                let failed = r.contains("\"failure\"");
                println!("{r}");
                std::io::stdout().flush().unwrap();
                if failed {
                    // what the abandoned threads left behind is not worth cleaning up
                    std::process::exit(0);
                }
            }
        }
        "replay" => {
            let s = scen::parse(&a[2]);
            let path = a.get(4).map(|t| t.split(',').filter(|c| !c.is_empty()).map(|c| (c.parse().unwrap(), 0)).collect()).unwrap_or_default();
            let o = execute(path, a[3].parse().unwrap(), true, &mut || {
                scen::run(&s);
            });
            for l in o.log {
                println!("{l}");
            }
            match o.failure {
                Some(f) => {
                    println!("FAILURE {f}");
                    std::process::exit(1)
                }
                None => println!("OK"),
            }
        }
        _ => std::process::exit(2),
    }
}
