//! Deterministic simulation of the ibig library: see DESIGN.md.
mod cost;
mod gen;
mod machine;
mod nat;
mod oracle;
mod runner;
mod threads;

use runner::*;
use std::io::Write;
use std::os::unix::fs::FileExt;
use sut::Table;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|x| x == name).and_then(|k| args.get(k + 1)).cloned()
}
fn num(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).and_then(|x| x.parse().ok()).unwrap_or(default)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    simrt::install_hooks();
    simrt::set_nested(sut::nested);
    let t = Table::build();
    let mode = args.get(1).map(|x| x.as_str()).unwrap_or("");
    let code = match mode {
        "run" => run(&t, &args),
        "gen" => gen_one(&t, &args),
        "exec" => exec(&t, &args),
        "ops" => {
            for o in &t.ops {
                println!("{}", o.name);
            }
            0
        }
        "nat" => {
            nat::cross_check(num(&args, "--seed", 1), num(&args, "--count", 200));
            0
        }
        _ => {
            eprintln!("usage: sim run|gen|exec|ops|nat ...");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

/// Runs the scenarios start, start + stride, ...
fn run(t: &Table, args: &[String]) -> i32 {
    let prop = num(args, "--prop", 1) as u8;
    let seed = num(args, "--seed", 1);
    let start = num(args, "--start", 0);
    let count = num(args, "--count", 10);
    let digests = args.iter().any(|x| x == "--digests");
    let progress = arg(args, "--progress").map(|p| std::fs::File::create(p).unwrap());
    let deadline = num(args, "--seconds", 0);
    let t0 = std::time::Instant::now();
    let mut total = Totals::new();
    let mut code = 0;
    for idx in start..start + count {
        if deadline > 0 && t0.elapsed().as_secs() >= deadline {
            break;
        }
        if let Some(f) = &progress {
            let _ = f.write_all_at(format!("{:<20}", idx).as_bytes(), 0);
        }
        // scenarios with threads each begin in a process that has not used the library yet
        if prop == 3 {
            if let Some(c) = simrt::in_child() {
                if c != 0 {
                    return c;
                }
                continue;
            }
            total = Totals::new();
        }
        let mut text = Vec::new();
        let r = generate(t, prop, seed, idx, &mut |s| text.push(s.to_string()));
        let (out, viol) = match r {
            Ok(x) => (x, None),
            Err((x, e)) => (x, Some(e)),
        };
        total.add(&out);
        if digests {
            println!("DIGEST {} {:016x} {:016x} {}", idx, out.log, out.full, out.eventful());
        }
        if let Some(e) = viol {
            println!("VIOLATED {} {}", idx, e.replace('\n', " "));
            if let Some(p) = arg(args, "--out") {
                let _ = std::fs::write(p, text.join("\n") + "\n");
            }
            code = 1;
            break;
        }
        if prop == 3 {
            break;
        }
    }
    if prop == 3 && total.scenarios == 0 {
        return code;
    }
    println!("TOTALS {}", total.json());
    code
}

/// Generates and runs one scenario, writing each line before it is executed.
fn gen_one(t: &Table, args: &[String]) -> i32 {
    let prop = num(args, "--prop", 1) as u8;
    let seed = num(args, "--seed", 1);
    let idx = num(args, "--start", 0);
    let mut f: Box<dyn Write> = match arg(args, "--out") {
        Some(p) => Box::new(std::fs::File::create(p).unwrap()),
        None => Box::new(std::io::stdout()),
    };
    let r = generate(t, prop, seed, idx, &mut |s| {
        let _ = f.write_all(s.as_bytes());
        let _ = f.write_all(b"\n");
        let _ = f.flush();
    });
    match r {
        Ok(x) => {
            println!("FINE digest={:016x}", x.full);
            0
        }
        Err((_, e)) => {
            println!("VIOLATED {} {}", idx, e.replace('\n', " "));
            1
        }
    }
}

fn exec(t: &Table, args: &[String]) -> i32 {
    let Some(text) = args.get(2).and_then(|p| std::fs::read_to_string(p).ok()) else {
        eprintln!("cannot read the scenario");
        return 2;
    };
    match execute(t, &text) {
        Ok(x) => {
            for (k, _) in x.stats.n.iter().filter(|x| x.0.starts_with("known.")) {
                println!("KNOWN {}", &k[6..]);
            }
            println!("FINE digest={:016x} log={:016x}", x.full, x.log);
            0
        }
        Err((x, e)) => {
            simrt::sched::say_switches();
            println!("VIOLATED {:016x} {}", x.full, e.replace('\n', " "));
            1
        }
    }
}
