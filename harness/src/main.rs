#![allow(dead_code)]
#[macro_use]
mod engine;
mod alloc;
mod audit;
mod flow;
mod gen;
mod ops;
mod props;
mod sha2;
mod tap;
mod toy;
mod wire;
mod world;

#[global_allocator]
static ALLOC: alloc::Tracking = alloc::Tracking;

use engine::*;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn variant() -> &'static str {
    if cfg!(feature = "cov") {
        return "cov";
    }
    match (cfg!(feature = "hashed"), cfg!(feature = "mutauth")) {
        (true, true) => "hashed",
        (false, true) => "raw",
        (true, false) => "hashed-nomut",
        (false, false) => "raw-nomut",
    }
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

struct Known {
    prop: String,
    sig: String,
    text: String,
}
/// Lines "known: property=<id> sig=<signature> -- <what fails>".
fn load_known() -> Vec<Known> {
    let mut v = vec![];
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            if let Some((id, rest)) = r.split_once(" sig=") {
                let (sig, text) = rest.split_once(" -- ").unwrap_or((rest, ""));
                v.push(Known {
                    prop: id.trim().into(),
                    sig: sig.trim().into(),
                    text: text.trim().into(),
                });
            }
        }
    }
    v
}

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
}

fn replay_text(
    p: &Prop,
    sub: &str,
    tape: &[u64],
    f: &Failure,
    thorough: bool,
    seed: u64,
    idx: u64,
) -> String {
    let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    format!(
        "{{\n\"property\": {},\n\"variant\": {},\n\"sub\": {},\n\"thorough\": {},\n\"seed\": {},\n\"case\": {},\n\"signature\": {},\n\"detail\": {},\n\"tape\": [{}]\n}}\n",
        json_str(p.id),
        json_str(variant()),
        json_str(sub),
        thorough,
        seed,
        idx,
        json_str(&f.sig),
        json_str(&f.detail),
        t.join(",")
    )
}

fn json_field(s: &str, k: &str) -> Option<String> {
    let pat = format!("\"{}\":", k);
    let i = s.find(&pat)? + pat.len();
    let r = s[i..].trim_start();
    if r.starts_with('"') {
        let e = r[1..].find('"')?;
        Some(r[1..1 + e].to_string())
    } else if r.starts_with('[') {
        let e = r.find(']')?;
        Some(r[1..e].to_string())
    } else {
        let e = r.find(|c| c == ',' || c == '\n' || c == '}')?;
        Some(r[..e].trim().to_string())
    }
}

struct Opts {
    thorough: bool,
    seed: u64,
    only: Option<String>,
    scale: f64,
}
fn opts(a: &[String]) -> Opts {
    let mut o = Opts {
        thorough: false,
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        only: None,
        scale: 1.0,
    };
    let mut i = 0;
    while i < a.len() {
        match a[i].as_str() {
            "thorough" => o.thorough = true,
            "quick" => o.thorough = false,
            "--seed" => {
                i += 1;
                o.seed = a[i].parse().unwrap();
            }
            "--sub" => {
                i += 1;
                o.only = Some(a[i].clone());
            }
            "--scale" => {
                i += 1;
                o.scale = a[i].parse().unwrap();
            }
            _ => {}
        }
        i += 1;
    }
    o
}

fn part_path(id: &str, v: &str) -> String {
    format!("{}/harness/out/{}.{}.part", root(), id, v)
}

/// The child: run every sub-check of one property.
fn child(id: &str, o: &Opts, progress: &str) -> i32 {
    let p = find(id);
    let known = load_known();
    let is_known = |sig: &str| known.iter().any(|k| k.prop == id && k.sig == sig);
    let prog = Progress::open(Some(progress));
    let threads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let budget = if o.thorough { 3600 * 3 } else { 600 };
    let deadline = Instant::now() + Duration::from_secs(budget);
    let mut part = String::new();
    let mut rc = 0;
    for (n, s) in p.subs.iter().enumerate() {
        if let Some(only) = &o.only {
            if only != s.name {
                continue;
            }
        }
        let base = if o.thorough { s.thorough } else { s.quick };
        if base == 0 {
            continue;
        }
        let count = ((base as f64 * o.scale) as u64).max(1);
        let st = run_sub(
            &p, n, o.seed, o.thorough, count, &is_known, &prog, threads, deadline,
        );
        let mut lab: Vec<String> = vec![];
        for (k, v) in &st.labels {
            lab.push(format!("{}: {}", json_str(k), v));
        }
        println!(
            "{} [{}] {}: {} cases, {} distinct non-trivial, {:.1}s {}",
            id,
            variant(),
            st.name,
            st.evals,
            st.nontrivial,
            st.wall,
            lab.join(" ")
        );
        if cfg!(feature = "cov") {
            let (tapes, edges) = cov::size();
            println!("  coverage guidance kept {} cases, {} edges", tapes, edges);
        }
        for (k, n) in &st.known {
            println!("  known finding hit {} times: {}", n, k);
        }
        let smp: Vec<String> = st
            .samples
            .iter()
            .map(|x| json_str(&x.chars().take(600).collect::<String>()))
            .collect();
        part.push_str(&format!(
            "{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
            variant(),
            st.name,
            st.evals,
            st.nontrivial,
            st.wall,
            lab.join(", "),
            smp.join(", ")
        ));
        if let Some((idx, tape, f)) = st.failure {
            let (tape, detail) = {
                let f1 = s.f;
                let sig = f.sig.clone();
                let th = o.thorough;
                std::thread::Builder::new()
                    .stack_size(48 << 20)
                    .spawn(move || shrink(f1, tape, &sig, th, 20_000))
                    .unwrap()
                    .join()
                    .unwrap()
            };
            let f = Failure {
                sig: f.sig,
                detail: if detail.is_empty() { f.detail } else { detail },
            };
            let path = format!("{}/replays/{}-{}-{}.json", root(), id, s.name, variant());
            let _ = std::fs::create_dir_all(format!("{}/replays", root()));
            std::fs::write(
                &path,
                replay_text(&p, s.name, &tape, &f, o.thorough, o.seed, idx),
            )
            .unwrap();
            println!("  failure: {} -- {}", f.sig, f.detail);
            println!("VIOLATION property={} replay={}", id, path);
            rc = 1;
        }
        std::io::stdout().flush().unwrap();
    }
    let _ = std::fs::create_dir_all(format!("{}/harness/out", root()));
    std::fs::write(part_path(id, variant()), part).unwrap();
    rc
}

/// Combine the parts of all variants into the evidence file.
fn merge(id: &str, o: &Opts, variants: &[&str], violations: u32) {
    let p = find(id);
    let mut ev = 0u64;
    let mut nt = 0u64;
    let mut wall = 0f64;
    let mut subs = vec![];
    let mut samples = vec![];
    for v in variants {
        let s = std::fs::read_to_string(part_path(id, v)).unwrap_or_default();
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() < 7 {
                continue;
            }
            ev += f[2].parse::<u64>().unwrap_or(0);
            nt += f[3].parse::<u64>().unwrap_or(0);
            wall += f[4].parse::<f64>().unwrap_or(0.0);
            subs.push(format!(
                "{{\"build\": {}, \"check\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {}, \"labels\": {{{}}}}}",
                json_str(f[0]),
                json_str(f[1]),
                f[2],
                f[3],
                f[4],
                f[5]
            ));
            if !f[6].is_empty() {
                samples.push(f[6].to_string());
            }
        }
    }
    let asm: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let txt = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": {},\n\"coverage\": {{\n\"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"checks\": [\n{}\n],\n\"samples\": [\n{}\n]\n}},\n\"assumptions\": [{}],\n\"violations\": {},\n\"wall_s\": {:.1}\n}}\n",
        json_str(id),
        json_str(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        json_str(p.level),
        ev,
        nt,
        json_str(p.rule),
        subs.join(",\n"),
        samples.join(",\n"),
        asm.join(", "),
        violations,
        wall
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    std::fs::write(format!("{}/evidence/{}.json", root(), id), txt).unwrap();
}

fn read_progress(path: &str) -> Vec<(usize, u64, u64)> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks(16)
        .filter(|c| c.len() == 16)
        .map(|c| {
            let mut a = [0u8; 8];
            a.copy_from_slice(&c[..8]);
            let mut d = [0u8; 8];
            d.copy_from_slice(&c[8..]);
            (u64::from_le_bytes(a), u64::from_le_bytes(d))
        })
        .enumerate()
        .filter(|(_, x)| x.0 != u64::MAX && x.1 > 0)
        .map(|(t, x)| (t, x.0, x.1 - 1))
        .collect()
}

fn wait_limited(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Supervise the child so that aborts, stack overflows and hangs of the code
/// under test become reports with the case that caused them.
fn supervise(id: &str, o: &Opts) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let _ = std::fs::create_dir_all(format!("{}/harness/out", root()));
    let prog = format!("{}/harness/out/{}.{}.progress", root(), id, variant());
    let _ = std::fs::write(&prog, b"");
    let tier = if o.thorough { "thorough" } else { "quick" };
    let mut cmd = Command::new(&exe);
    cmd.args([
        "child",
        id,
        tier,
        "--progress",
        &prog,
        "--seed",
        &o.seed.to_string(),
        "--scale",
        &o.scale.to_string(),
    ]);
    if let Some(s) = &o.only {
        cmd.args(["--sub", s]);
    }
    let mut c = cmd.stdin(Stdio::null()).spawn().unwrap();
    let mut last: Vec<(usize, u64, u64)> = vec![];
    let mut quiet = Instant::now();
    let status;
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            status = Some(s);
            break;
        }
        let now = read_progress(&prog);
        if now != last {
            last = now;
            quiet = Instant::now();
        }
        if quiet.elapsed() > Duration::from_secs(90) {
            let _ = c.kill();
            let _ = c.wait();
            status = None;
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    if let Some(s) = status {
        if let Some(code) = s.code() {
            if code == 0 || code == 1 {
                return code;
            }
        }
    }
    println!(
        "{}: run ended abnormally ({:?}); looking for the case",
        id, status
    );
    for (thread, sub, idx) in read_progress(&prog) {
        let p = find(id);
        let tape = Progress::tape_of(&prog, thread);
        let tape_file = format!("{}.tape", prog);
        let words: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(&tape_file, words.join(","));
        let ch = Command::new(&exe)
            .args([
                "one",
                id,
                tier,
                "--seed",
                &o.seed.to_string(),
                &tape_file,
                &sub.to_string(),
                &idx.to_string(),
            ])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let st = wait_limited(ch, Duration::from_secs(60));
        let bad = match st {
            None => Some("no result within 60 s"),
            Some(s) if s.code().is_none() => {
                Some("process died from a signal (abort or stack overflow)")
            }
            _ => None,
        };
        if let Some(what) = bad {
            let path = format!(
                "{}/replays/{}-{}-{}.json",
                root(),
                id,
                p.subs[sub as usize].name,
                variant()
            );
            let _ = std::fs::create_dir_all(format!("{}/replays", root()));
            let f = Failure {
                sig: "crash-or-hang".into(),
                detail: what.into(),
            };
            std::fs::write(
                &path,
                replay_text(
                    &p,
                    p.subs[sub as usize].name,
                    &tape,
                    &f,
                    o.thorough,
                    o.seed,
                    idx,
                ),
            )
            .unwrap();
            println!("  failure: {} in case {}", what, idx);
            println!("VIOLATION property={} replay={}", id, path);
            return 1;
        }
    }
    println!("{}: abnormal end could not be reproduced", id);
    2
}

fn in_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(48 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.is_empty() {
        eprintln!("usage: run|merge|replay|list");
        std::process::exit(2);
    }
    install_hook();
    toy::register();
    sha2::selftest();
    let rc = match a[0].as_str() {
        "list" => {
            for p in props::all() {
                println!(
                    "{} {}",
                    p.id,
                    p.subs
                        .iter()
                        .map(|s| format!("{}:{}", s.name, s.quick))
                        .collect::<Vec<_>>()
                        .join(" ")
                );
            }
            0
        }
        "run" => supervise(&a[1], &opts(&a[2..])),
        "child" => {
            let i = a.iter().position(|x| x == "--progress").unwrap();
            child(&a[1], &opts(&a[2..]), &a[i + 1])
        }
        "trace" => in_thread(props::equal::serve),
        "one" => {
            let o = opts(&a[2..]);
            let p = find(&a[1]);
            let sub: usize = a[a.len() - 2].parse().unwrap();
            let idx: u64 = a[a.len() - 1].parse().unwrap();
            let tape = std::fs::read_to_string(&a[a.len() - 3]).unwrap_or_default();
            let tape: Vec<u64> = tape.split(',').filter_map(|x| x.parse().ok()).collect();
            let r = in_thread(move || {
                let s = case_seed(o.seed, p.id, p.subs[sub].name, idx);
                let mut c = Case::guided(tape, s, o.thorough);
                c.want_sample = true;
                let r = run_one(p.subs[sub].f, &mut c);
                println!("{:?} {:?} {:?}", r, c.labels, c.sample);
                r.is_err()
            });
            r as i32
        }
        "merge" => {
            let o = opts(&a[2..]);
            let vs: Vec<&str> = a[2..]
                .iter()
                .filter(|s| s.starts_with("v="))
                .map(|s| &s[2..])
                .collect();
            let viol = if a.iter().any(|s| s == "--violation") {
                1
            } else {
                0
            };
            merge(&a[1], &o, &vs, viol);
            for k in load_known() {
                if k.prop == a[1] {
                    println!("KNOWN-FINDING: property={} {} ({})", k.prop, k.text, k.sig);
                }
            }
            0
        }
        "replay" => {
            let s = std::fs::read_to_string(&a[1]).unwrap();
            let p = find(&json_field(&s, "property").unwrap());
            let v = json_field(&s, "variant").unwrap_or_default();
            if v != variant() {
                eprintln!("this replay needs the {} build", v);
                std::process::exit(2);
            }
            let name = json_field(&s, "sub").unwrap();
            let th = json_field(&s, "thorough").unwrap() == "true";
            let seed: u64 = json_field(&s, "seed").unwrap().parse().unwrap();
            let idx: u64 = json_field(&s, "case").unwrap().parse().unwrap();
            let tape: Vec<u64> = json_field(&s, "tape")
                .unwrap()
                .split(',')
                .filter_map(|x| x.trim().parse().ok())
                .collect();
            let crash = json_field(&s, "signature").unwrap() == "crash-or-hang";
            let bad = in_thread(move || {
                let sub = p.subs.iter().find(|x| x.name == name).expect("sub-check");
                let mut c = if crash {
                    Case::guided(tape, case_seed(seed, p.id, sub.name, idx), th)
                } else {
                    Case::replay(tape, th)
                };
                c.want_sample = true;
                match run_one(sub.f, &mut c) {
                    Err(e) => {
                        println!("reproduced: {} -- {}", e.sig, e.detail);
                        true
                    }
                    Ok(()) => {
                        println!("the case passes");
                        false
                    }
                }
            });
            bad as i32
        }
        _ => 2,
    };
    std::process::exit(rc);
}
