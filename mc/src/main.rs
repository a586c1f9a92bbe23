//! `mc check <ID> --tier quick|thorough`: decide one property on the current /repo. `mc replay <file>`: run the
//! recorded violation again.

#[macro_use]
mod fw;
mod alloc;
mod eng;
mod props;

use fw::*;
use serde_json::{json, Value};
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::Alloc = alloc::Alloc;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

const WORKERS: usize = 8;

/// The code under test prints; verdicts go to the real standard output.
fn claim_stdout() -> std::fs::File {
    unsafe {
        let real = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(real)
    }
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()))
}

/// `finding: property=<id> suite=<suite> case=<text of the case>`
fn findings(id: &str) -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let (p, rest) = l.split_once(" suite=")?;
            let (suite, case) = rest.split_once(" case=")?;
            (p == id).then(|| (suite.to_string(), case.to_string(), l.to_string()))
        })
        .collect()
}

fn write_replay(id: &str, tier: Tier, v: &Violation) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash(&(&v.suite, v.index, &v.prefix));
    let path = dir.join(format!("{id}-{}-{h:016x}.json", v.suite.replace(|c: char| !c.is_alphanumeric(), "_")));
    let j = json!({"property": id, "tier": format!("{tier:?}").to_lowercase(), "suite": v.suite, "index": v.index,
        "prefix": v.prefix, "case": v.desc, "message": v.message,
        "replay": format!("/verif/run.sh replay {}", path.display())});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n");
    path
}

fn report(out: &mut std::fs::File, id: &str, tier: Tier, v: &Violation) {
    let path = write_replay(id, tier, v);
    let _ = writeln!(out, "{}: {}\n  case: {}\n  {}", id, v.suite, clip(&v.desc), clip(&v.message));
    let _ = writeln!(out, "VIOLATION property={id} replay={}", path.display());
    let _ = out.flush();
}

fn clip(s: &str) -> String {
    if s.len() <= 1500 {
        s.into()
    } else {
        format!("{}...", s.chars().take(1500).collect::<String>())
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let tier = if args.iter().any(|a| a == "thorough") { Tier::Thorough } else { Tier::Quick };
    match arg(0) {
        "check" => parent(arg(1), tier),
        "child" => child(arg(1), tier, arg(3)),
        "replay" => replay(arg(1)),
        "probe" => props::isolation::probe(&args[1..]),
        "list" => {
            for id in props::IDS {
                for s in props::suites(id, tier) {
                    let n = match &s.kind {
                        SuiteKind::Cases { size, .. } => size.to_string(),
                        SuiteKind::Sched { size, bound, .. } => format!("{size} programs, <= {bound} preemptions"),
                    };
                    println!("{id} {} {n}: {}", s.name, s.bounds);
                }
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> --tier quick|thorough | mc replay <file> | mc list");
            std::process::exit(2);
        }
    }
}

/// Run the check in a child, so that an abort or a crash of the code under test is a verdict too.
fn parent(id: &str, tier: Tier) -> ! {
    let slots = std::env::temp_dir().join(format!("mc-slots-{}", std::process::id()));
    std::fs::write(&slots, vec![0u8; WORKERS * 16]).expect("slots file");
    let exe = std::env::current_exe().unwrap();
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let st = std::process::Command::new(&exe).args(["child", id, t]).arg(&slots).status().expect("child");
    let data = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("the checking process died of signal {sig}; looking for the case");
    let suites = props::suites(id, tier);
    for w in data.chunks(16) {
        let s = u64::from_le_bytes(w[..8].try_into().unwrap());
        let i = u64::from_le_bytes(w[8..].try_into().unwrap());
        if s == 0 || i == 0 {
            continue;
        }
        let suite = &suites[s as usize - 1];
        let (SuiteKind::Cases { desc, .. } | SuiteKind::Sched { desc, .. }) = &suite.kind;
        let v = Violation {
            suite: suite.name.clone(),
            index: i - 1,
            prefix: None,
            desc: desc(i - 1),
            message: format!("the process is killed by signal {sig} while it runs this case"),
        };
        let path = write_replay(id, tier, &v);
        let r = std::process::Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status();
        if r.is_ok_and(|r| r.signal().is_some()) {
            report(&mut claim_stdout(), id, tier, &v);
            std::process::exit(1);
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("no single case reproduces it");
    std::process::exit(3);
}

fn map_slots(path: &str) -> Option<*mut u64> {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).ok()?;
    let p = unsafe { mmap(std::ptr::null_mut(), WORKERS * 16, 3, 1, f.as_raw_fd(), 0) };
    (p as isize != -1).then_some(p as *mut u64)
}

fn child(id: &str, tier: Tier, slots: &str) -> ! {
    let t0 = Instant::now();
    let out = Mutex::new(claim_stdout());
    install_panic_hook();
    if let Some(p) = map_slots(slots) {
        fw::set_slots(p);
    }
    if !props::IDS.contains(&id) {
        eprintln!("no property {id}");
        std::process::exit(2);
    }
    strict_locks(id);
    let suites = props::suites(id, tier);
    let known = findings(id);
    let mut violations = Vec::new();
    let mut reports = Vec::new();
    for (n, s) in suites.iter().enumerate() {
        fw::set_suite(n);
        let is_known = |suite: &str, case: &str| known.iter().any(|k| k.0 == suite && k.1 == case);
        let hang = |h: Hang| {
            let v = Violation {
                suite: h.suite,
                index: h.index,
                prefix: None,
                desc: h.desc,
                message: format!("did not finish within {} s", CASE_LIMIT.as_secs()),
            };
            report(&mut out.lock().unwrap(), id, tier, &v);
            std::process::exit(1);
        };
        let (r, v, hits) = run_suite(s, WORKERS, &is_known, &hang);
        eprintln!(
            "{id} {}: {} cases, {} states, {} transitions, {} outcomes, {:.1} s",
            r.name, r.cases, r.rec.states.len(), r.rec.steps, r.rec.outcomes.len(), r.wall
        );
        if hits > 0 {
            for k in known.iter().filter(|k| k.0 == r.name) {
                let _ = writeln!(out.lock().unwrap(), "KNOWN-FINDING: property={}", k.2);
            }
        }
        let stop = v.is_some();
        if let Some(v) = v {
            report(&mut out.lock().unwrap(), id, tier, &v);
            violations.push(v);
        }
        reports.push(r);
        if stop {
            break;
        }
    }
    let complete = violations.is_empty();
    let sum = |f: &dyn Fn(&SuiteReport) -> u64| -> u64 { reports.iter().map(f).sum() };
    let samples: Vec<Value> =
        reports.iter().flat_map(|r| r.samples.iter().map(|s| json!({"suite": r.name, "case": clip(s)}))).collect();
    let per: Vec<Value> = reports
        .iter()
        .map(|r| {
            let mut o = json!({"suite": r.name, "bounds": r.bounds, "executions": r.cases,
                "distinct_model_states": r.rec.states.len(), "transitions": r.rec.steps,
                "distinct_outcomes": r.rec.outcomes.len(), "wall_s": r.wall});
            if r.rec.schedules > 0 {
                o["schedules"] = json!(r.rec.schedules);
                o["longest_schedule_points"] = json!(r.rec.max_points);
            }
            o
        })
        .collect();
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {
            "states": sum(&|r| r.rec.states.len() as u64),
            "transitions": sum(&|r| r.rec.steps),
            "traces_validated_against_impl": sum(&|r| r.rec.execs),
            "schedules": sum(&|r| r.rec.schedules),
            "distinct_outcomes": sum(&|r| r.rec.outcomes.len() as u64),
            "exhaustive": complete,
            "rule": "every case of every suite, within the bounds given per suite, was executed on the real code built from /repo and compared, step by step, with the reference model",
            "suites": per,
            "samples": samples,
        },
        "assumptions": props::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(3);
    }
    if complete {
        let execs: u64 = reports.iter().map(|r| r.cases).sum();
        let _ = writeln!(out.lock().unwrap(), "{id}: held on {execs} executions in {} suites", reports.len());
    }
    std::process::exit(if complete { 0 } else { 1 });
}

/// A lock shared with the audio thread is a matter of C06 alone.
fn strict_locks(id: &str) {
    crossbeam::mc::STRICT_LOCKS.store(id == "C06", std::sync::atomic::Ordering::SeqCst);
}

fn replay(path: &str) -> ! {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let j: Value = serde_json::from_str(&text).expect("replay file");
    let id = j["property"].as_str().unwrap().to_string();
    let tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut out = claim_stdout();
    install_panic_hook();
    strict_locks(&id);
    let suite = props::suites(&id, tier).into_iter().find(|s| Some(s.name.as_str()) == j["suite"].as_str());
    let suite = suite.expect("the suite of the replay file");
    let mut rec = Rec::default();
    let r = match &suite.kind {
        SuiteKind::Cases { run, .. } => guarded(run, j["index"].as_u64().unwrap(), &mut rec).unwrap_or(Ok(())),
        SuiteKind::Sched { .. } if j["prefix"].is_null() => explore_case(&suite, j["index"].as_u64().unwrap()),
        SuiteKind::Sched { run, .. } => {
            let p: Vec<u32> = j["prefix"].as_array().map_or(vec![], |a| a.iter().map(|v| v.as_u64().unwrap() as u32).collect());
            run(j["index"].as_u64().unwrap(), &p, &mut rec).map_or(Ok(()), |r| r.check)
        }
    };
    let _ = writeln!(out, "case: {}", j["case"].as_str().unwrap_or(""));
    match r {
        Ok(()) => {
            let _ = writeln!(out, "the recorded case of {id} passes on the current tree");
            std::process::exit(0)
        }
        Err(m) => {
            let _ = writeln!(out, "{m}\nVIOLATION property={id} replay={path}");
            std::process::exit(1)
        }
    }
}
