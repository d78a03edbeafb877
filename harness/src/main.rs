mod case;
mod clock;
mod dag;
mod exec;
mod forge;
mod keys;
mod props;
mod rng;
mod sem;
mod store;
mod json;

use case::{Case, Stats, V};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Case) -> case::Res,
}

const HANG_S: u64 = 90;
const EXIT_VIOLATION: i32 = 41;
const EXIT_HANG: i32 = 42;
const EXIT_HARNESS: i32 = 43;
/// ThreadSanitizer found a data race (in builds that carry it).
const EXIT_RACE: i32 = 66;

struct Args {
    id: String,
    seed: u64,
    thorough: bool,
    case: Option<u64>,
    child: Option<String>,
    cases: Option<u64>,
    evidence: Option<String>,
    replays: String,
    limit_s: u64,
    threads: usize,
}

fn parse_args() -> Args {
    let mut a = Args {
        id: String::new(),
        seed: 1,
        thorough: false,
        case: None,
        child: None,
        cases: None,
        evidence: None,
        replays: "/verif/replays".into(),
        limit_s: 0,
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()),
    };
    let mut it = std::env::args().skip(1);
    a.id = it.next().unwrap_or_default();
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        match k.as_str() {
            "--seed" => a.seed = v.parse().unwrap_or_else(|_| case::fp(&v)),
            "--tier" => a.thorough = v == "thorough",
            "--case" => a.case = v.parse().ok(),
            "--cases" => a.cases = v.parse().ok(),
            "--child" => a.child = Some(v),
            "--evidence" => a.evidence = Some(v),
            "--replays" => a.replays = v,
            "--limit" => a.limit_s = v.parse().unwrap_or(0),
            "--threads" => a.threads = v.parse().unwrap_or(8),
            _ => {
                eprintln!("unknown argument {k}");
                std::process::exit(2)
            }
        }
    }
    a
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// The panic a `catch_unwind` just caught: Err(violation text) or, when it is the
/// harness's own code that panicked, Ok(harness error text).
pub fn classify_panic() -> Result<String, String> {
    let (loc, msg) = LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default();
    if loc.starts_with("src/") || loc.contains("/verif/harness/") {
        Ok(format!("harness panic at {loc}: {msg}"))
    } else {
        Err(format!("panic at {loc}: {msg}"))
    }
}

fn run_case(p: &Prop, seed: u64, thorough: bool, idx: u64, st: &mut Stats) -> Result<(), (String, Vec<String>, bool)> {
    let mut c = Case {
        r: rng::R::new(seed, p.id, idx),
        idx,
        seed,
        thorough,
        notes: Vec::new(),
        st,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut c)));
    clock::set(None);
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(V(m))) => Err((m, c.notes.clone(), false)),
        Err(_) => match classify_panic() {
            Ok(h) => Err((h, c.notes.clone(), true)),
            Err(v) => Err((v, c.notes.clone(), false)),
        },
    }
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn child(p: &'static Prop, a: &Args, dir: &str) -> i32 {
    install_panic_hook();
    if let Err(e) = clock::self_check() {
        eprintln!("{e}");
        return EXIT_HARNESS;
    }
    let total = a.cases.unwrap_or(if a.thorough { p.thorough } else { p.quick });
    let limit = if a.limit_s > 0 {
        a.limit_s
    } else if a.thorough {
        3000
    } else {
        240
    };
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<(u64, String, Vec<String>, bool)>> = Mutex::new(Vec::new());
    let merged = Mutex::new(Stats::default());
    let threads = if a.case.is_some() { 1 } else { a.threads };
    // (case + 1, start in ms) per worker
    let slots: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let journal: Vec<Mutex<std::fs::File>> = (0..threads)
        .map(|i| Mutex::new(std::fs::File::create(format!("{dir}/slot{i}")).unwrap()))
        .collect();
    {
        let slots = slots.clone();
        let dir = dir.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = start.elapsed().as_millis() as u64;
            for s in slots.iter() {
                let (c, t) = (s.0.load(Ordering::SeqCst), s.1.load(Ordering::SeqCst));
                if c != 0 && now > t + HANG_S * 1000 && s.0.load(Ordering::SeqCst) == c {
                    let _ = std::fs::write(format!("{dir}/hang"), format!("{}", c - 1));
                    unsafe { libc::_exit(EXIT_HANG) }
                }
            }
        });
    }
    let cut_short = AtomicBool::new(false);
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, stop, fails, merged, slots, journal, cut_short) =
                (&next, &stop, &fails, &merged, &slots, &journal, &cut_short);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    loop {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let idx = match a.case {
                            Some(c) => {
                                stop.store(true, Ordering::SeqCst);
                                c
                            }
                            None => next.fetch_add(1, Ordering::SeqCst),
                        };
                        if a.case.is_none() && idx >= total {
                            break;
                        }
                        if start.elapsed().as_secs() >= limit {
                            cut_short.store(true, Ordering::SeqCst);
                            break;
                        }
                        {
                            use std::io::{Seek, SeekFrom};
                            let mut f = journal[w].lock().unwrap();
                            let _ = f.seek(SeekFrom::Start(0));
                            let _ = f.write_all(format!("{idx:>20}").as_bytes());
                        }
                        slots[w].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        slots[w].0.store(idx + 1, Ordering::SeqCst);
                        let r = run_case(p, a.seed, a.thorough, idx, &mut st);
                        slots[w].0.store(0, Ordering::SeqCst);
                        if let Err((m, n, h)) = r {
                            fails.lock().unwrap().push((idx, m, n, h));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    merged.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    let mut st = merged.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    let done = next.load(Ordering::SeqCst).min(total);
    let wall = start.elapsed().as_secs_f64();
    // Anything the harness itself did wrong makes the run void.
    if let Some(f) = fails.iter().find(|f| f.3) {
        eprintln!("HARNESS ERROR in case {}: {}", f.0, f.1);
        return EXIT_HARNESS;
    }
    if st.samples.is_empty() {
        st.samples.push("(none recorded)".into());
    }
    let ev: Vec<String> = st.events.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let states: Vec<String> =
        st.states.iter().map(|(k, v)| format!("{}: {}", json_str(k), v.len())).collect();
    let samples: Vec<String> = st.samples.iter().map(|s| json_str(s)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let evidence = format!(
        "{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases\": {},\n  \"stopped_by_time_limit\": {},\n  \"events\": {{{}}},\n  \"distinct_states\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        if a.thorough { "thorough" } else { "quick" },
        a.seed,
        p.level,
        st.evals,
        st.distinct.len(),
        json_str(p.rule),
        done,
        cut_short.load(Ordering::SeqCst),
        ev.join(", "),
        states.join(", "),
        samples.join(", "),
        assumptions.join(", "),
        wall,
        fails.len()
    );
    std::fs::write(format!("{dir}/evidence"), evidence).unwrap();
    st.findings.sort();
    st.findings.dedup();
    std::fs::write(format!("{dir}/findings"), st.findings.join("\n")).unwrap();
    if let Some((idx, m, n, _)) = fails.into_iter().next() {
        std::fs::write(
            format!("{dir}/violation"),
            serde_json::json!({"case": idx, "message": m, "notes": n}).to_string(),
        )
        .unwrap();
        return EXIT_VIOLATION;
    }
    if a.case.is_none() && st.evals == 0 {
        eprintln!("HARNESS ERROR: nothing was judged");
        return EXIT_HARNESS;
    }
    0
}

fn run_child(a: &Args, dir: &str, case: Option<u64>) -> std::process::ExitStatus {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg(&a.id)
        .args(["--seed", &a.seed.to_string()])
        .args(["--tier", if a.thorough { "thorough" } else { "quick" }])
        .args(["--child", dir])
        .args(["--threads", &a.threads.to_string()])
        .args(["--limit", &a.limit_s.to_string()])
        .env("TSAN_OPTIONS", format!("halt_on_error=1 exitcode={EXIT_RACE} log_path={dir}/tsan"))
        .stdout(std::process::Stdio::null());
    if let Some(n) = a.cases {
        c.args(["--cases", &n.to_string()]);
    }
    if let Some(n) = case {
        c.args(["--case", &n.to_string()]);
    }
    c.status().expect("cannot run child")
}

/// Formats everything the code under test logs, so that its arguments are evaluated, and drops it.
struct Listener;
impl log::Log for Listener {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("ucan") {
            std::hint::black_box(format!("{} {}", r.target(), r.args()));
        }
    }
    fn flush(&self) {}
}

fn main() {
    let _ = log::set_logger(&Listener);
    log::set_max_level(log::LevelFilter::Trace);
    if let Some(code) = props::helper(&std::env::args().nth(1).unwrap_or_default()) {
        std::process::exit(code);
    }
    let a = parse_args();
    if a.id == "--list" || a.id.is_empty() {
        for p in props::ALL {
            println!("{}", p.id);
        }
        return;
    }
    let Some(p) = props::ALL.iter().find(|p| p.id == a.id) else {
        eprintln!("unknown property {}", a.id);
        std::process::exit(2)
    };
    if let Some(dir) = a.child.clone() {
        std::process::exit(child(p, &a, &dir));
    }
    let dir = std::env::temp_dir().join(format!("monitor-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d = dir.to_str().unwrap().to_string();
    let status = run_child(&a, &d, a.case);
    let code = finish(p, &a, &d, status);
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code);
}

fn report(p: &Prop, a: &Args, case: u64, message: &str, notes: &[String]) -> i32 {
    std::fs::create_dir_all(&a.replays).unwrap();
    let path = format!("{}/{}-seed{}-case{}.json", a.replays, p.id, a.seed, case);
    std::fs::write(
        &path,
        serde_json::to_string_pretty(&serde_json::json!({
            "property": p.id, "seed": a.seed, "tier": if a.thorough {"thorough"} else {"quick"},
            "case": case, "message": message, "notes": notes,
            "replay_cmd": format!("./check.sh {} --seed {} --tier {} --case {}", p.id, a.seed, if a.thorough {"thorough"} else {"quick"}, case),
        }))
        .unwrap(),
    )
    .unwrap();
    println!("{message}");
    for n in notes {
        println!("  | {n}");
    }
    println!("VIOLATION property={} replay={}", p.id, path);
    1
}

fn finish(p: &Prop, a: &Args, d: &str, status: std::process::ExitStatus) -> i32 {
    let put_evidence = |violations: Option<u64>| {
        let Some(path) = &a.evidence else { return };
        match std::fs::read_to_string(format!("{d}/evidence")) {
            Ok(s) => std::fs::write(path, s).unwrap(),
            Err(_) => std::fs::write(
                path,
                serde_json::json!({"property": p.id, "tier": if a.thorough {"thorough"} else {"quick"}, "seed": a.seed, "level": p.level,
                    "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": p.rule, "samples": ["the run was ended by a crash or hang of the code under test"]},
                    "wall_s": 0.0, "violations": violations.unwrap_or(0)})
                .to_string(),
            )
            .unwrap(),
        }
    };
    match status.code() {
        Some(0) => {
            if a.case.is_none() {
                put_evidence(None);
            }
            for f in std::fs::read_to_string(format!("{d}/findings")).unwrap_or_default().lines() {
                println!("KNOWN-FINDING: property={} {}", p.id, f);
            }
            if a.case.is_some() {
                println!("case held");
            }
            0
        }
        Some(EXIT_VIOLATION) => {
            put_evidence(Some(1));
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(format!("{d}/violation")).unwrap()).unwrap();
            let notes: Vec<String> =
                v["notes"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            report(p, a, v["case"].as_u64().unwrap(), v["message"].as_str().unwrap(), &notes)
        }
        Some(EXIT_HARNESS) => 2,
        Some(EXIT_RACE) => {
            put_evidence(Some(1));
            let mut notes = Vec::new();
            let mut case = 0;
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let name = e.file_name().to_string_lossy().into_owned();
                if name.starts_with("tsan") {
                    notes.extend(std::fs::read_to_string(e.path()).unwrap_or_default().lines().take(80).map(String::from));
                } else if name.starts_with("slot") {
                    case = std::fs::read_to_string(e.path()).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(case);
                }
            }
            report(p, a, case, "ThreadSanitizer reports a data race", &notes)
        }
        code => {
            // The process died or hung: find the case that does it, alone.
            let hung = code == Some(EXIT_HANG);
            if code.is_some() && !hung {
                eprintln!("child exited with {code:?}");
                return 2;
            }
            let mut cands: Vec<u64> = Vec::new();
            if hung {
                cands.extend(std::fs::read_to_string(format!("{d}/hang")).ok().and_then(|s| s.trim().parse::<u64>().ok()));
            } else if let Ok(rd) = std::fs::read_dir(d) {
                for e in rd.flatten() {
                    if e.file_name().to_string_lossy().starts_with("slot") {
                        cands.extend(std::fs::read_to_string(e.path()).ok().and_then(|s| s.trim().parse::<u64>().ok()));
                    }
                }
            }
            cands.sort();
            cands.dedup();
            if let Some(c) = a.case {
                cands = vec![c];
            }
            for c in cands {
                let s = run_child(a, d, Some(c));
                let sig = s.signal();
                if s.code() == Some(EXIT_HANG) {
                    put_evidence(Some(1));
                    return report(p, a, c, &format!("case {c} does not come to an end (twice, {HANG_S} s each)"), &[]);
                }
                if sig.is_some_and(|x| x != libc::SIGKILL && x != libc::SIGTERM) {
                    put_evidence(Some(1));
                    return report(p, a, c, &format!("case {c} kills the process with signal {}", sig.unwrap()), &[]);
                }
                if s.code() == Some(EXIT_VIOLATION) {
                    return finish(p, a, d, s);
                }
            }
            eprintln!("the run died ({status:?}) but no case reproduces it");
            2
        }
    }
}
