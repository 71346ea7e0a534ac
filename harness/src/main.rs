#![allow(unused_imports, unused_variables, unused_assignments)]
mod alloc;
#[macro_use]
mod engine;
mod clock;
mod gen;
mod props;
mod sim;
mod talk;

use engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: alloc::Watch = alloc::Watch;

const HANG_CPU_S: u64 = 20;
const HANG_WALL_S: u64 = 90;
const EXIT_HANG: i32 = 42;
const MAX_THREADS: usize = 16;

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn now_ns() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// What each worker thread is doing, kept in a file so that it outlives a crash.
#[repr(C)]
struct Slot {
    facet: AtomicU64, // index + 1, 0 if idle
    case: AtomicU64,
    started: AtomicU64,
    cpu_started: AtomicU64,
    clock: AtomicU64,
    hung: AtomicU64,
}
struct Progress(*mut Slot);
unsafe impl Send for Progress {}
unsafe impl Sync for Progress {}
impl Progress {
    fn open(path: &Path) -> Progress {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("progress file");
        let len = MAX_THREADS * std::mem::size_of::<Slot>();
        f.set_len(len as u64).expect("progress size");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Progress(p.cast())
    }
    fn slot(&self, i: usize) -> &Slot {
        unsafe { &*self.0.add(i) }
    }
}

fn case_seed(seed: u64, prop: &str, facet: &str, case: u64) -> u64 {
    mix(mix(mix(seed, hash_str(prop)), hash_str(facet)), case)
}

#[derive(Default)]
struct FacetStats {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    labels: BTreeMap<&'static str, u64>,
}

struct Failure {
    facet: &'static str,
    case: u64,
    tape: Vec<u32>,
    message: String,
}

fn tape_hash(t: &[u32]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for v in t {
        h = (h ^ *v as u64).wrapping_mul(0x1000_0000_01b3);
        h ^= h >> 29;
    }
    h
}

fn thread_cpu_ns(clock: libc::clockid_t) -> Option<u64> {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    (unsafe { libc::clock_gettime(clock, &mut t) } == 0)
        .then(|| t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
}

fn worker(args: &[String]) -> ExitCode {
    let (prop, tier, seed) = (&args[0], &args[1], args[2].parse::<u64>().unwrap());
    let out = PathBuf::from(&args[3]);
    let progress = Progress::open(Path::new(&args[4]));
    let threads: usize = args[5].parse().unwrap();
    let deadline = Instant::now() + Duration::from_secs_f64(args[6].parse().unwrap());
    let scale: f64 = args[7].parse().unwrap();
    let only: Option<&str> = args.get(8).map(|s| s.as_str());
    if std::env::var_os("VZ_NO_RLIMIT").is_none() {
        let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
    let facets = props::facets(prop);
    let stop = AtomicBool::new(false);
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let mut all = Vec::new();
    let done = AtomicBool::new(false);
    std::thread::scope(|outer| {
        // Watchdog.
        outer.spawn(|| {
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(250));
                for i in 0..threads {
                    let s = progress.slot(i);
                    let facet = s.facet.load(Relaxed);
                    if facet == 0 {
                        continue;
                    }
                    let case = s.case.load(Relaxed);
                    let started = s.started.load(Relaxed);
                    let wall = now_ns().saturating_sub(started) / 1_000_000_000;
                    if wall < 5 {
                        continue;
                    }
                    let cpu = thread_cpu_ns(s.clock.load(Relaxed) as libc::clockid_t)
                        .map(|n| n.saturating_sub(s.cpu_started.load(Relaxed)) / 1_000_000_000)
                        .unwrap_or(0);
                    if (cpu >= HANG_CPU_S || wall >= HANG_WALL_S)
                        && s.facet.load(Relaxed) == facet
                        && s.case.load(Relaxed) == case
                    {
                        s.hung.store(1, SeqCst);
                        unsafe { libc::_exit(EXIT_HANG) };
                    }
                }
            }
        });
        for (fi, facet) in facets.iter().enumerate() {
            if only.is_some_and(|o| o != facet.name) {
                continue;
            }
            let n = if tier == "thorough" { facet.thorough } else { facet.quick };
            let n = ((n as f64 * scale) as u64).max(1);
            let next = AtomicU64::new(0);
            let began = Instant::now();
            let stats: Mutex<Vec<FacetStats>> = Mutex::new(Vec::new());
            std::thread::scope(|sc| {
                for t in 0..threads {
                    let (next, stats, stop, failure, progress) =
                        (&next, &stats, &stop, &failure, &progress);
                    let prop = prop.as_str();
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let slot = progress.slot(t);
                            let mut clock: libc::clockid_t = 0;
                            unsafe {
                                libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock)
                            };
                            let mut st = FacetStats::default();
                            let batch = if facet.blocking { 1 } else { 16 };
                            'outer: loop {
                                let lo = next.fetch_add(batch, Relaxed);
                                if lo >= n || stop.load(Relaxed) || Instant::now() > deadline {
                                    break;
                                }
                                for case in lo..(lo + batch).min(n) {
                                    slot.case.store(case, Relaxed);
                                    slot.started.store(now_ns(), Relaxed);
                                    if case == lo {
                                        slot.cpu_started
                                            .store(thread_cpu_ns(clock).unwrap_or(0), Relaxed);
                                        slot.clock.store(clock as u64, Relaxed);
                                    }
                                    slot.facet.store(fi as u64 + 1, Release);
                                    let mut src =
                                        Src::from_seed(case_seed(seed, prop, facet.name, case));
                                    let mut ctx = Ctx {
                                        want_sample: st.samples.len() < 2
                                            || (case % 97 == 0 && st.samples.len() < 4),
                                        ..Default::default()
                                    };
                                    let r = run_case(facet.f, &mut src, &mut ctx);
                                    slot.facet.store(0, Release);
                                    st.evals += 1;
                                    for l in &ctx.labels {
                                        *st.labels.entry(l).or_default() += 1;
                                    }
                                    if ctx.nontrivial {
                                        st.nontrivial += 1;
                                        st.distinct.insert(tape_hash(&src.tape));
                                        if let Some(s) = ctx.sample {
                                            st.samples.push(s);
                                        }
                                    }
                                    if let Err(message) = r {
                                        let mut g = failure.lock().unwrap();
                                        if g.is_none() {
                                            *g = Some(Failure {
                                                facet: facet.name,
                                                case,
                                                tape: src.tape,
                                                message,
                                            });
                                        }
                                        stop.store(true, Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                            stats.lock().unwrap().push(st);
                        })
                        .unwrap();
                }
            });
            let mut total = FacetStats::default();
            for s in stats.into_inner().unwrap() {
                total.evals += s.evals;
                total.nontrivial += s.nontrivial;
                total.distinct.extend(s.distinct);
                for (k, v) in s.labels {
                    *total.labels.entry(k).or_default() += v;
                }
                if total.samples.len() < 3 {
                    total.samples.extend(s.samples);
                }
            }
            total.samples.truncate(3);
            all.push(json!({
                "facet": facet.name,
                "rule": facet.rule,
                "planned": n,
                "evaluations": total.evals,
                "nontrivial": total.nontrivial,
                "distinct_nontrivial": total.distinct.len(),
                "labels": total.labels,
                "wall_s": (began.elapsed().as_secs_f64() * 100.0).round() / 100.0,
                "samples": total.samples,
            }));
            if stop.load(Relaxed) {
                break;
            }
        }
        done.store(true, Relaxed);
    });
    let failure = failure.into_inner().unwrap();
    let write = |fail: Value| {
        let v = json!({"facets": all, "failure": fail});
        let tmp = out.with_extension("tmp");
        std::fs::write(&tmp, serde_json::to_vec(&v).unwrap()).unwrap();
        std::fs::rename(&tmp, &out).unwrap();
    };
    let Some(f) = failure else {
        write(Value::Null);
        return ExitCode::SUCCESS;
    };
    // What was found is on disk before shrinking, which may itself hang or crash.
    write(json!({"facet": f.facet, "case": f.case, "tape": f.tape, "message": f.message}));
    let facet = *facets.iter().find(|x| x.name == f.facet).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let case = facet.f;
            let best = shrink(
                f.tape.clone(),
                if facet.blocking { 60 } else { 4000 },
                Instant::now() + Duration::from_secs(25),
                &mut |t| {
                    let mut s = Src::from_tape(t);
                    let mut c = Ctx::default();
                    run_case(case, &mut s, &mut c).is_err().then_some(s.tape)
                },
            );
            let mut s = Src::from_tape(&best);
            let mut c = Ctx { want_sample: true, ..Default::default() };
            let (tape, msg) = match run_case(case, &mut s, &mut c) {
                Err(m) => (best, m),
                Ok(()) => (f.tape.clone(), f.message.clone()),
            };
            let _ = tx.send(json!({"facet": f.facet, "case": f.case, "tape": tape, "message": msg,
               "original_message": f.message, "sample": c.sample}));
        })
        .unwrap();
    if let Ok(v) = rx.recv_timeout(Duration::from_secs(50)) {
        write(v);
    }
    unsafe { libc::_exit(0) }
}

/// Runs one case given by seed or tape, optionally logging the tape as it is drawn.
fn single(args: &[String]) -> ExitCode {
    let (prop, facet) = (&args[0], &args[1]);
    let facets = props::facets(prop);
    let Some(facet) = facets.iter().find(|f| f.name == facet) else {
        eprintln!("no such facet");
        return ExitCode::from(3);
    };
    let mut src = match args[2].as_str() {
        "seed" => Src::from_seed(args[3].parse().unwrap()),
        _ => {
            let v: Vec<u32> =
                serde_json::from_slice(&std::fs::read(&args[3]).unwrap()).unwrap();
            Src::from_tape(&v)
        }
    };
    let mut ctx = Ctx { want_sample: true, ..Default::default() };
    let r = run_case(facet.f, &mut src, &mut ctx);
    if let Some(s) = ctx.sample {
        println!("case: {s}");
    }
    match r {
        Ok(()) => {
            println!("held");
            ExitCode::SUCCESS
        }
        Err(e) => {
            println!("failed: {e}");
            ExitCode::from(1)
        }
    }
}

enum ChildEnd {
    Held,
    Failed(String),
    Crashed(String),
    Hung,
    Error,
}

fn run_single(bin: &Path, prop: &str, facet: &str, how: &str, arg: &str, limit: Duration) -> ChildEnd {
    let mut cmd = Command::new(bin);
    cmd.args(["single", prop, facet, how, arg]).stdout(Stdio::piped()).stderr(Stdio::piped());
    let Ok(mut ch) = cmd.spawn() else { return ChildEnd::Error };
    let start = Instant::now();
    let out = ch.stdout.take().unwrap();
    let err = ch.stderr.take().unwrap();
    let rd = |mut r: Box<dyn std::io::Read + Send>| {
        std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = r.read_to_end(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        })
    };
    let (jo, je) = (rd(Box::new(out)), rd(Box::new(err)));
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) if start.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                return ChildEnd::Hung;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(3)),
            Err(_) => return ChildEnd::Error,
        }
    };
    let (o, e) = (jo.join().unwrap_or_default(), je.join().unwrap_or_default());
    if let Some(sig) = st.signal() {
        if sig == libc::SIGKILL {
            return ChildEnd::Error;
        }
        return ChildEnd::Crashed(format!("killed by signal {sig}\n{}", tail(&e)));
    }
    match st.code() {
        Some(0) => ChildEnd::Held,
        Some(1) if o.contains("failed: ") => ChildEnd::Failed(o),
        Some(3) => ChildEnd::Error,
        Some(c) => ChildEnd::Crashed(format!("exit code {c}\n{}", tail(&e))),
        None => ChildEnd::Error,
    }
}

fn tail(s: &str) -> String {
    let lines: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    // A sanitizer's summary is at the top.
    let mut v: Vec<&str> = lines.iter().take(14).copied().collect();
    if lines.len() > 20 {
        v.push("...");
        v.extend(&lines[lines.len() - 4..]);
    }
    v.join("\n")
}

/// Generates the tape for a seed without running into the crash: run in a child that dumps it.
fn tape_of_seed(bin: &Path, prop: &str, facet: &str, seed: u64, scratch: &Path) -> Option<Vec<u32>> {
    // The generator is interleaved with the operations, so replay against a prefix-logging source.
    let log = scratch.join("tape.log");
    let _ = std::fs::remove_file(&log);
    let st = Command::new(bin)
        .args(["tapelog", prop, facet, &seed.to_string(), log.to_str()?])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()
        .map(|mut c| {
            let start = Instant::now();
            loop {
                if let Ok(Some(_)) = c.try_wait() {
                    break;
                }
                if start.elapsed() > Duration::from_secs(10) {
                    let _ = c.kill();
                    let _ = c.wait();
                    break;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        });
    st?;
    let raw = std::fs::read(&log).ok()?;
    Some(raw.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
}

struct Violation {
    facet: String,
    message: String,
    tape: Option<Vec<u32>>,
    seed: Option<u64>,
    sample: Option<String>,
    bin: &'static str,
}

fn write_replay(prop: &str, v: &Violation, case_no: Option<u64>) -> PathBuf {
    let dir = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{}.json", v.facet));
    let j = json!({"property": prop, "facet": v.facet, "engine": v.bin, "tape": v.tape, "seed": v.seed,
        "case": case_no, "message": v.message, "sample": v.sample,
        "how": "cd /verif && ./replay.sh <this file>"});
    let _ = std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap());
    path
}

/// One pass of a worker binary over the property's facets.
struct Pass {
    stats: Vec<Value>,
    violation: Option<(Violation, Option<u64>)>,
}

fn run_pass(
    prop: &str,
    bin: &Path,
    engine: &'static str,
    tier: &str,
    seed: u64,
    threads: usize,
    cap: f64,
    scale: f64,
    only: Option<&str>,
    scratch: &Path,
) -> Result<Pass, String> {
    let out = scratch.join(format!("{engine}-{}.json", only.unwrap_or("all")));
    let prog = scratch.join(format!("{engine}.progress"));
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&prog);
    let mut a = vec![
        "worker".to_string(),
        prop.into(),
        tier.into(),
        seed.to_string(),
        out.to_string_lossy().into_owned(),
        prog.to_string_lossy().into_owned(),
        threads.to_string(),
        cap.to_string(),
        scale.to_string(),
    ];
    if let Some(o) = only {
        a.push(o.into());
    }
    let mut cmd = Command::new(bin);
    cmd.args(&a).stdout(Stdio::null()).stderr(Stdio::piped());
    if engine == "asan" {
        cmd.env("VZ_NO_RLIMIT", "1");
    }
    let mut ch = cmd.spawn().map_err(|e| format!("cannot start worker: {e}"))?;
    let mut err = ch.stderr.take().unwrap();
    let je = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut err, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let st = ch.wait().map_err(|e| format!("wait: {e}"))?;
    let stderr = je.join().unwrap_or_default();
    if st.code() == Some(0) || out.exists() {
        let v: Value = serde_json::from_slice(&std::fs::read(&out).map_err(|e| e.to_string())?)
            .map_err(|e| e.to_string())?;
        let stats = v["facets"].as_array().cloned().unwrap_or_default();
        let f = &v["failure"];
        let violation = (!f.is_null()).then(|| {
            (
                Violation {
                    facet: f["facet"].as_str().unwrap_or("?").into(),
                    message: f["message"].as_str().unwrap_or("?").into(),
                    tape: serde_json::from_value(f["tape"].clone()).ok(),
                    seed: None,
                    sample: f["sample"].as_str().map(|s| s.to_string()),
                    bin: engine,
                },
                f["case"].as_u64(),
            )
        });
        return Ok(Pass { stats, violation });
    }
    if st.signal() == Some(libc::SIGKILL) {
        return Err("worker was killed (out of memory?)".into());
    }
    // Crash or hang: find the culprit.
    let hang = st.code() == Some(EXIT_HANG);
    let facets = props::facets(prop);
    let p = Progress::open(&prog);
    let mut cands = Vec::new();
    for i in 0..MAX_THREADS {
        let s = p.slot(i);
        let fi = s.facet.load(SeqCst);
        if fi != 0 && (!hang || s.hung.load(SeqCst) == 1) {
            cands.push((facets[fi as usize - 1], s.case.load(SeqCst)));
        }
    }
    let what = if hang {
        "a case did not terminate".to_string()
    } else if let Some(s) = st.signal() {
        format!("worker killed by signal {s}: {}", tail(&stderr))
    } else {
        format!("worker ended with {st}: {}", tail(&stderr))
    };
    if cands.is_empty() && !hang && st.signal().is_none() && engine != "asan" {
        return Err(what);
    }
    let limit = Duration::from_secs(if hang { 60 } else { 30 });
    for (facet, case) in &cands {
        let cs = case_seed(seed, prop, facet.name, *case);
        let tries = if facet.blocking && !hang { 10 } else { 1 };
        for _ in 0..tries {
            let end = run_single(bin, prop, facet.name, "seed", &cs.to_string(), limit);
            let msg = match end {
                ChildEnd::Crashed(m) => m,
                ChildEnd::Hung => "did not terminate".into(),
                ChildEnd::Failed(m) => m,
                ChildEnd::Held | ChildEnd::Error => continue,
            };
            let mut tape = tape_of_seed(bin, prop, facet.name, cs, scratch);
            if let Some(t) = tape.take() {
                let tf = scratch.join("cand.json");
                let lim = Duration::from_secs(if hang { 3 } else { 10 });
                let mut bad = |t: &[u32]| {
                    std::fs::write(&tf, serde_json::to_vec(t).unwrap()).ok()?;
                    match run_single(bin, prop, facet.name, "tape", tf.to_str()?, lim) {
                        ChildEnd::Held | ChildEnd::Error => None,
                        _ => Some(t.to_vec()),
                    }
                };
                if bad(&t).is_some() {
                    let deadline = Instant::now() + Duration::from_secs(45);
                    tape = Some(shrink(t, if hang { 40 } else { 400 }, deadline, &mut bad));
                }
            }
            return Ok(Pass {
                stats: Vec::new(),
                violation: Some((
                    Violation {
                        facet: facet.name.into(),
                        message: format!("{what}\n{msg}"),
                        tape,
                        seed: Some(cs),
                        sample: None,
                        bin: engine,
                    },
                    Some(*case),
                )),
            });
        }
    }
    if hang {
        // Not reproduced: a slow machine, not a finding.
        return Err("a case exceeded its time limit but does so no longer when repeated".into());
    }
    // A crash that needs its schedule: the signal itself is the finding.
    let (facet, case) = cands.first().map(|(f, c)| (f.name, Some(*c))).unwrap_or(("unknown", None));
    Ok(Pass {
        stats: Vec::new(),
        violation: Some((
            Violation {
                facet: facet.into(),
                message: what,
                tape: None,
                seed: case.map(|c| case_seed(seed, prop, facet, c)),
                sample: None,
                bin: engine,
            },
            case,
        )),
    })
}

fn run(args: &[String]) -> ExitCode {
    let prop = args[0].as_str();
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let tier = args.get(1).map(|s| s.as_str()).unwrap_or(tier);
    let env_f = |k: &str, d: f64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    let cap = env_f("VZ_CAP_S", if tier == "thorough" { 3600.0 } else { 240.0 });
    let scale = env_f("VZ_SCALE", 1.0);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    if props::facets(prop).is_empty() {
        eprintln!("unknown property {prop}");
        return ExitCode::from(2);
    }
    let scratch = std::env::temp_dir().join(format!("vzcheck-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let me = std::env::current_exe().unwrap();
    let mut passes: Vec<(String, Vec<Value>)> = Vec::new();
    let mut viol = None;
    let mut error = None;
    match run_pass(prop, &me, "native", tier, seed, threads, cap, scale, None, &scratch) {
        Ok(p) => {
            passes.push(("native".into(), p.stats));
            viol = p.violation;
        }
        Err(e) => error = Some(e),
    }
    if viol.is_none() && error.is_none() {
        if let Some(bin) = std::env::var_os("VZ_ASAN_BIN") {
            let s = scale * env_f("VZ_ASAN_SCALE", 0.25);
            match run_pass(prop, Path::new(&bin), "asan", tier, seed ^ 0xA5A5, threads, cap, s, None, &scratch)
            {
                Ok(p) => {
                    passes.push(("asan".into(), p.stats));
                    viol = p.violation;
                }
                Err(e) => error = Some(e),
            }
        }
    }
    if viol.is_none() && error.is_none() && std::env::var_os("VZ_MIRI_DIR").is_some() {
        match miri_pass(prop, tier, seed, threads, scale) {
            Ok((stats, v)) => {
                passes.push(("miri".into(), stats));
                viol = v;
            }
            Err(e) => error = Some(e),
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if let Some(e) = error {
        eprintln!("check error: {e}");
        return ExitCode::from(2);
    }
    // Evidence.
    let mut evals = 0;
    let mut distinct = 0;
    let mut samples = Vec::new();
    let mut rules = Vec::new();
    let mut per = Vec::new();
    for (engine, stats) in &passes {
        for s in stats {
            evals += s["evaluations"].as_u64().unwrap_or(0);
            distinct += s["distinct_nontrivial"].as_u64().unwrap_or(0);
            let name = s["facet"].as_str().unwrap_or("?");
            for x in s["samples"].as_array().into_iter().flatten().take(2) {
                samples.push(json!({"engine": engine, "facet": name, "case": x}));
            }
            let r = format!("{name}: {}", s["rule"].as_str().unwrap_or(""));
            if !rules.contains(&r) {
                rules.push(r);
            }
            let mut s = s.clone();
            if let Some(o) = s.as_object_mut() {
                o.remove("samples");
                o.remove("rule");
                o.insert("engine".into(), json!(engine));
            }
            per.push(s);
        }
    }
    if samples.is_empty() {
        if let Some((v, _)) = &viol {
            samples.push(json!({"facet": v.facet, "failing": v.message}));
        }
    }
    let level = props::level(prop);
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": format!("Cases are drawn from a seeded choice sequence; two cases are distinct when their choice sequences differ. Non-trivial, per facet -- {}", rules.join(" | ")),
            "samples": samples, "facets": per,
        },
        "assumptions": props::assumptions(prop),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": viol.is_some() as u32,
    });
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return ExitCode::from(2);
    }
    let stdout = std::io::stdout();
    let mut o = stdout.lock();
    for k in props::known(prop) {
        match catch(k.demo) {
            Ok(true) => {
                let _ = writeln!(o, "KNOWN-FINDING: property={prop} {}", k.text);
            }
            _ => {
                let _ = writeln!(o, "note: listed finding no longer reproduces: {}", k.text);
            }
        }
    }
    if let Some((v, case)) = viol {
        let path = write_replay(prop, &v, case);
        let _ = writeln!(o, "facet {} ({}): {}", v.facet, v.bin, v.message);
        if let Some(s) = &v.sample {
            let _ = writeln!(o, "case: {s}");
        }
        let _ = writeln!(o, "VIOLATION property={prop} replay={}", path.display());
        return ExitCode::from(1);
    }
    let _ = writeln!(
        o,
        "ok property={prop} tier={tier} seed={seed} evaluations={evals} distinct_nontrivial={distinct} wall={:.1}s",
        start.elapsed().as_secs_f64()
    );
    ExitCode::SUCCESS
}

/// Interprets a share of the cases under Miri.
fn miri_pass(
    prop: &str,
    tier: &str,
    seed: u64,
    threads: usize,
    scale: f64,
) -> Result<(Vec<Value>, Option<(Violation, Option<u64>)>), String> {
    let dir = std::env::var("VZ_MIRI_DIR").map_err(|e| e.to_string())?;
    let facets = props::facets(prop);
    let mut handles = Vec::new();
    let budget = if tier == "thorough" { 900 } else { 120 };
    for t in 0..threads {
        let mut cmd = Command::new("cargo");
        cmd.args(["+nightly", "miri", "run", "--offline", "-q", "--", "miri", prop, &seed.to_string()])
            .args([t.to_string(), threads.to_string(), tier.to_string(), scale.to_string(), budget.to_string()])
            .current_dir(&dir)
            .env_remove("RUSTFLAGS")
            .env(
                "MIRIFLAGS",
                format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows -Zmiri-address-reuse-cross-thread-rate=0.0 -Zmiri-seed={t}"),
            )
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        let ch = cmd.spawn().map_err(|e| format!("miri: {e}"))?;
        handles.push(std::thread::spawn(move || ch.wait_with_output()));
    }
    let mut counts: BTreeMap<String, (u64, u64, HashSet<u64>, Vec<String>)> = BTreeMap::new();
    let mut viol = None;
    for h in handles {
        let out = h.join().map_err(|_| "join")?.map_err(|e| e.to_string())?;
        let o = String::from_utf8_lossy(&out.stdout);
        let mut last = None;
        for l in o.lines() {
            let w: Vec<&str> = l.splitn(5, ' ').collect();
            match w.as_slice() {
                ["begin", facet, case, ..] => last = Some((facet.to_string(), case.parse::<u64>().unwrap_or(0))),
                ["end", facet, _, nt, h] => {
                    last = None;
                    let e = counts.entry(facet.to_string()).or_default();
                    e.0 += 1;
                    if *nt == "1" {
                        e.1 += 1;
                        e.2.insert(h.parse().unwrap_or(0));
                    }
                }
                _ => {}
            }
            if let Some(s) = l.strip_prefix("sample ") {
                if let Some((f, s)) = s.split_once(' ') {
                    let e = counts.entry(f.to_string()).or_default();
                    if e.3.len() < 2 {
                        e.3.push(s.to_string());
                    }
                }
            }
        }
        let e = String::from_utf8_lossy(&out.stderr);
        if out.status.success() {
            continue;
        }
        if let Some(l) = o.lines().find(|l| l.starts_with("failed ")) {
            viol.get_or_insert((
                Violation {
                    facet: last.as_ref().map(|l| l.0.clone()).unwrap_or_default(),
                    message: l.to_string(),
                    tape: None,
                    seed: last.as_ref().map(|l| case_seed(seed, prop, &l.0, l.1)),
                    sample: None,
                    bin: "miri",
                },
                last.as_ref().map(|l| l.1),
            ));
        } else if e.contains("Undefined Behavior") || e.contains("Data race") || e.contains("deadlock") {
            let at = e.find("Undefined Behavior").unwrap_or(0);
            viol.get_or_insert((
                Violation {
                    facet: last.as_ref().map(|l| l.0.clone()).unwrap_or_default(),
                    message: tail(&e[at.saturating_sub(8)..]),
                    tape: None,
                    seed: last.as_ref().map(|l| case_seed(seed, prop, &l.0, l.1)),
                    sample: None,
                    bin: "miri",
                },
                last.as_ref().map(|l| l.1),
            ));
        } else {
            return Err(format!("miri ended with {}: {}", out.status, tail(&e)));
        }
    }
    let stats = facets
        .iter()
        .filter_map(|f| {
            let c = counts.get(f.name)?;
            Some(json!({"facet": f.name, "rule": f.rule, "evaluations": c.0, "nontrivial": c.1,
                "distinct_nontrivial": c.2.len(), "samples": c.3, "labels": {}}))
        })
        .collect();
    Ok((stats, viol))
}

/// The part that runs inside Miri.
fn miri_inner(args: &[String]) -> ExitCode {
    let prop = args[0].as_str();
    let seed: u64 = args[1].parse().unwrap();
    let (t, threads): (u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap());
    let tier = args[4].as_str();
    let scale: f64 = args[5].parse().unwrap();
    let budget: u64 = args[6].parse().unwrap();
    let only = args.get(7);
    let start = Instant::now();
    let times = if tier == "thorough" { 25.0 } else { 1.0 } * scale;
    let facets = props::facets(prop);
    let mut sampled = HashSet::new();
    let counts: Vec<u64> = facets.iter().map(|f| (props::under_miri(prop, f.name) as f64 * times) as u64).collect();
    let most = counts.iter().copied().max().unwrap_or(0);
    for case in (t..most).step_by(threads as usize) {
        for (f, n) in facets.iter().zip(&counts) {
            if case >= *n {
                continue;
            }
            if start.elapsed().as_secs() > budget {
                return ExitCode::SUCCESS;
            }
            if only.is_some_and(|o| o != f.name) {
                continue;
            }
            println!("begin {} {case}", f.name);
            let mut src = Src::from_seed(case_seed(seed, prop, f.name, case));
            let mut ctx = Ctx { want_sample: sampled.insert(f.name), ..Default::default() };
            let r = run_case(f.f, &mut src, &mut ctx);
            if let Some(s) = &ctx.sample {
                println!("sample {} {}", f.name, s.replace('\n', " "));
            }
            if let Err(e) = r {
                println!("failed {} {case}: {}", f.name, e.replace('\n', " "));
                return ExitCode::from(1);
            }
            println!("end {} {case} {} {}", f.name, ctx.nontrivial as u8, tape_hash(&src.tape));
        }
    }
    ExitCode::SUCCESS
}

fn tapelog(args: &[String]) -> ExitCode {
    let facets = props::facets(&args[0]);
    let f = facets.iter().find(|f| f.name == args[1]).unwrap();
    let mut src = Src::from_seed(args[2].parse().unwrap());
    src.log_to(std::fs::File::create(&args[3]).unwrap());
    let mut ctx = Ctx::default();
    let _ = run_case(f.f, &mut src, &mut ctx);
    ExitCode::SUCCESS
}

fn replay(args: &[String]) -> ExitCode {
    let v: Value = serde_json::from_slice(&std::fs::read(&args[0]).unwrap()).unwrap();
    let prop = v["property"].as_str().unwrap();
    let facet = v["facet"].as_str().unwrap();
    println!("property {prop} facet {facet}: {}", v["message"].as_str().unwrap_or(""));
    let f = std::env::temp_dir().join(format!("vz-replay-{}.json", std::process::id()));
    let (how, arg) = if v["tape"].is_array() {
        std::fs::write(&f, v["tape"].to_string()).unwrap();
        ("tape", f.to_string_lossy().into_owned())
    } else {
        ("seed", v["seed"].as_u64().unwrap_or(0).to_string())
    };
    let r = single(&[prop.to_string(), facet.to_string(), how.into(), arg]);
    let _ = std::fs::remove_file(&f);
    r
}

fn main() -> ExitCode {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("run") => run(&args[1..]),
        Some("worker") => worker(&args[1..]),
        Some("single") => single(&args[1..]),
        Some("tapelog") => tapelog(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("miri") => miri_inner(&args[1..]),
        Some("list") => {
            for p in props::PROPS {
                println!("{p}");
            }
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: vzcheck run <ID> [tier] | replay <file> | list");
            ExitCode::from(2)
        }
    }
}
