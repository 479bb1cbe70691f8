//! Runs a property: a parent process supervises worker processes which generate and check
//! cases; a failing case is minimised and written as a replay file.
use crate::alloc;
use crate::case::Case;
use crate::gen::G;
use crate::props::{self, Prop};
use crate::scene::{slow_to_cluster, widen};
use crate::util::{prim_box, Box6, BINNED, LOCB};
use crate::shrink::{shrink, Budget};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            labels: BTreeMap::new(),
            nontrivial: false,
        }
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.labels.entry(k).or_insert(0) += n;
        }
    }
    pub fn hit(&mut self, k: &'static str) {
        self.add(k, 1)
    }
}

static PANIC: Mutex<Option<String>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        eprintln!("panic: {}", text);
        let mut p = PANIC.lock().unwrap();
        if p.is_none() {
            *p = Some(text);
        }
    }));
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough") == Ok(true)
}

/// Seconds after which workers start no further case; what was explored by then is reported.
fn seconds() -> u64 {
    match std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse().ok()) {
        Some(s) => s,
        None if thorough() => 760,
        None => 600,
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn gen_case(p: &Prop, seed: u64, idx: u64) -> Case {
    let mut g = G::new(seed, p.id, idx);
    let mut c = (p.gen)(&mut g, idx);
    if p.wide_leaves() && idx % (p.quick / 12) == 41 {
        // now and then a leaf of more primitives than sixteen bits count
        widen(&mut g, &mut c);
        if p.id == "C12" && c.u.len() > 3 {
            let n = c.tris.len().max(c.prims.len()) as i64;
            c.u[3] = g.pick(&[n, n, n - 1, n / 2]);
        }
    }
    let n = c.tris.len().max(c.prims.len());
    if n > 5000 && p.first_is_builder() && c.u.first() == Some(&LOCB) {
        // a wrong number of boxes may be what the case is about
        let boxes: Vec<Box6> = if c.boxes.is_empty() {
            (0..n).map(|i| prim_box(&c, i)).collect()
        } else {
            c.boxes.clone()
        };
        let points: Vec<Box6> = boxes
            .iter()
            .map(|b| {
                let c = [0, 1, 2].map(|a| 0.5 * (b[a] + b[a + 3]));
                [c[0], c[1], c[2], c[0], c[1], c[2]]
            })
            .collect();
        if slow_to_cluster(&boxes) || (p.id == "C21" && slow_to_cluster(&points)) {
            c.u[0] = BINNED;
        }
    }
    c
}

/// Whether allocations of a case are fenced, and what fresh memory is filled with: by content.
fn memory_mode(p: &Prop, c: &Case) -> (u32, u64) {
    let mut h = 0x9E37_79B9_7F4A_7C15u64;
    let mut mix = |x: u64| {
        h = (h ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 32;
    };
    mix(c.tris.len() as u64);
    for x in c.u.iter().take(8) {
        mix(*x as u64);
    }
    let first = c.tris.first().map(|t| &t[..]).or(c.prims.first().map(|t| &t[..]));
    for x in first.unwrap_or(&[]).iter().chain(c.rays.first().map(|r| &r[..]).unwrap_or(&[])) {
        mix(x.to_bits() as u64);
    }
    let one_in = match p.id {
        "C15" | "C16" | "C17" => 0,
        "C18" => 2000,
        "C20" => 300,
        "C21" | "C22" | "C23" | "C26" => 12,
        _ => 40,
    };
    if one_in == 0 || !fenceable(p, c) || (h >> 8) % one_in != 0 {
        (0, h >> 40)
    } else {
        (1 + ((h >> 36) % 4 == 0) as u32, h >> 40)
    }
}

/// Fenced allocations take a page each and two system calls.
fn fenceable(p: &Prop, c: &Case) -> bool {
    // C22 can ask for more structures than a process may have mappings
    (p.id != "C22" || c.u.get(3).map_or(true, |n| *n < 1000))
        && alloc::fenced() < 8_000_000 && c.tris.len().max(c.prims.len()).max(c.boxes.len()) <= 1500
}

pub fn run_case(p: &Prop, c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let (mode, fill) = memory_mode(p, c);
    if mode != 0 {
        ctx.hit("cases with fenced allocations");
    }
    run_mode(p, c, ctx, mode, fill)
}

/// As the workers do, then with fences behind and before every allocation.
fn run_all_modes(p: &Prop, c: &Case) -> Result<(), String> {
    run_case(p, c, &mut Ctx::new())?;
    if fenceable(p, c) {
        run_mode(p, c, &mut Ctx::new(), 1, 0)?;
        run_mode(p, c, &mut Ctx::new(), 2, 2)?;
    }
    Ok(())
}

fn run_mode(p: &Prop, c: &Case, ctx: &mut Ctx, mode: u32, fill: u64) -> Result<(), String> {
    *PANIC.lock().unwrap() = None;
    alloc::begin(mode, fill);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.check)(c, ctx)));
    alloc::end();
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.lock().unwrap().take().unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    }
}

fn kind(e: &str) -> &str {
    e.split(':').next().unwrap_or(e)
}

fn cpu_seconds() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

static CURRENT: AtomicU64 = AtomicU64::new(0);
const HANG_CPU: f64 = 120.0;
const STALL_TICKS: u32 = 300;
const HANG_EXIT: i32 = 11;
const FAIL_EXIT: i32 = 10;

/// Ends the process when one case has used more than HANG_CPU seconds of CPU time (cases
/// take milliseconds), or when it has used none at all for STALL_TICKS half seconds: a deadlock.
fn hang_guard() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, cpu_seconds());
        let mut active = (0u32, cpu_seconds());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CURRENT.load(Ordering::Relaxed);
            let cpu = cpu_seconds();
            if cur != last.0 {
                last = (cur, cpu);
                active = (0, cpu);
            } else if cpu - last.1 > HANG_CPU {
                std::process::exit(HANG_EXIT);
            }
            // waking up twice a second costs well below a hundredth of a second
            active.0 += 1;
            if cpu - active.1 > 0.25 {
                active = (0, cpu);
            } else if active.0 > STALL_TICKS {
                std::process::exit(HANG_EXIT);
            }
        }
    });
}

/// A runaway allocation ends as a failed allocation instead of taking the machine with it.
fn memory_limit() {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 3_400_000_000,
            rlim_max: 3_400_000_000,
        };
        libc::setrlimit(libc::RLIMIT_DATA, &l);
    }
}

fn corpus(id: &str) -> Vec<(String, Case)> {
    let dir = root().join("corpus").join(id);
    let mut v = vec![];
    if let Ok(rd) = fs::read_dir(dir) {
        let mut names: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        names.sort();
        for n in names {
            if n.extension().map(|e| e == "json") == Some(true) {
                let j: Value = serde_json::from_str(&fs::read_to_string(&n).unwrap()).unwrap();
                v.push((
                    n.file_name().unwrap().to_string_lossy().into_owned(),
                    Case::from_json(&j["case"]),
                ));
            }
        }
    }
    v
}

const CORPUS_BASE: u64 = 1 << 60;

/// worker <id> <i> <k> <n> <dir>
pub fn worker(a: &[String]) -> i32 {
    let p = props::find(&a[0]);
    let i: u64 = a[1].parse().unwrap();
    let k: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    let dir = Path::new(&a[4]);
    alloc::init();
    install_hook();
    memory_limit();
    hang_guard();
    let status = fs::File::create(dir.join(format!("status{}", i))).unwrap();
    let mut ctx = Ctx::new();
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut hashes: Vec<u64> = vec![];
    let mut samples: Vec<Value> = vec![];
    let sd = seed();
    let (begun, stop) = (Instant::now(), Duration::from_secs(seconds()));
    let mut work: Vec<(u64, Option<Case>)> = vec![];
    if i == 0 {
        for (j, (_, c)) in corpus(p.id).into_iter().enumerate() {
            work.push((CORPUS_BASE + j as u64, Some(c)));
        }
    }
    let mut idx = i;
    let mut w = work.into_iter();
    loop {
        let (id, case) = match w.next() {
            Some((id, Some(c))) => (id, c),
            _ => {
                if idx >= n || begun.elapsed() > stop {
                    break;
                }
                let id = idx;
                idx += k;
                CURRENT.store(id, Ordering::Relaxed);
                status.write_at(&id.to_le_bytes(), 0).unwrap();
                (id, gen_case(&p, sd, id))
            }
        };
        CURRENT.store(id, Ordering::Relaxed);
        status.write_at(&id.to_le_bytes(), 0).unwrap();
        ctx.nontrivial = false;
        let r = run_case(&p, &case, &mut ctx);
        evals += 1;
        if ctx.nontrivial {
            nontrivial += 1;
            hashes.push(case.hash());
            if samples.len() < 2 && id % 3 == 0 {
                samples.push(case.sample());
            }
        }
        if let Err(e) = r {
            // Confirm, minimise, report
            let mut last = e.clone();
            let k0 = kind(&e).to_string();
            let again = run_case(&p, &case, &mut Ctx::new());
            let reproducible = again.is_err();
            let mut min = case.clone();
            if reproducible {
                let t = Instant::now();
                let mut b = Budget::new(4000, 25);
                min = shrink(&case, &mut b, &mut |c| {
                    CURRENT.fetch_xor(1 << 50, Ordering::Relaxed);
                    match run_case(&p, c, &mut Ctx::new()) {
                        Err(e2) if kind(&e2) == k0 => {
                            last = e2;
                            true
                        }
                        _ => false,
                    }
                });
                let _ = t;
            }
            let j = json!({"index": id, "error": last, "first_error": e, "reproducible": reproducible,
                           "case": min.to_json(), "original": case.to_json()});
            fs::write(
                dir.join(format!("fail{}.json", i)),
                serde_json::to_string(&j).unwrap(),
            )
            .unwrap();
            return FAIL_EXIT;
        }
    }
    let mut hf = fs::File::create(dir.join(format!("hash{}", i))).unwrap();
    let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    hf.write_all(&bytes).unwrap();
    let j = json!({"evals": evals, "nontrivial": nontrivial, "labels": ctx.labels, "samples": samples});
    fs::write(
        dir.join(format!("done{}.json", i)),
        serde_json::to_string(&j).unwrap(),
    )
    .unwrap();
    0
}

/// exec <id> <file>: checks one case in this process; exit 0 or FAIL_EXIT.
pub fn exec(id: &str, file: &str) -> i32 {
    let p = props::find(id);
    install_hook();
    memory_limit();
    hang_guard();
    let j: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let c = Case::from_json(&j["case"]);
    alloc::init();
    match run_all_modes(&p, &c) {
        Ok(()) => 0,
        Err(e) => {
            println!("FAIL {}", e);
            FAIL_EXIT
        }
    }
}

fn exec_sub(id: &str, c: &Case, dir: &Path) -> (i32, String) {
    let f = dir.join("probe.json");
    fs::write(&f, json!({"case": c.to_json()}).to_string()).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["exec", id, f.to_str().unwrap()])
        .stdin(Stdio::null())
        .output()
        .unwrap();
    let mut text = String::from_utf8_lossy(&out.stdout).into_owned();
    if out.status.code().is_none() || text.is_empty() {
        let e = String::from_utf8_lossy(&out.stderr);
        let first = e.lines().next().unwrap_or("");
        text = format!("process ended by signal {:?}: {}", out.status.signal(), first);
    }
    let code = match out.status.code() {
        Some(c) => c,
        None => 1000 + out.status.signal().unwrap_or(0),
    };
    (code, text)
}

pub fn replay(file: &str) -> i32 {
    let j: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let id = j["property"].as_str().unwrap().to_string();
    let dir = std::env::temp_dir().join(format!("rtbvh-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let (code, text) = exec_sub(&id, &Case::from_json(&j["case"]), &dir);
    let _ = fs::remove_dir_all(&dir);
    if code == 0 {
        println!("held: {}", file);
        0
    } else {
        println!("{}", text.trim());
        println!("VIOLATION property={} replay={}", id, file);
        1
    }
}

struct Failure {
    index: u64,
    error: String,
    case: Case,
}

fn known_findings(id: &str) -> Vec<(String, Case, String)> {
    // (name, case, what): cases listed as findings rather than repaired
    let path = root().join("known-findings.json");
    let mut out = vec![];
    if let Ok(s) = fs::read_to_string(path) {
        let j: Value = serde_json::from_str(&s).unwrap();
        for e in j["findings"].as_array().unwrap_or(&vec![]) {
            if e["property"] == id {
                out.push((
                    e["name"].as_str().unwrap_or("").to_string(),
                    Case::from_json(&e["case"]),
                    e["what"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
    }
    out
}

pub fn run(id: &str) -> i32 {
    let started = Instant::now();
    let p = props::find(id);
    let tier = if thorough() { "thorough" } else { "quick" };
    let mut n = if thorough() { p.thorough } else { p.quick };
    if let Ok(s) = std::env::var("VERIF_CASES") {
        n = s.parse().unwrap();
    }
    let k = std::thread::available_parallelism()
        .map(|x| x.get() as u64)
        .unwrap_or(4)
        .min(8);
    let dir = root()
        .join("work")
        .join(format!("{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let spawn = |i: u64| -> Child {
        Command::new(&exe)
            .args([
                "worker",
                p.id,
                &i.to_string(),
                &k.to_string(),
                &n.to_string(),
                dir.to_str().unwrap(),
            ])
            .env("RAYON_NUM_THREADS", "2")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker")
    };
    let mut children: Vec<Option<Child>> = (0..k).map(|i| Some(spawn(i))).collect();
    let limit = Duration::from_secs(seconds() + 110);
    let mut failure: Option<Failure> = None;
    let mut error: Option<String> = None;
    let kill_all = |children: &mut Vec<Option<Child>>| {
        for c in children.iter_mut() {
            if let Some(mut c) = c.take() {
                let _ = c.kill();
                let _ = c.wait();
            }
        }
    };
    'outer: loop {
        let mut running = false;
        for i in 0..k as usize {
            let st = match children[i].as_mut() {
                Some(c) => c.try_wait().unwrap(),
                None => continue,
            };
            let st = match st {
                None => {
                    running = true;
                    continue;
                }
                Some(s) => s,
            };
            children[i] = None;
            match st.code() {
                Some(0) => {}
                Some(FAIL_EXIT) => {
                    let j: Value = serde_json::from_str(
                        &fs::read_to_string(dir.join(format!("fail{}.json", i))).unwrap(),
                    )
                    .unwrap();
                    failure = Some(Failure {
                        index: j["index"].as_u64().unwrap(),
                        error: j["error"].as_str().unwrap().to_string(),
                        case: Case::from_json(&j["case"]),
                    });
                    kill_all(&mut children);
                    break 'outer;
                }
                code => {
                    let sig = st.signal();
                    let mut b = [0u8; 8];
                    let sf = fs::read(dir.join(format!("status{}", i))).unwrap_or_default();
                    if sf.len() == 8 {
                        b.copy_from_slice(&sf);
                    }
                    let index = u64::from_le_bytes(b);
                    kill_all(&mut children);
                    if sig == Some(libc::SIGKILL) {
                        error = Some(format!("worker was killed at case {} (memory?)", index));
                        break 'outer;
                    }
                    let case = if index >= CORPUS_BASE {
                        corpus(p.id)[(index - CORPUS_BASE) as usize].1.clone()
                    } else {
                        gen_case(&p, seed(), index)
                    };
                    let hang = code == Some(HANG_EXIT);
                    // Crashes of racing threads do not come back every time
                    let crash = matches!(
                        sig,
                        Some(libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE)
                    );
                    let (mut c1, mut text) = (0, String::new());
                    for _ in 0..if hang { 0 } else { 12 } {
                        let (c, t) = exec_sub(p.id, &case, &dir);
                        c1 = c;
                        text = t;
                        if c1 != 0 {
                            break;
                        }
                    }
                    let again = c1 != 0 && c1 != 1000 + libc::SIGKILL;
                    if !again && !hang && !crash {
                        error = Some(format!(
                            "worker ended with {:?} at case {}, not reproduced",
                            st, index
                        ));
                        break 'outer;
                    }
                    if !again && crash {
                        text = format!("process ended by signal {:?}, not reproduced in 12 runs", sig);
                    }
                    let mut text = if hang {
                        format!("no end: still running after {} s of CPU time, or idle for {} s", HANG_CPU, STALL_TICKS / 2)
                    } else {
                        text
                    };
                    let mut best = case.clone();
                    if !hang && again {
                        let mut bud = Budget::new(1500, 40);
                        best = shrink(&case, &mut bud, &mut |c| {
                            let (code, t) = exec_sub(p.id, c, &dir);
                            let f = code != 0 && code != 1000 + libc::SIGKILL && code != HANG_EXIT;
                            if f {
                                text = t;
                            }
                            f
                        });
                    }
                    failure = Some(Failure {
                        index,
                        error: text,
                        case: best,
                    });
                    break 'outer;
                }
            }
        }
        if !running {
            break;
        }
        if started.elapsed() > limit {
            kill_all(&mut children);
            error = Some("time limit reached: inconclusive".into());
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }

    // Merge what the workers covered
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for i in 0..k {
        if let Ok(s) = fs::read_to_string(dir.join(format!("done{}.json", i))) {
            let j: Value = serde_json::from_str(&s).unwrap();
            evals += j["evals"].as_u64().unwrap();
            nontrivial += j["nontrivial"].as_u64().unwrap();
            for (kk, v) in j["labels"].as_object().unwrap() {
                *labels.entry(kk.clone()).or_insert(0) += v.as_u64().unwrap();
            }
            for s in j["samples"].as_array().unwrap() {
                if samples.len() < 4 {
                    samples.push(s.clone());
                }
            }
            let h = fs::read(dir.join(format!("hash{}", i))).unwrap_or_default();
            for c in h.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let mut violations = 0;
    let mut replay_path = String::new();
    if let Some(f) = &failure {
        violations = 1;
        evals = evals.max(1);
        let rdir = root().join("replays");
        fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-{:016x}.json", p.id, f.case.hash()));
        let j = json!({"property": p.id, "seed": seed(), "index": f.index, "error": f.error, "case": f.case.to_json()});
        fs::write(&path, serde_json::to_string(&j).unwrap()).unwrap();
        replay_path = path.to_string_lossy().into_owned();
        samples.push(f.case.sample());
    }
    let mut known = vec![];
    for (name, case, what) in known_findings(p.id) {
        let (code, _) = exec_sub(p.id, &case, &dir);
        if code != 0 {
            println!("KNOWN-FINDING: property={} {} {}", p.id, name, what);
            known.push(name);
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed() as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "nontrivial_cases": nontrivial,
            "rule": p.rule,
            "samples": samples,
            "distribution": labels,
            "regression_inputs": corpus(p.id).len(),
            "workers": k,
            "planned": n,
        },
        "assumptions": p.assumptions,
        "wall_s": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    let evd = root().join("evidence");
    fs::create_dir_all(&evd).unwrap();
    fs::write(
        evd.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .unwrap();
    if let Some(f) = &failure {
        println!("case {} of seed {}: {}", f.index, seed(), f.error.trim());
        println!("VIOLATION property={} replay={}", p.id, replay_path);
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR property={} {}", p.id, e);
        return 2;
    }
    println!(
        "held property={} tier={} seed={} cases={} distinct_nontrivial={} wall={:.1}s",
        p.id,
        tier,
        seed(),
        evals,
        distinct.len(),
        started.elapsed().as_secs_f64()
    );
    0
}
