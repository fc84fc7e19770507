//! Supervisor and workers: run the cases of a property, watch for crashes and hangs,
//! collect what the monitors observed and write the evidence.
use crate::case::Case;
use crate::json::{self, n, s, J};
use crate::sut;
use crate::util::{hash_str, mix, Rng, Stats};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Ok,
    Violation(String),
    Skip(String),
}

pub struct Prop {
    pub id: &'static str,
    /// number of cases of the quick tier
    pub quick: u64,
    /// seconds of the thorough tier
    pub thorough_secs: u64,
    pub gen: fn(&mut Rng, u64, Tier) -> Option<Case>,
    pub check: fn(&Case, &mut Stats) -> Outcome,
    /// the run of the system under test alone, to confirm crashes
    pub plain: fn(&Case),
    /// fixed cases, run before the generated ones
    pub fixed: fn(Tier) -> Vec<Case>,
    pub shrink: bool,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn no_fixed(_: Tier) -> Vec<Case> {
    vec![]
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn repo_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()))
}

pub fn scratch_dir() -> PathBuf {
    let d = PathBuf::from(std::env::var("VMON_SCRATCH").unwrap_or_else(|_| "/tmp/vmon".into()));
    let _ = std::fs::create_dir_all(&d);
    d
}

/// where the worker keeps the files of a case; includes are looked up there
pub fn table_dir() -> PathBuf {
    scratch_dir().join(format!("tab-{}", std::process::id()))
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1)
}

fn case_rng(id: &str, seed: u64, idx: u64) -> Rng {
    Rng::new(mix(seed ^ hash_str(id)) ^ mix(idx.wrapping_mul(0x51ed2701)))
}

pub fn make_case(p: &Prop, seed: u64, idx: u64, tier: Tier, fixed: &[Case]) -> Option<Case> {
    if (idx as usize) < fixed.len() {
        return Some(fixed[idx as usize].clone());
    }
    let mut rng = case_rng(p.id, seed, idx);
    let mut c = (p.gen)(&mut rng, idx - fixed.len() as u64, tier)?;
    c.prop = p.id.to_string();
    Some(c)
}

// ---------------------------------------------------------------- worker

pub struct WorkerArgs {
    pub tier: Tier,
    pub seed: u64,
    pub start: u64,
    pub step: u64,
    pub limit: u64,
    pub secs: f64,
    pub out: PathBuf,
    pub prog: PathBuf,
}

fn save(out: &Path, st: &Stats, cases: u64, skips: &BTreeMap<String, u64>, viol: &[(Case, String)], next: u64, done: bool) {
    let map = |m: &BTreeMap<String, u64>| {
        J::Obj(m.iter().map(|(k, v)| (k.clone(), n(*v as i64))).collect())
    };
    let j = J::Obj(vec![
        ("counters".into(), map(&st.counters)),
        ("evaluations".into(), n(st.evaluations as i64)),
        ("cases".into(), n(cases as i64)),
        ("next".into(), n(next as i64)),
        ("done".into(), J::Bool(done)),
        ("skips".into(), map(skips)),
        ("samples".into(), J::Arr(st.samples.iter().map(|x| s(x.clone())).collect())),
        (
            "violations".into(),
            J::Arr(
                viol.iter()
                    .map(|(c, m)| {
                        J::Obj(vec![("case".into(), c.to_json()), ("message".into(), s(m.clone()))])
                    })
                    .collect(),
            ),
        ),
    ]);
    let _ = std::fs::write(out, j.to_text());
    let mut b = Vec::with_capacity(st.distinct.len() * 8);
    for h in &st.distinct {
        b.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(out.with_extension("distinct"), b);
}

/// panics of the harness itself are not violations
fn run_check(p: &Prop, c: &Case, st: &mut Stats) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.check)(c, st))) {
        Ok(o) => o,
        Err(_) => Outcome::Skip(format!("harness panic: {}", sut::last_panic())),
    }
}

pub fn worker(p: &'static Prop, a: WorkerArgs) {
    sut::install_panic_hook();
    set_table_path();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let prog = std::fs::OpenOptions::new()
                .write(true)
                .create(true)
                .truncate(false)
                .open(&a.prog)
                .expect("progress file");
            let t0 = Instant::now();
            let mut st = Stats::default();
            let mut skips: BTreeMap<String, u64> = BTreeMap::new();
            let mut viol: Vec<(Case, String)> = vec![];
            let fixed = (p.fixed)(a.tier);
            let mut idx = a.start;
            let mut cases = 0;
            let mut last_save = Instant::now();
            while idx < a.limit && t0.elapsed().as_secs_f64() < a.secs && viol.iter().filter(|(c, _)| !c.kind.starts_with("probe:")).count() < 2 {
                let _ = prog.write_at(&idx.to_le_bytes(), 0);
                if let Some(c) = make_case(p, a.seed, idx, a.tier, &fixed) {
                    cases += 1;
                    match run_check(p, &c, &mut st) {
                        Outcome::Ok => {}
                        Outcome::Skip(r) => {
                            let r: String = r.chars().take(160).collect();
                            if skips.len() < 50 || skips.contains_key(&r) {
                                *skips.entry(r).or_insert(0) += 1;
                            }
                        }
                        Outcome::Violation(m) => {
                            viol.push((c.clone(), m.clone()));
                            save(&a.out, &st, cases, &skips, &viol, idx + a.step, false);
                            let _ = prog.write_at(&u64::MAX.to_le_bytes(), 0);
                            if p.shrink {
                                let (c2, m2) = shrink(p, &c, &m, Duration::from_secs(10));
                                *viol.last_mut().unwrap() = (c2, m2);
                            }
                            save(&a.out, &st, cases, &skips, &viol, idx + a.step, false);
                        }
                    }
                }
                idx += a.step;
                if last_save.elapsed().as_secs() > 5 {
                    save(&a.out, &st, cases, &skips, &viol, idx, false);
                    last_save = Instant::now();
                }
            }
            save(&a.out, &st, cases, &skips, &viol, idx, true);
            let _ = std::fs::remove_dir_all(table_dir());
        })
        .expect("thread");
    let _ = h.join();
}

pub fn set_table_path() {
    // only one thread runs at this time
    std::env::set_var("LOUIS_TABLE_PATH", table_dir());
}

pub fn shrink(p: &Prop, c: &Case, m: &str, limit: Duration) -> (Case, String) {
    let t0 = Instant::now();
    let mut best = c.clone();
    let mut msg = m.to_string();
    let try_case = |cand: Case, best: &mut Case, msg: &mut String| -> bool {
        let mut st = Stats::default();
        if let Outcome::Violation(m) = run_check(p, &cand, &mut st) {
            *best = cand;
            *msg = m;
            true
        } else {
            false
        }
    };
    // one input only
    if best.inputs.len() > 1 {
        for i in 0..best.inputs.len() {
            let mut cand = best.clone();
            cand.inputs = vec![best.inputs[i].clone()];
            if try_case(cand, &mut best, &mut msg) {
                break;
            }
        }
    }
    loop {
        let before = best.clone();
        // lines of the table
        let mut chunk = (best.table.lines().count() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.table.lines().count() {
                if t0.elapsed() > limit {
                    return (best, msg);
                }
                let lines: Vec<&str> = best.table.lines().collect();
                let mut l2: Vec<&str> = lines[..i].to_vec();
                l2.extend_from_slice(&lines[(i + chunk).min(lines.len())..]);
                let mut cand = best.clone();
                cand.table = l2.join("\n") + "\n";
                if !try_case(cand, &mut best, &mut msg) {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        let mut i = 0;
        while i < best.spans.len() {
            let mut cand = best.clone();
            cand.spans.remove(i);
            if !try_case(cand, &mut best, &mut msg) {
                i += 1;
            }
        }
        let mut i = 0;
        while i < best.files.len() {
            if t0.elapsed() > limit {
                return (best, msg);
            }
            let mut cand = best.clone();
            cand.files.remove(i);
            if !try_case(cand, &mut best, &mut msg) {
                i += 1;
            }
        }
        if best.inputs.len() > 1 {
            let mut i = 0;
            while i < best.inputs.len() && best.inputs.len() > 1 {
                if t0.elapsed() > limit {
                    return (best, msg);
                }
                let mut cand = best.clone();
                cand.inputs.remove(i);
                if !try_case(cand, &mut best, &mut msg) {
                    i += 1;
                }
            }
        }
        if best.spans.is_empty() {
            for k in 0..best.inputs.len() {
                let mut chunk = (best.inputs[k].chars().count() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.inputs[k].chars().count() {
                        if t0.elapsed() > limit {
                            return (best, msg);
                        }
                        let v: Vec<char> = best.inputs[k].chars().collect();
                        let mut v2 = v[..i].to_vec();
                        v2.extend_from_slice(&v[(i + chunk).min(v.len())..]);
                        let mut cand = best.clone();
                        cand.inputs[k] = v2.into_iter().collect();
                        if !try_case(cand, &mut best, &mut msg) {
                            i += chunk;
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                }
            }
        }
        if best == before || t0.elapsed() > limit {
            return (best, msg);
        }
    }
}

// ---------------------------------------------------------------- supervisor

struct Child {
    proc: std::process::Child,
    shard: u64,
    out: PathBuf,
    prog: PathBuf,
    last: u64,
    since: Instant,
    cpu: f64,
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

pub fn limit_resources(cmd: &mut Command, mem: u64, cpu: Option<u64>) {
    unsafe {
        cmd.pre_exec(move || {
            setrlimit(9, &[mem, mem]); // RLIMIT_AS
            setrlimit(4, &[0, 0]); // RLIMIT_CORE
            if let Some(c) = cpu {
                setrlimit(0, &[c, c + 1]);
            }
            Ok(())
        });
    }
}

fn cpu_time(pid: u32) -> f64 {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = t.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

const WORKER_MEM: u64 = 3 << 30;
const HANG_CPU: f64 = 20.0;

fn spawn(p: &Prop, tier: Tier, seed: u64, shard: u64, start: u64, step: u64, limit: u64, secs: f64, dir: &Path, gen: u64) -> Child {
    let out = dir.join(format!("w{shard}-{gen}.json"));
    let prog = dir.join(format!("w{shard}-{gen}.prog"));
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args([
        "worker",
        p.id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        &seed.to_string(),
        &start.to_string(),
        &step.to_string(),
        &limit.to_string(),
        &secs.to_string(),
    ])
    .arg(&out)
    .arg(&prog)
    .stdin(Stdio::null())
    .stdout(Stdio::null())
    .stderr(std::fs::File::create(dir.join(format!("w{shard}-{gen}.err"))).unwrap());
    // sanitizers reserve a lot of address space
    if p.id != "C26" {
        limit_resources(&mut cmd, WORKER_MEM, None);
    }
    let proc = cmd.spawn().expect("spawn worker");
    Child { proc, shard, out, prog, last: u64::MAX - 1, since: Instant::now(), cpu: 0.0 }
}

fn read_prog(p: &Path) -> u64 {
    let b = std::fs::read(p).unwrap_or_default();
    if b.len() >= 8 {
        u64::from_le_bytes(b[..8].try_into().unwrap())
    } else {
        u64::MAX - 1
    }
}

/// run the case without monitors in its own process: `Some` describes the crash
pub fn confirm_crash(case: &Case, dir: &Path) -> Option<String> {
    let f = dir.join("crash.json");
    std::fs::write(&f, case.to_json().to_text()).ok()?;
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("crashcheck").arg(&f).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    limit_resources(&mut cmd, WORKER_MEM, Some(25));
    let out = cmd.spawn().ok()?.wait_with_output().ok()?;
    if out.status.success() {
        return None;
    }
    let err: String = String::from_utf8_lossy(&out.stderr).chars().take(300).collect();
    match out.status.signal() {
        Some(24) => Some("does not end within 25 s of CPU time".to_string()),
        Some(9) => None, // somebody else ended it
        Some(x) => Some(format!("killed by signal {x}: {err}")),
        None => Some(format!("ended with {:?}: {err}", out.status.code())),
    }
}

pub struct Report {
    pub stats: Stats,
    pub cases: u64,
    pub skips: BTreeMap<String, u64>,
    pub violations: Vec<(Case, String)>,
    pub workers: u64,
    pub restarts: u64,
}

pub fn run_workers(p: &'static Prop, tier: Tier) -> Report {
    let seed = seed();
    let dir = scratch_dir().join(format!("run-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let shards: u64 = std::env::var("VMON_SHARDS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let fixed = (p.fixed)(tier);
    let known = known_findings(p.id);
    let (limit, secs) = match tier {
        Tier::Quick => {
            let q = std::env::var("VMON_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(p.quick);
            (q + fixed.len() as u64, std::env::var("VMON_SECS").ok().and_then(|v| v.parse().ok()).unwrap_or(60.0))
        }
        Tier::Thorough => (
            u64::MAX / 4,
            std::env::var("VMON_SECS").ok().and_then(|v| v.parse().ok()).unwrap_or(p.thorough_secs as f64),
        ),
    };
    let t0 = Instant::now();
    let mut r = Report {
        stats: Stats::default(),
        cases: 0,
        skips: BTreeMap::new(),
        violations: vec![],
        workers: shards,
        restarts: 0,
    };
    let mut gen = 0;
    let mut children: Vec<Child> = (0..shards)
        .map(|i| spawn(p, tier, seed, i, i, shards, limit, secs, &dir, 0))
        .collect();
    let mut hashes: HashSet<u64> = HashSet::new();
    while !children.is_empty() {
        std::thread::sleep(Duration::from_millis(30));
        let mut i = 0;
        while i < children.len() {
            let c = &mut children[i];
            let prog = read_prog(&c.prog);
            let mut hung = false;
            if prog != c.last {
                c.last = prog;
                c.since = Instant::now();
                c.cpu = cpu_time(c.proc.id());
            } else if c.since.elapsed().as_secs() > 20
                && cpu_time(c.proc.id()) - c.cpu > HANG_CPU
                && prog < u64::MAX - 1
            {
                hung = true;
                let _ = c.proc.kill();
            } else if c.since.elapsed().as_secs() > 300 {
                // blocked without using the processor
                let _ = c.proc.kill();
            }
            let st = if hung { c.proc.wait().ok() } else { c.proc.try_wait().ok().flatten() };
            let Some(status) = st else {
                i += 1;
                continue;
            };
            let c = children.swap_remove(i);
            let _ = std::fs::remove_dir_all(scratch_dir().join(format!("tab-{}", c.proc.id())));
            let j = std::fs::read_to_string(&c.out).ok().and_then(|t| json::parse(&t)).unwrap_or(J::Null);
            merge(&mut r, &j);
            if let Ok(b) = std::fs::read(c.out.with_extension("distinct")) {
                for h in b.chunks_exact(8) {
                    hashes.insert(u64::from_le_bytes(h.try_into().unwrap()));
                }
            }
            let done = j.get("done") == &J::Bool(true);
            if !done {
                // crashed, hung or ended from outside
                let idx = read_prog(&c.prog);
                r.restarts += 1;
                let mut next = c.shard;
                if idx < u64::MAX - 1 {
                    next = idx + shards;
                    if let Some(case) = make_case(p, seed, idx, tier, &fixed) {
                        match confirm_crash(&case, &dir) {
                            Some(m) => r.violations.push((case, m)),
                            None => {
                                *r.skips
                                    .entry(format!("worker ended ({status}) but the case alone does not crash"))
                                    .or_insert(0) += 1;
                                let err = std::fs::read_to_string(c.out.with_extension("err")).unwrap_or_default();
                                eprintln!("note: worker ended at case {idx}: {status} {}", err.chars().take(400).collect::<String>());
                            }
                        }
                    }
                }
                let left = secs - t0.elapsed().as_secs_f64();
                let fresh = r.violations.iter().any(|(c, _)| !known.iter().any(|(k, _)| c.kind.strip_prefix("probe:") == Some(k)));
                if !fresh && idx < u64::MAX - 1 && next < limit && left > 0.5 && r.restarts < 40 {
                    gen += 1;
                    children.push(spawn(p, tier, seed, c.shard, next, shards, limit, left, &dir, gen));
                }
            }
        }
        if r.violations.iter().filter(|(c, _)| !known.iter().any(|(k, _)| c.kind.strip_prefix("probe:") == Some(k))).count() >= 2 {
            for c in &mut children {
                let _ = c.proc.kill();
                let _ = c.proc.wait();
            }
            break;
        }
    }
    r.stats.distinct = hashes;
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn merge(r: &mut Report, j: &J) {
    for (k, v) in j.get("counters").obj() {
        r.stats.count(k, v.num() as u64);
    }
    r.stats.evaluations += j.get("evaluations").num() as u64;
    r.cases += j.get("cases").num() as u64;
    for (k, v) in j.get("skips").obj() {
        *r.skips.entry(k.clone()).or_insert(0) += v.num() as u64;
    }
    for x in j.get("samples").arr() {
        if r.stats.samples.len() < 5 {
            r.stats.samples.push(x.str());
        }
    }
    for v in j.get("violations").arr() {
        r.violations.push((Case::from_json(v.get("case")), v.get("message").str()));
    }
}

/// lines `known: property=<id> probe=<name> ...` of the file of known findings
fn known_findings(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut w = l.splitn(3, ' ');
            let p = w.next()?.strip_prefix("property=")?;
            let probe = w.next()?.strip_prefix("probe=")?;
            (p == id).then(|| (probe.to_string(), w.next().unwrap_or("").to_string()))
        })
        .collect()
}

pub fn check(p: &'static Prop, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let mut r = run_workers(p, tier);
    let known = known_findings(p.id);
    let mut known_seen: Vec<String> = vec![];
    r.violations.retain(|(c, _)| {
        if let Some(probe) = c.kind.strip_prefix("probe:") {
            if let Some((k, what)) = known.iter().find(|(k, _)| k == probe) {
                if !known_seen.contains(k) {
                    known_seen.push(k.clone());
                    println!("KNOWN-FINDING: property={} {}", p.id, what);
                }
                return false;
            }
        }
        true
    });
    finish(p, tier, r, t0, known_seen)
}

pub fn finish(p: &Prop, tier: Tier, mut r: Report, t0: Instant, known_seen: Vec<String>) -> i32 {
    let replays = verif_dir().join("work/replays");
    let _ = std::fs::create_dir_all(&replays);
    let mut vj = vec![];
    for (i, (c, m)) in r.violations.iter_mut().enumerate() {
        c.prop = p.id.to_string();
        let f = replays.join(format!("{}-{}.json", p.id, i));
        let mut j = c.to_json();
        if let J::Obj(v) = &mut j {
            v.push(("message".into(), s(m.clone())));
        }
        let _ = std::fs::write(&f, j.to_text());
        println!("VIOLATION property={} replay={}", p.id, f.display());
        eprintln!("{m}\n--- case\n{}", describe(c));
        vj.push(J::Obj(vec![("replay".into(), s(f.display().to_string())), ("message".into(), s(m.clone()))]));
    }
    let harness_panics: u64 = r.skips.iter().filter(|(k, _)| k.starts_with("harness panic")).map(|(_, v)| *v).sum();
    for (k, v) in &r.skips {
        if k.starts_with("harness panic") {
            eprintln!("note: {v} x {k}");
        }
    }
    let mut details = r.stats.counters.clone();
    details.insert("cases".into(), r.cases);
    details.insert("workers".into(), r.workers);
    details.insert("worker_restarts".into(), r.restarts);
    details.insert("harness_panics".into(), harness_panics);
    let obj = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), n(*v as i64))).collect());
    let ev = J::Obj(vec![
        ("property".into(), s(p.id)),
        ("tier".into(), s(if tier == Tier::Quick { "quick" } else { "thorough" })),
        ("seed".into(), n(seed() as i64)),
        ("level".into(), s("exploration")),
        (
            "coverage".into(),
            J::Obj(vec![
                ("evaluations".into(), n(r.stats.evaluations as i64)),
                ("distinct_nontrivial".into(), n(r.stats.distinct.len() as i64)),
                ("rule".into(), s(p.rule)),
                ("samples".into(), J::Arr(r.stats.samples.iter().map(|x| s(x.clone())).collect())),
                ("observed".into(), obj(&details)),
                ("skipped".into(), obj(&r.skips)),
                ("known_findings_seen".into(), J::Arr(known_seen.iter().map(|k| s(k.clone())).collect())),
            ]),
        ),
        ("assumptions".into(), J::Arr(p.assumptions.iter().map(|a| s(*a)).collect())),
        ("wall_s".into(), J::Num((t0.elapsed().as_secs_f64() * 100.0).round() / 100.0)),
        ("violations".into(), n(vj.len() as i64)),
        ("violation_details".into(), J::Arr(vj)),
    ]);
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let mut f = std::fs::File::create(evdir.join(format!("{}.json", p.id))).expect("evidence");
    let _ = f.write_all(ev.to_text().as_bytes());
    println!(
        "{}: {} cases, {} evaluations, {} distinct, {} skipped, {:.1} s",
        p.id,
        r.cases,
        r.stats.evaluations,
        r.stats.distinct.len(),
        r.skips.values().sum::<u64>(),
        t0.elapsed().as_secs_f64()
    );
    if !r.violations.is_empty() {
        1
    } else if r.stats.evaluations == 0 {
        eprintln!("{}: nothing was observed: inconclusive", p.id);
        2
    } else {
        0
    }
}

pub fn describe(c: &Case) -> String {
    let mut o = String::new();
    o.push_str(&format!("kind={} backward={}\n", c.kind, c.backward));
    o.push_str(&c.table);
    for i in &c.inputs {
        o.push_str(&format!("input {i:?}\n"));
    }
    if !c.spans.is_empty() {
        o.push_str(&format!("spans {:?}\n", c.spans));
    }
    for (a, b) in &c.files {
        o.push_str(&format!("file {a}\n{b}\n"));
    }
    for (a, b) in &c.extra {
        o.push_str(&format!("{a}={b:?}\n"));
    }
    if o.len() > 6000 {
        let mut i = 6000;
        while !o.is_char_boundary(i) {
            i -= 1;
        }
        o.truncate(i);
        o.push_str("...\n");
    }
    o
}
