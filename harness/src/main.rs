//! rtcheck check ID TIER      run the check (supervisor)
//! rtcheck replay FILE        decide one recorded case again, in its profile
//! rtcheck worker ...         one shard of one profile (internal)
//! rtcheck one ID HEX         decide one tape in this process (internal)

use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use rtcheck::ctx::Ctx;
use rtcheck::{any::KINDS, install_hook, props, run_case};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

const SHARDS: usize = 8;
/// A case normally takes well under a second; none takes anything like this.
const HANG: Duration = Duration::from_secs(60);
const CONFIRM: Duration = Duration::from_secs(120);

/// Distinct cases counted per worker; beyond this the reported number is a lower bound.
const MAX_HASHES: usize = 3_000_000;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim().as_bytes();
    s.chunks(2).filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect()
}
fn profile() -> &'static str {
    if rtcheck::PLAIN {
        "plain"
    } else if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}
fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}
fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}...", &s[..i])
}

#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    property: String,
    profile: String,
    tape: String,
    message: String,
    case: String,
}
#[derive(Serialize, Deserialize, Default)]
struct Report {
    evaluations: u64,
    nontrivial: u64,
    corpus: u64,
    labels: BTreeMap<String, u64>,
    pairs: Vec<(u8, u8)>,
    samples: Vec<String>,
    failure: Option<Failure>,
}

// ---------------------------------------------------------------- worker

struct Stats {
    rep: Report,
    hashes: HashSet<u64>,
    pairs: HashSet<(u8, u8)>,
    labels: BTreeMap<&'static str, u64>,
    next_sample: u64,
}

fn explain(id: &str, data: &[u8]) -> (String, String) {
    let mut ctx = Ctx { verbose: true, ..Ctx::default() };
    let (res, _) = run_case(id, data, &mut ctx);
    (res.err().unwrap_or_else(|| "holds".into()), ctx.log)
}

fn seed_bytes(parts: &[u64]) -> [u8; 32] {
    let mut x = 0x243F6A8885A308D3u64;
    for p in parts {
        x = (x ^ p).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    }
    let mut out = [0u8; 32];
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

fn worker(id: &str, shard: usize, cases: usize, seed: u64, out: &Path) {
    install_hook();
    let prop = props::find(id).expect("unknown property");
    let trace = fs::File::create(out.with_extension("trace")).expect("trace file");
    let counter = Cell::new(0u64);
    let failed = Cell::new(false);
    let st = RefCell::new(Stats {
        rep: Report::default(),
        hashes: HashSet::new(),
        pairs: HashSet::new(),
        labels: BTreeMap::new(),
        next_sample: 1,
    });
    let buf = RefCell::new(Vec::new());
    let decide = |data: &[u8]| -> Result<(), String> {
        counter.set(counter.get() + 1);
        {
            let mut b = buf.borrow_mut();
            b.clear();
            b.extend_from_slice(&counter.get().to_le_bytes());
            b.extend_from_slice(&(data.len() as u64).to_le_bytes());
            b.extend_from_slice(data);
            trace.write_all_at(&b, 0).expect("trace write");
        }
        let mut ctx = Ctx::default();
        let (res, hash) = run_case(id, data, &mut ctx);
        if !failed.get() {
            let st = &mut *st.borrow_mut();
            st.rep.evaluations += 1;
            for l in &ctx.labels {
                *st.labels.entry(l).or_default() += 1;
            }
            st.pairs.extend(ctx.pairs.iter().copied());
            if ctx.nontrivial {
                st.rep.nontrivial += 1;
                if st.hashes.len() < MAX_HASHES {
                    st.hashes.insert(hash);
                }
                if st.rep.nontrivial == st.next_sample && st.rep.samples.len() < 6 {
                    st.next_sample = st.next_sample * 5 + 2;
                    st.rep.samples.push(clip(&explain(id, data).1, 900));
                }
            }
        }
        if res.is_err() {
            failed.set(true);
        }
        res
    };
    let mut failure: Option<Vec<u8>> = None;
    // recorded cases first
    if shard == 0 {
        if let Ok(c) = fs::read_to_string(verif().join("corpus").join(format!("{id}.txt"))) {
            for line in c.lines().filter(|l| !l.is_empty() && !l.starts_with('#')) {
                let data = unhex(line);
                st.borrow_mut().rep.corpus += 1;
                if decide(&data).is_err() {
                    failure = Some(data);
                    break;
                }
            }
        }
    }
    let share = [50, 35, 15];
    for phase in 0..3 {
        if failure.is_some() {
            break;
        }
        let n = (cases * share[phase]).div_ceil(100);
        let config = Config {
            cases: n as u32,
            failure_persistence: None,
            max_shrink_iters: 30_000,
            max_shrink_time: 25_000,
            ..Config::default()
        };
        let mut pid = 0u64;
        for b in id.bytes().chain(profile().bytes()) {
            pid = pid.wrapping_mul(257).wrapping_add(b as u64);
        }
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[seed, pid, shard as u64, phase as u64]));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let max = prop.tapes[phase];
        match runner.run(&vec(any::<u8>(), max / 4..=max), |data| decide(&data).map_err(TestCaseError::fail)) {
            Ok(()) => {}
            Err(TestError::Fail(_, data)) => failure = Some(data),
            Err(TestError::Abort(r)) => panic!("generation aborted: {r}"),
        }
    }
    let st = st.into_inner();
    let mut rep = st.rep;
    rep.labels = st.labels.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    rep.pairs = st.pairs.into_iter().collect();
    if let Some(mut data) = failure {
        // cut what the decoder never reads
        while data.last() == Some(&0) {
            data.pop();
        }
        let (message, case) = explain(id, &data);
        rep.failure = Some(Failure {
            property: id.into(),
            profile: profile().into(),
            tape: hex(&data),
            message,
            case: clip(&case, 20_000),
        });
    }
    let mut h = Vec::with_capacity(st.hashes.len() * 8);
    for x in &st.hashes {
        h.extend_from_slice(&x.to_le_bytes());
    }
    fs::write(out.with_extension("hashes"), h).expect("hashes");
    fs::write(out.with_extension("json"), serde_json::to_vec(&rep).unwrap()).expect("report");
}

// ---------------------------------------------------------------- supervisor

fn binary(profile: &str) -> PathBuf {
    let me = std::env::current_exe().expect("current exe");
    me.parent().unwrap().parent().unwrap().join(profile).join("rtcheck")
}

fn wait(child: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = child.try_wait().expect("wait") {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

enum Outcome {
    Holds,
    Fails(String),
    Dies(String),
    Hangs,
}
fn one_in_child(id: &str, profile: &str, data: &[u8], limit: Duration) -> Outcome {
    let mut c = Command::new(binary(profile))
        .args(["one", id, &hex(data)])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    match wait(&mut c, limit) {
        None => Outcome::Hangs,
        Some(s) => {
            let mut text = String::new();
            if let Some(mut o) = c.stdout.take() {
                let _ = std::io::Read::read_to_string(&mut o, &mut text);
            }
            match s.code() {
                Some(0) => Outcome::Holds,
                Some(1) => Outcome::Fails(text),
                _ => Outcome::Dies(format!("the process dies ({s})")),
            }
        }
    }
}

/// Shrinks a case that kills its process or was found outside proptest, one child per attempt.
fn shrink_outside(id: &str, profile: &str, mut data: Vec<u8>) -> Vec<u8> {
    let t = Instant::now();
    let dies = |d: &[u8]| {
        t.elapsed() < Duration::from_secs(60) && matches!(one_in_child(id, profile, d, Duration::from_secs(20)), Outcome::Dies(_) | Outcome::Fails(_))
    };
    let mut keep = data.len();
    while keep > 0 {
        let cut = keep / 2;
        if dies(&data[..cut]) {
            keep = cut;
        } else {
            break;
        }
    }
    data.truncate(keep);
    for i in (0..data.len()).rev() {
        let mut d = data.clone();
        d.truncate(i);
        if i + 1 == data.len() && dies(&d) {
            data = d;
            continue;
        }
        for v in [0, data[i] / 2] {
            let mut d = data.clone();
            if d[i] == v {
                break;
            }
            d[i] = v;
            if dies(&d) {
                data = d;
                break;
            }
        }
    }
    data
}

fn read_trace(p: &Path) -> Option<(u64, Vec<u8>)> {
    let b = fs::read(p).ok()?;
    let n = u64::from_le_bytes(b.get(0..8)?.try_into().ok()?);
    let len = u64::from_le_bytes(b.get(8..16)?.try_into().ok()?) as usize;
    Some((n, b.get(16..16 + len)?.to_vec()))
}

struct Job {
    profile: &'static str,
    out: PathBuf,
    child: Child,
    seen: u64,
    since: Instant,
    args: Vec<String>,
    retried: bool,
}

fn spawn(profile: &'static str, args: &[String]) -> Child {
    Command::new(binary(profile)).args(args).stdout(Stdio::null()).stderr(Stdio::inherit()).spawn().expect("spawn worker")
}

/// Coverage-guided search (libFuzzer) over the same tapes, decoder and oracle. Returns what it
/// did, and a failure confirmed in the `checked` build.
fn fuzz_stage(id: &str, prop: &props::Prop, seed: u64, scratch: &Path) -> (serde_json::Value, Option<Failure>) {
    let Some(bin) = std::env::var_os("RT_FUZZ").map(PathBuf::from).filter(|p| p.is_file()) else {
        return (serde_json::json!("not run: the instrumented build is not there"), None);
    };
    let max = prop.tapes[2];
    let procs: Vec<_> = (0..8u64)
        .map(|i| {
            let dir = scratch.join(format!("fuzz-{i}"));
            let corpus = dir.join("corpus");
            fs::create_dir_all(&corpus).expect("fuzz dir");
            // something to start from: random tapes, and a run of zeros
            for k in 0..64u64 {
                let len = max * (k as usize + 1) / 64;
                let bytes: Vec<u8> = (0..len.div_ceil(32)).flat_map(|j| seed_bytes(&[seed, i, k, j as u64])).take(len).collect();
                fs::write(corpus.join(format!("s{k}")), if k == 0 { vec![0; 8] } else { bytes }).expect("seed");
            }
            let err = fs::File::create(dir.join("log")).expect("log");
            let child = Command::new(&bin)
                .env("RT_PROP", id)
                .arg(&corpus)
                .args([
                    format!("-seed={}", seed.wrapping_mul(8).wrapping_add(i + 1) as u32),
                    format!("-max_len={max}"),
                    // half of them follow comparison operands as well
                    format!("-use_value_profile={}", i % 2),
                    "-len_control=20".into(),
                    "-runs=3000000".into(),
                    "-max_total_time=200".into(),
                    "-timeout=120".into(),
                    "-rss_limit_mb=3500".into(),
                    "-print_final_stats=1".into(),
                    format!("-artifact_prefix={}/", dir.display()),
                ])
                .stdout(Stdio::null())
                .stderr(err)
                .spawn()
                .expect("spawn fuzzer");
            (dir, child)
        })
        .collect();
    let (mut runs, mut units, mut cov, mut odd) = (0u64, 0u64, 0u64, vec![]);
    let mut failure = None;
    for (dir, mut child) in procs {
        let _ = wait(&mut child, Duration::from_secs(400));
        let log = fs::read(dir.join("log")).unwrap_or_default();
        let log = String::from_utf8_lossy(&log);
        let stat = |name: &str| -> u64 {
            log.lines().rev().find_map(|l| l.strip_prefix(name)?.trim().parse().ok()).unwrap_or(0)
        };
        runs += stat("stat::number_of_executed_units:");
        units += stat("stat::new_units_added:");
        cov = cov.max(log.lines().rev().find_map(|l| l.split("cov: ").nth(1)?.split(' ').next()?.parse().ok()).unwrap_or(0));
        for f in fs::read_dir(&dir).into_iter().flatten().flatten() {
            let name = f.file_name().to_string_lossy().into_owned();
            if failure.is_some() || !(name.starts_with("crash-") || name.starts_with("timeout-")) {
                continue;
            }
            let data = fs::read(f.path()).unwrap_or_default();
            match one_in_child(id, "checked", &data, CONFIRM) {
                Outcome::Holds => odd.push(format!("{name} does not fail in the checked build")),
                Outcome::Hangs => {
                    failure = Some(Failure {
                        property: id.into(),
                        profile: "checked".into(),
                        tape: hex(&data),
                        message: format!("does not terminate (no end within {} s)", CONFIRM.as_secs()),
                        case: String::new(),
                    });
                }
                o => {
                    let data = shrink_outside(id, "checked", data);
                    let message = match one_in_child(id, "checked", &data, CONFIRM) {
                        Outcome::Fails(m) => m,
                        _ => match o {
                            Outcome::Fails(m) | Outcome::Dies(m) => m,
                            _ => unreachable!(),
                        },
                    };
                    failure = Some(Failure { property: id.into(), profile: "checked".into(), tape: hex(&data), message, case: String::new() });
                }
            }
        }
    }
    let what = serde_json::json!({
        "engine": "libFuzzer, 8 processes, half with value profile",
        "executions": runs,
        "inputs_reaching_new_coverage": units,
        "edges_covered": cov,
        "unconfirmed": odd,
    });
    (what, failure)
}

fn supervise(id: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let Some(prop) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let per_profile = if tier == "thorough" { prop.thorough } else { prop.quick };
    // RTCHECK_CASES: another number of cases per profile, for experiments
    let per_profile = std::env::var("RTCHECK_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(per_profile);
    // an unoptimised build is slow; it only tells something new about stack depth
    let profiles: &[(&'static str, usize)] =
        if id == "C16" { &[("plain", 2), ("checked", 1), ("release", 1)] } else { &[("checked", 1), ("release", 1)] };
    let scratch = std::env::temp_dir().join(format!("rtcheck-{}", std::process::id()));
    fs::create_dir_all(&scratch).expect("scratch");
    let mut todo: Vec<(&'static str, usize, usize)> = vec![];
    for s in 0..SHARDS {
        for &(p, part) in profiles {
            todo.push((p, s, per_profile.div_ceil(SHARDS * part)));
        }
    }
    todo.reverse();
    let parallel = std::thread::available_parallelism().map_or(8, |n| n.get()).max(2);
    let mut running: Vec<Job> = vec![];
    let mut reports: Vec<(&'static str, PathBuf)> = vec![];
    let mut failure: Option<Failure> = None;
    let mut error: Option<String> = None;
    'run: while !todo.is_empty() || !running.is_empty() {
        while running.len() < parallel {
            let Some((profile, shard, cases)) = todo.pop() else { break };
            let out = scratch.join(format!("{profile}-{shard}"));
            let args: Vec<String> =
                ["worker", id, &shard.to_string(), &cases.to_string(), &seed.to_string(), out.to_str().unwrap()].iter().map(|s| s.to_string()).collect();
            let child = spawn(profile, &args);
            running.push(Job { profile, out, child, seen: 0, since: Instant::now(), args, retried: false });
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < running.len() {
            let j = &mut running[i];
            let trace = j.out.with_extension("trace");
            if let Some(status) = j.child.try_wait().expect("wait") {
                if status.success() {
                    let rep: Report = serde_json::from_slice(&fs::read(j.out.with_extension("json")).unwrap()).unwrap();
                    if rep.failure.is_some() && failure.is_none() {
                        failure = rep.failure;
                    }
                    reports.push((j.profile, j.out.clone()));
                    running.remove(i);
                    if failure.is_some() {
                        break 'run;
                    }
                    continue;
                }
                // The worker died: does its last case kill a fresh process?
                let last = read_trace(&trace);
                let outcome = last.as_ref().map(|(_, d)| one_in_child(id, j.profile, d, CONFIRM));
                match (last, outcome) {
                    (Some((_, data)), Some(Outcome::Dies(_))) => {
                        let data = shrink_outside(id, j.profile, data);
                        failure = Some(Failure {
                            property: id.into(),
                            profile: j.profile.into(),
                            tape: hex(&data),
                            message: "the process running this case dies (stack overflow or abort)".into(),
                            case: String::new(),
                        });
                        break 'run;
                    }
                    (Some((_, data)), Some(Outcome::Fails(m))) => {
                        failure = Some(Failure { property: id.into(), profile: j.profile.into(), tape: hex(&data), message: m, case: String::new() });
                        break 'run;
                    }
                    _ if !j.retried => {
                        j.child = spawn(j.profile, &j.args);
                        j.retried = true;
                        j.seen = 0;
                        j.since = Instant::now();
                    }
                    _ => {
                        error = Some(format!("a worker died ({status}) and its last case does not"));
                        break 'run;
                    }
                }
            } else if let Some((n, data)) = read_trace(&trace) {
                if n != j.seen {
                    j.seen = n;
                    j.since = Instant::now();
                } else if j.since.elapsed() > HANG {
                    let _ = j.child.kill();
                    let _ = j.child.wait();
                    match one_in_child(id, j.profile, &data, CONFIRM) {
                        Outcome::Hangs => {
                            failure = Some(Failure {
                                property: id.into(),
                                profile: j.profile.into(),
                                tape: hex(&data),
                                message: format!("does not terminate (no end within {} s, twice; cases normally take milliseconds)", HANG.as_secs()),
                                case: String::new(),
                            });
                            break 'run;
                        }
                        Outcome::Fails(m) => {
                            failure = Some(Failure { property: id.into(), profile: j.profile.into(), tape: hex(&data), message: m, case: String::new() });
                            break 'run;
                        }
                        _ if !j.retried => {
                            j.child = spawn(j.profile, &j.args);
                            j.retried = true;
                            j.seen = 0;
                            j.since = Instant::now();
                        }
                        _ => {
                            error = Some("a worker stalled but its case ends".into());
                            break 'run;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    for j in &mut running {
        let _ = j.child.kill();
        let _ = j.child.wait();
    }

    let mut fuzzed = serde_json::Value::Null;
    if tier == "thorough" && id != "C16" && failure.is_none() && error.is_none() {
        (fuzzed, failure) = fuzz_stage(id, prop, seed, &scratch);
    }

    // merge
    let mut total = Report::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut pairs: HashSet<(u8, u8)> = HashSet::new();
    let mut by_profile: BTreeMap<&str, u64> = BTreeMap::new();
    for (p, out) in &reports {
        let rep: Report = serde_json::from_slice(&fs::read(out.with_extension("json")).unwrap()).unwrap();
        total.evaluations += rep.evaluations;
        total.nontrivial += rep.nontrivial;
        total.corpus += rep.corpus;
        *by_profile.entry(p).or_default() += rep.evaluations;
        for (k, v) in rep.labels {
            *total.labels.entry(k).or_default() += v;
        }
        pairs.extend(rep.pairs);
        if out.to_str().is_some_and(|s| s.ends_with("-0") || s.ends_with("-1")) {
            total.samples.extend(rep.samples);
        }
        for c in fs::read(out.with_extension("hashes")).unwrap_or_default().chunks_exact(8) {
            distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    total.samples.truncate(10);
    let left: HashSet<u8> = pairs.iter().map(|p| p.0).collect();
    let mut coverage = serde_json::json!({
        "evaluations": total.evaluations,
        "distinct_nontrivial": distinct.len(),
        "rule": prop.rule,
        "samples": total.samples,
        "nontrivial_evaluations": total.nontrivial,
        "evaluations_by_build_profile": by_profile,
        "recorded_cases_replayed": total.corpus,
        "labels": total.labels,
        "oracle": "independent model in the harness (see DESIGN.md); every case is run in a build with and a build without overflow checks",
    });
    if !fuzzed.is_null() {
        coverage["coverage_guided"] = fuzzed;
    }
    if !pairs.is_empty() {
        coverage["operand_types_seen"] = left.iter().map(|k| KINDS[*k as usize]).collect::<Vec<_>>().into();
        coverage["ordered_operand_type_pairs_seen"] = pairs.len().into();
    }
    let evidence = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": [
            "the element type's comparison is a total order and its Step implementation is lawful",
            "the harness's model of ranges, element types and std range semantics is right"
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failure.is_some() as u8,
    });
    let dir = verif().join("evidence");
    fs::create_dir_all(&dir).expect("evidence dir");
    fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap() + "\n").expect("evidence");
    let _ = fs::remove_dir_all(&scratch);

    if let Some(f) = failure {
        let dir = verif().join("out");
        fs::create_dir_all(&dir).expect("out dir");
        let path = dir.join(format!("{id}-{}.json", &hex(&seed_bytes(&f.tape.bytes().map(u64::from).collect::<Vec<_>>()))[..12]));
        fs::write(&path, serde_json::to_string_pretty(&f).unwrap() + "\n").expect("replay file");
        println!("{} build: {}", f.profile, clip(f.message.trim(), 2000));
        if !f.case.is_empty() {
            println!("{}", clip(&f.case, 3000));
        }
        println!("replay with: bash {}/check.sh replay {}", verif().display(), path.display());
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("check error: {e}");
        return 2;
    }
    println!(
        "{id} {tier}: held on {} cases ({} distinct non-trivial) in {:.1} s",
        total.evaluations, distinct.len(), start.elapsed().as_secs_f64()
    );
    0
}

fn replay(path: &str) -> i32 {
    let f: Failure = match fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    println!("recorded: {}\n{}", f.message.trim(), clip(&f.case, 3000));
    match one_in_child(&f.property, &f.profile, &unhex(&f.tape), CONFIRM) {
        Outcome::Holds => {
            println!("now: holds ({} build)", f.profile);
            0
        }
        Outcome::Fails(m) => {
            println!("now: {m}\nVIOLATION property={} replay={path}", f.property);
            1
        }
        Outcome::Dies(m) => {
            println!("now: {m}\nVIOLATION property={} replay={path}", f.property);
            1
        }
        Outcome::Hangs => {
            println!("now: does not terminate\nVIOLATION property={} replay={path}", f.property);
            1
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let code = match a.get(1..).unwrap_or(&[]) {
        ["check", id, tier] => supervise(id, tier),
        ["replay", file] => replay(file),
        ["worker", id, shard, cases, seed, out] => {
            worker(id, shard.parse().unwrap(), cases.parse().unwrap(), seed.parse().unwrap(), Path::new(out));
            0
        }
        ["one", id, rest @ ..] => {
            install_hook();
            let data = unhex(rest.first().unwrap_or(&""));
            let (message, case) = explain(id, &data);
            // less than a pipe holds: the parent reads only at the end
            println!("{}\n{}", clip(&message, 20_000), clip(&case, 20_000));
            (message != "holds") as i32
        }
        _ => {
            eprintln!("usage: rtcheck check ID quick|thorough | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
