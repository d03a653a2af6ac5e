//! mc: model checker for jbcrs. See /verif/DESIGN.md.
//!   mc check ID [quick|thorough]   explore; exit 0, 1 (VIOLATION line) or 2 (no answer)
//!   mc replay FILE                 run one recorded trace again; exit 0, 1 or 2
mod alloc;
mod build;
mod conform;
mod drivers;
mod explore;
mod mutf8;
mod opcodes;
mod phases;
mod refdec;
mod sched;
mod sink;
mod stats;
mod stream;
mod view;

use sink::*;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

/// Stack of the thread that runs the code under test.
const STACK: usize = 2 << 20;
/// Processes in which a trace is run again when it does not fail in the first.
const TRIES: usize = 300;
/// A single trace that runs for longer than this hangs.
const HANG: Duration = Duration::from_secs(30);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn map_slot(path: &Path) -> *mut u8 {
    use std::os::unix::io::AsRawFd;
    let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("harness: slot");
    f.set_len(SLOT as u64).expect("harness: slot");
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "harness: mmap");
    p
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |k: usize| a.get(k).map(|s| s.as_str()).unwrap_or("");
    match arg(0) {
        "check" => exit(check(arg(1), arg(2))),
        "worker" => worker(arg(1), arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4) == "thorough", Path::new(arg(5))),
        "one" => one(arg(1), Path::new(arg(2))),
        "zygote" => drivers::pure::zygote(),
        "model" => {
            // verdict of the model alone (used to validate it, see tools/)
            for f in &a[1..] {
                let b = fs::read(f).unwrap();
                let mut st = stats::Stats::new();
                println!("{} {:?}", f, refdec::Ref::run(&b, &mut st).0);
            }
        }
        "stream" => {
            let b = fs::read(arg(1)).unwrap();
            let mut st = stats::Stats::new();
            let (v, pool, s) = refdec::Ref::run(&b, &mut st);
            println!("{:?}", v);
            for (i, p) in pool.iter().enumerate() {
                println!("{} {:?}", i, p);
            }
            for x in s.0 {
                println!("{}", stream::show(x));
            }
        }
        "conform" => {
            install_panic_hook();
            let mut bad = 0;
            for f in &a[1..] {
                let b = fs::read(f).unwrap();
                let mut st = stats::Stats::new();
                if let Err(e) = conform::conform(&b, conform::EXACT, &mut st) {
                    println!("{}: {}", f, e);
                    bad += 1;
                }
            }
            println!("{} files, {} differ", a.len() - 1, bad);
        }
        "replay" => exit(replay(Path::new(arg(1)))),
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | mc replay FILE");
            exit(2)
        }
    }
}

fn on_small_stack(f: impl FnOnce() + Send + 'static) {
    let r = std::thread::Builder::new().stack_size(STACK).spawn(f).expect("harness: thread").join();
    if r.is_err() {
        PANIC.with(|p| eprintln!("harness error: {}", p.borrow()));
        exit(101);
    }
}

// ------------------------------------------------------------------ worker

fn worker(id: &str, shard: usize, nshards: usize, thorough: bool, dir: &Path) {
    install_panic_hook();
    let d = drivers::find(id).expect("harness: unknown property");
    let slot = map_slot(&dir.join(format!("slot{}", shard))) as usize;
    let out = dir.join(format!("out{}", shard));
    let vio = dir.join(format!("vio{}", shard));
    on_small_stack(move || {
        let mut s = Sink::new(shard, nshards, thorough, d.run, slot as *mut u8);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (d.explore)(&mut s)));
        if r.is_err() {
            PANIC.with(|p| eprintln!("harness error: {}", p.borrow()));
            exit(101);
        }
        let mut o = Vec::new();
        let st = &s.st;
        let mut line = |t: String| {
            o.extend_from_slice(t.as_bytes());
            o.push(b'\n');
        };
        line(format!("steps {}", st.steps));
        line(format!("traces {}", st.traces));
        line(format!("max {}", st.max_payload));
        for (k, v) in &st.outcomes {
            line(format!("outcome {} {}", v, k));
        }
        for (k, v) in &st.phases {
            line(format!("phase {} {}", v, k));
        }
        for k in &st.samples {
            line(format!("sample {}", k));
        }
        for (name, set) in [("state", &st.states), ("trans", &st.transitions), ("distinct", &st.distinct)] {
            for x in set {
                line(format!("{} {:x}", name, x));
            }
        }
        fs::write(&out, o).expect("harness: result");
        if let Some((payload, msg)) = &s.violation {
            let mut v = (s.seq).to_le_bytes().to_vec();
            v.extend((msg.len() as u64).to_le_bytes());
            v.extend_from_slice(msg.as_bytes());
            v.extend_from_slice(payload);
            fs::write(&vio, v).expect("harness: result");
            exit(3);
        }
        exit(0);
    });
}

fn one(id: &str, file: &Path) {
    install_panic_hook();
    let d = drivers::find(id).expect("harness: unknown property");
    let b = fs::read(file).expect("harness: payload");
    on_small_stack(move || {
        let mut st = stats::Stats::new();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_one(d.run, &b, &mut st)));
        match r {
            Err(_) => {
                PANIC.with(|p| eprintln!("harness error: {}", p.borrow()));
                exit(101)
            }
            Ok(Err(m)) => {
                println!("{}", m);
                exit(3)
            }
            Ok(Ok(())) => exit(0),
        }
    });
}

// ------------------------------------------------------------------ supervisor

fn root() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

enum End {
    Fine,
    Violation(u64, Vec<u8>, String),
    /// crash or hang while a trace was in flight
    Died(u64, Vec<u8>, String),
    Harness(String),
}

fn me() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("harness: exe"));
    c.stdin(Stdio::null());
    c
}

fn describe(s: ExitStatus) -> String {
    match s.signal() {
        Some(6) => "aborted (stack overflow, allocation failure or abort)".to_owned(),
        Some(11) => "segmentation fault".to_owned(),
        Some(n) => format!("killed by signal {}", n),
        None => format!("exit status {:?}", s.code()),
    }
}

fn in_flight(dir: &Path, shard: usize) -> Option<(u64, Vec<u8>)> {
    let b = fs::read(dir.join(format!("slot{}", shard))).ok()?;
    let n = |k: usize| u64::from_le_bytes(b[k * 8..k * 8 + 8].try_into().unwrap());
    let (seq, len) = (n(0), n(1) as usize);
    if seq % 2 == 0 {
        return None;
    }
    Some((seq / 2, b.get(SLOT_HEAD..SLOT_HEAD + len)?.to_vec()))
}

fn read_violation(dir: &Path, shard: usize) -> Option<(u64, Vec<u8>, String)> {
    let b = fs::read(dir.join(format!("vio{}", shard))).ok()?;
    let n = |k: usize| u64::from_le_bytes(b[k * 8..k * 8 + 8].try_into().unwrap());
    let (seq, len) = (n(0), n(1) as usize);
    let msg = String::from_utf8_lossy(&b[16..16 + len]).into_owned();
    Some((seq, b[16 + len..].to_vec(), msg))
}

/// Runs the given shards of an exploration to the end or to the first that does not end well.
fn explore(id: &str, shards: &[usize], n: usize, tier: &str, dir: &Path) -> End {
    let mut kids: Vec<(usize, Child, u64, Instant)> = Vec::new();
    for &k in shards {
        let _ = fs::remove_file(dir.join(format!("slot{}", k)));
        let _ = fs::remove_file(dir.join(format!("vio{}", k)));
        let slot = map_slot(&dir.join(format!("slot{}", k)));
        kids.push((
            k,
            me().args(["worker", id, &k.to_string(), &n.to_string(), tier])
                .arg(dir)
                .stdout(Stdio::null())
                .stderr(fs::File::create(dir.join(format!("err{}", k))).expect("harness: err"))
                .spawn()
                .expect("harness: spawn"),
            slot as u64,
            Instant::now(),
        ));
    }
    let mut last: BTreeMap<usize, u64> = BTreeMap::new();
    let mut end = End::Fine;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(15));
        let mut k = 0;
        while k < kids.len() {
            let (shard, child, slot, since) = &mut kids[k];
            let shard = *shard;
            let seq = unsafe { std::ptr::read_volatile(*slot as *const u64) };
            if last.insert(shard, seq) != Some(seq) || seq % 2 == 0 {
                *since = Instant::now();
            }
            let mut hang = false;
            let status = match child.try_wait().expect("harness: wait") {
                Some(s) => s,
                None if since.elapsed() > HANG => {
                    let _ = child.kill();
                    hang = true;
                    child.wait().expect("harness: wait")
                }
                None => {
                    k += 1;
                    continue;
                }
            };
            kids.remove(k);
            let bad = match (hang, status.code()) {
                (false, Some(0)) => continue,
                (false, Some(3)) => match read_violation(dir, shard) {
                    Some((seq, p, m)) => End::Violation(seq, p, m),
                    None => End::Harness("no violation record".to_owned()),
                },
                (false, Some(c)) => End::Harness(format!(
                    "worker ended with status {}: {}",
                    c,
                    fs::read_to_string(dir.join(format!("err{}", shard))).unwrap_or_default()
                )),
                _ => match in_flight(dir, shard) {
                    Some((seq, p)) => {
                        let m = if hang { format!("no answer after {} s", HANG.as_secs()) } else { describe(status) };
                        End::Died(seq, p, m)
                    }
                    None => End::Harness(format!(
                        "worker ended outside of a trace: {}: {}",
                        describe(status),
                        fs::read_to_string(dir.join(format!("err{}", shard))).unwrap_or_default()
                    )),
                },
            };
            end = bad;
            for (_, mut c, _, _) in kids.drain(..) {
                let _ = c.kill();
                let _ = c.wait();
            }
        }
    }
    end
}

/// Runs one trace in a process of its own: Ok(None) fine, Ok(Some(why)) violation.
fn fresh(id: &str, payload: &[u8], dir: &Path) -> Result<Option<String>, String> {
    let f = dir.join("payload");
    fs::write(&f, payload).map_err(|e| e.to_string())?;
    let mut c = me().args(["one", id]).arg(&f).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let start = Instant::now();
    loop {
        match c.try_wait().map_err(|e| e.to_string())? {
            Some(s) => {
                let out = c.wait_with_output().map_err(|e| e.to_string())?;
                return match s.code() {
                    Some(0) => Ok(None),
                    Some(3) => Ok(Some(String::from_utf8_lossy(&out.stdout).trim().to_owned())),
                    None => Ok(Some(describe(s))),
                    Some(_) => Err(String::from_utf8_lossy(&out.stderr).into_owned()),
                };
            }
            None if start.elapsed() > HANG => {
                let _ = c.kill();
                let _ = c.wait();
                return Ok(Some(format!("no answer after {} s", HANG.as_secs())));
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

fn check(id: &str, tier_arg: &str) -> i32 {
    let start = Instant::now();
    if drivers::find(id).is_none() {
        eprintln!("unknown property {}", id);
        return 2;
    }
    let env_tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let tier = match (tier_arg, env_tier.as_str()) {
        ("", "thorough") | ("thorough", _) => "thorough",
        _ => "quick",
    };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n = std::env::var("MC_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = root().join("target").join(format!("run-{}-{}", id, std::process::id()));
    fs::create_dir_all(&dir).expect("harness: run directory");
    let shards: Vec<usize> = (0..n).collect();
    let end = explore(id, &shards, n, tier, &dir);
    let code = conclude(id, tier, seed, n, end, &dir, start);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn conclude(id: &str, tier: &str, seed: i64, n: usize, end: End, dir: &Path, start: Instant) -> i32 {
    let (payload, msg) = match end {
        End::Harness(m) => {
            eprintln!("check {}: no answer: {}", id, m);
            return 2;
        }
        End::Fine => {
            evidence(id, tier, seed, n, dir, start, 0);
            println!("{}: held on everything explored ({:.1} s)", id, start.elapsed().as_secs_f64());
            return 0;
        }
        End::Violation(_, ref p, ref m) | End::Died(_, ref p, ref m) => (p.clone(), m.clone()),
    };
    let seq = match end {
        End::Violation(s, _, _) | End::Died(s, _, _) => s,
        _ => unreachable!(),
    };
    let compared = matches!(end, End::Violation(..));
    let alone = |m: &str, tries: usize| {
        println!("{}: {}", id, m);
        println!("  input: {}", render(&payload));
        format!("{{\"property\":\"{}\",\"what\":{},\"tries\":\"{}\",\"payload\":\"{}\"}}\n", id, json(m), tries, hex(&payload))
    };
    let first = match fresh(id, &payload, dir) {
        Err(e) => {
            eprintln!("check {}: no answer: replaying a violation: {}", id, e);
            return 2;
        }
        Ok(x) => x,
    };
    let record = if let Some(m) = first {
        alone(&m, 1)
    } else {
        // The trace alone does not fail: the failure needs what ran before it in the process.
        // Explore the same shards again, up to the same violation.
        let which: Vec<usize> = (0..n).filter(|k| in_flight(dir, *k).is_some() || read_violation(dir, *k).is_some()).collect();
        let mut found = None;
        for k in which {
            match explore(id, &[k], n, tier, dir) {
                End::Violation(s, p, m) | End::Died(s, p, m) if s == seq && p == payload => found = Some((k, m)),
                _ => {}
            }
        }
        if let Some((k, m)) = found {
            println!("{}: {} (only after the preceding traces of the shard)", id, m);
            format!(
                "{{\"property\":\"{}\",\"what\":{},\"shard\":{},\"shards\":{},\"tier\":\"{}\",\"seq\":{}}}\n",
                id, json(&m), k, n, tier, seq
            )
        } else if compared || (0..TRIES).any(|_| matches!(fresh(id, &payload, dir), Ok(Some(_)))) {
            // What the implementation did in one process differs from the model, and it does not do
            // it in every process: hash maps are seeded per process. The comparison stands.
            alone(&format!("{} (not in every process)", msg), TRIES)
        } else {
            eprintln!("check {}: no answer: a worker ended ({}) and the trace does not show why: {}", id, msg, render(&payload));
            return 2;
        }
    };
    let rdir = root().join("replays");
    let _ = fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{}-{:016x}.json", id, record.bytes().fold(7, |a, b| stats::mix(a, b.into()))));
    if fs::write(&path, record).is_err() {
        eprintln!("check {}: cannot write the replay file", id);
        return 2;
    }
    evidence(id, tier, seed, n, dir, start, 1);
    println!("VIOLATION property={} replay={}", id, path.display());
    1
}

fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(id: &str, tier: &str, seed: i64, n: usize, dir: &Path, start: Instant, violations: u32) {
    let mut sets: BTreeMap<&str, stats::Set> = BTreeMap::new();
    for k in ["state", "trans", "distinct"] {
        sets.insert(k, stats::Set::default());
    }
    let (mut steps, mut traces, mut max) = (0u64, 0u64, 0u64);
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut phases: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    for k in 0..n {
        let t = match fs::read_to_string(dir.join(format!("out{}", k))) {
            Ok(t) => t,
            Err(_) => continue,
        };
        for l in t.lines() {
            let (key, rest) = l.split_once(' ').unwrap_or((l, ""));
            match key {
                "steps" => steps += rest.parse::<u64>().unwrap_or(0),
                "traces" => traces += rest.parse::<u64>().unwrap_or(0),
                "max" => max = max.max(rest.parse().unwrap_or(0)),
                "outcome" | "phase" => {
                    let (c, name) = rest.split_once(' ').unwrap_or((rest, ""));
                    let m = if key == "outcome" { &mut outcomes } else { &mut phases };
                    *m.entry(name.to_owned()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
                }
                "sample" => samples.push(rest.to_owned()),
                _ => {
                    if let (Some(s), Ok(x)) = (sets.get_mut(key), u64::from_str_radix(rest, 16)) {
                        s.insert(x);
                    }
                }
            }
        }
    }
    samples.sort();
    samples.dedup();
    if samples.len() > 40 {
        let step = samples.len() as f64 / 40.0;
        samples = (0..40).map(|k| samples[(k as f64 * step) as usize].clone()).collect();
    }
    let map = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let list: Vec<String> = samples.iter().map(|s| json(s)).collect();
    let text = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \
         \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"model_steps\": {},\n  \
         \"distinct_results\": {},\n  \"largest_trace_bytes\": {},\n  \"phases\": {},\n  \"outcomes\": {},\n  \"samples\": [\n   {}\n  ],\n  \
         \"exhaustive\": {},\n  \"rule\": \"every choice sequence of the driver within the stated bounds is run through the reference model and through the implementation, and the two are compared; states and transitions are those of the reference model (hashed), a trace is one complete execution\"\n }},\n \
         \"assumptions\": [\"the reference model states the property (it is written from the JVM specification, independently of the implementation)\", \"the bounds listed in DESIGN.md\"],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        id, tier, seed, sets["state"].len(), sets["trans"].len(), traces, steps, sets["distinct"].len(), max,
        map(&phases), map(&outcomes), list.join(",\n   "), violations == 0, violations, start.elapsed().as_secs_f64()
    );
    let edir = root().join("evidence");
    let _ = fs::create_dir_all(&edir);
    if let Ok(mut f) = fs::File::create(edir.join(format!("{}.json", id))) {
        let _ = f.write_all(text.as_bytes());
    }
}

// ------------------------------------------------------------------ replay

fn field<'a>(t: &'a str, name: &str) -> Option<&'a str> {
    let k = t.rfind(&format!("\"{}\":", name))? + name.len() + 3;
    let r = t[k..].trim_start_matches('"');
    Some(&r[..r.find(|c| c == '"' || c == ',' || c == '}').unwrap_or(r.len())])
}

fn replay(file: &Path) -> i32 {
    let t = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file.display(), e);
            return 2;
        }
    };
    let id = t.split('"').nth(3).unwrap_or("").to_owned();
    let dir = root().join("target").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("harness: run directory");
    let code = if let Some(h) = field(&t, "payload") {
        let p: Vec<u8> = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
        let tries = field(&t, "tries").and_then(|x| x.parse().ok()).unwrap_or(1).clamp(1, TRIES);
        let mut r = fresh(&id, &p, &dir);
        for _ in 1..tries {
            if !matches!(r, Ok(None)) {
                break;
            }
            r = fresh(&id, &p, &dir);
        }
        match r {
            Ok(None) => {
                println!("{}: holds on this trace", id);
                0
            }
            Ok(Some(m)) => {
                println!("{}: {}", id, m);
                1
            }
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        }
    } else {
        let n = |k: &str| field(&t, k).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
        match explore(&id, &[n("shard")], n("shards"), field(&t, "tier").unwrap_or("quick"), &dir) {
            End::Violation(_, p, m) | End::Died(_, p, m) => {
                println!("{}: {} on {}", id, m, render(&p));
                1
            }
            End::Fine => 0,
            End::Harness(m) => {
                eprintln!("{}", m);
                2
            }
        }
    };
    let _ = fs::remove_dir_all(&dir);
    code
}
