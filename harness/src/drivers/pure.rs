//! C29: histories of parse calls and pool growth in one process. The oracle is the result the same
//! input gives in a process of its own.
use super::{attrs, code, corpus, cp, robust, Driver};
use crate::build::{at, Loc, LOCS};
use crate::explore::{explore, Ch};
use crate::sched::Points;
use crate::sink::{hash_stream, Sink};
use crate::stats::{mix, Stats};
use crate::stream::Stream;
use crate::view;
use jbcrs::basic::{self, Class, Item, Pool};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};

pub const DRIVERS: &[Driver] = &[Driver { id: "C29", run, explore: histories }];

/// The inputs: well-formed ones of every kind, ones that fail in different places, and pairs of the
/// same length that differ in one byte.
static FIRST_TINY: OnceLock<usize> = OnceLock::new();
fn inputs() -> &'static Vec<Vec<u8>> {
    static I: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    I.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = Vec::new();
        let a = attrs::templates();
        let c = code::templates();
        let p = cp::templates();
        v.push(c[0].b.clone());
        v.push(c[c.len() / 2].b.clone());
        v.push(p[0].b.clone());
        v.push(a[0].b.clone());
        v.push(a[a.len() / 3].b.clone());
        v.push(a[a.len() * 2 / 3].b.clone());
        v.push(robust::nest(0, 10));
        v.push(robust::nest(1, 10));
        // fails at different depths
        let whole = v[1].clone();
        v.push(whole[..whole.len() - 3].to_vec());
        v.push(whole[..whole.len() / 2].to_vec());
        let mut nested = robust::nest(0, 12);
        let at = nested.len() * 2 / 3;
        nested.truncate(at);
        v.push(nested);
        v.push(robust::nest(0, 5000));
        v.push(vec![0xCA, 0xFE, 0xBA, 0xBF]);
        // siblings
        for k in [1, 3] {
            let mut x = v[k].clone();
            let at = x.len() - 1;
            x[at] ^= 1;
            v.push(x);
            let mut y = v[k].clone();
            let at = 14 + (y.len() - 14) / 3;
            y[at] ^= 1;
            v.push(y);
            let mut z = v[k].clone();
            z[7] ^= 1;
            v.push(z);
        }
        for (_, b) in corpus::files(1500).into_iter().take(2) {
            v.push(b);
        }
        FIRST_TINY.get_or_init(|| v.len());
        // attributes of a few kinds, small enough to switch at every instruction
        for (k, a) in [
            vec![("", vec![1u8, 2, 3])],
            vec![("X", vec![4, 5]), ("Deprecated", vec![])],
            vec![("SourceFile", vec![1, 2]), ("Signature", vec![0, 9]), ("", vec![])],
            vec![("RuntimeVisibleAnnotations", vec![0, 1, 0, 7, 0, 1, 0, 8, b'[', 0, 2, b's', 0, 1, b'@', 0, 2, 0, 0])],
            vec![("StackMapTable", vec![0, 3, 0x41, 7, 0, 1, 0xFC, 0, 2, 8, 0, 3, 0xFF, 0, 9, 0, 1, 1, 0, 0])],
            vec![("Code", vec![0, 1, 0, 2, 0, 0, 0, 20, 0xAB, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 1, 0, 0, 0, 5, 0, 0, 0, 6, 0xB1, 0, 0, 0, 0, 0])],
            vec![("Code", vec![0, 1, 0, 2, 0, 0, 0, 4, 0xC4, 0x15, 0, 1, 0, 0, 0, 0]), ("Exceptions", vec![0, 1, 0, 2])],
            vec![("BootstrapMethods", vec![0, 1, 0, 2, 0, 1, 0, 3]), ("InnerClasses", vec![0, 1, 0, 1, 0, 2, 0, 3, 0, 4])],
            vec![("Bad", vec![1]), ("Signature", vec![1])],
            vec![("\u{e9}\u{20ac}\0", vec![1]), ("SourceDebugExtension", vec![0xC3, 0xA9, 0xE2, 0x82, 0xAC, 0xC0, 0x80])],
            vec![("SourceDebugExtension", vec![0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80]), ("\u{1F600}", vec![1])],
            vec![("Module", vec![0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0])],
            vec![("RuntimeInvisibleTypeAnnotations", vec![0, 1, 0x40, 0, 1, 0, 1, 0, 2, 0, 3, 1, 3, 1, 0, 7, 0, 0])],
        ]
        .iter()
        .enumerate()
        {
            v.push(
                crate::build::at(LOCS[k % 4], a.len(), &mut |c| {
                    for (name, content) in a {
                        let e = c.begin(name);
                        c.body.raw(content);
                        c.end(e);
                    }
                })
                .b,
            );
        }
        v
    })
}

type Res = Result<(Pool, Class), String>;

fn call(b: &[u8]) -> Res {
    basic::parse(b).map_err(|e| format!("{:?}", e))
}

fn pool_hash(p: &Pool) -> u64 {
    let mut h = mix(17, u64::from(p.len()));
    let text = |s: &str, h: u64| s.bytes().fold(h, |a, b| mix(a, u64::from(b)));
    for i in 1..p.len() {
        h = match p.get(i) {
            Ok(it) => text(&format!("{:?}", view::item(it)), h),
            Err(e) => text(&format!("{:?}", e), h),
        };
    }
    for (i, it) in p.iter() {
        h = text(&format!("{:?}", view::item(it)), mix(h, u64::from(i)));
    }
    h
}

fn digest(r: &Res) -> (u64, u64) {
    match r {
        Err(e) => (0, e.bytes().fold(5, |a, b| mix(a, u64::from(b)))),
        Ok((p, c)) => {
            let mut s = Stream::default();
            view::class(c, &mut s);
            (pool_hash(p), hash_stream(&s.0) | 1)
        }
    }
}

// ---------------------------------------------------------------- fresh processes

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
}

/// A process that has parsed nothing. For every input it is given it forks a child that parses that
/// input, and nothing else, and reports the digest of the result.
pub fn zygote() {
    let mut i = std::io::stdin();
    loop {
        let mut n = [0u8; 4];
        if i.read_exact(&mut n).is_err() {
            return;
        }
        let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
        i.read_exact(&mut b).expect("harness: zygote");
        let mut status = 0;
        unsafe {
            match fork() {
                0 => {
                    alarm(10);
                    crate::on_small_stack(move || {
                        let d = digest(&call(&b));
                        answer(d);
                    });
                    std::process::exit(0);
                }
                pid => assert!(pid > 0 && waitpid(pid, &mut status, 0) == pid, "harness: fork"),
            }
        }
        if status != 0 {
            // the input alone ends the process (C01): no history can be judged on it
            answer(BAD);
        }
    }
}

fn answer(d: (u64, u64)) {
    let mut o = d.0.to_le_bytes().to_vec();
    o.extend_from_slice(&d.1.to_le_bytes());
    let mut out = std::io::stdout();
    out.write_all(&o).and_then(|_| out.flush()).expect("harness: zygote");
}

const BAD: (u64, u64) = (u64::MAX, u64::MAX);

struct Zygote {
    to: ChildStdin,
    from: ChildStdout,
    known: HashMap<Vec<u8>, (u64, u64)>,
    held: usize,
}

/// Result of an input in a process that has parsed nothing else.
fn baseline(b: &[u8]) -> (u64, u64) {
    static Z: OnceLock<Mutex<Zygote>> = OnceLock::new();
    let z = Z.get_or_init(|| {
        let mut c = Command::new(std::env::current_exe().expect("harness: exe"))
            .arg("zygote")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("harness: zygote");
        let (to, from) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
        Mutex::new(Zygote { to, from, known: HashMap::new(), held: 0 })
    });
    let mut z = z.lock().expect("harness: zygote");
    if let Some(d) = z.known.get(b) {
        return *d;
    }
    z.to.write_all(&(b.len() as u32).to_le_bytes()).expect("harness: zygote");
    z.to.write_all(b).and_then(|_| z.to.flush()).expect("harness: zygote");
    let mut a = [0u8; 16];
    z.from.read_exact(&mut a).expect("harness: zygote");
    let n = |k: usize| u64::from_le_bytes(a[k..k + 8].try_into().unwrap());
    let d = (n(0), n(8));
    z.held += b.len();
    if z.held > 64 << 20 {
        z.known.clear();
        z.held = b.len();
    }
    z.known.insert(b.to_vec(), d);
    d
}

fn baselines() -> &'static Vec<(u64, u64)> {
    static B: OnceLock<Vec<(u64, u64)>> = OnceLock::new();
    B.get_or_init(|| inputs().iter().map(|b| baseline(b)).collect())
}
fn usable(k: usize) -> bool {
    baselines()[k] != BAD
}

// ---------------------------------------------------------------- histories

struct Live {
    r: Res,
    want: (u64, u64),
}

const PARSE: u8 = 0;
const SHARED: u8 = 1;
const DROP: u8 = 2;
const PUSH: u8 = 3;
const REPEAT: u8 = 4;
const FILL: u8 = 5;

fn check(live: &[Live], st: &mut Stats, op: &[u8]) -> Result<(), String> {
    let mut h = mix(3, u64::from(op[0]) << 8 | u64::from(op[1]));
    for (k, l) in live.iter().enumerate() {
        let got = digest(&l.r);
        h = mix(h, got.0 ^ got.1);
        if got != l.want {
            let what = match (&l.r, l.want.0) {
                (Err(e), 0) => format!("error {}", e),
                (Err(e), _) => format!("error {} instead of a class", e),
                (Ok(_), 0) => "a class instead of an error".to_owned(),
                (Ok(_), p) if got.0 != p => "another constant pool".to_owned(),
                _ => "another class".to_owned(),
            };
            return Err(format!("after step {:?}: result {} of {} live ones is not what its input gives in a fresh process: {}", op, k + 1, live.len(), what));
        }
    }
    st.step(h);
    Ok(())
}

/// Payload: 0xFF and a list of inputs, which are parsed in this order with all results kept.
fn run_list(mut p: &[u8], st: &mut Stats) -> Result<(), String> {
    let mut live: Vec<Live> = Vec::new();
    st.start();
    while p.len() >= 4 {
        let n = u32::from_le_bytes(p[..4].try_into().unwrap()) as usize;
        let b = &p[4..4 + n];
        p = &p[4 + n..];
        let want = baseline(b);
        if want == BAD {
            st.outcome("input left out: it ends the process on its own");
            continue;
        }
        live.push(Live { r: call(b), want });
        check(&live[live.len() - 1..], st, &[0xFF, live.len() as u8, 0])?;
    }
    check(&live, st, &[0xFF, 0, 1])?;
    st.outcome(if live.iter().any(|l| l.r.is_err()) { "list with errors" } else { "list" });
    Ok(())
}

/// Payload: 0xFA and an input, which is parsed at every offset from a line of the cache, then at
/// some from a page, and once at the very end of one.
fn run_addresses(b: &[u8], st: &mut Stats) -> Result<(), String> {
    let want = baseline(b);
    st.start();
    if want == BAD {
        st.outcome("input left out: it ends the process on its own");
        return Ok(());
    }
    let mut buf = vec![0xA5u8; b.len() + 3 * 4096];
    let page = (4096 - buf.as_ptr() as usize % 4096) % 4096;
    let end = 4096 - b.len() % 4096;
    for o in (0..64).chain([127, 128, 4095, end - 1, end, end + 1]) {
        let at = page + o;
        buf[at..at + b.len()].copy_from_slice(b);
        let l = Live { r: call(&buf[at..at + b.len()]), want };
        buf[at..at + b.len()].fill(0x5A);
        check(&[l], st, &[0xFA, o as u8, 0])?;
    }
    st.outcome("one input at every address");
    Ok(())
}

/// Payload: 0xF9 and an input with ranges that hold other bytes each time: every one of the last is
/// parsed, some of them are compared, and so are the well-known inputs in between and after it.
/// Gigabytes of input, all inputs after every few of them.
fn run_bulk(shape: u8, gigabytes: u8, st: &mut Stats) -> Result<(), String> {
    st.start();
    let ins = inputs();
    const SIZE: usize = 32 << 20;
    let big = at([Loc::Class, Loc::Code][shape as usize % 2], 1, &mut |c| {
        let e = c.begin(if shape < 2 { "Custom" } else { "SourceDebugExtension" });
        c.body.raw(&vec![b'a'; SIZE + usize::from(shape % 2)]);
        c.end(e);
    })
    .b;
    for round in 0..usize::from(gigabytes) * 32 + 2 {
        let r = call(&big);
        if r.is_err() {
            return Err(format!("an input of {} bytes is rejected after {} times", big.len(), round));
        }
        drop(r);
        if round % 16 != 1 {
            continue;
        }
        for again in 0..9 {
            for k in 0..ins.len() {
                if usable(k) && ins[k].len() < 4000 {
                    check(&[Live { r: call(&ins[k]), want: baselines()[k] }], st, &[0xF8, k as u8, again])?;
                }
            }
        }
    }
    st.outcome("gigabytes of input");
    Ok(())
}

fn run_different(p: &[u8], st: &mut Stats) -> Result<(), String> {
    st.start();
    let ins = inputs();
    let mut kept: Vec<Live> = Vec::new();
    robust::each_variant(p, &mut |i, b| {
        let r = call(b);
        if i % 37 == 5 {
            let want = baseline(b);
            if want != BAD {
                kept.push(Live { r, want });
                check(&kept[kept.len() - 1..], st, &[0xF9, i as u8, 0])?;
            }
        }
        if i % 16 == 3 {
            let k = (i as usize / 16) % ins.len();
            if usable(k) {
                check(&[Live { r: call(&ins[k]), want: baselines()[k] }], st, &[0xF9, i as u8, 1])?;
            }
        }
        Ok(())
    })?;
    for k in 0..ins.len() {
        if usable(k) {
            check(&[Live { r: call(&ins[k]), want: baselines()[k] }], st, &[0xF9, k as u8, 2])?;
        }
    }
    check(&kept, st, &[0xF9, 0, 3])?;
    st.outcome("many different inputs");
    Ok(())
}

fn list(p: &mut Vec<u8>, inputs: &[&[u8]]) {
    p.clear();
    p.push(0xFF);
    for b in inputs {
        p.extend_from_slice(&(b.len() as u32).to_le_bytes());
        p.extend_from_slice(b);
    }
}

/// One class file per attribute shape; all pools have the same length and the first attribute name
/// is at the same index in all of them.
fn shapes() -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for (k, f) in attrs::variants().iter().enumerate() {
        let loc = [Loc::Class, Loc::Field, Loc::Method, Loc::Code][k % 4];
        let b = at(loc, 2, &mut |c| {
            f(c);
            attrs::any_attribute(c, k % 5);
            while c.next < 60 {
                c.pool.u1(3);
                c.pool.u4(c.next);
                c.next += 1;
            }
        });
        v.push(b.b);
    }
    v
}

/// Payload: 0xFE, two inputs, and for both parses the points at which the other one goes on; or
/// 0xFC, two inputs, after how many instructions both parses lose their turn each time, and points.
fn run_two(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let ins = inputs();
    let (a, b) = (p[1] as usize, p[2] as usize);
    let mut at: [Vec<usize>; 2] = [Vec::new(), Vec::new()];
    let step = p[0] == 0xFC;
    let (points, unit) = if step { (Points::Instructions([p[3] as usize, p[4] as usize]), "instructions") } else { (Points::Allocator, "allocator calls") };
    for x in p[if step { 5 } else { 3 }..].chunks(4) {
        at[x[0] as usize].push(x[1] as usize | (x[2] as usize) << 8 | (x[3] as usize) << 16);
    }
    let told = match points {
        Points::Instructions(e) if e != [0, 0] => format!("two parses at once, the turn changing every {:?} instructions", e),
        _ => format!("two parses at once, the turn changing at {} {:?}", unit, at),
    };
    st.start();
    let base = baselines();
    let (fa, fb) = (|| call(&ins[a]), || call(&ins[b]));
    let f: [&(dyn Fn() -> Res + Sync); 2] = [&fa, &fb];
    let o = crate::sched::run([&f[0], &f[1]], points, [&at[0], &at[1]], &|r: Res| digest(&r));
    let mut h = mix(o.switches as u64, p.iter().fold(1, |h, x| mix(h, u64::from(*x))));
    st.step(h);
    for (k, (d, passed)) in o.of.iter().enumerate() {
        if !step {
            h = mix(h, *passed as u64);
        }
        st.step(h);
        let want = base[[a, b][k]];
        match d {
            None => return Err(format!("{}: parse {} panics", told, k + 1)),
            Some(d) if *d != want => {
                return Err(format!(
                    "{}: the result of parse {} is not what its input gives alone",
                    told,
                    k + 1
                ))
            }
            _ => {}
        }
    }
    st.outcome(if o.free {
        "two parses at once, uncontrolled"
    } else {
        ["two parses, one after the other", "two parses at once, one switch", "two parses at once, two switches", "two parses at once, three or more switches"][o.switches.min(3)]
    });
    Ok(())
}

/// Payload: 0xFB, two inputs, n: the second input is parsed again and again, each time in the gap
/// between two instructions of the parse of the first one (every n-th gap).
fn run_gaps(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let ins = inputs();
    let (a, b, n) = (p[1] as usize, p[2] as usize, p[3] as usize);
    let base = baselines();
    st.start();
    let fa = || (Some(call(&ins[a])), 0);
    let fb = || {
        let mut wrong = 0;
        loop {
            if digest(&call(&ins[b])) != base[b] {
                wrong += 1;
            }
            if !crate::sched::pass() {
                return (None, wrong);
            }
        }
    };
    let f: [&(dyn Fn() -> (Option<Res>, usize) + Sync); 2] = [&fa, &fb];
    let o = crate::sched::run([&f[0], &f[1]], Points::Instructions([n, 0]), [&[], &[]], &|(r, wrong)| wrong + r.map_or(0, |r| (digest(&r) != base[a]) as usize));
    st.step(mix(p.iter().fold(1, |h, x| mix(h, u64::from(*x))), 0));
    for (k, (d, _)) in o.of.iter().enumerate() {
        match d {
            Some(0) => {}
            _ => {
                return Err(format!(
                    "one parse between every {} instructions of another one: {} {}",
                    n,
                    ["the result of the outer parse", "a result of the inner parse"][k],
                    if d.is_none() { "is a panic" } else { "is not what its input gives alone" }
                ))
            }
        }
    }
    st.outcome(if o.free { "one parse in the gaps of another one, uncontrolled" } else { "one parse in the gaps of another one" });
    Ok(())
}

/// Instructions (outside of the allocator) of a parse of this input.
fn instructions(k: usize) -> usize {
    let f = || call(&inputs()[k]);
    crate::sched::run([&f, &f], Points::Instructions([0; 2]), [&[usize::MAX], &[]], &|r: Res| drop(r)).of[0].1
}

/// Allocator calls of a parse of this input.
fn points(k: usize) -> usize {
    static P: OnceLock<Vec<usize>> = OnceLock::new();
    P.get_or_init(|| {
        (0..inputs().len())
            .map(|k| {
                if !usable(k) {
                    return 0;
                }
                let f = || call(&inputs()[k]);
                crate::sched::run([&f, &f], Points::Allocator, [&[], &[]], &|r: Res| drop(r)).of[0].1
            })
            .collect()
    })[k]
}

/// Payload: triples (operation, argument, argument), or a list of inputs, or two inputs and a schedule.
fn run(p: &[u8], st: &mut Stats) -> Result<(), String> {
    if p[0] == 0xFE || p[0] == 0xFC {
        return run_two(p, st);
    }
    if p[0] == 0xFB {
        return run_gaps(p, st);
    }
    if p[0] == 0xFF {
        return run_list(&p[1..], st);
    }
    if p[0] == 0xFA {
        return run_addresses(&p[1..], st);
    }
    if p[0] == 0xF9 {
        return run_different(&p[1..], st);
    }
    if p[0] == 0xF8 {
        return run_bulk(p[1], p[2], st);
    }
    let ins = inputs();
    let base = baselines();
    let mut live: Vec<Live> = Vec::new();
    let mut shared = vec![0u8; 64 << 10];
    st.start();
    for op in p.chunks(3) {
        let (a, b) = (op[1] as usize, op[2] as usize);
        match op[0] {
            PARSE => {
                // a buffer of its own, at an offset, with other bytes around
                let mut buf = vec![0xA5u8.wrapping_add(op[2]); b];
                buf.extend_from_slice(&ins[a]);
                buf.extend(std::iter::repeat(0x5A).take(b));
                let r = call(&buf[b..b + ins[a].len()]);
                live.push(Live { r, want: base[a] });
            }
            SHARED => {
                shared[b..b + ins[a].len()].copy_from_slice(&ins[a]);
                let r = call(&shared[b..b + ins[a].len()]);
                live.push(Live { r, want: base[a] });
            }
            DROP => {
                if a < live.len() {
                    live.remove(a);
                }
            }
            PUSH | FILL => {
                if let Some(l) = live.get_mut(a) {
                    if let Ok((pool, _)) = &mut l.r {
                        if op[0] == PUSH {
                            let it = match b {
                                0 => Item::UTF8("mc: pushed".to_owned()),
                                1 => Item::Long(0x6D63_0001),
                                _ => Item::Integer(0x6D63),
                            };
                            let _ = pool.push(it);
                        } else {
                            for k in 0..500 {
                                let _ = pool.push(Item::Integer(0x6D64_0000 + k));
                            }
                        }
                        // what this pool then holds is C21 - C23; here: the others, and its class
                        l.want.0 = pool_hash(pool);
                    }
                }
            }
            _ => {
                // many parses, results dropped at once
                let n = [70, 300, 70_000][b];
                for k in 0..n {
                    let r = call(&ins[a]);
                    if k % 64 == 0 || k + 1 == n {
                        check(&[Live { r, want: base[a] }], st, op)?;
                    }
                }
            }
        }
        check(&live, st, op)?;
    }
    st.outcome(if live.iter().any(|l| l.r.is_err()) { "history with a live error" } else { "history" });
    Ok(())
}

fn histories(s: &mut Sink) {
    let n = inputs().len();
    let good: Vec<u8> = (0..n).filter(|k| usable(*k)).map(|k| k as u8).collect();
    assert!(good.len() > n / 2, "harness: inputs");
    let first = *FIRST_TINY.get().expect("harness: inputs");
    let small: Vec<u8> = good.iter().copied().filter(|k| (*k as usize) < first && inputs()[*k as usize].len() < 4000).collect();

    s.phase("one parse, every offset");
    for &a in &good {
        for b in 0..64u8 {
            for op in [PARSE, SHARED] {
                if s.mine() && !s.case(&[op, a, b]) {
                    return;
                }
            }
        }
    }

    s.phase("texts at every address");
    let mut lens: Vec<usize> = (1..=if s.thorough { 300 } else { 9 }).collect();
    lens.extend([15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 200, 255, 256, 1000, 4096]);
    for &n in &lens {
        for (j, c) in cp::NOTABLE.iter().enumerate() {
            for place in 0..5 {
                // n characters, with the notable one first, last, in the middle, everywhere, twice at the end
                if !s.mine() || !s.thorough && n > 9 && (n + j) % 3 != place % 3 && place != 3 {
                    continue;
                }
                let mut t = vec!['x'; n];
                match place {
                    0 => t[0] = *c,
                    1 => t[n - 1] = *c,
                    2 => t[n / 2] = *c,
                    3 => t.fill(*c),
                    _ => {
                        t[n - 1] = *c;
                        t[n.saturating_sub(2)] = *c;
                    }
                }
                let t: String = t.into_iter().collect();
                let mut m = Vec::new();
                crate::mutf8::encode(&t, &mut m);
                let mut p = vec![0xFA];
                p.extend(
                    at(Loc::Class, 1, &mut |c| {
                        c.raw_utf8(&t);
                        let e = c.begin("SourceDebugExtension");
                        c.body.raw(&m);
                        c.end(e);
                    })
                    .b,
                );
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("classes at every address");
    let mut base: Vec<Vec<u8>> = inputs().clone();
    base.extend(shapes());
    base.extend(code::templates().into_iter().map(|b| b.b));
    base.extend(cp::templates().into_iter().map(|b| b.b));
    base.extend(attrs::templates().into_iter().map(|b| b.b));
    base.extend(corpus::files(1 << 20).into_iter().map(|(_, b)| b).take(if s.thorough { 1 << 20 } else { 200 }));
    for b in &base {
        if s.mine() {
            let mut p = vec![0xFA];
            p.extend(b);
            if !s.case(&p) {
                return;
            }
        }
    }

    s.phase("after many different inputs");
    for (b, ranges) in robust::varied() {
        if s.mine() {
            let mut p = vec![0xF9];
            p.extend(robust::vary(if s.thorough { 2000 } else { 120 }, &ranges, &b));
            if !s.case(&p) {
                return;
            }
        }
    }

    s.phase("after gigabytes of input");
    for shape in 0..if s.thorough { 4u8 } else { 2 } {
        if s.mine() && !s.case(&[0xF8, shape, if s.thorough { 17 } else { 4 }]) {
            return;
        }
    }

    s.phase("histories");
    let mut ops: Vec<[u8; 3]> = Vec::new();
    for &a in &small {
        ops.push([PARSE, a, 0]);
        ops.push([SHARED, a, 0]);
    }
    ops.push([PARSE, small[0], 3]);
    ops.push([SHARED, small[1], 5]);
    for k in [0u8, 1] {
        ops.push([DROP, k, 0]);
        ops.push([FILL, k, 0]);
        for b in 0..3 {
            ops.push([PUSH, k, b]);
        }
    }
    let depth = if s.thorough { 4 } else { 3 };
    let (shard, shards) = (s.shard, s.nshards);
    explore(
        0,
        2,
        shard,
        shards,
        |c: &mut Ch| {
            let mut p = Vec::new();
            for _ in 0..depth {
                p.extend(ops[c.free(ops.len())]);
            }
            p
        },
        |p| s.case(&p),
    );

    s.phase("after many parses");
    for &a in &good {
        for b in 0..3u8 {
            if inputs()[a as usize].len() > 4000 && b == 2 {
                continue;
            }
            if b < 2 {
                for &c in &good {
                    if s.mine() && !s.case(&[REPEAT, a, b, PARSE, c, 0, SHARED, a, 0]) {
                        return;
                    }
                }
            } else if s.mine() {
                let mut p = vec![REPEAT, a, b];
                for &c in &good {
                    p.extend([PARSE, c, 0]);
                }
                if !s.case(&p) {
                    return;
                }
            }
        }
    }

    s.phase("all inputs alive at once, in every rotation and direction");
    for k in 0..small.len() {
        for dir in 0..2 {
            if !s.mine() {
                continue;
            }
            let mut p = Vec::new();
            for j in 0..small.len() {
                let x = if dir == 0 { (k + j) % small.len() } else { (k + small.len() - j) % small.len() };
                p.extend([if j % 2 == 0 { SHARED } else { PARSE }, small[x], 0]);
            }
            p.extend([FILL, 0, 0, FILL, 1, 0, DROP, 0, 0, DROP, 2, 0]);
            for &x in &small {
                p.extend([PARSE, x, 1]);
            }
            if !s.case(&p) {
                return;
            }
        }
    }

    s.phase("two parses at once, one switch at every allocator call");
    for &a in &small {
        for &b in &small {
            for k in 1..=points(a as usize).min(2000) {
                if s.mine() && !s.case(&[0xFE, a, b, 0, k as u8, (k >> 8) as u8, 0]) {
                    return;
                }
            }
        }
    }

    s.phase("two parses at once, up to three switches at allocator calls");
    // the second parse is left at its call j, the first one goes on from call k, and there until its
    // end or call l
    let most = if s.thorough { 64 } else { 24 };
    let spread = |n: usize| -> Vec<usize> {
        // every call when there are few, else as many spread evenly
        let m = n.min(most);
        (0..m).map(|k| 1 + k * n / m.max(1)).collect()
    };
    for &a in &small {
        for &b in &small {
            for k in spread(points(a as usize)) {
                for j in spread(points(b as usize)) {
                    if !s.mine() || !s.thorough && (k + j) % 4 != 0 {
                        continue;
                    }
                    let p = [0xFE, a, b, 0, k as u8, (k >> 8) as u8, 0, 1, j as u8, (j >> 8) as u8, 0];
                    if !s.case(&p) {
                        return;
                    }
                    let l = k + 5;
                    let mut p = p.to_vec();
                    p.extend([0, l as u8, (l >> 8) as u8, 0]);
                    if (k + j) % 8 == 0 && !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }

    s.phase("two parses at once, switching every few instructions");
    let tiny: Vec<u8> = (first..inputs().len()).map(|k| k as u8).filter(|k| usable(*k as usize)).collect();
    let every: &[[u8; 2]] = if s.thorough {
        &[[1, 1], [1, 2], [2, 1], [2, 3], [3, 5], [5, 3], [7, 13], [13, 7], [21, 34], [55, 34], [89, 144], [233, 144]]
    } else {
        &[[1, 2], [13, 7]]
    };
    for &a in &tiny {
        for &b in &tiny {
            for e in every {
                if s.mine() && !s.case(&[0xFC, a, b, e[0], e[1]]) {
                    return;
                }
            }
        }
    }

    s.phase("one parse in all the gaps between the instructions of another one");
    for &a in &tiny {
        for &b in &tiny {
            for n in if s.thorough { 1..=5 } else { 1..=1 } {
                if s.mine() && !s.case(&[0xFB, a, b, n]) {
                    return;
                }
            }
        }
    }

    if s.thorough {
        s.phase("two parses at once, one switch at every instruction");
        for (i, &a) in tiny.iter().enumerate() {
            let b = tiny[(i + 1) % tiny.len()];
            let n = instructions(a as usize);
            for k in 1..=n + 20 {
                if s.mine() && !s.case(&[0xFC, a, b, 0, 0, 0, k as u8, (k >> 8) as u8, (k >> 16) as u8]) {
                    return;
                }
            }
        }
    }

    s.phase("one shape after another, all pairs");
    let v = shapes();
    let mut p = Vec::new();
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            if !s.mine() || !s.thorough && i > j {
                continue;
            }
            list(&mut p, &[a, b, a, b]);
            if !s.case(&p) {
                return;
            }
        }
    }

    s.phase("siblings that differ in one byte");
    let mut base: Vec<Vec<u8>> = Vec::new();
    base.extend(attrs::templates().into_iter().map(|b| b.b));
    base.extend(code::templates().into_iter().map(|b| b.b));
    base.extend(cp::templates().into_iter().map(|b| b.b));
    for a in &base {
        let step = if s.thorough { 1 } else { 1 + a.len() / 400 };
        for k in (0..a.len()).step_by(step) {
            for x in [1u8, 0x80] {
                if s.mine() && (s.thorough || x == 1) {
                    let mut b = a.clone();
                    b[k] ^= x;
                    list(&mut p, &[a, &b, a, &b]);
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }

    s.phase("after every value of every field");
    // the input is parsed again after one of its fields had an extreme value, and so is another one
    for (i, a) in base.iter().enumerate() {
        let other = &v[(i * 7 + 3) % v.len()];
        let step = if s.thorough { 1 } else { 1 + a.len() / 250 };
        for k in 0..a.len() {
            // the fields of the class itself: the magic, the versions, and the first counts
            if k > 12 && k % step != 0 || !s.mine() {
                continue;
            }
            let mut several: Vec<Vec<u8>> = Vec::new();
            for x in [0u8, 1, 0x7F, 0x80, 0xFF] {
                let mut b = a.clone();
                b[k] = x;
                several.push(b);
            }
            for x in [0u16, 0x7FFF, 0x8000, 0xFFFF] {
                if k + 1 < a.len() {
                    let mut b = a.clone();
                    b[k..k + 2].copy_from_slice(&x.to_be_bytes());
                    several.push(b);
                }
            }
            let mut order: Vec<&[u8]> = Vec::new();
            for b in &several {
                if b != a {
                    order.extend([b, &a[..], other]);
                }
            }
            list(&mut p, &order);
            if !s.case(&p) {
                return;
            }
        }
    }

    s.phase("after every version");
    // minor and major version, then the class as it was
    for a in [&base[0], &v[0], &v[v.len() / 2]] {
        for hi in 0..=255u8 {
            for at in [4usize, 6] {
                if !s.mine() {
                    continue;
                }
                let several: Vec<Vec<u8>> = (0..=255u8)
                    .filter(|lo| s.thorough || hi == 0 || hi == 0xFF || *lo == 0 || *lo == 0xFF)
                    .map(|lo| {
                        let mut b = a.to_vec();
                        b[at] = hi;
                        b[at + 1] = lo;
                        b
                    })
                    .collect();
                for b in several.chunks(16) {
                    let mut order: Vec<&[u8]> = Vec::new();
                    for b in b {
                        order.extend([&b[..], &a[..]]);
                    }
                    list(&mut p, &order);
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }

    s.phase("one version after another");
    let mut versions: Vec<[u16; 2]> = Vec::new();
    for major in (43..=70u16).chain([0, 1, 0xFFFE, 0xFFFF]) {
        for minor in [0u16, 1, 0xFFFF] {
            versions.push([minor, major]);
        }
    }
    let of = |a: &[u8], v: &[u16; 2]| {
        let mut b = a.to_vec();
        b[4..6].copy_from_slice(&v[0].to_be_bytes());
        b[6..8].copy_from_slice(&v[1].to_be_bytes());
        b
    };
    for a in [&base[0], &v[v.len() / 2]] {
        for x in &versions {
            if !s.mine() {
                continue;
            }
            let first = of(a, x);
            let others: Vec<Vec<u8>> = versions.iter().map(|y| of(a, y)).collect();
            for part in others.chunks(16) {
                let order: Vec<&[u8]> = part.iter().flat_map(|b| [&first[..], &b[..], &b[..]]).collect();
                list(&mut p, &order);
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("one value of a field after another");
    for (i, a) in v.iter().enumerate() {
        if !s.thorough && i % 4 != 0 {
            continue;
        }
        for k in 4..a.len() - 1 {
            if !s.mine() || !s.thorough && k > 12 && (k + i) % 3 != 0 {
                continue;
            }
            let old = u16::from_be_bytes([a[k], a[k + 1]]);
            let mut several: Vec<Vec<u8>> = Vec::new();
            for x in [old, old.wrapping_add(1), old.wrapping_sub(1), 0, 0xFFFF] {
                let mut b = a.clone();
                b[k..k + 2].copy_from_slice(&x.to_be_bytes());
                several.push(b);
            }
            let order: Vec<&[u8]> = crate::phases::de_bruijn(5, 2).into_iter().map(|j| &several[j][..]).collect();
            list(&mut p, &order);
            if !s.case(&p) {
                return;
            }
        }
    }

    s.phase("after an input that ends early");
    for (i, a) in v.iter().enumerate() {
        let other = &v[(i + 7) % v.len()];
        let step = if s.thorough { 1 } else { 5 };
        for n in (0..a.len()).step_by(step) {
            if s.mine() {
                list(&mut p, &[&a[..n], a, &a[..n], other]);
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
}
