//! C01, C02: totality and memory.
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use super::Driver;
use super::{attrs, code, corpus, cp};
use crate::alloc;
use crate::build::*;
use crate::phases::*;
use crate::refdec::Ref;
use crate::sink::Sink;
use crate::stats::Stats;
use jbcrs::basic;
use std::fmt::Write;

struct Null(u64);
impl Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

/// C01: parse, then walk over whatever was returned. Panics, aborts and hangs are caught outside.
fn run_walk(b: &[u8], st: &mut Stats) -> Result<(), String> {
    // the model only classifies the trace here
    let (v, _, _) = Ref::run(&b[..b.len().min(1 << 20)], st);
    match basic::parse(b) {
        Err(e) => {
            st.outcome("error");
            let mut n = Null(0);
            let _ = write!(n, "{:?}", e);
            st.distinct(n.0);
        }
        Ok((pool, class)) => {
            st.outcome("class");
            let len = pool.len();
            let mut found = 0u32;
            for i in (0..=len.saturating_add(3)).chain(65530..=65535) {
                if pool.get(i).is_ok() {
                    found += 1;
                }
                let _ = pool.get_class_name(i);
                let _ = pool.get_class_name_opt(i);
                if i < 8 || u32::from(i) + 3 > u32::from(len) {
                    let _ = pool.get_utf8(i);
                }
            }
            let mut n = Null(0);
            let mut items = 0u32;
            let mut it = pool.iter();
            loop {
                match it.next() {
                    Some((i, item)) => {
                        let _ = write!(n, "{} {:?}", i, item);
                        items += 1;
                        if items > 70_000 {
                            return Err("the iteration over the pool does not end".to_owned());
                        }
                    }
                    None => break,
                }
            }
            let _ = it.next();
            for k in (0..items + 2).take(24).chain(items.saturating_sub(3)..items + 1) {
                let mut it = pool.iter();
                for _ in 0..k {
                    let _ = it.size_hint();
                    it.next();
                }
                let _ = it.size_hint();
                if k % 4 == 0 {
                    let _ = it.count();
                } else if k % 4 == 1 {
                    let _ = it.last();
                } else if k % 4 == 2 {
                    let _ = it.nth(2);
                } else if items < 2000 {
                    let _: Vec<(u16, &jbcrs::basic::Item)> = it.collect();
                }
                let _ = pool.iter().nth(k as usize);
            }
            let _ = write!(n, "{:?}", class);
            st.distinct(n.0 ^ u64::from(found) << 32);
        }
    }
    let _ = v;
    Ok(())
}

fn bases(max: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    for t in attrs::templates().into_iter().chain(code::templates()).chain(cp::templates()) {
        v.push(t.b);
    }
    for (k, f) in attrs::variants().iter().enumerate() {
        v.push(at(crate::build::LOCS[k % 4], 1, &mut |c| f(c)).b);
    }
    v.extend(corpus::files(max).into_iter().map(|x| x.1));
    v
}

/// One class attribute `name` with this content and this declared length.
fn attr(name: &str, content: &[u8], len: u32) -> Vec<u8> {
    let mut c = Cls::new();
    c.header(0);
    c.u2(0);
    c.u2(0);
    c.u2(1);
    let i = c.name(name);
    c.u2(i);
    c.u4(len);
    c.body.raw(content);
    c.finish().b
}

/// Nested structures: `depth` times an opening, then a closing.
pub const NESTS: usize = 12;
pub fn nest(kind: usize, depth: usize) -> Vec<u8> {
    let wrap = |name: &str, head: &[u8], open: &dyn Fn(usize, &mut Vec<u8>), leaf: &[u8]| {
        let mut v = head.to_vec();
        for k in 0..depth {
            open(k, &mut v);
        }
        v.extend_from_slice(leaf);
        let n = v.len() as u32;
        attr(name, &v, n)
    };
    let arr = |_: usize, v: &mut Vec<u8>| v.extend_from_slice(b"[\0\x01");
    let ann = |_: usize, v: &mut Vec<u8>| v.extend_from_slice(b"@\0\x02\0\x01\0\x03");
    let alt = |k: usize, v: &mut Vec<u8>| if k % 2 == 0 { arr(k, v) } else { ann(k, v) };
    let arr2 = |_: usize, v: &mut Vec<u8>| v.extend_from_slice(b"[\0\x02");
    let arrmax = |_: usize, v: &mut Vec<u8>| v.extend_from_slice(b"[\xFF\xFF");
    let annmax = |_: usize, v: &mut Vec<u8>| v.extend_from_slice(b"@\0\x02\xFF\xFF\0\x03");
    let leaf = b"I\0\x07";
    match kind {
        0 => wrap("AnnotationDefault", b"", &arr, leaf),
        1 => wrap("AnnotationDefault", b"", &ann, leaf),
        2 => wrap("AnnotationDefault", b"", &alt, leaf),
        3 => wrap("AnnotationDefault", b"", &arr2, leaf),
        4 => wrap("AnnotationDefault", b"", &arrmax, leaf),
        5 => wrap("AnnotationDefault", b"", &annmax, leaf),
        6 => wrap("RuntimeVisibleAnnotations", b"\0\x01\0\x05\0\x01\0\x06", &ann, leaf),
        7 => wrap("RuntimeVisibleParameterAnnotations", b"\x01\0\x01\0\x05\0\x01\0\x06", &arr, leaf),
        8 => wrap("RuntimeInvisibleTypeAnnotations", b"\0\x01\x13\0\0\x05\0\x01\0\x06", &alt, leaf),
        9 => wrap("AnnotationDefault", b"", &arr, b""),
        _ => {
            // Code in Code (the length field of every level is right); with or without the rest
            let level = 6 + 4 + 4 + 1 + 2 + 2;
            let mut c = Cls::new();
            let i = c.name("Code");
            c.header(0);
            c.u2(0);
            c.u2(0);
            c.u2(1);
            let mut b = Vec::new();
            for k in 0..depth {
                let inner = (depth - 1 - k) * level;
                b.extend_from_slice(&i.to_be_bytes());
                let n = if kind == 10 { (level - 6 + inner) as u32 } else { (inner + level) as u32 };
                b.extend_from_slice(&n.to_be_bytes());
                b.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 1, 0xB1, 0, 0]);
                b.extend_from_slice(&[0, (k + 1 < depth) as u8]);
            }
            c.body.raw(&b);
            c.finish().b
        }
    }
}

/// Two interleaved families: a code attribute nested `code` deep with an annotation nested `ann`
/// deep inside.
fn mixed(code: usize, ann: usize) -> Vec<u8> {
    let mut inner = Vec::new();
    for _ in 0..ann {
        inner.extend_from_slice(b"[\0\x01");
    }
    inner.extend_from_slice(b"I\0\x07");
    let mut c = Cls::new();
    let i = c.name("Code");
    let j = c.name("AnnotationDefault");
    let mut b = j.to_be_bytes().to_vec();
    b.extend_from_slice(&(inner.len() as u32).to_be_bytes());
    b.extend(inner);
    for _ in 0..code {
        let mut o = i.to_be_bytes().to_vec();
        o.extend_from_slice(&(b.len() as u32 + 13).to_be_bytes());
        o.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 1, 0xB1, 0, 0, 0, 1]);
        o.extend_from_slice(&b);
        b = o;
    }
    c.header(0);
    c.u2(0);
    c.u2(0);
    c.u2(1);
    c.body.raw(&b);
    c.finish().b
}

fn nesting(s: &mut Sink, max: usize) {
    s.phase("nesting depth");
    let mut depths: Vec<usize> = (1..=if s.thorough { 400 } else { 140 }).collect();
    let mut d = 150;
    while d <= max {
        depths.push(d);
        d = d * 3 / 2;
    }
    for kind in 0..NESTS {
        for &d in &depths {
            if s.mine() {
                let b = nest(kind, d);
                if b.len() < 15 << 20 && !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("nesting of both kinds");
    for &c in &[1usize, 2, 15, 16, 17, 30, 31, 32, 33, 48, 62, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300] {
        for &a in &[1usize, 15, 16, 17, 31, 32, 33, 50, 62, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 1000] {
            if s.mine() && !s.case(&mixed(c, a)) {
                return;
            }
        }
    }
}

fn c01(s: &mut Sink) {
    let t = s.thorough;
    let corpus_max = if t { 1 << 20 } else { 2500 };
    let all = bases(corpus_max);
    nesting(s, 800_000);
    s.phase("prefixes");
    for b in &all {
        for n in 0..=b.len() {
            if s.mine() && !s.case(&b[..n]) {
                return;
            }
        }
    }
    s.phase("every byte x every value");
    let small = if t { 6000 } else { 400 };
    for base in &all {
        let mut b = base.clone();
        for k in 0..b.len() {
            if !s.mine() {
                continue;
            }
            let orig = b[k];
            if base.len() <= small {
                for v in 0..=255 {
                    b[k] = v;
                    if !s.case(&b) {
                        return;
                    }
                }
            } else {
                for v in [0, 1, 2, 0x7F, 0x80, 0xFF, orig ^ 1, orig ^ 0x80, orig.wrapping_add(1), orig.wrapping_sub(1)] {
                    b[k] = v;
                    if !s.case(&b) {
                        return;
                    }
                }
            }
            b[k] = orig;
        }
    }
    s.phase("bytes removed, repeated, inserted");
    for base in &all {
        if base.len() > if t { 6000 } else { 1000 } {
            continue;
        }
        for k in 0..base.len() {
            if !s.mine() {
                continue;
            }
            for n in 1..=4 {
                let mut b = base.clone();
                b.drain(k..(k + n).min(base.len()));
                if !s.case(&b) {
                    return;
                }
                let mut b = base.clone();
                let part: Vec<u8> = base[k..(k + n).min(base.len())].to_vec();
                b.splice(k..k, part);
                if !s.case(&b) {
                    return;
                }
                let mut b = base.clone();
                b.splice(k..k, vec![[0u8, 0xFF, 1, 0x5B][n - 1]; n]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("adjacent byte pairs");
    for base in &all {
        if base.len() > if t { 3000 } else { 300 } {
            continue;
        }
        let mut b = base.clone();
        for k in 0..b.len() - 1 {
            if !s.mine() {
                continue;
            }
            let orig = [b[k], b[k + 1]];
            for x in [0u8, 1, 0x7F, 0x80, 0xFF] {
                for y in [0u8, 1, 2, 0x7F, 0x80, 0xFE, 0xFF] {
                    b[k] = x;
                    b[k + 1] = y;
                    if !s.case(&b) {
                        return;
                    }
                }
            }
            b[k] = orig[0];
            b[k + 1] = orig[1];
        }
    }
    let tp = attrs::templates();
    sweep_menu(s, &tp);
    if t {
        pairs(s, &tp);
        sweep(s, &tp);
    } else {
        pairs(s, &tp.iter().enumerate().filter(|x| x.0 % 5 == 0).map(|x| x.1.clone()).collect::<Vec<_>>());
    }
    graphs(s);
    code::late(s);
    let named: Vec<Built> = attrs::variants().iter().enumerate().flat_map(|(k, f)| (0..4).map(move |l| (l, at(LOCS[l], 1, &mut |c| f(c)))).filter(move |x| t || (k + x.0) % 4 == 0 || plain(&x.1).len() < 9).map(|x| x.1)).collect();
    named_references(s, &named, if t { 24 } else { 12 });
    linked(s, &named);
    pieces(s, &attrs::one_of_each().iter().map(|f| at(Loc::Class, 1, &mut |c| f(c))).collect::<Vec<_>>(), true);
    linked_pairs(s, &attrs::one_of_each(), &attrs::one_of_each());
    links(s, &[Link::Inner, Link::Bootstrap, Link::Jump(0xA7), Link::Jump(0xC8), Link::Jump(0x99), Link::Jump(0xA8), Link::Handler], if t { 6 } else { 5 });
    references(s, 0, &attrs::bases(), false);
    versions(s, 0, &all[..all.len().min(260)]);
    s.phase("short attribute contents");
    for name in attrs::all_names() {
        for a in 0..256u32 {
            if !s.mine() {
                continue;
            }
            if !s.case(&attr(name, &[a as u8], 1)) || !s.case(&attr(name, &[], a)) {
                return;
            }
            for x in 0..256u32 {
                if !t && x > 9 && x % 23 != 0 && x < 250 {
                    continue;
                }
                let y = [a as u8, x as u8];
                if !s.case(&attr(name, &y, 2)) || !s.case(&attr(name, &[0, a as u8, x as u8, 0, 1, 2], 6)) {
                    return;
                }
            }
        }
    }
    s.phase("foreign attributes, lying lengths");
    for name in attrs::foreign_names() {
        if !s.mine() {
            continue;
        }
        for n in 0..24usize {
            for fill in [0u8, 1, 0xFF] {
                for len in [n as u32, n as u32 + 1, (n as u32).wrapping_sub(1), 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFA, 0xFFFF_FFFF] {
                    if !s.case(&attr(&name, &vec![fill; n], len)) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("short code arrays");
    let mut b = Vec::new();
    for a in 0..=255u8 {
        if !s.mine() {
            continue;
        }
        for x in 0..=255u8 {
            for lead in 0..4 {
                let mut c = vec![0u8; lead];
                c.extend_from_slice(&[a, x]);
                code::class(&mut b, 0, &[&c]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("switch bounds");
    let m: Vec<i32> = MENU32.iter().map(|x| *x as i32).collect();
    for op in [0xAAu8, 0xAB] {
        for &d in &[0i32, -1, i32::MIN, i32::MAX] {
            for &low in &m {
                if !s.mine() {
                    continue;
                }
                for &high in &m {
                    for lead in [0usize, 1, 3] {
                        for data in [0usize, 1, 3, 4, 8, 40] {
                            let mut c = vec![0u8; lead];
                            c.push(op);
                            while c.len() % 4 != 0 {
                                c.push(0);
                            }
                            for v in [d, low, high] {
                                c.extend_from_slice(&v.to_be_bytes());
                            }
                            c.extend(std::iter::repeat(0).take(data));
                            code::class(&mut b, 0, &[&c]);
                            if !s.case(&b) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    s.phase("lookupswitch pair counts");
    for v in wide_menu(4) {
        if s.mine() {
            let mut c = vec![0xAB, 0, 0, 0, 0, 0, 0, 1];
            c.extend_from_slice(&(v as u32).to_be_bytes());
            c.extend_from_slice(&[0; 64]);
            code::class(&mut b, 0, &[&c]);
            if !s.case(&b) {
                return;
            }
        }
    }
    s.phase("declared lengths");
    for base in &tp {
        let mut b = base.b.clone();
        for &(at, w) in base.f.iter().filter(|f| f.1 == 4) {
            if !s.mine() {
                continue;
            }
            for v in wide_menu(4) {
                b[at..at + w as usize].copy_from_slice(&(v as u32).to_be_bytes());
                if !s.case(&b) {
                    return;
                }
            }
            b.copy_from_slice(&base.b);
        }
    }
    big(s);
}

/// A class of so many interfaces, fields, methods and attributes.
pub fn all_long(n: [usize; 4]) -> Vec<u8> {
    let mut c = Cls::new();
    c.header(n[0]);
    for j in 1..3 {
        c.u2(n[j] as u16);
        for _ in 0..n[j] {
            c.v2(3);
            c.u2(0);
        }
    }
    c.u2(n[3] as u16);
    for _ in 0..n[3] {
        let e = c.begin("Synthetic");
        c.end(e);
    }
    c.finish_plain()
}

/// Large, mostly well-formed inputs.
fn big(s: &mut Sink) {
    s.phase("large structures");
    let sizes = [1000usize, 20_000, 65_533, 65_534, 65_535];
    for k in 0..attrs::KINDS {
        for &n in &sizes {
            if s.mine() {
                // n attributes of the same kind
                let b = at(Loc::Class, n.min(65_534), &mut |c| {
                    for _ in 0..n.min(65_534) {
                        attrs::any_attribute(c, k);
                    }
                });
                if b.b.len() < 15 << 20 && !s.case(&b.b) {
                    return;
                }
            }
        }
    }
    for &n in &sizes {
        if s.mine() {
            let mut b = Vec::new();
            code::class(&mut b, 0, &[&vec![0; n]]);
            if !s.case(&b) {
                return;
            }
        }
    }
    for k in 0..cp::ENTRIES {
        if s.mine() {
            let mut c = Cls::new();
            while c.next < 65_534 {
                cp::entry(&mut c, k);
            }
            if c.next > 65_535 {
                continue;
            }
            let n = c.next as u16;
            c.header(0);
            c.u2(0);
            c.u2(0);
            c.u2(0);
            if !s.case(&c.finish_count(n).b) {
                return;
            }
        }
    }
    // all lists of a class long at the same time
    for k in 0..256usize {
        if s.mine() {
            let n = |j: usize| [0usize, 1, 40_000, 65_535][k >> (2 * j) & 3];
            if !s.case(&all_long([n(0), n(1), n(2), n(3)])) {
                return;
            }
        }
    }
    if s.mine() {
        // code arrays may claim more than the 65535 bytes the JVM allows
        for n in [65_536usize, 1 << 20, 8 << 20] {
            let mut b = Vec::new();
            code::class(&mut b, 0, &[&vec![0x57; n]]);
            if !s.case(&b) {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C02

const BASE: usize = 32 << 20;
const PER_BYTE: usize = 1 << 10;
/// What all parses of a process together may keep allocated (lazily made tables).
const KEEP: i64 = 1 << 20;
static KEPT: AtomicI64 = AtomicI64::new(0);

/// Payload: this, how many, a number of ranges, ranges (from, length, every how many bytes one is
/// left alone, lowest byte, how many different ones), and a class file. It is parsed with ever other
/// bytes in these ranges.
const VARY: &[u8] = b"MC-VARY\0";

pub fn vary(of: u32, ranges: &[[u32; 5]], b: &[u8]) -> Vec<u8> {
    let mut p = VARY.to_vec();
    p.extend(of.to_le_bytes());
    p.extend((ranges.len() as u32).to_le_bytes());
    for r in ranges {
        for x in r {
            p.extend(x.to_le_bytes());
        }
    }
    p.extend(b);
    p
}

pub fn each_variant(p: &[u8], f: &mut dyn FnMut(u32, &[u8]) -> Result<(), String>) -> Result<(), String> {
    let n = |k: usize| u32::from_le_bytes(p[VARY.len() + 4 * k..][..4].try_into().unwrap());
    let (of, ranges) = (n(0), n(1));
    let mut b = p[VARY.len() + 8 + 20 * ranges as usize..].to_vec();
    for i in 0..of {
        let mut x = u64::from(i).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        for r in 0..ranges {
            let q = |k: u32| n((2 + 5 * r + k) as usize);
            let (from, len, step, low, many) = (q(0), q(1), q(2), q(3), q(4));
            for k in 0..len {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                if step == 0 || k % step != 0 {
                    b[(from + k) as usize] = (low + (x >> 32) as u32 % many) as u8;
                }
            }
        }
        f(i, &b)?;
    }
    Ok(())
}

/// The heap that many different inputs leave behind.
fn run_different(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let from = alloc::LIVE.load(Relaxed) as i64;
    let mut class = false;
    let mut held = 0;
    each_variant(p, &mut |i, b| {
        let before = alloc::LIVE.load(Relaxed) as i64;
        let r = basic::parse(b);
        class = r.is_ok();
        drop(r);
        held += alloc::LIVE.load(Relaxed) as i64 - before;
        if held > KEEP {
            return Err(format!("{} bytes of heap are still held after {} different inputs of {} bytes each", held, i + 1, b.len()));
        }
        Ok(())
    })?;
    let _ = from;
    st.outcome(if class { "different classes" } else { "different inputs, error" });
    Ok(())
}

fn run_memory(b: &[u8], st: &mut Stats) -> Result<(), String> {
    if b.starts_with(VARY) {
        return run_different(b, st);
    }
    let _ = Ref::run(&b[..b.len().min(1 << 20)], st);
    let m = alloc::mark();
    let r = basic::parse(b);
    let peak = alloc::peak_since(m);
    st.outcome(if r.is_ok() { "class" } else { "error" });
    drop(r);
    let kept = alloc::LIVE.load(Relaxed) as i64 - m as i64;
    let mut all = KEPT.fetch_add(kept, Relaxed) + kept;
    // what grows with each of many parses of the same input grows without end
    let mut again = 0;
    let mut last = kept;
    while last > 0 && again < 500 && all <= KEEP {
        let m = alloc::mark();
        drop(basic::parse(b));
        last = alloc::LIVE.load(Relaxed) as i64 - m as i64;
        all = KEPT.fetch_add(last, Relaxed) + last;
        again += 1;
    }
    if again == 500 {
        return Err(format!("each of {} parses leaves heap behind ({} bytes the last one)", again, last));
    }
    if all > KEEP {
        return Err(format!("{} bytes of heap are still held after the results of the parses so far were dropped ({} of the last one)", all, kept));
    }
    st.distinct(peak as u64);
    let bound = BASE + PER_BYTE * b.len();
    if peak > bound {
        return Err(format!("{} bytes of heap used while parsing {} bytes (bound {})", peak, b.len(), bound));
    }
    Ok(())
}

fn c02(s: &mut Sink) {
    let t = s.thorough;
    let mut tp = attrs::templates();
    tp.extend(cp::templates());
    nesting(s, if t { 300_000 } else { 30_000 });
    sweep_menu(s, &tp);
    s.phase("all counts at once");
    // every pair of bytes of every template set to the largest count: the lying prefix of any list
    for base in bases(if t { 8000 } else { 1500 }) {
        for k in 0..base.len().saturating_sub(1) {
            if !s.mine() {
                continue;
            }
            for v in [[0xFFu8, 0xFF], [0x7F, 0xFF], [0x80, 0x00], [0x20, 0x00]] {
                let mut b = base.clone();
                b[k] = v[0];
                b[k + 1] = v[1];
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("length and switch fields");
    let mut b = Vec::new();
    let m = [0u32, 1, 0xFF, 0xFFFF, 0x10_0000, 0x100_0000, 0x0FFF_FFFF, 0x3FFF_FFFF, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];
    for op in [0xAAu8, 0xAB] {
        for &low in &m {
            for &high in &m {
                if s.mine() {
                    for data in [0usize, 4, 64, 1024] {
                        let mut c = vec![0, 0, 0, op];
                        for v in [9, low, high] {
                            c.extend_from_slice(&v.to_be_bytes());
                        }
                        c.extend(std::iter::repeat(0).take(data));
                        for two in [false, true] {
                            let mut c = c.clone();
                            if two {
                                let d = c.clone();
                                c.extend(d);
                            }
                            code::class(&mut b, 0, &[&c]);
                            if !s.case(&b) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    // every list of a structure repeated many times, the last one lying
    s.phase("repeated structures");
    for k in 0..attrs::KINDS {
        for n in [1usize, 2, 10, 200, 5000, 60_000] {
            for lie in 0..10 {
                if !s.mine() {
                    continue;
                }
                let mut pos = 0;
                let b = at(Loc::Class, n + 1, &mut |c| {
                    for _ in 0..n {
                        attrs::any_attribute(c, k);
                    }
                    pos = c.body.b.len();
                    attrs::any_attribute(c, k);
                });
                let mut v = b.b;
                if v.len() > 15 << 20 {
                    continue;
                }
                if lie > 0 {
                    // position within the last attribute, counted from the end of the input
                    let tail = v.len().saturating_sub(14 + lie * 2);
                    v[tail] = 0xFF;
                    v[tail + 1] = 0xFF;
                }
                if !s.case(&v) {
                    return;
                }
            }
        }
    }
    // many lists, all of which are short: what each of them keeps in reserve adds up
    s.phase("many short lists");
    let sizes: Vec<usize> = (0..attrs::KINDS)
        .map(|k| {
            let mut c = Cls::new();
            attrs::any_attribute(&mut c, k);
            c.body.b.len() + 20
        })
        .collect();
    for k in 0..attrs::KINDS {
        for loc in [Loc::Field, Loc::Method, Loc::Code] {
            for each in [1usize, 2, 3, 5] {
                for n in [300, 65_535usize] {
                    if !s.mine() {
                        continue;
                    }
                    let n = if n < 1000 { n } else { (2_000_000 / each / sizes[k]).min(n) };
                    let mut c = Cls::new();
                    c.header(0);
                    if loc != Loc::Field {
                        c.u2(0);
                    }
                    c.u2(n as u16);
                    for _ in 0..n {
                        c.u2(1);
                        c.v2(2);
                        c.u2(if loc == Loc::Code { 1 } else { each as u16 });
                        let e = (loc == Loc::Code).then(|| c.begin("Code"));
                        if e.is_some() {
                            c.v2(2);
                            c.u4(1);
                            c.u1(0xB1);
                            c.u2(0);
                            c.u2(each as u16);
                        }
                        for _ in 0..each {
                            attrs::any_attribute(&mut c, k);
                        }
                        if let Some(e) = e {
                            c.end(e);
                        }
                    }
                    if loc == Loc::Field {
                        c.u2(0);
                    }
                    c.u2(0);
                    if !s.case(&c.finish().b) {
                        return;
                    }
                }
            }
        }
    }
    // every shape of every attribute many times, with large values in all of its fields: nothing is
    // kept in proportion to a value
    s.phase("many structures with large values");
    for f in attrs::variants() {
        for (place, v) in [(0usize, 0xFFFFu64), (1, 0xFFFF), (2, 0xFFFF), (1, 0x7FFF), (2, 0x2000)] {
            if !s.mine() {
                continue;
            }
            let size = {
                let mut c = Cls::new();
                f(&mut c);
                c.body.b.len() + if place == 0 { 0 } else if place == 1 { 8 } else { 34 }
            };
            let n = (if t { 3_000_000 } else { 700_000 } / size.max(1)).min(65_535);
            let mut c = Cls::new();
            c.header(0);
            c.u2(0);
            if place == 0 {
                c.u2(0);
            }
            c.u2(n as u16);
            for _ in 0..n {
                if place != 0 {
                    c.u2(1);
                    c.v2(2);
                    c.u2(1);
                }
                if place == 2 {
                    let e = c.begin("Code");
                    c.v2(2);
                    c.u4(1);
                    c.u1(0xB1);
                    c.u2(0);
                    c.u2(1);
                    f(&mut c);
                    c.end(e);
                } else {
                    f(&mut c);
                }
            }
            if place != 0 {
                c.u2(0);
            }
            let mut b = c.finish();
            let start = pool_end(&b.b).0 + 20;
            for x in plain(&b) {
                if x.0 > start {
                    put(&mut b.b, x, v);
                }
            }
            if !s.case(&b.b) {
                return;
            }
        }
    }
    // structures with several lists of their own, each of which may be short
    s.phase("many structures with several lists");
    for k in 0..64usize {
        let (p, q, r) = (k % 4, k / 4 % 4, k / 16);
        for n in [20usize, 1500, 20_000] {
            if !s.mine() {
                continue;
            }
            let run = |v: &mut Vec<u8>, n: usize, each: &[u8]| (0..n).for_each(|_| v.extend_from_slice(each));
            let counted = |v: &mut Vec<u8>, n: usize, each: &[u8]| {
                v.extend((n as u16).to_be_bytes());
                (0..n).for_each(|_| v.extend_from_slice(each));
            };
            // verification types with and without an index
            let vt: &[u8] = if r % 2 == 0 { &[1] } else { &[7, 0, 1] };
            let mut full = vec![0xFF, 0, r as u8];
            counted(&mut full, p, vt);
            counted(&mut full, q, vt);
            let mut mixed = full.clone();
            mixed.extend([251 + q.min(3) as u8, 0, 0]);
            run(&mut mixed, q.min(3), vt);
            mixed.extend([[63u8, 248, 251, 247][r], 0, 0, 1][..[1, 3, 3, 4][r]].iter());
            let mut kind = vec![0x40];
            counted(&mut kind, p, &[0, 1, 0, 2, 0, 3]);
            kind.push(q as u8);
            run(&mut kind, q, &[3, 1]);
            kind.extend([0, 7]);
            counted(&mut kind, r, &[0, 3, b'I', 0, 4]);
            let mut note = vec![0, 7];
            counted(&mut note, p, &[&[0u8, 3, b'[', 0, q as u8][..], &[b'I', 0, 1].repeat(q)].concat());
            let list = |name: &str, per: usize, one: &[u8]| {
                let mut v = ((n * per) as u16).to_be_bytes().to_vec();
                run(&mut v, n, one);
                attr(name, &v, v.len() as u32)
            };
            let mut codes: Vec<u8> = Vec::new();
            code::class(&mut codes, 0, &vec![&[0x57u8; 4][..1 + r]; n.min(5000)]);
            for b in [
                list("StackMapTable", 1, &full),
                list("StackMapTable", 3, &mixed),
                list("RuntimeVisibleTypeAnnotations", 1, &kind),
                list("RuntimeVisibleAnnotations", 1, &note),
                codes,
            ] {
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    // lists of lists within one attribute
    for inner in 0..4usize {
        for n in [300usize, 65_535] {
            if !s.mine() {
                continue;
            }
            let fill = |v: &mut Vec<u8>, one: &[u8]| (0..n).for_each(|_| v.extend_from_slice(one));
            let of = |head: &[u8], each: &[u8]| {
                let mut v = head.to_vec();
                v.extend_from_slice(&(inner as u16).to_be_bytes());
                (0..inner).for_each(|_| v.extend_from_slice(each));
                v
            };
            let list = |name: &str, one: &[u8]| {
                let mut v = (n as u16).to_be_bytes().to_vec();
                fill(&mut v, one);
                attr(name, &v, v.len() as u32)
            };
            let pair = [0, 3, b'I', 0, 4];
            let mut param = vec![255];
            (0..255).for_each(|_| param.extend(of(&[], &[0, 7, 0, 0])));
            let mut array = vec![b'['];
            array.extend((n as u16).to_be_bytes());
            fill(&mut array, &of(b"[", b"[\0\0"));
            let mut strings = vec![b'['];
            strings.extend((n as u16).to_be_bytes());
            fill(&mut strings, &of(b"@\0\x02", &[0, 3, b's', 0, 1]));
            let mut target = of(&[0x40], &[0, 1, 0, 2, 0, 3]);
            target.extend([inner as u8]);
            (0..inner).for_each(|_| target.extend([3, 1]));
            target.extend([0, 7, 0, 0]);
            let mut full = of(&[0xFF, 0, 0], &[7, 0, 1]);
            full.extend(of(&[], &[8, 0, 1]));
            let mut append = vec![251 + inner as u8, 0, 0];
            (0..inner).for_each(|_| append.extend([7, 0, 1]));
            let mut exports = vec![0; 8];
            exports.extend((n as u16).to_be_bytes());
            fill(&mut exports, &of(&[0, 1, 0, 2], &[0, 3]));
            exports.extend([0; 6]);
            let mut provides = vec![0; 14];
            provides.extend((n as u16).to_be_bytes());
            fill(&mut provides, &of(&[0, 1], &[0, 3]));
            for b in [
                list("BootstrapMethods", &of(&[0, 1], &[0, 2])),
                list("RuntimeVisibleAnnotations", &of(&[0, 1], &pair)),
                list("RuntimeInvisibleTypeAnnotations", &target),
                list("RuntimeInvisibleTypeAnnotations", &of(&[0x13, 0, 0, 1], &pair)),
                list("StackMapTable", &full),
                list("StackMapTable", &append),
                attr("RuntimeInvisibleParameterAnnotations", &param, param.len() as u32),
                attr("AnnotationDefault", &array, array.len() as u32),
                attr("AnnotationDefault", &strings, strings.len() as u32),
                attr("Module", &exports, exports.len() as u32),
                attr("Module", &provides, provides.len() as u32),
            ] {
                if !s.case(&b) {
                    return;
                }
            }
            // switches, within one code array and in one code array each
            for op in [0xAAu8, 0xAB] {
                let one = |at: usize| {
                    let mut v = vec![op];
                    v.resize(1 + (3 - at % 4), 0);
                    v.extend([0, 0, 0, 0]);
                    if op == 0xAA {
                        v.extend(0u32.to_be_bytes());
                        v.extend((inner as u32).wrapping_sub(1).to_be_bytes());
                    } else {
                        v.extend((inner as u32).to_be_bytes());
                    }
                    (0..inner).for_each(|k| v.extend(&[0, 0, 0, k as u8, 0, 0, 0, 1][if op == 0xAA { 4 } else { 0 }..]));
                    v
                };
                let mut all = Vec::new();
                for _ in 0..n {
                    let v = one(all.len());
                    all.extend(v);
                }
                let mut b = Vec::new();
                code::class(&mut b, 0, &[&all]);
                if !s.case(&b) {
                    return;
                }
                let v = one(0);
                let several: Vec<&[u8]> = (0..n).map(|_| &v[..]).collect();
                code::class(&mut b, 0, &several);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    heavy(s);
    s.phase("nested lists that all lie");
    for outer in [1u16, 2, 255, 4096, 65535] {
        for inner in [0u16, 1, 255, 4096, 65535] {
            for real in [1usize, 2, 3, 100, 3000] {
                if !s.mine() {
                    continue;
                }
                let list = |name: &str, n: usize, each: &mut dyn FnMut(usize, &mut Vec<u8>)| {
                    let mut v = Vec::new();
                    if n == 1 {
                        v.push(outer as u8);
                    } else {
                        v.extend_from_slice(&outer.to_be_bytes());
                    }
                    for k in 0..real {
                        each(k, &mut v);
                    }
                    attr(name, &v, v.len() as u32)
                };
                let last = |k: usize| if k + 1 == real { inner } else { 0 }.to_be_bytes();
                let all = |v: &mut Vec<u8>, k: usize, head: &[u8]| {
                    v.extend_from_slice(head);
                    v.extend_from_slice(&last(k));
                };
                let cases = [
                    list("BootstrapMethods", 2, &mut |k, v| all(v, k, &[0, 1])),
                    list("RuntimeVisibleAnnotations", 2, &mut |k, v| all(v, k, &[0, 1])),
                    list("RuntimeVisibleParameterAnnotations", 1, &mut |k, v| all(v, k, &[])),
                    list("RuntimeInvisibleTypeAnnotations", 2, &mut |k, v| all(v, k, &[0x13, 0, 0, 1])),
                    list("RuntimeInvisibleTypeAnnotations", 2, &mut |k, v| {
                        v.push(0x40);
                        v.extend_from_slice(&last(k));
                        if k + 1 < real {
                            v.extend_from_slice(&[0, 0, 1, 0, 0]);
                        }
                    }),
                    list("StackMapTable", 2, &mut |k, v| {
                        v.extend_from_slice(&[0xFF, 0, 0]);
                        v.extend_from_slice(&last(k));
                        if k + 1 < real {
                            v.extend_from_slice(&[0, 0]);
                        }
                    }),
                    list("StackMapTable", 2, &mut |k, v| all(v, k, &[0xFF, 0, 0, 0, 0])),
                    // one frame with many locals and a stack count that lies
                    {
                        let mut v = vec![0, 1, 0xFF, 0, 0];
                        let n = real * 21;
                        v.extend_from_slice(&(n as u16).to_be_bytes());
                        v.extend(std::iter::repeat(1).take(n));
                        v.extend_from_slice(&inner.to_be_bytes());
                        attr("StackMapTable", &v, v.len() as u32)
                    },
                    // a method handle with many arguments, followed by one that lies
                    {
                        let mut v = vec![0, 2, 0, 7];
                        let n = real * 21;
                        v.extend_from_slice(&(n as u16).to_be_bytes());
                        v.extend(std::iter::repeat(1).take(n * 2));
                        v.extend_from_slice(&[0, 7]);
                        v.extend_from_slice(&inner.to_be_bytes());
                        attr("BootstrapMethods", &v, v.len() as u32)
                    },
                ];
                for b in &cases {
                    if !s.case(b) {
                        return;
                    }
                }
                // the module tables
                for which in 0..5 {
                    let mut v = vec![0; 6];
                    for k in 0..5 {
                        if k == which {
                            v.extend_from_slice(&outer.to_be_bytes());
                            for j in 0..real {
                                match which {
                                    0 => v.extend_from_slice(&[0; 6]),
                                    3 => v.extend_from_slice(&[0; 2]),
                                    4 => {
                                        v.extend_from_slice(&[0; 2]);
                                        v.extend_from_slice(&last(j));
                                    }
                                    _ => {
                                        v.extend_from_slice(&[0; 4]);
                                        v.extend_from_slice(&last(j));
                                    }
                                }
                            }
                        } else {
                            v.extend_from_slice(&[0, 0]);
                        }
                    }
                    if !s.case(&attr("Module", &v, v.len() as u32)) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("members and code attributes that lie");
    let names: Vec<String> = attrs::all_names().iter().map(|x| (*x).to_owned()).chain(attrs::foreign_names()).collect();
    for name in &names {
        for n in [2usize, 4, 8, 12, 16] {
            if !s.mine() {
                continue;
            }
            for pat in [[0xFFu8, 0xFF], [0, 0xFF], [0x7F, 0xFF], [0, 1], [0xFF, 0]] {
                let c: Vec<u8> = (0..n).map(|k| pat[k % 2]).collect();
                for len in [n as u32, 0xFFFF, 0x7FFF_FFFF, 0xFFFF_FFFF] {
                    if !s.case(&attr(name, &c, len)) {
                        return;
                    }
                }
            }
        }
    }
    if t {
        pairs(s, &tp);
    } else {
        pairs(s, &tp.iter().enumerate().filter(|x| x.0 % 7 == 0).map(|x| x.1.clone()).collect::<Vec<_>>());
    }
    big(s);
}

/// Classes with long contents, and the ranges in them that may hold anything.
pub fn varied() -> Vec<(Vec<u8>, Vec<[u32; 5]>)> {
    let mut v = Vec::new();
    const LETTERS: (u32, u32) = (b'a' as u32, 26);
    // a long text as the name of an attribute, without and with content, and content with other bytes
    for loc in LOCS {
        for (name, content) in [(60_000usize, 0usize), (60_000, 3), (9, 60_000), (30_000, 30_000)] {
            let text: String = "#".repeat(name);
            let mut b = at(loc, 1, &mut |c| {
                let e = c.begin(&text);
                c.body.raw(&vec![b'#'; content]);
                c.end(e);
            })
            .b;
            let mut ranges = Vec::new();
            let mut k = 0;
            while k < b.len() {
                let n = b[k..].iter().take_while(|x| **x == b'#').count();
                if n >= 3 {
                    let (low, many) = if ranges.is_empty() { LETTERS } else { (0, 256) };
                    ranges.push([k as u32, n as u32, 0, low, many]);
                }
                k += n.max(1);
            }
            v.push((b.clone(), ranges.clone()));
            // the same, and the class is cut short
            let n = b.len() - 1;
            b.truncate(n);
            v.push((b, ranges));
        }
    }
    // texts of different lengths, used as all kinds of names
    for (n, of) in [(60_000usize, 1usize), (500, 100), (20, 2000), (3, 5000)] {
        for this in [false, true] {
            let mut b = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 3, 0, 53];
            b.extend((2 * of as u16 + 1).to_be_bytes());
            let mut ranges = Vec::new();
            for k in 0..of as u16 {
                b.push(1);
                b.extend((n as u16).to_be_bytes());
                ranges.push([b.len() as u32, n as u32, 0, LETTERS.0, LETTERS.1]);
                b.extend(vec![b'#'; n]);
                b.push(if this { 7 } else { 8 });
                b.extend((2 * k + 1).to_be_bytes());
            }
            b.extend([0, 0x21, 0, 2, 0, 2, 0, 0, 0, 1, 0, 1, 0, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 0, 1, 0, 0, 0, 0]);
            v.push((b, ranges));
        }
    }
    // texts that end in a character that is not valid
    let mut b = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 3, 0, 53, 0, 2, 1, 0xEA, 0x60];
    let from = b.len() as u32;
    b.extend(vec![b'#'; 59_999]);
    b.push(0xFF);
    v.push((b, vec![[from, 59_999, 0, LETTERS.0, LETTERS.1]]));
    // many constants of every kind
    for c in cp::one_of_each().into_iter().skip(1) {
        let mut b = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 3, 0, 53];
        let n = 8000u16;
        b.extend((if c[0] == 5 || c[0] == 6 { 2 * n } else { n } + 1).to_be_bytes());
        let from = b.len() as u32;
        for _ in 0..n {
            b.extend(&c);
        }
        let ranges = if c[0] == 15 {
            (0..u32::from(n)).map(|k| [from + 4 * k + 2, 2, 0, 0, 256]).collect()
        } else {
            vec![[from, b.len() as u32 - from, c.len() as u32, 0, 256]]
        };
        b.extend([0, 0x21, 0, 2, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0]);
        v.push((b, ranges));
    }
    // long lists of every kind of attribute, any values
    for k in 0..attrs::KINDS {
        let t = at(LOCS[k % 4], 300, &mut |c| (0..300).for_each(|_| attrs::any_attribute(c, k)));
        let ranges = t.v.iter().map(|x| [*x as u32, 2, 0, 0, 256]).collect();
        v.push((t.b, ranges));
        let t = at(LOCS[(k + 1) % 4], 1, &mut |c| attrs::long_attribute(c, k, 3000));
        let ranges = t.v.iter().map(|x| [*x as u32, 2, 0, 0, 256]).collect();
        v.push((t.b, ranges));
    }
    // code of constants, of switches, of calls, and members
    for op in [0x11u8, 0x12, 0xC8, 0x84, 0xB6, 0xC5] {
        let mut one = Vec::new();
        code::insn(&mut one, op, 1);
        let body: Vec<u8> = (0..6000).flat_map(|_| one.clone()).collect();
        let mut b = Vec::new();
        code::class(&mut b, 0, &[&body]);
        let from = b.windows(body.len()).position(|w| w == &body[..]).expect("harness: code") as u32;
        v.push((b, vec![[from, body.len() as u32, one.len() as u32, 0, 256]]));
    }
    let mut c = Cls::new();
    c.header(3000);
    for _ in 0..2 {
        c.u2(3000);
        for _ in 0..3000 {
            c.v2(3);
            c.u2(0);
        }
    }
    c.u2(0);
    let t = c.finish();
    let ranges = t.v.iter().map(|x| [*x as u32, 2, 0, 0, 256]).collect();
    v.push((t.b, ranges));
    v
}

/// Structures with much below them, several of them, and then a defect: what was built is let go.
fn heavy(s: &mut Sink) {
    s.phase("many different inputs in one process");
    for (b, ranges) in varied() {
        if s.mine() && !s.case(&vary(if s.thorough { 3000 } else { 150 }, &ranges, &b)) {
            return;
        }
    }
    s.phase("large structures, then a defect");
    let small: [&[u8]; 3] = [b"I\0\x01", b"e\0\x01\0\x02", b"@\0\x01\0\x01\0\x02s\0\x03"];
    for (k, one) in small.iter().enumerate() {
        for n in [0usize, 1, 1000] {
            let mut arr = vec![b'['];
            arr.extend((n as u16).to_be_bytes());
            (0..n).for_each(|_| arr.extend_from_slice(one));
            let mut pairs = ((n + 1) as u16).to_be_bytes().to_vec();
            for _ in 0..n {
                pairs.extend([0, 9]);
                pairs.extend_from_slice(one);
            }
            pairs.extend([0, 9]);
            pairs.extend_from_slice(&arr);
            let cat = |a: &[u8], b: &[u8]| [a, b].concat();
            let ann = cat(&[0, 5], &pairs);
            // one element of a list, and what goes before the first
            let units: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![
                ("AnnotationDefault", b"[\0\x05".to_vec(), arr.clone()),
                ("AnnotationDefault", b"[\0\x05".to_vec(), cat(b"@", &ann)),
                ("AnnotationDefault", b"@\0\x01\0\x05".to_vec(), cat(b"\0\x07", &arr)),
                ("AnnotationDefault", b"[\0\x01[\0\x05".to_vec(), cat(b"@", &ann)),
                ("RuntimeVisibleAnnotations", b"\0\x05".to_vec(), ann.clone()),
                ("RuntimeInvisibleAnnotations", b"\0\x01\0\x02\0\x05".to_vec(), cat(b"\0\x07", &arr)),
                ("RuntimeVisibleParameterAnnotations", b"\x05".to_vec(), cat(b"\0\x01", &ann)),
                ("RuntimeInvisibleParameterAnnotations", b"\x01\0\x05".to_vec(), ann.clone()),
                ("RuntimeVisibleTypeAnnotations", b"\0\x05".to_vec(), cat(b"\x13\x01\x03\x01", &ann)),
                ("RuntimeInvisibleTypeAnnotations", b"\0\x05".to_vec(), [&b"\x40\0\x02\0\x01\0\x02\0\x03\0\x01\0\x02\0\x03\0"[..], &ann].concat()),
            ];
            for (name, head, unit) in units {
                for count in 0..4usize {
                    if !s.mine() || k > 0 && n == 0 {
                        continue;
                    }
                    let mut v = head.clone();
                    (0..count).for_each(|_| v.extend_from_slice(&unit));
                    // a defect at each of the first bytes of the next one, the list cut there, and inside
                    for at in (0..unit.len().min(24)).chain([unit.len() / 2, unit.len() - 3, unit.len() - 1]) {
                        let mut cases = vec![(cat(&v, &unit[..at]), 0), (cat(&v, &unit[..at]), 9)];
                        for bad in [0xFFu8, 0x3F] {
                            let mut w = cat(&v, &unit);
                            let from = v.len() + at;
                            w[from] = bad;
                            cases.push((w, 0));
                        }
                        for (w, more) in cases {
                            if !s.case(&attr(name, &w, (w.len() + more) as u32)) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    // attributes, members and code before one that is not valid
    for k in 0..attrs::KINDS {
        for n in [1usize, 3, 300] {
            for loc in LOCS {
                if !s.mine() {
                    continue;
                }
                let b = at(loc, n, &mut |c| (0..n).for_each(|_| attrs::any_attribute(c, k))).b;
                let body = b.len() - (b.len() / 2).min(60 * n);
                for j in 0..16 {
                    let cut = body + (b.len() - body) * j / 16;
                    if !s.case(&b[..cut]) {
                        return;
                    }
                    let mut w = b.clone();
                    w[cut] = 0xFF;
                    if cut + 1 < w.len() {
                        w[cut + 1] = 0xFF;
                    }
                    if !s.case(&w) {
                        return;
                    }
                }
            }
        }
    }
}

pub const DRIVERS: &[Driver] = &[
    Driver { id: "C01", run: run_walk, explore: c01 },
    Driver { id: "C02", run: run_memory, explore: c02 },
];
