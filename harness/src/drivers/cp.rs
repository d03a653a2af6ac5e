//! C03, C04, C05: the constant pool as it is parsed.
use super::Driver;
use crate::build::*;
use crate::conform::{conform, Errors, Mode, EXACT, POOL};
use crate::phases::*;
use crate::sink::Sink;
use crate::stats::Stats;

fn run_pool(b: &[u8], st: &mut Stats) -> Result<(), String> {
    conform(b, POOL, st)
}

fn run_pool_only(b: &[u8], st: &mut Stats) -> Result<(), String> {
    conform(b, Mode { pool: true, class: false, error: Errors::No }, st)
}

/// Appends the `k`-th constant of the alphabet.
pub fn entry(c: &mut Cls, k: usize) {
    let p = &mut c.pool;
    let mut n = 1;
    match k {
        0 => {
            p.u1(3);
            p.u4(1);
        }
        1 => {
            p.u1(5);
            p.u8_(1);
            n = 2;
        }
        2 => {
            p.u1(1);
            p.u2(1);
            p.raw(b"a");
        }
        3 => {
            p.u1(6);
            p.u8_(0x3FF0_0000_0000_0000);
            n = 2;
        }
        4 => {
            p.u1(7);
            p.u2(1);
        }
        5 => {
            p.u1(1);
            p.u2(0);
        }
        6 => {
            p.u1(5);
            p.u8_(2);
            n = 2;
        }
        7 => {
            p.u1(4);
            p.u4(1);
        }
        8 => {
            p.u1(8);
            p.u2(1);
        }
        9 => {
            p.u1(12);
            p.u2(1);
            p.u2(2);
        }
        10 => {
            p.u1(15);
            p.u1(6);
            p.u2(3);
        }
        11 => {
            p.u1(10);
            p.u2(1);
            p.u2(2);
        }
        12 => {
            p.u1(9);
            p.u2(1);
            p.u2(2);
        }
        13 => {
            p.u1(11);
            p.u2(1);
            p.u2(2);
        }
        14 => {
            p.u1(16);
            p.u2(1);
        }
        15 => {
            p.u1(18);
            p.u2(1);
            p.u2(2);
        }
        16 => {
            p.u1(19);
            p.u2(1);
        }
        17 => {
            p.u1(20);
            p.u2(1);
        }
        18 => {
            p.u1(3);
            p.u4(2);
        }
        _ => {
            p.u1(1);
            p.u2(1);
            p.raw(b"b");
        }
    }
    c.next += n;
}
pub const ENTRIES: usize = 20;

/// A class with these constants, followed by the names of two attributes that are then used.
pub fn pool_class(ks: &[usize]) -> Cls {
    let mut c = Cls::new();
    for &k in ks {
        entry(&mut c, k);
    }
    c.header(0);
    c.u2(0);
    c.u2(0);
    c.u2(2);
    let e = c.begin("Deprecated");
    c.end(e);
    let e = c.begin("SourceFile");
    c.v2(1);
    c.end(e);
    c
}

fn sequences(s: &mut Sink, alphabet: usize, len: u32) {
    for k in 0..alphabet.pow(len) {
        if !s.mine() {
            continue;
        }
        let mut r = k;
        let ks: Vec<usize> = (0..len)
            .map(|_| {
                let x = r % alphabet;
                r /= alphabet;
                x
            })
            .collect();
        if !s.case(&pool_class(&ks).finish().b) {
            return;
        }
    }
}

/// Method handles of all kinds follow the entries in the alphabet of histories; and some texts.
const LETTERS: usize = ENTRIES + 8 + 5;
fn letter(c: &mut Cls, k: usize) {
    const HANDLES: [u8; 8] = [1, 2, 3, 4, 5, 7, 8, 9];
    if k < ENTRIES {
        entry(c, k);
    } else if k < ENTRIES + 8 {
        c.pool.u1(15);
        c.pool.u1(HANDLES[k - ENTRIES]);
        c.pool.u2(2);
        c.next += 1;
    } else {
        c.raw_utf8(["\0", "\u{e9}", "\u{20ac}", "\u{1F600}", "Code"][k - ENTRIES - 8]);
    }
}

/// Pools in which every short sequence of constants occurs, after ever more of the others.
fn pool_histories(s: &mut Sink) {
    s.phase("constants after every short sequence of constants");
    let mut cases: Vec<(Vec<usize>, Vec<usize>)> = Vec::new();
    let all: Vec<usize> = (0..LETTERS).collect();
    let of = |letters: Vec<usize>, most: usize| (histories_within(letters.len(), most), letters);
    cases.push(of(all.clone(), 40_000));
    cases.push(of(all.iter().rev().cloned().collect(), 40_000));
    cases.push(of(all.clone(), 2000));
    for from in 0..LETTERS {
        // seven letters each, in groups that overlap
        cases.push(of((0..7).map(|j| (from + j * j) % LETTERS).collect(), if s.thorough { 40_000 } else { 2500 }));
        for to in 0..LETTERS {
            if to != from {
                cases.push(of(vec![from, to], if s.thorough { 1030 } else { 140 }));
                if s.thorough || (to + from) % 4 == 0 {
                    cases.push(of(vec![from, to, (to * 5 + from) % LETTERS], 250));
                }
            }
        }
    }
    for (order, letters) in cases {
        if !s.mine() {
            continue;
        }
        let mut c = Cls::new();
        for k in order {
            if c.next > 65_500 {
                break;
            }
            letter(&mut c, letters[k]);
        }
        c.header(0);
        c.u2(0);
        c.u2(0);
        c.u2(1);
        sentinel(&mut c);
        if !s.case(&c.finish_plain()) {
            return;
        }
    }
}

fn c03(s: &mut Sink) {
    let t = s.thorough;
    pool_histories(s);
    graphs(s);
    graphs_by_version(s);
    references(s, 0, &[pool_class(&[2, 4, 1]).finish_plain(), pool_class(&[]).finish_plain()], true);
    s.phase("texts that are there twice");
    let mut words: Vec<&str> = super::pool::KNOWN.to_vec();
    words.extend(super::attrs::all_names());
    words.extend(MEMBERS);
    for (j, w) in words.iter().enumerate() {
        for (i, x) in words.iter().enumerate() {
            // 1 and 2: the text and another; 0: a number; 3: a wide one; 4, 5: a class, a string
            for order in [&[1u8, 1][..], &[1, 2, 1], &[2, 1, 1], &[1, 0, 1], &[1, 3, 1], &[1, 1, 1], &[4, 1, 5, 1], &[1, 5, 4, 1], &[1, 4, 5]] {
                if !s.mine() || i != j && !t && ((i + j) % 13 != 0 || !order.contains(&2)) {
                    continue;
                }
                let mut c = Cls::new();
                for k in order {
                    match *k {
                        1 | 2 => {
                            c.raw_utf8([w, x][usize::from(*k) - 1]);
                        }
                        4 | 5 => {
                            c.pool.u1(k + 3);
                            c.pool.u2(2);
                            c.next += 1;
                        }
                        k => entry(&mut c, [0, 0, 0, 1][usize::from(k)]),
                    }
                }
                let last = c.next as u16 - 1;
                c.header(0);
                c.u2(0);
                c.u2(0);
                let mut plain = c.clone();
                plain.u2(0);
                if !s.case(&plain.finish().b) {
                    return;
                }
                c.u2(3);
                sentinel(&mut c);
                let e = c.begin_at(last);
                c.end(e);
                sentinel(&mut c);
                if !s.case(&c.finish().b) {
                    return;
                }
            }
        }
    }
    s.phase("constants that are there twice, later");
    for n in [0usize, 1, 7, 15, 31, 63, 127, 255, 256, 257, 300, 1023, 1100, 4096] {
        for a in 0..ENTRIES {
            if !s.mine() || n > 300 && !t && a % 3 != n % 3 {
                continue;
            }
            for b in 0..ENTRIES {
                for order in [&[0u8, 2, 1, 0][..], &[0, 1, 2, 0], &[2, 0, 0, 1], &[2, 0, 1, 0], &[2, 0, 1, 1, 0, 0]] {
                    let mut c = Cls::new();
                    for k in order {
                        match *k {
                            0 => entry(&mut c, a),
                            1 => entry(&mut c, b),
                            _ => {
                                for j in 0..n {
                                    // different ones, some of them wide
                                    if j % 5 == 4 {
                                        c.pool.u1(6);
                                        c.pool.u8_(j as u64 + 1);
                                        c.next += 2;
                                    } else {
                                        c.pool.u1([3, 7, 12, 9][j % 4]);
                                        c.pool.u2(j as u16 + 9);
                                        if j % 4 != 1 {
                                            c.pool.u2(7);
                                        }
                                        c.next += 1;
                                    }
                                }
                            }
                        }
                    }
                    c.raw_utf8("end");
                    c.header(0);
                    c.u2(0);
                    c.u2(0);
                    c.u2(1);
                    sentinel(&mut c);
                    if !s.case(&c.finish_plain()) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("sequences of constants");
    for len in 0..=if t { 4 } else { 3 } {
        sequences(s, ENTRIES, len);
    }
    s.phase("longer sequences, smaller alphabet");
    for len in 4..=if t { 7 } else { 5 } {
        sequences(s, if t && len > 6 { 6 } else { 7 }, len);
    }
    s.phase("declared count differs");
    for len in 0..=3u32 {
        for k in 0..10usize.pow(len) {
            if !s.mine() {
                continue;
            }
            let ks: Vec<usize> = (0..len).map(|j| k / 10usize.pow(j) % 10).collect();
            let c = pool_class(&ks);
            for d in 0..c.next as u16 + 3 {
                if !s.case(&c.clone().finish_count(d).b) {
                    return;
                }
            }
        }
    }
    s.phase("names found by index after other constants");
    // the attribute name is one of several constants, all other names are wrong ones
    let names = ["Deprecated", "Synthetic", "SourceFile", "Signature"];
    for k in 0..6usize.pow(4) {
        if !s.mine() {
            continue;
        }
        for pick in 1..=9u16 {
            let mut c = Cls::new();
            for j in 0..4 {
                match k / 6usize.pow(j) % 6 {
                    0 => entry(&mut c, 1),
                    1 => entry(&mut c, 0),
                    n => {
                        c.raw_utf8(names[n - 2]);
                    }
                }
            }
            c.header(0);
            c.u2(0);
            c.u2(0);
            c.u2(1);
            let e = c.begin_at(pick);
            c.end(e);
            if !s.case(&c.finish().b) {
                return;
            }
            // and with a two-byte content
            if pick % 3 == 0 {
                let mut c = Cls::new();
                for j in 0..4 {
                    match k / 6usize.pow(j) % 6 {
                        0 => entry(&mut c, 3),
                        1 => entry(&mut c, 4),
                        n => {
                            c.raw_utf8(names[n - 2]);
                        }
                    }
                }
                c.header(0);
                c.u2(0);
                c.u2(0);
                c.u2(1);
                let e = c.begin_at(pick);
                c.v2(1);
                c.end(e);
                if !s.case(&c.finish().b) {
                    return;
                }
            }
        }
    }
    s.phase("pumped pools");
    let sizes: Vec<usize> = SIZES.iter().cloned().chain(65520..65535).collect();
    for a in 0..if t { ENTRIES } else { 8 } {
        for x in [a, (a + 1) % ENTRIES, 1, 0] {
            for &n in &sizes {
                if !t && n > 1100 && n < 60000 {
                    continue;
                }
                if !s.mine() {
                    continue;
                }
                // alternate a and x until the pool has n indices in use, then fill with ints
                let mut c = Cls::new();
                let mut k = 0;
                while (c.next as usize) + 1 < n {
                    entry(&mut c, if k % 2 == 0 { a } else { x });
                    k += 1;
                }
                if (c.next as usize) < n {
                    entry(&mut c, 0);
                }
                c.header(0);
                c.u2(0);
                c.u2(0);
                c.u2(0);
                if !s.case(&c.finish().b) {
                    return;
                }
            }
        }
    }
    s.phase("many different constants");
    for kind in [3u8, 4, 7, 9, 12, 5, 6, 1] {
        for &n in &sizes {
            if !s.mine() {
                continue;
            }
            let mut c = Cls::new();
            let mut k = 0u32;
            let w = if kind == 5 || kind == 6 { 2 } else { 1 };
            while (c.next + w) as usize <= n {
                c.pool.u1(kind);
                match kind {
                    3 | 4 => c.pool.u4(k.wrapping_mul(0x9E37_79B9)),
                    7 => c.pool.u2(k as u16),
                    9 | 12 => c.pool.u4(k << 15 | k),
                    1 => {
                        c.pool.u2(3);
                        c.pool.raw(&[b'0' + (k % 61) as u8, b'0' + (k / 61 % 61) as u8, b'0' + (k / 3721) as u8]);
                    }
                    _ => c.pool.u8_(u64::from(k) << 31),
                }
                c.next += w;
                k += 1;
            }
            c.header(0);
            c.u2(0);
            c.u2(0);
            c.u2(0);
            if !s.case(&c.finish().b) {
                return;
            }
        }
    }
}

pub fn templates() -> Vec<Built> {
    let mut v: Vec<Built> = (0..18).map(|k| pool_class(&[18, k, 7]).finish()).collect();
    v.push(pool_class(&[0, 1, 2, 3, 4, 5]).finish());
    v.push(pool_class(&[7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]).finish());
    v
}

fn c04(s: &mut Sink) {
    let t = s.thorough;
    let tp = templates();
    sweep(s, &tp[..18]);
    sweep_menu(s, &tp[18..]);
    pairs(s, if t { &tp } else { &tp[..18] });
    if t {
        triples(s, &tp[..18]);
    }
    pool_histories(s);
    graphs(s);
    graphs_by_version(s);
    versions(s, 0, &tp.iter().map(|b| b.b.clone()).collect::<Vec<_>>());
    s.phase("64-bit constants by halves");
    let mut halves: Vec<u64> = wide_menu(4).into_iter().filter(|v| t || v.count_ones() < 4 || v.count_zeros() < 36 || v % 0x55 == 0).collect();
    halves.extend([0x8000_0001, 0x7FF0_0000, 0x7FF8_0000, 0x7FF0_0001, 0xFFF0_0000, 0xFFF8_0000, 0x3FF0_0000, 0xBFF0_0000, 0x7FEF_FFFF, 0x000F_FFFF, 0x0010_0000, 0xCAFE_BABE]);
    halves.sort_unstable();
    halves.dedup();
    for &hi in &halves {
        if !s.mine() {
            continue;
        }
        for &lo in &halves {
            let mut c = Cls::new();
            for tag in [5, 6] {
                c.pool.u1(tag);
                c.pool.u8_(hi << 32 | lo);
                c.next += 2;
            }
            for _ in 0..4 {
                c.u2(0);
            }
            c.u4(0);
            c.u2(0);
            if !s.case(&c.finish().b) {
                return;
            }
        }
    }
    s.phase("every tag at every position");
    for pos in 0..3usize {
        for tag in 0..=255u8 {
            for fill in [0u8, 1, 2, 9] {
                if !s.mine() {
                    continue;
                }
                for n in 0..=12usize {
                    let mut c = Cls::new();
                    for k in 0..3 {
                        if k == pos {
                            c.pool.u1(tag);
                            c.pool.raw(&vec![fill; n]);
                            c.next += 1 + (tag == 5 || tag == 6) as u32;
                        } else {
                            entry(&mut c, 0);
                        }
                    }
                    c.header(0);
                    c.u2(0);
                    c.u2(0);
                    c.u2(0);
                    if !s.case(&c.finish().b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("method handles: kind x index");
    for kind in 0..=255u8 {
        if !s.mine() {
            continue;
        }
        let idx: Vec<u16> = if t || (1..=9).contains(&kind) { (0..=65535).collect() } else { MENU16.to_vec() };
        let mut c = Cls::new();
        c.pool.u1(15);
        c.pool.u1(kind);
        c.pool.u2(0);
        c.next += 1;
        c.header(0);
        c.u2(0);
        c.u2(0);
        c.u2(0);
        let mut b = c.finish().b;
        for i in idx {
            b[12..14].copy_from_slice(&i.to_be_bytes());
            if !s.case(&b) {
                return;
            }
        }
    }
    s.phase("floats that are not a number, or are next to zero");
    // all of them; all floats there are in the thorough run
    for exp in 0..512u32 {
        if !t && exp & 0xFF != 0 && exp & 0xFF != 0xFF {
            continue;
        }
        for part in 0..256u32 {
            if !s.mine() {
                continue;
            }
            let mut b = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 3, 0, 53, 0x80, 1];
            for m in 0..0x8000u32 {
                b.push(4);
                b.extend((exp << 23 | part << 15 | m).to_be_bytes());
            }
            b.extend([0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0]);
            if !s.case(&b) {
                return;
            }
        }
    }
    s.phase("floating point patterns");
    for k in 0..4096u64 {
        if !s.mine() {
            continue;
        }
        for m in [0u64, 1, 2, 3 << 20, (1 << 22) - 1, 1 << 22, (1 << 23) - 1, 1 << 51, 0xF_FFFF_FFFF_FFFF, 1 << 50, 0x5_5555_5555_5555] {
            let mut c = Cls::new();
            c.pool.u1(6);
            c.pool.u8_(k << 52 | m & 0xF_FFFF_FFFF_FFFF);
            c.pool.u1(4);
            c.pool.u4(((k & 511) << 23 | m & 0x7F_FFFF) as u32);
            c.pool.u1(5);
            c.pool.u8_(m << 12 | k);
            c.next += 5;
            c.header(0);
            c.u2(0);
            c.u2(0);
            c.u2(0);
            if !s.case(&c.finish().b) {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C05

/// Payload: where (0 constant, 1 source debug extension), then the string bytes.
fn run_utf8(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let mut b = Vec::with_capacity(p.len() + 80);
    let (mode, t) = (p[0], &p[1..]);
    if mode == 0 {
        b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 53, 0, 3, 1]);
        b.extend_from_slice(&(t.len() as u16).to_be_bytes());
        b.extend_from_slice(t);
        b.extend_from_slice(&[3, 0x11, 0x22, 0x33, 0x44]);
        b.extend_from_slice(&[0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0]);
    } else {
        b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 53, 0, 3, 1, 0, 20]);
        b.extend_from_slice(b"SourceDebugExtension");
        b.extend_from_slice(&[1, 0, 10]);
        b.extend_from_slice(b"Deprecated");
        b.extend_from_slice(&[0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 2, 0, 1]);
        b.extend_from_slice(&(t.len() as u32).to_be_bytes());
        b.extend_from_slice(t);
        b.extend_from_slice(&[0, 2, 0, 0, 0, 0]);
    }
    conform(&b, EXACT, st)
}

fn unit(out: &mut Vec<u8>, u: u16) {
    match u {
        0x01..=0x7F => out.push(u as u8),
        0 | 0x80..=0x7FF => out.extend_from_slice(&[0xC0 | (u >> 6) as u8, 0x80 | (u & 0x3F) as u8]),
        _ => out.extend_from_slice(&[0xE0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3F) as u8, 0x80 | (u & 0x3F) as u8]),
    }
}

fn c05(s: &mut Sink) {
    let t = s.thorough;
    const REPS: [u8; 18] = [
        0x00, 0x01, 0x41, 0x7F, 0x80, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0,
    ];
    let all: Vec<u8> = (0..=255).collect();
    for mode in 0..2u8 {
        s.phase(["byte strings (constant)", "byte strings (debug extension)"][mode as usize]);
        s.case(&[mode]);
        for a in 0..=255u8 {
            if !s.mine() {
                continue;
            }
            s.case(&[mode, a]);
            for x in 0..=255u8 {
                s.case(&[mode, a, x]);
                for &y in if mode == 0 && t { &all[..] } else { &REPS[..] } {
                    if !s.case(&[mode, a, x, y]) {
                        return;
                    }
                }
            }
        }
    }
    // all three-byte forms: lead E0-EF, with every second and third byte
    s.phase("three-byte forms");
    for a in 0xE0..=0xEFu8 {
        for x in 0..=255u8 {
            if s.mine() {
                for y in 0..=255u8 {
                    if !s.case(&[0, a, x, y]) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("class-representative byte strings");
    let small: [u8; 9] = [0x00, 0x41, 0x80, 0xA5, 0xB5, 0xBF, 0xC3, 0xE2, 0xED];
    let tiny: [u8; 6] = [0x41, 0x85, 0xA5, 0xB5, 0xC3, 0xED];
    for (alpha, len) in [
        (&REPS[..], 4u32),
        (&REPS[..], if t { 5 } else { 0 }),
        (&small[..], 5),
        (&small[..], if t { 6 } else { 0 }),
        (&tiny[..], 6),
        (&tiny[..], if t { 8 } else { 7 }),
    ] {
        if len == 0 {
            continue;
        }
        let n = alpha.len();
        for k in 0..n.pow(len) {
            if k % 512 == 0 && !s.mine() {
                continue;
            }
            if (k / 512) % s.nshards != s.shard {
                continue;
            }
            let mut p = vec![(k % 2 == 1 && len == 4) as u8];
            let mut r = k;
            for _ in 0..len {
                p.push(alpha[r % n]);
                r /= n;
            }
            if !s.case(&p) {
                return;
            }
        }
    }
    s.phase("every scalar value");
    for c in 0..=0x10FFFFu32 {
        if (c / 256) as usize % s.nshards != s.shard {
            continue;
        }
        if let Some(c) = char::from_u32(c) {
            let mut p = vec![0];
            crate::mutf8::encode(&c.to_string(), &mut p);
            if !s.case(&p) {
                return;
            }
            if (c as u32) < 0x3000 || t || c as u32 % 61 == 0 {
                let mut p = vec![1, b'x'];
                crate::mutf8::encode(&c.to_string(), &mut p);
                p.push(b'y');
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("every scalar value next to others");
    const NEXT: [(&str, &str); 9] = [
        ("", "a"), ("a", ""), ("a", "a"), ("\u{1F600}", ""), ("", "\u{1F600}"), ("\0", ""), ("", "\0"), ("\u{e9}", "\u{20ac}"), ("x\u{301}", " "),
    ];
    for c in (0..=0x10FFFFu32).filter_map(char::from_u32) {
        let n = c as u32;
        if (n / 64) as usize % s.nshards != s.shard || !(t || n < 0x1_0100 || n % 61 == 0 || n & 0xFFFF > 0xFFF0) {
            continue;
        }
        for (k, (pre, post)) in NEXT.iter().enumerate() {
            for mode in 0..2u8 {
                if mode == 1 && !t && k != n as usize % 9 {
                    continue;
                }
                let mut p = vec![mode];
                crate::mutf8::encode(&format!("{}{}{}", pre, c, post), &mut p);
                if !s.case(&p) {
                    return;
                }
            }
        }
        let mut p = vec![(n & 1) as u8];
        crate::mutf8::encode(&format!("{}{}", c, c), &mut p);
        if !s.case(&p) {
            return;
        }
    }
    s.phase("sequences of notable characters");
    for len in 2..=if t { 4u32 } else { 3 } {
        for k in 0..40usize.pow(len) {
            if (k / 40) % s.nshards != s.shard {
                continue;
            }
            let mut p = vec![(k / 40 % 2) as u8];
            let mut r = k;
            let mut x = String::new();
            for _ in 0..len {
                x.push(NOTABLE[r % 40]);
                r /= 40;
            }
            crate::mutf8::encode(&x, &mut p);
            if !s.case(&p) {
                return;
            }
        }
    }
    s.phase("texts that mean something, with one notable character");
    for (j, w) in super::pool::KNOWN.iter().chain(&["", "x", "xxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]).enumerate() {
        for (k, c) in NOTABLE.iter().enumerate() {
            if !s.mine() {
                continue;
            }
            for mode in 0..2u8 {
                for v in [format!("{}{}", c, w), format!("{}{}", w, c), format!("{}{}{}", w, c, w), format!("{}{}{}", c, w, c)] {
                    if !t && mode == 1 && (j + k) % 3 != 0 {
                        continue;
                    }
                    let mut p = vec![mode];
                    crate::mutf8::encode(&v, &mut p);
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("sequences of code units");
    const UNITS: [u16; 16] = [
        0x0000, 0x0001, 0x0041, 0x007F, 0x0080, 0x07FF, 0x0800, 0xD7FF, 0xD800, 0xDABC, 0xDBFF, 0xDC00, 0xDEAD,
        0xDFFF, 0xE000, 0xFFFF,
    ];
    for len in 1..=if t { 5 } else { 4u32 } {
        for k in 0..16usize.pow(len) {
            if (k / 64) % s.nshards != s.shard {
                continue;
            }
            let mut p = vec![(k % 3 == 0) as u8];
            for j in 0..len {
                unit(&mut p, UNITS[k >> (4 * j) & 15]);
            }
            if !s.case(&p) {
                return;
            }
        }
    }
    s.phase("surrogate followed by any unit");
    for a in 0xD800..=0xDFFFu16 {
        if !s.mine() {
            continue;
        }
        let step = if t { 1 } else { 3 };
        let any = (0xD7F0..0xE010u32).step_by(step).chain((0..65536).step_by(if t { 31 } else { 1021 }));
        for x in any.chain(0xDBF8..0xDC08) {
            let mut p = vec![0];
            unit(&mut p, a);
            unit(&mut p, x as u16);
            if !s.case(&p) {
                return;
            }
        }
    }
    s.phase("cut at every byte");
    for k in 0..16usize.pow(3) {
        if !s.mine() {
            continue;
        }
        let mut p = vec![0];
        for j in 0..3 {
            unit(&mut p, UNITS[k >> (4 * j) & 15]);
        }
        for n in 1..p.len() {
            for mode in 0..2 {
                let mut q = p[..n].to_vec();
                q[0] = mode;
                if !s.case(&q) {
                    return;
                }
            }
        }
    }
    s.phase("one defect in a run of characters");
    const DEFECTS: [u8; 17] = [0x00, 0x01, 0x7F, 0x80, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC3, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF8, 0xFF];
    let runs: Vec<usize> = (1..=34).chain([40, 48, 63, 64, 65, 72, 100, 127, 128, 129]).chain(if t { 130..300usize } else { 255..260 }).collect();
    for x in ["a", "\u{e9}", "\u{20ac}", "\u{1F600}", "ab\u{e9}", "abcdefg\u{e9}", "abcdefgh\u{20ac}"] {
        for &n in &runs {
            if !s.mine() {
                continue;
            }
            let mut whole = vec![0];
            for ch in x.chars().cycle().take(n) {
                crate::mutf8::encode(&ch.to_string(), &mut whole);
            }
            for at in 1..whole.len() {
                for d in if t { &all[..] } else { &DEFECTS[..] } {
                    for mode in 0..if t || n < 20 { 2 } else { 1u8 } {
                        let mut p = whole.clone();
                        p[0] = mode;
                        p[at] = *d;
                        if !s.case(&p) {
                            return;
                        }
                    }
                }
                // one character more, between two bytes
                for ch in ["\0", "z", "\u{e9}", "\u{ffff}", "\u{10ffff}"] {
                    let mut p = whole[..at].to_vec();
                    crate::mutf8::encode(ch, &mut p);
                    p.extend_from_slice(&whole[at..]);
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("long strings with one notable character");
    for &n in SIZES.iter().chain(&[65_536usize, 65_537, 70_000, 131_072]) {
        if n < 100 {
            continue;
        }
        for (j, ch) in NOTABLE.iter().enumerate() {
            if !s.mine() || !t && n > 1100 && n < 65_000 && j % 3 != n % 3 {
                continue;
            }
            let mut x = Vec::new();
            crate::mutf8::encode(&ch.to_string(), &mut x);
            for fill in [b'a', b'/', b'\n'] {
                for at in 0..6usize {
                    let at = [0, n - 1, n, n / 2, 1, 256][at].min(n);
                    let mode = (n + x.len() > 65_535 || j % 2 == 0 && n < 65_536 && t) as u8;
                    for mode in mode..=if n < 5000 || t || mode == 1 { 1 } else { 0 } {
                        let mut p = vec![mode];
                        p.resize(1 + at, fill);
                        p.extend_from_slice(&x);
                        p.resize(1 + n + x.len(), fill);
                        if !s.case(&p) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("long strings");
    for &n in SIZES {
        for u in [&[0x41u16][..], &[0], &[0x7FF], &[0x20AC], &[0xD83D, 0xDE00], &[0x41, 0x20AC, 0, 0xDABC, 0xDEAD]] {
            for lead in 0..3 {
                for defect in 0..4 {
                    if !s.mine() {
                        continue;
                    }
                    let mut p = vec![0];
                    p.extend(std::iter::repeat(b'l').take(lead));
                    let mut k = 0;
                    loop {
                        let l = p.len();
                        for x in u {
                            unit(&mut p, *x);
                        }
                        if p.len() > n + 1 {
                            p.truncate(l);
                            break;
                        }
                        k += 1;
                    }
                    let _ = k;
                    while p.len() < n + 1 {
                        p.push(b'e');
                    }
                    if p.len() > 65536 {
                        continue;
                    }
                    let last = p.len() - 1;
                    match defect {
                        1 if last > 0 => p[last] = 0xC3,
                        2 if last > 0 => p[last] = 0,
                        3 => p[0] = 1,
                        _ => {}
                    }
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
}

pub const DRIVERS: &[Driver] = &[
    Driver { id: "C03", run: run_pool, explore: c03 },
    Driver { id: "C04", run: run_pool_only, explore: c04 },
    Driver { id: "C05", run: run_utf8, explore: c05 },
];

/// Characters at the borders of encodings and classes.
pub const NOTABLE: [char; 40] = [
    '\0', '\u{1}', '\t', '\n', '\r', ' ', 'a', 'A', '0', '/', '.', ';', '[', '(', '<', '$', '\\', '"', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}',
    '\u{ad}', '\u{e9}', '\u{301}', '\u{7ff}', '\u{800}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{fe0f}',
    '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10ffff}',
];

/// One constant of every kind.
pub fn one_of_each() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        vec![1, 0, 3, b'a', b'b', b'c'],
        vec![3, 1, 2, 3, 4],
        vec![4, 1, 2, 3, 4],
        vec![5, 1, 2, 3, 4, 5, 6, 7, 8],
        vec![6, 1, 2, 3, 4, 5, 6, 7, 8],
        vec![15, 5, 0, 1],
    ];
    v.extend([7u8, 8, 16, 19, 20].iter().map(|t| vec![*t, 0, 1]));
    v.extend([9u8, 10, 11, 12, 18].iter().map(|t| vec![*t, 0, 1, 0, 2]));
    v
}
