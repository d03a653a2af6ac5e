//! C06, C07: instructions and their offsets.
use super::Driver;
use crate::build::{Built, MENU32};
use crate::conform::{conform, CLASS};
use crate::opcodes::{shape, Shape};
use crate::phases::*;
use crate::sink::Sink;
use crate::stats::Stats;

fn run_class(b: &[u8], st: &mut Stats) -> Result<(), String> {
    conform(b, CLASS, st)
}

/// A class with one method per code array. `pad` shifts everything within the file.
pub fn class(out: &mut Vec<u8>, pad: usize, codes: &[&[u8]]) {
    class_len(out, pad, codes, None)
}

/// As `class`; the declared code length of the last method can differ from the actual one (the
/// attribute length stays the actual one).
pub fn class_len(out: &mut Vec<u8>, pad: usize, codes: &[&[u8]], declared: Option<u32>) {
    out.clear();
    out.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 3, 0, 53, 0, 3]);
    out.extend_from_slice(&[1, 0, 4]);
    out.extend_from_slice(b"Code");
    out.push(1);
    out.extend_from_slice(&(pad as u16).to_be_bytes());
    out.extend(std::iter::repeat(b'p').take(pad));
    out.extend_from_slice(&[0, 0x21, 0, 7, 0, 9, 0, 0, 0, 0]);
    out.extend_from_slice(&(codes.len() as u16).to_be_bytes());
    for (k, c) in codes.iter().enumerate() {
        out.extend_from_slice(&[0, 1, 0, 5, 0, 6, 0, 1, 0, 1]);
        out.extend_from_slice(&(c.len() as u32 + 12).to_be_bytes());
        out.extend_from_slice(&[0x12, 0x34, 0x56, 0x78]);
        let mut n = c.len() as u32;
        if k + 1 == codes.len() {
            n = declared.unwrap_or(n);
        }
        out.extend_from_slice(&n.to_be_bytes());
        out.extend_from_slice(c);
        out.extend_from_slice(&[0, 0, 0, 0]);
    }
    out.extend_from_slice(&[0, 0]);
}

/// Well-formed instruction with distinct operand bytes at offset `at` of its method.
pub fn insn(out: &mut Vec<u8>, op: u8, salt: u8) {
    let at = out.len();
    let v = |k: u8| salt.wrapping_mul(29).wrapping_add(0x91 + 23 * k);
    out.push(op);
    match shape(op) {
        Shape::None | Shape::Undefined => {}
        Shape::S1 | Shape::U1 => out.push(v(0)),
        Shape::S2 | Shape::U2 | Shape::LdcWide | Shape::Inc => out.extend_from_slice(&[v(0), v(1)]),
        Shape::Jump4 => out.extend_from_slice(&[v(0), v(1), v(2), v(3)]),
        Shape::InvokeInterface => out.extend_from_slice(&[v(0), v(1), v(2), 0]),
        Shape::InvokeDynamic => out.extend_from_slice(&[v(0), v(1), 0, 0]),
        Shape::NewArray => out.push(4 + salt % 8),
        Shape::MultiNewArray => out.extend_from_slice(&[v(0), v(1), v(2)]),
        Shape::Wide => {
            if salt % 2 == 0 {
                out.extend_from_slice(&[0x84, v(0), v(1), v(2), v(3)]);
            } else {
                out.extend_from_slice(&[[0x15, 0x3A, 0xA9, 0x19][salt as usize / 2 % 4], v(0), v(1)]);
            }
        }
        Shape::TableSwitch => {
            let low = -1i32 - i32::from(salt % 3);
            let n = i32::from(salt % 4);
            table(out, at, 0, 0x0102_0304 * i32::from(salt % 9), low, low + n);
            for k in 0..=n {
                out.extend_from_slice(&(k * 0x0701_0203 - 0x0304_0506).to_be_bytes());
            }
        }
        Shape::LookupSwitch => {
            let n = u32::from(salt % 4);
            lookup(out, at, 0, -2 - i32::from(salt), n);
            for k in 0..n as i32 {
                out.extend_from_slice(&(7 - k * 0x0301_0203).to_be_bytes());
                out.extend_from_slice(&(k * 0x0501_0304 - 1).to_be_bytes());
            }
        }
    }
}
fn padding(out: &mut Vec<u8>, at: usize, fill: u8) {
    while (out.len() - at + at) % 4 != 0 {
        out.push(fill);
    }
}
fn table(out: &mut Vec<u8>, at: usize, fill: u8, default: i32, low: i32, high: i32) {
    padding(out, at, fill);
    for v in [default, low, high] {
        out.extend_from_slice(&v.to_be_bytes());
    }
}
fn lookup(out: &mut Vec<u8>, at: usize, fill: u8, default: i32, n: u32) {
    padding(out, at, fill);
    out.extend_from_slice(&default.to_be_bytes());
    out.extend_from_slice(&n.to_be_bytes());
}

/// One opcode per operand shape.
pub const SHAPES: [u8; 17] = [
    0x00, 0x10, 0x11, 0x12, 0x13, 0x15, 0x84, 0xA7, 0xB2, 0xB9, 0xBA, 0xBC, 0xC4, 0xC5, 0xC8, 0xAA, 0xAB,
];

fn s32() -> Vec<i32> {
    MENU32.iter().map(|x| *x as i32).collect()
}

fn c06(s: &mut Sink) {
    let t = s.thorough;
    let mut b = Vec::new();
    s.phase("every opcode x operand bytes");
    let bytes: Vec<u8> = (0..=255).collect();
    for op in 0..=255u8 {
        let wide = t || matches!(
            shape(op),
            Shape::S2 | Shape::U2 | Shape::LdcWide | Shape::Inc | Shape::InvokeInterface | Shape::InvokeDynamic
                | Shape::MultiNewArray
        );
        for hi in 0..=255u8 {
            if !s.mine() {
                continue;
            }
            let some = [0, 1, 2, hi, 0x7F, 0x80, 0x99, 0xAA, 0xC4, 0xFF];
            for &lo in if wide { &bytes[..] } else { &some[..] } {
                let tail: &[u8] = match op {
                    // dimensions, counts
                    0xC5 => &[3, 0, 0, 0],
                    0xB9 => &[5, 0, 0, 0],
                    _ => &[0, 0, 0, 0],
                };
                let c = [op, hi, lo, tail[0], tail[1], tail[2], tail[3], 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xB1];
                // switches need room for default, bounds and one offset
                let n = if op == 0xAA || op == 0xAB || hi == 0xAA || hi == 0xAB || lo == 0xAA || lo == 0xAB { 25 } else { 9 };
                class(&mut b, 0, &[&c[..n]]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("wide forms x 16-bit operand");
    for w in 0..=255u8 {
        let defined = matches!(w, 0x15..=0x19 | 0x36..=0x3A | 0xA9 | 0x84);
        for hi in 0..=255u8 {
            if !s.mine() {
                continue;
            }
            for lo in 0..=255u8 {
                if !defined && lo > 3 {
                    break;
                }
                class(&mut b, 0, &[&[0, 0xC4, w, hi, lo, 1, 2, 0xB1]]);
                if w == 0x84 {
                    class(&mut b, 0, &[&[0, 0xC4, w, lo ^ 0x5A, 0x33, hi, lo, 0xB1]]);
                    if !s.case(&b) {
                        return;
                    }
                    class(&mut b, 0, &[&[0, 0xC4, w, hi, lo, 0x80 ^ hi, 2, 0xB1]]);
                }
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    let codes = every_instruction();
    versions(s, 0, &codes.iter().map(|c| {
        class(&mut b, 0, &[c]);
        b.clone()
    }).collect::<Vec<_>>());
    let v: Vec<super::attrs::Variant> = codes.iter().map(|c| {
        let c = c.clone();
        Box::new(move |x: &mut crate::build::Cls| super::attrs::code_of(x, &c)) as super::attrs::Variant
    }).collect();
    contexts(s, &v);
    references(s, 0, &codes.iter().map(|c| {
        class(&mut b, 0, &[c]);
        b.clone()
    }).collect::<Vec<_>>(), false);
    s.phase("branches by place");
    for op in (0x99u8..=0xA8).chain([0xC6, 0xC7, 0xC8, 0xC9]) {
        for at in (0i64..=12).chain(120..=136).chain(250..=262).chain([300, 512, 1000, 4095, 4096, 20_000, 32_766, 32_767, 32_768, 32_769, 65_530, 65_535, 65_536, 70_000]) {
            if !s.mine() {
                continue;
            }
            let mut c = vec![0; at as usize];
            let w = if op < 0xC8 { 3 } else { 5 };
            let len = at + w + 2;
            // as distances; and the target in absolute terms
            let ends = [0, 1, 2, w, len - 1, len, len + 1, -1, 127, 128, 255, 256, 32_767, 32_768, 65_535, 65_536, 65_537];
            let mut d: Vec<i64> = ends.iter().flat_map(|e| [*e, -*e, *e - at, *e + at, -*e - at]).collect();
            d.extend([i64::from(i32::MIN), i64::from(i32::MAX), -65_538 - at]);
            d.sort_unstable();
            d.dedup();
            c.push(op);
            for v in d {
                c.truncate(at as usize + 1);
                if w == 3 {
                    if i16::try_from(v).is_err() {
                        continue;
                    }
                    c.extend_from_slice(&(v as i16).to_be_bytes());
                } else {
                    if i32::try_from(v).is_err() {
                        continue;
                    }
                    c.extend_from_slice(&(v as i32).to_be_bytes());
                }
                c.extend_from_slice(&[0x57, 0xB1]);
                class(&mut b, 0, &[&c]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("narrow and wide forms of one instruction");
    for w in (0x15..=0x19).chain(0x36..=0x3A).chain([0xA9]) {
        for v in 0..=255u8 {
            if s.mine() {
                class(&mut b, 0, &[&[w, v, 0xC4, w, 0, v, 0xC4, w, v, 0xC8, 0xB1]]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("iinc: all operands");
    for i in 0..=255u8 {
        if s.mine() {
            for v in 0..=255u8 {
                class(&mut b, 0, &[&[0x84, i, v, 0xC4, 0x84, 0, i, v, i, 0xB1]]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("wide iinc: related operands");
    for hi in 0..=255u16 {
        if s.mine() {
            for lo in 0..=255u16 {
                let v = hi << 8 | lo;
                let mut c = Vec::new();
                for w in [v, !v, v.wrapping_neg(), v.swap_bytes(), v.wrapping_add(1), v ^ 0x8000, hi, lo, 0, 1, 0xFFFF] {
                    c.extend([0xC4, 0x84, hi as u8, lo as u8, (w >> 8) as u8, w as u8]);
                    c.extend([0xC4, 0x84, (w >> 8) as u8, w as u8, hi as u8, lo as u8]);
                }
                c.push(0xB1);
                class(&mut b, 0, &[&c]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("three operand bytes and more");
    for op in [0xB9u8, 0xBA, 0xC5] {
        for x in 0..=255u8 {
            if s.mine() {
                for y in 0..=255u8 {
                    // count and reserved bytes; dimensions and what follows
                    class(&mut b, 0, &[&[op, 0x12, 0x34, x, y, 0xB1, 0xB1, 0xB1]]);
                    if !s.case(&b) {
                        return;
                    }
                    class(&mut b, 0, &[&[op, x, 0x34, y, 0, 0xB1, 0xB1, 0xB1]]);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("32-bit branches");
    for op in [0xC8u8, 0xC9] {
        for v in wide_menu(4) {
            if s.mine() {
                let o = (v as u32).to_be_bytes();
                class(&mut b, 1, &[&[op, o[0], o[1], o[2], o[3], 0xB1]]);
                if !s.case(&b) {
                    return;
                }
            }
        }
        for hi in 0..=255u8 {
            if s.mine() {
                for lo in 0..=255u8 {
                    for o in [[hi, lo, 0x11, 0x22], [0x81, 0x22, hi, lo], [0x33, hi, lo, 0x44]] {
                        class(&mut b, 1, &[&[op, o[0], o[1], o[2], o[3], 0xB1]]);
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("tableswitch bounds and offsets");
    for &low in &s32() {
        for &default in &s32() {
            if !s.mine() {
                continue;
            }
            for n in 0..6i32 {
                let high = match low.checked_add(n - 1) {
                    Some(h) => h,
                    None => continue,
                };
                for cut in 0..2 {
                    let mut c = vec![0xAA];
                    table(&mut c, 0, 0, default, low, high);
                    for k in 0..n - cut.min(n) {
                        c.extend_from_slice(&(low.wrapping_mul(k + 3) ^ default.rotate_left(k as u32)).to_be_bytes());
                    }
                    c.push(0xB1);
                    class(&mut b, 2, &[&c]);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("tableswitch low x high");
    for &low in &s32() {
        for &high in &s32() {
            if s.mine() {
                for default in [0i32, -1, 77] {
                    let mut c = vec![0, 0xAA];
                    table(&mut c, 1, 0, default, low, high);
                    debug_assert!(c.len() == 16);
                    for k in 0..260 {
                        c.extend_from_slice(&(0x0101_0101i32.wrapping_mul(k).wrapping_add(k)).to_be_bytes());
                    }
                    for extra in [0, 1] {
                        // exactly as many offsets as the bounds ask for, or too many
                        let want = i64::from(high) - i64::from(low) + 1;
                        let n = if extra == 0 && (0..=260).contains(&want) { 16 + 4 * want as usize } else { c.len() };
                        class(&mut b, 0, &[&c[..n]]);
                        if !s.case(&b) {
                            return;
                        }
                    }
                    // offsets that would be instructions as well, for every number of them
                    for n in 0..10 {
                        c.truncate(16);
                        c.resize(16 + 2 * n, 0);
                        class(&mut b, 0, &[&c]);
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("lookupswitch keys");
    let keys = [0i32, 1, -1, 255, 256, i32::MAX, i32::MIN, 0x0102_0304];
    let max = if t { 5 } else { 4 };
    for n in 0..=max {
        let total = keys.len().pow(n as u32);
        for k in 0..total {
            if !s.mine() {
                continue;
            }
            let mut c = vec![0x57, 0xAB];
            lookup(&mut c, 1, 0, -9, n);
            let mut r = k;
            for j in 0..n {
                c.extend_from_slice(&keys[r % keys.len()].to_be_bytes());
                c.extend_from_slice(&(0x1122_3344 * (j as i32 + 1) % 0x7000_0000).to_be_bytes());
                r /= keys.len();
            }
            c.push(0xB1);
            class(&mut b, 0, &[&c]);
            if !s.case(&b) {
                return;
            }
        }
    }
    s.phase("switches over few values");
    let few = [0i32, 1, -1, 8];
    for op in [0xAAu8, 0xAB] {
        for lead in 0..2usize {
            for n in 0..=3u32 {
                // default (and low), then offsets (and keys)
                let words = if op == 0xAA { 2 + n } else { 1 + 2 * n };
                for k in 0..few.len().pow(words) {
                    if (k / 64) % s.nshards != s.shard {
                        continue;
                    }
                    let mut r = k;
                    let mut w = || {
                        let x = few[r % few.len()];
                        r /= few.len();
                        x
                    };
                    let mut c = vec![0; lead];
                    c.push(op);
                    if op == 0xAA {
                        let (d, low) = (w(), w());
                        table(&mut c, lead, 0, d, low, low + n as i32 - 1);
                        for _ in 0..n {
                            c.extend_from_slice(&w().to_be_bytes());
                        }
                    } else {
                        lookup(&mut c, lead, 0, w(), n);
                        for _ in 0..2 * n {
                            c.extend_from_slice(&w().to_be_bytes());
                        }
                    }
                    c.push(0xB1);
                    class(&mut b, 0, &[&c]);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("lookupswitch default, key, offset");
    for v in wide_menu(4) {
        if s.mine() {
            for pos in 0..3 {
                let mut w = [-3i32, 0x0A0B_0C0D, 0x0102_0304];
                w[pos] = v as u32 as i32;
                let mut c = vec![0xAB];
                lookup(&mut c, 0, 0, w[0], 1);
                c.extend_from_slice(&w[1].to_be_bytes());
                c.extend_from_slice(&w[2].to_be_bytes());
                c.push(0xB1);
                class(&mut b, 0, &[&c]);
                if !s.case(&b) {
                    return;
                }
                let mut c = vec![0xAA];
                table(&mut c, 0, 0, w[0], 5, 6);
                c.extend_from_slice(&w[1].to_be_bytes());
                c.extend_from_slice(&w[2].to_be_bytes());
                c.push(0xB1);
                class(&mut b, 0, &[&c]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("pairs of instructions");
    for a in 0..=255u8 {
        if shape(a) == Shape::Undefined || !s.mine() {
            continue;
        }
        for x in 0..=255u8 {
            for salt in 0..if t { 8 } else { 2 } {
                for other in [5, 0] {
                    let mut c = Vec::new();
                    insn(&mut c, a, salt);
                    insn(&mut c, x, salt + other);
                    class(&mut b, 0, &[&c]);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    operand_pairs(s);
    code_histories(s);
    late(s);
    large_switches(s);
}

/// Every two instructions with operands next to each other (or with one in between), the operands
/// of the second related to those of the first: equal, one byte of it, swapped, one more or less.
fn operand_pairs(s: &mut Sink) {
    s.phase("pairs of instructions with related operands");
    let mut forms: Vec<(u8, bool)> = Vec::new();
    for op in 0..=255u8 {
        match shape(op) {
            Shape::S1 | Shape::S2 | Shape::U2 | Shape::LdcWide | Shape::InvokeInterface | Shape::InvokeDynamic | Shape::MultiNewArray
            | Shape::Jump4 => forms.push((op, false)),
            Shape::U1 if op == 0x12 => forms.push((op, false)),
            Shape::U1 | Shape::Inc => forms.extend([(op, false), (op, true)]),
            _ => {}
        }
    }
    fn put(c: &mut Vec<u8>, (op, wide): (u8, bool), v: u16) {
        let (h, l) = ((v >> 8) as u8, v as u8);
        if wide {
            c.push(0xC4);
        }
        c.push(op);
        match shape(op) {
            Shape::Inc if wide => c.extend([h, l, l, h]),
            Shape::Inc => c.extend([l, h]),
            Shape::U1 if wide => c.extend([h, l]),
            Shape::S1 | Shape::U1 => c.push(l),
            Shape::Jump4 => c.extend([0, 0, h, l]),
            Shape::InvokeInterface => c.extend([h, l, 1, 0]),
            Shape::InvokeDynamic => c.extend([h, l, 0, 0]),
            Shape::MultiNewArray => c.extend([h, l, l | 1]),
            _ => c.extend([h, l]),
        }
    }
    let (mut b, mut c) = (Vec::new(), Vec::new());
    for &x in &forms {
        for &y in &forms {
            if !s.mine() {
                continue;
            }
            for v in [3u16, 0x00FF, 0x0100, 0x0105, 0x0505, 0xFFFF] {
                for w in [v, v & 255, v >> 8, v.swap_bytes(), v.wrapping_add(1), v.wrapping_sub(1), v ^ 0x100, 0] {
                    for gap in 0..2 {
                        c.clear();
                        put(&mut c, x, v);
                        c.extend(std::iter::repeat(0).take(gap));
                        put(&mut c, y, w);
                        c.push(0xB1);
                        class(&mut b, 0, &[&c]);
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

fn c07(s: &mut Sink) {
    let t = s.thorough;
    let mut b = Vec::new();
    s.phase("sequences of operand shapes");
    let n = SHAPES.len();
    for len in 1..=if t { 5 } else { 4 } {
        for k in 0..n.pow(len) {
            if !s.mine() {
                continue;
            }
            let (mut r, mut c) = (k, Vec::new());
            for j in 0..len {
                insn(&mut c, SHAPES[r % n], j as u8 * 3 + 1);
                r /= n;
            }
            class(&mut b, k % 4, &[&c]);
            if !s.case(&b) {
                return;
            }
        }
    }
    s.phase("large switches, with equal keys too");
    for op in [0xAAu8, 0xAB] {
        for n in [63u32, 255, 256, 257, 1023, 4095, 8190, 8191, 8192, 8193, 16_383, 16_384, 20_000, 65_535, 65_536] {
            for keys in 0..if op == 0xAA { 2 } else { 8u32 } {
                for pad in 0..4usize {
                    if !s.mine() || !t && n > 9000 && pad as u32 != keys % 4 {
                        continue;
                    }
                    let mut c = vec![0u8; pad];
                    c.push(op);
                    c.resize((c.len() + 3) / 4 * 4, 0);
                    c.extend(7u32.to_be_bytes());
                    if op == 0xAA {
                        c.extend(1u32.to_be_bytes());
                        c.extend(n.to_be_bytes());
                        (0..n).for_each(|k| c.extend([0, k, 1 << 20][keys as usize + (k % 7 == 0) as usize].to_be_bytes()));
                    } else {
                        c.extend(n.to_be_bytes());
                        for k in 0..n {
                            let key = match keys {
                                0 => k,
                                1 => n - k,
                                2 => 5,
                                3 => k % (n - 1),
                                4 => k / 2,
                                5 => k ^ 1,
                                6 => k % 256,
                                _ => k << 16 | k >> 16,
                            };
                            c.extend(key.to_be_bytes());
                            c.extend((k % 11).to_be_bytes());
                        }
                    }
                    c.extend([0x84, 1, 2, 0xAB, 0, 0, 0, 0]);
                    c.resize((c.len() + 3) / 4 * 4, 0);
                    c.extend([0, 0, 0, 0, 0xB1]);
                    class(&mut b, 0, &[&c]);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("sequences of instructions with equal operands");
    for len in 1..=if t { 4 } else { 3 } {
        for k in 0..n.pow(len) {
            if !s.mine() {
                continue;
            }
            for fill in [0u8, 1, 0xFF] {
                let (mut r, mut c) = (k, Vec::new());
                for j in 0..len {
                    let from = c.len();
                    let op = SHAPES[r % n];
                    insn(&mut c, op, 2 + j as u8 % 2);
                    if !matches!(op, 0xAA | 0xAB | 0xC4) {
                        for x in &mut c[from + 1..] {
                            *x = fill;
                        }
                        if op == 0xBC {
                            c[from + 1] = 10;
                        }
                        if op == 0xB9 {
                            c[from + 4] = 0;
                        }
                        if op == 0xBA {
                            c[from + 3] = 0;
                            c[from + 4] = 0;
                        }
                    }
                    r /= n;
                }
                class(&mut b, 0, &[&c]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("an instruction and a run of another one");
    for op in (0..=0xCAu8).chain([0xFE, 0xFF]) {
        for other in [0u8, 0x57, 0x01, 0xB1, 0xBF, 0x2A, 0x10, 0x11, 0xA7, 0x15] {
            if !s.mine() {
                continue;
            }
            for n in 1..=if t { 70 } else { 18 } {
                for order in 0..4 {
                    // the run after it, at the end or not, before it, around it
                    let mut c = Vec::new();
                    if order >= 2 {
                        (0..n).for_each(|_| insn(&mut c, other, 2));
                    }
                    insn(&mut c, op, 2);
                    if order != 2 {
                        (0..n).for_each(|_| insn(&mut c, other, 2));
                    }
                    if order == 1 {
                        c.push(0xB1);
                    }
                    class(&mut b, 0, &[&c]);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    links(s, &[Link::Jump(0xA7), Link::Jump(0xC8), Link::Jump(0x99), Link::Jump(0xA8), Link::Handler], if t { 6 } else { 5 });
    s.phase("near targets");
    // branches to close by, and switches without or with few entries, at every alignment, before
    // several instructions
    let switch = |c: &mut Vec<u8>, kind: usize, default: i32, other: i32, low: i32| match kind {
        0..=2 => {
            let at = c.len();
            c.push(0xAB);
            lookup(c, at, 0, default, kind as u32);
            for k in 0..kind as i32 {
                c.extend((low + k).to_be_bytes());
                c.extend((other + 2 * k).to_be_bytes());
            }
        }
        _ => {
            let at = c.len();
            c.push(0xAA);
            table(c, at, 0, default, low, low + kind as i32 - 3);
            for k in 0..kind as i32 - 2 {
                c.extend((other + 2 * k).to_be_bytes());
            }
        }
    };
    for kind in 0..5usize {
        for default in -6..if t { 80 } else { 48 } {
            for other in 0..if kind == 0 { 1 } else { 3 } {
                if !s.mine() {
                    continue;
                }
                for lead in 0..5usize {
                    for after in 0..5usize {
                        let mut c = vec![3u8; lead];
                        switch(&mut c, kind, default, [default, 20 + lead as i32, default + 1][other], default % 7);
                        match after {
                            0 => c.extend([0; 6]),
                            1 => c.extend([4, 5, 6, 7, 0xB1]),
                            2 => switch(&mut c, kind, default, default, 1),
                            3 => c.extend([0xA7, 0, 3, 0xA7, 0xFF, 0xFD, 0xB1]),
                            _ => c.push(0xB1),
                        }
                        class(&mut b, 0, &[&c]);
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    for op in (0x99..=0xA8u8).chain(0xC6..=0xC9) {
        for d in -10..32i32 {
            if !s.mine() {
                continue;
            }
            for lead in 0..6usize {
                for after in 0..4usize {
                    let mut c = vec![3u8; lead];
                    let put = |c: &mut Vec<u8>, d: i32| {
                        c.push(op);
                        if op >= 0xC8 {
                            c.extend(d.to_be_bytes());
                        } else {
                            c.extend((d as i16).to_be_bytes());
                        }
                    };
                    put(&mut c, d);
                    match after {
                        0 => c.extend([0; 6]),
                        1 => c.extend([4, 5, 6, 7, 0xB1]),
                        2 => put(&mut c, d),
                        _ => c.extend([0xA7, 0, 3, 0xB1]),
                    }
                    class(&mut b, 0, &[&c]);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("declared code length");
    for len in 1..=if t { 4 } else { 3 } {
        for k in 0..n.pow(len) {
            if !s.mine() {
                continue;
            }
            let (mut r, mut c) = (k, Vec::new());
            for j in 0..len {
                insn(&mut c, SHAPES[r % n], j as u8 + 2);
                r /= n;
            }
            for d in 0..=c.len() as u32 + 5 {
                class_len(&mut b, 0, &[&c], Some(d));
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("every opcode cut short");
    for op in 0..=255u8 {
        if !s.mine() {
            continue;
        }
        for lead in 0..4 {
            for salt in 0..4 {
                let mut c = vec![0; lead];
                insn(&mut c, op, salt);
                for cut in lead..=c.len() {
                    class(&mut b, 0, &[&c[..cut]]);
                    if !s.case(&b) {
                        return;
                    }
                    // what follows within the file would complete the instruction
                    class_len(&mut b, 0, &[&c], Some(cut as u32));
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("switch alignment x position in file x methods");
    for lead in 0..=9usize {
        for pad in 0..=4usize {
            for first in 0..=5usize {
                if !s.mine() {
                    continue;
                }
                for op in [0xAAu8, 0xAB] {
                    for n in 0..3i32 {
                        for fill in [0u8, 1, 0x80, 0xFF, 0xAA] {
                            for second in 0..3 {
                                let mut c = vec![3; lead];
                                let ops: &[u8] = match second {
                                    0 => &[op],
                                    1 => &[op, op],
                                    _ => &[op, 0x00, op ^ 1],
                                };
                                for &op in ops {
                                    c.push(op);
                                    match op {
                                        0xAA => {
                                            table(&mut c, 0, fill, -5, 10, 10 + n);
                                            for k in 0..=n {
                                                c.extend_from_slice(&(k * 77 + 3).to_be_bytes());
                                            }
                                        }
                                        0xAB => {
                                            lookup(&mut c, 0, fill, 6, n as u32);
                                            for k in 0..n {
                                                c.extend_from_slice(&(k * 5 - 1).to_be_bytes());
                                                c.extend_from_slice(&(k * 77 + 3).to_be_bytes());
                                            }
                                        }
                                        _ => {}
                                    }
                                }
                                let one = vec![0x04; first];
                                if first == 0 {
                                    class(&mut b, pad, &[&c]);
                                } else {
                                    class(&mut b, pad, &[&one, &c, &one]);
                                }
                                if !s.case(&b) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    s.phase("three methods");
    for k in 0..n.pow(3) {
        for other in [0usize, 4, 15, 16] {
            if s.mine() {
                let mut m = vec![Vec::new(), Vec::new(), Vec::new()];
                insn(&mut m[0], SHAPES[k % n], 1);
                insn(&mut m[1], SHAPES[other], 2);
                insn(&mut m[1], SHAPES[k / n % n], 3);
                insn(&mut m[2], SHAPES[k / n / n], 4);
                insn(&mut m[2], SHAPES[other], 5);
                class(&mut b, 0, &[&m[0], &m[1], &m[2]]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    // long methods: pumped shapes and pairs of shapes up to the maximum code length
    s.phase("pumped sequences");
    for x in 0..n {
        for y in 0..n {
            for &max in if t { &[255usize, 256, 257, 300, 4096, 32767, 32768, 32770, 65534, 65535][..] } else { &[255usize, 257, 600][..] } {
                if !s.mine() {
                    continue;
                }
                let mut c = Vec::new();
                let mut k = 0u32;
                loop {
                    let l = c.len();
                    insn(&mut c, SHAPES[if k % 2 == 0 { x } else { y }], (k % 251) as u8);
                    if c.len() > max {
                        c.truncate(l);
                        break;
                    }
                    k += 1;
                }
                while c.len() < max {
                    c.push(0xB1);
                }
                class(&mut b, 0, &[&c, &[0xB1]]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    s.phase("code of every length");
    for len in (0..=if t { 4096 } else { 1100 }).chain(32760..32776).chain(65524..=65544).chain([70_000, 98_304, 131_071, 131_072, 131_073, 200_000]) {
        if s.mine() {
            let c: Vec<u8> = (0..len).map(|k| (k % 16) as u8).collect();
            class(&mut b, 0, &[&c, &[0xB1]]);
            if !s.case(&b) {
                return;
            }
        }
    }
    s.phase("switches late in a method");
    for at in (250usize..262).chain(32764..32772).chain(65490..65520).chain(65530..65542).chain([98_305, 131_070, 131_071, 131_072, 131_073]) {
        for op in [0xAAu8, 0xAB] {
            if s.mine() {
                let mut c = vec![0; at];
                insn(&mut c, op, 0);
                class(&mut b, 0, &[&c]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    code_histories(s);
    late(s);
    large_switches(s);
}

/// Every instruction far into a method, with operands that are small, close to zero, or lead back.
pub fn late(s: &mut Sink) {
    s.phase("instructions late in a method");
    let mut all: Vec<Vec<u8>> = every_instruction();
    all.retain(|x| shape(x[0]) != Shape::Undefined);
    all.iter_mut().for_each(|x| {
        x.pop();
    });
    all.dedup_by_key(|x| (x[0], if x[0] == 0xC4 { x[1] } else { 0 }));
    let mut b = Vec::new();
    for at in [0usize, 1, 2, 3, 255, 256, 257, 300, 1000, 4095, 32_767, 32_768, 65_533, 65_534, 65_535, 65_536, 65_537, 70_000, 100_000, 131_072] {
        for v in [0i32, 1, 2, 3, 4, 9, 0x7F, 0x80, 0xFF, 0x100, -1, -2, -3, -5, -128, -32_768, -(at as i32), at as i32] {
            for step in [1usize, 7, 50, all.len() - 1] {
                if !s.mine() {
                    continue;
                }
                let mut c = vec![0x03; at];
                for k in 0..all.len() {
                    let x = &all[(k * step + step) % all.len()];
                    let (op, from) = (x[0], c.len());
                    if op == 0xAA || op == 0xAB {
                        insn(&mut c, op, v as u8);
                        continue;
                    }
                    c.extend_from_slice(x);
                    let first = from + 1 + (op == 0xC4) as usize;
                    let be = v.to_be_bytes();
                    match shape(op) {
                        Shape::NewArray | Shape::None | Shape::Undefined => {}
                        Shape::Inc | Shape::S1 | Shape::U1 => c[first..].iter_mut().for_each(|x| *x = be[3]),
                        Shape::Jump4 => c[first..first + 4].copy_from_slice(&be),
                        _ => {
                            for k in (first..c.len()).step_by(2) {
                                if k + 1 < c.len() {
                                    c[k..k + 2].copy_from_slice(&be[2..]);
                                }
                            }
                            if op == 0xBA {
                                c[first + 2..].iter_mut().for_each(|x| *x = 0);
                            }
                            if op == 0xB9 {
                                c[first + 2] = be[3];
                                c[first + 3] = 0;
                            }
                        }
                    }
                }
                c.push(0xB1);
                class(&mut b, 0, &[&c]);
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
}

/// Code in which every short sequence of instructions occurs, after ever more of the others.
fn code_histories(s: &mut Sink) {
    s.phase("instructions after every short sequence of instructions");
    // (opcode, salt): all forms of wide, and switches of several sizes
    let mut all: Vec<(u8, u8)> = (0..=255u8).filter(|op| shape(*op) != Shape::Undefined && *op != 0xC4).map(|op| (op, 1)).collect();
    all.extend((0..8).map(|k| (0xC4, k)));
    all.extend((2..5).flat_map(|k| [(0xAA, k), (0xAB, k)]));
    all.extend((2..9).map(|k| (0xBC, k)));
    let shapes: Vec<(u8, u8)> = SHAPES.iter().map(|op| (*op, 2)).collect();
    let mut cases: Vec<(Vec<(u8, u8)>, usize)> = Vec::new();
    cases.push((all.clone(), 60_000));
    cases.push((all.iter().rev().cloned().collect(), 60_000));
    cases.push((shapes.clone(), 5000));
    cases.push((shapes.iter().rev().cloned().collect(), if s.thorough { 90_000 } else { 5000 }));
    for from in 0..all.len() {
        cases.push(((0..6).map(|j| all[(from + j * j * 7) % all.len()]).collect(), if s.thorough { 50_000 } else { 1300 }));
        for (k, x) in shapes.iter().enumerate() {
            if s.thorough || (k + from) % 3 == 0 {
                cases.push((vec![all[from], *x], if s.thorough { 2100 } else { 140 }));
            }
        }
    }
    let mut b = Vec::new();
    for (i, (letters, most)) in cases.iter().enumerate() {
        if !s.mine() {
            continue;
        }
        for salted in [false, true] {
            let mut c = Vec::new();
            for (j, k) in histories_within(letters.len(), *most).into_iter().enumerate() {
                let (op, salt) = letters[k];
                insn(&mut c, op, if salted && op != 0xC4 { salt.wrapping_add(j as u8) } else { salt });
            }
            class(&mut b, i % 4, &[&c, &[0xB1]]);
            if !s.case(&b) {
                return;
            }
        }
    }
}

/// Every instruction with operands in which every bit is set somewhere, one code array each.
fn every_instruction() -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for op in 0..=255u8 {
        for salt in 0..match shape(op) {
            Shape::None | Shape::Undefined => 1,
            Shape::Wide => 8,
            _ => 3,
        } {
            let mut c = Vec::new();
            insn(&mut c, op, salt * 3 + (shape(op) == Shape::Wide) as u8 * salt * 2);
            c.push(0xB1);
            v.push(c);
        }
    }
    for w in (0x15..=0x19u8).chain(0x36..=0x3A).chain([0xA9]) {
        v.push(vec![0xC4, w, 0, 1, 0xB1]);
        v.push(vec![0xC4, w, 0xFF, 0x80, 0xB1]);
    }
    v
}

/// Switches with many entries.
fn large_switches(s: &mut Sink) {
    let mut b = Vec::new();
    s.phase("large switches");
    // the format allows more than the 65535 bytes the JVM takes
    let all: Vec<usize> = (0..if s.thorough { 2100 } else { 530 }).collect();
    for (&m, near) in SIZES.iter().chain(&[65536usize, 65537, 70_000, 131_072, 140_001]).map(|m| (m, false)).chain(all.iter().map(|m| (m, true))) {
        for lead in 0..4 {
            for op in [0xAAu8, 0xAB] {
                if !s.mine() {
                    continue;
                }
                if near {
                    // keys that follow one another, from below zero; the last one is not the next
                    for last in 0..2i32 {
                        let mut c = vec![2; lead];
                        c.push(op);
                        let n = m as i32;
                        if op == 0xAA {
                            table(&mut c, 0, 0, last, -1 - last, n - 2 - last);
                        } else {
                            lookup(&mut c, 0, 0, 1, m as u32);
                        }
                        for k in 0..n {
                            if op == 0xAB {
                                c.extend_from_slice(&(k - 1 + (k + 1 == n) as i32 * last).to_be_bytes());
                            }
                            c.extend_from_slice(&(k << 20).to_be_bytes());
                        }
                        c.push(0xB1);
                        class(&mut b, 0, &[&c]);
                        if !s.case(&b) {
                            return;
                        }
                    }
                    continue;
                }
                let mut c = vec![2; lead];
                c.push(op);
                if op == 0xAA {
                    table(&mut c, 0, 0, 1, -3, -3 + m as i32 - 1);
                } else {
                    lookup(&mut c, 0, 0, 1, m as u32);
                }
                for k in 0..m as i32 {
                    if op == 0xAB {
                        c.extend_from_slice(&(k * 3 - 1000).to_be_bytes());
                    }
                    c.extend_from_slice(&(k ^ 0x55AA_0000).to_be_bytes());
                }
                c.push(0xB1);
                class(&mut b, 0, &[&c]);
                if !s.case(&b) {
                    return;
                }
                // other first keys, other offsets
                for low in [0i32, 1, -1, -100, -70_000, i32::MIN, i32::MAX - m.max(1) as i32 + 1] {
                    for of in 0..9 {
                        if !s.thorough && of < 6 && lead > 0 && (low as usize ^ of ^ m) % 4 != lead {
                            continue;
                        }
                        c.truncate(lead + 1);
                        if op == 0xAA {
                            table(&mut c, 0, 0, -8, low, low.wrapping_add(m as i32 - 1));
                        } else {
                            lookup(&mut c, 0, 0, -8, m as u32);
                        }
                        for k in 0..m as i32 {
                            if op == 0xAB {
                                c.extend_from_slice(&low.wrapping_add(k).to_be_bytes());
                            }
                            let runs = if (k / 3) % 2 == 0 { -8 } else { 12 };
                            let halves = if k < m as i32 / 2 { 12 } else { -8 };
                            let v = [0, -5, 9, if k % 2 == 0 { -8 } else { 12 }, 1 << (k % 31), -k, -8, runs, halves][of];
                            c.extend_from_slice(&v.to_be_bytes());
                        }
                        c.push(0xB1);
                        class(&mut b, 0, &[&c]);
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Small classes with code, used as bases by other drivers.
pub fn templates() -> Vec<Built> {
    let mut v = Vec::new();
    for group in SHAPES.chunks(2) {
        let mut c = Vec::new();
        for (k, &op) in group.iter().enumerate() {
            insn(&mut c, op, 6 + k as u8);
        }
        c.push(0xB1);
        let mut b = Vec::new();
        class(&mut b, 0, &[&c]);
        v.push(Built { b, ..Built::default() });
    }
    v
}

pub const DRIVERS: &[Driver] = &[
    Driver { id: "C06", run: run_class, explore: c06 },
    Driver { id: "C07", run: run_class, explore: c07 },
];
