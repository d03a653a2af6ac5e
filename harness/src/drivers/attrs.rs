//! C08 - C14: attributes and the structures in them.
use super::code::insn;
use super::Driver;
use crate::build::*;
use crate::conform::{conform, CLASS};
use crate::explore::Ch;
use crate::phases::*;
use crate::sink::Sink;
use crate::stats::Stats;

fn run_class(b: &[u8], st: &mut Stats) -> Result<(), String> {
    conform(b, CLASS, st)
}

/// Templates with default values for sweeps; `all` are the small ones for pairs and triples.
fn standard(s: &mut Sink, id: &str, tpls: &[Built]) {
    sweep(s, tpls);
    pairs(s, tpls);
    let v = variants_of(id);
    repeats(s, &v);
    contexts(s, &v);
    let mut more = tpls.to_vec();
    for (k, f) in v.iter().enumerate() {
        more.push(one(LOCS[k % 4], &|c| f(c)));
        let two = at(LOCS[(k + 1) % 4], 2, &mut |c| {
            f(c);
            f(c);
        });
        if two.f.len() < 60 {
            more.push(two);
        }
    }
    few_values(s, &more);
    diagonal(s, &more);
    places(s, &v);
    small_places(s, &v);
    // with nothing beside it
    let mut alone = Vec::new();
    for f in &v {
        for l in LOCS {
            let mut c = Cls::new();
            at_places(&mut c, &mut [(l, &mut |c| f(c))]);
            alone.push(c.finish());
        }
    }
    sweep_menu(s, &alone);
    backgrounds(s, &alone);
    backgrounds(s, &more);
    let all = variants();
    two_attributes(s, &v, &all);
    let bases: Vec<Vec<u8>> = more.iter().map(|b| b.b.clone()).collect();
    references(s, 0, &bases, false);
    references(s, 0, &bases[..tpls.len()], true);
    named_references(s, &more, if s.thorough { 60 } else { 24 });
    linked(s, &more);
    linked_pairs(s, &v, &one_of_each());
    let small: Vec<Built> = v.iter().enumerate().map(|(k, f)| one(LOCS[k % 4], &|c| f(c))).filter(|b| plain(b).len() < 14).collect();
    pieces(s, &small[..small.len().min(if s.thorough { 60 } else { 20 })], s.thorough);
    let each: Vec<Built> = one_of_each_of(&v).into_iter().map(|k| one(Loc::Class, &|c| v[k](c))).collect();
    pieces(s, &each, true);
    if s.thorough || tpls.iter().all(|t| t.f.len() < 40) {
        triples(s, tpls);
    }
}

/// One of `v` and one of `all` on any two places: with values of their own, with the same values, with
/// the same ones shifted by one, and with those of the class's name and of what follows it.
fn two_attributes(s: &mut Sink, v: &[Variant], all: &[Variant]) {
    s.phase("two attributes of any shapes");
    let write = |c: &mut Cls, x: &Variant, mode: usize, from: &mut Option<u16>| match *from {
        None => {
            if mode == 3 {
                let m = Cls::new().mark();
                c.rewind(m);
            }
            *from = Some(c.mark());
            x(c);
        }
        Some(m) => {
            if mode == 1 || mode == 2 {
                c.rewind(m);
            }
            if mode == 2 {
                c.val();
            }
            x(c);
        }
    };
    for (i, f) in v.iter().enumerate() {
        for (j, g) in all.iter().enumerate() {
            if !s.mine() {
                continue;
            }
            for a in 0..4usize {
                for b in 0..4usize {
                    for mode in 0..4usize {
                        let same_place = a == b;
                        if !s.thorough && (if same_place { mode == 3 && (i + j + a) % 2 == 0 } else { (i + j + a + 2 * b + mode) % 3 != 0 }) {
                            continue;
                        }
                        for turn in 0..1 + same_place as usize {
                            let (x, y) = if turn == 0 { (f, g) } else { (g, f) };
                            let mut c = Cls::new();
                            let from = std::cell::Cell::new(None);
                            let put = |c: &mut Cls, x: &Variant| {
                                let mut m = from.get();
                                write(c, x, mode, &mut m);
                                from.set(m);
                            };
                            at_places(&mut c, &mut [(LOCS[a], &mut |c| put(c, x)), (LOCS[b], &mut |c| put(c, y))]);
                            if !s.case(&c.finish_plain()) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}

/// One shape of each attribute, with values of its own.
pub fn one_of_each() -> Vec<Variant> {
    one_of_each_of(&variants()).into_iter().map(|k| variants().swap_remove(k)).collect()
}

/// Which of these are one of each attribute.
fn one_of_each_of(v: &[Variant]) -> Vec<usize> {
    let mut best: std::collections::BTreeMap<Vec<u8>, (usize, usize)> = Default::default();
    for (at, f) in v.iter().enumerate() {
        let mut c = Cls::new();
        f(&mut c);
        let p = &c.pool.b;
        let name = p[3..3 + (usize::from(p[1]) << 8 | usize::from(p[2]))].to_vec();
        let k = plain(&one(Loc::Class, &|c| f(c))).len();
        let far = k.max(6) - k.min(6);
        if k > 0 && best.get(&name).map_or(true, |b| far < b.0) {
            best.insert(name, (far, at));
        }
    }
    best.into_iter().map(|(_, (_, at))| at).collect()
}

/// A method with every instruction; the attributes are those of its code.
fn in_rich_code(n: usize, salt: u8, f: &mut dyn FnMut(&mut Cls)) -> (Built, usize) {
    let mut code = Vec::new();
    for op in (0..=0xCAu8).chain([0xFE, 0xFF]) {
        insn(&mut code, op, op.wrapping_add(salt));
    }
    // the same behind one another, and where nothing is reached
    for op in [0xBB, 0xBB, 0x59, 0xB7, 0x3A, 0x36, 0x36, 0xA7, 0x00, 0x00, 0xBF, 0xB1, 0xB1] {
        insn(&mut code, op, salt);
    }
    let mut c = Cls::new();
    c.header(0);
    c.u2(0);
    c.u2(1);
    c.u2(9);
    c.v2(2);
    c.u2(1);
    let e = c.begin("Code");
    c.v2(2);
    c.u4(code.len() as u32);
    c.body.raw(&code);
    c.u2(2);
    c.v2(8);
    c.u2(n as u16);
    f(&mut c);
    c.end(e);
    c.u2(0);
    (c.finish(), code.len())
}

/// A small method, in which places, slots and sizes are all small numbers.
fn in_small_code(k: usize, f: &mut dyn FnMut(&mut Cls)) -> (Built, usize) {
    let code: &[u8] = [
        // stores, loads, a loop and a return
        &[0x04, 0x3C, 0x15, 1, 0x36, 2, 0x84, 1, 1, 0xA7, 0, 4, 0x00, 0x1B, 0xC4, 0x36, 0, 3, 0xAC][..],
        // an object, a check and a throw
        &[0xBB, 0, 5, 0x59, 0xB7, 0, 6, 0x3A, 1, 0x19, 1, 0xC0, 0, 5, 0xC1, 0, 5, 0x99, 0, 4, 0xBF, 0xB1][..],
    ][k];
    let mut c = Cls::new();
    c.header(0);
    c.u2(0);
    c.u2(1);
    c.u2(9);
    c.v2(2);
    c.u2(1);
    let e = c.begin("Code");
    c.u2(2);
    c.u2(4);
    c.u4(code.len() as u32);
    c.body.raw(code);
    c.u2(1);
    c.u2(0);
    c.u2(7);
    c.u2(9);
    c.u2(0);
    c.u2(1);
    f(&mut c);
    c.end(e);
    c.u2(0);
    (c.finish(), code.len())
}

/// Values that are places, slots and sizes of a small method: all of any two, or any three.
fn small_places(s: &mut Sink, v: &[Variant]) {
    s.phase("values that are places in a small method");
    for f in v {
        for k in 0..2 {
            let (t, len) = in_small_code(k, &mut |c| f(c));
            let start = pool_end(&t.b).0 + 6;
            let x: Vec<(usize, u8)> = plain(&t).into_iter().filter(|x| x.0 >= start).collect();
            let n = len as u64 + 2;
            for i in 0..x.len().min(12) {
                for j in i + 1..x.len().min(i + 7) {
                    if !s.mine() {
                        continue;
                    }
                    let third: &[(usize, u8)] = if x.len() <= 5 + 3 * s.thorough as usize { &x[j + 1..] } else { &[] };
                    let mut b = t.b.clone();
                    for bg in 0..2 {
                        if bg == 1 {
                            x.iter().enumerate().for_each(|(k, x)| put(&mut b, *x, k as u64 % 3));
                        }
                        let back = b.clone();
                        for v in 0..n {
                            put(&mut b, x[i], v);
                            for w in 0..n {
                                put(&mut b, x[j], w);
                                if !s.case(&b) {
                                    return;
                                }
                                for y in third {
                                    for u in 0..n {
                                        put(&mut b, *y, u);
                                        if !s.case(&b) {
                                            return;
                                        }
                                    }
                                    b[y.0..y.0 + 2].copy_from_slice(&back[y.0..y.0 + 2]);
                                }
                            }
                        }
                        b = back;
                    }
                }
            }
        }
    }
}

/// Values that are places in a method's code: at, before and behind each of its instructions.
fn places(s: &mut Sink, v: &[Variant]) {
    s.phase("values that are places in the code");
    let near: Vec<u64> = vec![0, 1, 2, 3, 16, 17, 18, 100, 300, 0xFFFF];
    for f in v {
        for salt in 0..2u8 {
            let (t, len) = in_rich_code(1, salt, &mut |c| f(c));
            let fields = plain(&t);
            if fields.len() > 40 {
                continue;
            }
            let all: Vec<u64> = (0..len as u64 + 3).collect();
            for (i, x) in fields.iter().enumerate() {
                if !s.mine() {
                    continue;
                }
                let mut b = t.b.clone();
                for v in &all {
                    put(&mut b, *x, *v);
                    if !s.case(&b) {
                        return;
                    }
                    // and its length, or the place that follows
                    if let Some(y) = fields.get(i + 1) {
                        for w in [0, 1, 2, 3, len as u64 - (*v).min(len as u64), len as u64, *v + 1] {
                            put(&mut b, *y, w);
                            if !s.case(&b) {
                                return;
                            }
                        }
                        b[y.0..y.0 + 2].copy_from_slice(&t.b[y.0..y.0 + 2]);
                    }
                }
            }
            // several at once
            if s.mine() {
                let mut b = t.b.clone();
                for v in &all {
                    for step in [0u64, 1, 2, 3, 7] {
                        fields.iter().enumerate().for_each(|(k, x)| put(&mut b, *x, v + k as u64 * step));
                        if !s.case(&b) {
                            return;
                        }
                    }
                    for w in &near {
                        fields.iter().enumerate().for_each(|(k, x)| put(&mut b, *x, if k % 2 == 0 { *v } else { *w }));
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Class files with each of the attributes of all kinds, one of each shape.
pub fn bases() -> Vec<Vec<u8>> {
    variants().iter().enumerate().map(|(k, f)| one(LOCS[k % 4], &|c| f(c)).b).collect()
}

/// An attribute with a list of `n` elements.
pub fn long_attribute(c: &mut Cls, k: usize, n: usize) {
    match k {
        0 => line_numbers(c, n),
        1 => bootstrap(c, &[1, n]),
        2 => annotations(c, 0, &[vec![0; n]]),
        3 => type_annotations(c, 0, &[(0x40, n, vec![], 0)]),
        4 => packages(c, n),
        5 => module(c, 1, &[n], &[], n, &[]),
        _ => code_with(c, n, 2, &[]),
    }
}

/// A code attribute with the given code.
pub fn code_of(c: &mut Cls, code: &[u8]) {
    let e = c.begin("Code");
    c.v2(2);
    c.u4(code.len() as u32);
    c.body.raw(code);
    c.u2(0);
    c.u2(0);
    c.end(e);
}

/// Same attribute twice, with a different one in between, at a location.
fn one(loc: Loc, f: &dyn Fn(&mut Cls)) -> Built {
    at(loc, 1, &mut |c| f(c))
}

// ---------------------------------------------------------------- C08 code attribute

fn code_with(c: &mut Cls, insns: usize, excs: usize, attrs: &[u8]) {
    let e = c.begin("Code");
    c.v2(2);
    c.u4(insns as u32);
    for k in 0..insns {
        c.u1(if k + 1 == insns { 0xB1 } else { (k % 8) as u8 });
    }
    c.u2(excs as u16);
    for _ in 0..excs {
        c.v2(4);
    }
    c.u2(attrs.len() as u16);
    for &a in attrs {
        match a {
            0 => line_numbers(c, 1),
            1 => lvt(c, "LocalVariableTable", 1),
            2 => unknown(c, 3),
            3 => stackmap_one(c, 0x41, &[5]),
            _ => lvt(c, "LocalVariableTypeTable", 2),
        }
    }
    c.end(e);
}
fn unknown(c: &mut Cls, n: usize) {
    let e = c.begin("Custom");
    for _ in 0..n {
        let v = c.val8();
        c.u1(v);
    }
    c.end(e);
}

/// Class with one method per element of `m`, each with a code attribute of that shape.
fn methods(m: &[(usize, usize, Vec<u8>)]) -> Built {
    let mut c = Cls::new();
    c.header(0);
    c.u2(0);
    c.u2(m.len() as u16);
    for (i, x, a) in m {
        c.u2(0x0001);
        c.v2(2);
        c.u2(2);
        code_with(&mut c, *i, *x, a);
        sentinel(&mut c);
    }
    c.u2(1);
    sentinel(&mut c);
    c.finish()
}

fn c08(s: &mut Sink) {
    let more = s.thorough as u32;
    const EXC: [&[u8]; 8] = [
        &[0, 0, 0, 5, 0, 5, 0, 0], &[0, 0, 0, 5, 0, 5, 0, 6], &[0, 0, 0, 5, 0, 6, 0, 6], &[0, 5, 0, 0, 0, 5, 0, 0], &[0, 5, 0, 5, 0, 5, 0, 5],
        &[0, 0, 0, 0, 0, 0, 0, 0], &[0, 0, 0, 6, 0, 5, 0, 6], &[0, 1, 0, 5, 0, 5, 0, 6],
    ];
    words(s, "tables of like exception handlers", "Code", &[0, 1, 0, 2, 0, 0, 0, 1, 0xB1], 2, &EXC, 4 + more, &[0, 0]);
    let t = s.thorough;
    shapes(s, "code attribute shapes", 0, 3, &mut |ch| {
        let n = 1 + ch.upto(1);
        let mut v = Vec::new();
        for _ in 0..n {
            let insns = 1 + ch.upto(if t { 4 } else { 2 });
            let excs = ch.upto(if t { 4 } else { 3 });
            let k = ch.upto(2);
            let attrs = (0..k).map(|_| ch.free(5) as u8).collect();
            v.push((insns, excs, attrs));
        }
        methods(&v)
    });
    shapes(s, "three methods", 0, 3, &mut |ch| {
        let v: Vec<_> = (0..3)
            .map(|_| {
                let k = ch.upto(1);
                (1 + 3 * ch.upto(1), ch.upto(2), (0..k).map(|_| ch.free(5) as u8).collect())
            })
            .collect();
        methods(&v)
    });
    sized(s, "exception table sizes", SIZES, &mut |n| methods(&[(2, n, vec![0]), (1, 1, vec![])]));
    sized(s, "code sizes", &SIZES[1..], &mut |n| methods(&[(n, 1, vec![1]), (2, 1, vec![])]));
    sized(s, "code attribute counts", SIZES, &mut |n| {
        methods(&[(1, 2, (0..n).map(|k| (k % 3) as u8).collect()), (1, 1, vec![0])])
    });
    grid(s, "long code and long tables", &mut |n, m| methods(&[(n, m, vec![0]), (m, n, vec![]), (1, 1, vec![1])]));
    grid(s, "many methods with code", &mut |n, m| {
        let (n, m) = (n.min(60_000), m.min(60_000));
        methods(&(0..n).map(|k| ((m + k) % 997 % (200_000 / n + 1) + 1, k % 3, if k % 7 == 0 { vec![(k % 5) as u8] } else { vec![] })).collect::<Vec<_>>())
    });
    let tp = c08_templates();
    standard(s, "C08", &tp);
    any_two_shapes(s);
}
fn c08_templates() -> Vec<Built> {
    vec![methods(&[(3, 2, vec![0])]), methods(&[(1, 1, vec![]), (2, 0, vec![2])])]
}

// ---------------------------------------------------------------- C09 tables

fn line_numbers(c: &mut Cls, n: usize) {
    let e = c.begin("LineNumberTable");
    c.u2(n as u16);
    c.v2(2 * n);
    c.end(e);
}
fn lvt(c: &mut Cls, name: &str, n: usize) {
    let e = c.begin(name);
    c.u2(n as u16);
    c.v2(5 * n);
    c.end(e);
}
fn params(c: &mut Cls, n: usize) {
    let e = c.begin("MethodParameters");
    c.u1(n as u8);
    c.v2(2 * n);
    c.end(e);
}
fn exceptions(c: &mut Cls, n: usize) {
    let e = c.begin("Exceptions");
    c.u2(n as u16);
    c.v2(n);
    c.end(e);
}
fn table(c: &mut Cls, kind: usize, n: usize) {
    match kind {
        0 => line_numbers(c, n),
        1 => lvt(c, "LocalVariableTable", n),
        2 => lvt(c, "LocalVariableTypeTable", n),
        3 => params(c, n),
        _ => exceptions(c, n),
    }
}
const TABLES: usize = 5;

fn c09(s: &mut Sink) {
    let more = s.thorough as u32;
    const LINES: [&[u8]; 7] = [&[0, 0, 0, 0], &[0, 0, 0, 5], &[0, 5, 0, 0], &[0, 5, 0, 5], &[0, 5, 0, 6], &[0, 6, 0, 5], &[0, 6, 0, 6]];
    words(s, "tables of like lines", "LineNumberTable", &[], 2, &LINES, 4 + more, &[]);
    const VARS: [&[u8]; 6] = [
        &[0, 0, 0, 5, 0, 5, 0, 5, 0, 0], &[0, 5, 0, 5, 0, 5, 0, 5, 0, 0], &[0, 0, 0, 5, 0, 6, 0, 5, 0, 0], &[0, 0, 0, 5, 0, 5, 0, 6, 0, 0],
        &[0, 0, 0, 5, 0, 5, 0, 5, 0, 1], &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    ];
    words(s, "tables of like variables", "LocalVariableTable", &[], 2, &VARS, 4 + more, &[]);
    words(s, "tables of like variable types", "LocalVariableTypeTable", &[], 2, &VARS, 4 + more, &[]);
    const NAMES: [&[u8]; 7] = [&[0, 0, 0, 0], &[0, 5, 0, 0], &[0, 6, 0, 0], &[0, 5, 0, 0x10], &[0, 0, 0x80, 0], &[0, 6, 0x10, 0], &[0, 0, 0x10, 0]];
    words(s, "lists of like parameters", "MethodParameters", &[], 1, &NAMES, 4 + more, &[]);
    words(s, "lists of like exceptions", "Exceptions", &[], 2, &[&[0, 0], &[0, 5], &[0, 6], &[5, 0], &[0xFF, 0xFF]], 6 + more, &[]);
    let max = if s.thorough { 4 } else { 3 };
    shapes(s, "lists of up to three tables", 0, 3, &mut |ch| {
        let loc = ch.of(&[Loc::Code, Loc::Method, Loc::Class, Loc::Field]);
        let k = 1 + ch.upto(2);
        let spec: Vec<(usize, usize)> = (0..k).map(|_| (ch.free(TABLES), ch.upto(max))).collect();
        at(loc, k, &mut |c| {
            for &(kind, n) in &spec {
                table(c, kind, n);
            }
        })
    });
    for kind in 0..TABLES {
        let sizes: Vec<usize> = if kind == 3 { (0..=255).collect() } else { SIZES.to_vec() };
        sized(s, "table sizes", &sizes, &mut |n| one(Loc::Code, &|c| table(c, kind, n)));
        sized(s, "table sizes", &sizes, &mut |n| {
            at(Loc::Method, 2, &mut |c| {
                table(c, kind, 1);
                table(c, kind, n);
            })
        });
    }
    grid(s, "long tables together", &mut |n, m| {
        at(Loc::Code, TABLES, &mut |c| {
            for k in 0..TABLES {
                let n = if k % 2 == 0 { n } else { m };
                table(c, k, if k == 3 { n.min(255) } else { n });
            }
        })
    });
    grid(s, "many tables", &mut |n, m| {
        let n = n.min(60_000);
        let m = m.min(400_000 / n);
        at(Loc::Code, n, &mut |c| {
            for k in 0..n {
                table(c, k % TABLES, if k % TABLES == 3 { m.min(255) } else { m });
            }
        })
    });
    let tp = c09_templates();
    standard(s, "C09", &tp);
}
fn c09_templates() -> Vec<Built> {
    (0..TABLES).map(|k| one(if k < 3 { Loc::Code } else { Loc::Method }, &|c| table(c, k, 2))).collect()
}

// ---------------------------------------------------------------- C10 stack maps

fn vt(c: &mut Cls, t: u8) {
    c.u1(t);
    if t == 7 || t == 8 {
        c.v2(1);
    }
}
fn frame(c: &mut Cls, f: u8, v: &mut dyn FnMut() -> u8, nl: usize, ns: usize) {
    c.u1(f);
    match f {
        64..=127 => vt(c, v()),
        247 => {
            c.v2(1);
            vt(c, v());
        }
        248..=251 => c.v2(1),
        252..=254 => {
            c.v2(1);
            for _ in 251..f {
                vt(c, v());
            }
        }
        255 => {
            c.v2(1);
            for n in [nl, ns] {
                c.u2(n as u16);
                for _ in 0..n {
                    vt(c, v());
                }
            }
        }
        _ => {}
    }
}
fn stackmap_one(c: &mut Cls, f: u8, v: &[u8]) {
    let e = c.begin("StackMapTable");
    c.u2(1);
    let mut k = 0;
    frame(
        c,
        f,
        &mut || {
            k += 1;
            v[(k - 1) % v.len()]
        },
        1,
        1,
    );
    c.end(e);
}

fn c10(s: &mut Sink) {
    let t = s.thorough;
    let more = t as u32;
    const VT: [&[u8]; 8] = [&[0], &[1], &[4], &[5], &[7, 0, 5], &[7, 0, 6], &[8, 0, 5], &[8, 0, 0]];
    words(s, "lists of like locals", "StackMapTable", &[0, 1, 255, 0, 5], 2, &VT, 4 + more, &[0, 0]);
    words(s, "lists of like stack entries", "StackMapTable", &[0, 1, 255, 0, 5, 0, 1, 7, 0, 5], 2, &VT, 4 + more, &[]);
    const FRAMES: [&[u8]; 8] = [
        &[0], &[5], &[64, 7, 0, 5], &[247, 0, 5, 1], &[250, 0, 5], &[251, 0, 5], &[252, 0, 5, 7, 0, 5], &[255, 0, 5, 0, 1, 1, 0, 1, 7, 0, 5],
    ];
    words(s, "lists of like frames", "StackMapTable", &[], 2, &FRAMES, 4 + more, &[]);
    s.phase("after every short sequence of frames");
    let mut v: Vec<Vec<u8>> = Vec::new();
    for f in (0..128u8).chain(247..=255) {
        v.push(match f {
            0..=63 => vec![f],
            64..=127 => vec![f, 1],
            247 => vec![f, 0, 5, 7, 0, 5],
            252..=254 => [&[f, 0, 5][..], &vec![1; f as usize - 251]].concat(),
            255 => vec![255, 0, 5, 0, 1, 4, 0, 2, 3, 0],
            _ => vec![f, 0, 5],
        });
    }
    let all: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    one_list_of_all(s, "StackMapTable", &[], 2, &all, &[]);
    let mut some: Vec<&[u8]> = vec![all[0], all[5], all[64], all[69]];
    some.extend(&all[128..]);
    some.extend([&[255u8, 0, 5, 0, 0, 0, 0][..], &[254, 0, 5, 7, 0, 5, 8, 0, 5, 1]]);
    one_list_of_all(s, "StackMapTable", &[], 2, &some, &[]);
    const EVERY: [&[u8]; 9] = [&[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7, 0, 5], &[8, 0, 5]];
    one_list_of_all(s, "StackMapTable", &[0, 1, 255, 0, 5], 2, &EVERY, &[0, 0]);
    one_list_of_all(s, "StackMapTable", &[0, 1, 255, 0, 5, 0, 0], 2, &EVERY, &[]);
    shapes(s, "frames by place, offset and size", 0, 3, &mut |ch| {
        at(Loc::Code, 1, &mut |c| {
            let e = c.begin("StackMapTable");
            let f = ch.of(&[247u8, 248, 249, 250, 251, 252, 253, 254, 255]);
            let before = ch.upto(4);
            let kind = ch.of(&[0u8, 64, 250, 252, 255]);
            c.u2(before as u16 + 2);
            for _ in 0..before {
                frame(c, kind, &mut || 1, 0, 0);
            }
            let from = c.body.b.len();
            let (nl, ns) = if f == 255 { (ch.upto(2), ch.upto(2)) } else { (0, 0) };
            let tag = if f == 247 || f >= 252 { ch.of(&[0u8, 1, 4, 7]) } else { 1 };
            frame(c, f, &mut || tag, nl, ns);
            let delta = ch.of(&[0u16, 1, 5, 63, 64, 65, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF]);
            c.body.b[from + 1..from + 3].copy_from_slice(&delta.to_be_bytes());
            frame(c, 0x45, &mut || 7, 0, 0);
            c.end(e);
        })
    });
    // all 256 frame types x (following frame type) x verification types
    shapes(s, "pairs of frame types", 0, 2, &mut |ch| {
        let loc = Loc::Code;
        at(loc, 1, &mut |c| {
            let e = c.begin("StackMapTable");
            let lead = ch.flag();
            c.u2(2 + lead as u16);
            if lead {
                frame(c, 0x45, &mut || 7, 0, 0);
            }
            let f = ch.free(256) as u8;
            let mut k = 0u8;
            frame(
                c,
                f,
                &mut || {
                    k += 1;
                    (k as u32 * 3 + f as u32) as u8 % 9
                },
                2,
                1,
            );
            let g = ch.of(&[0u8, 63, 64, 127, 247, 248, 249, 250, 251, 252, 253, 254, 255]);
            frame(c, g, &mut || 8, 1, 2);
            c.end(e);
        })
    });
    const KINDS: [u8; 13] = [0, 63, 64, 127, 247, 248, 249, 250, 251, 252, 253, 254, 255];
    shapes(s, "sequences of three frames", 0, 3, &mut |ch| {
        at(Loc::Code, 1, &mut |c| {
            let e = c.begin("StackMapTable");
            let n = ch.upto(if t { 4 } else { 3 });
            c.u2(n as u16);
            for i in 0..n {
                let f = ch.of(&KINDS);
                frame(c, f, &mut || [1, 7, 8, 4][i % 4], 1, 1);
            }
            c.end(e);
        })
    });
    shapes(s, "verification types", 0, 3, &mut |ch| {
        at(Loc::Code, 1, &mut |c| {
            let e = c.begin("StackMapTable");
            c.u2(2);
            let f = ch.of(&[64u8, 127, 247, 252, 253, 254]);
            frame(c, f, &mut || ch.free(10) as u8, 0, 0);
            frame(c, 0x40, &mut || 7, 0, 0);
            c.end(e);
        })
    });
    shapes(s, "full frames", 0, 4, &mut |ch| {
        at(Loc::Code, 1, &mut |c| {
            let e = c.begin("StackMapTable");
            c.u2(2);
            let nl = ch.upto(3);
            let ns = ch.upto(3);
            let six = if t { 9 } else { 5 };
            frame(c, 255, &mut || [7, 0, 8, 3, 6, 1, 2, 4, 5][ch.free(six)], nl, ns);
            frame(c, 0xF8, &mut || 7, 0, 0);
            c.end(e);
        })
    });
    shapes(s, "tags in full frames", 0, 2, &mut |ch| {
        at(Loc::Code, 1, &mut |c| {
            let e = c.begin("StackMapTable");
            c.u2(2);
            let nl = ch.upto(4);
            let ns = ch.upto(4);
            let bad = ch.free(nl + ns + 1);
            let tag = ch.free(256) as u8;
            let mut k = 0;
            frame(
                c,
                255,
                &mut || {
                    k += 1;
                    if k == bad {
                        tag
                    } else {
                        7
                    }
                },
                nl,
                ns,
            );
            frame(c, 0xF8, &mut || 7, 0, 0);
            c.end(e);
        })
    });
    for f in KINDS {
        sized(s, "number of frames", SIZES, &mut |n| {
            at(Loc::Code, 1, &mut |c| {
                let e = c.begin("StackMapTable");
                c.u2(n as u16);
                for k in 0..n {
                    frame(c, f, &mut || (k % 9) as u8, 1, 1);
                }
                c.end(e);
            })
        });
    }
    for ls in 0..3 {
        sized(s, "sizes of full frames", SIZES, &mut |n| {
            at(Loc::Code, 1, &mut |c| {
                let e = c.begin("StackMapTable");
                c.u2(2);
                let mut k = 0usize;
                let (nl, ns) = [(n, 1), (1, n), (n, n)][ls];
                frame(
                    c,
                    255,
                    &mut || {
                        k += 1;
                        (k % 9) as u8
                    },
                    nl,
                    ns,
                );
                frame(c, 1, &mut || 0, 0, 0);
                c.end(e);
            })
        });
    }
    grid(s, "long frames", &mut |n, m| {
        at(Loc::Code, 1, &mut |c| {
            let e = c.begin("StackMapTable");
            c.u2(n as u16);
            let mut k = 0usize;
            for i in 0..n {
                let (nl, ns) = [(m, 0), (0, m), (m / 2, m - m / 2)][i % 3];
                frame(
                    c,
                    255,
                    &mut || {
                        k += 1;
                        (k % 9) as u8
                    },
                    nl,
                    ns,
                );
            }
            c.end(e);
        })
    });
    let tp = c10_templates();
    standard(s, "C10", &tp);
}
fn c10_templates() -> Vec<Built> {
    let mut v: Vec<Built> = [1u8, 0x40, 247, 248, 251, 254]
        .iter()
        .map(|f| one(Loc::Code, &|c| stackmap_one(c, *f, &[7, 1, 8])))
        .collect();
    v.push(at(Loc::Code, 1, &mut |c| {
        let e = c.begin("StackMapTable");
        c.u2(3);
        frame(c, 253, &mut || 8, 0, 0);
        frame(c, 255, &mut || 7, 2, 1);
        frame(c, 250, &mut || 7, 2, 1);
        c.end(e);
    }));
    v
}

// ---------------------------------------------------------------- C11 annotations

const TAGS: [u8; 10] = *b"BCDFIJSZsc";

fn element(c: &mut Cls, tag: u8, nested: &mut dyn FnMut(&mut Cls, u8)) {
    c.u1(tag);
    match tag {
        b'e' => c.v2(2),
        b'@' | b'[' => nested(c, tag),
        _ => c.v2(1),
    }
}
/// A free choice of element value trees of depth `d`.
fn any_element(ch: &mut Ch, c: &mut Cls, d: usize, width: usize, kinds: &[u8]) {
    let leafs = kinds.len();
    let k = ch.free(if d == 0 { leafs } else { leafs + 2 });
    let tag = if k < leafs { kinds[k] } else { b"@["[k - leafs] };
    c.u1(tag);
    match tag {
        b'e' => c.v2(2),
        b'@' => any_annotation(ch, c, d - 1, width, kinds),
        b'[' => {
            let n = ch.upto(width);
            c.u2(n as u16);
            for _ in 0..n {
                any_element(ch, c, d - 1, width, kinds);
            }
        }
        _ => c.v2(1),
    }
}
fn any_annotation(ch: &mut Ch, c: &mut Cls, d: usize, width: usize, kinds: &[u8]) {
    c.v2(1);
    let n = ch.upto(width);
    c.u2(n as u16);
    for _ in 0..n {
        c.v2(1);
        any_element(ch, c, d, width, kinds);
    }
}
fn simple_annotation(c: &mut Cls, pairs: usize) {
    c.v2(1);
    c.u2(pairs as u16);
    for k in 0..pairs {
        c.v2(1);
        element(c, TAGS[k % 10], &mut |_, _| {});
    }
}
const ANN: [&str; 4] = [
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
];
fn annotations(c: &mut Cls, kind: usize, spec: &[Vec<usize>]) {
    let e = c.begin(ANN[kind]);
    if kind >= 2 {
        c.u1(spec.len() as u8);
    }
    for p in spec {
        c.u2(p.len() as u16);
        for &n in p {
            simple_annotation(c, n);
        }
    }
    c.end(e);
}

fn nested(c: &mut Cls, depth: usize, arrays: &dyn Fn(usize) -> bool) {
    let e = c.begin("AnnotationDefault");
    for d in 0..depth {
        if arrays(d) {
            c.u1(b'[');
            c.u2(1);
        } else {
            c.u1(b'@');
            c.v2(1);
            c.u2(1);
            c.v2(1);
        }
    }
    c.u1(b's');
    c.v2(1);
    c.end(e);
}

fn c11(s: &mut Sink) {
    let t = s.thorough;
    let more = t as u32;
    const VALUES: [&[u8]; 9] = [
        b"s\0\x05", b"s\0\x06", b"I\0\x05", b"Z\0\0", b"c\0\x05", b"e\0\x05\0\x05", b"e\0\x05\0\x06", b"@\0\x05\0\0", b"[\0\0",
    ];
    words(s, "arrays of like elements", "AnnotationDefault", b"[", 2, &VALUES, 4 + more, &[]);
    words(s, "arrays of like elements in an annotation", ANN[0], b"\0\x02\0\x05\0\x01\0\x06[", 2, &VALUES, 3 + more, b"\0\x05\0\0");
    // arrays of one kind of value, in every order
    for tag in *b"BCDFIJSZsc" {
        let v: Vec<Vec<u8>> = [5u8, 6, 7, 0].iter().map(|x| vec![tag, 0, *x]).collect();
        let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        words(s, "arrays of one kind of value", "AnnotationDefault", b"[", 2, &v, 5, &[]);
    }
    let v: [&[u8]; 4] = [b"e\0\x05\0\x05", b"e\0\x05\0\x06", b"e\0\x06\0\x05", b"e\0\x06\0\x06"];
    words(s, "arrays of one kind of value", "AnnotationDefault", b"[", 2, &v, 5, &[]);
    let v: [&[u8]; 4] = [b"[\0\0", b"[\0\x01I\0\x05", b"[\0\x01I\0\x06", b"[\0\x02I\0\x05I\0\x06"];
    words(s, "arrays of one kind of value", "AnnotationDefault", b"[", 2, &v, 5, &[]);
    let v: [&[u8]; 4] = [b"@\0\x05\0\0", b"@\0\x06\0\0", b"@\0\x05\0\x01\0\x05I\0\x05", b"@\0\x05\0\x01\0\x05I\0\x06"];
    words(s, "arrays of one kind of value", "AnnotationDefault", b"[", 2, &v, 5, &[]);
    s.phase("after every short sequence of values");
    const EVERY: [&[u8]; 15] = [
        b"B\0\x05", b"C\0\x05", b"D\0\x05", b"F\0\x05", b"I\0\x05", b"J\0\x05", b"S\0\x05", b"Z\0\x05", b"s\0\x05", b"c\0\x05",
        b"e\0\x05\0\x06", b"@\0\x05\0\0", b"@\0\x05\0\x01\0\x05I\0\x05", b"[\0\0", b"[\0\x01I\0\x05",
    ];
    one_list_of_all(s, "AnnotationDefault", b"[", 2, &EVERY, &[]);
    let v: Vec<Vec<u8>> = EVERY.iter().map(|x| [b"\0\x05", *x].concat()).collect();
    let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    one_list_of_all(s, ANN[0], b"\0\x01\0\x05", 2, &v, &[]);
    one_list_of_all(s, ANN[3], b"\x01\0\x01\0\x05", 2, &v, &[]);
    let v: Vec<Vec<u8>> = EVERY.iter().map(|x| [b"\0\x05\0\x01\0\x05", *x].concat()).collect();
    let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    one_list_of_all(s, ANN[1], b"", 2, &v, &[]);
    one_list_of_all(s, ANN[2], b"\x02\0\0", 2, &v, &[]);
    const PAIRS: [&[u8]; 8] = [
        b"\0\x05s\0\x05", b"\0\x06s\0\x05", b"\0\x05s\0\x06", b"\0\x05I\0\x05", b"\0\x06[\0\0", b"\0\x05[\0\x01s\0\x05",
        b"\0\x05@\0\x05\0\0", b"\0\0e\0\0\0\0",
    ];
    words(s, "lists of like pairs", ANN[0], b"\0\x01\0\x05", 2, &PAIRS, 4 + more, &[]);
    words(s, "lists of like pairs, invisible", ANN[1], b"\0\x01\0\x05", 2, &PAIRS, 3 + more, &[]);
    words(s, "lists of like pairs in a nested annotation", "AnnotationDefault", b"@\0\x05", 2, &PAIRS, 3 + more, &[]);
    const ANNS: [&[u8]; 7] = [
        b"\0\x05\0\0", b"\0\x06\0\0", b"\0\x05\0\x01\0\x05s\0\x05", b"\0\x05\0\x01\0\x06s\0\x05", b"\0\x05\0\x01\0\x05I\0\x06",
        b"\0\0\0\0", b"\0\x05\0\x02\0\x05[\0\0\0\x05[\0\0",
    ];
    for (k, n) in ANN.iter().enumerate() {
        words(s, "lists of like annotations", n, if k < 2 { &[] } else { &[1] }, 2, &ANNS, 3 + more + (k == 0) as u32, &[]);
    }
    const PARAMS: [&[u8]; 6] = [
        b"\0\0", b"\0\x01\0\x05\0\0", b"\0\x01\0\x06\0\0", b"\0\x02\0\x05\0\0\0\x05\0\0", b"\0\x02\0\x05\0\0\0\x06\0\0",
        b"\0\x01\0\x05\0\x01\0\x05s\0\x05",
    ];
    for n in &ANN[2..] {
        words(s, "lists of like parameters", n, &[], 1, &PARAMS, 4 + more, &[]);
    }
    for kind in 2..4 {
        shapes(s, "number of annotations by parameter", 0, 3, &mut |ch| {
            let n = ch.upto(if t { 5 } else { 4 });
            let spec: Vec<Vec<usize>> = (0..n).map(|_| vec![0; ch.upto(4)]).collect();
            one(Loc::Method, &|c| annotations(c, kind, &spec))
        });
    }
    shapes(s, "lists of annotation attributes", 0, 4, &mut |ch| {
        let loc = ch.of(&[Loc::Class, Loc::Method, Loc::Field, Loc::Code]);
        let k = 1 + ch.upto(1);
        at(loc, k, &mut |c| {
            for _ in 0..k {
                let kind = ch.free(4);
                let spec: Vec<Vec<usize>> = if kind < 2 {
                    vec![(0..ch.upto(2)).map(|_| ch.upto(2)).collect()]
                } else {
                    (0..ch.upto(if t { 3 } else { 2 }))
                        .map(|_| (0..ch.upto(2)).map(|_| ch.upto(1)).collect())
                        .collect()
                };
                annotations(c, kind, &spec);
            }
        })
    });
    shapes(s, "parameter annotations", 0, 4, &mut |ch| {
        let kind = 2 + ch.free(2);
        let spec: Vec<Vec<usize>> =
            (0..ch.upto(3)).map(|_| (0..ch.upto(2)).map(|_| ch.upto(2)).collect()).collect();
        one(Loc::Method, &|c| annotations(c, kind, &spec))
    });
    let kinds: &[u8] = b"BCDFIJSZsce";
    shapes(s, "element value trees, all kinds", 0, 2, &mut |ch| {
        at(Loc::Method, 1, &mut |c| {
            let e = c.begin("AnnotationDefault");
            any_element(ch, c, if t { 3 } else { 2 }, if t { 1 } else { 2 }, if t { b"BCDFIJSZsce" } else { b"Bse" });
            c.end(e);
        })
    });
    shapes(s, "pairs of element values", 0, 2, &mut |ch| {
        let kind = ch.free(2);
        at(Loc::Field, 1, &mut |c| {
            let e = c.begin(ANN[kind]);
            c.u2(1);
            any_annotation(ch, c, 1, 2, kinds);
            c.end(e);
        })
    });
    shapes(s, "deep trees", 0, 4, &mut |ch| {
        at(Loc::Class, 1, &mut |c| {
            let e = c.begin("RuntimeVisibleAnnotations");
            c.u2(1);
            any_annotation(ch, c, if t { 4 } else { 3 }, 1, if t { b"Ie" } else { b"Ice" });
            c.end(e);
        })
    });
    shapes(s, "wide trees", 0, 4, &mut |ch| {
        at(Loc::Class, 1, &mut |c| {
            let e = c.begin("RuntimeInvisibleAnnotations");
            c.u2(1);
            c.v2(1);
            c.u2(1);
            c.v2(1);
            any_element(ch, c, 2, if t { 3 } else { 2 }, if t { b"Z" } else { b"Ze" });
            c.end(e);
        })
    });
    shapes(s, "element tags", 0, 1, &mut |ch| {
        at(Loc::Class, 1, &mut |c| {
            let e = c.begin("RuntimeVisibleAnnotations");
            c.u2(1);
            c.v2(1);
            let n = 1 + ch.upto(3);
            let which = ch.free(n);
            let tag = ch.free(256) as u8;
            c.u2(n as u16);
            for k in 0..n {
                c.v2(1);
                element(c, if k == which { tag } else { b'I' }, &mut |c, t| {
                    if t == b'[' {
                        c.u2(1);
                        c.u1(b'c');
                        c.v2(1);
                    } else {
                        c.v2(1);
                        c.u2(0);
                    }
                });
            }
            c.end(e);
        })
    });
    // every alternation of arrays and annotations up to the guaranteed depth
    s.phase("nesting patterns to depth 16");
    for depth in 1..=16usize {
        let patterns: Vec<u32> = if depth <= 10 || t {
            (0..1u32 << depth).collect()
        } else {
            let m = (1u32 << depth) - 1;
            (0..=depth as u32).flat_map(|k| [(1u32 << k) - 1, m & !((1 << k) - 1), 0x5555_5555 & m, 0xAAAA & m]).collect()
        };
        for p in patterns {
            if s.mine() {
                let b = one(Loc::Method, &|c| nested(c, depth, &|d| p >> d & 1 == 1));
                if !s.case(&b.b) {
                    return;
                }
            }
        }
    }
    for kind in 0..4 {
        sized(s, "number of annotations", SIZES, &mut |n| {
            one(Loc::Class, &|c| annotations(c, kind, &[vec![(n % 3).min(1); n], vec![1]][..1 + (kind > 1) as usize]))
        });
        sized(s, "number of pairs", SIZES, &mut |n| {
            one(Loc::Class, &|c| annotations(c, kind, &[vec![0, n, 1]]))
        });
    }
    let all: Vec<usize> = (0..=255).collect();
    for kind in 2..4 {
        sized(s, "number of parameters", &all, &mut |n| {
            one(Loc::Method, &|c| annotations(c, kind, &(0..n).map(|k| vec![0; k % 3]).collect::<Vec<_>>()))
        });
    }
    sized(s, "array sizes", SIZES, &mut |n| {
        one(Loc::Method, &|c| {
            let e = c.begin("AnnotationDefault");
            c.u1(b'[');
            c.u2(n as u16);
            for k in 0..n {
                element(c, TAGS[k % 10], &mut |_, _| {});
            }
            c.end(e);
        })
    });
    grid(s, "long lists of long annotations", &mut |n, m| one(Loc::Class, &|c| annotations(c, 0, &[vec![m; n]])));
    grid(s, "parameters with long annotations", &mut |n, m| {
        let (n, m) = (n.min(255), m.min(60_000));
        one(Loc::Method, &|c| annotations(c, 3, &(0..n).map(|k| vec![k % 3; m]).collect::<Vec<_>>()))
    });
    for kind in 0..3 {
        grid(s, "arrays of arrays", &mut |n, m| {
            one(Loc::Method, &|c| {
                let e = c.begin("AnnotationDefault");
                c.u1(b'[');
                c.u2(n as u16);
                for i in 0..n {
                    match kind {
                        // lists of lists; of annotations; of nestings as deep as they may be
                        0 => {
                            c.u1(b'[');
                            c.u2(m as u16);
                            for k in 0..m {
                                element(c, TAGS[(i + k) % 10], &mut |_, _| {});
                            }
                        }
                        1 => {
                            c.u1(b'@');
                            simple_annotation(c, m);
                        }
                        _ => {
                            for k in 0..m.min(14) {
                                if (i + k) % 2 == 0 {
                                    c.u1(b'[');
                                    c.u2(1);
                                } else {
                                    c.u1(b'@');
                                    c.v2(1);
                                    c.u2(1);
                                    c.v2(1);
                                }
                            }
                            element(c, b'I', &mut |_, _| {});
                        }
                    }
                }
                c.end(e);
            })
        });
    }
    let tp = c11_templates();
    standard(s, "C11", &tp);
}
fn c11_templates() -> Vec<Built> {
    let mut v = Vec::new();
    for kind in 0..4 {
        v.push(one(Loc::Method, &|c| annotations(c, kind, &[vec![1, 2]])));
    }
    v.push(one(Loc::Method, &|c| nested(c, 2, &|d| d == 0)));
    v.push(one(Loc::Method, &|c| nested(c, 2, &|d| d == 1)));
    v.push(at(Loc::Class, 1, &mut |c| {
        let e = c.begin("RuntimeVisibleAnnotations");
        c.u2(1);
        c.v2(1);
        c.u2(2);
        c.v2(1);
        element(c, b'e', &mut |_, _| {});
        c.v2(1);
        c.u1(b'[');
        c.u2(2);
        element(c, b'c', &mut |_, _| {});
        element(c, b'J', &mut |_, _| {});
        c.end(e);
    }));
    v
}

// ---------------------------------------------------------------- C12 type annotations

const TARGETS: [u8; 22] = [
    0x00, 0x01, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47,
    0x48, 0x49, 0x4A, 0x4B,
];
fn target(c: &mut Cls, t: u8, table: usize) {
    c.u1(t);
    let v = c.val8();
    match t {
        0x00 | 0x01 | 0x16 => c.u1(v),
        0x10 | 0x17 | 0x42..=0x46 => c.v2(1),
        0x11 | 0x12 => {
            c.u1(v);
            let v = c.val8();
            c.u1(v);
        }
        0x40 | 0x41 => {
            c.u2(table as u16);
            c.v2(3 * table);
        }
        0x47..=0x4B => {
            c.v2(1);
            c.u1(v);
        }
        _ => {}
    }
}
fn path(c: &mut Cls, kinds: &[u8]) {
    c.u1(kinds.len() as u8);
    for &k in kinds {
        c.u1(k);
        let v = c.val8();
        c.u1(v);
    }
}
const TANN: [&str; 2] = ["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];

fn type_annotations(c: &mut Cls, kind: usize, spec: &[(u8, usize, Vec<u8>, usize)]) {
    let e = c.begin(TANN[kind]);
    c.u2(spec.len() as u16);
    for (t, n, p, a) in spec {
        target(c, *t, *n);
        path(c, p);
        simple_annotation(c, *a);
    }
    c.end(e);
}

fn c12(s: &mut Sink) {
    let t = s.thorough;
    let more = t as u32;
    const ROWS: [&[u8]; 6] = [&[0, 0, 0, 0, 0, 0], &[0, 5, 0, 5, 0, 5], &[0, 5, 0, 1, 0, 0], &[0, 5, 0, 1, 0, 1], &[0, 6, 0, 1, 0, 0], &[0, 0, 0, 5, 0, 5]];
    words(s, "tables of like rows", TANN[0], &[0, 1, 0x40], 2, &ROWS, 4 + more, &[0, 0, 5, 0, 0]);
    words(s, "tables of like rows, invisible", TANN[1], &[0, 1, 0x41], 2, &ROWS, 3 + more, &[0, 0, 5, 0, 0]);
    const STEPS: [&[u8]; 6] = [&[0, 0], &[1, 0], &[2, 0], &[3, 0], &[3, 1], &[3, 0xFF]];
    words(s, "paths of like steps", TANN[0], &[0, 1, 0x13], 1, &STEPS, 5 + more, &[0, 5, 0, 0]);
    words(s, "paths of like steps, invisible", TANN[1], &[0, 1, 0x16, 1], 1, &STEPS, 4 + more, &[0, 5, 0, 0]);
    const MORE: [&[u8]; 16] = [
        &[0, 0], &[0, 1], &[0, 5], &[0, 0xFF], &[1, 0], &[1, 1], &[1, 5], &[1, 0xFF], &[2, 0], &[2, 1], &[2, 5], &[2, 0xFF], &[3, 0], &[3, 1],
        &[3, 5], &[3, 0xFF],
    ];
    words(s, "paths with arguments", TANN[0], &[0, 1, 0x14], 1, &MORE, 4, &[0, 5, 0, 0]);
    words(s, "paths with arguments, invisible", TANN[1], &[0, 1, 0x17, 0, 5], 1, &MORE, 3 + more, &[0, 5, 0, 0]);
    const TANNS: [&[u8]; 9] = [
        &[0x13, 0, 0, 5, 0, 0], &[0x13, 0, 0, 6, 0, 0], &[0x14, 0, 0, 5, 0, 0], &[0, 0, 0, 0, 5, 0, 0], &[0x13, 1, 3, 0, 0, 5, 0, 0],
        &[0x40, 0, 1, 0, 5, 0, 5, 0, 5, 0, 0, 5, 0, 0], &[0x10, 0, 5, 0, 0, 5, 0, 0], &[0x13, 0, 0, 5, 0, 1, 0, 5, b's', 0, 5],
        &[0x47, 0, 5, 0, 0, 0, 5, 0, 0],
    ];
    for k in 0..2 {
        words(s, "lists of like type annotations", TANN[k], &[], 2, &TANNS, 4 - k as u32 + more, &[]);
    }
    s.phase("after every short sequence of type annotations");
    let mut v: Vec<Vec<u8>> = Vec::new();
    for &tag in &TARGETS {
        for path in [&[0u8][..], &[1, 0, 0], &[1, 3, 1], &[2, 0, 0, 3, 0]] {
            for ann in [&[0u8, 5, 0, 0][..], &[0, 5, 0, 1, 0, 5, b'I', 0, 5]] {
                let operand: &[u8] = match tag {
                    0x00 | 0x01 | 0x16 => &[1],
                    0x13..=0x15 => &[],
                    0x40 | 0x41 => &[0, 1, 0, 1, 0, 5, 0, 5],
                    0x47..=0x4B => &[0, 5, 1],
                    _ => &[0, 5],
                };
                v.push([&[tag], operand, path, ann].concat());
            }
        }
    }
    let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    for k in 0..2 {
        one_list_of_all(s, TANN[k], &[], 2, &v, &[]);
        let v: Vec<&[u8]> = v.iter().copied().step_by(8).collect();
        one_list_of_all(s, TANN[k], &[], 2, &v, &[]);
    }
    // and any two of them on their own
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            if s.mine() {
                let x = at(LOCS[(i + j) % 4], 1, &mut |c| {
                    let e = c.begin(TANN[(i + j) / 4 % 2]);
                    c.u2(2);
                    c.body.raw(a);
                    c.body.raw(b);
                    c.end(e);
                });
                if !s.case(&x.b) {
                    return;
                }
            }
        }
    }
    shapes(s, "targets x paths x annotations", 0, 2, &mut |ch| {
        let loc = ch.of(&[Loc::Code, Loc::Field, Loc::Method, Loc::Class]);
        let kind = ch.free(2);
        let target = ch.of(&TARGETS);
        let n = if target == 0x40 || target == 0x41 { ch.upto(4) } else { 0 };
        let p = (0..ch.upto(3)).map(|_| ch.free(4) as u8).collect();
        let spec = [(target, n, p, ch.upto(2))];
        one(loc, &|c| type_annotations(c, kind, &spec))
    });
    shapes(s, "pairs of type annotations", 0, 2, &mut |ch| {
        let kind = ch.free(2);
        let spec: Vec<_> = (0..2)
            .map(|_| {
                let target = ch.of(&TARGETS);
                let n = if target == 0x40 || target == 0x41 { ch.upto(2) } else { 0 };
                let p: Vec<u8> = (0..ch.upto(if t { 2 } else { 1 })).map(|_| 3).collect();
                (target, n, p, ch.upto(1))
            })
            .collect();
        one(Loc::Code, &|c| type_annotations(c, kind, &spec))
    });
    shapes(s, "triples of targets", 0, 2, &mut |ch| {
        let spec: Vec<_> = (0..3).map(|_| (ch.of(&TARGETS), 1, vec![1u8], 0)).collect();
        one(Loc::Code, &|c| type_annotations(c, 0, &spec))
    });
    shapes(s, "target tags and path kinds", 0, 2, &mut |ch| {
        let which = ch.free(2);
        let v = ch.free(256) as u8;
        let pos = ch.free(3);
        let mut kinds = vec![1u8, 0, 2];
        if which == 1 {
            kinds[pos] = v;
        }
        let mut spec = vec![(0x13u8, 0, kinds.clone(), 1); 3];
        if which == 0 {
            spec[pos].0 = v;
        }
        one(Loc::Code, &|c| type_annotations(c, 1, &spec))
    });
    shapes(s, "paths", 0, 2, &mut |ch| {
        let p: Vec<u8> = (0..ch.upto(if t { 7 } else { 5 })).map(|_| ch.free(4) as u8).collect();
        one(Loc::Field, &|c| type_annotations(c, 0, &[(0x13, 0, p.clone(), 1)]))
    });
    for target in [0x40u8, 0x41] {
        sized(s, "local variable target tables", SIZES, &mut |n| {
            one(Loc::Code, &|c| type_annotations(c, 0, &[(target, n, vec![0], 1), (0x44, 0, vec![], 0)]))
        });
    }
    let all: Vec<usize> = (0..=255).collect();
    sized(s, "path lengths", &all, &mut |n| {
        one(Loc::Code, &|c| {
            type_annotations(c, 1, &[(0x43, 0, (0..n).map(|k| (k % 4) as u8).collect(), 1), (0x15, 0, vec![], 0)])
        })
    });
    for kind in 0..2 {
        sized(s, "number of type annotations", SIZES, &mut |n| {
            one(Loc::Code, &|c| {
                type_annotations(
                    c,
                    kind,
                    &(0..n).map(|k| (TARGETS[k % 22], k % 3, vec![(k % 4) as u8; k % 2], k % 2)).collect::<Vec<_>>(),
                )
            })
        });
    }
    grid(s, "long lists of long type annotations", &mut |n, m| {
        one(Loc::Code, &|c| {
            let e = c.begin(TANN[n % 2]);
            c.u2(n as u16);
            for k in 0..n {
                let (t, l, p, a) = [(0x40, m, 1, 0), (0x13, 0, m.min(255), 1), (0x47, 0, 0, m)][k % 3];
                target(c, t, l);
                path(c, &(0..p).map(|i| (i % 4) as u8).collect::<Vec<_>>());
                simple_annotation(c, a);
            }
            c.end(e);
        })
    });
    let tp = c12_templates();
    standard(s, "C12", &tp);
}
fn c12_templates() -> Vec<Built> {
    let mut v: Vec<Built> = TARGETS
        .iter()
        .map(|t| one(Loc::Code, &|c| type_annotations(c, (*t & 1) as usize, &[(*t, 1, vec![3], 0)])))
        .collect();
    v.push(one(Loc::Code, &|c| {
        type_annotations(c, 0, &[(0x40, 2, vec![0, 1], 1), (0x47, 0, vec![], 0)])
    }));
    v
}

// ---------------------------------------------------------------- C13 class attributes

fn inner(c: &mut Cls, n: usize) {
    let e = c.begin("InnerClasses");
    c.u2(n as u16);
    c.v2(4 * n);
    c.end(e);
}
fn bootstrap(c: &mut Cls, args: &[usize]) {
    let e = c.begin("BootstrapMethods");
    c.u2(args.len() as u16);
    for &a in args {
        c.v2(1);
        c.u2(a as u16);
        c.v2(a);
    }
    c.end(e);
}
const SIMPLE: [&str; 8] = [
    "ConstantValue",
    "Signature",
    "SourceFile",
    "Deprecated",
    "Synthetic",
    "EnclosingMethod",
    "SourceDebugExtension",
    "ModuleMainClass",
];
fn simple(c: &mut Cls, k: usize) {
    let e = c.begin(SIMPLE[k]);
    match k {
        0..=2 | 7 => c.v2(1),
        5 => c.v2(2),
        6 => c.body.raw("dbg \u{1F600}\0 x".chars().fold(Vec::new(), |mut v, ch| {
            crate::mutf8::encode(&ch.to_string(), &mut v);
            v
        }).as_slice()),
        _ => {}
    }
    c.end(e);
}
fn class_attr(c: &mut Cls, k: usize, args: &mut dyn FnMut() -> Vec<usize>) {
    match k {
        0..=6 => simple(c, k),
        7 => {
            let n = args().len();
            inner(c, n);
        }
        _ => bootstrap(c, &args()),
    }
}

fn c13(s: &mut Sink) {
    let more = s.thorough as u32;
    const INNER: [&[u8]; 7] = [
        &[0, 5, 0, 6, 0, 7, 0, 8], &[0, 5, 0, 6, 0, 7, 0, 9], &[0, 5, 0, 0, 0, 7, 0, 8], &[0, 5, 0, 0, 0, 0, 0, 8], &[0, 6, 0, 5, 0, 7, 0, 8],
        &[0, 5, 0, 5, 0, 5, 0, 0], &[0, 0, 0, 0, 0, 0, 0, 0],
    ];
    words(s, "lists of like inner classes", "InnerClasses", &[], 2, &INNER, 4 + more, &[]);
    const BOOT: [&[u8]; 8] = [
        &[0, 5, 0, 0], &[0, 6, 0, 0], &[0, 5, 0, 1, 0, 5], &[0, 5, 0, 1, 0, 6], &[0, 6, 0, 1, 0, 5], &[0, 5, 0, 2, 0, 5, 0, 5], &[0, 5, 0, 2, 0, 5, 0, 6],
        &[0, 0, 0, 1, 0, 0],
    ];
    words(s, "lists of like bootstrap methods", "BootstrapMethods", &[], 2, &BOOT, 4 + more, &[]);
    words(s, "lists of like bootstrap arguments", "BootstrapMethods", &[0, 2, 0, 5], 2, &[&[0, 5], &[0, 6], &[0, 0], &[5, 0]], 6 + more, &[0, 5, 0, 0]);
    let t = s.thorough;
    shapes(s, "lists of up to three attributes", 0, 3, &mut |ch| {
        let loc = ch.of(&LOCS);
        let k = 1 + ch.upto(2);
        at(loc, k, &mut |c| {
            for _ in 0..k {
                let which = ch.free(9);
                class_attr(c, which, &mut || (0..ch.upto(2)).map(|x| x + 1).collect());
            }
        })
    });
    shapes(s, "bootstrap methods", 0, 3, &mut |ch| {
        let n = ch.upto(if t { 5 } else { 4 });
        let args: Vec<usize> = (0..n).map(|_| ch.upto(if t { 5 } else { 4 })).collect();
        one(Loc::Class, &|c| bootstrap(c, &args))
    });
    sized(s, "inner classes", SIZES, &mut |n| one(Loc::Class, &|c| inner(c, n)));
    sized(s, "bootstrap methods", SIZES, &mut |n| {
        one(Loc::Class, &|c| bootstrap(c, &(0..n).map(|k| k % 4).collect::<Vec<_>>()))
    });
    for others in 0..3 {
        sized(s, "bootstrap arguments", SIZES, &mut |n| {
            one(Loc::Class, &|c| bootstrap(c, &[vec![n], vec![1, n, 2], vec![n, 3, n]][others]))
        });
    }
    sized(s, "source debug extension", SIZES, &mut |n| debug_ext(n));
    sized(s, "source debug extension beyond 64K", &[65536, 65537, 70000, 131_072, 200_001, 1 << 20], &mut |n| {
        debug_ext(n)
    });
    s.phase("source debug extensions that start or end with a notable character");
    for n in (0..40usize).chain([100, 254, 255, 256, 257, 1000, 4096, 65_533, 65_534, 65_535, 65_536, 65_537, 70_000]) {
        for ch in ['\0', '\t', '\n', '\r', ' ', 'a', '*', '.', '/', ';', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{feff}', '\u{ffff}', '\u{10000}'] {
            if !s.mine() {
                continue;
            }
            let mut x = Vec::new();
            crate::mutf8::encode(&ch.to_string(), &mut x);
            for k in 0..6 {
                let b = one(LOCS[k % 4], &|c| {
                    let e = c.begin("SourceDebugExtension");
                    if k != 1 {
                        c.body.raw(&x);
                    }
                    if k == 3 {
                        c.body.raw(&x);
                    }
                    c.body.raw(&vec![if k == 5 { b'\n' } else { b'd' }; n]);
                    if k > 0 {
                        c.body.raw(&x);
                    }
                    if k == 4 {
                        c.body.raw(&x);
                    }
                    c.end(e);
                });
                if !s.case(&b.b) {
                    return;
                }
            }
        }
    }
    attribute_histories(s);
    links(s, &[Link::Inner, Link::Bootstrap], if s.thorough { 6 } else { 5 });
    // names that are nearly the known ones are unknown attributes
    s.phase("names close to known names");
    for name in all_names() {
        for v in near(name) {
            if s.mine() {
                let b = at(Loc::Class, 1, &mut |c| {
                    let e = c.begin(&v);
                    c.v2(2);
                    c.end(e);
                });
                if !s.case(&b.b) {
                    return;
                }
            }
        }
    }
    grid(s, "long lists of long bootstrap methods", &mut |n, m| one(Loc::Class, &|c| bootstrap(c, &vec![m; n])));
    grid(s, "long lists together", &mut |n, m| {
        at(Loc::Class, 3, &mut |c| {
            inner(c, n);
            bootstrap(c, &vec![1; m]);
            inner(c, m);
        })
    });
    let tp = c13_templates();
    standard(s, "C13", &tp);
}
fn debug_ext(n: usize) -> Built {
    one(Loc::Class, &|c| {
        let e = c.begin("SourceDebugExtension");
        let b: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
        c.body.raw(&b);
        c.end(e);
    })
}
pub fn all_names() -> Vec<&'static str> {
    vec![
        "AnnotationDefault", "BootstrapMethods", "Code", "ConstantValue", "Deprecated", "EnclosingMethod",
        "Exceptions", "InnerClasses", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable",
        "MethodParameters", "Module", "ModuleMainClass", "ModulePackages", "RuntimeVisibleAnnotations",
        "RuntimeInvisibleAnnotations", "RuntimeVisibleParameterAnnotations",
        "RuntimeInvisibleParameterAnnotations", "RuntimeVisibleTypeAnnotations",
        "RuntimeInvisibleTypeAnnotations", "SourceFile", "Signature", "StackMapTable", "Synthetic",
        "SourceDebugExtension",
    ]
}
/// Names that are in use for attributes but are not known here, and names of many shapes.
pub fn foreign_names() -> Vec<String> {
    let mut v: Vec<String> = [
        "NestHost", "NestMembers", "Record", "PermittedSubclasses", "LoadableDescriptors", "Preload",
        "ModuleTarget", "ModuleHashes", "ModuleResolution", "ModuleVersion", "ModulePackage", "StackMap",
        "CompilationID", "SourceID", "CharacterRangeTable", "CoverageTable", "LocalVariableTypes", "Varargs",
        "Bridge", "Enum", "Annotation", "AnnotationTag", "RuntimeAnnotations", "RuntimeVisibleParameters",
        "MethodParameterTypes", "Scala", "ScalaSig", "ScalaInlineInfo", "TASTY", "Kotlin", "GroovyAST",
        "RemoteClass", "RemoteInterface", "Checksum", "PMGClass", "jbcrs", "TypeAnnotations",
        "org.aspectj.weaver.WeaverState", "org.aspectj.weaver.MethodDeclarationLineNumber",
        "org/aspectj/weaver/Aspect", "org/eclipse/Foo", "com.ibm.CompilerInfo", "com/example/Attr",
        "java/lang/Deprecated", "java.lang.Synthetic", "jdk/internal/Foo", "sun/misc/Foo", "javax/Foo",
        "edu/umd/X", "net.minecraft.X", "io/X", "de.X", "Ljava/lang/String;", "[I", "()V", "<init>", "<clinit>",
        "this$0", "$", "_", "-", ".", "/", ":", ";", "#", "@", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}",
        "\u{10ffff}", "1", "0", "-1", "Code2", "Code.Foo", "Code/Foo", "Unknown", "Attribute", "Class", "Field", "Method",
    ]
    .iter()
    .map(|x| (*x).to_owned())
    .collect();
    for c in b'!'..=b'~' {
        v.push(format!("{}Attribute", c as char));
        v.push(format!("{}", c as char));
        v.push(format!("Name{}", c as char));
        v.push(format!("Na{}me", c as char));
    }
    for n in (0..70).chain([127, 128, 129, 255, 256, 257, 1000]) {
        v.push("N".repeat(n));
        v.push("\u{e9}".repeat(n));
    }
    for sep in [":", ".", "/", " ", "$", "-", "_", ";", "#", "@", "|", "\\", "!", "::", "\0", "\u{e9}"] {
        for known in all_names() {
            v.push(format!("x{}{}", sep, known));
            v.push(format!("{}{}x", known, sep));
            v.push(format!("{}{}", sep, known));
            v.push(format!("{}{}", known, sep));
        }
        v.push(format!("{}Code{}Code", sep, sep));
        v.push(format!("java{}lang{}Code", sep, sep));
        v.push(format!("Code{}Deprecated", sep));
    }
    for (a, b) in [("<", ">"), ("[", "]"), ("(", ")"), ("{", "}"), ("\"", "\""), ("L", ";"), ("'", "'")] {
        for known in all_names() {
            v.push(format!("{}{}{}", a, known, b));
        }
    }
    for known in all_names() {
        v.push(format!("{}{}", known, known));
        v.push(known.chars().rev().collect());
        v.push(format!("{}Attribute", known));
        v.push(format!("{}_attribute", known));
        v.push(format!("{}2", known));
        for other in ["Deprecated", "Code", "Synthetic"] {
            v.push(format!("{}{}", known, other));
        }
    }
    v.retain(|x| !all_names().contains(&x.as_str()));
    v.sort();
    v.dedup();
    v
}
/// Names at edit distance one, case variants, and prefixes of a name.
pub fn near(name: &str) -> Vec<String> {
    let mut v = vec![name.to_lowercase(), name.to_uppercase(), format!("{} ", name), format!(" {}", name)];
    for k in 0..name.len() {
        v.push(name[..k].to_owned());
        v.push(format!("{}{}", &name[..k], &name[k + 1..]));
        v.push(format!("{}X{}", &name[..k], &name[k + 1..]));
        v.push(format!("{}x{}", &name[..k], &name[k..]));
    }
    v.push(format!("{}s", name));
    v.push(format!("{}\0", name));
    v.retain(|x| !all_names().contains(&x.as_str()));
    v
}
fn c13_templates() -> Vec<Built> {
    let mut v: Vec<Built> = (0..7).map(|k| one(LOCS[k % 4], &|c| simple(c, k))).collect();
    v.push(one(Loc::Class, &|c| inner(c, 2)));
    v.push(one(Loc::Class, &|c| bootstrap(c, &[1, 0, 2])));
    v
}

// ---------------------------------------------------------------- C14 modules

fn module(c: &mut Cls, requires: usize, exports: &[usize], opens: &[usize], uses: usize, provides: &[usize]) {
    let e = c.begin("Module");
    c.v2(3);
    c.u2(requires as u16);
    c.v2(3 * requires);
    for t in [exports, opens] {
        c.u2(t.len() as u16);
        for &n in t {
            c.v2(2);
            c.u2(n as u16);
            c.v2(n);
        }
    }
    c.u2(uses as u16);
    c.v2(uses);
    c.u2(provides.len() as u16);
    for &n in provides {
        c.v2(1);
        c.u2(n as u16);
        c.v2(n);
    }
    c.end(e);
}

fn c14(s: &mut Sink) {
    let more = s.thorough as u32;
    const REQ: [&[u8]; 8] = [
        &[0, 5, 0, 0, 0, 0], &[0, 5, 0, 0, 0, 5], &[0, 6, 0, 0, 0, 5], &[0, 5, 0x80, 0, 0, 0], &[0, 6, 0x80, 0, 0, 0], &[0, 5, 0, 0x20, 0, 6],
        &[0, 0, 0, 0, 0, 0], &[0, 5, 0, 5, 0, 5],
    ];
    words(s, "lists of like requirements", "Module", &[0, 5, 0, 0, 0, 5], 2, &REQ, 4 + more, &[0, 0, 0, 0, 0, 0, 0, 0]);
    const EXP: [&[u8]; 8] = [
        &[0, 5, 0, 0, 0, 0], &[0, 6, 0, 0, 0, 0], &[0, 5, 0x10, 0, 0, 0], &[0, 5, 0, 0, 0, 1, 0, 5], &[0, 5, 0, 0, 0, 1, 0, 6], &[0, 5, 0, 0, 0, 2, 0, 5, 0, 5],
        &[0, 6, 0, 0, 0, 1, 0, 5], &[0, 0, 0, 0, 0, 1, 0, 0],
    ];
    words(s, "lists of like exports", "Module", &[0, 5, 0, 0, 0, 5, 0, 0], 2, &EXP, 4 + more, &[0, 0, 0, 0, 0, 0]);
    words(s, "lists of like opens", "Module", &[0, 5, 0, 0, 0, 5, 0, 0, 0, 1, 0, 5, 0, 0, 0, 0], 2, &EXP, 4 + more, &[0, 0, 0, 0]);
    words(s, "lists of like uses", "Module", &[0, 5, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0], 2, &[&[0, 5], &[0, 6], &[0, 0], &[5, 0]], 6 + more, &[0, 1, 0, 5, 0, 1, 0, 5]);
    const PRO: [&[u8]; 7] = [
        &[0, 5, 0, 0], &[0, 6, 0, 0], &[0, 5, 0, 1, 0, 5], &[0, 5, 0, 1, 0, 6], &[0, 6, 0, 1, 0, 5], &[0, 5, 0, 2, 0, 5, 0, 5], &[0, 0, 0, 1, 0, 0],
    ];
    words(s, "lists of like provisions", "Module", &[0, 5, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 1, 0, 5], 2, &PRO, 4 + more, &[]);
    words(s, "lists of like packages", "ModulePackages", &[], 2, &[&[0, 5], &[0, 6], &[0, 0], &[5, 0]], 6 + more, &[]);
    let t = s.thorough;
    shapes(s, "module declarations", 0, 3, &mut |ch| {
        let m = 2;
        let r = ch.upto(m);
        let ex: Vec<usize> = (0..ch.upto(m)).map(|_| ch.upto(2)).collect();
        let op: Vec<usize> = (0..ch.upto(m)).map(|_| ch.upto(2)).collect();
        let us = ch.upto(m);
        let pr: Vec<usize> = (0..ch.upto(m)).map(|_| ch.upto(2)).collect();
        one(Loc::Class, &|c| module(c, r, &ex, &op, us, &pr))
    });
    if t {
        shapes(s, "longer tables", 0, 3, &mut |ch| {
            let r = ch.upto(3);
            let ex: Vec<usize> = (0..ch.upto(3)).map(|_| ch.upto(3)).collect();
            let op: Vec<usize> = (0..ch.upto(3)).map(|_| ch.upto(1)).collect();
            let us = ch.upto(3);
            let pr: Vec<usize> = (0..ch.upto(3)).map(|_| ch.upto(3)).collect();
            one(Loc::Class, &|c| module(c, r, &ex, &op, us, &pr))
        });
    }
    shapes(s, "module attributes together", 0, 3, &mut |ch| {
        let loc = ch.of(&LOCS);
        let k = 1 + ch.upto(2);
        at(loc, k, &mut |c| {
            for _ in 0..k {
                match ch.free(3) {
                    0 => {
                        let n = ch.upto(3);
                        packages(c, n);
                    }
                    1 => simple(c, 7),
                    _ => module(c, 1, &[1], &[], ch.upto(1), &[2]),
                }
            }
        })
    });
    sized(s, "module packages", SIZES, &mut |n| one(Loc::Class, &|c| packages(c, n)));
    for k in 0..8 {
        sized(s, "module table sizes", SIZES, &mut |n| {
            let many = |on: bool| -> Vec<usize> {
                if on {
                    (0..n).map(|x| x % 3).collect()
                } else {
                    vec![1]
                }
            };
            let arg = |on: bool, v: Vec<usize>| if on { vec![1, n, 2] } else { v };
            one(Loc::Class, &|c| {
                module(
                    c,
                    if k == 0 { n } else { 1 },
                    &arg(k == 5, many(k == 1)),
                    &arg(k == 6, many(k == 2)),
                    if k == 3 { n } else { 2 },
                    &arg(k == 7, many(k == 4)),
                )
            })
        });
    }
    for k in 0..4 {
        grid(s, "long module tables of long lists", &mut |n, m| {
            let v = vec![m; n];
            let (a, b) = (vec![2; n], vec![3; m]);
            one(Loc::Class, &|c| match k {
                0 => module(c, 1, &v, &[1], 2, &[1]),
                1 => module(c, 1, &[1], &v, 2, &[1]),
                2 => module(c, 1, &[1], &[1], 2, &v),
                _ => module(c, n, &a, &b, m, &a),
            })
        });
    }
    let tp = c14_templates();
    standard(s, "C14", &tp);
}
fn packages(c: &mut Cls, n: usize) {
    let e = c.begin("ModulePackages");
    c.u2(n as u16);
    c.v2(n);
    c.end(e);
}
fn c14_templates() -> Vec<Built> {
    vec![
        one(Loc::Class, &|c| module(c, 1, &[1], &[1], 1, &[1])),
        one(Loc::Class, &|c| module(c, 0, &[0, 2], &[], 2, &[])),
        one(Loc::Class, &|c| packages(c, 2)),
        one(Loc::Class, &|c| simple(c, 7)),
    ]
}

/// Small classes for every attribute kind, used by other drivers as bases.
pub fn templates() -> Vec<Built> {
    let mut v = Vec::new();
    for t in [
        c08_templates(),
        c09_templates(),
        c10_templates(),
        c11_templates(),
        c12_templates(),
        c13_templates(),
        c14_templates(),
    ] {
        v.extend(t);
    }
    v
}

/// Writes one well-formed attribute of every known kind (`k` in 0..KINDS), for list drivers.
pub const KINDS: usize = 27;

/// Lists in which every short sequence of kinds of attributes occurs, with values of their own and
/// with the same ones.
pub fn any_two_shapes(s: &mut Sink) {
    s.phase("attributes of a method and its code, any two shapes");
    let v = variants();
    for (i, f) in v.iter().enumerate() {
        for (j, g) in v.iter().enumerate() {
            if !s.mine() {
                continue;
            }
            let loc = if (i + j) % 3 == 0 { LOCS[(i + j) / 3 % 3] } else { Loc::Code };
            let b = at(loc, 2, &mut |c| {
                f(c);
                g(c);
            });
            if !s.case(&b.b) {
                return;
            }
        }
    }
}

pub fn attribute_histories(s: &mut Sink) {
    any_two_shapes(s);
    s.phase("attributes after every short sequence of attributes");
    let mut cases: Vec<(Vec<usize>, Vec<usize>)> = Vec::new();
    let all: Vec<usize> = (0..KINDS).collect();
    for most in [27, 800, if s.thorough { 20_000 } else { 800 }] {
        cases.push((histories_within(KINDS, most), all.clone()));
        cases.push((histories_within(KINDS, most), all.iter().rev().cloned().collect()));
    }
    for a in 0..KINDS {
        for b in a + 1..KINDS {
            cases.push((histories_within(2, if s.thorough { 260 } else { 40 }), vec![a, b]));
            cases.push((histories_within(3, if s.thorough { 250 } else { 30 }), vec![b, a, (a * 7 + b) % KINDS]));
        }
        cases.push((histories_within(6, if s.thorough { 8000 } else { 220 }), (0..6).map(|j| (a + j * j) % KINDS).collect()));
    }
    for (i, (order, letters)) in cases.iter().enumerate() {
        for loc in LOCS {
            for same in [false, true] {
                if !s.mine() || !s.thorough && i > 20 && (i + loc as usize) % 2 == 0 {
                    continue;
                }
                let mut made: Vec<Option<Vec<u8>>> = vec![None; KINDS];
                let b = at(loc, order.len(), &mut |c| {
                    for &k in order {
                        let k = letters[k];
                        match &made[k] {
                            Some(x) if same => c.body.raw(x),
                            _ => {
                                let from = c.body.b.len();
                                any_attribute(c, k);
                                made[k] = Some(c.body.b[from..].to_vec());
                            }
                        }
                    }
                });
                if !s.case(&b.b) {
                    return;
                }
            }
        }
    }
}

pub fn any_attribute(c: &mut Cls, k: usize) {
    match k {
        0..=7 => simple(c, k),
        8 => inner(c, 1),
        9 => bootstrap(c, &[1, 2]),
        10 => packages(c, 2),
        11 => module(c, 1, &[1], &[0], 1, &[1]),
        12..=16 => table(c, k - 12, 1),
        17 => stackmap_one(c, 254, &[7, 1, 8]),
        18..=21 => annotations(c, k - 18, &[vec![1]]),
        22 | 23 => type_annotations(c, k - 22, &[(0x40, 1, vec![2], 1)]),
        24 => nested(c, 1, &|_| true),
        25 => code_with(c, 2, 1, &[0]),
        _ => unknown(c, 5),
    }
}

/// The variants of the attributes a property is about.
pub fn variants_of(id: &str) -> Vec<Variant> {
    variants()
        .into_iter()
        .filter(|f| {
            let mut c = Cls::new();
            f(&mut c);
            let p = &c.pool.b;
            let n = usize::from(p[1]) << 8 | usize::from(p[2]);
            let name = std::str::from_utf8(&p[3..3 + n]).unwrap_or("");
            let of = match name {
                "Code" => "C08",
                "LineNumberTable" | "LocalVariableTable" | "LocalVariableTypeTable" | "MethodParameters" | "Exceptions" => "C09",
                "StackMapTable" => "C10",
                "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => "C12",
                "AnnotationDefault" => "C11",
                n if n.ends_with("Annotations") => "C11",
                n if n.starts_with("Module") => "C14",
                n if all_names().contains(&n) => "C13",
                _ => "C15",
            };
            of == id
        })
        .collect()
}

pub type Variant = Box<dyn Fn(&mut Cls)>;

/// Well-formed attributes of every kind in many shapes, empty and short lists in every place.
pub fn variants() -> Vec<Variant> {
    let mut v: Vec<Variant> = Vec::new();
    for k in 0..8 {
        v.push(Box::new(move |c| simple(c, k)));
    }
    for n in 0..4 {
        v.push(Box::new(move |c| inner(c, n)));
        v.push(Box::new(move |c| packages(c, n)));
        v.push(Box::new(move |c| unknown(c, n)));
        for k in 0..TABLES {
            v.push(Box::new(move |c| table(c, k, n)));
        }
    }
    let lists: [&'static [usize]; 8] = [&[], &[0], &[2], &[0, 0], &[1, 0], &[0, 2], &[3, 1], &[1, 0, 1]];
    for l in lists {
        v.push(Box::new(move |c| bootstrap(c, l)));
        for k in 2..4 {
            v.push(Box::new(move |c| annotations(c, k, &l.iter().map(|n| vec![1; *n]).collect::<Vec<_>>())));
        }
        for k in 0..2 {
            v.push(Box::new(move |c| annotations(c, k, &[l.to_vec()])));
        }
        v.push(Box::new(move |c| module(c, 0, l, &[], 0, &[])));
        v.push(Box::new(move |c| module(c, 1, &[], l, 1, &[])));
        v.push(Box::new(move |c| module(c, 0, &[0], &[0], 0, l)));
    }
    v.push(Box::new(|c| module(c, 2, &[1], &[1], 2, &[1])));
    v.push(Box::new(|c| module(c, 0, &[], &[], 2, &[])));
    v.push(Box::new(|c| module(c, 2, &[], &[], 0, &[])));
    for f in [0u8, 63, 64, 127, 247, 248, 250, 251, 252, 253, 254, 255] {
        for t in [0u8, 7, 8] {
            if t == 0 || f >= 64 && !(248..=251).contains(&f) {
                v.push(Box::new(move |c| stackmap_one(c, f, &[t, 1])));
            }
        }
    }
    v.push(Box::new(|c| {
        let e = c.begin("StackMapTable");
        c.u2(0);
        c.end(e);
    }));
    for (nl, ns) in [(0, 0), (0, 1), (1, 0), (2, 2)] {
        v.push(Box::new(move |c| {
            let e = c.begin("StackMapTable");
            c.u2(2);
            frame(c, 255, &mut || 7, nl, ns);
            frame(c, 64, &mut || 1, 0, 0);
            c.end(e);
        }));
    }
    for k in 0..2 {
        for t in TARGETS {
            v.push(Box::new(move |c| type_annotations(c, k, &[(t, 1, vec![], 0)])));
            v.push(Box::new(move |c| type_annotations(c, k, &[(t, 0, vec![3], 1), (0x13, 0, vec![], 0)])));
        }
        v.push(Box::new(move |c| type_annotations(c, k, &[])));
    }
    for d in 0..4 {
        v.push(Box::new(move |c| nested(c, d, &|x| x % 2 == 0)));
        v.push(Box::new(move |c| nested(c, d, &|x| x % 2 == 1)));
    }
    for t in TAGS {
        v.push(Box::new(move |c| {
            let e = c.begin("AnnotationDefault");
            element(c, t, &mut |c, t| {
                if t == b'@' {
                    c.v2(1);
                }
                c.u2(0);
            });
            c.end(e);
        }));
    }
    let nested_attrs: [&'static [u8]; 5] = [&[], &[0], &[2], &[0, 2], &[3, 1]];
    for i in 1..4 {
        for x in 0..3 {
            v.push(Box::new(move |c| code_with(c, i, x, nested_attrs[(i + x) % 5])));
        }
    }
    for a in nested_attrs {
        v.push(Box::new(move |c| code_with(c, 1, 0, a)));
    }
    // one of everything
    v.push(Box::new(|c| {
        let e = c.begin("StackMapTable");
        let n = c.body.b.len();
        c.u2(0);
        let mut count = 0;
        for f in [0u8, 63, 64, 127, 247, 248, 249, 250, 251, 252, 253, 254, 255] {
            let plain = f < 64 || (248..252).contains(&f);
            for t in 0..if plain { 1 } else { 9u8 } {
                let mut k = t;
                frame(
                    c,
                    f,
                    &mut || {
                        k += 1;
                        (k - 1) % 9
                    },
                    2,
                    1,
                );
                count += 1;
            }
        }
        c.body.set2(n, count);
        c.end(e);
    }));
    for k in 0..2 {
        v.push(Box::new(move |c| {
            let all: Vec<(u8, usize, Vec<u8>, usize)> = TARGETS.iter().enumerate().map(|(i, t)| (*t, i % 3, (0..i as u8 % 5).map(|p| (p + i as u8) % 4).collect(), i % 2)).collect();
            type_annotations(c, k, &all);
        }));
    }
    v.push(Box::new(|c| {
        let e = c.begin("AnnotationDefault");
        c.u1(b'[');
        c.u2(TAGS.len() as u16 + 4);
        let nest = &mut |c: &mut Cls, t: u8| {
            if t == b'@' {
                c.v2(1);
                c.u2(1);
                c.v2(1);
            } else {
                c.u2(1);
            }
            c.u1(b'J');
            c.v2(1);
        };
        for t in TAGS.iter().chain(b"e@[@") {
            element(c, *t, nest);
        }
        c.end(e);
    }));
    v
}

pub const DRIVERS: &[Driver] = &[
    Driver { id: "C08", run: run_class, explore: c08 },
    Driver { id: "C09", run: run_class, explore: c09 },
    Driver { id: "C10", run: run_class, explore: c10 },
    Driver { id: "C11", run: run_class, explore: c11 },
    Driver { id: "C12", run: run_class, explore: c12 },
    Driver { id: "C13", run: run_class, explore: c13 },
    Driver { id: "C14", run: run_class, explore: c14 },
];
