//! Exploration phases shared by the drivers of single structures.
use crate::build::*;
use crate::explore::{explore, Ch};
use crate::sink::Sink;

/// All shapes the generator can produce (free choices), with at most `budget` deviations.
pub fn shapes(
    s: &mut Sink,
    name: &'static str,
    budget: u32,
    split: usize,
    gen: &mut dyn FnMut(&mut Ch) -> Built,
) {
    s.phase(name);
    if s.stopped() {
        return;
    }
    let (shard, n) = (s.shard, s.nshards);
    explore(budget, split, shard, n, gen, |b| s.case(&b.b) && equal_values(s, &b));
}

/// A shape in which any two of the values in it are equal (or zero), or all of them.
fn equal_values(s: &mut Sink, t: &Built) -> bool {
    let f = plain(t);
    let n = f.len();
    let near = if n <= if s.thorough { 24 } else { 10 } { n } else { 3 };
    let mut b = t.b.clone();
    for v in [5u64, 0] {
        for i in 0..n {
            put(&mut b, f[i], v);
            for j in i + 1..n.min(i + near) {
                put(&mut b, f[j], v);
                if !s.case(&b) {
                    return false;
                }
                b[f[j].0..f[j].0 + 2].copy_from_slice(&t.b[f[j].0..f[j].0 + 2]);
            }
            b[f[i].0..f[i].0 + 2].copy_from_slice(&t.b[f[i].0..f[i].0 + 2]);
        }
    }
    for v in [5u64, 0, 0xFFFF] {
        for x in &f {
            put(&mut b, *x, v);
        }
        if n > 0 && !s.case(&b) {
            return false;
        }
    }
    true
}

pub fn put(b: &mut [u8], f: (usize, u8), v: u64) {
    let w = f.1 as usize;
    b[f.0..f.0 + w].copy_from_slice(&v.to_be_bytes()[8 - w..]);
}

/// Values a field of the given width takes in the single-deviation sweep.
fn full(width: u8) -> Vec<u64> {
    match width {
        1 => (0..=0xFF).collect(),
        2 => (0..=0xFFFF).collect(),
        w => wide_menu(w),
    }
}
pub fn wide_menu(width: u8) -> Vec<u64> {
    let mut v: Vec<u64> = MENU32.iter().map(|x| u64::from(*x)).collect();
    if width == 8 {
        v.extend(MENU32.iter().map(|x| u64::from(*x) << 32));
        v.extend([u64::MAX, i64::MAX as u64, i64::MIN as u64]);
    }
    for k in 0..u32::from(width) {
        for x in 0..=255u64 {
            v.push(x << (8 * k));
        }
    }
    for k in 0..8 * u32::from(width) {
        v.push(1 << k);
        v.push((1 << k) - 1);
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn menu(width: u8) -> Vec<u64> {
    match width {
        1 => MENU8.iter().map(|x| u64::from(*x)).collect(),
        2 => MENU16.iter().map(|x| u64::from(*x)).collect(),
        _ => MENU32.iter().map(|x| u64::from(*x)).collect(),
    }
}
/// Small menu for triples.
fn small(width: u8) -> Vec<u64> {
    match width {
        1 => vec![0, 1, 0x7F, 0xFF],
        2 => vec![0, 1, 0x00FF, 0x8000, 0xFFFF],
        _ => vec![0, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF],
    }
}

/// Every field of every template over its full range (one deviation). In the quick tier a field that
/// an earlier template has too, with the same bytes before it, takes the menu values only.
pub fn sweep(s: &mut Sink, tpls: &[Built]) {
    s.phase("single field, full range");
    let mut seen: std::collections::HashSet<Vec<u8>> = Default::default();
    for t in tpls {
        let mut b = t.b.clone();
        for &f in &t.f {
            let mut before = t.b[..f.0].to_vec();
            before.push(f.1);
            let new = seen.insert(before);
            if !s.mine() {
                continue;
            }
            let orig = t.b[f.0..f.0 + f.1 as usize].to_vec();
            for v in if new || s.thorough { full(f.1) } else { menu(f.1) } {
                put(&mut b, f, v);
                if !s.case(&b) {
                    return;
                }
            }
            b[f.0..f.0 + orig.len()].copy_from_slice(&orig);
        }
    }
}

/// As `sweep`, over the menu values only.
pub fn sweep_menu(s: &mut Sink, tpls: &[Built]) {
    s.phase("single field, menu values");
    for t in tpls {
        let mut b = t.b.clone();
        for &f in &t.f {
            if !s.mine() {
                continue;
            }
            for v in menu(f.1) {
                put(&mut b, f, v);
                if !s.case(&b) {
                    return;
                }
            }
            b.copy_from_slice(&t.b);
        }
    }
}

/// Every pair of fields over the menu (two deviations).
pub fn pairs(s: &mut Sink, tpls: &[Built]) {
    s.phase("pairs of fields, menu values");
    for t in tpls {
        let mut b = t.b.clone();
        for i in 0..t.f.len() {
            for j in i + 1..t.f.len() {
                if !s.mine() {
                    continue;
                }
                for &v in &menu(t.f[i].1) {
                    put(&mut b, t.f[i], v);
                    for &w in &menu(t.f[j].1) {
                        put(&mut b, t.f[j], w);
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
                b.copy_from_slice(&t.b);
            }
        }
    }
}

/// Every triple of fields over a small menu (three deviations).
pub fn triples(s: &mut Sink, tpls: &[Built]) {
    s.phase("triples of fields, small menu");
    for t in tpls {
        let mut b = t.b.clone();
        let n = t.f.len();
        for i in 0..n {
            for j in i + 1..n {
                if !s.mine() {
                    continue;
                }
                for k in j + 1..n {
                    for &v in &small(t.f[i].1) {
                        put(&mut b, t.f[i], v);
                        for &w in &small(t.f[j].1) {
                            put(&mut b, t.f[j], w);
                            for &x in &small(t.f[k].1) {
                                put(&mut b, t.f[k], x);
                                if !s.case(&b) {
                                    return;
                                }
                            }
                        }
                    }
                    b.copy_from_slice(&t.b);
                }
            }
        }
    }
}

/// Fields that hold a value of their own: the two-byte ones written from `Cls::val`.
pub fn plain(t: &Built) -> Vec<(usize, u8)> {
    t.f.iter().copied().filter(|f| f.1 == 2 && t.b[f.0] >= 2 && t.b[f.0 + 1] != 0 && t.b[f.0] != t.b[f.0 + 1]).collect()
}

/// All values of a structure equal, over the full range; and any two neighbours equal, following one
/// another, opposite or swapped, over a menu.
pub fn diagonal(s: &mut Sink, tpls: &[Built]) {
    s.phase("equal values, full range");
    for (k, t) in tpls.iter().enumerate() {
        let f = plain(t);
        if f.is_empty() || k > 40 && !s.thorough {
            continue;
        }
        let mut b = t.b.clone();
        for hi in 0..=255u64 {
            if !s.mine() {
                continue;
            }
            for lo in 0..=255u64 {
                let v = hi << 8 | lo;
                for x in &f {
                    put(&mut b, *x, v);
                }
                if !s.case(&b) {
                    return;
                }
            }
        }
        b.copy_from_slice(&t.b);
        for w in f.windows(2).chain(f.windows(3)) {
            let (x, y) = (w[0], w[w.len() - 1]);
            if !s.mine() {
                continue;
            }
            for v in 0..=0xFFFFu64 {
                let (hi, lo) = (v >> 8, v & 0xFF);
                if !(s.thorough || hi == lo || v & (v - (v > 0) as u64) == 0 || v & (v + 1) == 0 || v % 257 == 3 || v % 0x111 == 0) {
                    continue;
                }
                put(&mut b, x, v);
                for u in [v, v + 1, v ^ 0x8000, !v, lo << 8 | hi, v << 1] {
                    put(&mut b, y, u & 0xFFFF);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
            b.copy_from_slice(&t.b);
        }
    }
}

/// Windows of neighbouring value fields, all assignments of few values: every pattern of equal,
/// zero and different values within a window. What is outside keeps values that occur once.
pub fn few_values(s: &mut Sink, tpls: &[Built]) {
    s.phase("patterns of equal values");
    for t in tpls {
        let f = plain(t);
        let mut b = t.b.clone();
        for (menu, width, step) in [(&[Some(0u16), Some(5), None][..], 7, 3), (&[None, Some(5)], 11, 5), (&[Some(0), Some(0xFFFF)], 10, 5), (&[None, Some(0xFFFF), Some(1)], 5, 2)] {
            let mut from = 0;
            loop {
                let to = (from + width).min(f.len());
                let w = &f[from..to];
                if s.mine() {
                    for mut code in 0..(menu.len() as u64).pow(w.len() as u32) {
                        for &x in w {
                            match menu[(code % menu.len() as u64) as usize] {
                                None => b[x.0..x.0 + 2].copy_from_slice(&t.b[x.0..x.0 + 2]),
                                Some(v) => put(&mut b, x, u64::from(v)),
                            }
                            code /= menu.len() as u64;
                        }
                        if !s.case(&b) {
                            return;
                        }
                    }
                    b.copy_from_slice(&t.b);
                }
                if to == f.len() {
                    break;
                }
                from += step;
            }
        }
    }
}

/// Lists in which a structure occurs again, with the same or with other values.
pub fn repeats(s: &mut Sink, v: &[Box<dyn Fn(&mut Cls)>]) {
    s.phase("repeated and alternating structures");
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            for loc in LOCS {
                // same bytes (0) or fresh values (1)
                for fresh in [false, true] {
                    if !s.mine() || !s.thorough && i != j && (i + j + loc as usize) % 4 != 0 {
                        continue;
                    }
                    for order in [&[0, 0][..], &[0, 1], &[0, 1, 0], &[0, 0, 0], &[0, 0, 1], &[0, 1, 1], &[1, 0, 0, 0, 0], &[0, 1, 0, 1]] {
                        let x = at(loc, order.len(), &mut |c| {
                            let mut made: [Option<Vec<u8>>; 2] = [None, None];
                            for &k in order {
                                match &made[k] {
                                    Some(x) if !fresh => c.body.raw(x),
                                    _ => {
                                        let start = c.body.b.len();
                                        [a, b][k](c);
                                        made[k] = Some(c.body.b[start..].to_vec());
                                    }
                                }
                            }
                        });
                        if !s.case(&x.b) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// All lists of at most `max` elements out of an alphabet, elements given by their bytes, in the
/// content of an attribute: in front of the list its count (in `width` bytes, none for 0).
pub fn words(s: &mut Sink, name: &'static str, attr: &str, head: &[u8], width: usize, alphabet: &[&[u8]], max: u32, tail: &[u8]) {
    s.phase(name);
    for n in 0..=max {
        for k in 0..alphabet.len().pow(n) {
            if k % 16 == 0 && s.stopped() || (k / 16) % s.nshards != s.shard {
                continue;
            }
            let b = at(LOCS[(k + n as usize) % 4], 1, &mut |c| {
                let e = c.begin(attr);
                c.body.raw(head);
                c.body.raw(&n.to_be_bytes()[4 - width..]);
                let mut r = k;
                for _ in 0..n {
                    c.body.raw(alphabet[r % alphabet.len()]);
                    r /= alphabet.len();
                }
                c.body.raw(tail);
                c.end(e);
            });
            if !s.case(&b.b) {
                return;
            }
        }
    }
    one_list_of_all(s, attr, head, width, alphabet, tail);
}

/// A sequence in which every word of `n` of the letters 0..k occurs.
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    if n == 1 {
        return (0..k).collect();
    }
    // Lyndon words in order
    let mut out = Vec::new();
    let mut w = vec![0usize];
    loop {
        if n % w.len() == 0 {
            out.extend_from_slice(&w);
        }
        let m = w.len();
        while w.len() < n {
            w.push(w[w.len() - m]);
        }
        while w.last() == Some(&(k - 1)) {
            w.pop();
        }
        match w.last_mut() {
            None => break,
            Some(x) => *x += 1,
        }
    }
    // cyclic so far
    for j in 0..n - 1 {
        out.push(out[j]);
    }
    out
}

/// The longest de Bruijn sequence of at most `most` letters out of `k`: what came before an element
/// can be any such history.
pub fn histories_within(k: usize, most: usize) -> Vec<usize> {
    let mut n = 1;
    while n < 12 && k > 1 && k.pow(n + 1) + n as usize <= most {
        n += 1;
    }
    if k > most {
        return (0..most).collect();
    }
    de_bruijn(k, n as usize)
}

/// One list in which every short sequence of elements occurs, after ever more of the others; from its
/// start and from its middle on.
pub fn one_list_of_all(s: &mut Sink, attr: &str, head: &[u8], width: usize, alphabet: &[&[u8]], tail: &[u8]) {
    let most = match width {
        1 => 255,
        _ => 65_535,
    };
    for loc in LOCS {
        if !s.mine() {
            continue;
        }
        let mut of = histories_within(alphabet.len(), most);
        if loc as usize % 2 == 1 {
            of.reverse();
        }
        if loc as usize >= 2 {
            let n = (of.len() / 2 + 1) % of.len().max(1);
            of.rotate_left(n);
        }
        let b = at(loc, 1, &mut |c| {
            let e = c.begin(attr);
            c.body.raw(head);
            c.body.raw(&(of.len() as u32).to_be_bytes()[4 - width..]);
            for &k in &of {
                c.body.raw(alphabet[k]);
            }
            c.body.raw(tail);
            c.end(e);
        });
        if !s.case(&b.b) {
            return;
        }
    }
}

/// What surrounds an attribute.
#[derive(Clone, Default)]
struct Context {
    version: Option<(u16, u16)>,
    /// flags, this class, super class
    class: Option<(u16, u16, u16)>,
    this: Option<&'static str>,
    interfaces: usize,
    /// flags of the member, its name, its descriptor
    flags: Option<u16>,
    name: Option<(&'static str, &'static str)>,
    /// constants before all others
    constants: u32,
    /// members of both kinds before the one with the attribute
    members: u16,
    /// code array of the method
    code: Option<&'static [u8]>,
}

fn in_context(x: &Context, loc: Loc, attr: &dyn Fn(&mut Cls)) -> Vec<u8> {
    let mut c = Cls::new();
    if let Some((major, minor)) = x.version {
        c.major = major;
        c.minor = minor;
    }
    for k in 0..x.constants {
        if k % 3 == 2 {
            c.pool.u1(5);
            c.pool.u8_(u64::from(k));
            c.next += 2;
        } else {
            c.pool.u1(3);
            c.pool.u4(k);
            c.next += 1;
        }
    }
    let (flags, mut this, sup) = x.class.unwrap_or((0x21, 0x2101, 0x2203));
    if let Some(n) = x.this {
        let i = c.name(n);
        c.pool.u1(7);
        c.pool.u2(i);
        this = c.next as u16;
        c.next += 1;
    }
    for v in [flags, this, sup, x.interfaces as u16] {
        c.u2(v);
    }
    c.v2(x.interfaces);
    let name = x.name.map(|(n, d)| (c.name(n), c.name(d)));
    let list = |c: &mut Cls| {
        c.u2(2);
        attr(c);
        crate::build::sentinel(c);
    };
    for here in [Loc::Field, Loc::Method] {
        let on = loc == here || loc == Loc::Code && here == Loc::Method;
        c.u2(x.members + on as u16);
        for _ in 0..x.members {
            c.v2(3);
            c.u2(0);
        }
        if on {
            c.u2(x.flags.unwrap_or(9));
            let (n, d) = name.unwrap_or((0x3305, 0x3407));
            c.u2(n);
            c.u2(d);
            if loc == Loc::Code {
                c.u2(1);
                let e = c.begin("Code");
                c.v2(2);
                let code = x.code.unwrap_or(&[0xB1]);
                c.u4(code.len() as u32);
                c.body.raw(code);
                c.u2(0);
                list(&mut c);
                c.end(e);
            } else {
                list(&mut c);
            }
        }
    }
    if loc == Loc::Class {
        list(&mut c);
    } else {
        c.u2(1);
        crate::build::sentinel(&mut c);
    }
    c.finish_plain()
}

/// Names of members that mean something.
pub const MEMBERS: [&str; 14] = [
    "<init>", "<clinit>", "main", "Code", "values", "", "this", "$VALUES", "lambda$0", "value", "serialVersionUID", "finalize", "hashCode", "this$0",
];
const MINORS: [u16; 9] = [0, 1, 2, 3, 4, 45, 0xFF, 0x100, 0xFFFF];

/// Inputs under every version: what a version is has no influence on how the rest is read.
/// `lead` bytes of each payload come before the file.
pub fn versions(s: &mut Sink, lead: usize, bases: &[Vec<u8>]) {
    s.phase("every version");
    for base in bases {
        if !s.mine() {
            continue;
        }
        let mut b = base.clone();
        for major in (0..=70).chain([100u16, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF]) {
            for minor in (0..=70u16).chain(MINORS) {
                if minor > 4 && minor <= 70 && (major > 70 || !s.thorough && base.len() > 400) {
                    continue;
                }
                if minor > 70 && !(43..=70).contains(&major) && !s.thorough {
                    continue;
                }
                b[lead + 4..lead + 6].copy_from_slice(&minor.to_be_bytes());
                b[lead + 6..lead + 8].copy_from_slice(&major.to_be_bytes());
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
}

/// Where the constants of a well-formed class file end, and its constant count.
pub fn pool_end(b: &[u8]) -> (usize, u16) {
    let count = u16::from_be_bytes([b[8], b[9]]);
    let (mut at, mut k) = (10, 1);
    while k < count {
        k += 1;
        at += 1 + match b[at] {
            1 => 2 + usize::from(u16::from_be_bytes([b[at + 1], b[at + 2]])),
            5 | 6 => {
                k += 1;
                8
            }
            7 | 8 | 16 | 19 | 20 => 2,
            15 => 3,
            _ => 4,
        };
    }
    (at, count)
}

/// Adds a constant of every kind at the end of the pool, most of them as a compiler would write
/// them; returns the file, where the constants end, and the indices.
pub fn with_constants(b: &[u8]) -> (Vec<u8>, usize, Vec<u16>) {
    let (end, n) = pool_end(b);
    let mut x = Adder { p: Vec::new(), at: n, idx: Vec::new() };
    let mut add = |v: &[u8]| x.add(v);
    let text = |t: &str| {
        let mut v = vec![1, 0, t.len() as u8];
        v.extend_from_slice(t.as_bytes());
        v
    };
    let to = |tag: u8, v: &[u16]| {
        let mut o = vec![tag];
        for x in v {
            o.extend_from_slice(&x.to_be_bytes());
        }
        o
    };
    let object = add(&text("java/lang/Object"));
    let init = add(&text("<init>"));
    let void = add(&text("()V"));
    let int = add(&text("I"));
    let string = add(&text("Ljava/lang/String;"));
    add(&text(""));
    add(&text("Code"));
    add(&[3, 0, 0, 0, 0]);
    add(&[3, 0, 0, 0, 2]);
    add(&[4, 0x3F, 0x80, 0, 0]);
    add(&[5, 0, 0, 0, 0, 0, 0, 0, 1]);
    add(&[6, 0x3F, 0xF0, 0, 0, 0, 0, 0, 0]);
    let class = add(&to(7, &[object]));
    add(&to(7, &[int]));
    add(&to(8, &[string]));
    let nat = add(&to(12, &[init, void]));
    let field = add(&to(12, &[int, string]));
    add(&to(9, &[class, field]));
    let method = add(&to(10, &[class, nat]));
    add(&to(11, &[class, nat]));
    let m = method.to_be_bytes();
    add(&[15, 6, m[0], m[1]]);
    add(&to(16, &[void]));
    add(&to(18, &[0, nat]));
    add(&to(19, &[object]));
    add(&to(20, &[object]));
    // itself, out of bounds
    let me = add(&to(8, &[0xFFFF])) + 1;
    add(&to(7, &[me]));
    let mut o = b[..end].to_vec();
    o.extend_from_slice(&x.p);
    o[8..10].copy_from_slice(&x.at.to_be_bytes());
    let body = o.len();
    o.extend_from_slice(&b[end..]);
    x.idx.extend([x.at, 0]);
    (o, body, x.idx)
}
struct Adder {
    p: Vec<u8>,
    at: u16,
    idx: Vec<u16>,
}
impl Adder {
    fn add(&mut self, v: &[u8]) -> u16 {
        self.p.extend_from_slice(v);
        self.idx.push(self.at);
        self.at += 1 + (v[0] == 5 || v[0] == 6) as u16;
        *self.idx.last().unwrap()
    }
}

/// Constants that refer to one another in all ways, cycles included.
pub fn graphs(s: &mut Sink) {
    s.phase("constants that refer to one another");
    let two = |t: u8, a: u16, b: u16| vec![t, 0, a as u8, 0, b as u8];
    let mut full: Vec<Vec<u8>> = vec![vec![1, 0, 1, b'a'], vec![3, 0, 0, 0, 1], vec![5, 0, 0, 0, 0, 0, 0, 0, 1]];
    let mut some = full.clone();
    let mut few = full.clone();
    for a in 0..5u16 {
        for t in [7u8, 8, 16, 19, 20] {
            if a < 4 {
                full.push(vec![t, 0, a as u8]);
            }
            if a < 4 && t < 19 {
                some.push(vec![t, 0, a as u8]);
            }
            if a > 0 && t == 7 {
                few.push(vec![t, 0, a as u8]);
            }
        }
        if a < 4 {
            full.push(vec![15, 6, 0, a as u8]);
            full.push(vec![15, 1, 0, a as u8]);
        }
        if a > 0 && a < 4 {
            some.push(vec![15, 6, 0, a as u8]);
        }
        for b in 0..4 {
            for t in [9u8, 10, 11, 12, 18] {
                if a < 4 {
                    full.push(two(t, a, b));
                }
                if a > 0 && a < 4 && b > 0 && (t == 10 || t == 12) {
                    some.push(two(t, a, b));
                }
            }
        }
    }
    few.extend([vec![8, 0, 1], vec![12, 0, 1, 0, 2], vec![10, 0, 1, 0, 2]]);
    for (n, alphabet) in [(1, &full), (2, &full), (3, &some), (4, &few), (5, &few)] {
        for k in 0..alphabet.len().pow(n) {
            if (k / 8) % s.nshards != s.shard || n == 5 && !s.thorough && k % 5 != 0 {
                continue;
            }
            let mut c = Cls::new();
            let mut r = k;
            for _ in 0..n {
                let x = &alphabet[r % alphabet.len()];
                r /= alphabet.len();
                c.pool.raw(x);
                c.next += 1 + (x[0] == 5) as u32;
            }
            for v in [0x21, 1, 2, 1, 3, 0, 0, 0] {
                c.u2(v);
            }
            if !s.case(&c.finish_plain()) {
                return;
            }
        }
    }
}

/// What links the nodes of `links`.
#[derive(Copy, Clone, PartialEq)]
pub enum Link {
    /// Inner classes and the classes they are declared in.
    Inner,
    /// Bootstrap methods whose argument is a constant that another one makes.
    Bootstrap,
    /// Branches to branches.
    Jump(u8),
    /// Handlers of ranges that lie in other ranges.
    Handler,
}

/// Structures that refer to one another: all graphs in which each of up to `max` nodes refers to
/// one node or to nothing, cycles included.
pub fn links(s: &mut Sink, kinds: &[Link], max: usize) {
    s.phase("structures that refer to one another");
    for &kind in kinds {
        for n in 1..=max {
            for k in 0..(n + 1).pow(n as u32) {
                if (k / 8) % s.nshards != s.shard {
                    continue;
                }
                let to: Vec<usize> = (0..n).map(|i| k / (n + 1).pow(i as u32) % (n + 1)).collect();
                let mut c = Cls::new();
                // the nodes' names are constants 1 to n, and n + 1 to 2 n what they are used as
                for i in 0..n {
                    c.pool.raw(&[1, 0, 1, b'A' + i as u8]);
                }
                for i in 0..n as u8 {
                    match kind {
                        Link::Bootstrap => c.pool.raw(&[17 + (i % 2), 0, i, 0, 2 * n as u8 + 1]),
                        _ => c.pool.raw(&[7, 0, i + 1]),
                    }
                }
                c.pool.raw(&[12, 0, 1, 0, 1]);
                c.next += 2 * n as u32 + 1;
                let node = |i: usize| if i == 0 { 0 } else { (n + i) as u16 };
                for v in [0x21, node(1), node(1), 0, 0] {
                    c.u2(v);
                }
                if let Link::Jump(_) | Link::Handler = kind {
                    for v in [1, 9, 1, 1, 1] {
                        c.u2(v);
                    }
                    let e = c.begin("Code");
                    c.u2(2);
                    c.u2(2);
                    let mut code = Vec::new();
                    let size = |w: bool| if w { 5 } else { 3 };
                    match kind {
                        Link::Jump(op) => {
                            let w = op == 0xC8 || op == 0xC9;
                            for i in 0..n {
                                let d = (to[i] as i32 - i as i32) * size(w);
                                code.push(op);
                                if w {
                                    code.extend(d.to_be_bytes());
                                } else {
                                    code.extend((d as i16).to_be_bytes());
                                }
                            }
                        }
                        _ => code.extend(std::iter::repeat(0).take(n)),
                    }
                    code.push(0xB1);
                    c.u4(code.len() as u32);
                    c.body.raw(&code);
                    if kind == Link::Handler {
                        c.u2(n as u16);
                        for i in 0..n {
                            for v in [i as u16, i as u16 + 1, to[i] as u16, node(i)] {
                                c.u2(v);
                            }
                        }
                    } else {
                        c.u2(0);
                    }
                    c.u2(0);
                    c.end(e);
                    c.u2(0);
                } else {
                    c.u2(0);
                    c.u2(1);
                    let e = c.begin(if kind == Link::Inner { "InnerClasses" } else { "BootstrapMethods" });
                    c.u2(n as u16);
                    for i in 0..n {
                        if kind == Link::Inner {
                            for v in [node(i + 1), node(to[i]), (i % 2) as u16, 9] {
                                c.u2(v);
                            }
                        } else {
                            c.u2(1);
                            c.u2((to[i] != 0) as u16);
                            if to[i] != 0 {
                                c.u2(node(to[i]));
                            }
                        }
                    }
                    c.end(e);
                }
                if !s.case(&c.finish_plain()) {
                    return;
                }
            }
        }
    }
}

/// A constant of every kind that refers to a constant of every kind, before or behind it, in class
/// files of every version.
pub fn graphs_by_version(s: &mut Sink) {
    s.phase("constants that refer to one another, by version");
    let two = |t: u8, a: u16, b: u16| vec![t, 0, a as u8, 0, b as u8];
    // what is referred to
    let mut to: Vec<Vec<u8>> = vec![vec![1, 0, 1, b'a'], vec![1, 0, 6, b'<', b'i', b'n', b'i', b't', b'>'], vec![1, 0, 3, b'(', b')', b'V'], vec![3, 0, 0, 0, 1], vec![4, 0, 0, 0, 1], vec![5, 0, 0, 0, 0, 0, 0, 0, 1], vec![6, 0, 0, 0, 0, 0, 0, 0, 1]];
    to.extend([7u8, 8, 16, 19, 20].iter().map(|t| vec![*t, 0, 1]));
    to.extend([9u8, 10, 11, 12, 18].iter().map(|t| two(*t, 1, 2)));
    to.push(vec![15, 6, 0, 1]);
    for major in (43..=70).chain([0u16, 1, 44, 0x100, 0x8000, 0xFFFF]) {
        for minor in [0u16, 3, 0xFFFF] {
            if !s.mine() {
                continue;
            }
            for x in &to {
                // the wide ones take the first two indices, and what refers to them is the third
                let w = 1 + (x[0] == 5 || x[0] == 6) as u16;
                for back in [true, false] {
                    let i = if back { 1 } else { 2 };
                    let mut from: Vec<Vec<u8>> = [7u8, 8, 16, 19, 20].iter().map(|t| vec![*t, 0, i as u8]).collect();
                    for t in [9u8, 10, 11, 12, 18] {
                        from.push(two(t, i, i));
                        from.push(two(t, i, w + 1));
                        from.push(two(t, w + 2, i));
                    }
                    from.extend((1..=9).map(|k| vec![15, k, 0, i as u8]));
                    for f in &from {
                        let mut c = Cls::new();
                        c.major = major;
                        c.minor = minor;
                        for y in if back { [x, f] } else { [f, x] } {
                            c.pool.raw(y);
                        }
                        c.pool.raw(&[1, 0, 1, b'e']);
                        c.next += u32::from(w) + 2;
                        for v in [0x21, 1, 2, 1, 3, 0, 0, 0] {
                            c.u2(v);
                        }
                        if !s.case(&c.finish_plain()) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Every place behind the constants refers to a text that means something, or to a constant that
/// names it; with the values around it as they are, and zero.
pub fn named_references(s: &mut Sink, tpls: &[Built], most: usize) {
    s.phase("references to what has a known name");
    let mut words: Vec<String> = crate::drivers::pool::KNOWN.iter().map(|x| x.to_string()).collect();
    words.extend(MEMBERS.iter().map(|x| x.to_string()));
    words.extend(["java.base", "java.se", "java.desktop", "java/base", "jdk.unsupported", "java/lang/Deprecated", "Ljava/lang/Deprecated;", "Ljava/lang/annotation/Retention;", "Ljava/lang/FunctionalInterface;", "Ljava/lang/SafeVarargs;", "java/lang/invoke/LambdaMetafactory", "metafactory", "makeConcatWithConstants", "LA$B;", "[LA$B;", "A$B", "A$1", "TT;", "<T:Ljava/lang/Object;>", "Ljava/util/List<TT;>;", "<T:Ljava/lang/Object;>(TT;)V^TE;", "Test.java", "1.8", "9", "11.0.2"].iter().map(|x| x.to_string()));
    words.sort();
    words.dedup();
    for t in tpls {
        let fields = plain(t);
        if fields.len() > most {
            continue;
        }
        let mut zero = t.b.clone();
        for f in &fields {
            put(&mut zero, *f, 0);
        }
        for b in [&t.b, &zero] {
            let (end, n) = pool_end(b);
            for w in &words {
                if !s.mine() {
                    continue;
                }
                let mut x = Adder { p: Vec::new(), at: n, idx: Vec::new() };
                let mut v = vec![1, 0, w.len() as u8];
                v.extend_from_slice(w.as_bytes());
                let text = x.add(&v);
                for tag in [7u8, 8, 16, 19, 20] {
                    x.add(&[tag, (text >> 8) as u8, text as u8]);
                }
                let q = text.to_be_bytes();
                let nat = x.add(&[12, q[0], q[1], q[0], q[1]]);
                let (class, q) = ((text + 1).to_be_bytes(), nat.to_be_bytes());
                let method = x.add(&[10, class[0], class[1], q[0], q[1]]).to_be_bytes();
                x.add(&[15, 6, method[0], method[1]]);
                x.add(&[18, 0, 0, q[0], q[1]]);
                let mut o = b[..end].to_vec();
                o.extend_from_slice(&x.p);
                o[8..10].copy_from_slice(&x.at.to_be_bytes());
                o.extend_from_slice(&b[end..]);
                let shift = x.p.len();
                for f in &fields {
                    if f.0 < end {
                        continue;
                    }
                    let at = f.0 + shift;
                    let old = [o[at], o[at + 1]];
                    for i in &x.idx {
                        o[at..at + 2].copy_from_slice(&i.to_be_bytes());
                        if !s.case(&o) {
                            return;
                        }
                    }
                    o[at..at + 2].copy_from_slice(&old);
                }
            }
        }
    }
}

/// A text and what names it in every way.
fn named(x: &mut Adder, w: &str) -> [u16; 11] {
    let mut v = vec![1, 0, w.len() as u8];
    v.extend_from_slice(w.as_bytes());
    let text = x.add(&v);
    let t = text.to_be_bytes();
    let mut out = [text; 11];
    for (k, tag) in [7u8, 8, 16, 19, 20].iter().enumerate() {
        out[k + 1] = x.add(&[*tag, t[0], t[1]]);
    }
    out[6] = x.add(&[12, t[0], t[1], t[0], t[1]]);
    let (c, n) = (out[1].to_be_bytes(), out[6].to_be_bytes());
    out[7] = x.add(&[9, c[0], c[1], n[0], n[1]]);
    out[8] = x.add(&[10, c[0], c[1], n[0], n[1]]);
    let m = out[8].to_be_bytes();
    out[9] = x.add(&[15, 6, m[0], m[1]]);
    out[10] = x.add(&[18, 0, 0, n[0], n[1]]);
    out
}

/// All values refer to constants: of one kind or of several, the texts of which are equal, different,
/// in order, in the opposite order, or parts of one another; and any two of them do.
pub fn linked(s: &mut Sink, tpls: &[Built]) {
    s.phase("all references lead to texts");
    for t in tpls {
        let (end, n) = pool_end(&t.b);
        let fields: Vec<(usize, u8)> = plain(t).into_iter().filter(|f| f.0 >= end).collect();
        let k = fields.len();
        if k < 2 || k > 60 {
            continue;
        }
        let make = |x: &Adder| {
            let mut o = t.b[..end].to_vec();
            o.extend_from_slice(&x.p);
            o[8..10].copy_from_slice(&x.at.to_be_bytes());
            o.extend_from_slice(&t.b[end..]);
            o
        };
        for order in 0..8usize {
            if !s.mine() {
                continue;
            }
            let mut x = Adder { p: Vec::new(), at: n, idx: Vec::new() };
            let names: Vec<[u16; 11]> = (0..k)
                .map(|i| {
                    let w = match order {
                        0 => format!("p/N{:03}", i),
                        1 => format!("p/N{:03}", k - i),
                        2 => "p/N".to_owned(),
                        3 => format!("p/N{:03}", i / 2),
                        4 => format!("p/N{:03}", i % 2),
                        5 => "N$".repeat(i + 1),
                        6 => "N/".repeat(k - i),
                        _ => format!("p/N{:03}", (i * 7 + 3) % k),
                    };
                    named(&mut x, &w)
                })
                .collect();
            let mut o = make(&x);
            for mix in 0..33usize {
                // one kind; another one for each value; two kinds in turns
                for (i, f) in fields.iter().enumerate() {
                    let kind = match mix / 11 {
                        0 => mix,
                        1 => (i + mix) % 11,
                        _ => [mix % 11, 0][i % 2],
                    };
                    let v = names[i][kind].to_be_bytes();
                    o[f.0 + x.p.len()..][..2].copy_from_slice(&v);
                }
                if !s.case(&o) {
                    return;
                }
            }
        }
        // any two
        const WORDS: [&str; 9] = ["A", "A", "A$B", "A$\u{e9}", "A/B", "", "LA;", "()V", "java/lang/Object"];
        let mut x = Adder { p: Vec::new(), at: n, idx: Vec::new() };
        let names: Vec<[u16; 11]> = WORDS.iter().map(|w| named(&mut x, w)).collect();
        let clean = make(&x);
        let mut o = clean.clone();
        for i in 0..k {
            for j in i + 1..k {
                if !s.mine() || !s.thorough && k > 14 && j - i > 8 && (i + j) % 3 != 0 {
                    continue;
                }
                let (p, q) = (fields[i].0 + x.p.len(), fields[j].0 + x.p.len());
                for a in &names {
                    for b in &names {
                        for (u, v) in [(0, 0), (1, 1), (1, 0), (0, 1), (6, 6), (8, 1)] {
                            if !s.thorough && (u == 6 || u == 8) && (i + j) % 2 == 0 {
                                continue;
                            }
                            o[p..p + 2].copy_from_slice(&a[u].to_be_bytes());
                            o[q..q + 2].copy_from_slice(&b[v].to_be_bytes());
                            if !s.case(&o) {
                                return;
                            }
                        }
                    }
                }
                o.copy_from_slice(&clean);
            }
        }
    }
}

/// All sequences of a few pieces that texts in class files are made of.
pub fn piece_texts(three: bool) -> Vec<String> {
    const PIECES: [&str; 24] = [
        "<", ">", "L", ";", "A", ":", "[", "(", ")", "/", ".", "$", "java", ".java", "-info", "module", "package", "V", "I", "\u{e9}", "*", "^",
        "1", "+",
    ];
    const FEW: [&str; 9] = ["<", ">", "L", ";", "A", "[", "(", ")", ":"];
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..if three { 3 } else { 2 } {
        last = last.iter().flat_map(|x| PIECES.iter().map(move |p| format!("{}{}", x, p))).collect();
        out.extend(last.iter().cloned());
    }
    let mut last = vec![String::new()];
    for k in 0..4 {
        last = last.iter().flat_map(|x| FEW.iter().map(move |p| format!("{}{}", x, p))).collect();
        if k == 3 || k == 2 && !three {
            out.extend(last.iter().cloned());
        }
    }
    out
}

/// All values refer to one text, directly or by what it names, for all texts of a few pieces.
pub fn pieces(s: &mut Sink, tpls: &[Built], three: bool) {
    s.phase("texts of a few pieces, referred to");
    let texts = piece_texts(three);
    for t in tpls {
        let (end, n) = pool_end(&t.b);
        let fields: Vec<(usize, u8)> = plain(t).into_iter().filter(|f| f.0 >= end).collect();
        if fields.is_empty() || fields.len() > 60 {
            continue;
        }
        for chunk in texts.chunks(100) {
            if !s.mine() {
                continue;
            }
            for w in chunk {
                let mut x = Adder { p: Vec::new(), at: n, idx: Vec::new() };
                let names = named(&mut x, w);
                let mut o = t.b[..end].to_vec();
                o.extend_from_slice(&x.p);
                o[8..10].copy_from_slice(&x.at.to_be_bytes());
                o.extend_from_slice(&t.b[end..]);
                for k in [0, 1, 6] {
                    for f in &fields {
                        o[f.0 + x.p.len()..][..2].copy_from_slice(&names[k].to_be_bytes());
                    }
                    if !s.case(&o) {
                        return;
                    }
                }
            }
        }
    }
}

/// One or two values among others that are all zero, or all one.
pub fn backgrounds(s: &mut Sink, tpls: &[Built]) {
    s.phase("one and two values among zeros");
    let mut one: Vec<u64> = (0..=40).chain([0xFF, 0x100, 0x7FFF, 0xFFFE, 0xFFFF]).collect();
    for k in 0..16 {
        one.extend((0..k).map(|l| 1 << k | 1 << l));
    }
    let mut two: Vec<u64> = (0..16).map(|k| 1 << k).collect();
    two.extend([3, 5, 0x30, 0xFFFF]);
    for t in tpls {
        let f = plain(t);
        if f.len() > 60 {
            continue;
        }
        for bg in 0..2u64 {
            if !s.mine() {
                continue;
            }
            let mut b = t.b.clone();
            f.iter().for_each(|x| put(&mut b, *x, bg));
            for (i, x) in f.iter().enumerate() {
                for v in &one {
                    put(&mut b, *x, *v);
                    if !s.case(&b) {
                        return;
                    }
                }
                for y in f[i + 1..].iter().take(if s.thorough { 20 } else if f.len() < 12 { 6 } else { 2 }) {
                    for v in &two {
                        put(&mut b, *x, *v);
                        for w in &two {
                            put(&mut b, *y, *w);
                            if !s.case(&b) {
                                return;
                            }
                        }
                    }
                    put(&mut b, *y, bg);
                }
                put(&mut b, *x, bg);
            }
        }
    }
}

/// Two attributes in one place, in either order, all values of which refer to constants: those of the
/// first to one text and those of the second to another, or the same.
pub fn linked_pairs(s: &mut Sink, v: &[crate::drivers::attrs::Variant], all: &[crate::drivers::attrs::Variant]) {
    s.phase("all references of two attributes lead to texts");
    const WORDS: [&str; 10] = ["A", "A", "A$B", "A$\u{e9}", "A/B", "", "LA;", "()V", "(LA;", "java/lang/Object"];
    for (i, f) in v.iter().enumerate() {
        for (j, g) in all.iter().enumerate() {
            if !s.mine() {
                continue;
            }
            for turn in 0..2 {
                let (f, g) = if turn == 0 { (f, g) } else { (g, f) };
                let mut first = 0;
                let t = at(LOCS[if s.thorough { i + j } else { (i + j) / 2 * 2 } % 4], 2, &mut |c| {
                    f(c);
                    first = c.body.b.len();
                    g(c);
                });
                let (end, n) = pool_end(&t.b);
                let first = first + end;
                let fields: Vec<(usize, u8)> = plain(&t).into_iter().filter(|f| f.0 >= end).collect();
                if fields.len() > 60 {
                    continue;
                }
                let mut x = Adder { p: Vec::new(), at: n, idx: Vec::new() };
                let names: Vec<[u16; 11]> = WORDS.iter().map(|w| named(&mut x, w)).collect();
                let mut o = t.b[..end].to_vec();
                o.extend_from_slice(&x.p);
                o[8..10].copy_from_slice(&x.at.to_be_bytes());
                o.extend_from_slice(&t.b[end..]);
                for (ai, a) in names.iter().enumerate() {
                    for (bi, b) in names.iter().enumerate() {
                        for (u, w) in [(0, 0), (1, 1), (1, 0), (0, 1), (6, 6), (6, 1), (1, 6), (8, 1)] {
                            if !s.thorough && ai != bi && (ai + bi + u + w + turn) % 2 == 0 {
                                continue;
                            }
                            for f in &fields {
                                let (c, k) = if f.0 < first { (a, u) } else { (b, w) };
                                o[f.0 + x.p.len()..][..2].copy_from_slice(&c[k].to_be_bytes());
                            }
                            if !s.case(&o) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Every place behind the constants refers to a constant of every kind: what an index refers to
/// has no influence on how it is read.
pub fn references(s: &mut Sink, lead: usize, bases: &[Vec<u8>], two: bool) {
    s.phase("references to constants of every kind");
    for base in bases {
        let (file, body, idx) = with_constants(&base[lead..]);
        let mut b = base[..lead].to_vec();
        b.extend_from_slice(&file);
        let clean = b.clone();
        for at in lead + body..b.len() {
            if !s.mine() {
                continue;
            }
            for &i in &idx {
                if i < 256 {
                    b[at] = i as u8;
                    if !s.case(&b) {
                        return;
                    }
                    b[at] = clean[at];
                }
                if at + 1 < b.len() {
                    b[at..at + 2].copy_from_slice(&i.to_be_bytes());
                    if !s.case(&b) {
                        return;
                    }
                    // and the one behind it
                    if (two || s.thorough) && at + 3 < b.len() {
                        for &j in &idx {
                            b[at + 2..at + 4].copy_from_slice(&j.to_be_bytes());
                            if !s.case(&b) {
                                return;
                            }
                        }
                        b[at + 2..at + 4].copy_from_slice(&clean[at + 2..at + 4]);
                    }
                    b[at..at + 2].copy_from_slice(&clean[at..at + 2]);
                }
            }
        }
    }
}

/// Attributes of every shape in surroundings of every kind: what surrounds an attribute has no
/// influence on it.
pub fn contexts(s: &mut Sink, v: &[Box<dyn Fn(&mut Cls)>]) {
    s.phase("attributes in different surroundings");
    let mut cs = Vec::new();
    let d = Context::default();
    for major in (0..=70).chain([100, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF]) {
        for minor in MINORS {
            if minor < 5 || (43..=70).contains(&major) {
                cs.push(Context { version: Some((major, minor)), ..d.clone() });
            }
        }
    }
    let bits: Vec<u16> = (0..16).map(|k| 1 << k).chain([0, 3, 0x0210, 0x0420, 0x0600, 0x2600, 0x4031, 0x7FFF, 0xFFFF]).collect();
    for &f in &bits {
        cs.push(Context { class: Some((f, 0x2101, 0x2203)), ..d.clone() });
        cs.push(Context { class: Some((f, 0x2101, 0)), ..d.clone() });
        cs.push(Context { flags: Some(f), ..d.clone() });
        cs.push(Context { flags: Some(f), version: Some((50, 0)), ..d.clone() });
        cs.push(Context { flags: Some(f), code: Some(&[]), ..d.clone() });
    }
    for (this, sup) in [(0, 0), (1, 1), (0x1234, 0x1234), (0, 2), (2, 0), (0xFFFF, 0xFFFF)] {
        cs.push(Context { class: Some((0x21, this, sup)), ..d.clone() });
        cs.push(Context { class: Some((0x8000, this, sup)), ..d.clone() });
    }
    for n in ["module-info", "package-info", "java/lang/Object", "A", "", "[I"] {
        for f in [0x21u16, 0x8000, 0x1600, 0x0601] {
            cs.push(Context { this: Some(n), class: Some((f, 0, 0)), ..d.clone() });
        }
    }
    for n in MEMBERS {
        for t in ["()V", "V", "", "I", "J", "Ljava/lang/String;", "(I)V", "(IJ[Ljava/lang/Object;)D", "[[I", "()"] {
            for f in [None, Some(0x0018), Some(0x1008), Some(0x0500)] {
                if f.is_none() || t == "()V" || n == "<init>" {
                    cs.push(Context { name: Some((n, t)), flags: f, ..d.clone() });
                }
            }
        }
    }
    for k in [1u32, 2, 3, 50, 200, 250, 255, 256, 300, 1000, 24_500] {
        cs.push(Context { constants: k, ..d.clone() });
        cs.push(Context { interfaces: k.min(300) as usize, ..d.clone() });
        cs.push(Context { members: k.min(300) as u16, ..d.clone() });
    }
    const CODES: [&[u8]; 12] = [
        &[], &[0], &[0xBF], &[0, 0, 0, 0, 0xB1], &[0xA7, 0, 0], &[0xA7, 0xFF, 0xFF, 0xB1], &[0x2A, 0xB7, 0, 1, 0xB1],
        &[0xAA, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0, 1, 0, 0, 0, 0], &[0xAB, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0, 0],
        &[0xC4, 0x15, 1, 0, 0xAC], &[0xBA, 0, 1, 0, 0, 0xB0], &[0xA8, 0, 3, 0xA9, 1],
    ];
    for code in CODES {
        cs.push(Context { code: Some(code), ..d.clone() });
    }
    for (j, x) in cs.iter().enumerate() {
        for loc in LOCS {
            let member = x.flags.is_some() || x.name.is_some() || x.code.is_some();
            if member && loc == Loc::Class || x.code.is_some() && loc != Loc::Code {
                continue;
            }
            if !s.mine() {
                continue;
            }
            for (i, f) in v.iter().enumerate() {
                if !s.thorough && v.len() > 40 && (i + j) % (v.len() / 20) != 0 || x.constants > 1000 && (i + loc as usize) % 9 != 0 {
                    continue;
                }
                if !s.case(&in_context(x, loc, f)) {
                    return;
                }
            }
        }
    }
}

pub const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511,
    512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383,
    16384, 16385, 32766, 32767, 32768, 32769, 40000, 50000, 65533, 65534, 65535,
];

/// Structures of boundary sizes.
pub fn sized(s: &mut Sink, name: &'static str, sizes: &[usize], gen: &mut dyn FnMut(usize) -> Built) {
    s.phase(name);
    for &n in sizes {
        if !s.mine() {
            continue;
        }
        let b = gen(n);
        if !s.case(&b.b) || !patterns(s, b) {
            return;
        }
    }
}

/// The values in a large structure all the same, or in another order.
fn patterns(s: &mut Sink, b: Built) -> bool {
    let f: Vec<(usize, u8)> = b.v.iter().map(|x| (*x, 2)).collect();
    if f.len() < 4 {
        return true;
    }
    let mut b = b.b;
    let n = f.len() as u64;
    let of: [&dyn Fn(u64) -> u64; 8] = [
        &|_| 0,
        &|_| 0xFFFF,
        &|_| 5,
        &|k| 5 + k % 2,
        &|k| 5 + k / 2 % 2,
        &|k| 9 - k % 3,
        &|k| (n - k) & 0xFFFF,
        &|k| k / (n / 2 + 1),
    ];
    for v in of {
        for (k, x) in f.iter().enumerate() {
            put(&mut b, *x, v(k as u64));
        }
        if !s.case(&b) {
            return false;
        }
    }
    true
}

/// Pairs of sizes that are both large, or one of them as large as it gets.
pub const GRID: &[(usize, usize)] = &[
    (255, 255), (256, 256), (257, 300), (300, 257), (1000, 400), (400, 1000), (20_000, 17), (17, 20_000), (65_535, 4), (4, 65_535),
];

/// Lists of lists that are long in both dimensions.
pub fn grid(s: &mut Sink, name: &'static str, gen: &mut dyn FnMut(usize, usize) -> Built) {
    s.phase(name);
    for &(n, m) in GRID {
        if !s.mine() {
            continue;
        }
        let b = gen(n, m);
        if !s.case(&b.b) || (n, m) == (400, 1000) && !patterns(s, b) {
            return;
        }
    }
}
