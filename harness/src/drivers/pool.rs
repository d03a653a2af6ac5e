//! C21 - C25: the constant pool as a data structure, driven by histories of calls.
use super::Driver;
use crate::conform::check_index;
use crate::refdec::PItem;
use crate::sink::Sink;
use crate::stats::{mix, Stats};
use crate::view;
use jbcrs::basic::{self, Item, Pool, ReferenceKind};
use jbcrs::Error;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- items

fn kind(k: u8) -> ReferenceKind {
    use ReferenceKind::*;
    match k {
        1 => GetField,
        2 => GetStatic,
        3 => PutField,
        4 => PutStatic,
        5 => InvokeVirtual,
        6 => InvokeStatic,
        7 => InvokeSpecial,
        8 => NewInvokeSpecial,
        _ => InvokeInterface,
    }
}

/// Compact description of an item: (shape, a, b).
#[derive(Copy, Clone, Debug)]
pub struct Spec(u8, u64, u64);

const SPECIAL: [char; 16] = [
    '\0', ' ', '\n', ']', 'a', '/', '.', ';', '[', 'L', '\u{e9}', '\u{FEFF}', '\u{A0}', '\u{1F600}', '\\', '\u{FFFF}',
];

/// Texts that mean something somewhere.
pub const KNOWN: [&str; 72] = [
    "java/lang/Object", "java/lang/String", "java/lang/Class", "java/lang/Throwable", "java/lang/Error", "java/lang/Exception",
    "java/lang/Enum", "java/lang/Record", "java/lang/Cloneable", "java/io/Serializable", "java/lang/annotation/Annotation",
    "java/lang/Void", "java/lang/Integer", "java.lang.Object", "Ljava/lang/Object;", "[Ljava/lang/Object;", "[[I", "[I", "I", "V",
    "Z", "()V", "(I)V", "([Ljava/lang/String;)V", "<init>", "<clinit>", "main", "this", "this$0", "$VALUES", "values", "valueOf",
    "module-info", "package-info", "META-INF", "Object", "String", "a/b/C", "a/b/C$D", "C$1", "$", "java/", "/", "//", "a/", "/a",
    "a//b", "a;b", "a.b.C", ".", "..", "[", ";", "L;", "null", "true", "false", "int", "void", "0", "-1", "1.0", "NaN", "Code", "Signature",
    "kotlin/Metadata", "scala/Function0", "javax/a/B", "jdk/internal/X", "sun/misc/Unsafe", "lambda$main$0", "access$000",
];

/// Texts of UTF-8 items.
fn text(a: u64) -> String {
    // characters by number, then texts of a given length
    match a >> 32 {
        32 => return KNOWN[a as u32 as usize % KNOWN.len()].to_owned(),
        // one special character (bits 20-23) at the start, the end or in the middle of n others
        33 => {
            let n = (a & 0xF_FFFF) as usize;
            let at = [0, n, n / 2][(a >> 24 & 3) as usize % 3];
            let c = SPECIAL[(a >> 20 & 15) as usize];
            let x = if a >> 26 & 1 == 0 { "x" } else { "\u{e9}" };
            return format!("{}{}{}", x.repeat(at), c, x.repeat(n - at));
        }
        34 => return (if a >> 26 & 1 == 0 { "x" } else { "\u{e9}" }).repeat((a & 0xF_FFFF) as usize),
        35 => return variation(KNOWN[a as u16 as usize % KNOWN.len()], (a >> 16 & 0xFF) as u8),
        // any character: alone, at the end, at the start, in the middle, twice
        k if k >= 40 => {
            let c = char::from_u32(a as u32).unwrap_or('?');
            return match k {
                40 => format!("{}", c),
                41 => format!("a{}", c),
                42 => format!("{}a", c),
                43 => format!("a{}a", c),
                44 => format!("{}{}", c, c),
                _ => format!("{}/{}", c, c),
            };
        }
        1 => {
            let n = (a >> 28 & 15) as u32;
            return (0..n).map(|k| SPECIAL[(a >> (4 * k) & 15) as usize]).collect();
        }
        0 => {}
        k => return SPECIAL[k as usize & 15].to_string().repeat(a as u32 as usize),
    }
    match a {
        0 => String::new(),
        1 => "a".to_owned(),
        2 => "b".to_owned(),
        3 => "ab".to_owned(),
        4 => "\u{e9}".to_owned(),
        5 => "e\u{301}".to_owned(),
        6 => "a\0".to_owned(),
        7 => "A".to_owned(),
        8 => "x".repeat(300),
        9 => format!("{}y", "x".repeat(299)),
        10 => "1".to_owned(),
        11 => "\u{1F600}".to_owned(),
        _ => format!("t{}", a),
    }
}

/// A text that is close to another one.
const VARIATIONS: u8 = 19;
fn variation(w: &str, how: u8) -> String {
    let chars: Vec<char> = w.chars().collect();
    match how {
        0 => format!("{}\0", w),
        1 => format!("{} ", w),
        2 => format!(" {}", w),
        3 => format!("{}\n", w),
        4 => format!("{}\u{301}", w),
        5 => format!("{}\u{feff}", w),
        6 => w.to_uppercase(),
        7 => w.to_lowercase(),
        8 => chars.iter().rev().collect(),
        9 => w.replace('/', "."),
        10 => w.replace('/', "\\"),
        11 => w.replace('$', "/"),
        12 => format!("L{};", w),
        13 => format!("[{}", w),
        14 => chars[..chars.len() - 1].iter().collect(),
        15 => chars[1..].iter().collect(),
        16 => format!("{0}{0}", w),
        17 => format!("{}/", w),
        _ => w.replace('a', "\u{430}"),
    }
}

fn item(s: Spec) -> Item {
    let (a, b) = (s.1, s.2);
    let (x, y) = (a as u16, b as u16);
    match s.0 {
        1 => Item::UTF8(text(a)),
        3 => Item::Integer(a as u32 as i32),
        4 => Item::Float(f32::from_bits(a as u32)),
        5 => Item::Long(a as i64),
        6 => Item::Double(f64::from_bits(a)),
        7 => Item::Class(x),
        8 => Item::String(x),
        9 => Item::FieldRef { class: x, name_and_type: y },
        10 => Item::MethodRef { class: x, name_and_type: y },
        11 => Item::InterfaceMethodRef { class: x, name_and_type: y },
        12 => Item::NameAndType { name: x, desc: y },
        15 => Item::MethodHandle { kind: kind(b as u8), index: x },
        16 => Item::MethodType(x),
        18 => Item::InvokeDynamic { bootstrap_method_attribute: x, name_and_type: y },
        19 => Item::Module(x),
        _ => Item::Package(x),
    }
}
fn wide(s: Spec) -> bool {
    s.0 == 5 || s.0 == 6
}

/// Texts with one special character, and texts that mean something.
fn texts(t: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..KNOWN.len() as u64).map(|k| 32 << 32 | k).collect();
    let sizes: Vec<u64> = if t { (0..300).chain([500, 1000, 1024, 4096, 20_000, 65_530]).collect() } else { (0..20).chain([23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 300, 1000, 4096, 30_000]).collect() };
    for n in sizes {
        for c in 0..16u64 {
            for at in 0..3u64 {
                for base in 0..2u64 {
                    if (base == 0 || n <= 300) && (at == 0 || n > 0) {
                        v.push(33 << 32 | base << 26 | at << 24 | c << 20 | n);
                    }
                }
            }
        }
    }
    v
}
/// Every character in every surrounding.
fn every_char(t: bool) -> Vec<u64> {
    let mut v = Vec::new();
    for c in (0..0xD800u64).chain(0xE000..0x11_0000) {
        if t || c < 0x3100 || c > 0xF900 && c < 0x1_0100 || c % 61 == 0 || c & 0xFFFF > 0xFFF0 {
            for k in 40..46 {
                v.push(k << 32 | c);
            }
        }
    }
    v
}

/// Items of every kind, many of which agree in everything but one component or the kind.
pub fn alphabet() -> Vec<Spec> {
    let mut v = Vec::new();
    for a in 0..12 {
        v.push(Spec(1, a, 0));
    }
    for a in [0u64, 1, 0x3F80_0000, 0x8000_0000, 0x7FC0_0000, 0x7FC0_0001, 0xFFC0_0000, 0x7F80_0001, 0xFFFF_FFFF, 0x0000_0100] {
        v.push(Spec(3, a, 0));
        v.push(Spec(4, a, 0));
    }
    for a in [
        0u64, 1, 1 << 63, 0x7FF8_0000_0000_0000, 0x7FF8_0000_0000_0001, 0xFFF8_0000_0000_0000, 0x7FF0_0000_0000_0001,
        u64::MAX, 1 << 32, 0x3F80_0000, 0x3FF0_0000_0000_0000,
    ] {
        v.push(Spec(5, a, 0));
        v.push(Spec(6, a, 0));
    }
    for k in [7u8, 8, 16, 19, 20] {
        for a in [0u64, 1, 2, 255, 256, 65535] {
            v.push(Spec(k, a, 0));
        }
    }
    for k in [9u8, 10, 11, 12, 18] {
        for (a, b) in [(0u64, 0u64), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (256, 1), (1, 256), (0, 65535), (65535, 0)] {
            v.push(Spec(k, a, b));
        }
    }
    for b in 1..=9 {
        for a in [0u64, 1, 2, 256] {
            v.push(Spec(15, a, b));
        }
    }
    v
}

fn same(a: Spec, b: Spec) -> bool {
    // specs are canonical for their shape
    (a.0, a.1, a.2) == (b.0, b.1, b.2)
}

// ---------------------------------------------------------------- start states

/// Start states of histories. Near-full ones leave `n` indices.
const STARTS: u8 = 14;
/// A start state; none if the parser refuses what it is to come from (C03 reports that).
fn start(k: u8) -> Option<Pool> {
    Some(match k {
        0 => Pool::new(),
        1 => Pool::default(),
        2 => Pool::with_capacity(0),
        3 => Pool::with_capacity(1),
        4 => Pool::with_capacity(7),
        5 => Pool::with_capacity(300),
        // parsed: empty; plain; with duplicates; with wide constants and their duplicates
        6 => parsed(&[])?,
        7 => parsed(&[Spec(3, 1, 0), Spec(1, 1, 0)])?,
        8 => parsed(&[Spec(3, 1, 0), Spec(3, 1, 0), Spec(1, 1, 0), Spec(1, 1, 0), Spec(7, 3, 0), Spec(7, 3, 0)])?,
        9 => parsed(&[Spec(5, 1, 0), Spec(5, 1, 0), Spec(6, 1, 0), Spec(3, 1, 0)])?,
        10 => parsed(&[Spec(3, 1, 0), Spec(5, 1, 0), Spec(1, 0, 0), Spec(6, 0, 0), Spec(6, 0, 0), Spec(1, 0, 0)])?,
        11 => {
            let mut p = Pool::new();
            for j in 0..40 {
                let _ = p.push(Item::Integer(1000 + j));
            }
            p
        }
        12 => {
            let mut p = Pool::new();
            for j in 0..40 {
                let _ = p.push(Item::Long(1000 + j));
            }
            p
        }
        _ => {
            let v: Vec<Spec> = (0..600).map(|j| Spec([1u8, 3, 5, 9][j as usize % 4], 100 + j, 3)).collect();
            parsed(&v)?
        }
    })
}

fn parsed(v: &[Spec]) -> Option<Pool> {
    let mut c = crate::build::Cls::new();
    for &s in v {
        let p = &mut c.pool;
        p.u1(s.0);
        match s.0 {
            1 => {
                let t = text(s.1);
                let mut e = Vec::new();
                crate::mutf8::encode(&t, &mut e);
                p.u2(e.len() as u16);
                p.raw(&e);
            }
            3 | 4 => p.u4(s.1 as u32),
            5 | 6 => p.u8_(s.1),
            7 | 8 | 16 | 19 | 20 => p.u2(s.1 as u16),
            15 => {
                p.u1(s.2 as u8);
                p.u2(s.1 as u16);
            }
            _ => {
                p.u2(s.1 as u16);
                p.u2(s.2 as u16);
            }
        }
        c.next += 1 + wide(s) as u32;
    }
    c.header(0);
    c.u2(0);
    c.u2(0);
    c.u2(0);
    basic::parse(&c.finish_plain()).ok().map(|x| x.0)
}

/// The contents of a pool, as lookups show them.
fn contents(p: &Pool) -> Vec<PItem> {
    let mut m = Vec::with_capacity(usize::from(p.len()));
    for i in 0..p.len() {
        m.push(match p.get(i) {
            Ok(it) => view::item(it),
            Err(_) => PItem::Gap,
        });
    }
    m
}

// ---------------------------------------------------------------- what is compared

/// Everything a pool answers, compared with the model's slots (slot 0 is the unusable index 0).
fn observe(p: &Pool, m: &[PItem], all: bool) -> Result<(), String> {
    if usize::from(p.len()) != m.len() {
        return Err(format!("length {}, expected {}", p.len(), m.len()));
    }
    if p.is_empty() != (m.len() == 1) {
        return Err(format!("is_empty {} at length {}", p.is_empty(), m.len()));
    }
    let n = m.len();
    if all || n < 600 {
        for i in 0..n.min(65536) {
            check_index(m, p, i as u16)?;
        }
        if n < 600 {
            for (i, x) in m.iter().enumerate() {
                text_lookup(p, i as u16, x)?;
            }
        }
    } else {
        for i in (0..20).chain(n - 20..n) {
            check_index(m, p, i as u16)?;
        }
    }
    for i in n..=(n + 3).min(65535) {
        check_index(m, p, i as u16)?;
    }
    check_index(m, p, 65535)
}

fn text_lookup(p: &Pool, i: u16, m: &PItem) -> Result<(), String> {
    match (p.get_utf8(i), m) {
        (Ok(ref a), PItem::Utf8(ref b)) if a == b => Ok(()),
        (Err(Error::InvalidCPItem(k)), x) if k == i && !matches!(x, PItem::Utf8(_)) => Ok(()),
        (got, _) => Err(format!("the text at {} is {:?} for {:?}", i, got, m)),
    }
}

/// The other ways to go through an iteration agree with calling next.
fn adaptors(p: &Pool, m: &[PItem]) -> Result<(), String> {
    let want: Vec<(usize, &PItem)> = m.iter().enumerate().filter(|x| *x.1 != PItem::Gap).collect();
    let n = want.len();
    let ok = |got: Option<(u16, &Item)>, k: usize| match (got, want.get(k)) {
        (None, None) => true,
        (Some((i, it)), Some((j, w))) => usize::from(i) == *j && view::same_item(it, w),
        _ => false,
    };
    if p.iter().count() != n {
        return Err(format!("count is {}, expected {}", p.iter().count(), n));
    }
    if !ok(p.iter().last(), n.wrapping_sub(1)) {
        return Err(format!("last is {:?}", p.iter().last()));
    }
    let all: Vec<(u16, &Item)> = p.iter().collect();
    let folded = p.iter().fold(0, |k, x| if ok(Some(x), k) { k + 1 } else { n + 1 });
    if all.len() != n || folded != n || all.iter().enumerate().any(|(k, x)| !ok(Some(*x), k)) {
        return Err(format!("collected: {:?}", all));
    }
    for k in 0..=n + 1 {
        let mut it = p.iter();
        let (lo, hi) = it.size_hint();
        if lo > n || hi.map_or(false, |h| h < n) {
            return Err(format!("size hint ({}, {:?}) for {} items", lo, hi, n));
        }
        if !ok(it.nth(k), k.min(n)) {
            return Err(format!("nth({}) is wrong", k));
        }
        let (lo, hi) = it.size_hint();
        let left = n.saturating_sub(k + 1);
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("size hint ({}, {:?}) for the last {} items", lo, hi, left));
        }
        if !ok(it.next(), (k + 1).min(n)) {
            return Err(format!("next after nth({}) is wrong", k));
        }
        if !ok(p.iter().skip(k).next(), k.min(n)) {
            return Err(format!("skip({}) is wrong", k));
        }
    }
    // an iteration that is under way, ended in different ways
    for k in 0..=n {
        for how in 0..9 {
            let mut it = p.iter();
            for j in 0..k {
                if !ok(it.next(), j) {
                    return Err(format!("next is wrong at {}", j));
                }
            }
            let mut at = k;
            let mut good = true;
            match how {
                0 => it.for_each(|x| {
                    good &= ok(Some(x), at);
                    at += 1;
                }),
                1 => at += it.count(),
                2 => {
                    good = ok(it.last(), if k < n { n - 1 } else { n });
                    at = n;
                }
                3 => {
                    for x in it.by_ref() {
                        good &= ok(Some(x), at);
                        at += 1;
                    }
                    good &= it.next().is_none();
                }
                4 => {
                    // two at a time
                    while let Some(x) = it.next() {
                        good &= ok(Some(x), at);
                        at += 1;
                        match it.nth(0) {
                            Some(x) => {
                                good &= ok(Some(x), at);
                                at += 1;
                            }
                            None => break,
                        }
                    }
                }
                5 => {
                    good = it.all(|x| {
                        at += 1;
                        ok(Some(x), at - 1)
                    });
                    good &= it.next().is_none();
                }
                6 => {
                    // up to one, and on from there
                    let found = it.find(|x| {
                        at += 1;
                        ok(Some(*x), at - 1) && at > k + 1
                    });
                    if k + 1 < n {
                        good = ok(found, k + 1) && ok(it.next(), (k + 2).min(n));
                    } else {
                        good = found.is_none() && it.next().is_none();
                    }
                    at = n;
                }
                7 => {
                    let v: Vec<(u16, &Item)> = it.collect();
                    good = v.iter().enumerate().all(|(j, x)| ok(Some(*x), k + j));
                    at += v.len();
                }
                _ => {
                    let v: Vec<(u16, &Item)> = it.step_by(2).collect();
                    good = v.len() == (n - k + 1) / 2 && v.iter().enumerate().all(|(j, x)| ok(Some(*x), k + 2 * j));
                    at = n;
                }
            }
            if !good || at != n {
                return Err(format!("after {} calls of next, the rest is wrong ({})", k, how));
            }
        }
    }
    Ok(())
}

fn iterate(p: &Pool, m: &[PItem]) -> Result<(), String> {
    if m.len() < 16 {
        adaptors(p, m)?;
    }
    let mut it = p.iter();
    let want = m.iter().enumerate().filter(|x| *x.1 != PItem::Gap);
    let mut n = 0;
    for (i, w) in want {
        n += 1;
        match it.next() {
            None => return Err(format!("the iteration ends before index {}", i)),
            Some((k, item)) => {
                if usize::from(k) != i || !view::same_item(item, w) {
                    return Err(format!("the iteration yields ({}, {:?}), expected ({}, {:?})", k, item, i, w));
                }
                match p.get(k) {
                    Ok(x) if std::ptr::eq(x, item) || view::same_item(x, w) => {}
                    other => return Err(format!("iterated index {} looks up {:?}", k, other)),
                }
            }
        }
    }
    for k in 0..4 {
        if let Some((i, item)) = it.next() {
            return Err(format!("{} items expected, then ({}, {:?}) (call {} after the end)", n, i, item, k));
        }
    }
    Ok(())
}

#[derive(Copy, Clone, PartialEq)]
enum Prop {
    Push,
    Dedupe,
    Full,
    Iterate,
}

fn state_hash(m: &[PItem]) -> u64 {
    let mut h = m.len() as u64;
    for x in m.iter().take(8).chain(m.iter().rev().take(8)) {
        let k = match x {
            PItem::Gap => 1,
            PItem::Utf8(s) => s.bytes().fold(2, |a, b| mix(a, b.into())),
            PItem::Other(t, a, b) => mix(mix(*t as u64, *a as u64), *b as u64),
        };
        h = mix(h, k);
    }
    h
}

/// One history: pushes one item after the other onto a pool and compares after each step.
fn history(p: &mut Pool, specs: &[Spec], prop: Prop, all: bool, st: &mut Stats) -> Result<(), String> {
    st.start();
    let mut m = contents(p);
    if m.is_empty() {
        return Err("a pool has length 0".to_owned());
    }
    m[0] = PItem::Gap;
    st.step(state_hash(&m));
    let first = |p: &Pool, m: &[PItem]| -> Result<(), String> {
        if prop == Prop::Iterate {
            iterate(p, m)
        } else {
            observe(p, m, all)
        }
    };
    first(p, &m).map_err(|e| format!("before any push: {}", e))?;
    let mut refused = false;
    for (k, &s) in specs.iter().enumerate() {
        let it = item(s);
        let new = view::item(&it);
        let w = wide(s);
        let present = m.iter().any(|x| *x == new);
        let len = m.len();
        let fits = len + w as usize <= 65534;
        let told = format!("{:?}", it);
        let at = |e: String| format!("push {} of {}: {}", k + 1, told, e);
        match p.push(it) {
            Ok(i) => {
                let stored = m.get(usize::from(i)).map_or(false, |x| *x == new);
                if present && stored {
                    st.outcome("existing index");
                } else if present && prop != Prop::Dedupe && usize::from(i) == len && fits {
                    // a second copy: not the business of this property
                    m.push(new);
                    if w {
                        m.push(PItem::Gap);
                    }
                } else if present {
                    return Err(at(format!("already stored, but index {} is returned", i)));
                } else if !fits {
                    return Err(at(format!("does not fit at length {}, but index {} is returned", len, i)));
                } else if usize::from(i) != len {
                    return Err(at(format!("index {} is returned, expected {}", i, len)));
                } else {
                    st.outcome("new index");
                    m.push(new);
                    if w {
                        m.push(PItem::Gap);
                    }
                }
            }
            Err(Error::CPTooLarge) if !fits || (len == 65535 && present) => {
                refused = true;
                st.outcome("too large")
            }
            // an item that is stored already needs no room; a nearly full pool may still refuse it
            Err(e) => return Err(at(format!("fails with {:?} at length {}", e, len))),
        }
        st.step(state_hash(&m));
        if prop == Prop::Iterate {
            iterate(p, &m).map_err(at)?;
        } else {
            observe(p, &m, all && k + 1 == specs.len()).map_err(at)?;
        }
    }
    if prop == Prop::Full {
        iterate_plain(p, &m)?;
        // what is stored is still found where it is
        if refused {
            for i in 1..m.len() {
                stored(p, &m, i)?;
            }
            observe(p, &m, false)?;
        }
    }
    st.distinct(state_hash(&m));
    Ok(())
}

/// Pushing what is stored at an index yields that index (or is refused by a pool that is full).
fn stored(p: &mut Pool, m: &[PItem], i: usize) -> Result<(), String> {
    let it = match p.get(i as u16) {
        Ok(it) => it.clone(),
        Err(_) => return Ok(()),
    };
    match p.push(it) {
        Ok(k) if m.get(usize::from(k)) == m.get(i) => Ok(()),
        Err(Error::CPTooLarge) if m.len() == 65535 => Ok(()),
        other => Err(format!("pushing {:?} again, which is stored at {}: {:?}", m[i], i, other)),
    }
}

/// The items an iteration yields, without regard to the indices.
fn iterate_plain(p: &Pool, m: &[PItem]) -> Result<(), String> {
    let mut it = p.iter().map(|x| x.1);
    for w in m.iter().filter(|x| **x != PItem::Gap) {
        match it.next() {
            Some(x) if view::same_item(x, w) => {}
            other => return Err(format!("the iteration yields {:?}, expected {:?}", other, w)),
        }
    }
    match it.next() {
        None => Ok(()),
        Some(x) => Err(format!("the iteration goes on with {:?}", x)),
    }
}

fn put(p: &mut Vec<u8>, s: Spec) {
    p.push(s.0);
    p.extend_from_slice(&s.1.to_be_bytes());
    p.extend_from_slice(&s.2.to_be_bytes());
}
fn specs(p: &[u8]) -> Vec<Spec> {
    let n = |b: &[u8]| b.iter().fold(0u64, |a, x| a << 8 | u64::from(*x));
    p.chunks(17).map(|c| Spec(c[0], n(&c[1..9]), n(&c[9..17]))).collect()
}

/// Payload: start state, items.
fn run_push(p: &[u8], st: &mut Stats) -> Result<(), String> {
    if p[0] == 0xFE {
        return match filled(p[1], 65535 - (usize::from(p[2]) * 256 + usize::from(p[3]))) {
            Some(mut pool) => history(&mut pool, &specs(&p[4..]), Prop::Push, true, st),
            None => no_start(st),
        };
    }
    match begin(p) {
        Some((mut pool, rest)) => history(&mut pool, &specs(rest), Prop::Push, true, st),
        None => no_start(st),
    }
}
/// The start state a payload asks for, and what follows: 0xFD, a number and so many items are a
/// parsed pool, anything else is the number of a fixed start.
fn begin(p: &[u8]) -> Option<(Pool, &[u8])> {
    if p[0] == 0xFD {
        let n = 2 + 17 * usize::from(p[1]);
        return parsed(&specs(&p[2..n])).map(|x| (x, &p[n..]));
    }
    start(p[0]).map(|x| (x, &p[1..]))
}
fn run_dedupe(p: &[u8], st: &mut Stats) -> Result<(), String> {
    if p[0] == 0xFE {
        return match filled(p[1], usize::from(p[2])) {
            Some(mut pool) => history(&mut pool, &specs(&p[3..]), Prop::Dedupe, true, st),
            None => no_start(st),
        };
    }
    if p[0] == 0xEE {
        return pair(&specs(&p[1..]), st);
    }
    if p[0] == 0xEC {
        return sweep(&p[1..], st);
    }
    if p[0] == 0xED {
        return many(p[1], u64::from(p[2]) << 8 | u64::from(p[3]), st);
    }
    match begin(p) {
        Some((mut pool, rest)) => history(&mut pool, &specs(rest), Prop::Dedupe, true, st),
        None => no_start(st),
    }
}

fn no_start(st: &mut Stats) -> Result<(), String> {
    st.outcome("start state refused by the parser");
    Ok(())
}

fn hash_of(i: &Item) -> u64 {
    let mut h = DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

/// Equality and hash of two items.
fn pair(v: &[Spec], st: &mut Stats) -> Result<(), String> {
    let (a, b) = (item(v[0]), item(v[1]));
    let eq = same(v[0], v[1]);
    st.start();
    st.step(mix(v[0].0.into(), v[1].0.into()) ^ eq as u64);
    st.distinct(mix(mix(v[0].1, v[0].2), mix(v[1].1, v[1].2)));
    st.outcome(if eq { "equal" } else { "different" });
    for (x, y) in [(&a, &b), (&b, &a)] {
        if (x == y) != eq || (x != y) == eq {
            return Err(format!("{:?} == {:?} is {}", x, y, x == y));
        }
    }
    if eq && hash_of(&a) != hash_of(&b) {
        return Err(format!("equal items {:?} and {:?} have different hashes", a, b));
    }
    let c = a.clone();
    if c != a || view::item(&c) != view::item(&a) || hash_of(&c) != hash_of(&a) {
        return Err(format!("the clone of {:?} is {:?}", a, c));
    }
    Ok(())
}

/// Very many items of one kind: each gets an index of its own, and the same one again.
fn many(k: u8, n: u64, st: &mut Stats) -> Result<(), String> {
    let mut p = Pool::new();
    let spec = |j: u64| match k {
        1 => Spec(1, 100 + j, 0),
        3 => Spec(3, j, 0),
        4 => Spec(4, j.wrapping_mul(0x0101_0101), 0),
        5 => Spec(5, j << 20, 0),
        6 => Spec(6, j << 31, 0),
        9..=12 | 18 => Spec(k, j & 255, j >> 8),
        15 => Spec(15, j / 9, j % 9 + 1),
        21 => Spec(9, 7, j),
        22 => Spec(10, j, 7),
        _ => Spec(k, j, 0),
    };
    let w = if k == 5 || k == 6 { 2 } else { 1 };
    st.start();
    for round in 0..2 {
        for j in 0..n {
            let want = 1 + j * w;
            match p.push(item(spec(j))) {
                Ok(i) if u64::from(i) == want => {}
                r => return Err(format!("round {}: item {} of kind {}: {:?}, expected index {}", round, j, k, r, want)),
            }
        }
        st.step(mix(k.into(), round));
        if u64::from(p.len()) != 1 + n * w {
            return Err(format!("length {} after {} items", p.len(), n));
        }
    }
    for j in 0..n {
        match p.get((1 + j * w) as u16) {
            Ok(it) if view::item(it) == view::item(&item(spec(j))) => {}
            r => return Err(format!("item {}: {:?}", j, r)),
        }
    }
    Ok(())
}

/// Very many items that differ in one component: each gets an index of its own.
fn sweep(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let (k, comp, other, mode) = (p[0], p[1], u64::from(p[2]) << 8 | u64::from(p[3]), p[4]);
    let values: Vec<u64> = match mode {
        // all 16-bit values (the pool takes all but one of them), from either end
        0 => (0..65534).collect(),
        1 => (0..65534).map(|v| 65535 - v).collect(),
        // values with up to two bits set or cleared
        2 => {
            let mut v = vec![0, u64::MAX];
            for i in 0..64u32 {
                for j in 0..=i {
                    let b = 1u64 << i | 1 << j;
                    v.push(b);
                    v.push(!b);
                }
            }
            v
        }
        3 => (0..65534).map(|v| v << 16 | 0x7F).collect(),
        4 => (0..32767).map(|v| v << 32).collect(),
        5 => (0..32767).map(|v| v << 48 | v).collect(),
        // characters
        _ => (0..65534).map(|v| 40 << 32 | (u64::from(mode - 6) * 65534 + v)).filter(|v| char::from_u32(*v as u32).is_some() && *v as u32 != '?' as u32).collect(),
    };
    let mut pool = Pool::new();
    let mut seen = std::collections::HashMap::new();
    st.start();
    for round in 0..2 {
        for &v in &values {
            let x = match k {
                3 | 4 => Spec(k, v & 0xFFFF_FFFF, 0),
                1 | 5 | 6 => Spec(k, v, 0),
                _ if comp == 0 => Spec(k, v & 0xFFFF, other),
                _ => Spec(k, other, v & 0xFFFF),
            };
            let len = pool.len();
            let want = *seen.entry((x.1, x.2)).or_insert(len);
            if wide(x) && len > 65533 {
                break;
            }
            match pool.push(item(x)) {
                Ok(i) if i == want => {}
                r => return Err(format!("round {}: {:?}: {:?}, expected index {}", round, item(x), r, want)),
            }
        }
        st.step(mix(mix(k.into(), round), mix(other, mode.into())));
    }
    for (v, i) in &seen {
        match pool.get(*i) {
            Ok(it) if view::item(it) == view::item(&item(Spec(k, v.0, v.1))) => {}
            Err(_) if *i >= pool.len() => {}
            r => return Err(format!("index {}: {:?}", i, r)),
        }
    }
    st.distinct(mix(mix(k.into(), comp.into()), mix(other, mode.into())));
    Ok(())
}

fn product(s: &mut Sink, head: &[u8], alpha: &[Spec], len: u32) {
    let n = alpha.len();
    for k in 0..n.pow(len) {
        if (k / 8) % s.nshards != s.shard {
            continue;
        }
        let mut p = head.to_vec();
        let mut r = k;
        for _ in 0..len {
            put(&mut p, alpha[r % n]);
            r /= n;
        }
        if !s.case(&p) {
            return;
        }
    }
}

/// One item of each kind and a few more.
fn kinds() -> Vec<Spec> {
    let mut v: Vec<Spec> = [7u8, 8, 16, 19, 20].iter().map(|k| Spec(*k, 1, 0)).collect();
    v.extend([9u8, 10, 11, 12, 18].iter().map(|k| Spec(*k, 1, 2)));
    v.extend([Spec(15, 1, 6), Spec(15, 1, 5), Spec(1, 0, 0), Spec(1, 1, 0), Spec(3, 1, 0), Spec(3, 2, 0)]);
    v.extend([Spec(4, 0, 0), Spec(4, 1 << 31, 0), Spec(5, 1, 0), Spec(5, 2, 0), Spec(6, 1, 0), Spec(6, 0x7FF8 << 48, 0)]);
    v
}

/// Pushes onto pools that were parsed: all pools of few items, in which items are there twice and
/// refer to one another.
fn parsed_starts(s: &mut Sink, alpha: &[Spec], most: u32, pushes: u32) {
    s.phase("pushes onto parsed pools");
    let n = alpha.len();
    for len in 0..=most {
        for k in 0..n.pow(len) {
            if (k / 8) % s.nshards != s.shard {
                continue;
            }
            let mut head = vec![0xFD, len as u8];
            let mut r = k;
            for _ in 0..len {
                put(&mut head, alpha[r % n]);
                r /= n;
            }
            for m in 0..=pushes {
                for j in 0..n.pow(m) {
                    let mut p = head.clone();
                    let mut r = j;
                    for _ in 0..m {
                        put(&mut p, alpha[r % n]);
                        r /= n;
                    }
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
}
/// Items that refer to the first indices, and what they refer to.
fn referring() -> Vec<Spec> {
    let mut v = vec![Spec(1, 1, 0), Spec(1, 2, 0), Spec(5, 1, 0)];
    for k in [7u8, 8] {
        v.extend([1, 2, 3].iter().map(|a| Spec(k, *a, 0)));
    }
    v.extend([Spec(16, 1, 0), Spec(12, 1, 2), Spec(12, 1, 1), Spec(9, 1, 2), Spec(10, 1, 2), Spec(15, 1, 6), Spec(3, 1, 0), Spec(4, 1, 0), Spec(6, 1, 0)]);
    v
}

fn c21(s: &mut Sink) {
    let t = s.thorough;
    let k = kinds();
    parsed_starts(s, &referring(), 3, if t { 2 } else { 1 });
    parsed_starts(s, &referring(), 2, 2);
    s.phase("histories over all kinds");
    for st in 0..STARTS {
        for len in 0..=2 {
            product(s, &[st], &k, len);
        }
    }
    for st in if t { vec![0u8, 1, 3, 8, 9, 10, 12] } else { vec![0, 1, 9] } {
        product(s, &[st], &k, 3);
    }
    if t {
        product(s, &[0], &k, 4);
    }
    s.phase("long histories over few items");
    let few = [Spec(3, 1, 0), Spec(5, 1, 0), Spec(6, 1, 0), Spec(1, 1, 0), Spec(7, 3, 0)];
    for st in [0u8, 1, 3, 9, 10, 12] {
        for len in 4..=if t { 7 } else { 5 } {
            product(s, &[st], &few, len);
        }
    }
    let two = [Spec(3, 1, 0), Spec(5, 1, 0)];
    let _ = two;
    s.phase("long histories of distinct items");
    // all patterns of narrow and wide items
    for st in [0u8, 1, 2, 6, 9] {
        for len in 1..=if t { 14u32 } else { 10 } {
            for k in 0..1u64 << len {
                if (k / 4) as usize % s.nshards != s.shard {
                    continue;
                }
                let mut p = vec![st];
                for j in 0..len {
                    put(&mut p, Spec(if k >> j & 1 == 1 { 5 } else { 3 }, 100 + u64::from(j), 0));
                }
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("texts");
    for (k, a) in texts(t).into_iter().chain(every_char(t)).enumerate() {
        if (k / 8) % s.nshards != s.shard {
            continue;
        }
        for st in [0u8, 1] {
            let mut p = vec![st];
            put(&mut p, Spec(1, a, 0));
            put(&mut p, Spec(7, 1, 0));
            put(&mut p, Spec(1, a, 0));
            if (st == 0 || k % 6 == 0) && !s.case(&p) {
                return;
            }
        }
    }
    around(s, t);
    s.phase("histories at the end of the pool");
    let a = [Spec(5, 1, 0), Spec(3, 1, 0), Spec(6, 1, 0), Spec(1, 1, 0), Spec(3, 100, 0)];
    for how in [0u8, 5] {
        for left in 0..=3usize {
            let n = 65535 - left;
            let head = [0xFE, how, (n >> 8) as u8, n as u8];
            for len in 0..=if t { 4 } else { 3 } {
                product(s, &head, &a[..if len == 3 { 3 } else { 5 }], len);
            }
        }
    }
    for st in 0..STARTS {
        if s.mine() {
            let mut p = vec![st];
            for j in 0..300 {
                put(&mut p, Spec([3u8, 5, 1, 9][j as usize % 4], 5000 + j, 1));
            }
            if !s.case(&p) {
                return;
            }
        }
    }
}

/// Histories that cross the given lengths, from pools filled in every way.
fn around(s: &mut Sink, t: bool) {
    s.phase("histories across boundary lengths");
    let a = [Spec(3, 1, 0), Spec(5, 1, 0), Spec(1, 1, 0), Spec(6, 1, 0), Spec(3, 100, 0), Spec(5, 102, 0)];
    let mut bounds = vec![127usize, 255, 4095, 32767];
    if t {
        bounds.extend([511, 1023, 2047, 8191, 16383, 49151, 65534]);
    }
    for how in [0u8, 1, 2, 4, 5] {
        for &b in &bounds {
            for before in 0..=if t { 5usize } else { 3 } {
                let n = b - before;
                let head = [0xFE, how, (n >> 8) as u8, n as u8];
                for len in if t { 0..=4 } else { 2..=3 } {
                    product(s, &head, &a[..if len > 2 && !t { 4 } else { 6 }], len);
                }
                if s.mine() {
                    let mut p = head.to_vec();
                    for j in 0..12 {
                        put(&mut p, Spec([5u8, 3, 6, 1][j as usize % 4], 400_000 + j, 1));
                    }
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
}

fn c22(s: &mut Sink) {
    let t = s.thorough;
    let a = alphabet();
    parsed_starts(s, &referring(), 3, if t { 2 } else { 1 });
    parsed_starts(s, &referring()[..9], 3, 2);
    parsed_starts(s, &referring(), 2, 2);
    s.phase("pairs of items: equality and hash");
    product(s, &[0xEE], &a, 2);
    s.phase("operands: equality and hash");
    const M: [u64; 12] = [0, 1, 2, 3, 255, 256, 257, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF];
    for k in [9u8, 10, 11, 12, 15, 18] {
        let m: Vec<Spec> = M.iter().flat_map(|x| M.iter().enumerate().map(move |(j, y)| Spec(k, *x, if k == 15 { j as u64 % 9 + 1 } else { *y }))).collect();
        product(s, &[0xEE], &m, 2);
    }
    s.phase("kinds with equal operands: equality and hash");
    for x in M {
        for y in M {
            let mut m: Vec<Spec> = [7u8, 8, 16, 19, 20, 3, 4, 5, 6].iter().map(|k| Spec(*k, x, 0)).collect();
            m.extend([9u8, 10, 11, 12, 18].iter().map(|k| Spec(*k, x, y)));
            m.extend((1..10).map(|k| Spec(15, x, k)));
            product(s, &[0xEE], &m, 2);
        }
    }
    s.phase("histories of two from every item");
    for st in [0u8, 8, 9] {
        product(s, &[st], &a, 2);
    }
    s.phase("histories over near-equal items");
    let near = [
        Spec(3, 1, 0), Spec(4, 1, 0), Spec(4, 0, 0), Spec(4, 1 << 31, 0), Spec(5, 1, 0), Spec(6, 1, 0), Spec(6, 1 << 63, 0),
        Spec(7, 1, 0), Spec(8, 1, 0), Spec(9, 1, 2), Spec(10, 1, 2), Spec(1, 1, 0), Spec(15, 1, 5), Spec(6, 0, 0),
    ];
    for st in [0u8, 1, 8, 9, 10] {
        product(s, &[st], &near, 3);
        product(s, &[st], &near[..if t { 14 } else { 7 }], 4);
    }
    product(s, &[0], &near[2..6], if t { 8 } else { 6 });
    s.phase("histories at the end of the pool");
    let end = [Spec(3, 1, 0), Spec(5, 1, 0), Spec(1, 1, 0), Spec(3, 100, 0), Spec(5, 102, 0)];
    for how in [0u8, 1, 4, 5] {
        for left in 0..=if t { 6u8 } else { 4 } {
            for len in 1..=if t { 4 } else { 2 } {
                product(s, &[0xFE, how, left], &end, len);
            }
        }
    }
    s.phase("full pools of items that differ in one component");
    let others: &[u16] = if t { &[0, 1, 2, 255, 256, 4000, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF] } else { &[0, 1, 0xFFFF] };
    for k in [7u8, 8, 16, 19, 20, 9, 10, 11, 12, 18] {
        for comp in 0..if k == 7 || k == 8 || k > 18 || k == 16 { 1 } else { 2 } {
            for o in others {
                for mode in 0..2 {
                    if s.mine() && !s.case(&[0xEC, k, comp, (o >> 8) as u8, *o as u8, mode]) {
                        return;
                    }
                }
            }
        }
    }
    for kind in 1..=9 {
        for mode in 0..2 {
            if s.mine() && !s.case(&[0xEC, 15, 0, 0, kind, mode]) {
                return;
            }
        }
    }
    for k in 3..7 {
        for mode in 0..if k < 5 { 4 } else { 6 } {
            if s.mine() && !s.case(&[0xEC, k, 0, 0, 0, mode]) {
                return;
            }
        }
    }
    for mode in 6..6 + 17 {
        if s.mine() && !s.case(&[0xEC, 1, 0, 0, 0, mode]) {
            return;
        }
    }
    s.phase("texts, pushed twice");
    for (k, a) in texts(t).into_iter().enumerate() {
        if k % s.nshards == s.shard {
            let mut p = vec![0];
            for x in [Spec(1, a, 0), Spec(1, 32 << 32, 0), Spec(1, a, 0), Spec(1, a ^ 1 << 20, 0), Spec(1, a, 0)] {
                put(&mut p, x);
            }
            // the two others may be the same text
            if text(a) != text(32 << 32) && text(a ^ 1 << 20) != text(a) && text(a ^ 1 << 20) != text(32 << 32) && !s.case(&p) {
                return;
            }
        }
    }
    s.phase("texts that are close to one another");
    let mut close: Vec<(u64, u64)> = Vec::new();
    for a in texts(t) {
        if a >> 32 == 33 {
            close.push((a, 34 << 32 | a & 0x40F_FFFF));
        }
    }
    for k in 0..KNOWN.len() as u64 {
        (0..u64::from(VARIATIONS)).for_each(|h| close.push((32 << 32 | k, 35 << 32 | h << 16 | k)));
    }
    for (k, (a, b)) in close.into_iter().enumerate() {
        if k % s.nshards == s.shard && text(a) != text(b) {
            for (a, b) in [(a, b), (b, a)] {
                let mut p = vec![0];
                for x in [Spec(1, a, 0), Spec(1, b, 0), Spec(1, a, 0), Spec(1, b, 0)] {
                    put(&mut p, x);
                }
                let mut q = vec![0xEE];
                put(&mut q, Spec(1, a, 0));
                put(&mut q, Spec(1, b, 0));
                if !s.case(&p) || !s.case(&q) {
                    return;
                }
            }
        }
    }
    s.phase("full pools of one kind, pushed twice");
    for k in [1u8, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20, 21, 22] {
        for n in [300u64, if k == 5 || k == 6 { 32766 } else { 65533 }] {
            if s.mine() && !s.case(&[0xED, k, (n >> 8) as u8, n as u8]) {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C23

/// Payload: how the pool is filled, indices left, items.
fn run_full(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let left = usize::from(p[1]);
    let mut pool = match filled(p[0], left) {
        Some(pool) => pool,
        None => return no_start(st),
    };
    history(&mut pool, &specs(&p[2..]), Prop::Full, true, st)
}
fn filled(how: u8, left: usize) -> Option<Pool> {
    // lengths run from 1 to 65535: 65534 usable indices
    let target = 65535 - left;
    let mut p = match how {
        0 | 1 => Pool::new(),
        2 => Pool::with_capacity(65535),
        3 => Pool::default(),
        _ => {
            let mut c = crate::build::Cls::new();
            let mut k = 0u32;
            while (c.next as usize) < target {
                if how == 5 && k % 3 == 1 && (c.next as usize) + 1 < target {
                    c.pool.u1(5);
                    c.pool.u8_(u64::from(k) + 100);
                    c.next += 2;
                } else {
                    c.pool.u1(3);
                    c.pool.u4(k + 100);
                    c.next += 1;
                }
                k += 1;
            }
            c.header(0);
            c.u2(0);
            c.u2(0);
            c.u2(0);
            let n = c.next as u16;
            return basic::parse(&c.finish_count(n).b).ok().map(|x| x.0);
        }
    };
    let mut k = 0i64;
    let mut len = 1;
    while len < target {
        if how == 1 && len + 1 < target {
            let _ = p.push(Item::Long(k + 100));
            len += 2;
        } else {
            let _ = p.push(Item::Integer(k as i32 + 100));
            len += 1;
        }
        k += 1;
    }
    Some(p)
}

fn c23(s: &mut Sink) {
    let t = s.thorough;
    s.phase("histories at the end of the pool");
    // new narrow and wide items, each possibly repeated, and items that are stored already
    let a = [Spec(3, 1, 0), Spec(5, 1, 0), Spec(1, 1, 0), Spec(6, 1, 0), Spec(3, 100, 0), Spec(5, 102, 0)];
    for how in [0u8, 1, 4, 5, 2, 3] {
        for left in 0..=if t { 5u8 } else { 3 } {
            for len in 0..=if t { 4 } else { 2 } {
                if how >= 2 && how <= 3 && len > 2 {
                    continue;
                }
                product(s, &[how, left], &a, len);
            }
        }
    }
    for left in 0..=3u8 {
        product(s, &[0, left], &a[..4], if t { 5 } else { 3 });
    }
    s.phase("every kind at the end of the pool");
    for left in 0..=2u8 {
        for k in kinds() {
            for how in [0u8, 5] {
                if s.mine() {
                    let mut p = vec![how, left];
                    put(&mut p, k);
                    put(&mut p, Spec(5, 9999, 0));
                    put(&mut p, k);
                    put(&mut p, Spec(3, 9999, 0));
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("many pushes to a full pool");
    for left in 0..=3u8 {
        for w in [3u8, 5] {
            if s.mine() {
                let mut p = vec![0, left];
                for k in 0..12 {
                    put(&mut p, Spec(w, 77_777 + k, 0));
                }
                put(&mut p, Spec(3, 7, 0));
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C24

/// Payload as for the histories; 0xFE: filled pools.
fn run_iter(p: &[u8], st: &mut Stats) -> Result<(), String> {
    if p[0] == 0xFE {
        let mut pool = match filled(p[1], usize::from(p[2]) * 256 + usize::from(p[3])) {
            Some(pool) => pool,
            None => return no_start(st),
        };
        let r = history(&mut pool, &specs(&p[4..]), Prop::Iterate, true, st);
        if r.is_ok() && p[2] == 0 {
            // the end is permanent
            let mut it = pool.iter();
            while it.next().is_some() {}
            for k in 0..70_000 {
                if it.next().is_some() {
                    return Err(format!("call {} after the end yields an item", k));
                }
            }
        }
        return r;
    }
    match begin(p) {
        Some((mut pool, rest)) => history(&mut pool, &specs(rest), Prop::Iterate, true, st),
        None => no_start(st),
    }
}

fn c24(s: &mut Sink) {
    let t = s.thorough;
    let k = kinds();
    parsed_starts(s, &referring(), 3, if t { 2 } else { 1 });
    s.phase("histories");
    for st in 0..STARTS {
        for len in 0..=2 {
            product(s, &[st], &k, len);
        }
    }
    for st in [0u8, 9, 12] {
        product(s, &[st], &k, 3);
    }
    s.phase("patterns of narrow and wide items");
    for st in [0u8, 1, 6, 9, 10] {
        for len in 1..=if t { 16u32 } else { 11 } {
            for k in 0..1u64 << len {
                if (k / 4) as usize % s.nshards != s.shard {
                    continue;
                }
                let mut p = vec![st];
                for j in 0..len {
                    put(&mut p, Spec(if k >> j & 1 == 1 { 6 } else { 3 }, 100 + u64::from(j), 0));
                }
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("every item at every index");
    let a = alphabet();
    for how in 0..2u8 {
        for len in (1..=if t { 1030usize } else { 260 }).chain([510, 511, 512, 1022, 1023, 4094, 4095, 32766, 32767, 32768, 65278, 65279, 65530, 65531, 65532, 65533]) {
            if !s.mine() {
                continue;
            }
            let left = 65535 - len;
            for (j, &x) in a.iter().enumerate() {
                if len > 600 && !t && j % 4 != len % 4 && !wide(x) || len > 1030 && (j + len) % 5 != 0 {
                    continue;
                }
                let mut p = vec![0xFE, how, (left >> 8) as u8, left as u8];
                put(&mut p, x);
                put(&mut p, Spec(3, 88_889, 0));
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("large pools");
    let lefts: Vec<u16> = (0..6).chain([300, 32767, 32768, 40000, 65000, 65277, 65278, 65279, 65280, 65530, 65532, 65533, 65534]).collect();
    for how in 0..=5u8 {
        for &left in &lefts {
            for tail in 0..3 {
                if s.mine() {
                    let mut p = vec![0xFE, how, (left >> 8) as u8, left as u8];
                    if tail > 0 {
                        put(&mut p, Spec([3u8, 5][tail - 1], 88_888, 0));
                        put(&mut p, Spec(3, 88_889, 0));
                    }
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C25

/// Payload: 0 pushed, 1 parsed; items.
fn run_typed(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let v = specs(&p[1..]);
    let pool = if p[0] == 1 {
        match parsed(&v) {
            Some(pool) => pool,
            None => return no_start(st),
        }
    } else {
        let mut q = Pool::new();
        for &s in &v {
            let _ = q.push(item(s));
        }
        q
    };
    let m = contents(&pool);
    st.start();
    st.step(state_hash(&m));
    let utf8 = |i: u16| match m.get(usize::from(i)) {
        Some(PItem::Utf8(s)) => Some(s.clone()),
        _ => None,
    };
    let n = m.len() as u16;
    let idx: Vec<u16> = if n > 2000 { (0..50).chain(n - 50..n.saturating_add(3)).collect() } else { (0..n.saturating_add(3)).collect() };
    for i in idx.into_iter().chain([255, 256, 65534, 65535]) {
        let bad = |what: &str, got: String| Err(format!("{}({}) is {} for {:?}", what, i, got, m.get(usize::from(i))));
        match (pool.get_utf8(i), utf8(i)) {
            (Ok(ref a), Some(ref b)) if a == b => st.outcome("text"),
            (Err(Error::InvalidCPItem(k)), None) if k == i => {}
            (got, _) => return bad("get_utf8", format!("{:?}", got)),
        }
        let class = match m.get(usize::from(i)) {
            Some(PItem::Other(crate::stream::Tag::PClass, a, _)) => Some(*a as u16),
            _ => None,
        };
        let name = class.map(|a| utf8(a));
        let at_fault = |k: u16| k == i || Some(k) == class;
        match (pool.get_class_name(i), &name) {
            (Ok(ref a), Some(Some(b))) if a == b => st.outcome("class name"),
            (Err(Error::InvalidCPItem(k)), None) if k == i => {}
            (Err(Error::InvalidCPItem(k)), Some(None)) if at_fault(k) => {}
            (got, _) => return bad("get_class_name", format!("{:?}", got)),
        }
        match (pool.get_class_name_opt(i), &name) {
            (Ok(None), _) if class == Some(0) => st.outcome("no class name"),
            (Ok(Some(ref a)), Some(Some(b))) if a == b && class != Some(0) => {}
            (Err(Error::InvalidCPItem(k)), None) if k == i => {}
            (Err(Error::InvalidCPItem(k)), Some(None)) if at_fault(k) && class != Some(0) => {}
            (got, _) => return bad("get_class_name_opt", format!("{:?}", got)),
        }
    }
    st.distinct(state_hash(&m));
    Ok(())
}

fn c25(s: &mut Sink) {
    let t = s.thorough;
    // entries of every kind that point at each other
    let mut a: Vec<Spec> = vec![Spec(1, 1, 0), Spec(1, 0, 0), Spec(1, 11, 0), Spec(5, 7, 0), Spec(3, 1, 0)];
    for k in 0..6 {
        a.push(Spec(7, k, 0));
    }
    a.push(Spec(7, 65535, 0));
    for k in [8u8, 16, 19, 20] {
        a.push(Spec(k, 1, 0));
    }
    for k in [9u8, 10, 11, 12, 18] {
        a.push(Spec(k, 1, 1));
    }
    a.extend([Spec(15, 1, 6), Spec(4, 1, 0), Spec(6, 1, 0)]);
    s.phase("pools of up to three items");
    for how in 0..2 {
        for len in 0..=if t { 4 } else { 3 } {
            product(s, &[how], &a, len);
        }
    }
    s.phase("pools of more items, smaller alphabet");
    let few = [Spec(1, 1, 0), Spec(5, 7, 0), Spec(7, 1, 0), Spec(7, 2, 0), Spec(7, 3, 0), Spec(7, 0, 0), Spec(8, 1, 0)];
    for how in 0..2 {
        for len in 4..=if t { 6 } else { 5 } {
            product(s, &[how], &few, len);
        }
    }
    s.phase("every name index");
    for i in 0..65536u64 {
        if (i / 8) as usize % s.nshards != s.shard {
            continue;
        }
        let mut p = vec![(i % 2) as u8];
        for x in [Spec(1, 2, 0), Spec(5, 3, 0), Spec(1, 3, 0), Spec(7, i, 0), Spec(1, 0, 0), Spec(19, i, 0)] {
            put(&mut p, x);
        }
        if !s.case(&p) {
            return;
        }
    }
    s.phase("texts of special characters");
    for n in 0..=if t { 6u64 } else { 5 } {
        for k in 0..16u64.pow(n as u32) {
            if (k / 16) as usize % s.nshards != s.shard {
                continue;
            }
            let mut p = vec![(k % 2) as u8];
            for x in [Spec(7, 2, 0), Spec(1, 1 << 32 | n << 28 | k, 0), Spec(7, 2, 0), Spec(1, 1 << 32 | 1 << 28 | 4, 0)] {
                put(&mut p, x);
            }
            if !s.case(&p) {
                return;
            }
            p[0] ^= 1;
            if n < 3 && !s.case(&p) {
                return;
            }
        }
    }
    s.phase("texts in every order");
    for (k, a) in texts(t).into_iter().chain(every_char(t)).enumerate() {
        if (k / 8) % s.nshards != s.shard {
            continue;
        }
        for how in 0..2u8 {
            for order in 0..3 {
                let mut p = vec![how];
                let u = Spec(1, a, 0);
                let list: &[Spec] = match order {
                    0 => &[u, Spec(7, 1, 0)],
                    1 => &[Spec(7, 2, 0), u, Spec(7, 0, 0)],
                    _ => &[Spec(1, 32 << 32 | 1, 0), Spec(5, 1, 0), Spec(7, 5, 0), u, Spec(7, 1, 0), Spec(7, 5, 0)],
                };
                for x in list {
                    put(&mut p, *x);
                }
                if (t || order == (k % 3) || a >> 32 == 32) && !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("texts of every length");
    for n in (0..=if t { 4096u64 } else { 700 }).chain(crate::phases::SIZES.iter().map(|x| *x as u64)) {
        for c in [4u64, 10, 13] {
            if !s.mine() || n * [0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 2, 0, 0, 6][c as usize] > 65535 {
                continue;
            }
            for how in 0..2 {
                let mut p = vec![how];
                for x in [Spec(1, c << 32 | n, 0), Spec(7, 1, 0)] {
                    put(&mut p, x);
                }
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("class items that come last, at every index");
    for n in (0..if t { 3000u64 } else { 700 }).chain([1021, 1022, 1023, 1024, 2046, 2047, 4094, 4095, 32766, 32767, 32768, 65532, 65533]) {
        for how in 0..2 {
            if s.mine() {
                for target in [1, 2, n / 2, n, n + 1, n + 2] {
                    for kind in [7u64, 1] {
                        let mut p = vec![how];
                        for j in 0..n {
                            put(&mut p, Spec([1u8, 3][(j % 2) as usize], 100 + j, 0));
                        }
                        put(&mut p, Spec(kind as u8, if kind == 7 { target } else { 2 }, 0));
                        if !s.case(&p) {
                            return;
                        }
                        if n > 2000 {
                            break;
                        }
                    }
                }
            }
        }
    }
    s.phase("class items late in a large pool");
    for n in [250u64, 255, 256, 257, 511, 1000, if t { 60_000 } else { 3000 }] {
        for target in [1u64, 2, n / 2, n - 1, n, n + 1, n + 2, n + 3] {
            for how in 0..2 {
                if s.mine() {
                    let mut p = vec![how];
                    for j in 0..n {
                        put(&mut p, Spec([1u8, 3][(j % 2) as usize], 100 + j, 0));
                    }
                    put(&mut p, Spec(7, target, 0));
                    put(&mut p, Spec(1, 99, 0));
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
}

pub const DRIVERS: &[Driver] = &[
    Driver { id: "C21", run: run_push, explore: c21 },
    Driver { id: "C22", run: run_dedupe, explore: c22 },
    Driver { id: "C23", run: run_full, explore: c23 },
    Driver { id: "C24", run: run_iter, explore: c24 },
    Driver { id: "C25", run: run_typed, explore: c25 },
];
