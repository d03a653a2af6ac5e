//! C15 - C20: boundaries, unknown attributes, members, flags, undefined encodings.
use super::Driver;
use super::{attrs, code, corpus, cp};
use crate::build::*;
use crate::conform::{conform, CLASS, UNDEFINED};
use crate::opcodes::{shape, Shape};
use crate::phases::*;
use crate::refdec::{Ref, Rej, Verdict};
use crate::sink::Sink;
use crate::stats::Stats;
use jbcrs::basic::{self, AccessFlags, Attribute};
use jbcrs::Error;

fn run_class(b: &[u8], st: &mut Stats) -> Result<(), String> {
    conform(b, CLASS, st)
}

// ---------------------------------------------------------------- C15

fn unknown(c: &mut Cls, name: &str, content: &[u8]) {
    let e = c.begin(name);
    c.body.raw(content);
    c.end(e);
}

fn c15(s: &mut Sink) {
    let t = s.thorough;
    shapes(s, "pairs and triples of attributes at every location", 0, 2, &mut |ch| {
        let loc = ch.of(&LOCS);
        let n = if t { 3 } else { 2 };
        at(loc, n + 1, &mut |c| {
            for k in 0..n {
                let a = ch.free(attrs::KINDS);
                attrs::any_attribute(c, a);
                if k == 0 {
                    unknown(c, "Unknown", &[0xDE, 0xAD, 0xBE]);
                }
            }
        })
    });
    shapes(s, "attribute lists with unknown attributes in every place", 0, 2, &mut |ch| {
        let loc = ch.of(&LOCS);
        let n = 1 + ch.upto(if t { 4 } else { 3 });
        at(loc, n, &mut |c| {
            for _ in 0..n {
                match ch.free(5) {
                    0 => unknown(c, "Unknown", &[]),
                    1 => unknown(c, "code", &[1, 2, 3, 4, 5]),
                    2 => attrs::any_attribute(c, 3),
                    3 => attrs::any_attribute(c, 12),
                    _ => attrs::any_attribute(c, 17),
                }
            }
        })
    });
    // attributes on all levels at the same time
    shapes(s, "attributes on class, field, method and code", 0, 3, &mut |ch| {
        let a: Vec<usize> = (0..4).map(|_| ch.of(&[0usize, 3, 5, 7, 12, 15, 18, 22, 24, 26])).collect();
        let mut c = Cls::new();
        c.header(1);
        c.u2(1);
        c.u2(2);
        c.v2(2);
        c.u2(2);
        attrs::any_attribute(&mut c, a[0]);
        unknown(&mut c, "F", &[1]);
        c.u2(1);
        c.u2(4);
        c.v2(2);
        c.u2(3);
        unknown(&mut c, "M", &[1, 2]);
        let e = c.begin("Code");
        c.v2(2);
        c.u4(1);
        c.u1(0xB1);
        c.u2(0);
        c.u2(2);
        attrs::any_attribute(&mut c, a[1]);
        unknown(&mut c, "C", &[1, 2, 3]);
        c.end(e);
        attrs::any_attribute(&mut c, a[2]);
        c.u2(2);
        unknown(&mut c, "K", &[]);
        attrs::any_attribute(&mut c, a[3]);
        c.finish()
    });
    repeats(s, &attrs::variants_of("C15"));
    attrs::attribute_histories(s);
    s.phase("lists of like unknown attributes");
    for n in 1..=4u32 {
        for k in 0..18usize.pow(n) {
            if (k / 18) % s.nshards != s.shard {
                continue;
            }
            let b = at(LOCS[(k / 5) % 4], n as usize, &mut |c| {
                let mut r = k;
                // names that follow one another in the pool
                let names = [c.name("A"), c.name("B"), c.name("C")];
                for _ in 0..n {
                    let x = r % 18;
                    r /= 18;
                    let e = c.begin_at(names[x % 3]);
                    c.body.raw([&[][..], &[1], &[0, 1], &[1, 2, 3, 4], &[0; 7], &[2; 12]][x / 3]);
                    c.end(e);
                }
            });
            if !s.case(&b.b) {
                return;
            }
        }
    }
    for n in 1..=if t { 5u32 } else { 4 } {
        for k in 0..8usize.pow(n) {
            if !s.mine() {
                continue;
            }
            let b = at(LOCS[k % 4], n as usize, &mut |c| {
                for j in 0..n {
                    let x = k >> (3 * j) & 7;
                    unknown(c, ["A", "B"][x & 1], [&[][..], &[0], &[0, 0], &[1]][x >> 1]);
                }
            });
            if !s.case(&b.b) {
                return;
            }
        }
    }
    contexts(s, &attrs::variants_of("C15"));
    references(s, 0, &attrs::variants_of("C15").iter().map(|f| at(Loc::Method, 1, &mut |c| f(c)).b).collect::<Vec<_>>(), true);
    s.phase("lengths of unknown attributes");
    for loc in LOCS {
        for n in (0..=if t { 2100usize } else { 520 }).chain(SIZES.iter().cloned()).chain([65536, 65537, 65792, 131_072, 1 << 20, (1 << 24) - 65_536 - 4096]) {
            if !s.mine() || (n > 4096 && loc == Loc::Field) {
                continue;
            }
            let content: Vec<u8> = (0..n).map(|k| (k * 7 + k / 256) as u8).collect();
            let b = at(loc, 2, &mut |c| {
                unknown(c, "Strange", &content);
                attrs::any_attribute(c, 3);
            });
            if !s.case(&b.b) {
                return;
            }
        }
    }
    s.phase("contents of unknown attributes");
    for a in 0..=255u8 {
        if !s.mine() {
            continue;
        }
        for x in 0..=255u8 {
            let b = at(LOCS[(a & 3) as usize], 1, &mut |c| unknown(c, "Strange", &[a, x]));
            if !s.case(&b.b) {
                return;
            }
        }
    }
    // the content of an unknown attribute looks like that of a known one
    for k in 0..attrs::KINDS {
        if !s.mine() {
            continue;
        }
        for loc in LOCS {
            for name in ["Strange", "", "code", "CODE", "Cod", "Codes", "Code ", "L", "\u{0}", "\u{1F600}"] {
                let b = at(loc, 2, &mut |c| {
                    let at = c.body.b.len();
                    attrs::any_attribute(c, k);
                    let i = c.name(name);
                    c.body.set2(at, i);
                    attrs::any_attribute(c, 3);
                });
                if !s.case(&b.b) {
                    return;
                }
            }
        }
    }
    s.phase("contents of unknown attributes that state lengths and indices");
    for n in (0..40usize).chain(254..=262) {
        for w in [1usize, 2, 4] {
            if !s.mine() || n < w {
                continue;
            }
            for v in (0..=5).chain(n.saturating_sub(12)..=n + 12) {
                for (k, pos) in [0, 1, 2, n - w].iter().enumerate() {
                    for fill in [0u8, 0x55] {
                        if pos + w > n {
                            continue;
                        }
                        let mut x = vec![fill; n];
                        x[*pos..pos + w].copy_from_slice(&(v as u32).to_be_bytes()[4 - w..]);
                        let b = at(LOCS[k], 2, &mut |c| {
                            unknown(c, "Strange", &x);
                            unknown(c, "Strange", &[1]);
                        });
                        if !s.case(&b.b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("names close to known names");
    for name in attrs::all_names() {
        for v in attrs::near(name) {
            if !s.mine() {
                continue;
            }
            for loc in LOCS {
                for n in [0usize, 2, 4] {
                    let b = at(loc, 1, &mut |c| unknown(c, &v, &vec![0; n]));
                    if !s.case(&b.b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("names of every shape, on an attribute that is alone");
    for v in attrs::foreign_names() {
        if !s.mine() {
            continue;
        }
        for loc in LOCS {
            for content in [&[][..], &[0], &[0, 0], &[0, 1], &[0, 0, 0, 0], &[0, 1, 0, 5, 0, 0], &[9; 8], &[255; 100]] {
                for n in 1..3 {
                    let mut c = Cls::new();
                    let mut f = |c: &mut Cls| unknown(c, &v, content);
                    let mut g = |c: &mut Cls| unknown(c, &v, content);
                    at_places(&mut c, &mut [(loc, &mut f as &mut dyn FnMut(&mut Cls)), (loc, &mut g)][..n]);
                    if !s.case(&c.finish().b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("names in use elsewhere and names of every shape");
    for v in attrs::foreign_names() {
        if !s.mine() {
            continue;
        }
        for loc in LOCS {
            for n in (0usize..20).chain([100, 255, 256, 257, 300, 5000]) {
                for fill in 0..3usize {
                    let content: Vec<u8> = (0..n).map(|k| [0, k * 7 + 1, 255][fill] as u8).collect();
                    let b = at(loc, 2, &mut |c| {
                        unknown(c, &v, &content);
                        attrs::any_attribute(c, 3);
                    });
                    if !s.case(&b.b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("name indices");
    // equal names under several indices; the index is kept
    for i in 1..=65534u32 {
        if (i % 64) as usize % s.nshards != s.shard || (!t && i > 600 && i < 65000) {
            continue;
        }
        if i > 2000 && i % 97 != 0 && i < 65500 {
            continue;
        }
        let mut c = Cls::new();
        while c.next <= i {
            if c.next == i {
                c.raw_utf8("Same");
            } else {
                cp::entry(&mut c, 0);
            }
        }
        c.header(0);
        c.u2(0);
        c.u2(0);
        c.u2(1);
        let e = c.begin_at(i as u16);
        c.v2(3);
        c.end(e);
        if c.next < 65535 && !s.case(&c.finish().b) {
            return;
        }
    }
    for n in 1..6 {
        for pick in 0..n {
            for then in 0..n {
                if s.mine() {
                    let mut c = Cls::new();
                    let idx: Vec<u16> = (0..n).map(|_| c.raw_utf8("Same")).collect();
                    c.header(0);
                    c.u2(0);
                    c.u2(0);
                    c.u2(2);
                    for p in [pick, then] {
                        let e = c.begin_at(idx[p]);
                        c.v2(1);
                        c.end(e);
                    }
                    if !s.case(&c.finish().b) {
                        return;
                    }
                }
            }
        }
    }
    grid(s, "many long unknown attributes", &mut |n, m| {
        let n = n.min(60_000);
        at(Loc::Method, n + 1, &mut |c| {
            for k in 0..n {
                unknown(c, ["U", "V", "W"][k % 3], &vec![k as u8; m]);
            }
            attrs::any_attribute(c, 3);
        })
    });
    s.phase("unknown attributes of many megabytes");
    for n in [0xFF_FFFF, 0x100_0000, 0x100_0001, 0x200_0000, 0x400_0005] {
        if !s.mine() || !s.thorough && n > 0x100_0001 {
            continue;
        }
        let b = at(Loc::Class, 2, &mut |c| {
            unknown(c, "Big", &vec![n as u8; n]);
            attrs::any_attribute(c, 3);
        });
        if !s.case(&b.b) {
            return;
        }
    }
    sized(s, "number of unknown attributes", SIZES, &mut |n| {
        at(Loc::Method, n.min(65534), &mut |c| {
            for k in 0..n.min(65534) {
                unknown(c, ["U", "V", "W"][k % 3], &[k as u8, 1, 2][..k % 4 % 3 + 1]);
            }
        })
    });
}

// ---------------------------------------------------------------- C16

fn c16(s: &mut Sink) {
    let t = s.thorough;
    let mut tp = attrs::templates();
    for loc in LOCS {
        for k in 0..attrs::KINDS {
            tp.push(at(loc, 1, &mut |c| attrs::any_attribute(c, k)));
        }
    }
    s.phase("every declared length, all near values");
    for base in &tp {
        let mut b = base.b.clone();
        for &(at, w) in base.f.iter().filter(|f| f.1 == 4) {
            if !s.mine() {
                continue;
            }
            let orig = u32::from_be_bytes(b[at..at + 4].try_into().unwrap());
            let near = (0..=orig.max(64) + 300).map(u64::from);
            for v in near.chain(wide_menu(w)) {
                b[at..at + 4].copy_from_slice(&(v as u32).to_be_bytes());
                if !s.case(&b) {
                    return;
                }
            }
            b.copy_from_slice(&base.b);
        }
    }
    s.phase("pairs of declared lengths");
    for base in &tp {
        let f: Vec<usize> = base.f.iter().filter(|f| f.1 == 4).map(|f| f.0).collect();
        for i in 0..f.len() {
            for j in i + 1..f.len() {
                if !s.mine() {
                    continue;
                }
                let mut b = base.b.clone();
                let get = |k: usize| i64::from(u32::from_be_bytes(base.b[k..k + 4].try_into().unwrap()));
                let r = if t { 40 } else { 14 };
                for d in -r..=r {
                    for e in -r..=r {
                        b[f[i]..f[i] + 4].copy_from_slice(&((get(f[i]) + d) as u32).to_be_bytes());
                        b[f[j]..f[j] + 4].copy_from_slice(&((get(f[j]) + e) as u32).to_be_bytes());
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("bytes added to and removed from the content");
    // outer lengths stay right: only the attribute itself is too long or too short
    for loc in LOCS {
        for k in 0..attrs::KINDS {
            for pos in 0..3usize {
                if !s.mine() {
                    continue;
                }
                for d in -14i32..=14 {
                    for fill in [0u8, 1, 0xB1, 0xFF] {
                        for fix in [true, false] {
                            let b = at(loc, 3, &mut |c| {
                                for j in 0..3 {
                                    let start = c.body.b.len();
                                    attrs::any_attribute(c, if j == pos { k } else { 3 });
                                    if j != pos {
                                        continue;
                                    }
                                    if d > 0 {
                                        c.body.raw(&vec![fill; d as usize]);
                                    } else {
                                        let keep = (start + 6).max(c.body.b.len() - (-d) as usize);
                                        c.body.b.truncate(keep);
                                    }
                                    if fix {
                                        let n = c.body.b.len() - start - 6;
                                        c.body.set4(start + 2, n as u32);
                                    }
                                }
                            });
                            if !s.case(&b.b) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    s.phase("content of every shape, too long or too short");
    let va = attrs::variants();
    for (k, f) in va.iter().enumerate() {
        for loc in if t { LOCS.to_vec() } else { vec![LOCS[k % 4]] } {
            if !s.mine() {
                continue;
            }
            for d in -12i32..=12 {
                for fill in [0u8, 1, 0xB1, 0xFF] {
                    for fix in [true, false] {
                        let b = at(loc, 2, &mut |c| {
                            let start = c.body.b.len();
                            f(c);
                            if d > 0 {
                                c.body.raw(&vec![fill; d as usize]);
                            } else {
                                let keep = (start + 6).max(c.body.b.len() - (-d) as usize);
                                c.body.b.truncate(keep);
                            }
                            if fix {
                                let n = c.body.b.len() - start - 6;
                                c.body.set4(start + 2, n as u32);
                            }
                            attrs::any_attribute(c, 3);
                        });
                        if !s.case(&b.b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("content of every shape with equal values, too long");
    for (k, f) in va.iter().enumerate() {
        for more in [0usize, 1, 2, 3, 4, 6, 8, 10] {
            if !s.mine() {
                continue;
            }
            let mut t = at(LOCS[(k + more) % 4], 2, &mut |c| {
                let start = c.body.b.len();
                f(c);
                c.body.raw(&vec![0; more]);
                let n = c.body.b.len() - start - 6;
                c.body.set4(start + 2, n as u32);
                attrs::any_attribute(c, 3);
            });
            let p = plain(&t);
            let b = t.b.clone();
            for v in [5u16, 0, 0xFFFF] {
                for i in 0..p.len() {
                    for j in i..p.len().min(i + 9) {
                        for x in [i, j] {
                            t.b[p[x].0..p[x].0 + 2].copy_from_slice(&v.to_be_bytes());
                        }
                        if !s.case(&t.b) {
                            return;
                        }
                        t.b.copy_from_slice(&b);
                    }
                }
                for x in &p {
                    t.b[x.0..x.0 + 2].copy_from_slice(&v.to_be_bytes());
                }
                if !s.case(&t.b) {
                    return;
                }
                t.b.copy_from_slice(&b);
            }
        }
    }
    let all = attrs::bases();
    versions(s, 0, &all);
    references(s, 0, &all, false);
    s.phase("contents over a small alphabet");
    let prefixes: [&[u8]; 6] = [&[], &[0, 1], &[0, 1, 0, 0, 0, 0, 0, 0], &[0, 1, 0x13, 0], &[0, 1, 0, 1, 0, 0, 0, 1], &[0, 0, 0, 0, 0, 0, 0, 2, 0]];
    const LETTERS: [u8; 5] = [0, 1, 2, 7, b'I'];
    for name in attrs::all_names() {
        for (k, pre) in prefixes.iter().enumerate() {
            let most = if t { 7 } else if k == 0 { 6 } else { 5 };
            for n in 0..=most {
                for x in 0..5usize.pow(n) {
                    if (x / 5) % s.nshards != s.shard {
                        continue;
                    }
                    let mut y = x;
                    let content: Vec<u8> = pre
                        .iter()
                        .cloned()
                        .chain((0..n).map(|_| {
                            let l = LETTERS[y % 5];
                            y /= 5;
                            l
                        }))
                        .collect();
                    let b = at(LOCS[(x + k) % 4], 2, &mut |c| {
                        unknown(c, name, &content);
                        attrs::any_attribute(c, 3);
                    });
                    if !s.case(&b.b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("counts against declared lengths, every shape");
    for (k, f) in va.iter().enumerate() {
        for loc in if t { LOCS.to_vec() } else { vec![LOCS[(k + 1) % 4]] } {
            if !s.mine() {
                continue;
            }
            let base = at(loc, 2, &mut |c| {
                f(c);
                attrs::any_attribute(c, 26);
            });
            let mut b = base.b.clone();
            for k in 14..b.len() {
                for d in [-2i32, -1, 1, 2] {
                    b[k] = (i32::from(base.b[k]) + d) as u8;
                    if !s.case(&b) {
                        return;
                    }
                }
                b[k] = base.b[k];
            }
        }
    }
    s.phase("counts against declared lengths");
    // every count field off by some, the declared lengths stay
    for base in &tp {
        let mut b = base.b.clone();
        for &(at, w) in &base.f {
            if !s.mine() {
                continue;
            }
            let at2 = at + w as usize - 1;
            for d in -9i32..=9 {
                b[at2] = (i32::from(base.b[at2]) + d) as u8;
                if !s.case(&b) {
                    return;
                }
            }
            b[at2] = base.b[at2];
        }
    }
    s.phase("bytes too many, and what follows in the file");
    for loc in LOCS {
        for k in 0..attrs::KINDS {
            for d in [-2i32, -1, 1, 2, 3] {
                if !s.mine() {
                    continue;
                }
                for follow in 0..48usize {
                    let mut c = Cls::new();
                    let mut f = |c: &mut Cls| {
                        let start = c.body.b.len();
                        attrs::any_attribute(c, k);
                        let n = c.body.b.len() - start - 6;
                        if d > 0 {
                            c.body.raw(&vec![0; d as usize]);
                        } else {
                            let keep = (start + 6).max(c.body.b.len() - (-d) as usize);
                            c.body.b.truncate(keep);
                        }
                        let n = (n as i32 + d).max(0);
                        c.body.set4(start + 2, n as u32);
                    };
                    let mut g = |c: &mut Cls| unknown(c, "Custom", &vec![b'c'; follow.saturating_sub(6)]);
                    c.header(0);
                    for l in [Loc::Field, Loc::Method, Loc::Class] {
                        let here = l == loc || l == Loc::Method && loc == Loc::Code;
                        if l != Loc::Class {
                            c.u2(here as u16);
                            if !here {
                                continue;
                            }
                            c.u2(1);
                            c.v2(2);
                            c.u2(1);
                        } else {
                            c.u2(here as u16 + (follow > 5) as u16);
                        }
                        if here && loc == Loc::Code {
                            let e = c.begin("Code");
                            c.v2(2);
                            c.u4(1);
                            c.u1(0xB1);
                            c.u2(0);
                            c.u2(1);
                            f(&mut c);
                            c.end(e);
                        } else if here {
                            f(&mut c);
                        }
                    }
                    if follow > 5 {
                        g(&mut c);
                    }
                    if !s.case(&c.finish().b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("long lists with declared lengths that are off");
    for n in [255usize, 256, 1100, 5000, 8192, 16_384, 40_000, 65_535] {
        for k in 0..7usize {
            for last in [true, false] {
                if !s.mine() {
                    continue;
                }
                let mut c = Cls::new();
                c.header(0);
                c.u2(0);
                c.u2(0);
                c.u2(if last { 1 } else { 2 });
                let start = c.body.b.len();
                attrs::long_attribute(&mut c, k, n);
                let len = (c.body.b.len() - start - 6) as u32;
                let len_at = c.body.b.len() - len as usize - 4;
                if !last {
                    attrs::any_attribute(&mut c, 3);
                }
                let tail = c.body.b.len() - len_at;
                let built = c.finish().b;
                let at = built.len() - tail;
                assert_eq!(built[at..at + 4], len.to_be_bytes());
                for more in 0..2 {
                    let mut b = built.clone();
                    b.extend_from_slice(&vec![0u8; 16 * more]);
                    let far = [len.wrapping_add(255), len.wrapping_add(256), len.wrapping_add(65_536), len.wrapping_sub(65_536), len & 0xFFFF, len / 2];
                    for v in (0..24u32).map(|d| len.wrapping_add(d).wrapping_sub(12)).chain(far) {
                        b[at..at + 4].copy_from_slice(&v.to_be_bytes());
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("nested attribute reaching beyond the code attribute");
    for k in 0..attrs::KINDS {
        for first in [0u8, 0xB1, 0x10] {
            for delta in -20i32..=20 {
                if s.mine() {
                    let mut c = Cls::new();
                    c.header(0);
                    c.u2(0);
                    c.u2(1);
                    c.u2(1);
                    c.v2(2);
                    c.u2(2);
                    let e = c.begin("Code");
                    c.v2(2);
                    c.u4(2);
                    c.u1(first);
                    c.u1(0);
                    c.u2(0);
                    c.u2(1);
                    attrs::any_attribute(&mut c, k);
                    let n = c.body.b.len() - e;
                    c.body.set4(e - 4, (n as i32 + delta) as u32);
                    attrs::any_attribute(&mut c, 26);
                    c.u2(1);
                    sentinel(&mut c);
                    if !s.case(&c.finish().b) {
                        return;
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C17

/// Payload: kind, then the input. 0: a proper prefix of a complete class file; 1: wrong magic.
fn run_truncated(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let b = &p[1..];
    let (v, _, _) = Ref::run(b, st);
    let want = match p[0] {
        0 => {
            if v != Verdict::Reject(Rej::Limit) && b.len() >= 4 {
                panic!("harness: the model answers {:?} for a prefix", v);
            }
            Rej::Limit
        }
        _ => Rej::NotAClass,
    };
    match basic::parse(b) {
        Ok(_) => Err(format!("yields a class, expected rejection ({:?})", want)),
        Err(Error::LimitExceeded) if want == Rej::Limit => Ok(st.outcome("end of data")),
        Err(Error::NotAClass) if want == Rej::NotAClass => Ok(st.outcome("not a class")),
        // fewer than four bytes: which of the two comes first is open
        Err(Error::NotAClass) | Err(Error::LimitExceeded) if b.len() < 4 && p[0] == 1 => Ok(()),
        Err(e) => Err(format!("rejected with {:?}, expected {:?}", e, want)),
    }
}

fn complete(st: &mut Stats, b: &[u8]) -> bool {
    // a class file the property speaks about: accepted without reservation
    Ref::run(b, st).0 == Verdict::Accept
}

fn c17(s: &mut Sink) {
    let t = s.thorough;
    let mut p = Vec::new();
    s.phase("all prefixes");
    let mut all: Vec<Vec<u8>> = attrs::templates().into_iter().map(|x| x.b).collect();
    all.extend(code::templates().into_iter().map(|x| x.b));
    all.extend(cp::templates().into_iter().map(|x| x.b));
    for loc in LOCS {
        for k in 0..attrs::KINDS {
            for j in [3usize, 26, 18] {
                all.push(
                    at(loc, 2, &mut |c| {
                        attrs::any_attribute(c, k);
                        attrs::any_attribute(c, j);
                    })
                    .b,
                );
            }
        }
    }
    for (k, f) in attrs::variants().iter().enumerate() {
        for loc in if t { LOCS.to_vec() } else { vec![LOCS[k % 4]] } {
            all.push(at(loc, 1, &mut |c| f(c)).b);
            // nothing behind it: the list ends the file
            let mut c = Cls::new();
            c.header(0);
            c.u2(0);
            c.u2(0);
            c.u2(1);
            f(&mut c);
            all.push(c.finish().b);
        }
    }
    // texts of characters of every length
    for x in ["a\u{e9}", "\u{20ac}b", "\u{1F600}", "\0c\0", "\u{e9}\u{20ac}\u{10ffff}\0d\u{7ff}", "abcdefgh\u{e9}ijklmnop\u{800}"] {
        let mut c = Cls::new();
        let mut m = Vec::new();
        crate::mutf8::encode(x, &mut m);
        c.pool.u1(1);
        c.pool.u2(m.len() as u16);
        c.pool.raw(&m);
        c.next += 1;
        c.header(0);
        c.u2(0);
        c.u2(0);
        c.u2(2);
        for _ in 0..2 {
            let e = c.begin("SourceDebugExtension");
            c.body.raw(&m);
            c.end(e);
        }
        all.push(c.finish().b);
    }
    all.extend(corpus::files(if t { 1 << 20 } else { 4000 }).into_iter().map(|x| x.1));
    let mut scratch = Stats::new();
    for b in &all {
        if !complete(&mut scratch, b) {
            continue;
        }
        for n in 0..b.len() {
            if s.mine() {
                p.clear();
                p.push(0);
                p.extend_from_slice(&b[..n]);
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("prefixes of files with one field changed");
    // the files that stay complete after the change are in scope
    for base in attrs::templates().iter().chain(cp::templates().iter()) {
        for &(at, w) in &base.f {
            if !s.mine() {
                continue;
            }
            let mut b = base.b.clone();
            for v in [0u8, 1, 2, 0x80, 0xFF] {
                b[at + w as usize - 1] = v;
                if !complete(&mut scratch, &b) {
                    continue;
                }
                for n in (0..b.len()).rev().take(if t { 10_000 } else { 40 }) {
                    p.clear();
                    p.push(0);
                    p.extend_from_slice(&b[..n]);
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("prefixes of classes with any flags");
    for flags in 0..=0xFFFFu16 {
        if (flags as usize / 64) % s.nshards != s.shard {
            continue;
        }
        // no interfaces, fields, methods, attributes; or one of them
        for one in 0..5usize {
            if one > 0 && !t && flags & 0x01F8 != 0 {
                continue;
            }
            let mut b = vec![0, 0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 53, 0, 2, 1, 0, 1, b'A'];
            b.extend_from_slice(&flags.to_be_bytes());
            b.extend_from_slice(&[0, 7, 0, 9]);
            for k in 0..4 {
                b.extend_from_slice(&[0, (one == k + 1) as u8]);
                if one == k + 1 {
                    b.extend_from_slice(&[&[0, 5][..], &[0, 1, 0, 5, 0, 6, 0, 0], &[4, 0, 0, 5, 0, 6, 0, 0], &[0, 1, 0, 0, 0, 0]][k]);
                }
            }
            let end = b.len();
            for n in 1..=if flags & 0x00FF == 0 || flags.count_ones() < 3 { end - 6 } else { 5 } {
                if !s.case(&b[..end - n]) {
                    return;
                }
            }
        }
    }
    let some: Vec<Vec<u8>> = attrs::bases().iter().map(|b| {
        let mut p = vec![0];
        p.extend_from_slice(&b[..b.len() - 1]);
        p
    }).collect();
    versions(s, 1, &some);
    s.phase("prefixes of long lists");
    for n in [255usize, 256, 257, 1100, if t { 20_000 } else { 5000 }] {
        for kind in 0..5 {
            let m = |x: usize| if kind == x { n } else { 1 };
            let b = if kind == 4 {
                let mut c = Cls::new();
                for _ in 0..n {
                    c.pool.u1(3);
                    c.pool.u4(7);
                    c.next += 1;
                }
                c.header(2);
                c.u2(0);
                c.u2(0);
                c.u2(0);
                c.finish().b
            } else {
                members(m(0), &vec![0; m(1)], &vec![0; m(2)], m(3)).finish().b
            };
            for k in 0..b.len() {
                if k % 64 == 0 && s.stopped() || n > 1100 && k % 17 != kind && k + 40 < b.len() || !s.mine() {
                    continue;
                }
                p.clear();
                p.push(0);
                p.extend_from_slice(&b[..k]);
                if !s.case(&p) {
                    return;
                }
            }
        }
        for k in 0..7usize {
            let mut c = Cls::new();
            c.header(0);
            c.u2(0);
            c.u2(0);
            c.u2(1);
            attrs::long_attribute(&mut c, k, n);
            let b = c.finish().b;
            for k in 0..b.len() {
                if k % 64 == 0 && s.stopped() || n > 257 && k % 29 != n % 29 && k + 40 < b.len() || !s.mine() {
                    continue;
                }
                p.clear();
                p.push(0);
                p.extend_from_slice(&b[..k]);
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("prefixes that end in late constants");
    let kinds = cp::one_of_each();
    for lead in [0usize, 1, 254, 255, 256, 300, 1000, 40_000] {
        for pad in 0..4usize {
            if !s.mine() {
                continue;
            }
            let mut b = vec![0, 0xCA, 0xFE, 0xBA, 0xBE, 0, 3, 0, 53, 0, 0];
            let mut n = 1usize;
            for k in 0..lead as u32 {
                b.push(3);
                b.extend(k.to_be_bytes());
            }
            b.extend([1, 0, pad as u8]);
            b.extend(vec![b'x'; pad]);
            n += lead + 1;
            let from = b.len();
            for turn in 0..2 {
                for k in 0..kinds.len() {
                    let c = &kinds[if turn == 0 { k } else { kinds.len() - 1 - k }];
                    b.extend(c);
                    n += if c[0] == 5 || c[0] == 6 { 2 } else { 1 };
                }
            }
            b[9..11].copy_from_slice(&(n as u16).to_be_bytes());
            b.extend([0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0]);
            for len in from..b.len() {
                if !s.case(&b[..len]) {
                    return;
                }
            }
        }
    }
    s.phase("prefixes of large files");
    for k in 0..attrs::KINDS {
        if !s.mine() {
            continue;
        }
        let b = at(Loc::Class, 700, &mut |c| {
            for _ in 0..700 {
                attrs::any_attribute(c, k);
            }
        })
        .b;
        let mut n = 0;
        while n < b.len() {
            p.clear();
            p.push(0);
            p.extend_from_slice(&b[..n]);
            if !s.case(&p) {
                return;
            }
            n += if t { 23 } else { 211 };
        }
    }
    if s.mine() {
        let mut b = Vec::new();
        code::class(&mut b, 0, &[&[0x57; 65535][..]]);
        for n in (0..b.len()).step_by(997).chain(b.len() - 40..b.len()) {
            p.clear();
            p.push(0);
            p.extend_from_slice(&b[..n]);
            if !s.case(&p) {
                return;
            }
        }
    }
    s.phase("headers");
    let tail = all[0][4..].to_vec();
    const MAGIC: [u8; 4] = [0xCA, 0xFE, 0xBA, 0xBE];
    for i in 0..4 {
        for j in i + 1..4 {
            for a in 0..=255u8 {
                if !s.mine() {
                    continue;
                }
                for x in 0..=255u8 {
                    let mut m = MAGIC;
                    m[i] = a;
                    m[j] = x;
                    if m == MAGIC {
                        continue;
                    }
                    p.clear();
                    p.push(1);
                    p.extend_from_slice(&m);
                    if !s.case(&p) {
                        return;
                    }
                    p.extend_from_slice(&tail);
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
    let perms: [u8; 8] = [0xCA, 0xFE, 0xBA, 0xBE, 0, 0xFF, 0x50, 0x7F];
    for k in 0..4096usize {
        if s.mine() {
            let m = [perms[k & 7], perms[k >> 3 & 7], perms[k >> 6 & 7], perms[k >> 9]];
            if m == MAGIC {
                continue;
            }
            for extra in 0..6 {
                p.clear();
                p.push(1);
                p.extend_from_slice(&m);
                p.extend_from_slice(&tail[..extra]);
                if !s.case(&p) {
                    return;
                }
            }
            for n in 0..4 {
                if m[..n] != MAGIC[..n] {
                    p.clear();
                    p.push(1);
                    p.extend_from_slice(&m[..n]);
                    if !s.case(&p) {
                        return;
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C18

fn members(interfaces: usize, fields: &[usize], methods: &[usize], attributes: usize) -> Cls {
    let mut c = Cls::new();
    c.minor = c.val();
    c.major = c.val();
    c.header(interfaces);
    for list in [fields, methods] {
        c.u2(list.len() as u16);
        for (k, &n) in list.iter().enumerate() {
            c.v2(3);
            c.u2(n as u16);
            for j in 0..n {
                match (k + j) % 4 {
                    0 => sentinel(&mut c),
                    1 => attrs::any_attribute(&mut c, 3),
                    2 => attrs::any_attribute(&mut c, 26),
                    _ => attrs::any_attribute(&mut c, 25),
                }
            }
        }
    }
    c.u2(attributes as u16);
    for _ in 0..attributes {
        sentinel(&mut c);
    }
    c
}

fn c18(s: &mut Sink) {
    let t = s.thorough;
    let m = if t { 4 } else { 3 };
    shapes(s, "members", 0, 4, &mut |ch| {
        let i = ch.upto(m);
        let f: Vec<usize> = (0..ch.upto(m)).map(|_| ch.upto(2)).collect();
        let me: Vec<usize> = (0..ch.upto(m)).map(|_| ch.upto(2)).collect();
        members(i, &f, &me, ch.upto(2)).finish()
    });
    let all: Vec<usize> = if t { (0..=1500).chain(SIZES.iter().cloned()).chain((0..65536).step_by(509)).collect() } else { (0..=300).chain(SIZES.iter().cloned()).collect() };
    sized(s, "number of interfaces", &all, &mut |n| members(n, &[1], &[1], 1).finish());
    sized(s, "number of fields", &all, &mut |n| members(1, &vec![0; n], &[1], 1).finish());
    sized(s, "number of methods", &all, &mut |n| members(1, &[1], &vec![0; n], 1).finish());
    sized(s, "number of fields with attributes", &all[..200], &mut |n| {
        members(0, &(0..n).map(|k| k % 3).collect::<Vec<_>>(), &[], 1).finish()
    });
    sized(s, "number of methods with attributes", &all[..200], &mut |n| {
        members(0, &[], &(0..n).map(|k| k % 3).collect::<Vec<_>>(), 1).finish()
    });
    grid(s, "many interfaces, fields, methods and attributes", &mut |n, m| members(n, &vec![0; m], &vec![0; n], m).finish());
    grid(s, "many members with many attributes", &mut |n, m| {
        let m = m.min(200_000 / n);
        members(3, &vec![m; n], &vec![m; n], 2).finish()
    });
    sized(s, "number of class attributes", SIZES, &mut |n| members(0, &[], &[], n).finish());
    sized(s, "number of field attributes", SIZES, &mut |n| members(0, &[n], &[0], 0).finish());
    sized(s, "number of method attributes", SIZES, &mut |n| members(0, &[0], &[0, n], 0).finish());
    let few: Vec<Built> = [
        members(0, &[], &[], 0),
        members(1, &[0], &[0], 0),
        members(2, &[], &[], 0),
        members(0, &[0, 0], &[], 0),
        members(0, &[], &[0, 0], 0),
        members(3, &[0], &[], 0),
        members(0, &[1, 0], &[0, 1], 1),
    ]
    .iter_mut()
    .map(|c| std::mem::replace(c, Cls::new()).finish())
    .collect();
    pieces(s, &few, true);
    linked(s, &few);
    backgrounds(s, &few);
    few_values(s, &few);
    s.phase("header and versions");
    let base = members(2, &[1], &[1], 1).finish();
    let mut b = base.b.clone();
    for at in [4usize, 6] {
        for v in 0..=0xFFFFu16 {
            if v % 256 == 0 && !s.mine() {
                continue;
            }
            if (v / 256) as usize % s.nshards != s.shard {
                continue;
            }
            b[at..at + 2].copy_from_slice(&v.to_be_bytes());
            if !s.case(&b) {
                return;
            }
        }
        b.copy_from_slice(&base.b);
    }
    // every minor version of the majors that are in use, and of some others, and the other way round
    let mut tiny = members(0, &[], &[], 0).finish().b;
    for at in [4usize, 6] {
        for other in (0..=80u16).chain([0x2D00, 0x3400, 0x7FFF, 0x8000, 0xFFFF]) {
            if !s.mine() {
                continue;
            }
            tiny[10 - at..12 - at].copy_from_slice(&other.to_be_bytes());
            for v in 0..=0xFFFFu16 {
                tiny[at..at + 2].copy_from_slice(&v.to_be_bytes());
                if !s.case(&tiny) {
                    return;
                }
            }
        }
    }
    for &x in MENU16 {
        for &y in MENU16 {
            if s.mine() {
                b[4..6].copy_from_slice(&x.to_be_bytes());
                b[6..8].copy_from_slice(&y.to_be_bytes());
                if !s.case(&b) {
                    return;
                }
            }
        }
    }
    let mut few: Vec<Built> = Vec::new();
    for (i, f, m) in [(0, 2, 0), (0, 0, 2), (1, 1, 1), (3, 1, 0), (2, 0, 1), (0, 3, 0), (0, 0, 3), (4, 0, 0), (0, 2, 2)] {
        few.push(members(i, &vec![0; f], &vec![0; m], 0).finish());
    }
    few.push(members(0, &[1, 1], &[1], 0).finish());
    few.push(members(0, &[], &[1, 1], 1).finish());
    few_values(s, &few);
    let tp = vec![base, members(0, &[0, 0], &[0], 0).finish(), members(1, &[], &[0, 0], 0).finish()];
    sweep(s, &tp);
    pairs(s, &tp);
    triples(s, &tp[1..]);
    if t {
        triples(s, &tp[..1]);
    }
    let all: Vec<Vec<u8>> = tp.iter().chain(&few).map(|b| b.b.clone()).collect();
    versions(s, 0, &all);
    references(s, 0, &all, true);
    contexts(s, &attrs::variants_of("C15"));
    flags_by_version(s, &[]);
    named_members(s, &[]);
    s.phase("all lists of a class long");
    for k in 0..256usize {
        let n = |j: usize| [0usize, 1, 40_000, 65_535][k >> (2 * j) & 3];
        if s.mine() && (t || k % 3 != 1) && !s.case(&super::robust::all_long([n(0), n(1), n(2), n(3)])) {
            return;
        }
    }
    s.phase("flags and equal class names");
    for flags in (0..16u16).map(|k| 1 << k).chain([0, 0x21, 0x600, 0x601, 0x2600, 0x2601, 0x4030, 0x4031, 0x1020, 0x30, 0x420, 0x8000, 0xFFFF]) {
        for n in 0..=3u32 {
            if !s.mine() {
                continue;
            }
            for k in 0..4usize.pow(n + 2) {
                let mut r = k;
                let mut c = Cls::new();
                c.u2(flags);
                for j in 0..n + 2 {
                    if j == 2 {
                        c.u2(n as u16);
                    }
                    c.u2([0, 0x105, 0x206, 0xFFFF][r % 4]);
                    r /= 4;
                }
                if n == 0 {
                    c.u2(0);
                }
                c.u2(0);
                c.u2(0);
                c.u2(0);
                if !s.case(&c.finish_plain()) {
                    return;
                }
            }
        }
    }
    s.phase("members with names that mean something");
    for (k, name) in MEMBERS.iter().chain(&super::pool::KNOWN).enumerate() {
        for desc in ["()V", "V", "I", "Ljava/lang/String;", "([Ljava/lang/String;)V", ""] {
            for on in 0..3usize {
                if !s.mine() {
                    continue;
                }
                let flags: Vec<u16> = if k < 3 && desc == "()V" || t && k < MEMBERS.len() {
                    (0..=0xFFFF).collect()
                } else {
                    (0..16).map(|b| 1 << b).chain([0, 9, 0x19, 0x1018, 0x0600, 0xFFFF]).collect()
                };
                let mut c = Cls::new();
                let (n, d) = (c.name(name), c.name(desc));
                c.header(0);
                let mut at = 0;
                for kind in 0..2 {
                    c.u2(1 + (on != 2) as u16);
                    for j in 0..1 + (on != 2) as usize {
                        if kind == 1 && j == on % 2 || kind == 0 && j == 0 && on == 2 {
                            at = c.body.b.len();
                        }
                        c.v2(1);
                        if j == on % 2 {
                            c.u2(n);
                            c.u2(d);
                        } else {
                            c.v2(2);
                        }
                        c.u2(0);
                    }
                }
                c.u2(0);
                let pool = c.pool.b.len() + 10;
                let mut b = c.finish().b;
                for f in flags {
                    b[pool + at..pool + at + 2].copy_from_slice(&f.to_be_bytes());
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
}

/// Flags of all structures at once, in class files of all versions, with everything else zero or not.
fn flags_by_version(s: &mut Sink, lead: &[u8]) {
    s.phase("flags by version");
    let mut flags: Vec<u16> = (0..16).map(|k| 1 << k).chain([0, 3, 0x0210, 0x0420, 0x0600, 0x0601, 0x1600, 0x2600, 0x2601, 0x4030, 0x4031, 0x7FFF, 0xFFDF, 0xFFFF, 0x8000, 0x9000]).collect();
    for k in 0..16 {
        flags.push(!(1 << k));
        flags.push(0x0021 | 1 << k);
        flags.push(0x0001 | 1 << k);
        flags.push(0x0600 | 1 << k);
    }
    flags.sort_unstable();
    flags.dedup();
    for major in (43..=70u16).chain([0, 1, 44, 0x100, 0x8000, 0xFFFF]) {
        for minor in [0u16, 1, 2, 3, 4, 0xFFFF] {
            if !s.mine() {
                continue;
            }
            for zero in [false, true] {
                for sup in [false, true] {
                    let mut c = Cls::new();
                    c.major = major;
                    c.minor = minor;
                    let mut at = Vec::new();
                    let mut flag = |c: &mut Cls| {
                        at.push(c.body.b.len());
                        c.u2(0);
                    };
                    let w = |c: &mut Cls, k: usize| if zero { (0..k).for_each(|_| c.u2(0)) } else { c.v2(k) };
                    flag(&mut c);
                    w(&mut c, 1);
                    c.u2(if sup { 0 } else { 0x1234 });
                    c.u2(0);
                    for m in 0..2 {
                        c.u2(1);
                        flag(&mut c);
                        w(&mut c, 2);
                        c.u2(m);
                        if m == 1 {
                            let e = c.begin("MethodParameters");
                            c.u1(1);
                            w(&mut c, 1);
                            flag(&mut c);
                            c.end(e);
                        }
                    }
                    c.u2(2);
                    let e = c.begin("InnerClasses");
                    c.u2(1);
                    w(&mut c, 3);
                    flag(&mut c);
                    c.end(e);
                    let e = c.begin("Module");
                    w(&mut c, 1);
                    flag(&mut c);
                    w(&mut c, 1);
                    c.u2(1);
                    w(&mut c, 1);
                    flag(&mut c);
                    w(&mut c, 1);
                    for _ in 0..2 {
                        c.u2(1);
                        w(&mut c, 1);
                        flag(&mut c);
                        c.u2(0);
                    }
                    c.u2(0);
                    c.u2(0);
                    c.end(e);
                    let body = c.pool.b.len() + 10;
                    let mut b = lead.to_vec();
                    b.extend(c.finish_plain());
                    for f in &flags {
                        for k in &at {
                            let k = lead.len() + body + k;
                            b[k..k + 2].copy_from_slice(&f.to_be_bytes());
                        }
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Descriptors of members, valid and not.
const DESCS: [&str; 34] = [
    "()V", "V", "I", "J", "D", "Z", "Ljava/lang/String;", "Ljava/lang/Object;", "([Ljava/lang/String;)V", "(I)V", "(IJ)V", "([I)V", "(I[I)V", "([II)V",
    "(Ljava/lang/Object;[Ljava/lang/Object;)V", "(Ljava/lang/String;I)V", "()I", "()Ljava/lang/Object;", "()[I", "(LA;)LA;", "([LA;I)V", "(J)J", "", "(", "()",
    ")", ")V", "(V)V", "[I", "[[I", "[V", "LA", "L;", "(Ljava/lang/invoke/MethodHandle;[Ljava/lang/Object;)Ljava/lang/Object;",
];

/// Members by name, descriptor and flags, with and without code, first and second of their kind.
fn named_members(s: &mut Sink, lead: &[u8]) {
    s.phase("members by name, descriptor and flags");
    let mut flags: Vec<u16> = vec![0, 0xFFFF];
    for i in 0..16 {
        for j in 0..=i {
            flags.push(1 << i | 1 << j);
        }
        flags.push(!(1 << i));
    }
    let names: Vec<&str> = MEMBERS.iter().cloned().chain(["x", "", "value", "values", "main", "readObject", "this$0", "lambda$x$0", "access$000", "$VALUES"]).collect();
    for (i, name) in names.iter().enumerate() {
        for (j, desc) in DESCS.iter().enumerate() {
            for shape in 0..4usize {
                if !s.mine() || !s.thorough && shape != (i + j) % 4 && *name != "x" {
                    continue;
                }
                let mut c = Cls::new();
                let (n, d) = (c.name(name), c.name(desc));
                c.header(0);
                let mut at = Vec::new();
                for kind in 0..2 {
                    let k = 1 + shape % 2;
                    c.u2(k as u16);
                    for _ in 0..k {
                        at.push(c.body.b.len());
                        c.u2(0);
                        c.u2(n);
                        c.u2(d);
                        if shape / 2 == kind {
                            c.u2(0);
                        } else {
                            c.u2(1);
                            attrs::any_attribute(&mut c, if kind == 1 { 25 } else { 0 });
                        }
                    }
                }
                c.u2(0);
                let body = c.pool.b.len() + 10;
                let mut b = lead.to_vec();
                b.extend(c.finish_plain());
                for f in &flags {
                    for (q, k) in at.iter().enumerate() {
                        // the second of its kind differs
                        let f = if shape % 2 == 1 && q % 2 == 1 { !f } else { *f };
                        let k = lead.len() + body + k;
                        b[k..k + 2].copy_from_slice(&f.to_be_bytes());
                    }
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C19

/// Name, bit, as in the JVM specification (4.1-A, 4.5-A, 4.6-A, 4.7.6-A, 4.7.24, 4.7.25).
fn named() -> Vec<(&'static str, AccessFlags, u16)> {
    vec![
        ("PUBLIC", AccessFlags::PUBLIC, 0x0001),
        ("PRIVATE", AccessFlags::PRIVATE, 0x0002),
        ("PROTECTED", AccessFlags::PROTECTED, 0x0004),
        ("STATIC", AccessFlags::STATIC, 0x0008),
        ("FINAL", AccessFlags::FINAL, 0x0010),
        ("SUPER", AccessFlags::SUPER, 0x0020),
        ("SYNCHRONIZED", AccessFlags::SYNCHRONIZED, 0x0020),
        ("VOLATILE", AccessFlags::VOLATILE, 0x0040),
        ("BRIDGE", AccessFlags::BRIDGE, 0x0040),
        ("STATIC_PHASE", AccessFlags::STATIC_PHASE, 0x0040),
        ("TRANSIENT", AccessFlags::TRANSIENT, 0x0080),
        ("VARARGS", AccessFlags::VARARGS, 0x0080),
        ("NATIVE", AccessFlags::NATIVE, 0x0100),
        ("INTERFACE", AccessFlags::INTERFACE, 0x0200),
        ("ABSTRACT", AccessFlags::ABSTRACT, 0x0400),
        ("STRICT", AccessFlags::STRICT, 0x0800),
        ("SYNTHETIC", AccessFlags::SYNTHETIC, 0x1000),
        ("ANNOTATION", AccessFlags::ANNOTATION, 0x2000),
        ("ENUM", AccessFlags::ENUM, 0x4000),
        ("MODULE", AccessFlags::MODULE, 0x8000),
        ("MANDATED", AccessFlags::MANDATED, 0x8000),
    ]
}

/// Payload: how many structures there are of each kind, which of them has the given flags, a
/// variant, the flags of the others, and one flag value per place, nine places. 0xFF: a class file.
fn run_flags(p: &[u8], st: &mut Stats) -> Result<(), String> {
    if p[0] == 0xFF {
        // a class file
        return run_class(&p[1..], st);
    }
    let (n, pos, var) = (usize::from(p[0]), usize::from(p[1]), p[2]);
    let v: Vec<u16> = p[3..].chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
    let (other, v) = (v[0], &v[1..]);
    let mut c = Cls::new();
    if var & 1 != 0 {
        c.major = 45;
        c.minor = 3;
    }
    // all other values are different, or zero
    let w = |c: &mut Cls, k: usize| {
        for _ in 0..k {
            if var & 2 != 0 {
                c.u2(0);
            } else {
                c.v2(1);
            }
        }
    };
    let of = |k: usize, j: usize| if j == pos { v[k] } else { other };
    let marks = |c: &mut Cls, first: usize| {
        if var & 4 != 0 {
            c.u2(2 + first as u16);
            for a in ["Synthetic", "Deprecated"] {
                let e = c.begin(a);
                c.end(e);
            }
        } else {
            c.u2(first as u16);
        }
    };
    c.u2(v[0]);
    w(&mut c, 2);
    c.u2(0);
    for k in 1..3 {
        c.u2(n as u16);
        for j in 0..n {
            c.u2(of(k, j));
            w(&mut c, 2);
            marks(&mut c, (k == 2 && j == 0) as usize);
            if k == 2 && j == 0 {
                let e = c.begin("MethodParameters");
                c.u1(n as u8);
                for j in 0..n {
                    w(&mut c, 1);
                    c.u2(of(4, j));
                }
                c.end(e);
            }
        }
    }
    marks(&mut c, 2);
    let e = c.begin("InnerClasses");
    c.u2(n as u16);
    for j in 0..n {
        w(&mut c, 3);
        c.u2(of(3, j));
    }
    c.end(e);
    let e = c.begin("Module");
    w(&mut c, 1);
    c.u2(v[5]);
    w(&mut c, 1);
    c.u2(n as u16);
    for j in 0..n {
        w(&mut c, 1);
        c.u2(of(6, j));
        w(&mut c, 1);
    }
    for k in 7..9 {
        c.u2(n as u16);
        for j in 0..n {
            w(&mut c, 1);
            c.u2(of(k, j));
            let to = if var & 8 != 0 { j + 1 } else { 0 };
            c.u2(to as u16);
            w(&mut c, to);
        }
    }
    c.u2(0);
    c.u2(0);
    c.end(e);
    let b = c.finish().b;
    st.start();
    let (pool, class) = basic::parse(&b).map_err(|e| format!("rejected with {:?}", e))?;
    let _ = pool;
    let shape_err = || "the class does not have the expected shape".to_owned();
    let method = class.methods.get(0).ok_or_else(shape_err)?;
    // (place, which structure, flags)
    let mut got: Vec<(usize, usize, AccessFlags)> = vec![(0, pos, class.access_flags)];
    got.extend(class.fields.iter().enumerate().map(|(j, x)| (1, j, x.access_flags)));
    got.extend(class.methods.iter().enumerate().map(|(j, x)| (2, j, x.access_flags)));
    for a in class.attributes.iter().chain(method.attributes.iter()) {
        match *a {
            Attribute::InnerClasses(ref v) => got.extend(v.iter().enumerate().map(|(j, x)| (3, j, x.inner_class_access_flags))),
            Attribute::MethodParameters(ref v) => got.extend(v.iter().enumerate().map(|(j, x)| (4, j, x.access_flags))),
            Attribute::Module { flags, ref requires, ref exports, ref opens, .. } => {
                got.push((5, pos, flags));
                got.extend(requires.iter().enumerate().map(|(j, x)| (6, j, x.flags)));
                got.extend(exports.iter().enumerate().map(|(j, x)| (7, j, x.flags)));
                got.extend(opens.iter().enumerate().map(|(j, x)| (8, j, x.flags)));
            }
            _ => {}
        }
    }
    if got.len() != 7 * n + 2 || got.iter().any(|x| x.1 >= n) {
        return Err(shape_err());
    }
    const PLACES: [&str; 9] = ["class", "field", "method", "inner class", "method parameter", "module", "requires", "exports", "opens"];
    for (k, j, f) in got {
        let want = of(k, j);
        st.step(u64::from(want) << 8 | k as u64);
        if f.bits() != want {
            return Err(format!("{} flags {:#06x} reported as {:#06x}", PLACES[k], want, f.bits()));
        }
        for (name, flag, bit) in named() {
            if f.contains(flag) != (want & bit != 0) {
                return Err(format!("{} flags {:#06x}: {} is reported as {}", PLACES[k], want, name, f.contains(flag)));
            }
            if f.intersects(flag) != (want & bit != 0) {
                return Err(format!("{} flags {:#06x}: {} intersects: {}", PLACES[k], want, name, f.intersects(flag)));
            }
            if flag.bits() != bit {
                return Err(format!("{} is {:#06x}, not {:#06x}", name, flag.bits(), bit));
            }
        }
        st.distinct(u64::from(want) * 9 + k as u64);
    }
    st.outcome("all places agree");
    Ok(())
}

fn c19(s: &mut Sink) {
    s.phase("every value at every place");
    let make = |n: u8, pos: u8, var: u8, other: u16, v: &[u16; 9]| -> Vec<u8> {
        let mut p = vec![n, pos, var];
        p.extend(std::iter::once(&other).chain(v.iter()).flat_map(|x| x.to_be_bytes()));
        p
    };
    let put = |v: &[u16; 9]| make(1, 0, 0, 0, v);
    for v in 0..=0xFFFFu16 {
        if (v as usize / 32) % s.nshards != s.shard {
            continue;
        }
        // all nine places take all values: different ones at a time
        let mut w = [0u16; 9];
        for k in 0..9u16 {
            w[k as usize] = (v.rotate_left(u32::from(k)) ^ k.wrapping_mul(0x1357)).wrapping_add(k);
        }
        if !s.case(&put(&w)) || !s.case(&put(&[v; 9])) {
            return;
        }
    }
    s.phase("two flags, among others, in different surroundings");
    for n in 1..=3u8 {
        for pos in 0..n {
            for var in 0..16u8 {
                for i in 0..16 {
                    if !s.mine() {
                        continue;
                    }
                    for j in 0..=i {
                        for other in [0u16, 0xFFFF, 1 << i, 1 << j, 0x1000, 0x8000] {
                            for invert in [0u16, 0xFFFF] {
                                if n == 1 && other != 0 {
                                    continue;
                                }
                                if !s.case(&make(n, pos, var, other, &[(1 << i | 1 << j) ^ invert; 9])) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    s.phase("every value, among others");
    for v in 0..=0xFFFFu16 {
        if (v as usize / 32) % s.nshards != s.shard {
            continue;
        }
        for (n, pos, other) in [(2, 0, 0), (2, 1, !v), (3, 1, v.rotate_left(1)), (3, 2, v ^ 0x8000)] {
            let var = (v ^ v >> 7) as u8 & 15;
            if !s.case(&make(n, pos, var, other, &[v; 9])) {
                return;
            }
        }
    }
    s.phase("one place at a time");
    for k in 0..9 {
        for bit in 0..16 {
            for base in [0u16, 0xFFFF] {
                if s.mine() {
                    let mut w = [base; 9];
                    w[k] ^= 1 << bit;
                    if !s.case(&put(&w)) {
                        return;
                    }
                }
            }
        }
    }
    flags_by_version(s, &[0xFF]);
    named_members(s, &[0xFF]);
    if s.thorough {
        s.phase("every value at one place, two backgrounds");
        for k in 0..9 {
            for base in [0u16, 0xFFFF] {
                for v in 0..=0xFFFFu16 {
                    if (v as usize / 32) % s.nshards != s.shard {
                        continue;
                    }
                    let mut w = [base; 9];
                    w[k] = v;
                    if !s.case(&put(&w)) {
                        return;
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C20

/// Single-defect inputs: acceptance never, and the error is exactly the one of the model. When the
/// changed tag turns out to be defined, or only makes the rest end early, only the verdict counts.
fn run_exact(b: &[u8], st: &mut Stats) -> Result<(), String> {
    conform(b, UNDEFINED, st)
}

fn c20(s: &mut Sink) {
    let t = s.thorough;
    s.phase("constant tags and handle kinds at every index");
    for n in 1..=if t { 6usize } else { 4 } {
        for pos in 0..n {
            for shape in 0..if t { 216 } else { 36usize } {
                if !s.mine() {
                    continue;
                }
                for v in 0..=255u8 {
                    for handle in [false, true] {
                        let mut c = Cls::new();
                        let mut r = shape;
                        for k in 0..n {
                            if k == pos {
                                if handle {
                                    c.pool.u1(15);
                                }
                                c.pool.u1(v);
                                c.pool.u2(1);
                                c.next += 1;
                            } else {
                                cp::entry(&mut c, [0, 1, 2, 4, 10, 11][r % 6]);
                                r /= 6;
                            }
                        }
                        c.header(0);
                        c.u2(0);
                        c.u2(0);
                        c.u2(0);
                        // defined tags of other lengths shift the rest: not a single defect
                        if !handle && matches!(v, 1 | 3..=6 | 9..=12 | 15 | 18) {
                            continue;
                        }
                        if !s.case(&c.finish().b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("constant tags at late indices");
    for n in [254u32, 255, 256, 257, 300, 32766, 32767, 32768, 65533, 65534] {
        for wide in [false, true] {
            for v in [0u8, 2, 13, 14, 17, 21, 128, 255] {
                if s.mine() {
                    let mut c = Cls::new();
                    while c.next + (wide as u32) < n {
                        cp::entry(&mut c, wide as usize);
                    }
                    while c.next < n {
                        cp::entry(&mut c, 0);
                    }
                    c.pool.u1(v);
                    c.pool.u2(1);
                    c.next += 1;
                    c.header(0);
                    c.u2(0);
                    c.u2(0);
                    c.u2(0);
                    if c.next < 65536 {
                        let n = c.next as u16;
                        if !s.case(&c.finish_count(n).b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("opcodes, wide targets and array codes at every offset");
    let mut b = Vec::new();
    for lead in 0..code::SHAPES.len() + 1 {
        for second in 0..if t { code::SHAPES.len() + 1 } else { 4 } {
            for m in 0..2 {
                if !s.mine() {
                    continue;
                }
                for which in 0..3 {
                    for v in 0..=255u8 {
                        let mut c = Vec::new();
                        for k in [lead, second * if t { 1 } else { 5 }] {
                            if k > 0 && k <= code::SHAPES.len() {
                                code::insn(&mut c, code::SHAPES[k - 1], 2);
                            }
                        }
                        match which {
                            0 => {
                                if shape(v) != Shape::Undefined {
                                    continue;
                                }
                                c.push(v);
                            }
                            1 => c.extend_from_slice(&[0xC4, v]),
                            _ => c.extend_from_slice(&[0xBC, v]),
                        }
                        c.extend_from_slice(&[0, 0, 0, 0, 0xB1]);
                        if m == 0 {
                            code::class(&mut b, 0, &[&c]);
                        } else {
                            code::class(&mut b, 1, &[&[0, 0x57, 0xB1], &c]);
                        }
                        if !s.case(&b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("opcodes at late offsets");
    for at in [250usize, 255, 256, 257, 32767, 32768, 65000, 65530, 65535, 65536, 65537, 131_073] {
        for v in 0..=255u8 {
            if s.mine() {
                for which in 0..3 {
                    let mut c = vec![0; at];
                    match which {
                        0 if shape(v) == Shape::Undefined => c.push(v),
                        0 => continue,
                        1 => c.extend_from_slice(&[0xC4, v]),
                        _ => c.extend_from_slice(&[0xBC, v]),
                    }
                    c.extend_from_slice(&[0; 4]);
                    code::class(&mut b, 0, &[&c]);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("frame and verification types at every index");
    for n in 1..=3usize {
        for pos in 0..n {
            for v in 0..=255u8 {
                if !s.mine() {
                    continue;
                }
                // which: 0 frame type, 1.. a verification type within a kind of frame
                for which in 0..10 {
                    let x = at(Loc::Code, 1, &mut |c| {
                        let e = c.begin("StackMapTable");
                        c.u2(n as u16);
                        for k in 0..n {
                            if k != pos {
                                c.body.raw(&[[3u8, 251, 64][k % 3]]);
                                match k % 3 {
                                    1 => c.v2(1),
                                    2 => c.u1(1),
                                    _ => {}
                                }
                                continue;
                            }
                            match which {
                                0 => c.u1(v),
                                1 => c.body.raw(&[64, v]),
                                2 => c.body.raw(&[247, 0, 9, v]),
                                3 => c.body.raw(&[252, 0, 9, v]),
                                4 => c.body.raw(&[253, 0, 9, 1, v]),
                                5 => c.body.raw(&[254, 0, 9, 7, 0, 8, v, 1]),
                                6 => c.body.raw(&[254, 0, 9, 1, 2, v]),
                                7 => c.body.raw(&[255, 0, 9, 0, 2, 7, 0, 3, v, 0, 0]),
                                8 => c.body.raw(&[255, 0, 9, 0, 1, 1, 0, 1, v]),
                                _ => c.body.raw(&[255, 0, 9, 0, 0, 0, 3, 8, 0, 1, 3, v]),
                            }
                        }
                        c.end(e);
                    });
                    // only undefined values keep the rest in place
                    if which == 0 && !(128..=246).contains(&v) {
                        continue;
                    }
                    if which > 0 && (v == 7 || v == 8) {
                        continue;
                    }
                    if !s.case(&x.b) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("element tags, target types and path kinds");
    let ann: [(&str, &[u8]); 6] = [
        ("AnnotationDefault", b""),
        ("RuntimeVisibleAnnotations", b"\0\x01\0\x05\0\x01\0\x06"),
        ("RuntimeInvisibleAnnotations", b"\0\x01\0\x05\0\x02\0\x06I\0\x01\0\x07"),
        ("RuntimeVisibleParameterAnnotations", b"\x02\0\0\0\x01\0\x05\0\x01\0\x06"),
        ("RuntimeInvisibleParameterAnnotations", b"\x01\0\x01\0\x05\0\x01\0\x06"),
        ("RuntimeVisibleTypeAnnotations", b"\0\x01\x13\0\0\x05\0\x01\0\x06"),
    ];
    let nests: [&[u8]; 5] = [b"", b"[\0\x01", b"[\0\x02Z\0\x09", b"@\0\x01\0\x01\0\x02", b"[\0\x01@\0\x01\0\x01\0\x02[\0\x01"];
    for (name, head) in ann {
        for nest in nests {
            for v in 0..=255u8 {
                if b"BCDFIJSZsce@[".contains(&v) || !s.mine() {
                    continue;
                }
                for loc in LOCS {
                    let x = at(loc, 1, &mut |c| {
                        let e = c.begin(name);
                        c.body.raw(head);
                        c.body.raw(nest);
                        c.u1(v);
                        c.v2(1);
                        c.end(e);
                    });
                    if !s.case(&x.b) {
                        return;
                    }
                }
            }
        }
    }
    after_siblings(s);
    s.phase("target types and path kinds at every index");
    for name in ["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"] {
        for pos in 0..3usize {
            for which in 0..4 {
                for v in 0..=255u8 {
                    if !s.mine() {
                        continue;
                    }
                    for loc in LOCS {
                        let x = at(loc, 1, &mut |c| {
                            let e = c.begin(name);
                            c.u2(3);
                            for k in 0..3 {
                                let on = |w: usize, d: u8| if k == pos && which == w { v } else { d };
                                c.u1(on(0, [0x13, 0x14, 0x15][k]));
                                c.body.raw(&[3, on(1, 0), 0, on(2, 1), 0, on(3, 3), 9]);
                                c.body.raw(&[0, 5, 0, 0]);
                            }
                            c.end(e);
                        });
                        // a defined target type with operands shifts the rest
                        if which == 0 && (v <= 1 || (0x10..=0x12).contains(&v) || v == 0x16 || v == 0x17 || (0x40..=0x4B).contains(&v)) {
                            continue;
                        }
                        if !s.case(&x.b) {
                            return;
                        }
                    }
                }
            }
        }
    }
    // one of each kind of undefined encoding, in surroundings of every kind
    let mut v: Vec<attrs::Variant> = Vec::new();
    for op in [0xCAu8, 0xCB, 0xCC, 0xD0, 0xFD, 0xFE, 0xFF] {
        v.push(Box::new(move |c| attrs::code_of(c, &[0, op, 0xB1])));
    }
    for w in [0u8, 0x14, 0x1A, 0x35, 0x3B, 0x83, 0x85, 0xA8, 0xAA, 0xC4, 0xFF] {
        v.push(Box::new(move |c| attrs::code_of(c, &[0xC4, w, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xB1])));
    }
    for x in [0u8, 3, 12, 0x80, 0xFF] {
        v.push(Box::new(move |c| attrs::code_of(c, &[0xBC, x, 0xB1])));
    }
    let mut put = |name: &'static str, content: Vec<u8>| {
        v.push(Box::new(move |c: &mut Cls| unknown(c, name, &content)));
    };
    for x in [128u8, 200, 246] {
        put("StackMapTable", vec![0, 1, x, 0, 0, 0]);
    }
    for x in [9u8, 10, 0x80, 0xFF] {
        put("StackMapTable", vec![0, 1, 64, x]);
        put("StackMapTable", vec![0, 1, 255, 0, 0, 0, 0, 0, 1, x]);
    }
    for x in [0u8, b'A', b'L', b'V', b'b', b'i', b'a', b']', 0x80, 0xFF] {
        put("AnnotationDefault", vec![x, 0, 1]);
        put("RuntimeVisibleAnnotations", vec![0, 1, 0, 5, 0, 1, 0, 6, x, 0, 1]);
        put("RuntimeInvisibleTypeAnnotations", vec![0, 1, 0x13, 0, 0, 5, 0, 1, 0, 6, x, 0, 1]);
    }
    for x in [2u8, 0x0F, 0x18, 0x3F, 0x4C, 0x80, 0xFF] {
        put("RuntimeVisibleTypeAnnotations", vec![0, 1, x, 0, 0, 5, 0, 0]);
    }
    for x in [4u8, 5, 0x80, 0xFF] {
        put("RuntimeInvisibleTypeAnnotations", vec![0, 1, 0x13, 1, x, 0, 0, 5, 0, 0]);
    }
    contexts(s, &v);
    let all: Vec<Vec<u8>> = v.iter().map(|f| at(Loc::Method, 1, &mut |c| f(c)).b).collect();
    versions(s, 0, &all);
    s.phase("attribute names that are other constants");
    let mut names: Vec<&str> = attrs::all_names();
    names.push("X");
    for loc in LOCS {
        for kind in 0..REFERRING.len() {
            for (k, name) in names.iter().enumerate() {
                if !s.mine() {
                    continue;
                }
                for after in [false, true] {
                    for body in 0..4 {
                        if !s.case(&named_by(loc, kind, name, k, after, body)) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("attribute name indices");
    for loc in LOCS {
        for pos in 0..2 {
            for i in 0..=0xFFFFu32 {
                if (i as usize / 16) % s.nshards != s.shard || (!t && i > 300 && i % 37 != 0 && i < 65400) {
                    continue;
                }
                let x = at_with_pool(loc, pos, i as u16);
                if !s.case(&x) {
                    return;
                }
            }
        }
    }
}

/// Every undefined encoding after every short sequence of defined ones.
fn after_siblings(s: &mut Sink) {
    s.phase("undefined encodings after every short sequence of defined ones");
    let two = |a: &[&[u8]]| a.iter().map(|x| x.to_vec()).collect::<Vec<Vec<u8>>>();
    let mut element: Vec<Vec<u8>> = b"BCDFIJSZsc".iter().map(|t| vec![*t, 0, 7]).collect();
    element.extend(two(&[b"e\0\x01\0\x02", b"@\0\x01\0\0", b"[\0\0", b"[\0\x01s\0\x02", b"@\0\x01\0\x01\0\x02s\0\x03"]));
    let pairs: Vec<Vec<u8>> = element.iter().map(|e| [&[0, 9], &e[..]].concat()).collect();
    let vtypes: Vec<Vec<u8>> = two(&[&[0], &[1], &[2], &[3], &[4], &[5], &[6], &[7, 0, 1], &[8, 0, 1]]);
    let frames: Vec<Vec<u8>> = two(&[&[0], &[63], &[64, 1], &[127, 7, 0, 1], &[247, 0, 1, 8, 0, 2], &[248, 0, 1], &[250, 0, 1], &[251, 0, 1], &[252, 0, 1, 1], &[254, 0, 1, 1, 7, 0, 1, 4], &[255, 0, 1, 0, 0, 0, 0], &[255, 0, 1, 0, 1, 1, 0, 1, 7, 0, 1]]);
    let tail = [0u8, 5, 0, 0];
    let mut targets: Vec<Vec<u8>> = Vec::new();
    for (t, n) in [(0u8, 1), (1, 1), (0x10, 2), (0x11, 2), (0x12, 2), (0x13, 0), (0x14, 0), (0x15, 0), (0x16, 1), (0x17, 2), (0x42, 2), (0x43, 2), (0x44, 2), (0x45, 2), (0x46, 2), (0x47, 3), (0x48, 3), (0x4B, 3)] {
        targets.push([&[t][..], &vec![0; n], &[0], &tail].concat());
    }
    targets.push([&[0x40, 0, 0, 0][..], &tail].concat());
    targets.push([&[0x41, 0, 1, 0, 1, 0, 2, 0, 3, 1, 3, 2][..], &tail].concat());
    let paths: Vec<Vec<u8>> = two(&[&[0, 0], &[1, 0], &[2, 0], &[3, 0], &[3, 7]]);
    let none: [u8; 0] = [];
    // attribute, what goes before the count, width of the count, defined ones, is it defined, what goes after
    let lists: Vec<(&str, &[u8], usize, &Vec<Vec<u8>>, fn(u8) -> bool, &[u8])> = vec![
        ("AnnotationDefault", b"[", 2, &element, |v| b"BCDFIJSZsce@[".contains(&v), &none),
        ("AnnotationDefault", b"[\0\x02I\0\x01[", 2, &element, |v| b"BCDFIJSZsce@[".contains(&v), &none),
        ("RuntimeVisibleAnnotations", b"\0\x01\0\x05\0\x01\0\x06[", 2, &element, |v| b"BCDFIJSZsce@[".contains(&v), &none),
        ("RuntimeInvisibleAnnotations", b"\0\x01\0\x05", 2, &pairs, |v| b"BCDFIJSZsce@[".contains(&v), &none),
        ("RuntimeVisibleParameterAnnotations", b"\x01\0\x01\0\x05", 2, &pairs, |v| b"BCDFIJSZsce@[".contains(&v), &none),
        ("RuntimeVisibleTypeAnnotations", b"\0\x01\x13\0\0\x05", 2, &pairs, |v| b"BCDFIJSZsce@[".contains(&v), &none),
        ("StackMapTable", b"", 2, &frames, |v| !(128..=246).contains(&v), &none),
        ("StackMapTable", b"\0\x01\xff\0\x09", 2, &vtypes, |v| v < 9, b"\0\0"),
        ("StackMapTable", b"\0\x01\xff\0\x09\0\0", 2, &vtypes, |v| v < 9, &none),
        ("RuntimeVisibleTypeAnnotations", b"", 2, &targets, |v| v <= 1 || (0x10..=0x17).contains(&v) || (0x40..=0x4B).contains(&v), &none),
        ("RuntimeInvisibleTypeAnnotations", b"\0\x01\x13", 1, &paths, |v| v < 4, &tail),
    ];
    for (k, (name, head, width, of, defined, tail)) in lists.iter().enumerate() {
        let n = of.len();
        for len in 0..=if s.thorough { 4u32 } else { 3 } {
            for word in 0..n.pow(len) {
                if !s.mine() || !s.thorough && len == 3 && n > 9 && (word + k) % 3 != 0 {
                    continue;
                }
                let all = len < 2 || len == 2 && (s.thorough || word % 5 == 0);
                for v in 0..=255u8 {
                    if defined(v) || !all && !UNDEFINED_SOME.contains(&v) {
                        continue;
                    }
                    let mut c = Cls::new();
                    let b = {
                        at_in(&mut c, LOCS[(word + v as usize) % 4], 1, &mut |c| {
                            let e = c.begin(name);
                            c.body.raw(head);
                            c.body.raw(&(len + 1).to_be_bytes()[4 - width..]);
                            let mut r = word;
                            for _ in 0..len {
                                c.body.raw(&of[r % n]);
                                r /= n;
                            }
                            if of[0].len() == 5 && of[0][0] == 0 && of[0][1] == 9 {
                                c.body.raw(&[0, 9]);
                            }
                            c.body.raw(&[v, 0, 7]);
                            c.body.raw(tail);
                            c.end(e);
                        });
                        c.finish_plain()
                    };
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
    }
    // opcodes, and constants
    let mut b = Vec::new();
    for len in 1..=3u32 {
        let n = code::SHAPES.len();
        for word in 0..n.pow(len) {
            if !s.mine() || !s.thorough && len == 3 && word % 3 != 0 {
                continue;
            }
            let mut c = Vec::new();
            let mut r = word;
            for j in 0..len {
                code::insn(&mut c, code::SHAPES[r % n], j as u8 + 2);
                r /= n;
            }
            let end = c.len();
            for v in [0xCAu8, 0xCB, 0xCC, 0xFE, 0xFF, 0xDB] {
                for how in 0..3 {
                    c.truncate(end);
                    c.extend_from_slice([&[v][..], &[0xC4, v], &[0xBC, v]][how]);
                    c.extend_from_slice(&[0, 0, 0, 0, 0xB1]);
                    code::class(&mut b, 0, &[&c]);
                    if !s.case(&b) {
                        return;
                    }
                }
            }
        }
        for word in 0..cp::ENTRIES.pow(len) {
            if !s.mine() || !s.thorough && len == 3 && word % 3 != 0 {
                continue;
            }
            for v in [0u8, 2, 13, 14, 17, 21, 0x80, 0xFF] {
                for handle in [false, true] {
                    let mut c = Cls::new();
                    let mut r = word;
                    for _ in 0..len {
                        cp::entry(&mut c, r % cp::ENTRIES);
                        r /= cp::ENTRIES;
                    }
                    if handle {
                        c.pool.u1(15);
                        c.pool.u1(if v < 20 && v > 0 { v + 8 } else { v });
                    } else {
                        c.pool.u1(v);
                    }
                    c.pool.u2(1);
                    c.next += 1;
                    for x in [1, 7, 9, 0, 0, 0, 0] {
                        c.u2(x);
                    }
                    if !s.case(&c.finish_plain()) {
                        return;
                    }
                }
            }
        }
    }
}
const UNDEFINED_SOME: [u8; 16] = [2, 4, 9, 10, 0x0F, 0x18, 0x3F, 0x4C, b'A', b'L', b'V', b'a', 128, 200, 246, 0xFF];

/// Constants that refer to others: tag, and how many bytes follow the tag in all.
const REFERRING: [(u8, usize); 16] = [
    (7, 2), (8, 2), (16, 2), (19, 2), (20, 2), (9, 4), (10, 4), (11, 4), (12, 4), (17, 4), (18, 4), (15, 3), (3, 4), (4, 4), (5, 8), (6, 8),
];

/// An attribute at `loc` whose name index denotes a constant that refers to the text `name` (with
/// both of its operands if it has two), which comes before or after it.
fn named_by(loc: Loc, kind: usize, name: &str, k: usize, after: bool, body: usize) -> Vec<u8> {
    let mut c = Cls::new();
    let (tag, n) = REFERRING[kind];
    let before = if after { 0 } else { c.raw_utf8(name) };
    let at = c.next as u16;
    let to = if after { at + if n == 8 { 2 } else { 1 } } else { before };
    c.pool.u1(tag);
    if n == 3 {
        c.pool.u1(1 + (k % 9) as u8);
    }
    for _ in 0..n / 2 {
        c.pool.u2(to);
    }
    c.next += if n == 8 { 2 } else { 1 };
    if after {
        c.raw_utf8(name);
    }
    at_in(&mut c, loc, 1, &mut |c| {
        let e = c.begin_at(at);
        match body {
            0 => {}
            1 => c.v2(1),
            2 => c.u4(0),
            _ => c.u2(0),
        }
        c.end(e);
    });
    c.finish().b
}

/// Two attributes at `loc`; the name index of one is `i`. The pool has entries of every kind.
fn at_with_pool(loc: Loc, pos: usize, i: u16) -> Vec<u8> {
    let mut c = Cls::new();
    for k in 0..18 {
        cp::entry(&mut c, k);
    }
    at_in(&mut c, loc, 2, &mut |c| {
        for k in 0..2 {
            if k == pos {
                let e = c.begin_at(i);
                c.v2(1);
                c.end(e);
            } else {
                sentinel(c);
            }
        }
    });
    c.finish().b
}

pub const DRIVERS: &[Driver] = &[
    Driver { id: "C15", run: run_class, explore: c15 },
    Driver { id: "C16", run: run_class, explore: c16 },
    Driver { id: "C17", run: run_truncated, explore: c17 },
    Driver { id: "C18", run: run_class, explore: c18 },
    Driver { id: "C19", run: run_flags, explore: c19 },
    Driver { id: "C20", run: run_exact, explore: c20 },
];
