//! C30: the work of an operation against the size of what it is given. Work is measured in three ways:
//! bytes requested from the allocator and instructions executed (single-stepped), which do not depend
//! on the machine's load, and processor time for inputs of the largest sizes.
use super::{attrs, code, cp, robust, Driver};
use crate::alloc;
use crate::build::*;
use crate::sched::Points;
use crate::sink::Sink;
use crate::stats::{mix, Stats};
use jbcrs::basic::{self, Item, Pool, ReferenceKind};
use jbcrs::{MethodDescriptor, TypeDescriptor};
use std::hint::black_box;

pub const DRIVERS: &[Driver] = &[Driver { id: "C30", run, explore }];

// ---------------------------------------------------------------- inputs that can be scaled

/// Parts of a class: interfaces, fields, methods and class attributes.
#[derive(Default)]
struct Parts {
    n: [u32; 4],
    w: [Vec<u8>; 4],
    /// index of a text that attributes are named by
    name: Option<u16>,
}

#[derive(Copy, Clone, PartialEq)]
enum Part {
    Pool = 9,
    Interface = 0,
    Field = 1,
    Method = 2,
    Attribute = 3,
}
use Part::{Attribute, Field, Interface, Method};

/// What grows, up to which size, and what writes it (the number of entries of the part is returned).
struct Family {
    name: String,
    part: Part,
    most: usize,
    /// measured at large sizes only
    fine: bool,
    write: Box<dyn Fn(&mut Cls, &mut Parts, usize) -> u32>,
}

fn constant(c: &mut Cls, tag: u8, i: usize) {
    let p = &mut c.pool;
    p.u1(tag);
    let (hi, lo) = ((i / 251) as u16, (i % 251) as u16);
    match tag {
        3 => p.u4(i as u32),
        4 => p.u4((i as u32) << 12),
        5 => p.u8_(i as u64),
        6 => p.u8_((i as u64) << 40),
        7 | 8 | 16 | 19 | 20 => p.u2(i as u16),
        9..=12 | 18 => {
            p.u2(hi);
            p.u2(lo);
        }
        15 => {
            p.u1(1 + (i % 9) as u8);
            p.u2((i / 9) as u16);
        }
        _ => unreachable!(),
    }
    c.next += if tag == 5 || tag == 6 { 2 } else { 1 };
}

fn utf8(c: &mut Cls, bytes: &[u8]) -> u16 {
    c.pool.u1(1);
    c.pool.u2(bytes.len() as u16);
    c.pool.raw(bytes);
    c.next += 1;
    (c.next - 1) as u16
}

fn families() -> Vec<Family> {
    let mut v: Vec<Family> = Vec::new();
    macro_rules! add {
        ($name:expr, $part:expr, $most:expr, $f:expr) => {
            v.push(Family { name: String::from($name), part: $part, most: $most, fine: false, write: Box::new($f) })
        };
    }
    // texts of one constant, which then names attributes
    add!("text of one-byte characters", Part::Pool, 65535, |c, p, k| {
        p.name = Some(utf8(c, &vec![b'n'; k]));
        0
    });
    for unit in [&[0xC0u8, 0x80][..], &[0xE2, 0x82, 0xAC], &[0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80]] {
        add!(format!("text of {}-byte characters", unit.len()), Part::Pool, 65535 / unit.len(), move |c, p, k| {
            p.name = Some(utf8(c, &unit.repeat(k)));
            0
        });
    }
    for tag in [3u8, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20] {
        add!(format!("different constants of tag {}", tag), Part::Pool, if tag == 5 || tag == 6 { 32_000 } else { 65_000 }, move |c, _, k| {
            (0..k).for_each(|i| constant(c, tag, i));
            0
        });
        add!(format!("equal constants of tag {}", tag), Part::Pool, if tag == 5 || tag == 6 { 32_000 } else { 65_000 }, move |c, _, k| {
            (0..k).for_each(|_| constant(c, tag, 7));
            0
        });
    }
    add!("different texts", Part::Pool, 65_000, |c, _, k| {
        (0..k).for_each(|i| {
            utf8(c, format!("{:05}", i).as_bytes());
        });
        0
    });
    add!("equal texts", Part::Pool, 65_000, |c, _, k| {
        (0..k).for_each(|_| {
            utf8(c, b"same/Name");
        });
        0
    });
    add!("texts that differ at their end", Part::Pool, 65_000, |c, _, k| {
        (0..k).for_each(|i| {
            utf8(c, format!("java/lang/invoke/MethodHandles$Lookup${:05}", i).as_bytes());
        });
        0
    });
    add!("texts of every length", Part::Pool, 1200, |c, _, k| {
        (0..k).for_each(|i| {
            utf8(c, &vec![b'x'; i]);
        });
        0
    });
    add!("interfaces", Interface, 65535, |c, _, k| {
        c.v2(k);
        k as u32
    });
    for (part, name) in [(Field, "fields"), (Method, "methods")] {
        add!(name, part, 65535, |c, _, k| {
            for _ in 0..k {
                c.v2(3);
                c.u2(0);
            }
            k as u32
        });
        add!(format!("{} with an attribute", name), part, 65535, |c, p, k| {
            for _ in 0..k {
                c.v2(3);
                c.u2(1);
                unknown(c, p, 2);
            }
            k as u32
        });
        add!(format!("attributes of one of the {}", name), part, 65535, |c, p, k| {
            c.v2(3);
            c.u2(k as u16);
            (0..k).for_each(|_| unknown(c, p, 0));
            1
        });
    }
    add!("methods with code", Method, 65535, |c, _, k| {
        for _ in 0..k {
            c.v2(3);
            c.u2(1);
            let e = c.begin("Code");
            c.v2(2);
            c.u4(1);
            c.u1(0xB1);
            c.u2(0);
            c.u2(0);
            c.end(e);
        }
        k as u32
    });
    add!("unknown attributes", Attribute, 65535, |c, p, k| {
        (0..k).for_each(|_| unknown(c, p, 0));
        k as u32
    });
    add!("content of an unknown attribute", Attribute, 16 << 20, |c, p, k| {
        unknown(c, p, k);
        1
    });
    for kind in 0..attrs::KINDS {
        add!(format!("attributes of kind {}", kind), Attribute, 65535, move |c, _, k| {
            (0..k).for_each(|_| attrs::any_attribute(c, kind));
            k as u32
        });
    }
    // tables: count and entries
    let mut table = |name: &'static str, head: &'static [u8], entry: &'static [u8], tail: &'static [u8]| {
        v.push(Family {
            name: format!("{} {:02x?}", name, entry),
            part: Attribute,
            most: 65535,
            fine: false,
            write: Box::new(move |c, _, k| {
                let e = c.begin(name);
                c.body.raw(head);
                c.body.raw(&(k as u16).to_be_bytes());
                for i in 0..k {
                    let at = c.body.b.len();
                    c.body.raw(entry);
                    // entries that differ: 0xEE stands for a byte of the number
                    let n = (i as u16).to_be_bytes();
                    let mut m = 0;
                    for x in &mut c.body.b[at..] {
                        if *x == 0xEE {
                            *x = n[m & 1];
                            m += 1;
                        }
                    }
                }
                c.body.raw(tail);
                c.end(e);
                1
            }),
        });
    };
    table("LineNumberTable", &[], &[0xEE, 0xEE, 0, 1], &[]);
    table("LineNumberTable", &[], &[0, 0, 0, 1], &[]);
    table("LocalVariableTable", &[], &[0, 1, 0, 2, 0, 3, 0, 4, 0xEE, 0xEE], &[]);
    table("LocalVariableTypeTable", &[], &[0, 1, 0, 2, 0, 3, 0, 4, 0xEE, 0xEE], &[]);
    table("Exceptions", &[], &[0xEE, 0xEE], &[]);
    table("InnerClasses", &[], &[0xEE, 0xEE, 0, 2, 0, 3, 0, 4], &[]);
    table("ModulePackages", &[], &[0xEE, 0xEE], &[]);
    table("ModulePackages", &[], &[0, 7], &[]);
    table("BootstrapMethods", &[], &[0xEE, 0xEE, 0, 0], &[]);
    table("BootstrapMethods", &[], &[0, 1, 0, 2, 0xEE, 0xEE, 0, 4], &[]);
    table("BootstrapMethods", &[0, 1, 0, 1], &[0xEE, 0xEE], &[]);
    const M: &[u8] = &[0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    table("Module", &[0, 1, 0, 2, 0, 3], &[0xEE, 0xEE, 0, 2, 0, 3], &M[8..]);
    table("Module", &[0, 1, 0, 2, 0, 3, 0, 0], &[0xEE, 0xEE, 0, 2, 0, 0], &M[10..]);
    table("Module", &[0, 1, 0, 2, 0, 3, 0, 0, 0, 1, 0, 1, 0, 2], &[0xEE, 0xEE], &M[10..]);
    table("Module", &[0, 1, 0, 2, 0, 3, 0, 0, 0, 0], &[0xEE, 0xEE, 0, 2, 0, 0], &M[12..]);
    table("Module", &[0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 1, 0, 1, 0, 2], &[0xEE, 0xEE], &M[12..]);
    table("Module", &[0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0], &[0xEE, 0xEE], &M[14..]);
    table("Module", &[0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0], &[0xEE, 0xEE, 0, 0], &[]);
    table("Module", &[0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0], &[0xEE, 0xEE, 0, 1, 0, 1], &[]);
    table("Module", &[0, 1, 0, 2, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1], &[0xEE, 0xEE], &[]);
    table("StackMapTable", &[], &[5], &[]);
    table("StackMapTable", &[], &[70, 1], &[]);
    table("StackMapTable", &[], &[70, 7, 0xEE, 0xEE], &[]);
    table("StackMapTable", &[], &[247, 0xEE, 0xEE, 8, 0, 1], &[]);
    table("StackMapTable", &[], &[249, 0xEE, 0xEE], &[]);
    table("StackMapTable", &[], &[254, 0xEE, 0xEE, 1, 2, 3], &[]);
    table("StackMapTable", &[], &[255, 0xEE, 0xEE, 0, 0, 0, 0], &[]);
    table("StackMapTable", &[0, 1, 255, 0, 1], &[7, 0xEE, 0xEE], &[0, 0]);
    table("StackMapTable", &[0, 1, 255, 0, 1, 0, 0], &[1], &[]);
    for name in ["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"] {
        table(name, &[], &[0xEE, 0xEE, 0, 0], &[]);
        table(name, &[], &[0xEE, 0xEE, 0, 1, 0, 1, b'I', 0, 1], &[]);
        table(name, &[0, 1, 0, 1], &[0xEE, 0xEE, b'I', 0, 1], &[]);
        table(name, &[0, 1, 0, 1], &[0, 5, b's', 0, 1], &[]);
        table(name, &[0, 1, 0, 1, 0, 1, 0, 1, b'['], &[b'I', 0xEE, 0xEE], &[]);
    }
    table("AnnotationDefault", &[b'['], &[b'e', 0, 1, 0xEE, 0xEE], &[]);
    table("AnnotationDefault", &[b'['], &[b'[', 0, 0], &[]);
    table("AnnotationDefault", &[b'['], &[b'@', 0, 1, 0, 0], &[]);
    table("AnnotationDefault", &[b'[', 0, 1, b'[', 0, 1, b'['], &[b's', 0, 1], &[]);
    table("AnnotationDefault", &[b'@', 0, 1], &[0, 5, b'@', 0, 1, 0, 0], &[]);
    table("RuntimeVisibleParameterAnnotations", &[1], &[0xEE, 0xEE, 0, 0], &[]);
    table("RuntimeInvisibleParameterAnnotations", &[2, 0, 0], &[0xEE, 0xEE, 0, 0], &[]);
    for name in ["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"] {
        table(name, &[], &[0x13, 0, 0xEE, 0xEE, 0, 0], &[]);
        table(name, &[], &[0x47, 0xEE, 0xEE, 3, 2, 3, 1, 0, 0, 0, 1, 0, 0], &[]);
        table(name, &[0, 1, 0x40], &[0xEE, 0xEE, 0, 2, 0, 3], &[0, 0, 1, 0, 0]);
        table(name, &[0, 1, 0x13, 0, 0, 1], &[0xEE, 0xEE, b'I', 0, 1], &[]);
    }
    // code
    let mut code = |name: &'static str, most: usize, write: fn(&mut Vec<u8>, usize), exceptions: bool, nested: bool| {
        v.push(Family {
            name: format!("code with {}", name),
            part: Method,
            most,
            fine: false,
            write: Box::new(move |c, _, k| {
                c.v2(3);
                c.u2(1);
                let e = c.begin("Code");
                c.v2(2);
                let mut b = Vec::new();
                write(&mut b, k);
                c.u4(b.len() as u32);
                c.body.raw(&b);
                c.u2(if exceptions { k as u16 } else { 0 });
                if exceptions {
                    c.v2(4 * k);
                }
                c.u2(if nested { k as u16 } else { 0 });
                if nested {
                    (0..k).for_each(|i| attrs::any_attribute(c, 12 + i % 3));
                }
                c.end(e);
                1
            }),
        });
    };
    fn ret(b: &mut Vec<u8>, _: usize) {
        b.push(0xB1);
    }
    code("instructions without operands", 2 << 20, |b, k| b.extend((0..k.max(1)).map(|i| (i % 16) as u8)), false, false);
    code("equal instructions", 2 << 20, |b, k| b.resize(k.max(1), 0x57), false, false);
    code("jumps", 1 << 20, |b, k| (0..k.max(1)).for_each(|i| b.extend([0xA7, (i >> 8) as u8, i as u8])), false, false);
    code("wide instructions", 1 << 20, |b, k| (0..k.max(1)).for_each(|i| b.extend([0xC4, 0x84, 1, i as u8, 2, 3])), false, false);
    code("calls", 1 << 20, |b, k| (0..k.max(1)).for_each(|i| b.extend([0xB9, 1, i as u8, 2, 0])), false, false);
    code("a tableswitch", 1 << 20, |b, k| {
        b.extend([0xAA, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0]);
        b.extend((k as u32).to_be_bytes());
        (0..=k as u32).for_each(|i| b.extend(i.to_be_bytes()));
    }, false, false);
    code("a tableswitch of equal offsets", 1 << 20, |b, k| {
        b.extend([0xAA, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0]);
        b.extend((k as u32).to_be_bytes());
        (0..=k as u32).for_each(|_| b.extend(7u32.to_be_bytes()));
    }, false, false);
    code("many switches", 100_000, |b, k| {
        for _ in 0..k.max(1) {
            b.push(0xAA);
            while b.len() % 4 != 0 {
                b.push(0);
            }
            b.extend([0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 0, 8]);
            b.push(0xAB);
            while b.len() % 4 != 0 {
                b.push(0);
            }
            b.extend([0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 9]);
        }
    }, false, false);
    fn lookup(b: &mut Vec<u8>, keys: &mut dyn Iterator<Item = u32>, n: usize) {
        b.extend([0xAB, 0, 0, 0, 0, 0, 0, 1]);
        b.extend((n as u32).to_be_bytes());
        for x in keys {
            b.extend(x.to_be_bytes());
            b.extend((!x).to_be_bytes());
        }
    }
    code("a lookupswitch", 1 << 20, |b, k| lookup(b, &mut (0..k as u32), k), false, false);
    code("a lookupswitch, keys falling", 1 << 20, |b, k| lookup(b, &mut (0..k as u32).rev(), k), false, false);
    code("a lookupswitch, keys mixed", 1 << 20, |b, k| lookup(b, &mut (0..k as u32).map(|x| x.wrapping_mul(0x9E37_79B1)), k), false, false);
    code("an exception table", 65535, ret, true, false);
    code("attributes", 65535, ret, false, true);
    code("instructions, exceptions and attributes", 65535, |b, k| b.resize(k.max(1), 0x57), true, true);
    for (unit, name) in [(&[b'x'][..], "one"), (&[0xC2, 0xA9], "two"), (&[0xE2, 0x82, 0xAC], "three"), (&[0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80], "six")] {
        v.push(Family {
            name: format!("debug extension of {}-byte characters", name),
            part: Attribute,
            most: 4 << 20,
            fine: false,
            write: Box::new(move |c, _, k| {
                let e = c.begin("SourceDebugExtension");
                c.body.raw(&unit.repeat(k));
                c.end(e);
                1
            }),
        });
    }
    fine(&mut v);
    v
}

/// Families that differ in one detail: every attribute in every shape, in every place; every instruction;
/// every kind of element, type, target, path.
fn fine(v: &mut Vec<Family>) {
    let mut add = |name: String, part: Part, most: usize, write: Box<dyn Fn(&mut Cls, &mut Parts, usize) -> u32>| {
        v.push(Family { name, part, most, fine: true, write });
    };
    for (n, f) in attrs::variants().into_iter().enumerate() {
        add(format!("attributes of shape {}", n), Attribute, 16_000, Box::new(move |c, _, k| {
            (0..k).for_each(|_| f(c));
            k as u32
        }));
    }
    for kind in 0..attrs::KINDS {
        for (part, name) in [(Field, "field"), (Method, "method")] {
            add(format!("attributes of kind {} of one {}", kind, name), part, 16_000, Box::new(move |c, _, k| {
                c.v2(3);
                c.u2(k as u16);
                (0..k).for_each(|_| attrs::any_attribute(c, kind));
                1
            }));
            add(format!("{}s with an attribute of kind {}", name, kind), part, 16_000, Box::new(move |c, _, k| {
                (0..k).for_each(|_| {
                    c.v2(3);
                    c.u2(1);
                    attrs::any_attribute(c, kind);
                });
                k as u32
            }));
        }
        add(format!("attributes of kind {} of one code", kind), Method, 16_000, Box::new(move |c, _, k| {
            c.v2(3);
            c.u2(1);
            let e = c.begin("Code");
            c.v2(2);
            c.u4(1);
            c.u1(0xB1);
            c.u2(0);
            c.u2(k as u16);
            (0..k).for_each(|_| attrs::any_attribute(c, kind));
            c.end(e);
            1
        }));
    }
    let mut insn = |unit: Vec<u8>| {
        add(format!("code with instructions {:02x?}", unit), Method, 16_000, Box::new(move |c, _, k| {
            c.v2(3);
            c.u2(1);
            let e = c.begin("Code");
            c.v2(2);
            c.u4((k.max(1) * unit.len()) as u32);
            (0..k.max(1)).for_each(|_| c.body.raw(&unit));
            c.u2(0);
            c.u2(0);
            c.end(e);
            1
        }));
    };
    for op in 0..=255u8 {
        use crate::opcodes::Shape::*;
        let n = match crate::opcodes::shape(op) {
            None => 0,
            S1 | U1 => 1,
            S2 | U2 | LdcWide | Inc => 2,
            MultiNewArray => 3,
            Jump4 | InvokeInterface | InvokeDynamic => 4,
            NewArray => {
                insn(vec![op, 10]);
                continue;
            }
            Wide => {
                [0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3A, 0xA9].iter().for_each(|w| insn(vec![op, *w, 1, 2]));
                continue;
            }
            _ => continue,
        };
        let mut u = vec![0; n + 1];
        u[0] = op;
        insn(u.clone());
        if n > 0 {
            u[n] = 3;
            insn(u);
        }
    }
    let mut list = |name: &'static str, head: Vec<u8>, entry: Vec<u8>, tail: Vec<u8>| {
        add(format!("{} of {:02x?}", name, entry), Attribute, 16_000, Box::new(move |c, _, k| {
            let e = c.begin(name);
            c.body.raw(&head);
            c.u2(k as u16);
            (0..k).for_each(|_| c.body.raw(&entry));
            c.body.raw(&tail);
            c.end(e);
            1
        }));
    };
    for t in 0..9u8 {
        let ty = if t > 6 { vec![t, 0, 3] } else { vec![t] };
        list("StackMapTable", vec![], [&[64][..], &ty].concat(), vec![]);
        list("StackMapTable", vec![], [&[247, 0, 9][..], &ty].concat(), vec![]);
        list("StackMapTable", vec![], [&[252, 0, 9][..], &ty].concat(), vec![]);
        list("StackMapTable", vec![], [&[255, 0, 9, 0, 1][..], &ty, &[0, 1], &ty].concat(), vec![]);
        list("StackMapTable", vec![0, 1, 255, 0, 0], ty.clone(), vec![0, 0]);
        list("StackMapTable", vec![0, 1, 255, 0, 0, 0, 0], ty, vec![]);
    }
    for f in [0u8, 63, 248, 249, 250, 251] {
        list("StackMapTable", vec![], if f > 247 { vec![f, 0, 0] } else { vec![f] }, vec![]);
    }
    let mut values: Vec<Vec<u8>> = b"BSCIJFDZsc".iter().map(|t| vec![*t, 0, 4]).collect();
    values.extend([vec![b'e', 0, 1, 0, 2], vec![b'@', 0, 1, 0, 0], vec![b'@', 0, 1, 0, 1, 0, 2, b'I', 0, 3], vec![b'[', 0, 0], vec![b'[', 0, 1, b'Z', 0, 1]]);
    for e in values {
        list("AnnotationDefault", vec![b'['], e.clone(), vec![]);
        for name in ["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"] {
            list(name, vec![0, 1, 0, 1], [&[0, 1][..], &e].concat(), vec![]);
            list(name, vec![], [&[0, 1, 0, 1, 0, 2][..], &e].concat(), vec![]);
        }
    }
    for t in 0..=0x4Bu8 {
        let n = match t {
            0 | 1 | 0x16 => 1,
            0x10 | 0x11 | 0x12 | 0x17 | 0x42..=0x46 => 2,
            0x13..=0x15 => 0,
            0x40 | 0x41 => 8,
            0x47..=0x4B => 3,
            _ => continue,
        };
        let mut e = vec![0; n + 6];
        e[0] = t;
        if n == 8 {
            e[2] = 1;
        }
        for name in ["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"] {
            list(name, vec![], e.clone(), vec![]);
        }
    }
    for kind in 0..4u8 {
        list("RuntimeVisibleTypeAnnotations", vec![], [&[0x13, 9][..], &[kind, 1].repeat(9), &[0; 4]].concat(), vec![]);
    }
    for i in 0..4 {
        for x in [0u8, 7] {
            let mut e = vec![1u8; 8];
            e[2 * i] = 0;
            e[2 * i + 1] = x;
            list("InnerClasses", vec![], e, vec![]);
        }
    }
    for e in [[0u8, 1, 0, 0], [0, 0, 0, 0], [0, 7, 0, 7]] {
        list("LineNumberTable", vec![], e.to_vec(), vec![]);
    }
    for name in ["LocalVariableTable", "LocalVariableTypeTable"] {
        for e in [[0u8; 10], [0, 0, 0, 9, 0, 1, 0, 2, 0, 3], [1; 10]] {
            list(name, vec![], e.to_vec(), vec![]);
        }
    }
    list("BootstrapMethods", vec![], vec![0, 7, 0, 1, 0, 1], vec![]);
    list("BootstrapMethods", vec![0, 1, 0, 1], vec![0, 1], vec![]);
    list("Exceptions", vec![], vec![0, 7], vec![]);
    for z in [0u8, 0xFF, 1] {
        list("InnerClasses", vec![], vec![z; 8], vec![]);
        list("LineNumberTable", vec![], vec![z; 4], vec![]);
        for name in ["LocalVariableTable", "LocalVariableTypeTable"] {
            list(name, vec![], vec![z; 10], vec![]);
        }
        list("Exceptions", vec![], vec![z; 2], vec![]);
        list("ModulePackages", vec![], vec![z; 2], vec![]);
        list("BootstrapMethods", vec![], vec![z, z, 0, 0], vec![]);
        list("BootstrapMethods", vec![0, 1, 0, 1], vec![z; 2], vec![]);
        for name in ["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"] {
            list(name, vec![], vec![z, z, 0, 0], vec![]);
            list(name, vec![0, 1, 0, 1], vec![z, z, b'I', z, z], vec![]);
        }
        list("RuntimeVisibleTypeAnnotations", vec![0, 1, 0x40], vec![z; 6], vec![0, 0, 1, 0, 0]);
        let m = |n: usize| vec![0u8; n];
        list("Module", m(6), vec![z; 6], m(8));
        list("Module", m(8), vec![z, z, z, z, 0, 0], m(6));
        list("Module", [m(7), vec![1], m(4)].concat(), vec![z; 2], m(6));
        list("Module", m(10), vec![z, z, z, z, 0, 0], m(4));
        list("Module", [m(9), vec![1], m(4)].concat(), vec![z; 2], m(4));
        list("Module", m(12), vec![z; 2], m(2));
        list("Module", m(14), vec![z, z, 0, 0], m(0));
        list("Module", [m(13), vec![1], m(2)].concat(), vec![z; 2], m(0));
    }
    for z in [0u8, 0xFF, 1] {
        for (part, each) in [(Interface, vec![z; 2]), (Field, vec![z, z, z, z, z, z, 0, 0]), (Method, vec![z, z, z, z, z, z, 0, 0])] {
            add(format!("parts {} of {:02x?}", part as u8, each), part, 16_000, Box::new(move |c, _, k| {
                (0..k).for_each(|_| c.body.raw(&each));
                k as u32
            }));
        }
        add(format!("exception table of {}", z), Method, 16_000, Box::new(move |c, _, k| {
            c.v2(3);
            c.u2(1);
            let e = c.begin("Code");
            c.v2(2);
            c.u4(1);
            c.u1(0xB1);
            c.u2(k as u16);
            (0..k).for_each(|_| c.body.raw(&[z; 8]));
            c.u2(0);
            c.end(e);
            1
        }));
    }
}

fn unknown(c: &mut Cls, p: &Parts, n: usize) {
    let e = match p.name {
        Some(i) => c.begin_at(i),
        None => c.begin("U"),
    };
    c.body.b.resize(e + n, 0x55);
    c.end(e);
}

/// A class in which one or two things are of the given sizes. A bad one is refused at its end.
fn input(fs: &[Family], of: &[(usize, usize)], bad: bool) -> Option<Vec<u8>> {
    let mut c = Cls::new();
    let mut p = Parts::default();
    for &(f, k) in of {
        let f = &fs[f];
        let k = k.min(f.most);
        if f.part == Part::Pool {
            (f.write)(&mut c, &mut p, k);
        } else {
            c.body = W::default();
            p.n[f.part as usize] += (f.write)(&mut c, &mut p, k);
            p.w[f.part as usize].extend(&c.body.b);
        }
    }
    if bad {
        // an attribute without a name after everything else
        p.n[3] += 1;
        p.w[3].extend([0; 6]);
    }
    if c.next > 65535 || p.n.iter().any(|n| *n > 65535) {
        return None;
    }
    c.body = W::default();
    c.body.raw(&[0, 0x21, 1, 2, 3, 4]);
    for k in 0..4 {
        c.body.raw(&(p.n[k] as u16).to_be_bytes());
        c.body.raw(&p.w[k]);
    }
    Some(c.finish().b)
}

// ---------------------------------------------------------------- operations on pools and descriptors

/// Ways the two operands of an item can belong together.
const TWO: usize = 8;
const MAKERS: usize = 30 + 5 * TWO;
fn operands(how: usize, i: usize) -> (u16, u16) {
    let n = i as u16;
    match how {
        0 => (n, n),
        1 => (n, n ^ 0x55AA),
        2 => (n, 0u16.wrapping_sub(n)),
        3 => (n, n.rotate_left(8)),
        4 => (n, n.wrapping_mul(2)),
        5 => (n << 8, n >> 8),
        6 => (n.wrapping_mul(31), 0u16.wrapping_sub(n)),
        _ => (n, n.wrapping_mul(31).wrapping_neg()),
    }
}

/// The i-th item of a kind.
fn item(kind: usize, i: usize) -> Item {
    let (hi, lo) = ((i / 251) as u16, (i % 251) as u16);
    let n = i as u16;
    match kind {
        0 => Item::Integer(i as i32),
        1 => Item::Integer((i as i32) << 16),
        2 => Item::Float(f32::from_bits((i as u32) << 12)),
        3 => Item::Float(i as f32),
        4 => Item::Long(i as i64),
        5 => Item::Long((i as i64) << 40),
        6 => Item::Double(i as f64),
        7 => Item::Class(n),
        8 => Item::String(n),
        9 => Item::FieldRef { class: hi, name_and_type: lo },
        10 => Item::MethodRef { class: hi, name_and_type: lo },
        11 => Item::InterfaceMethodRef { class: hi, name_and_type: lo },
        12 => Item::NameAndType { name: hi, desc: lo },
        13 => Item::NameAndType { name: 1, desc: n },
        14 => Item::NameAndType { name: n, desc: 1 },
        15 => Item::MethodHandle {
            kind: [ReferenceKind::GetField, ReferenceKind::PutStatic, ReferenceKind::InvokeInterface][i % 3].clone(),
            index: (i / 3) as u16,
        },
        16 => Item::MethodType(n),
        17 => Item::InvokeDynamic { bootstrap_method_attribute: hi, name_and_type: lo },
        18 => [Item::Module(n), Item::Package(n)][i % 2].clone(),
        19 => Item::UTF8(format!("{:05}", i)),
        20 => Item::UTF8(format!("java/lang/invoke/MethodHandles$Lookup${:05}", i)),
        22 => Item::UTF8(format!("java/lang/invoke/{:05}/MethodHandles$Lookup$and/more", i)),
        23 => Item::Long((i as i64) << 32 | i as i64),
        24 => Item::Long((i as i64) << 32 | (!i as u32) as i64),
        25 => Item::Double(f64::from_bits((i as u64) << 32 | i as u64)),
        26 => Item::Double(f64::from_bits((i as u64) << 36)),
        27 => Item::Integer((i as i32) << 16 | i as i32),
        28 => Item::Float(f32::from_bits((i as u32) << 16 | i as u32)),
        // the same letters in another order
        29 => {
            let mut t: Vec<char> = "abcdefghij".chars().collect();
            let mut r = i;
            for k in (1..t.len()).rev() {
                t.swap(k, r % (k + 1));
                r /= k + 1;
            }
            Item::UTF8(t.into_iter().collect())
        }
        30.. => {
            let (a, b) = operands((kind - 30) % TWO, i);
            match (kind - 30) / TWO {
                0 => Item::FieldRef { class: a, name_and_type: b },
                1 => Item::MethodRef { class: a, name_and_type: b },
                2 => Item::InterfaceMethodRef { class: a, name_and_type: b },
                3 => Item::NameAndType { name: a, desc: b },
                _ => Item::InvokeDynamic { bootstrap_method_attribute: a, name_and_type: b },
            }
        }
        _ => Item::UTF8(format!("{:05}/and/what/follows/is/the/same/in/all/of/them", i)),
    }
}

const OPS: usize = MAKERS * 2 + 19;
/// One operation, or sequence of operations, of size k.
fn operate(op: usize, k: usize) {
    if op < MAKERS * 2 {
        let wide = matches!(op % MAKERS, 4..=6 | 23..=26);
        let k = k.min(if wide { 32_767 } else { 65_534 });
        let mut p = if op < MAKERS { Pool::new() } else { Pool::with_capacity(k as u16) };
        for again in 0..2 {
            for i in 0..k {
                let r = p.push(item(op % MAKERS, i));
                black_box(&r);
                let _ = again;
            }
        }
        for i in 0..=p.len() {
            black_box(p.get(i).is_ok());
            black_box(p.get_utf8(i).is_ok());
            black_box(p.get_class_name(i).is_ok());
            black_box(p.get_class_name_opt(i).is_ok());
        }
        black_box(p.iter().count());
        return;
    }
    let names = |n: usize, unit: &str| format!("L{};", unit.repeat(n));
    let s = match op - MAKERS * 2 {
        0 => names(k, "a"),
        1 => names(k, "a/"),
        2 => names(k, "\u{20AC}"),
        3 => names(k, "\u{1F600}"),
        4 => format!("[[{}", names(k, "[")),
        5 => "L".repeat(k),
        6 => "[".repeat(k),
        7 => "I".repeat(k),
        8 => names(k, "a;"),
        9 => format!("({})V", names(k, "a")),
        10 => format!("(I{}I){}", names(k, "a"), names(k, "b/")),
        11 => format!("({})V", names(k / 200 + 1, "a").repeat(200)),
        12 => format!("({}", "I".repeat(k)),
        13 => format!("({})V", "J".repeat(k)),
        14 => format!("({}", "La;".repeat(k)),
        15 => format!("(){}", names(k, "\u{1F600}")),
        16 => "(".repeat(k),
        17 => format!("(){}", "V".repeat(k)),
        _ => format!("({})V", format!("{}I", "[".repeat(255)).repeat(k / 256)),
    };
    let t: Result<TypeDescriptor, _> = s.parse();
    match &t {
        Ok(t) => drop(black_box(t.to_string())),
        Err(e) => drop(black_box(format!("{:?}", e))),
    }
    let m: Result<MethodDescriptor, _> = s.parse();
    match &m {
        Ok(m) => drop(black_box(m.to_string())),
        Err(e) => drop(black_box(format!("{:?}", e))),
    }
}

// ---------------------------------------------------------------- measures

extern "C" {
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}
/// Processor time of this thread in nanoseconds.
fn now() -> u64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

/// Bytes requested while it runs.
fn bytes(f: &dyn Fn()) -> u64 {
    let from = alloc::requested();
    f();
    alloc::requested() - from
}

/// Instructions outside of the allocator; none if they cannot be counted here.
fn instructions(f: &(dyn Fn() + Sync)) -> Option<u64> {
    let g = |on: bool| if on { f() };
    let (a, b) = (|| g(true), || g(false));
    let fs: [&(dyn Fn() + Sync); 2] = [&a, &b];
    let o = crate::sched::run([&fs[0], &fs[1]], Points::Instructions([0; 2]), [&[usize::MAX], &[]], &|_: ()| ());
    o.of[0].0.map(|_| o.of[0].1 as u64)
}

fn parse(b: &[u8]) {
    black_box(basic::parse(b).is_ok());
}

/// `w` is the work for three sizes `n`, each about twice the one before. The work per unit of size may
/// not grow by more than a third (that of quadratic work doubles).
fn growth(what: &str, unit: &str, n: &[u64; 3], w: &[u64; 3], slack: u64, st: &mut Stats) -> Result<(), String> {
    for x in w {
        // sizes of work, coarsely: the states of the measure
        st.step(mix(unit.len() as u64, 64 - x.leading_zeros() as u64));
    }
    let (d1, d2) = (w[1].saturating_sub(w[0]), w[2].saturating_sub(w[1]));
    let (n1, n2) = (n[1] - n[0], n[2] - n[1]);
    if std::env::var_os("MC_SHOW").is_some() {
        eprintln!("{} {} {:?} {:?} {:.2}", what, unit, n, w, (d2 as f64 / n2 as f64) / (d1 as f64 / n1 as f64));
    }
    if d2 > d1 * n2 / n1 * 4 / 3 + slack {
        return Err(format!("{}: {} for sizes {:?} are {:?}: more than in proportion", what, unit, n, w));
    }
    Ok(())
}

/// Work that is always allowed: bytes requested.
fn bytes_allowed(n: usize) -> u64 {
    (32 << 20) + (n as u64) * 1024
}
/// Work that is always allowed: nanoseconds for inputs of this size.
fn time_allowed(n: usize) -> u64 {
    500_000_000 + n as u64 * 2000
}

fn within(what: &str, n: usize, f: &dyn Fn(), st: &mut Stats) -> Result<(), String> {
    let w = bytes(f);
    st.step(mix(77, 64 - w.leading_zeros() as u64));
    if w > bytes_allowed(n) {
        return Err(format!("{}: {} bytes of memory requested for a size of {}", what, w, n));
    }
    let mut best = u64::MAX;
    for _ in 0..6 {
        let from = now();
        f();
        best = best.min(now() - from);
        if best <= time_allowed(n) {
            break;
        }
    }
    st.step(mix(78, 64 - best.leading_zeros() as u64));
    if best > time_allowed(n) {
        return Err(format!("{}: {} ms of processor time for a size of {}", what, best / 1_000_000, n));
    }
    if std::env::var_os("MC_SHOW").is_some() {
        eprintln!("{} n={} bytes/n={:.1} ms={:.1} ns/n={:.1}", what, n, w as f64 / n as f64, best as f64 / 1e6, best as f64 / n as f64);
    }
    Ok(())
}

const GROW: u8 = 0;
const BIG: u8 = 1;
const OP: u8 = 2;
const OP_BIG: u8 = 3;
const RAW: u8 = 4;
const TIME: u8 = 5;
const OP_TIME: u8 = 6;
const NONE: usize = 0xFFFF;

extern "C" {
    fn mallopt(what: i32, value: i32) -> i32;
}

/// Processor time for a size and for one eight times as large (in `n`): may not grow to more than four times that
/// in proportion (quadratic work grows to eight times that). The least of several runs counts.
fn time_growth(what: &str, n: [usize; 2], f: &dyn Fn(usize), st: &mut Stats) -> Result<(), String> {
    // memory that was used once stays with the process: no page faults in later runs
    unsafe {
        mallopt(-3, 1 << 30);
        mallopt(-1, i32::MAX);
    }
    let mut best = [u64::MAX; 2];
    for _ in 0..24 {
        for k in 0..2 {
            // the small one as often as it takes to be as long as the large one
            for _ in 0..if k == 0 { 4 } else { 1 } {
                let from = now();
                f(k);
                best[k] = best[k].min(now() - from);
            }
        }
        if best[1] <= 200_000 || best[1] as u128 * n[0] as u128 <= 4 * best[0] as u128 * n[1] as u128 {
            for b in best {
                st.step(mix(79, 64 - b.leading_zeros() as u64));
            }
            if std::env::var_os("MC_SHOW").is_some() {
                eprintln!("{} n={:?} ns={:?} {:.2}", what, n, best, best[1] as f64 / best[0] as f64 / (n[1] as f64 / n[0] as f64));
            }
            return Ok(());
        }
    }
    Err(format!("{}: {:?} ns of processor time for sizes {:?}: more than in proportion", what, best, n))
}

fn payload(mode: u8, x: [usize; 4]) -> Vec<u8> {
    let mut p = vec![mode];
    for x in x {
        p.extend((x as u32).to_le_bytes());
    }
    p
}

/// Payload: what is measured, and numbers: for inputs two families and their sizes and whether the
/// input is bad; for operations its number and the size; or an input.
fn run(p: &[u8], st: &mut Stats) -> Result<(), String> {
    st.start();
    if p[0] == RAW {
        let b = &p[1..];
        return within("parse", b.len(), &|| parse(b), st).map(|_| st.outcome("input"));
    }
    let x: Vec<usize> = p[1..17].chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()) as usize).collect();
    match p[0] {
        GROW | BIG => {
            let fs = families();
            let (a, b, k, cut) = (x[0], x[1], x[2], x[3]);
            let make = |t: usize| {
                let (ka, kb) = if p[0] == BIG { (k, cut & !1) } else { (k * t, k * t) };
                let mut of = vec![(a, ka)];
                if b != NONE {
                    of.push((b, kb));
                }
                input(&fs, &of, cut & 1 == 1)
            };
            let what = format!("parse, {}{}", fs[a].name, if b == NONE { String::new() } else { format!(" and {}", fs[b].name) });
            if p[0] == BIG {
                let v = match make(1) {
                    None => return Ok(st.outcome("does not fit")),
                    Some(v) => v,
                };
                within(&what, v.len(), &|| parse(&v), st)?;
                st.outcome("large input");
                return Ok(());
            }
            let v: Vec<Vec<u8>> = match [1, 2, 4].iter().map(|t| make(*t)).collect() {
                None => return Ok(st.outcome("does not fit")),
                Some(v) => v,
            };
            let v: [Vec<u8>; 3] = v.try_into().unwrap();
            let n = [v[0].len() as u64, v[1].len() as u64, v[2].len() as u64];
            parse(&v[0]);
            let w = [bytes(&|| parse(&v[0])), bytes(&|| parse(&v[1])), bytes(&|| parse(&v[2]))];
            growth(&what, "bytes requested", &n, &w, 16384, st)?;
            let i = [instructions(&|| parse(&v[0])), instructions(&|| parse(&v[1])), instructions(&|| parse(&v[2]))];
            if let [Some(i), Some(j), Some(k)] = i {
                growth(&what, "instructions", &n, &[i, j, k], 6000, st)?;
            }
            st.outcome("growing inputs");
        }
        TIME => {
            let fs = families();
            let (a, b, k, cut) = (x[0], x[1], x[2], x[3] & 1 == 1);
            let of = |k: usize| if b == NONE { vec![(a, k)] } else { vec![(a, k), (b, k)] };
            let v = match (input(&fs, &of(k / 8), cut), input(&fs, &of(k), cut)) {
                (Some(a), Some(b)) => [a, b],
                _ => return Ok(st.outcome("does not fit")),
            };
            let what = format!("parse, {}{}", fs[a].name, if b == NONE { String::new() } else { format!(" and {}", fs[b].name) });
            time_growth(&what, [v[0].len(), v[1].len()], &|k| parse(&v[k]), st)?;
            st.outcome("time of growing inputs");
        }
        OP_TIME => {
            let (op, k) = (x[0], x[1]);
            let n = [k / 8, k];
            time_growth(&format!("operations {}", op), n, &|k| operate(op, n[k]), st)?;
            st.outcome("time of growing operations");
        }
        OP => {
            let (op, k) = (x[0], x[1]);
            let what = format!("operations {}", op);
            operate(op, k);
            let n = [k as u64, k as u64 * 2, k as u64 * 4];
            let w = [bytes(&|| operate(op, k)), bytes(&|| operate(op, k * 2)), bytes(&|| operate(op, k * 4))];
            growth(&what, "bytes requested", &n, &w, 16384, st)?;
            let i = [instructions(&|| operate(op, k)), instructions(&|| operate(op, k * 2)), instructions(&|| operate(op, k * 4))];
            if let [Some(i), Some(j), Some(k)] = i {
                growth(&what, "instructions", &n, &[i, j, k], 6000, st)?;
            }
            st.outcome("growing operations");
        }
        _ => {
            let (op, k) = (x[0], x[1]);
            within(&format!("operations {}", op), k * 8, &|| operate(op, k), st)?;
            st.outcome("large operations");
        }
    }
    Ok(())
}

fn explore(s: &mut Sink) {
    let fs = families();
    let t = s.thorough;
    let base = if t { 96 } else { 48 };
    s.phase("time of growing inputs");
    for a in 0..fs.len() {
        for (k, cut) in [(16_000, 0), (4_000, 1)] {
            if s.mine() && (t || cut == 0 || !fs[a].fine) && !s.case(&payload(TIME, [a, NONE, k, cut])) {
                return;
            }
        }
    }
    s.phase("time of growing inputs, two things");
    for a in 0..fs.len() {
        for b in 0..fs.len() {
            let pooled = fs[a].part == Part::Pool;
            if fs[b].part == Part::Pool || !pooled && b < a || a == b || fs[a].fine || fs[b].fine && a > 0 {
                continue;
            }
            let k = if pooled { 16_000 } else { 8_000 };
            if s.mine() && (t || a == 0 || (a + b) % 4 == 0) && !s.case(&payload(TIME, [a, b, k, (a + b) % 5 / 4])) {
                return;
            }
        }
    }
    s.phase("time of growing operations");
    for op in 0..OPS {
        for k in [16_000, 4_000] {
            if s.mine() && !s.case(&payload(OP_TIME, [op, k, 0, 0])) {
                return;
            }
        }
    }
    let all = fs;
    let fs: Vec<&Family> = all.iter().filter(|f| t || !f.fine).collect();
    s.phase("growing inputs, one thing");
    for a in 0..fs.len() {
        for cut in [0, 1] {
            if s.mine() && (t || cut == a % 2) && !s.case(&payload(GROW, [a, NONE, base, cut])) {
                return;
            }
        }
    }
    s.phase("growing inputs, two things");
    let named: Vec<usize> = (0..fs.len()).filter(|k| fs[*k].part == Part::Pool).collect();
    for a in 0..fs.len() {
        for b in 0..fs.len() {
            let pooled = named.contains(&a);
            if fs[b].part == Part::Pool || !pooled && b < a || a == b {
                continue;
            }
            if s.mine() && (t || (a * 7 + b) % if pooled { 23 } else { 61 } == 0 || a == 0 && b % 2 == 0) && !s.case(&payload(GROW, [a, b, base / 3, (a + b) % 5 / 4])) {
                return;
            }
        }
    }
    s.phase("large inputs, one thing");
    for a in 0..fs.len() {
        let most = if t { fs[a].most } else { fs[a].most.min(1 << 19) };
        for k in [most, most / 2 + 1, 1000] {
            for cut in [0, 1] {
                if s.mine() && !s.case(&payload(BIG, [a, NONE, k, cut])) {
                    return;
                }
            }
        }
    }
    s.phase("large inputs, two things");
    for a in 0..fs.len() {
        for b in 0..fs.len() {
            let pooled = named.contains(&a);
            if fs[b].part == Part::Pool || !pooled && b < a || a == b {
                continue;
            }
            if s.mine() && (t || (a * 5 + b) % if pooled { 6 } else { 48 } == 0 || a == 0) {
                let k = if pooled { 65_000 } else { 20_000 };
                if !s.case(&payload(BIG, [a, b, k.min(fs[a].most), if t { 20_000 } else { 10_000 } | (a + b) % 5 / 4])) {
                    return;
                }
            }
        }
    }
    s.phase("operations on pools and descriptors");
    for op in 0..OPS {
        for k in [if t { 120 } else { 32 }] {
            if s.mine() && !s.case(&payload(OP, [op, k, 0, 0])) {
                return;
            }
        }
    }
    for op in 0..OPS {
        for k in [65_534, 30_000, 1000] {
            let k = if op >= MAKERS * 2 { k * if t { 64 } else { 8 } } else { k };
            if s.mine() && !s.case(&payload(OP_BIG, [op, k, 0, 0])) {
                return;
            }
        }
    }
    s.phase("counts and lengths that are not true");
    let mut tpls = attrs::templates();
    tpls.extend(code::templates());
    tpls.extend(cp::templates());
    for b in &tpls {
        for &(at, w) in &b.f {
            if !s.mine() {
                continue;
            }
            let mut p = vec![RAW];
            p.extend(&b.b);
            for v in [0u8, 0x7F, 0xFF] {
                for x in &mut p[1 + at..1 + at + w as usize] {
                    *x = v;
                }
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
    s.phase("nesting");
    for kind in 0..robust::NESTS {
        for depth in [1usize, 8, 16, 30, 60, 64, 65, 100, 1000, 20_000] {
            if s.mine() {
                let mut p = vec![RAW];
                p.extend(robust::nest(kind, depth));
                if !s.case(&p) {
                    return;
                }
            }
        }
    }
}
