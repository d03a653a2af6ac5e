//! Class file builder used by the drivers. Records where every scalar field is, so that the generic
//! phases can deviate them.
pub const MENU16: &[u16] = &[0, 1, 2, 0x007F, 0x0080, 0x00FF, 0x0100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF];
pub const MENU8: &[u8] = &[0, 1, 2, 3, 7, 8, 9, 0x3F, 0x40, 0x7F, 0x80, 0xC8, 0xFE, 0xFF];
pub const MENU32: &[u32] = &[
    0, 1, 2, 3, 4, 0x7F, 0x80, 0xFF, 0x100, 0xFFFF, 0x1_0000, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000,
    0x8000_0001, 0xFFFF_FF00, 0xFFFF_FFFE, 0xFFFF_FFFF,
];

#[derive(Default, Clone)]
pub struct W {
    pub b: Vec<u8>,
    /// (offset, width) of every scalar field written
    pub f: Vec<(usize, u8)>,
    /// offsets of the two-byte fields among them that are neither a count nor a tag
    pub v: Vec<usize>,
}
impl W {
    pub fn u1(&mut self, v: u8) {
        self.f.push((self.b.len(), 1));
        self.b.push(v);
    }
    pub fn u2(&mut self, v: u16) {
        self.f.push((self.b.len(), 2));
        self.b.extend_from_slice(&v.to_be_bytes());
    }
    pub fn u4(&mut self, v: u32) {
        self.f.push((self.b.len(), 4));
        self.b.extend_from_slice(&v.to_be_bytes());
    }
    pub fn u8_(&mut self, v: u64) {
        self.f.push((self.b.len(), 8));
        self.b.extend_from_slice(&v.to_be_bytes());
    }
    pub fn raw(&mut self, v: &[u8]) {
        self.b.extend_from_slice(v);
    }
    pub fn set2(&mut self, at: usize, v: u16) {
        self.b[at..at + 2].copy_from_slice(&v.to_be_bytes());
    }
    pub fn set4(&mut self, at: usize, v: u32) {
        self.b[at..at + 4].copy_from_slice(&v.to_be_bytes());
    }
}

#[derive(Clone, Default)]
pub struct Built {
    pub b: Vec<u8>,
    pub f: Vec<(usize, u8)>,
    pub v: Vec<usize>,
}

/// Where an attribute is placed.
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Loc {
    Class,
    Field,
    Method,
    Code,
}
pub const LOCS: [Loc; 4] = [Loc::Class, Loc::Field, Loc::Method, Loc::Code];

/// A class under construction: constant pool and the rest are written independently.
#[derive(Clone)]
pub struct Cls {
    pub pool: W,
    pub next: u32,
    names: Vec<(String, u16)>,
    pub body: W,
    ctr: u16,
    pub minor: u16,
    pub major: u16,
}

impl Cls {
    pub fn new() -> Cls {
        Cls {
            pool: W::default(),
            next: 1,
            names: Vec::new(),
            body: W::default(),
            ctr: 0x0100,
            minor: 3,
            major: 53,
        }
    }
    /// Where the values are; given to `rewind`, they come again.
    pub fn mark(&self) -> u16 {
        self.ctr
    }
    pub fn rewind(&mut self, mark: u16) {
        self.ctr = mark;
    }
    /// A value not used before whose two bytes differ.
    pub fn val(&mut self) -> u16 {
        loop {
            self.ctr = self.ctr.wrapping_add(0x0103);
            let [h, l] = self.ctr.to_be_bytes();
            if h != l && h != 0 && l != 0 {
                return self.ctr;
            }
        }
    }
    pub fn val8(&mut self) -> u8 {
        (self.val() & 0xFF) as u8
    }
    /// Index of a UTF-8 constant, added on first use.
    pub fn name(&mut self, s: &str) -> u16 {
        if let Some(x) = self.names.iter().find(|x| x.0 == s) {
            return x.1;
        }
        let i = self.raw_utf8(s);
        self.names.push((s.to_owned(), i));
        i
    }
    /// A new UTF-8 constant.
    pub fn raw_utf8(&mut self, s: &str) -> u16 {
        let mut e = Vec::new();
        crate::mutf8::encode(s, &mut e);
        self.pool.u1(1);
        self.pool.u2(e.len() as u16);
        self.pool.raw(&e);
        self.next += 1;
        (self.next - 1) as u16
    }
    pub fn u1(&mut self, v: u8) {
        self.body.u1(v);
    }
    pub fn u2(&mut self, v: u16) {
        self.body.u2(v);
    }
    pub fn u4(&mut self, v: u32) {
        self.body.u4(v);
    }
    /// `k` fresh values
    pub fn v2(&mut self, k: usize) {
        for _ in 0..k {
            let v = self.val();
            self.body.v.push(self.body.b.len());
            self.body.u2(v);
        }
    }
    /// Opens an attribute; returns the handle for `end`.
    pub fn begin(&mut self, name: &str) -> usize {
        let i = self.name(name);
        self.begin_at(i)
    }
    pub fn begin_at(&mut self, index: u16) -> usize {
        self.body.u2(index);
        self.body.u4(0);
        self.body.b.len()
    }
    pub fn end(&mut self, at: usize) {
        let n = self.body.b.len() - at;
        self.body.set4(at - 4, n as u32);
    }
    pub fn header(&mut self, interfaces: usize) {
        self.body.u2(0x0021);
        self.v2(2);
        self.body.u2(interfaces as u16);
        self.v2(interfaces);
    }
    pub fn finish(self) -> Built {
        let count = self.next as u16;
        assert!(self.next <= 65535, "harness: constant pool too large");
        self.finish_count(count)
    }
    pub fn finish_plain(self) -> Vec<u8> {
        self.finish().b
    }
    pub fn finish_count(self, count: u16) -> Built {
        let mut w = W::default();
        w.raw(&[0xCA, 0xFE, 0xBA, 0xBE]);
        w.u2(self.minor);
        w.u2(self.major);
        w.u2(count);
        for part in [self.pool, self.body] {
            let off = w.b.len();
            w.raw(&part.b);
            w.f.extend(part.f.iter().map(|x| (x.0 + off, x.1)));
            w.v.extend(part.v.iter().map(|x| x + off));
        }
        Built { b: w.b, f: w.f, v: w.v }
    }
}

/// A marker attribute with a distinct value: makes a wrong end of what precedes it visible.
pub fn sentinel(c: &mut Cls) {
    let e = c.begin("Signature");
    c.v2(1);
    c.end(e);
}

/// A class in which `attrs` (writing `n` attributes) is placed at `loc`, followed by a sentinel
/// attribute in the same list and by further structure.
pub fn at(loc: Loc, n: usize, attrs: &mut dyn FnMut(&mut Cls)) -> Built {
    let mut c = Cls::new();
    at_in(&mut c, loc, n, attrs);
    c.finish()
}

pub fn at_in(c: &mut Cls, loc: Loc, n: usize, attrs: &mut dyn FnMut(&mut Cls)) {
    c.header(0);
    let mut list = |c: &mut Cls, on: bool| {
        if on {
            c.u2(n as u16 + 1);
            attrs(c);
            sentinel(c);
        } else {
            c.u2(0);
        }
    };
    // fields
    c.u2((loc == Loc::Field) as u16);
    if loc == Loc::Field {
        c.u2(0x0002);
        c.v2(2);
        list(c, true);
    }
    // methods
    let m = loc == Loc::Method || loc == Loc::Code;
    c.u2(m as u16);
    if m {
        c.u2(0x0009);
        c.v2(2);
        if loc == Loc::Method {
            list(c, true);
        } else {
            c.u2(1);
            let e = c.begin("Code");
            c.v2(2);
            c.u4(1);
            c.u1(0xB1);
            c.u2(0);
            list(c, true);
            c.end(e);
        }
    }
    if loc == Loc::Class {
        list(c, true);
    } else {
        c.u2(1);
        let e = c.begin("SourceFile");
        c.v2(1);
        c.end(e);
    }
}

/// A class with a field and a method, each attribute at its place, in the order given.
pub fn at_places(c: &mut Cls, attrs: &mut [(Loc, &mut dyn FnMut(&mut Cls))]) {
    fn list(c: &mut Cls, attrs: &mut [(Loc, &mut dyn FnMut(&mut Cls))], loc: Loc, more: u16) {
        c.u2(attrs.iter().filter(|a| a.0 == loc).count() as u16 + more);
    }
    fn write(c: &mut Cls, attrs: &mut [(Loc, &mut dyn FnMut(&mut Cls))], loc: Loc) {
        for a in attrs.iter_mut().filter(|a| a.0 == loc) {
            (a.1)(c);
        }
    }
    c.header(0);
    c.u2(1);
    c.u2(2);
    c.v2(2);
    list(c, attrs, Loc::Field, 0);
    write(c, attrs, Loc::Field);
    c.u2(1);
    c.u2(9);
    c.v2(2);
    let code = attrs.iter().any(|a| a.0 == Loc::Code);
    list(c, attrs, Loc::Method, code as u16);
    // the code first, unless what is beside it comes first in the list given
    let late = attrs[0].0 == Loc::Method;
    if late {
        write(c, attrs, Loc::Method);
    }
    if code {
        let e = c.begin("Code");
        c.v2(2);
        c.u4(1);
        c.u1(0xB1);
        c.u2(0);
        list(c, attrs, Loc::Code, 1);
        write(c, attrs, Loc::Code);
        sentinel(c);
        c.end(e);
    }
    if !late {
        write(c, attrs, Loc::Method);
    }
    list(c, attrs, Loc::Class, 1);
    write(c, attrs, Loc::Class);
    sentinel(c);
}
