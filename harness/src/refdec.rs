//! Reference model of the Java SE 9 class file format (JVMS 9, chapters 4 and 6).
//!
//! A pushdown machine: every field read is a transition, a state is the stack of open productions
//! (with the tags that were read) and the field. It accepts with a value stream, rejects with a
//! reason, or declares the input outside of what is specified.

use crate::mutf8;
use crate::stats::{mix, Stats};
use crate::stream::{Stream, Tag, Tag::*};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Rej {
    Limit,
    NotAClass,
    Utf8,
    CpItem(u16),
    CpTooLarge,
    Insn { op: u8, at: u32 },
    Frame(u8),
    Verif(u8),
    Elem(u8),
    Target,
    Path,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(Rej),
    /// Both accepting (with exactly this value) and rejecting is allowed.
    Either(&'static str),
    /// Unspecified.
    Any(&'static str),
}

enum Stop {
    Rej(Rej),
    Any(&'static str),
}
impl From<Rej> for Stop {
    fn from(r: Rej) -> Stop {
        Stop::Rej(r)
    }
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug, PartialEq)]
pub enum PItem {
    Gap,
    Utf8(String),
    /// tag, operands
    Other(Tag, i64, i64),
}

/// Nesting up to this depth must be accepted.
pub const DEPTH_MUST: u32 = 16;
/// The model itself follows nesting only up to this depth.
const DEPTH_MODEL: u32 = 150;

pub struct Ref<'a, 's> {
    b: &'a [u8],
    pos: usize,
    end: usize,
    pub pool: Vec<PItem>,
    pub class: Stream,
    depth: u32,
    either: Option<&'static str>,
    ctx: Vec<u64>,
    st: &'s mut Stats,
}

impl<'a, 's> Ref<'a, 's> {
    /// Runs the model over `b`.
    pub fn run(b: &'a [u8], st: &'s mut Stats) -> (Verdict, Vec<PItem>, Stream) {
        st.start();
        let mut r = Ref {
            b,
            pos: 0,
            end: b.len(),
            pool: Vec::new(),
            class: Stream::default(),
            depth: 0,
            either: None,
            ctx: vec![7],
            st,
        };
        let res = r.file();
        let v = match res {
            Ok(()) => {
                r.at(9001);
                match r.either {
                    None => Verdict::Accept,
                    Some(why) => Verdict::Either(why),
                }
            }
            Err(Stop::Rej(x)) => {
                let k = match x {
                    Rej::Limit => 1,
                    Rej::NotAClass => 2,
                    Rej::Utf8 => 3,
                    Rej::CpItem(_) => 4,
                    Rej::CpTooLarge => 5,
                    Rej::Insn { .. } => 6,
                    Rej::Frame(_) => 7,
                    Rej::Verif(_) => 8,
                    Rej::Elem(_) => 9,
                    Rej::Target => 10,
                    Rej::Path => 11,
                };
                r.at(9100 + k);
                Verdict::Reject(x)
            }
            Err(Stop::Any(why)) => {
                r.at(9002);
                Verdict::Any(why)
            }
        };
        (v, r.pool, r.class)
    }

    // --- state bookkeeping
    #[inline]
    fn at(&mut self, label: u64) {
        let s = mix(*self.ctx.last().unwrap(), label);
        self.st.step(s);
    }
    #[inline]
    fn open(&mut self, label: u64, index: usize) {
        // list positions beyond the third are the same control state; nesting beyond three levels
        // of the same production as well (only the coverage count uses this)
        let depth = self.ctx.len().min(24) as u64;
        let top = self.ctx[self.ctx.len().min(24) - 1];
        let _ = depth;
        self.ctx.push(mix(top, label << 8 | index.min(3) as u64));
    }
    #[inline]
    fn close(&mut self) {
        self.ctx.pop();
    }

    // --- reads
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.end - self.pos {
            return Err(Rej::Limit.into());
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn u1(&mut self) -> R<u8> {
        self.at(1);
        Ok(self.take(1)?[0])
    }
    fn u2(&mut self) -> R<u16> {
        self.at(2);
        let s = self.take(2)?;
        Ok(u16::from(s[0]) * 256 + u16::from(s[1]))
    }
    fn u4(&mut self) -> R<u32> {
        self.at(4);
        let s = self.take(4)?;
        Ok(s.iter().fold(0, |a, &x| a * 256 + u32::from(x)))
    }
    fn u8_(&mut self) -> R<u64> {
        self.at(8);
        let s = self.take(8)?;
        Ok(s.iter().fold(0, |a, &x| a * 256 + u64::from(x)))
    }
    fn s4(&mut self) -> R<i32> {
        Ok(self.u4()? as i32)
    }
    /// u2 copied to the output
    fn c2(&mut self) -> R<()> {
        let v = self.u2()?;
        self.class.n(v.into());
        Ok(())
    }
    fn c1(&mut self) -> R<()> {
        let v = self.u1()?;
        self.class.n(v.into());
        Ok(())
    }
    /// `k` consecutive u2 copied to the output
    fn c2s(&mut self, k: usize) -> R<()> {
        for _ in 0..k {
            self.c2()?;
        }
        Ok(())
    }
    /// A list counted by a u2.
    fn list2(&mut self, label: u64, mut f: impl FnMut(&mut Self) -> R<()>) -> R<()> {
        let n = self.u2()? as usize;
        self.class.len(n);
        for i in 0..n {
            self.open(label, i);
            f(self)?;
            self.close();
        }
        Ok(())
    }
    fn list1(&mut self, label: u64, mut f: impl FnMut(&mut Self) -> R<()>) -> R<()> {
        let n = self.u1()? as usize;
        self.class.len(n);
        for i in 0..n {
            self.open(label, i);
            f(self)?;
            self.close();
        }
        Ok(())
    }
    fn text(&mut self, n: usize) -> R<String> {
        self.at(5);
        let s = self.take(n)?;
        let mut overlong = false;
        let t = mutf8::decode(s, &mut overlong).ok_or(Rej::Utf8)?;
        if overlong {
            // JVMS prescribes the form per code unit, real decoders are lenient: the text is clear,
            // whether it is accepted is left open.
            self.either = Some("overlong UTF-8 form");
        }
        Ok(t)
    }
    fn deeper(&mut self) -> R<()> {
        self.depth += 1;
        if self.depth > DEPTH_MUST {
            self.either = Some("nesting beyond the guaranteed depth");
        }
        if self.depth > DEPTH_MODEL {
            return Err(Stop::Any("nesting beyond the model's depth"));
        }
        Ok(())
    }

    // --- class file
    fn file(&mut self) -> R<()> {
        self.at(100);
        if self.u4()? != 0xCAFE_BABE {
            return Err(Rej::NotAClass.into());
        }
        self.class.t(Class);
        self.c2s(2)?;
        self.open(101, 0);
        self.constant_pool()?;
        self.close();
        self.c2s(3)?;
        self.class.t(Interfaces);
        self.list2(102, |s| s.c2())?;
        for (label, list, one) in [(103, Fields, Field), (104, Methods, Method)] {
            self.class.t(list);
            self.list2(label, |s| {
                s.class.t(one);
                s.c2s(3)?;
                s.attributes()
            })?;
        }
        self.attributes()?;
        self.class.t(EndClass);
        if self.pos != self.b.len() {
            self.either = Some("bytes after the class");
        }
        Ok(())
    }

    fn constant_pool(&mut self) -> R<()> {
        let count = self.u2()?;
        if count == 0 {
            self.either = Some("constant pool count 0");
        }
        self.pool.push(PItem::Gap);
        let mut idx: u32 = 1;
        while idx < u32::from(count) {
            self.open(110, (idx as usize).saturating_sub(1));
            let tag = self.u1()?;
            self.open(111, tag as usize & 3);
            self.at(1000 + u64::from(tag));
            let mut wide = false;
            let item = match tag {
                1 => {
                    let n = self.u2()?;
                    PItem::Utf8(self.text(n.into())?)
                }
                3 => PItem::Other(PInteger, self.s4()?.into(), 0),
                4 => PItem::Other(PFloat, self.u4()?.into(), 0),
                5 => {
                    wide = true;
                    PItem::Other(PLong, self.u8_()? as i64, 0)
                }
                6 => {
                    wide = true;
                    PItem::Other(PDouble, self.u8_()? as i64, 0)
                }
                7 => PItem::Other(PClass, self.u2()?.into(), 0),
                8 => PItem::Other(PString, self.u2()?.into(), 0),
                9 => PItem::Other(PFieldRef, self.u2()?.into(), self.u2()?.into()),
                10 => PItem::Other(PMethodRef, self.u2()?.into(), self.u2()?.into()),
                11 => PItem::Other(PInterfaceMethodRef, self.u2()?.into(), self.u2()?.into()),
                12 => PItem::Other(PNameAndType, self.u2()?.into(), self.u2()?.into()),
                15 => {
                    let kind = self.u1()?;
                    if !(1..=9).contains(&kind) {
                        return Err(Rej::CpItem(idx as u16).into());
                    }
                    PItem::Other(PMethodHandle, kind.into(), self.u2()?.into())
                }
                16 => PItem::Other(PMethodType, self.u2()?.into(), 0),
                18 => PItem::Other(PInvokeDynamic, self.u2()?.into(), self.u2()?.into()),
                19 => PItem::Other(PModule, self.u2()?.into(), 0),
                20 => PItem::Other(PPackage, self.u2()?.into(), 0),
                _ => return Err(Rej::CpItem(idx as u16).into()),
            };
            self.pool.push(item);
            idx += 1;
            if wide {
                if idx >= u32::from(count) {
                    return Err(Stop::Any("long or double at the last constant pool index"));
                }
                self.pool.push(PItem::Gap);
                idx += 1;
            }
            self.close();
            self.close();
        }
        Ok(())
    }

    fn attributes(&mut self) -> R<()> {
        self.class.t(Attributes);
        self.list2(120, |s| s.attribute())
    }

    fn attribute(&mut self) -> R<()> {
        let name_index = self.u2()?;
        let name = match self.pool.get(name_index as usize) {
            Some(PItem::Utf8(s)) => s.clone(),
            _ => return Err(Rej::CpItem(name_index).into()),
        };
        let len = self.u4()? as usize;
        if len > self.end - self.pos {
            return Err(Rej::Limit.into());
        }
        let outer = self.end;
        self.end = self.pos + len;
        self.open(121, 0);
        self.attribute_content(&name, name_index, len)?;
        self.close();
        if self.pos != self.end {
            return Err(Rej::Limit.into());
        }
        self.end = outer;
        Ok(())
    }

    fn attribute_content(&mut self, name: &str, name_index: u16, len: usize) -> R<()> {
        let h = name.bytes().fold(17, |a, b| mix(a, b.into()));
        self.open(h & 0xFFFF_FFFF, 0);
        match name {
            "ConstantValue" => {
                self.class.t(ConstantValue);
                self.c2()?;
            }
            "Signature" => {
                self.class.t(Signature);
                self.c2()?;
            }
            "SourceFile" => {
                self.class.t(SourceFile);
                self.c2()?;
            }
            "ModuleMainClass" => {
                self.class.t(ModuleMainClass);
                self.c2()?;
            }
            "Synthetic" => self.class.t(Synthetic),
            "Deprecated" => self.class.t(Deprecated),
            "SourceDebugExtension" => {
                self.class.t(SourceDebugExtension);
                let t = self.text(len)?;
                self.class.text(&t);
            }
            "Code" => self.code()?,
            "StackMapTable" => {
                self.class.t(StackMapTable);
                self.list2(130, |s| s.frame())?;
            }
            "Exceptions" => {
                self.class.t(Exceptions);
                self.list2(131, |s| s.c2())?;
            }
            "InnerClasses" => {
                self.class.t(InnerClasses);
                self.list2(132, |s| s.c2s(4))?;
            }
            "EnclosingMethod" => {
                self.class.t(EnclosingMethod);
                self.c2s(2)?;
            }
            "LineNumberTable" => {
                self.class.t(LineNumberTable);
                self.list2(133, |s| s.c2s(2))?;
            }
            "LocalVariableTable" => {
                self.class.t(LocalVariableTable);
                self.list2(134, |s| s.c2s(5))?;
            }
            "LocalVariableTypeTable" => {
                self.class.t(LocalVariableTypeTable);
                self.list2(135, |s| s.c2s(5))?;
            }
            "MethodParameters" => {
                self.class.t(MethodParameters);
                self.list1(136, |s| s.c2s(2))?;
            }
            "BootstrapMethods" => {
                self.class.t(BootstrapMethods);
                self.list2(137, |s| {
                    s.class.t(BootstrapMethod);
                    s.c2()?;
                    s.list2(138, |s| s.c2())
                })?;
            }
            "Module" => {
                self.class.t(Module);
                self.c2s(3)?;
                self.class.t(Requires);
                self.list2(140, |s| s.c2s(3))?;
                self.class.t(Exports);
                self.list2(141, |s| {
                    s.c2s(2)?;
                    s.list2(142, |s| s.c2())
                })?;
                self.class.t(Opens);
                self.list2(143, |s| {
                    s.c2s(2)?;
                    s.list2(144, |s| s.c2())
                })?;
                self.class.t(Uses);
                self.list2(145, |s| s.c2())?;
                self.class.t(Provides);
                self.list2(146, |s| {
                    s.c2()?;
                    s.list2(147, |s| s.c2())
                })?;
            }
            "ModulePackages" => {
                self.class.t(ModulePackages);
                self.list2(148, |s| s.c2())?;
            }
            "AnnotationDefault" => {
                self.class.t(AnnotationDefault);
                self.element()?;
            }
            "RuntimeVisibleAnnotations" => {
                self.class.t(VisibleAnnotations);
                self.list2(150, |s| s.annotation())?;
            }
            "RuntimeInvisibleAnnotations" => {
                self.class.t(InvisibleAnnotations);
                self.list2(150, |s| s.annotation())?;
            }
            "RuntimeVisibleParameterAnnotations" => {
                self.class.t(VisibleParameterAnnotations);
                self.list1(151, |s| s.list2(152, |s| s.annotation()))?;
            }
            "RuntimeInvisibleParameterAnnotations" => {
                self.class.t(InvisibleParameterAnnotations);
                self.list1(151, |s| s.list2(152, |s| s.annotation()))?;
            }
            "RuntimeVisibleTypeAnnotations" => {
                self.class.t(VisibleTypeAnnotations);
                self.list2(153, |s| s.type_annotation())?;
            }
            "RuntimeInvisibleTypeAnnotations" => {
                self.class.t(InvisibleTypeAnnotations);
                self.list2(153, |s| s.type_annotation())?;
            }
            _ => {
                self.class.t(Unknown);
                self.class.n(name_index.into());
                let b = self.take(len)?;
                self.class.bytes(b);
            }
        }
        self.close();
        Ok(())
    }

    // --- annotations
    fn annotation(&mut self) -> R<()> {
        self.class.t(Annotation);
        self.c2()?;
        self.list2(160, |s| {
            s.c2()?;
            s.element()
        })
    }

    fn element(&mut self) -> R<()> {
        let tag = self.u1()?;
        self.class.t(Element);
        self.class.n(tag.into());
        self.open(1200 + u64::from(tag), 0);
        match tag {
            b'B' | b'C' | b'D' | b'F' | b'I' | b'J' | b'S' | b'Z' | b's' | b'c' => self.c2()?,
            b'e' => self.c2s(2)?,
            b'@' => {
                self.deeper()?;
                self.annotation()?;
                self.depth -= 1;
            }
            b'[' => {
                self.deeper()?;
                self.list2(161, |s| s.element())?;
                self.depth -= 1;
            }
            _ => return Err(Rej::Elem(tag).into()),
        }
        self.close();
        Ok(())
    }

    fn type_annotation(&mut self) -> R<()> {
        self.class.t(TypeAnnotation);
        let target = self.u1()?;
        self.class.t(Target);
        self.class.n(target.into());
        self.open(1500 + u64::from(target), 0);
        match target {
            0x00 | 0x01 | 0x16 => self.c1()?,
            0x10 | 0x17 | 0x42..=0x46 => self.c2()?,
            0x11 | 0x12 => {
                self.c1()?;
                self.c1()?;
            }
            0x13..=0x15 => {}
            0x40 | 0x41 => self.list2(170, |s| s.c2s(3))?,
            0x47..=0x4B => {
                self.c2()?;
                self.c1()?;
            }
            _ => return Err(Rej::Target.into()),
        }
        self.close();
        self.class.t(Path);
        self.list1(171, |s| {
            let kind = s.u1()?;
            if kind > 3 {
                return Err(Rej::Path.into());
            }
            s.class.n(kind.into());
            s.c1()
        })?;
        self.annotation()
    }

    // --- stack maps
    fn frame(&mut self) -> R<()> {
        let f = self.u1()?;
        self.open(1800 + u64::from(f), 0);
        match f {
            0..=63 => {
                self.class.t(FrameSame);
                self.class.n(f.into());
            }
            64..=127 => {
                self.class.t(FrameSame1);
                self.class.n(i64::from(f) - 64);
                self.verif()?;
            }
            128..=246 => return Err(Rej::Frame(f).into()),
            247 => {
                self.class.t(FrameSame1);
                self.c2()?;
                self.verif()?;
            }
            248..=250 => {
                self.class.t(FrameChop);
                self.c2()?;
                self.class.n(251 - i64::from(f));
            }
            251 => {
                self.class.t(FrameSame);
                self.c2()?;
            }
            252..=254 => {
                self.class.t(FrameAppend);
                self.c2()?;
                let k = f as usize - 251;
                self.class.len(k);
                for i in 0..k {
                    self.open(180, i);
                    self.verif()?;
                    self.close();
                }
            }
            255 => {
                self.class.t(FrameFull);
                self.c2()?;
                self.list2(181, |s| s.verif())?;
                self.list2(182, |s| s.verif())?;
            }
        }
        self.close();
        Ok(())
    }

    fn verif(&mut self) -> R<()> {
        let t = self.u1()?;
        self.at(2100 + u64::from(t));
        self.class.t(Verif);
        self.class.n(t.into());
        match t {
            0..=6 => Ok(()),
            7 | 8 => self.c2(),
            _ => Err(Rej::Verif(t).into()),
        }
    }

    // --- code
    fn code(&mut self) -> R<()> {
        self.deeper()?;
        self.class.t(Code);
        self.c2s(2)?;
        let len = self.u4()? as usize;
        if len > self.end - self.pos {
            return Err(Rej::Limit.into());
        }
        let start = self.pos;
        let outer = self.end;
        self.end = start + len;
        if len == 0 {
            return Err(Rej::Limit.into());
        }
        self.class.t(Instructions);
        let mut k = 0;
        while self.pos < self.end {
            let at = (self.pos - start) as u32;
            self.class.t(Insn);
            self.class.n(at.into());
            self.open(190, k);
            self.instruction(at)?;
            self.close();
            k += 1;
        }
        self.class.t(EndInstructions);
        self.class.len(k);
        self.end = outer;
        self.class.t(ExceptionTable);
        self.list2(191, |s| s.c2s(4))?;
        self.attributes()?;
        self.class.t(EndCode);
        self.depth -= 1;
        Ok(())
    }

    fn instruction(&mut self, at: u32) -> R<()> {
        let op = self.u1()?;
        self.open(2400 + u64::from(op), at as usize & 3);
        let bad = Rej::Insn { op, at };
        use crate::opcodes::{shape, Shape::*};
        match shape(op) {
            None => {
                self.class.n(op.into());
            }
            Undefined => return Err(bad.into()),
            S1 => {
                self.class.n(op.into());
                let v = self.u1()? as i8;
                self.class.n(v.into());
            }
            S2 => {
                self.class.n(op.into());
                let v = self.u2()? as i16;
                self.class.n(v.into());
            }
            U1 => {
                self.class.n(op.into());
                self.c1()?;
            }
            U2 => {
                self.class.n(op.into());
                self.c2()?;
            }
            LdcWide => {
                self.class.n(0x12);
                self.c2()?;
            }
            Inc => {
                self.class.n(op.into());
                self.c1()?;
                let v = self.u1()? as i8;
                self.class.n(v.into());
            }
            Jump4 => {
                self.class.n((op - 0xC8 + 0xA7).into());
                let v = self.s4()?;
                self.class.n(v.into());
            }
            InvokeInterface => {
                self.class.n(op.into());
                self.c2()?;
                self.c1()?;
                self.u1()?;
            }
            InvokeDynamic => {
                self.class.n(op.into());
                self.c2()?;
                self.u2()?;
            }
            NewArray => {
                self.class.n(op.into());
                let t = self.u1()?;
                if !(4..=11).contains(&t) {
                    return Err(bad.into());
                }
                self.class.n(t.into());
            }
            MultiNewArray => {
                self.class.n(op.into());
                self.c2()?;
                self.c1()?;
            }
            Wide => {
                let w = self.u1()?;
                self.open(2700 + u64::from(w), 0);
                match w {
                    0x15..=0x19 | 0x36..=0x3A | 0xA9 => {
                        self.class.n(w.into());
                        self.c2()?;
                    }
                    0x84 => {
                        self.class.n(w.into());
                        self.c2()?;
                        let v = self.u2()? as i16;
                        self.class.n(v.into());
                    }
                    _ => return Err(bad.into()),
                }
                self.close();
            }
            TableSwitch => {
                self.class.n(op.into());
                self.pad(at)?;
                let default = self.s4()?;
                let low = self.s4()?;
                let high = self.s4()?;
                self.class.n(default.into());
                self.class.n(low.into());
                self.class.n(high.into());
                if low > high {
                    return Err(bad.into());
                }
                let n = i64::from(high) - i64::from(low) + 1;
                self.class.n(n);
                for _ in 0..n {
                    let v = self.s4()?;
                    self.class.n(v.into());
                }
            }
            LookupSwitch => {
                self.class.n(op.into());
                self.pad(at)?;
                let default = self.s4()?;
                self.class.n(default.into());
                let n = self.u4()?;
                let mut map = BTreeMap::new();
                for _ in 0..n {
                    let k = self.s4()?;
                    let v = self.s4()?;
                    if map.insert(k, v).is_some() {
                        self.either = Some("lookupswitch with equal keys");
                    }
                }
                self.class.len(map.len());
                for (k, v) in map {
                    self.class.n(k.into());
                    self.class.n(v.into());
                }
            }
        }
        self.close();
        Ok(())
    }

    /// Switch operands start at the next offset that is a multiple of four.
    fn pad(&mut self, at: u32) -> R<()> {
        let mut next = at + 1;
        while next % 4 != 0 {
            self.u1()?;
            next += 1;
        }
        Ok(())
    }
}
