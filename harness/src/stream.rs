//! Canonical value stream: the common form in which the reference model and the implementation
//! describe a parsed class. A stream is a flat list of numbers; markers introduce structures.

pub const TAG0: i64 = i64::MIN / 2;

macro_rules! tags {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)]
        #[repr(i64)]
        #[derive(Copy, Clone, Debug, PartialEq)]
        pub enum Tag { $($name),* }
        pub const TAG_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}

tags! {
    Class, Interfaces, Fields, Field, Methods, Method, Attributes, EndClass,
    // attributes
    AnnotationDefault, BootstrapMethods, BootstrapMethod, Code, Instructions, Insn, EndInstructions,
    ExceptionTable, EndCode, ConstantValue, Deprecated, EnclosingMethod, Exceptions, InnerClasses,
    LineNumberTable, LocalVariableTable, LocalVariableTypeTable, MethodParameters, Module, Requires,
    Exports, Opens, Uses, Provides, ModuleMainClass, ModulePackages, VisibleAnnotations,
    InvisibleAnnotations, VisibleParameterAnnotations, InvisibleParameterAnnotations,
    VisibleTypeAnnotations, InvisibleTypeAnnotations, Signature, Synthetic, SourceFile,
    SourceDebugExtension, StackMapTable, Unknown,
    // parts
    Annotation, Element, TypeAnnotation, Target, Path,
    FrameSame, FrameSame1, FrameChop, FrameAppend, FrameFull, Verif,
    // pool
    Pool, PoolInvalid, PUtf8, PInteger, PFloat, PLong, PDouble, PClass, PString, PFieldRef,
    PMethodRef, PInterfaceMethodRef, PNameAndType, PMethodHandle, PMethodType, PInvokeDynamic,
    PModule, PPackage, PoolEnd,
}

#[derive(Default, Clone, PartialEq)]
pub struct Stream(pub Vec<i64>);

impl Stream {
    #[inline]
    pub fn t(&mut self, t: Tag) {
        self.0.push(TAG0 + t as i64);
    }
    #[inline]
    pub fn n(&mut self, v: i64) {
        self.0.push(v);
    }
    /// A list header.
    #[inline]
    pub fn len(&mut self, n: usize) {
        self.0.push(n as i64);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.len(b.len());
        for c in b.chunks(7) {
            let mut v = 0i64;
            for &x in c {
                v = v << 8 | i64::from(x);
            }
            self.0.push(v);
        }
    }
    pub fn text(&mut self, s: &str) {
        self.bytes(s.as_bytes());
    }
}

pub fn show(v: i64) -> String {
    let k = v.wrapping_sub(TAG0);
    if k >= 0 && (k as usize) < TAG_NAMES.len() {
        format!("<{}>", TAG_NAMES[k as usize])
    } else {
        v.to_string()
    }
}

fn is_tag(v: i64) -> bool {
    let k = v.wrapping_sub(TAG0);
    k >= 0 && (k as usize) < TAG_NAMES.len()
}

/// Describes the first difference of two streams.
pub fn diff(want: &Stream, got: &Stream) -> String {
    let (w, g) = (&want.0, &got.0);
    let mut i = 0;
    while i < w.len() && i < g.len() && w[i] == g[i] {
        i += 1;
    }
    let mut s = i;
    let mut tags = 0;
    while s > 0 && tags < 2 && i - s < 14 {
        s -= 1;
        if is_tag(w[s]) {
            tags += 1;
        }
    }
    let part = |v: &Vec<i64>| {
        v[s..v.len().min(i + 6)].iter().map(|x| show(*x)).collect::<Vec<_>>().join(" ")
    };
    format!("expected [.. {} ..] but got [.. {} ..]", part(w), part(g))
}
