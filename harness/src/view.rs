//! The implementation's result as a canonical stream (see stream.rs), using the public API only.
use crate::refdec::PItem;
use crate::stream::{Stream, Tag::*};
use jbcrs::basic as jb;
use jbcrs::basic::Attribute as A;

pub fn item(it: &jb::Item) -> PItem {
    use jb::Item as I;
    let o = PItem::Other;
    match *it {
        I::UTF8(ref s) => PItem::Utf8(s.clone()),
        I::Integer(v) => o(PInteger, v.into(), 0),
        I::Float(v) => o(PFloat, v.to_bits().into(), 0),
        I::Long(v) => o(PLong, v, 0),
        I::Double(v) => o(PDouble, v.to_bits() as i64, 0),
        I::Class(a) => o(PClass, a.into(), 0),
        I::String(a) => o(PString, a.into(), 0),
        I::FieldRef { class, name_and_type } => o(PFieldRef, class.into(), name_and_type.into()),
        I::MethodRef { class, name_and_type } => o(PMethodRef, class.into(), name_and_type.into()),
        I::InterfaceMethodRef { class, name_and_type } => {
            o(PInterfaceMethodRef, class.into(), name_and_type.into())
        }
        I::NameAndType { name, desc } => o(PNameAndType, name.into(), desc.into()),
        I::MethodHandle { ref kind, index } => {
            use jb::ReferenceKind::*;
            let k = match *kind {
                GetField => 1,
                GetStatic => 2,
                PutField => 3,
                PutStatic => 4,
                InvokeVirtual => 5,
                InvokeStatic => 6,
                InvokeSpecial => 7,
                NewInvokeSpecial => 8,
                InvokeInterface => 9,
            };
            o(PMethodHandle, k, index.into())
        }
        I::MethodType(a) => o(PMethodType, a.into(), 0),
        I::InvokeDynamic { bootstrap_method_attribute, name_and_type } => {
            o(PInvokeDynamic, bootstrap_method_attribute.into(), name_and_type.into())
        }
        I::Module(a) => o(PModule, a.into(), 0),
        I::Package(a) => o(PPackage, a.into(), 0),
    }
}

/// Whether the implementation's item is the one the model has at that place (no allocation).
pub fn same_item(it: &jb::Item, m: &PItem) -> bool {
    match (it, m) {
        (jb::Item::UTF8(s), PItem::Utf8(t)) => s == t,
        (jb::Item::UTF8(_), _) => false,
        _ => item(it) == *m,
    }
}

fn n(out: &mut Stream, v: u16) {
    out.n(v.into());
}
fn u2s(out: &mut Stream, v: &[u16]) {
    out.len(v.len());
    for &x in v {
        out.n(x.into());
    }
}

pub fn class(c: &jb::Class, out: &mut Stream) {
    out.t(Class);
    n(out, c.minor_version);
    n(out, c.major_version);
    n(out, c.access_flags.bits());
    n(out, c.name);
    n(out, c.super_name);
    out.t(Interfaces);
    u2s(out, &c.interfaces);
    out.t(Fields);
    out.len(c.fields.len());
    for f in &c.fields {
        out.t(Field);
        n(out, f.access_flags.bits());
        n(out, f.name);
        n(out, f.desc);
        attributes(&f.attributes, out);
    }
    out.t(Methods);
    out.len(c.methods.len());
    for m in &c.methods {
        out.t(Method);
        n(out, m.access_flags.bits());
        n(out, m.name);
        n(out, m.desc);
        attributes(&m.attributes, out);
    }
    attributes(&c.attributes, out);
    out.t(EndClass);
}

fn attributes(v: &[A], out: &mut Stream) {
    out.t(Attributes);
    out.len(v.len());
    for a in v {
        attribute(a, out);
    }
}

fn attribute(a: &A, out: &mut Stream) {
    match *a {
        A::AnnotationDefault(ref e) => {
            out.t(AnnotationDefault);
            element(e, out);
        }
        A::BootstrapMethods(ref v) => {
            out.t(BootstrapMethods);
            out.len(v.len());
            for m in v {
                out.t(BootstrapMethod);
                n(out, m.method_ref);
                u2s(out, &m.arguments);
            }
        }
        A::Code { max_stack, max_locals, ref instructions, ref exceptions, ref attributes } => {
            out.t(Code);
            n(out, max_stack);
            n(out, max_locals);
            out.t(Instructions);
            let mut v: Vec<_> = instructions.iter().collect();
            v.sort_unstable_by_key(|e| *e.0);
            for (at, i) in &v {
                out.t(Insn);
                out.n((**at).into());
                instruction(i, out);
            }
            out.t(EndInstructions);
            out.len(v.len());
            out.t(ExceptionTable);
            out.len(exceptions.len());
            for e in exceptions {
                n(out, e.start);
                n(out, e.end);
                n(out, e.handler);
                n(out, e.catch_type);
            }
            self::attributes(attributes, out);
            out.t(EndCode);
        }
        A::ConstantValue(i) => {
            out.t(ConstantValue);
            n(out, i);
        }
        A::Deprecated => out.t(Deprecated),
        A::EnclosingMethod { class_index, method_index } => {
            out.t(EnclosingMethod);
            n(out, class_index);
            n(out, method_index);
        }
        A::Exceptions(ref v) => {
            out.t(Exceptions);
            u2s(out, v);
        }
        A::InnerClasses(ref v) => {
            out.t(InnerClasses);
            out.len(v.len());
            for c in v {
                n(out, c.inner_class_info);
                n(out, c.outer_class_info);
                n(out, c.inner_name);
                n(out, c.inner_class_access_flags.bits());
            }
        }
        A::LineNumberTable(ref v) => {
            out.t(LineNumberTable);
            out.len(v.len());
            for l in v {
                n(out, l.start);
                n(out, l.line_number);
            }
        }
        A::LocalVariableTable(ref v) => {
            out.t(LocalVariableTable);
            out.len(v.len());
            for l in v {
                n(out, l.start);
                n(out, l.length);
                n(out, l.name);
                n(out, l.descriptor);
                n(out, l.index);
            }
        }
        A::LocalVariableTypeTable(ref v) => {
            out.t(LocalVariableTypeTable);
            out.len(v.len());
            for l in v {
                n(out, l.start);
                n(out, l.length);
                n(out, l.name);
                n(out, l.signature);
                n(out, l.index);
            }
        }
        A::MethodParameters(ref v) => {
            out.t(MethodParameters);
            out.len(v.len());
            for p in v {
                n(out, p.name);
                n(out, p.access_flags.bits());
            }
        }
        A::Module {
            name,
            flags,
            version,
            ref requires,
            ref exports,
            ref opens,
            ref uses,
            ref provides,
        } => {
            out.t(Module);
            n(out, name);
            n(out, flags.bits());
            n(out, version);
            out.t(Requires);
            out.len(requires.len());
            for r in requires {
                n(out, r.index);
                n(out, r.flags.bits());
                n(out, r.version);
            }
            out.t(Exports);
            out.len(exports.len());
            for e in exports {
                n(out, e.index);
                n(out, e.flags.bits());
                u2s(out, &e.to);
            }
            out.t(Opens);
            out.len(opens.len());
            for e in opens {
                n(out, e.index);
                n(out, e.flags.bits());
                u2s(out, &e.to);
            }
            out.t(Uses);
            u2s(out, uses);
            out.t(Provides);
            out.len(provides.len());
            for p in provides {
                n(out, p.index);
                u2s(out, &p.with);
            }
        }
        A::ModuleMainClass(i) => {
            out.t(ModuleMainClass);
            n(out, i);
        }
        A::ModulePackages(ref v) => {
            out.t(ModulePackages);
            u2s(out, v);
        }
        A::RuntimeVisibleAnnotations(ref v) => {
            out.t(VisibleAnnotations);
            annotations(v, out);
        }
        A::RuntimeInvisibleAnnotations(ref v) => {
            out.t(InvisibleAnnotations);
            annotations(v, out);
        }
        A::RuntimeVisibleParameterAnnotations(ref v) => {
            out.t(VisibleParameterAnnotations);
            out.len(v.len());
            for p in v {
                annotations(p, out);
            }
        }
        A::RuntimeInvisibleParameterAnnotations(ref v) => {
            out.t(InvisibleParameterAnnotations);
            out.len(v.len());
            for p in v {
                annotations(p, out);
            }
        }
        A::RuntimeVisibleTypeAnnotations(ref v) => {
            out.t(VisibleTypeAnnotations);
            type_annotations(v, out);
        }
        A::RuntimeInvisibleTypeAnnotations(ref v) => {
            out.t(InvisibleTypeAnnotations);
            type_annotations(v, out);
        }
        A::Signature(i) => {
            out.t(Signature);
            n(out, i);
        }
        A::Synthetic => out.t(Synthetic),
        A::SourceFile(i) => {
            out.t(SourceFile);
            n(out, i);
        }
        A::SourceDebugExtension(ref s) => {
            out.t(SourceDebugExtension);
            out.text(s);
        }
        A::StackMapTable(ref v) => {
            out.t(StackMapTable);
            out.len(v.len());
            for f in v {
                frame(f, out);
            }
        }
        A::Unknown(name, ref b) => {
            out.t(Unknown);
            n(out, name);
            out.bytes(b);
        }
    }
}

fn annotations(v: &[jb::Annotation], out: &mut Stream) {
    out.len(v.len());
    for a in v {
        annotation(a, out);
    }
}

fn annotation(a: &jb::Annotation, out: &mut Stream) {
    out.t(Annotation);
    n(out, a.type_index);
    out.len(a.element_value_pairs.len());
    for (name, v) in &a.element_value_pairs {
        n(out, *name);
        element(v, out);
    }
}

fn element(e: &jb::ElementValue, out: &mut Stream) {
    use jb::ElementValue as E;
    out.t(Element);
    let (tag, v) = match *e {
        E::Byte(i) => (b'B', i),
        E::Short(i) => (b'S', i),
        E::Char(i) => (b'C', i),
        E::Int(i) => (b'I', i),
        E::Long(i) => (b'J', i),
        E::Float(i) => (b'F', i),
        E::Double(i) => (b'D', i),
        E::Boolean(i) => (b'Z', i),
        E::String(i) => (b's', i),
        E::Class(i) => (b'c', i),
        E::Enum { type_name, const_name } => {
            out.n(b'e'.into());
            n(out, type_name);
            n(out, const_name);
            return;
        }
        E::Annotation(ref a) => {
            out.n(b'@'.into());
            annotation(a, out);
            return;
        }
        E::Array(ref v) => {
            out.n(b'['.into());
            out.len(v.len());
            for x in v {
                element(x, out);
            }
            return;
        }
    };
    out.n(tag.into());
    n(out, v);
}

fn type_annotations(v: &[jb::TypeAnnotation], out: &mut Stream) {
    out.len(v.len());
    for a in v {
        out.t(TypeAnnotation);
        out.t(Target);
        target(&a.target_type, out);
        out.t(Path);
        out.len(a.target_path.len());
        for p in &a.target_path {
            use jb::TypePathKind as K;
            out.n(match p.path_kind {
                K::ArrayType => 0,
                K::NestedType => 1,
                K::WildcardType => 2,
                K::Type => 3,
            });
            out.n(p.argument_index.into());
        }
        annotation(&a.annotation, out);
    }
}

fn target(t: &jb::TargetType, out: &mut Stream) {
    use jb::TargetType as T;
    let mut put = |tag: i64, ops: &[u16]| {
        out.n(tag);
        for &o in ops {
            out.n(o.into());
        }
    };
    match *t {
        T::TypeParameterClass(i) => put(0x00, &[i.into()]),
        T::TypeParameterMethod(i) => put(0x01, &[i.into()]),
        T::SuperType(i) => put(0x10, &[i]),
        T::TypeParameterBoundClass { type_parameter, bound_index } => {
            put(0x11, &[type_parameter.into(), bound_index.into()])
        }
        T::TypeParameterBoundMethod { type_parameter, bound_index } => {
            put(0x12, &[type_parameter.into(), bound_index.into()])
        }
        T::EmptyField => put(0x13, &[]),
        T::EmptyReturn => put(0x14, &[]),
        T::EmptyReceiver => put(0x15, &[]),
        T::FormalParameter(i) => put(0x16, &[i.into()]),
        T::Throws(i) => put(0x17, &[i]),
        T::LocalVariable(ref v) | T::ResourceVariable(ref v) => {
            let tag = if let T::LocalVariable(_) = *t { 0x40 } else { 0x41 };
            out.n(tag);
            out.len(v.len());
            for l in v {
                n(out, l.start);
                n(out, l.length);
                n(out, l.index);
            }
        }
        T::Catch(i) => put(0x42, &[i]),
        T::OffsetInstanceOf(i) => put(0x43, &[i]),
        T::OffsetNew(i) => put(0x44, &[i]),
        T::OffsetNewRef(i) => put(0x45, &[i]),
        T::OffsetRef(i) => put(0x46, &[i]),
        T::TypeArgumentCast { offset, type_argument } => put(0x47, &[offset, type_argument.into()]),
        T::TypeArgumentConstructor { offset, type_argument } => {
            put(0x48, &[offset, type_argument.into()])
        }
        T::TypeArgumentMethod { offset, type_argument } => put(0x49, &[offset, type_argument.into()]),
        T::TypeArgumentNewRef { offset, type_argument } => put(0x4A, &[offset, type_argument.into()]),
        T::TypeArgumentRef { offset, type_argument } => put(0x4B, &[offset, type_argument.into()]),
    }
}

fn frame(f: &jb::StackMapFrame, out: &mut Stream) {
    use jb::StackMapFrame as F;
    match *f {
        F::Same { offset_delta } => {
            out.t(FrameSame);
            n(out, offset_delta);
        }
        F::Same1 { offset_delta, ref stack } => {
            out.t(FrameSame1);
            n(out, offset_delta);
            verif(stack, out);
        }
        F::Chop { offset_delta, count } => {
            out.t(FrameChop);
            n(out, offset_delta);
            out.n(count.into());
        }
        F::Append { offset_delta, ref locals } => {
            out.t(FrameAppend);
            n(out, offset_delta);
            out.len(locals.len());
            for l in locals {
                verif(l, out);
            }
        }
        F::Full { offset_delta, ref locals, ref stack } => {
            out.t(FrameFull);
            n(out, offset_delta);
            for v in [locals, stack] {
                out.len(v.len());
                for l in v {
                    verif(l, out);
                }
            }
        }
    }
}

fn verif(v: &jb::VerificationType, out: &mut Stream) {
    use jb::VerificationType as V;
    out.t(Verif);
    match *v {
        V::Top => out.n(0),
        V::Integer => out.n(1),
        V::Float => out.n(2),
        V::Double => out.n(3),
        V::Long => out.n(4),
        V::Null => out.n(5),
        V::UninitializedThis => out.n(6),
        V::Object(i) => {
            out.n(7);
            n(out, i);
        }
        V::Uninitialized(i) => {
            out.n(8);
            n(out, i);
        }
    }
}

fn two(out: &mut Stream, op: i64, a: i64) {
    out.n(op);
    out.n(a);
}

#[rustfmt::skip]
fn instruction(i: &jb::Instruction, out: &mut Stream) {
    use jb::Instruction as I;
    match *i {
        I::NOP => out.n(0x00),
        I::AConstNull => out.n(0x01),
        I::IConstM1 => out.n(0x02),
        I::IConst0 => out.n(0x03),
        I::IConst1 => out.n(0x04),
        I::IConst2 => out.n(0x05),
        I::IConst3 => out.n(0x06),
        I::IConst4 => out.n(0x07),
        I::IConst5 => out.n(0x08),
        I::LConst0 => out.n(0x09),
        I::LConst1 => out.n(0x0A),
        I::FConst0 => out.n(0x0B),
        I::FConst1 => out.n(0x0C),
        I::FConst2 => out.n(0x0D),
        I::DConst0 => out.n(0x0E),
        I::DConst1 => out.n(0x0F),
        I::ILoad0 => out.n(0x1A),
        I::ILoad1 => out.n(0x1B),
        I::ILoad2 => out.n(0x1C),
        I::ILoad3 => out.n(0x1D),
        I::LLoad0 => out.n(0x1E),
        I::LLoad1 => out.n(0x1F),
        I::LLoad2 => out.n(0x20),
        I::LLoad3 => out.n(0x21),
        I::FLoad0 => out.n(0x22),
        I::FLoad1 => out.n(0x23),
        I::FLoad2 => out.n(0x24),
        I::FLoad3 => out.n(0x25),
        I::DLoad0 => out.n(0x26),
        I::DLoad1 => out.n(0x27),
        I::DLoad2 => out.n(0x28),
        I::DLoad3 => out.n(0x29),
        I::ALoad0 => out.n(0x2A),
        I::ALoad1 => out.n(0x2B),
        I::ALoad2 => out.n(0x2C),
        I::ALoad3 => out.n(0x2D),
        I::IALoad => out.n(0x2E),
        I::LALoad => out.n(0x2F),
        I::FALoad => out.n(0x30),
        I::DALoad => out.n(0x31),
        I::AALoad => out.n(0x32),
        I::BALoad => out.n(0x33),
        I::CALoad => out.n(0x34),
        I::SALoad => out.n(0x35),
        I::IStore0 => out.n(0x3B),
        I::IStore1 => out.n(0x3C),
        I::IStore2 => out.n(0x3D),
        I::IStore3 => out.n(0x3E),
        I::LStore0 => out.n(0x3F),
        I::LStore1 => out.n(0x40),
        I::LStore2 => out.n(0x41),
        I::LStore3 => out.n(0x42),
        I::FStore0 => out.n(0x43),
        I::FStore1 => out.n(0x44),
        I::FStore2 => out.n(0x45),
        I::FStore3 => out.n(0x46),
        I::DStore0 => out.n(0x47),
        I::DStore1 => out.n(0x48),
        I::DStore2 => out.n(0x49),
        I::DStore3 => out.n(0x4A),
        I::AStore0 => out.n(0x4B),
        I::AStore1 => out.n(0x4C),
        I::AStore2 => out.n(0x4D),
        I::AStore3 => out.n(0x4E),
        I::IAStore => out.n(0x4F),
        I::LAStore => out.n(0x50),
        I::FAStore => out.n(0x51),
        I::DAStore => out.n(0x52),
        I::AAStore => out.n(0x53),
        I::BAStore => out.n(0x54),
        I::CAStore => out.n(0x55),
        I::SAStore => out.n(0x56),
        I::Pop => out.n(0x57),
        I::Pop2 => out.n(0x58),
        I::Dup => out.n(0x59),
        I::DupX1 => out.n(0x5A),
        I::DupX2 => out.n(0x5B),
        I::Dup2 => out.n(0x5C),
        I::Dup2X1 => out.n(0x5D),
        I::Dup2X2 => out.n(0x5E),
        I::Swap => out.n(0x5F),
        I::IAdd => out.n(0x60),
        I::LAdd => out.n(0x61),
        I::FAdd => out.n(0x62),
        I::DAdd => out.n(0x63),
        I::ISub => out.n(0x64),
        I::LSub => out.n(0x65),
        I::FSub => out.n(0x66),
        I::DSub => out.n(0x67),
        I::IMul => out.n(0x68),
        I::LMul => out.n(0x69),
        I::FMul => out.n(0x6A),
        I::DMul => out.n(0x6B),
        I::IDiv => out.n(0x6C),
        I::LDiv => out.n(0x6D),
        I::FDiv => out.n(0x6E),
        I::DDiv => out.n(0x6F),
        I::IRem => out.n(0x70),
        I::LRem => out.n(0x71),
        I::FRem => out.n(0x72),
        I::DRem => out.n(0x73),
        I::INeg => out.n(0x74),
        I::LNeg => out.n(0x75),
        I::FNeg => out.n(0x76),
        I::DNeg => out.n(0x77),
        I::IShL => out.n(0x78),
        I::LShL => out.n(0x79),
        I::IShR => out.n(0x7A),
        I::LShR => out.n(0x7B),
        I::IUShR => out.n(0x7C),
        I::LUShR => out.n(0x7D),
        I::IAnd => out.n(0x7E),
        I::LAnd => out.n(0x7F),
        I::IOr => out.n(0x80),
        I::LOr => out.n(0x81),
        I::IXOr => out.n(0x82),
        I::LXOr => out.n(0x83),
        I::I2L => out.n(0x85),
        I::I2F => out.n(0x86),
        I::I2D => out.n(0x87),
        I::L2I => out.n(0x88),
        I::L2F => out.n(0x89),
        I::L2D => out.n(0x8A),
        I::F2I => out.n(0x8B),
        I::F2L => out.n(0x8C),
        I::F2D => out.n(0x8D),
        I::D2I => out.n(0x8E),
        I::D2L => out.n(0x8F),
        I::D2F => out.n(0x90),
        I::I2B => out.n(0x91),
        I::I2C => out.n(0x92),
        I::I2S => out.n(0x93),
        I::LCmp => out.n(0x94),
        I::FCmpL => out.n(0x95),
        I::FCmpG => out.n(0x96),
        I::DCmpL => out.n(0x97),
        I::DCmpG => out.n(0x98),
        I::IReturn => out.n(0xAC),
        I::LReturn => out.n(0xAD),
        I::FReturn => out.n(0xAE),
        I::DReturn => out.n(0xAF),
        I::AReturn => out.n(0xB0),
        I::Return => out.n(0xB1),
        I::ArrayLength => out.n(0xBE),
        I::AThrow => out.n(0xBF),
        I::MonitorEnter => out.n(0xC2),
        I::MonitorExit => out.n(0xC3),
        I::BreakPoint => out.n(0xCA),
        I::ImpDep1 => out.n(0xFE),
        I::ImpDep2 => out.n(0xFF),
        I::BIPush(a) => two(out, 0x10, a.into()),
        I::SIPush(a) => two(out, 0x11, a.into()),
        I::LDC(a) => two(out, 0x12, a.into()),
        I::ILoad(a) => two(out, 0x15, a.into()),
        I::LLoad(a) => two(out, 0x16, a.into()),
        I::FLoad(a) => two(out, 0x17, a.into()),
        I::DLoad(a) => two(out, 0x18, a.into()),
        I::ALoad(a) => two(out, 0x19, a.into()),
        I::IStore(a) => two(out, 0x36, a.into()),
        I::LStore(a) => two(out, 0x37, a.into()),
        I::FStore(a) => two(out, 0x38, a.into()),
        I::DStore(a) => two(out, 0x39, a.into()),
        I::AStore(a) => two(out, 0x3A, a.into()),
        I::IfEq(a) => two(out, 0x99, a.into()),
        I::IfNE(a) => two(out, 0x9A, a.into()),
        I::IfLT(a) => two(out, 0x9B, a.into()),
        I::IfGE(a) => two(out, 0x9C, a.into()),
        I::IfGT(a) => two(out, 0x9D, a.into()),
        I::IfLE(a) => two(out, 0x9E, a.into()),
        I::IfICmpEq(a) => two(out, 0x9F, a.into()),
        I::IfICmpNE(a) => two(out, 0xA0, a.into()),
        I::IfICmpLT(a) => two(out, 0xA1, a.into()),
        I::IfICmpGE(a) => two(out, 0xA2, a.into()),
        I::IfICmpGT(a) => two(out, 0xA3, a.into()),
        I::IfICmpLE(a) => two(out, 0xA4, a.into()),
        I::IfACmpEq(a) => two(out, 0xA5, a.into()),
        I::IfACmpNE(a) => two(out, 0xA6, a.into()),
        I::GoTo(a) => two(out, 0xA7, a.into()),
        I::JSR(a) => two(out, 0xA8, a.into()),
        I::Ret(a) => two(out, 0xA9, a.into()),
        I::GetStatic(a) => two(out, 0xB2, a.into()),
        I::PutStatic(a) => two(out, 0xB3, a.into()),
        I::GetField(a) => two(out, 0xB4, a.into()),
        I::PutField(a) => two(out, 0xB5, a.into()),
        I::InvokeVirtual(a) => two(out, 0xB6, a.into()),
        I::InvokeSpecial(a) => two(out, 0xB7, a.into()),
        I::InvokeStatic(a) => two(out, 0xB8, a.into()),
        I::InvokeDynamic(a) => two(out, 0xBA, a.into()),
        I::New(a) => two(out, 0xBB, a.into()),
        I::ANewArray(a) => two(out, 0xBD, a.into()),
        I::CheckCast(a) => two(out, 0xC0, a.into()),
        I::InstanceOf(a) => two(out, 0xC1, a.into()),
        I::IfNull(a) => two(out, 0xC6, a.into()),
        I::IfNonNull(a) => two(out, 0xC7, a.into()),
        I::IInc(a, b) => { two(out, 0x84, a.into()); out.n(b.into()); }
        I::TableSwitch { default, low, high, ref offsets } => {
            two(out, 0xAA, default.into());
            out.n(low.into());
            out.n(high.into());
            out.len(offsets.len());
            for o in offsets { out.n((*o).into()); }
        }
        I::LookupSwitch { default, ref offsets } => {
            two(out, 0xAB, default.into());
            out.len(offsets.len());
            for (k, v) in offsets { out.n((*k).into()); out.n((*v).into()); }
        }
        I::InvokeInterface(a, b) => { two(out, 0xB9, a.into()); out.n(b.into()); }
        I::MultiANewArray(a, b) => { two(out, 0xC5, a.into()); out.n(b.into()); }
        I::NewArray(ref t) => {
            use jb::ArrayType as T;
            two(out, 0xBC, match *t {
                T::Boolean => 4, T::Char => 5, T::Float => 6, T::Double => 7,
                T::Byte => 8, T::Short => 9, T::Int => 10, T::Long => 11,
            });
        }
    }
}
