//! Operand shapes of the instruction set (JVMS 6.5).
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Shape {
    None,
    Undefined,
    S1,
    S2,
    U1,
    U2,
    LdcWide,
    Inc,
    Jump4,
    InvokeInterface,
    InvokeDynamic,
    NewArray,
    MultiNewArray,
    Wide,
    TableSwitch,
    LookupSwitch,
}

pub fn shape(op: u8) -> Shape {
    use Shape::*;
    match op {
        0x10 => S1,
        0x11 => S2,
        0x12 => U1,
        0x13 | 0x14 => LdcWide,
        0x15..=0x19 | 0x36..=0x3A | 0xA9 => U1,
        0x84 => Inc,
        0x99..=0xA8 | 0xC6 | 0xC7 => S2,
        0xAA => TableSwitch,
        0xAB => LookupSwitch,
        0xB2..=0xB8 | 0xBB | 0xBD | 0xC0 | 0xC1 => U2,
        0xB9 => InvokeInterface,
        0xBA => InvokeDynamic,
        0xBC => NewArray,
        0xC4 => Wide,
        0xC5 => MultiNewArray,
        0xC8 | 0xC9 => Jump4,
        0xCB..=0xFD => Undefined,
        _ => None,
    }
}
