//! Modified UTF-8 (JVMS 4.4.7), as a table-driven two-stage decoder: bytes to UTF-16 code units, code
//! units to scalar values. Deliberately structured differently from a one-pass decoder.

/// Returns the text, or `None` if the bytes are not the modified UTF-8 form of a text.
/// Sets `overlong` if a code unit uses a longer form than necessary.
pub fn decode(bytes: &[u8], overlong: &mut bool) -> Option<String> {
    let mut units: Vec<u16> = Vec::with_capacity(bytes.len());
    let mut k = 0;
    while k < bytes.len() {
        let x = bytes[k];
        let need = match x >> 4 {
            0 if x == 0 => return None,
            0..=7 => 0,
            12 | 13 => 1,
            14 => 2,
            _ => return None,
        };
        let cont = bytes.get(k + 1..k + 1 + need)?;
        if cont.iter().any(|c| c >> 6 != 0b10) {
            return None;
        }
        let unit = match need {
            0 => u16::from(x),
            1 => u16::from(x & 0x1F) * 64 + u16::from(cont[0] & 0x3F),
            _ => u16::from(x & 0x0F) * 4096 + u16::from(cont[0] & 0x3F) * 64 + u16::from(cont[1] & 0x3F),
        };
        let longest = match unit {
            0 => 1,
            1..=0x7F => 0,
            0x80..=0x7FF => 1,
            _ => 2,
        };
        if need > longest {
            *overlong = true;
        }
        units.push(unit);
        k += 1 + need;
    }
    let mut out = String::with_capacity(units.len());
    let mut k = 0;
    while k < units.len() {
        let u = u32::from(units[k]);
        k += 1;
        let c = match u {
            0xD800..=0xDBFF => {
                let l = u32::from(*units.get(k)?);
                if !(0xDC00..=0xDFFF).contains(&l) {
                    return None;
                }
                k += 1;
                0x10000 + (u - 0xD800) * 1024 + (l - 0xDC00)
            }
            0xDC00..=0xDFFF => return None,
            _ => u,
        };
        out.push(char::from_u32(c).expect("a scalar value"));
    }
    Some(out)
}

pub fn encode(s: &str, out: &mut Vec<u8>) {
    let mut buf = [0u16; 2];
    for c in s.chars() {
        for &u in c.encode_utf16(&mut buf).iter() {
            match u {
                0x01..=0x7F => out.push(u as u8),
                0 | 0x80..=0x7FF => {
                    out.push(0xC0 | (u >> 6) as u8);
                    out.push(0x80 | (u & 0x3F) as u8);
                }
                _ => {
                    out.push(0xE0 | (u >> 12) as u8);
                    out.push(0x80 | (u >> 6 & 0x3F) as u8);
                    out.push(0x80 | (u & 0x3F) as u8);
                }
            }
        }
    }
}
