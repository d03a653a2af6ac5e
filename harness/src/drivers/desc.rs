//! C26, C27, C28: type and method descriptors.
//! The model is a grammar over the whole string (no character loop): leading brackets are counted,
//! a name ends at the first ';', a method descriptor is a sequence of such pieces.
use super::Driver;
use crate::explore::{explore, Ch};
use crate::sink::Sink;
use crate::stats::{mix, Stats};
use jbcrs::{Error, MethodDescriptor, Type, TypeDescriptor};

pub const DRIVERS: &[Driver] = &[
    Driver { id: "C26", run: run_type, explore: types },
    Driver { id: "C27", run: run_method, explore: methods },
    Driver { id: "C28", run: run_round, explore: rounds },
];

// ---------------------------------------------------------------- model

#[derive(Clone, PartialEq, Debug)]
struct T {
    dims: usize,
    /// the primitive's letter, or 'L'
    tag: char,
    name: String,
}
#[derive(Clone, PartialEq, Debug)]
struct M {
    params: Vec<T>,
    ret: Option<T>,
}

const PRIMITIVES: &str = "ZBSIJFDC";

fn state(kind: u64, a: usize, b: usize) -> u64 {
    mix(mix(0xD5C + kind, a as u64), b as u64)
}

/// A type at the front of `s`, and what follows it.
fn piece<'a>(s: &'a str, pos: usize, st: &mut Stats) -> Option<(T, &'a str)> {
    let rest = s.trim_start_matches('[');
    let dims = s.len() - rest.len();
    st.step(state(1, dims.min(300), pos.min(300)));
    if dims > 255 {
        return None;
    }
    let tag = rest.chars().next()?;
    let after = &rest[tag.len_utf8()..];
    st.step(state(2, PRIMITIVES.find(tag).map_or(20 + (tag == 'L') as usize, |k| k), dims));
    if PRIMITIVES.contains(tag) {
        return Some((T { dims, tag, name: String::new() }, after));
    }
    if tag != 'L' {
        return None;
    }
    let end = after.find(';')?;
    st.step(state(3, end.min(20), dims));
    if end == 0 {
        return None;
    }
    Some((T { dims, tag, name: after[..end].to_owned() }, &after[end + 1..]))
}

fn model_type(s: &str, st: &mut Stats) -> Option<T> {
    st.start();
    let (t, rest) = piece(s, 0, st)?;
    st.step(state(4, rest.len().min(3), 0));
    if rest.is_empty() {
        Some(t)
    } else {
        None
    }
}

fn model_method(s: &str, st: &mut Stats) -> Option<M> {
    st.start();
    let mut rest = s.strip_prefix('(')?;
    let mut params = Vec::new();
    loop {
        st.step(state(5, params.len().min(300), 0));
        if let Some(r) = rest.strip_prefix(')') {
            rest = r;
            break;
        }
        let (t, r) = piece(rest, params.len() + 1, st)?;
        params.push(t);
        rest = r;
    }
    st.step(state(6, params.len().min(300), 0));
    if params.len() > 255 {
        return None;
    }
    if rest == "V" {
        return Some(M { params, ret: None });
    }
    let (t, r) = piece(rest, 0, st)?;
    st.step(state(7, r.len().min(3), 0));
    if r.is_empty() {
        Some(M { params, ret: Some(t) })
    } else {
        None
    }
}

fn print_type(t: &T, out: &mut String) {
    for _ in 0..t.dims {
        out.push('[');
    }
    out.push(t.tag);
    if t.tag == 'L' {
        out.push_str(&t.name);
        out.push(';');
    }
}
fn print_method(m: &M, out: &mut String) {
    out.push('(');
    for p in &m.params {
        print_type(p, out);
    }
    out.push(')');
    match m.ret {
        Some(ref t) => print_type(t, out),
        None => out.push('V'),
    }
}

// ---------------------------------------------------------------- comparison

fn same_type(t: &T, d: &TypeDescriptor) -> bool {
    usize::from(d.dimensions) == t.dims
        && match (&d.base_type, t.tag) {
            (Type::Boolean, 'Z')
            | (Type::Byte, 'B')
            | (Type::Short, 'S')
            | (Type::Int, 'I')
            | (Type::Long, 'J')
            | (Type::Float, 'F')
            | (Type::Double, 'D')
            | (Type::Char, 'C') => true,
            (Type::Reference(n), 'L') => *n == t.name,
            _ => false,
        }
}
fn same_method(m: &M, d: &MethodDescriptor) -> bool {
    m.params.len() == d.params.len()
        && m.params.iter().zip(&d.params).all(|(a, b)| same_type(a, b))
        && match (&m.ret, &d.return_type) {
            (None, None) => true,
            (Some(a), Some(b)) => same_type(a, b),
            _ => false,
        }
}

fn same_error(s: &str, e: &Error) -> Result<(), String> {
    match *e {
        Error::InvalidDescriptor { ref desc, at } => {
            if desc != s {
                Err(format!("the error carries {:?}", cut(desc)))
            } else if at > s.len() {
                Err(format!("the error's position is {}, the string has {} bytes", at, s.len()))
            } else {
                Ok(())
            }
        }
        ref e => Err(format!("rejected with {:?}", e)),
    }
}

fn cut(s: &str) -> String {
    if s.chars().count() > 60 {
        let head: String = s.chars().take(40).collect();
        format!("{}.. ({} bytes)", head, s.len())
    } else {
        s.to_owned()
    }
}

fn text(p: &[u8]) -> &str {
    std::str::from_utf8(p).expect("harness: text")
}

fn run_type(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let s = text(p);
    let want = model_type(s, st);
    st.outcome(if want.is_some() { "type" } else { "not a type" });
    match (&want, s.parse::<TypeDescriptor>()) {
        (Some(t), Ok(d)) => {
            if same_type(t, &d) {
                Ok(())
            } else {
                Err(format!("{:?} parses to {:?}", cut(s), cut(&format!("{:?}", d))))
            }
        }
        (None, Err(e)) => same_error(s, &e).map_err(|m| format!("{:?}: {}", cut(s), m)),
        (Some(_), Err(e)) => Err(format!("{:?} is rejected with {:?}", cut(s), cut(&format!("{:?}", e)))),
        (None, Ok(d)) => Err(format!("{:?} is accepted as {:?}", cut(s), cut(&format!("{:?}", d)))),
    }
}

fn run_method(p: &[u8], st: &mut Stats) -> Result<(), String> {
    let s = text(p);
    let want = model_method(s, st);
    st.outcome(if want.is_some() { "method" } else { "not a method" });
    match (&want, s.parse::<MethodDescriptor>()) {
        (Some(t), Ok(d)) => {
            if same_method(t, &d) {
                Ok(())
            } else {
                Err(format!("{:?} parses to {}", cut(s), cut(&format!("{:?}", d))))
            }
        }
        (None, Err(e)) => same_error(s, &e).map_err(|m| format!("{:?}: {}", cut(s), m)),
        (Some(_), Err(e)) => Err(format!("{:?} is rejected with {}", cut(s), cut(&format!("{:?}", e)))),
        (None, Ok(d)) => Err(format!("{:?} is accepted as {}", cut(s), cut(&format!("{:?}", d)))),
    }
}

// ---------------------------------------------------------------- round trips

/// 0: parse a type and print it; 1: the same for a method; 2: build a type, print and parse it;
/// 3: the same for a method. 2 and 3 carry a recipe.
fn run_round(p: &[u8], st: &mut Stats) -> Result<(), String> {
    match p[0] {
        0 => {
            let s = text(&p[1..]);
            model_type(s, st);
            if let Ok(d) = s.parse::<TypeDescriptor>() {
                st.outcome("type, parsed and printed");
                let out = d.to_string();
                if out != s {
                    return Err(format!("{:?} prints as {:?}", cut(s), cut(&out)));
                }
            }
            Ok(())
        }
        1 => {
            let s = text(&p[1..]);
            model_method(s, st);
            if let Ok(d) = s.parse::<MethodDescriptor>() {
                st.outcome("method, parsed and printed");
                let out = d.to_string();
                if out != s {
                    return Err(format!("{:?} prints as {:?}", cut(s), cut(&out)));
                }
            }
            Ok(())
        }
        2 => {
            let m = recipe(&p[1..]);
            let t = m.ret.as_ref().expect("harness: recipe");
            let mut want = String::new();
            print_type(t, &mut want);
            model_type(&want, st);
            st.outcome("type, built, printed and parsed");
            let d = real_type(t);
            let s = d.to_string();
            let again = s.parse::<TypeDescriptor>().map_err(|e| format!("{:?} printed as {:?} fails with {:?}", t, s, e))?;
            if again != d || !same_type(t, &again) {
                return Err(format!("{:?} printed as {:?} parses to {:?}", t, s, again));
            }
            if s != want {
                return Err(format!("{:?} prints as {:?}", want, s));
            }
            Ok(())
        }
        _ => {
            let m = recipe(&p[1..]);
            let mut want = String::new();
            print_method(&m, &mut want);
            model_method(&want, st);
            st.outcome("method, built, printed and parsed");
            let d = MethodDescriptor::new(m.params.iter().map(real_type).collect(), m.ret.as_ref().map(real_type));
            let s = d.to_string();
            let again = match s.parse::<MethodDescriptor>() {
                Ok(x) => x,
                // no method takes more than 255 parameters, so the text may be refused
                Err(_) if m.params.len() > 255 && s == want => return Ok(()),
                Err(e) => return Err(format!("{} printed as {:?} fails with {}", cut(&want), cut(&s), cut(&format!("{:?}", e)))),
            };
            if again != d || !same_method(&m, &again) {
                return Err(format!("{:?} printed as {:?} parses to {}", cut(&want), cut(&s), cut(&format!("{:?}", again))));
            }
            if s != want {
                return Err(format!("{:?} prints as {:?}", cut(&want), cut(&s)));
            }
            Ok(())
        }
    }
}

fn real_type(t: &T) -> TypeDescriptor {
    TypeDescriptor::new(
        t.dims as u8,
        match t.tag {
            'Z' => Type::Boolean,
            'B' => Type::Byte,
            'S' => Type::Short,
            'I' => Type::Int,
            'J' => Type::Long,
            'F' => Type::Float,
            'D' => Type::Double,
            'C' => Type::Char,
            _ => Type::Reference(t.name.clone()),
        },
    )
}

fn encode_type(t: &T, out: &mut Vec<u8>) {
    out.push(t.dims as u8);
    out.push(t.tag as u8);
    out.extend((t.name.len() as u32).to_le_bytes());
    out.extend_from_slice(t.name.as_bytes());
}
fn encode(mode: u8, m: &M) -> Vec<u8> {
    let mut o = vec![mode, m.ret.is_some() as u8];
    for t in m.ret.iter().chain(&m.params) {
        encode_type(t, &mut o);
    }
    o
}
fn recipe(mut p: &[u8]) -> M {
    let has_ret = p[0] == 1;
    p = &p[1..];
    let mut all = Vec::new();
    while !p.is_empty() {
        let n = u32::from_le_bytes(p[2..6].try_into().unwrap()) as usize;
        all.push(T { dims: p[0].into(), tag: p[1].into(), name: text(&p[6..6 + n]).to_owned() });
        p = &p[6 + n..];
    }
    let ret = if has_ret { Some(all.remove(0)) } else { None };
    M { params: all, ret }
}

// ---------------------------------------------------------------- exploration

const TYPE_LETTERS: &[char] = &['[', 'L', ';', 'I', 'J', 'Z', 'V', '/', '(', ')', 'a', '\u{e9}', '\0', '\u{1F600}'];
const METHOD_LETTERS: &[char] = &['(', ')', 'V', '[', 'L', ';', 'I', 'D', 'a', '\u{20AC}'];

/// All strings over `letters` of at most `max` letters, between `pre` and `post`.
fn strings(s: &mut Sink, name: &'static str, head: &[u8], pre: &str, letters: &[char], max: usize, post: &str) {
    s.phase(name);
    let mut idx: Vec<usize> = Vec::new();
    for len in 0..=max {
        idx.clear();
        idx.resize(len, 0);
        loop {
            // dealt out by the first two letters
            let key = idx.iter().take(2).fold(len, |a, &b| a * letters.len() + b);
            if key % s.nshards == s.shard {
                let mut p = head.to_vec();
                let mut buf = [0; 4];
                p.extend_from_slice(pre.as_bytes());
                for &k in &idx {
                    p.extend_from_slice(letters[k].encode_utf8(&mut buf).as_bytes());
                }
                p.extend_from_slice(post.as_bytes());
                if !s.case(&p) {
                    return;
                }
            }
            let mut k = len;
            while k > 0 {
                k -= 1;
                idx[k] += 1;
                if idx[k] < letters.len() {
                    break;
                }
                idx[k] = 0;
                if k == 0 {
                    k = usize::MAX;
                    break;
                }
            }
            if len == 0 || k == usize::MAX {
                break;
            }
        }
    }
}

/// Every scalar value in every template (`\u{1}` marks its place).
fn scalars(s: &mut Sink, name: &'static str, head: &[u8], templates: &[&str]) {
    s.phase(name);
    for c in '\0'..=char::MAX {
        if !s.mine() {
            continue;
        }
        let mut buf = [0; 4];
        let e = c.encode_utf8(&mut buf).as_bytes().to_vec();
        for t in templates {
            let mut p = head.to_vec();
            for &b in t.as_bytes() {
                if b == 1 {
                    p.extend_from_slice(&e);
                } else {
                    p.push(b);
                }
            }
            if !s.case(&p) {
                return;
            }
        }
    }
}

fn one(s: &mut Sink, head: &[u8], text: &str) -> bool {
    if !s.mine() {
        return true;
    }
    let mut p = head.to_vec();
    p.extend_from_slice(text.as_bytes());
    s.case(&p)
}

/// Numbers of dimensions or parameters.
fn counts(s: &Sink) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if s.thorough { 1100 } else { 530 }).collect();
    v.extend([1023, 1024, 1025, 4096, 65534, 65535, 65536, 65537, 65790, 65791, 65792, 131072, 131073]);
    v.sort_unstable();
    v.dedup();
    v
}

const TAILS: &[&str] = &[
    "", "Z", "B", "S", "I", "J", "F", "D", "C", "V", "L", ";", "La", "La;", "L;", "L;;", "La;;", "La;I", "II", "I[", "La;[", "La[;",
    "L[;", "LL;", "L/;", "L(I)V;", "(I)V", "()V", "\0", "\u{e9}", "L\u{e9};", "L\u{1F600};", "Ljava/lang/String;", "I ", " I",
    "Ljava/lang/String; ", "l", "i", "LI", "I;", "V;", "T", "A",
];

fn lengths(s: &Sink) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if s.thorough { 2100 } else { 520 }).collect();
    v.extend([1023, 1024, 1025, 4095, 4096, 4097, 65533, 65534, 65535, 65536, 65537, 100_000, 1_000_000]);
    v.sort_unstable();
    v.dedup();
    v
}

fn type_space(s: &mut Sink, head: &[u8], cut: usize) {
    let depth = if s.thorough { 7 } else { 6 } - cut;
    strings(s, "all strings over 14 letters", head, "", TYPE_LETTERS, depth, "");
    strings(s, "all names over 14 letters", head, "[L", TYPE_LETTERS, depth - 1, ";");
    scalars(s, "every character", head, &["\u{1}", "[\u{1}", "L\u{1};", "L\u{1}\u{1};", "La\u{1};", "I\u{1}", "\u{1}I", "\u{1}La;", "La;\u{1}", "L;\u{1}", "La\u{1}"]);
    s.phase("dimensions");
    for n in counts(s) {
        let pre = "[".repeat(n);
        for t in TAILS {
            if !one(s, head, &format!("{}{}", pre, t)) {
                return;
            }
        }
    }
    s.phase("name lengths");
    for n in lengths(s) {
        for (unit, dims) in [("x", 0), ("\u{e9}", 0), ("\u{1F600}", 3), ("[", 1), ("L", 255), ("/", 2), ("I", 0)] {
            let name = unit.repeat(n);
            for post in [";", "", ";;", ";I"] {
                if !one(s, head, &format!("{}L{}{}", "[".repeat(dims), name, post)) {
                    return;
                }
            }
        }
    }
}

/// Names that mean something, with letters before, after and in between.
fn known(s: &mut Sink, head: &[u8], frames: &[(&str, &str)]) {
    s.phase("names that mean something");
    let affixes = ["", "/", ".", "[", "L", "(", ")", " ", "\0", "\u{e9}", "\u{FEFF}", "\u{1F600}", "$", "<", ">", "-", "1", "V", "I"];
    for w in super::pool::KNOWN {
        for a in affixes {
            for (n, name) in [format!("{}{}", a, w), format!("{}{}", w, a), format!("{}{}{}", w, a, w), format!("{}{}{}", a, w, a)].iter().enumerate() {
                if n > 0 && a.is_empty() && n != 2 {
                    continue;
                }
                for (pre, post) in frames {
                    for text in [format!("{}L{};{}", pre, name, post), format!("{}{}{}", pre, name, post)] {
                        if !one(s, head, &text) {
                            return;
                        }
                    }
                }
            }
        }
    }
}

/// Every well-formed descriptor out of some, and each with one character more, less, another, twice,
/// or two swapped, at every place; with the rest left out.
fn edits(s: &mut Sink, head: &[u8], of: &[String]) {
    s.phase("descriptors with one change");
    const MORE: [char; 24] = [
        '[', 'L', ';', '(', ')', 'V', 'I', 'J', 'Z', 'a', '/', '.', ' ', '\0', '<', '>', ',', ':', '\u{e9}', '\u{1F600}', '\n', 'T', '-', '*',
    ];
    for d in of {
        if !s.mine() {
            continue;
        }
        let c: Vec<char> = d.chars().collect();
        let text = |v: &[char]| v.iter().collect::<String>();
        if !raw(s, head, d) {
            return;
        }
        for at in 0..=c.len() {
            for m in MORE {
                let mut v = c.clone();
                v.insert(at, m);
                if !raw(s, head, &text(&v)) {
                    return;
                }
                if at < c.len() {
                    v.remove(at + 1);
                    if !raw(s, head, &text(&v)) {
                        return;
                    }
                }
            }
            if !raw(s, head, &text(&c[..at])) || !raw(s, head, &text(&c[at..])) {
                return;
            }
            if at < c.len() {
                let mut v = c.clone();
                v.insert(at, c[at]);
                if !raw(s, head, &text(&v)) {
                    return;
                }
                v.remove(at);
                v.remove(at);
                if !raw(s, head, &text(&v)) {
                    return;
                }
                if at + 1 < c.len() {
                    let mut v = c.clone();
                    v.swap(at, at + 1);
                    if !raw(s, head, &text(&v)) {
                        return;
                    }
                }
            }
        }
    }
}
fn raw(s: &mut Sink, head: &[u8], t: &str) -> bool {
    let mut p = head.to_vec();
    p.extend_from_slice(t.as_bytes());
    s.case(&p)
}
fn some_types() -> Vec<String> {
    let mut v = Vec::new();
    for d in ["", "[", "[[", "[[["] {
        for t in ["I", "Z", "D", "C", "La;", "Lab/cd;", "LI;", "L[;", "LV;", "Ljava/lang/String;", "L\u{e9};"] {
            v.push(format!("{}{}", d, t));
        }
    }
    v.push(format!("{}I", "[".repeat(254)));
    v.push(format!("{}La;", "[".repeat(255)));
    v
}
fn some_methods() -> Vec<String> {
    let mut v = Vec::new();
    let params = ["I", "J", "La;", "[I", "[Lb;", "[[D"];
    for n in 0..=5usize {
        for k in 0..params.len().pow(n.min(3) as u32) {
            for (j, r) in ["V", "I", "La;", "[I", "[La;", "[[Lb/c;"].iter().enumerate() {
                if n == 3 && (k + j) % 4 != 0 || n > 3 && (k + j) % 9 != 0 {
                    continue;
                }
                let mut x = k;
                let mut t = String::from("(");
                for _ in 0..n {
                    t.push_str(params[x % params.len()]);
                    x = x / params.len() + if n > 3 { x } else { 0 };
                }
                v.push(format!("{}){}", t, r));
            }
        }
    }
    for n in [10, 30, 254, 255] {
        for (p, r) in [("I", "V"), ("J", "[La;"), ("La;", "I"), ("[D", "La;")] {
            v.push(format!("({}){}", p.repeat(n), r));
        }
    }
    v
}

fn types(s: &mut Sink) {
    edits(s, &[], &some_types());
    known(s, &[], &[("", ""), ("[", ""), ("[[", ""), ("", ";"), ("", "I")]);
    type_space(s, &[], 0);
}

/// Pieces from which longer method descriptors are put together.
fn tokens() -> Vec<String> {
    let mut v: Vec<String> = ["I", "J", "D", "[I", "[[J", "La;", "[La;", "L\u{e9}/x;", "Z", "V", "[V", "L;", ")", "(", "[", "L", ";", "a", "[[Ljava/lang/Object;"]
        .iter()
        .map(|s| (*s).to_owned())
        .collect();
    v.push(format!("{}I", "[".repeat(255)));
    v.push(format!("{}La;", "[".repeat(255)));
    v.push(format!("{}I", "[".repeat(256)));
    v.push(format!("{}La;", "[".repeat(256)));
    v
}
const RETURNS: &[&str] = &["V", "I", "[J", "La;", "[[La;", "", "VV", "IV", "VI", "L;", "[V", "[", "La", ")V", "La;;", "V)", "(V", "V ", "II"];

fn method_space(s: &mut Sink, head: &[u8], cut: usize) {
    let depth = if s.thorough { 8 } else { 7 } - cut;
    strings(s, "all strings over 10 letters", head, "", METHOD_LETTERS, depth - 1, "");
    strings(s, "all parameter lists over 10 letters", head, "(", METHOD_LETTERS, depth - 1, ")V");
    strings(s, "all strings after '('", head, "(", METHOD_LETTERS, depth - 1, "");
    strings(s, "all returns over 10 letters", head, "([IJ)", METHOD_LETTERS, depth - 2, "");
    scalars(s, "every character", head, &["(\u{1})V", "()\u{1}", "(L\u{1};)V", "()L\u{1};", "\u{1})V", "()V\u{1}", "()I\u{1}", "(I\u{1})V", "([\u{1})V", "(\u{1}", "(I\u{1}", "(La;\u{1}I)J", "()[\u{1}", "()La;\u{1}"]);

    edits(s, head, &some_methods());

    s.phase("sequences of pieces");
    let tk = tokens();
    let (shard, n) = (s.shard, s.nshards);
    let max = if s.thorough { 4 } else { 3 } - cut.min(1);
    let rets: Vec<String> = RETURNS.iter().map(|r| (*r).to_owned()).chain([format!("{}I", "[".repeat(255)), format!("{}La;", "[".repeat(256))]).collect();
    explore(
        0,
        3,
        shard,
        n,
        |c: &mut Ch| {
            let k = c.upto(max);
            let mut t = String::from("(");
            for _ in 0..k {
                t.push_str(&tk[c.free(tk.len())]);
            }
            t.push(')');
            t.push_str(&rets[c.free(rets.len())]);
            let mut p = head.to_vec();
            p.extend_from_slice(t.as_bytes());
            p
        },
        |p| s.case(&p),
    );

    s.phase("parameter counts");
    for n in counts(s) {
        for unit in ["I", "J", "D", "La;", "[I", "[[La;", "IJ", "L\u{e9}b;Z"] {
            for ret in ["V", "I", "[La;", "", "VV"] {
                if !one(s, head, &format!("({}){}", unit.repeat(n), ret)) {
                    return;
                }
            }
        }
        if !one(s, head, &format!("({}", "I".repeat(n))) || !one(s, head, &format!("{})V", "(".repeat(n))) || !one(s, head, &format!("({}V", ")".repeat(n))) {
            return;
        }
    }
    s.phase("dimensions by place");
    for n in counts(s) {
        let d = "[".repeat(n);
        for t in ["I", "La;", "V", "", "L;", "I)", ")", ";"] {
            for (pre, post) in [("(", ")V"), ("(I", ")V"), ("([I", "I)V"), ("(La;", "[J)I"), ("()", ""), ("(I)", ""), ("([[I)", ""), ("(II", "II)[I")] {
                if !one(s, head, &format!("{}{}{}{}", pre, d, t, post)) {
                    return;
                }
            }
        }
    }
    s.phase("every type of every dimension at every place");
    let big = "J".repeat(120);
    for n in (0..=258usize).chain([511, 512, 65536]) {
        let d = "[".repeat(n);
        for x in ["Z", "B", "S", "I", "J", "F", "D", "C", "La;", "LI;"] {
            for before in ["I", "II", "III", "[J", "La;D", "[[ZLb;", "DDDD", &big] {
                for (after, ret) in [("", "V"), ("J", "I"), ("[I", "[J"), ("La;", "Lb;"), ("II", "V")] {
                    if n > 3 && n < 120 && (n + x.len() + before.len()) % 5 != 0 && !s.thorough {
                        continue;
                    }
                    if !one(s, head, &format!("({}{}{}{}){}", before, d, x, after, ret)) {
                        return;
                    }
                }
                if !one(s, head, &format!("({}){}{}", before, d, x)) {
                    return;
                }
            }
        }
    }
    s.phase("dimensions in two places");
    for a in [0usize, 1, 127, 128, 254, 255, 256] {
        for b in [0usize, 1, 127, 128, 254, 255, 256] {
            for c in [0usize, 1, 128, 255, 256] {
                for (x, y, z) in [("I", "J", "D"), ("La;", "I", "Lb;"), ("I", "Lb;", "La;"), ("La;", "Lb;", "Z")] {
                    if !one(s, head, &format!("({}{}{}{}){}{}", "[".repeat(a), x, "[".repeat(b), y, "[".repeat(c), z)) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("two types of many dimensions");
    let sizes = [0usize, 1, 2, 64, 127, 128, 200, 253, 254, 255, 256];
    let ones = ["I", "J", "La;", "Lb;", "D"];
    let mut kinds: Vec<String> = Vec::new();
    for &d in &sizes {
        for (k, x) in ones.iter().enumerate() {
            if k < 3 || d == 0 || d > 253 {
                kinds.push(format!("{}{}", "[".repeat(d), x));
            }
        }
    }
    for x in &kinds {
        for y in &kinds {
            for text in [format!("({}{})V", x, y), format!("({}){}", x, y), format!("({}{}){}", x, y, x), format!("({}{}){}", x, y, y), format!("({}{}{})V", x, x, y), format!("({}{}{})I", x, y, x), format!("({}{}{}){}", x, y, y, y)] {
                if !one(s, head, &text) {
                    return;
                }
            }
        }
    }
    s.phase("a type of many dimensions after many parameters");
    for n in [0usize, 1, 2, 3, 4, 5, 31, 32, 63, 64, 100, 127, 128, 199, 200, 201, 252, 253, 254, 255, 256] {
        for u in ["I", "J", "La;", "[I", "[[Lb;"] {
            for (k, x) in kinds.iter().enumerate() {
                let all = u.repeat(n);
                for (j, text) in [format!("({}{})V", all, x), format!("({}{}){}", all, x, x), format!("({}){}", all, x), format!("({}{}){}", x, all, x), format!("({}{}){}", x, all, u), format!("({}{}{})V", x, all, x)].iter().enumerate() {
                    if (s.thorough || (k + j + n) % 3 == 0 || u == "I") && !one(s, head, text) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("name lengths");
    for n in lengths(s) {
        for unit in ["x", "\u{e9}", "(", ")", "V", "["] {
            let name = unit.repeat(n);
            for (pre, post) in [("(L", ";)V"), ("()L", ";"), ("(IL", ";I)J"), ("(L", ")V"), ("()L", "")] {
                if !one(s, head, &format!("{}{}{}", pre, name, post)) {
                    return;
                }
            }
        }
    }
}

fn methods(s: &mut Sink) {
    known(s, &[], &[("(", ")V"), ("()", ""), ("(I", "[J)I"), ("(La;", ")[La;"), ("([J)[", ""), ("([[", "J)V")]);
    method_space(s, &[], 0);
}

fn t(dims: usize, tag: char, name: &str) -> T {
    T { dims, tag, name: name.to_owned() }
}

fn built(s: &mut Sink, mode: u8, m: &M) -> bool {
    if !s.mine() {
        return true;
    }
    s.case(&encode(mode, m))
}

fn rounds(s: &mut Sink) {
    s.phase("built types: dimensions");
    let names = ["a", "java/lang/Object", "L", "[", "[[I", ")", "(I)V", "\u{e9}", "\u{1F600}", "\0", " ", "V", "I", "a.b", "\n", "LL", "x\u{301}"];
    for dims in 0..=255 {
        for tag in PRIMITIVES.chars() {
            if !built(s, 2, &M { params: vec![], ret: Some(t(dims, tag, "")) }) {
                return;
            }
        }
        for n in names {
            if !built(s, 2, &M { params: vec![], ret: Some(t(dims, 'L', n)) }) {
                return;
            }
        }
    }
    s.phase("built types: every character");
    for c in '\0'..=char::MAX {
        if c == ';' || !s.mine() {
            continue;
        }
        for n in [format!("{}", c), format!("{}a", c), format!("a{}", c), format!("{}{}", c, c)] {
            if !s.case(&encode(2, &M { params: vec![], ret: Some(t(0, 'L', &n)) })) || !s.case(&encode(3, &M { params: vec![t(1, 'L', &n), t(0, 'L', &n)], ret: Some(t(2, 'L', &n)) })) {
                return;
            }
        }
    }
    s.phase("built types: names that mean something");
    for w in super::pool::KNOWN.iter().filter(|w| !w.contains(';')) {
        for dims in [0, 1, 2, 3, 127, 128, 254, 255] {
            for v in super::pool::KNOWN.iter().filter(|w| !w.contains(';')) {
                let (x, y) = (t(dims, 'L', w), t(dims % 3, 'L', v));
                if w == v && !built(s, 2, &M { params: vec![], ret: Some(x.clone()) }) {
                    return;
                }
                for m in [M { params: vec![x.clone(), y.clone()], ret: None }, M { params: vec![t(0, 'I', ""), y.clone()], ret: Some(x.clone()) }] {
                    if !built(s, 3, &m) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("built types: name lengths");
    for n in lengths(s) {
        if n > 0 {
            for unit in ["x", "[", "\u{e9}", "\u{1F600}"] {
                for dims in [0, 1, 255] {
                    let x = t(dims, 'L', &unit.repeat(n));
                    if !built(s, 2, &M { params: vec![], ret: Some(x.clone()) }) || !built(s, 3, &M { params: vec![x.clone()], ret: None }) || !built(s, 3, &M { params: vec![t(0, 'I', "")], ret: Some(x) }) {
                        return;
                    }
                }
            }
        }
    }
    s.phase("built methods: sequences of types");
    let menu: Vec<T> = {
        let mut v = Vec::new();
        for d in [0, 1, 2, 254, 255] {
            for c in PRIMITIVES.chars() {
                v.push(t(d, c, ""));
            }
            for n in ["a", "[I", ")", "\u{1F600}"] {
                v.push(t(d, 'L', n));
            }
        }
        v
    };
    let small: Vec<T> = menu.iter().filter(|x| x.dims < 2 || x.tag == 'L').cloned().collect();
    let (shard, n) = (s.shard, s.nshards);
    let max = if s.thorough { 3 } else { 2 };
    explore(
        0,
        3,
        shard,
        n,
        |c: &mut Ch| {
            let k = c.upto(max);
            let m = if k < 2 { &menu } else { &small };
            let params = (0..k).map(|_| m[c.free(m.len())].clone()).collect();
            let r = c.free(m.len() + 1);
            encode(3, &M { params, ret: if r == 0 { None } else { Some(m[r - 1].clone()) } })
        },
        |p| s.case(&p),
    );
    s.phase("built methods: return and parameters");
    let some: Vec<T> = [0usize, 1, 2, 127, 128, 200, 254, 255].iter().flat_map(|d| [t(*d, 'I', ""), t(*d, 'J', ""), t(*d, 'L', "a"), t(*d, 'L', "java/lang/String")]).collect();
    for n in [1usize, 2, 3, 4, 63, 64, 127, 128, 199, 200, 201, 253, 254, 255, 256] {
        for (i, x) in some.iter().enumerate() {
            for (j, y) in some.iter().enumerate() {
                if n * x.dims > 30_000 && !s.thorough && (i + j) % 4 != 0 {
                    continue;
                }
                // all alike but one, which the return is like or is not
                for at in [0, n / 2, n - 1] {
                    let mut params = vec![x.clone(); n];
                    params[at] = y.clone();
                    for ret in [Some(y.clone()), Some(x.clone()), None] {
                        if (at == 0 || n > 1) && !built(s, 3, &M { params: params.clone(), ret }) {
                            return;
                        }
                    }
                }
            }
        }
    }
    s.phase("built methods: parameter counts");
    for n in counts(s) {
        for (j, x) in menu.iter().enumerate() {
            for ret in [None, Some(x.clone())] {
                if x.dims > 2 && n % 5 != 0 || n > 300 && (j + n) % 7 != 0 || n > 5000 && j % 11 != 0 || n * x.dims > 5_000_000 {
                    continue;
                }
                if !built(s, 3, &M { params: vec![x.clone(); n], ret }) {
                    return;
                }
            }
        }
    }
    type_space(s, &[0], 1);
    method_space(s, &[1], 1);
}
