//! One trace of the format model compared with the implementation.
use crate::refdec::{PItem, Ref, Rej, Verdict};
use crate::sink::hash_stream;
use crate::stats::Stats;
use crate::stream::{diff, Stream};
use crate::view;
use jbcrs::basic::{self, Pool};
use jbcrs::Error;

#[derive(Copy, Clone, PartialEq)]
pub enum Errors {
    No,
    All,
    Undefined,
}

#[derive(Copy, Clone)]
pub struct Mode {
    /// compare the constant pool, index by index
    pub pool: bool,
    /// compare the class
    pub class: bool,
    /// compare the error (single-defect inputs only): not, always, or when an encoding is undefined
    pub error: Errors,
}
pub const CLASS: Mode = Mode { pool: false, class: true, error: Errors::No };
pub const POOL: Mode = Mode { pool: true, class: true, error: Errors::No };
pub const UNDEFINED: Mode = Mode { pool: false, class: false, error: Errors::Undefined };
pub const EXACT: Mode = Mode { pool: true, class: true, error: Errors::All };

pub fn rej_of(e: &Error) -> Option<Rej> {
    Some(match *e {
        Error::InvalidUTF8 => Rej::Utf8,
        Error::LimitExceeded => Rej::Limit,
        Error::NotAClass => Rej::NotAClass,
        Error::InvalidCPItem(i) => Rej::CpItem(i),
        Error::CPTooLarge => Rej::CpTooLarge,
        Error::InvalidInstruction { op_code, at } => Rej::Insn { op: op_code, at },
        Error::ReservedStackMapFrame(b) => Rej::Frame(b),
        Error::InvalidVerificationType(b) => Rej::Verif(b),
        Error::InvalidElementValue(b) => Rej::Elem(b),
        Error::InvalidTargetType => Rej::Target,
        Error::InvalidTypePath => Rej::Path,
        _ => return None,
    })
}

fn outcome_name(v: &Verdict) -> &'static str {
    match v {
        Verdict::Accept => "accept",
        Verdict::Either(_) => "accept-or-reject",
        Verdict::Any(_) => "unspecified",
        Verdict::Reject(r) => match r {
            Rej::Limit => "reject: end of data or boundary",
            Rej::NotAClass => "reject: not a class",
            Rej::Utf8 => "reject: invalid UTF-8",
            Rej::CpItem(_) => "reject: invalid constant",
            Rej::CpTooLarge => "reject: pool too large",
            Rej::Insn { .. } => "reject: invalid instruction",
            Rej::Frame(_) => "reject: reserved frame",
            Rej::Verif(_) => "reject: verification type",
            Rej::Elem(_) => "reject: element value",
            Rej::Target => "reject: target type",
            Rej::Path => "reject: type path",
        },
    }
}

pub fn check_pool(model: &[PItem], pool: &Pool) -> Result<(), String> {
    if usize::from(pool.len()) != model.len() {
        return Err(format!("pool length {}, expected {}", pool.len(), model.len()));
    }
    let top = model.len().min(65535);
    for i in 0..=top {
        check_index(model, pool, i as u16)?;
    }
    check_index(model, pool, top.min(65534) as u16 + 1)?;
    check_index(model, pool, 65535)
}

/// Lookup of one index against the model.
pub fn check_index(model: &[PItem], pool: &Pool, i: u16) -> Result<(), String> {
    let want = model.get(i as usize).unwrap_or(&PItem::Gap);
    match (pool.get(i), want) {
        (Ok(it), PItem::Gap) => Err(format!("index {} yields {:?}, expected an error", i, it)),
        (Ok(it), m) => {
            if view::same_item(it, m) {
                Ok(())
            } else {
                Err(format!("index {} yields {:?}, expected {:?}", i, it, m))
            }
        }
        (Err(Error::InvalidCPItem(k)), PItem::Gap) if k == i => Ok(()),
        (Err(e), PItem::Gap) => Err(format!("index {} fails with {:?}", i, e)),
        (Err(e), m) => Err(format!("index {} fails with {:?}, expected {:?}", i, e, m)),
    }
}

/// Runs the model and the implementation on `b` and compares.
pub fn conform(b: &[u8], mode: Mode, st: &mut Stats) -> Result<(), String> {
    let (verdict, mpool, mclass) = Ref::run(b, st);
    st.outcome(outcome_name(&verdict));
    let got = basic::parse(b);
    match (&verdict, got) {
        (Verdict::Any(_), _) => Ok(()),
        (Verdict::Accept, Err(e)) => Err(format!("well-formed input rejected with {:?}", e)),
        (Verdict::Either(_), Err(_)) => Ok(()),
        (Verdict::Accept, Ok((pool, class))) | (Verdict::Either(_), Ok((pool, class))) => {
            st.distinct(hash_stream(&mclass.0));
            if mode.pool {
                check_pool(&mpool, &pool)?;
            }
            if mode.class {
                let mut s = Stream::default();
                s.0.reserve(mclass.0.len());
                view::class(&class, &mut s);
                if s != mclass {
                    return Err(diff(&mclass, &s));
                }
            }
            Ok(())
        }
        (Verdict::Reject(r), Ok(_)) => Err(format!("accepted, expected rejection ({:?})", r)),
        (Verdict::Reject(r), Err(e)) => {
            let compare = match mode.error {
                Errors::No => false,
                Errors::All => true,
                Errors::Undefined => !matches!(r, Rej::Limit | Rej::Utf8 | Rej::NotAClass | Rej::CpTooLarge),
            };
            if compare && rej_of(&e).as_ref() != Some(r) {
                return Err(format!("rejected with {:?}, expected {:?}", e, r));
            }
            Ok(())
        }
    }
}
