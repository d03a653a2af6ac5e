//! Drivers: one per property, what is explored and what is compared.
use crate::sink::{RunFn, Sink};

pub mod attrs;
pub mod code;
pub mod corpus;
pub mod cp;
pub mod desc;
pub mod limits;
pub mod pool;
pub mod pure;
pub mod robust;
pub mod work;

pub struct Driver {
    pub id: &'static str,
    pub run: RunFn,
    pub explore: fn(&mut Sink),
}

pub fn find(id: &str) -> Option<&'static Driver> {
    [attrs::DRIVERS, code::DRIVERS, cp::DRIVERS, desc::DRIVERS, limits::DRIVERS, pool::DRIVERS, pure::DRIVERS, robust::DRIVERS, work::DRIVERS]
        .iter()
        .flat_map(|d| d.iter())
        .find(|d| d.id == id)
}
