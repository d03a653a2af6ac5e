//! What a run covered: model states and transitions (hashed), traces, outcomes, samples.
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
pub type Set = HashSet<u64, BuildHasherDefault<Ident>>;

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = (a.rotate_left(23) ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ x >> 32
}

pub struct Stats {
    pub states: Set,
    pub transitions: Set,
    cache: Vec<u64>,
    cur: u64,
    /// steps of the model, all executions
    pub steps: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub max_payload: usize,
    pub distinct: Set,
    pub phases: BTreeMap<String, u64>,
    pub phase: &'static str,
}

/// Distinct behaviours are recorded up to this number per shard.
const DISTINCT_CAP: usize = 200_000;

impl Stats {
    pub fn new() -> Stats {
        Stats {
            states: Set::default(),
            transitions: Set::default(),
            cache: vec![0; 1 << 14],
            cur: 0,
            steps: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            samples: Vec::new(),
            max_payload: 0,
            distinct: Set::default(),
            phases: BTreeMap::new(),
            phase: "",
        }
    }
    /// The model starts a new execution.
    #[inline]
    pub fn start(&mut self) {
        self.cur = 1;
    }
    /// The model moves to `state`.
    #[inline]
    pub fn step(&mut self, state: u64) {
        self.steps += 1;
        let t = mix(self.cur, state);
        self.cur = state;
        let slot = &mut self.cache[(t >> 50) as usize];
        if *slot != t {
            *slot = t;
            self.transitions.insert(t);
            self.states.insert(state);
        }
    }
    pub fn outcome(&mut self, name: &str) {
        if let Some(n) = self.outcomes.get_mut(name) {
            *n += 1;
        } else {
            self.outcomes.insert(name.to_owned(), 1);
        }
    }
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(h);
        }
    }
}
