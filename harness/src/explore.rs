//! Stateless explorer: runs a nondeterministic driver over all its choice sequences, depth first.
//! `free(n)` is a full product choice; `dev(n)` is a deviation-bounded choice (alternative 0 is the
//! default and costs nothing, every other alternative costs one unit of the budget).

struct Point {
    choice: u32,
    n: u32,
    weighted: bool,
}

pub struct Ch {
    trail: Vec<Point>,
    pos: usize,
    budget: u32,
    spent: u32,
}

impl Ch {
    fn new(budget: u32) -> Ch {
        Ch { trail: Vec::new(), pos: 0, budget, spent: 0 }
    }
    fn choose(&mut self, n: usize, weighted: bool) -> usize {
        assert!(n > 0);
        if self.pos < self.trail.len() {
            let p = &self.trail[self.pos];
            // divergence while replaying a prefix is a hard error
            assert!(
                p.n == n as u32 && p.weighted == weighted,
                "explorer: driver diverged while replaying a prefix"
            );
            self.pos += 1;
            if p.weighted && p.choice > 0 {
                self.spent += 1;
            }
            p.choice as usize
        } else {
            self.trail.push(Point { choice: 0, n: n as u32, weighted });
            self.pos += 1;
            0
        }
    }
    /// One of `n` alternatives, all explored.
    pub fn free(&mut self, n: usize) -> usize {
        self.choose(n, false)
    }
    /// One of `n` alternatives; all but the first cost one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        self.choose(n, true)
    }
    pub fn flag(&mut self) -> bool {
        self.free(2) == 1
    }
    /// Number of elements of a list: 0..=max, all explored.
    pub fn upto(&mut self, max: usize) -> usize {
        self.free(max + 1)
    }
    pub fn of<T: Copy>(&mut self, items: &[T]) -> T {
        items[self.free(items.len())]
    }
    /// The default, or, as a deviation, one of the menu.
    pub fn or<T: Copy>(&mut self, default: T, menu: &[T]) -> T {
        match self.dev(menu.len() + 1) {
            0 => default,
            k => menu[k - 1],
        }
    }
}

/// Explores all choice sequences of `gen` with at most `budget` deviations; `run` gets the result of
/// every execution of this shard, and returns false to stop. Subtrees rooted at depth `split` are
/// dealt out to the shards in turn. Returns (executions of this shard, choice points taken).
pub fn explore<T>(
    budget: u32,
    split: usize,
    shard: usize,
    nshards: usize,
    mut gen: impl FnMut(&mut Ch) -> T,
    mut run: impl FnMut(T) -> bool,
) -> u64 {
    let mut ch = Ch::new(budget);
    let mut executions = 0;
    let mut subtree = 0usize;
    loop {
        ch.pos = 0;
        ch.spent = 0;
        let out = gen(&mut ch);
        assert!(ch.pos == ch.trail.len(), "explorer: driver took fewer choices than on its prefix");
        let mine = subtree % nshards == shard;
        let key = split.min(ch.trail.len());
        if mine {
            executions += 1;
            if !run(out) {
                return executions;
            }
        } else {
            ch.trail.truncate(key);
            ch.spent = ch.trail.iter().filter(|p| p.weighted && p.choice > 0).count() as u32;
        }
        // backtrack
        loop {
            let depth = ch.trail.len();
            match ch.trail.last_mut() {
                None => return executions,
                Some(p) => {
                    let was_dev = p.weighted && p.choice > 0;
                    let others = ch.spent - was_dev as u32;
                    if p.choice + 1 < p.n && (!p.weighted || others < ch.budget) {
                        p.choice += 1;
                        if p.weighted && !was_dev {
                            ch.spent += 1;
                        }
                        if depth <= split {
                            subtree += 1;
                        }
                        break;
                    }
                    if was_dev {
                        ch.spent -= 1;
                    }
                    ch.trail.pop();
                }
            }
        }
    }
}
