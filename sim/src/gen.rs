//! Generates plans from seeds. The same seed and profile give the same plan.

use crate::comps::{K_U, K_X};
use crate::exec::{set_index, tab};
use crate::plan::*;
use crate::tables::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n.max(1)
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// True in about `p` of 100 cases.
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
    fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = (self.next() >> 8) % total.max(1);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        0
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93));
    r.next();
    r.next()
}

/// What the search for violations of one property leans towards; percentages.
struct Lean {
    threads: usize,
    par: usize,
    layouts: usize,
    wide: usize,
    faults: usize,
    jump: usize,
    many: usize,
    boost: &'static [(K, u32)],
    only: &'static [K],
}

fn lean(prop: &str) -> Lean {
    let base = Lean {
        threads: 15,
        par: 10,
        layouts: 60,
        wide: 4,
        faults: 15,
        jump: 0,
        many: 10,
        boost: &[],
        only: &[],
    };
    use K::*;
    match prop {
        "C01" => Lean {
            threads: 55,
            layouts: 30,
            jump: 12,
            boost: &[(Atomic, 5), (Destroy, 3), (Maintain, 3), (DestroyMany, 3), (Churn, 2), (Clear, 4), (VersionJump, 2)],
            ..base
        },
        "C02" => Lean {
            threads: 55,
            layouts: 30,
            jump: 3,
            boost: &[(Atomic, 6), (Maintain, 5), (Destroy, 2), (Clear, 4), (Reset, 3), (HasEntity, 2), (Entities, 3)],
            ..base
        },
        "C03" => Lean {
            jump: 3,
            boost: &[(Destroy, 3), (QueryOne, 2), (Hold, 2), (DestroyMany, 2), (Contains, 2), (Churn, 2), (VersionJump, 1)],
            ..base
        },
        "C04" => Lean { boost: &[(Insert, 2), (Remove, 2), (Hold, 2)], ..base },
        "C05" => Lean { threads: 10, par: 10, layouts: 70, boost: &[(Query, 4), (QueryOne, 2), (Contains, 2)], ..base },
        "C06" => Lean {
            layouts: 97,
            wide: 8,
            faults: 10,
            boost: &[(Insert, 2), (Remove, 2), (Delete, 2), (Destroy, 2), (SetLayout, 4), (Query, 2), (Audit, 2)],
            ..base
        },
        "C07" => Lean {
            layouts: 100,
            wide: 22,
            faults: 8,
            boost: &[(Query, 4), (SetLayout, 2), (Insert, 2)],
            ..base
        },
        "C08" => Lean { par: 100, threads: 20, many: 40, faults: 20, boost: &[(Query, 5), (Extend, 3)], ..base },
        "C09" => Lean { threads: 60, par: 20, faults: 30, boost: &[(Hold, 8), (Query, 3), (QueryOne, 3), (Contains, 3)], ..base },
        "C10" => Lean {
            threads: 5,
            faults: 30,
            boost: &[(NewWorld, 5), (Clear, 3), (Reset, 3), (Insert, 2), (Remove, 2), (Delete, 2), (Destroy, 2), (SetLayout, 2)],
            ..base
        },
        "C11" => Lean {
            faults: 100,
            par: 20,
            boost: &[(Insert, 2), (Delete, 3), (Destroy, 3), (Extend, 3), (Clear, 4), (Reset, 3), (NewWorld, 2), (Query, 2)],
            ..base
        },
        "C12" => Lean {
            threads: 100,
            par: 25,
            layouts: 40,
            faults: 10,
            boost: &[(Atomic, 5), (Query, 3), (QueryOne, 3), (Hold, 3), (HasEntity, 4), (Entities, 4), (Contains, 3), (IsRegistered, 3), (Maintain, 2)],
            ..base
        },
        "C13" => Lean {
            threads: 40,
            layouts: 30,
            faults: 8,
            jump: 75,
            boost: &[(Atomic, 4), (Churn, 2), (Extend, 3), (Destroy, 3), (VersionJump, 40), (Clear, 3), (Reset, 2), (Maintain, 2)],
            ..base
        },
        "C14" => Lean { jump: 2, boost: &[(Clear, 12), (Reset, 12), (Atomic, 3), (Destroy, 2), (Audit, 2)], ..base },
        "C15" => Lean {
            threads: 45,
            layouts: 25,
            jump: 4,
            boost: &[(Atomic, 5), (Destroy, 4), (DestroyMany, 4), (Churn, 3), (Maintain, 3), (Clear, 2), (Reset, 3), (VersionJump, 3)],
            ..base
        },
        "C16" => Lean {
            threads: 8,
            faults: 6,
            boost: &[(Cycle, 60), (Destroy, 2), (SetLayout, 2), (Atomic, 2), (Remove, 2)],
            ..base
        },
        "C17" => Lean {
            layouts: 100,
            wide: 12,
            boost: &[(SetLayout, 6), (NewWorld, 3), (Swap, 3), (Insert, 2), (Query, 2)],
            ..base
        },
        _ => base,
    }
}

pub fn strict_order(prop: &str) -> bool {
    matches!(prop, "C13" | "C14" | "C15")
}

fn base_weight(k: K) -> u32 {
    use K::*;
    match k {
        Create => 160,
        Extend => 40,
        Destroy => 70,
        Insert => 160,
        Remove => 70,
        Delete => 60,
        Maintain => 30,
        Clear => 8,
        Reset => 6,
        SetLayout => 16,
        Register => 8,
        NewWorld => 5,
        Swap => 3,
        DestroyMany => 10,
        Churn => 10,
        Jump => 0,
        VersionJump => 1,
        Cycle => 1,
        Audit => 10,
        Atomic => 50,
        HasEntity => 20,
        Entities => 10,
        Query => 130,
        QueryOne => 60,
        Contains => 25,
        Hold => 40,
        IsRegistered => 5,
        Yield => 4,
    }
}

const CHAINS: &[&[&str]] = &[
    &["AB"],
    &["AB", "ABC"],
    &["AB", "ABC", "ABCD"],
    &["AB", "ABCD"],
    &["ABC"],
    &["ABC", "ABCD"],
    &["ABCD"],
    &["CD"],
    &["AB", "CD"],
    &["DE"],
    &["DE", "DEF"],
    &["AB", "DE", "DEF"],
    &["AB", "ABC", "DE", "DEF"],
    &["AB", "CD", "EF", "GH"],
    &["EF", "EFGH"],
    &["EF", "EFG", "EFGH"],
    &["FG", "FGH"],
    &["CD", "CDEF"],
    &["AB", "ABC", "ABCD", "ABCDE", "ABCDEF"],
    &["AB", "ABC", "ABCD", "ABCDE", "ABCDEF", "ABCDEFG", "ABCDEFGH"],
    &["ABCD", "EFGH"],
    &["AD", "BC"],
    &["GH"],
    &["AC"],
];

fn letters(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b - b'A').collect()
}

fn gen_layout(r: &mut Rng) -> Layout {
    let mut l: Layout = match r.below(10) {
        0 => vec![],
        1..=6 => r.of(CHAINS).iter().map(|g| letters(g)).collect(),
        _ => {
            // Chains over a random permutation.
            let mut p: Vec<u8> = (0..8).collect();
            r.shuffle(&mut p);
            let mut l = vec![];
            let mut i = 0;
            while i + 1 < p.len() && !(i > 0 && r.pct(40)) {
                let n = 2 + r.below((p.len() - i - 1).min(4));
                let fam = &p[i..i + n.min(p.len() - i)];
                let mut k = 2;
                while k <= fam.len() {
                    if k == fam.len() || r.pct(60) {
                        l.push(fam[..k].to_vec());
                    }
                    k += 1;
                }
                i += fam.len();
            }
            l
        }
    };
    repeat_some(r, &mut l);
    for g in &mut l {
        r.shuffle(g);
    }
    r.shuffle(&mut l);
    l
}

/// Names components and groups more than once, and groups of one, which are none.
fn repeat_some(r: &mut Rng, l: &mut Layout) {
    if l.is_empty() || !r.pct(8) {
        return;
    }
    for _ in 0..r.range(1, 3) {
        let g = r.below(l.len());
        match r.below(3) {
            0 => {
                let k = *r.of(&l[g]);
                l[g].push(k);
            }
            1 => l.push(l[g].clone()),
            _ => {
                let k = *r.of(&l[g]);
                l.push(vec![k; 1 + r.below(2)]);
            }
        }
    }
}

/// Adds groups that may be unfit for the others.
fn spoil(r: &mut Rng, l: &mut Layout, wide: bool) {
    for _ in 0..r.range(1, 3) {
        let pool = |r: &mut Rng| if wide && r.pct(50) { K_X + r.below(24) as u8 } else { r.below(8) as u8 };
        let mut g: Vec<u8> = match r.below(8) {
            // Of two groups, or most of one and something else.
            0..=4 if l.len() >= 2 => {
                let (i, j) = (r.below(l.len()), r.below(l.len()));
                let (a, b) = (r.pct(50), if r.pct(50) { 100 } else { 50 });
                let mut g = l[i].clone();
                g.retain(|_| a || r.pct(60));
                g.extend(l[j].iter().filter(|_| r.pct(b)));
                g
            }
            5 if !l.is_empty() => {
                let mut g = r.of(l).clone();
                g.pop();
                g.push(pool(r));
                g
            }
            6 if wide => {
                let n = r.range(15, 19);
                (0..n as u8).map(|i| K_X + i).collect()
            }
            _ => (0..r.range(2, 5)).map(|_| pool(r)).collect(),
        };
        r.shuffle(&mut g);
        let at = if r.pct(70) { l.len() } else { r.below(l.len() + 1) };
        l.insert(at, g);
        let sets: std::collections::BTreeSet<Vec<u8>> = l.iter().zip(accepted(l)).filter(|x| x.1).map(|x| {
            let mut v = x.0.clone();
            v.sort();
            v.dedup();
            v
        }).collect();
        if sets.len() > 64 {
            l.remove(at);
        }
    }
}

fn wide_layout(r: &mut Rng) -> Layout {
    let x = |n: u8| -> Vec<u8> { (0..n).map(|i| K_X + i).collect() };
    let mut l: Layout = match r.below(5) {
        0 => vec![x(16)],
        1 => vec![x(15), x(16)],
        2 => vec![x(4), x(8)],
        3 => vec![x(4), x(8), x(15), x(16)],
        _ => (2..=16).filter(|n| r.pct(60) || *n == 16).map(x).collect(),
    };
    repeat_some(r, &mut l);
    for g in &mut l {
        r.shuffle(g);
    }
    r.shuffle(&mut l);
    l
}

fn pair_layout(r: &mut Rng) -> Layout {
    let n = if r.pct(60) { 64 } else { r.range(58, 64) as usize };
    let mut ps: Vec<u8> = (0..64).collect();
    r.shuffle(&mut ps);
    let mut l: Layout = ps[..n]
        .iter()
        .map(|p| {
            let mut v = vec![K_X + 2 * p, K_X + 2 * p + 1];
            r.shuffle(&mut v);
            v
        })
        .collect();
    if r.pct(60) {
        // Nested groups of A to H, somewhere among the pairs.
        let mut chain = *r.of(CHAINS);
        if chain.len() < 2 || r.pct(50) {
            chain = &["AB", "ABC", "ABCD"];
        }
        l.truncate(64 - chain.len());
        r.shuffle(&mut l);
        // Half of the time across the middle of the mask of groups.
        let at = if r.pct(60) { 32 - 1 - r.below(chain.len() - 1) } else { r.below(l.len() + 1) };
        l.splice(at..at, chain.iter().map(|g| letters(g)));
        return l;
    }
    r.shuffle(&mut l);
    l
}

pub const MODES: i64 = M_COUNT;

struct Gen<'a> {
    r: &'a mut Rng,
    sets: Vec<i64>,
    specs: Vec<i64>,
    par_specs: Vec<i64>,
    w: Vec<u32>,
    faults: usize,
    wild: usize,
    par: bool,
    layouts: usize,
    many: bool,
    slices: bool,
    kinds: Vec<u8>,
}

impl Gen<'_> {
    fn set(&mut self) -> i64 {
        if self.r.pct(4) {
            // The first sets are made of the kinds A to H.
            return self.r.below(52) as i64;
        }
        *self.r.of(&self.sets)
    }
    fn spec(&mut self) -> i64 {
        let n = tab().specs.len();
        if self.r.pct(4) || self.specs.is_empty() {
            return self.r.below(n) as i64;
        }
        *self.r.of(&self.specs)
    }
    fn sel(&mut self) -> i64 {
        self.r.below(1 << 10) as i64
    }
    fn alive(&mut self) -> i64 {
        let i = self.r.below(1 << 8) as i64 * 8;
        if self.r.pct(self.wild) {
            // Mostly dead ones; queued and made-up ones.
            i + *self.r.of(&[5, 5, 5, 6, 7])
        } else {
            // From the first, from the last, from all over.
            i + *self.r.of(&[0, 0, 0, 1, 2])
        }
    }
    fn drop_fault(&mut self) -> i64 {
        if self.r.pct(self.faults) {
            self.r.range(1, 3)
        } else {
            0
        }
    }
    fn mask(&mut self) -> i64 {
        let mut m = 0i64;
        for _ in 0..self.r.range(0, 3) {
            m |= 1 << *self.r.of(&self.kinds).min(&(K_U));
        }
        m & 0x1ff
    }
    fn op(&mut self, shared_only: bool, depth: usize) -> Op {
        let mut w = self.w.clone();
        if shared_only {
            for (k, _) in ALL {
                if !k.shared() {
                    w[*k as usize] = 0;
                }
            }
            w[K::Yield as usize] += 1;
        }
        let k = ALL[self.r.weighted(&w)].0;
        self.op_of(k, depth)
    }
    fn op_of(&mut self, k: K, depth: usize) -> Op {
        use K::*;
        let mut op = Op::new(k, &[]);
        match k {
            Create => op.a[0] = self.set(),
            Extend => {
                op.a[0] = self.set();
                op.a[1] = if self.many { self.r.range(0, 90) } else { self.r.range(0, 9) };
                if self.many && self.r.pct(8) {
                    op.a[1] = self.r.range(90, 400);
                }
                if self.r.pct(self.faults) {
                    op.a[2] = 1 + self.r.range(0, op.a[1]);
                }
                op.a[3] = self.r.range(0, 5);
            }
            Destroy => {
                op.a[0] = self.alive();
                op.a[1] = self.drop_fault();
            }
            Insert => {
                op.a[0] = self.alive();
                op.a[1] = self.set();
                op.a[2] = self.drop_fault();
            }
            Remove => {
                op.a[0] = self.alive();
                op.a[1] = self.set();
            }
            Delete => {
                op.a[0] = self.alive();
                op.a[1] = self.set();
                op.a[2] = self.drop_fault();
            }
            Clear | Reset => op.a[0] = self.drop_fault() * self.r.range(1, 3),
            SetLayout => {
                op.a[0] = self.r.below(self.layouts.max(1)) as i64;
                if self.r.pct(3) {
                    op.a[1] = self.r.range(1, 7);
                }
            }
            Register => {
                op.a[0] = self.r.below(8) as i64;
                op.a[1] = self.r.below(2) as i64;
            }
            Swap => op.a[0] = self.r.below(self.layouts.max(1)) as i64,
            NewWorld => {
                op.a[0] = self.r.below(self.layouts.max(1)) as i64;
                op.a[1] = self.drop_fault();
            }
            DestroyMany => {
                op.a[0] = self.sel();
                op.a[1] = if self.many { self.r.range(1, 60) } else { self.r.range(1, 8) };
            }
            Churn => {
                op.a[0] = self.r.range(1, if self.many { 20 } else { 6 });
                op.a[1] = self.set();
            }
            Jump => {
                op.a[0] = self.r.range(0, 6);
                op.a[1] = self.r.range(0, 4);
            }
            VersionJump => {
                op.a[0] = self.r.range(0, 3);
                if self.r.pct(30) {
                    op.a[1] = self.r.range(1, 3);
                }
            }
            Cycle => {
                op.a[0] = *self.r.of(&[1, 2, 4, 8, 16, 16, 32, 33, 64, 5, 6, 24, 128]) | self.r.below(256) as i64 & self.r.below(256) as i64;
                op.a[1] = self.set();
                op.a[2] = self.r.range(1, 9);
                op.a[3] = self.r.below(self.layouts.max(1)) as i64;
                op.a[4] = self.spec();
            }
            Atomic => op.a[0] = if self.r.pct(15) { self.r.range(2, 20) } else { self.r.range(1, 3) },
            HasEntity => op.a[0] = self.sel(),
            Query => {
                let par = self.par && self.r.pct(60) && !self.par_specs.is_empty();
                op.a[0] = if par { *self.r.of(&self.par_specs) } else { self.spec() };
                op.a[1] = if par {
                    self.r.range(M_PAR, M_PAR_PICK)
                } else if self.slices && self.r.pct(50) {
                    M_SLICE
                } else {
                    self.r.range(0, M_WORLD)
                };
                op.a[2] = if op.a[1] == M_PAR_PICK { self.r.range(0, 95) } else { self.r.range(0, 5) };
                op.a[3] = self.r.pct(60) as i64;
                if self.r.pct(self.faults) {
                    op.a[4] = self.r.range(1, 6);
                }
                op.a[5] = self.r.below(2) as i64;
                if depth < 2 && self.r.pct(20) {
                    for _ in 0..self.r.range(1, 3) {
                        op.sub.push(self.op(true, depth + 1));
                    }
                }
            }
            QueryOne => {
                op.a[0] = self.spec();
                op.a[1] = self.sel();
                op.a[2] = self.r.below(2) as i64;
                op.a[3] = self.r.pct(50) as i64;
                if self.r.pct(self.faults) {
                    op.a[4] = 1;
                }
                op.a[5] = self.r.below(2) as i64;
                if depth < 2 && self.r.pct(20) {
                    op.sub.push(self.op(true, depth + 1));
                }
            }
            Contains => {
                op.a[0] = self.spec();
                op.a[1] = self.sel();
            }
            Hold => {
                op.a[0] = self.mask();
                op.a[1] = self.mask();
                if self.r.pct(50) {
                    op.a[1] &= !op.a[0];
                }
                op.a[2] = self.r.range(0, 127);
                op.a[3] = self.r.pct(self.faults / 2) as i64;
                if depth < 2 && self.r.pct(45) {
                    for _ in 0..self.r.range(1, 3) {
                        op.sub.push(self.op(true, depth + 1));
                    }
                }
            }
            IsRegistered => op.a[0] = if self.r.pct(80) { self.r.range(0, 8) } else { self.r.range(16, 143) },
            _ => (),
        }
        op
    }
}

fn kinds_of(s: &SpecVt) -> Vec<u8> {
    s.get.iter().chain(&s.inc).chain(&s.exc).filter(|d| d.mode != Mode::Ent).map(|d| d.kind).collect()
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut rng = Rng(mix(seed, 0x51a7));
    let r = &mut rng;
    let l = lean(prop);
    let t = tab();
    let mut plan = Plan::default();

    // Shape.
    let many = r.pct(l.many);
    let mut callers = if r.pct(l.threads) { 2 + r.below(3) } else { 1 };
    let par = r.pct(l.par);
    plan.workers = if par { 1 + r.below(4) } else { 0 };
    if par && callers == 1 && r.pct(10) {
        plan.workers = 0;
    }
    if r.pct(60) && callers == 4 {
        callers = 3;
    }
    plan.builder = r.pct(40);
    plan.blind = r.pct(match prop {
        "C10" => 30,
        "C11" => 8,
        _ => 0,
    });
    let wide = r.pct(l.wide);
    let pairs = wide && r.pct(35);

    // Layouts.
    let n = 1 + r.below(4);
    for i in 0..n {
        plan.layouts.push(if wide && (i == 0 || r.pct(40)) {
            if pairs {
                pair_layout(r)
            } else {
                wide_layout(r)
            }
        } else if r.pct(l.layouts) {
            gen_layout(r)
        } else {
            vec![]
        });
    }
    if r.pct(30) && n > 1 {
        plan.layouts.swap(0, n - 1);
    }
    for i in 0..n {
        if !plan.layouts[i].is_empty() && r.pct(if prop == "C17" { 80 } else { 6 }) {
            spoil(r, &mut plan.layouts[i], wide);
        }
    }

    // Kinds the run is about.
    let mut kinds: Vec<u8> = if wide {
        plan.layouts.iter().flatten().flatten().copied().filter(|k| *k >= K_X || pairs).collect()
    } else {
        let mut v: Vec<u8> = plan.layouts[0].iter().flatten().copied().collect();
        if r.pct(30) {
            v.retain(|_| r.pct(60));
        }
        for _ in 0..r.range(1, 3) {
            v.push(r.below(8) as u8);
        }
        if r.pct(25) {
            v = (0..8).collect();
        }
        v
    };
    if wide && r.pct(30) {
        kinds.extend([0, 1]);
    }
    kinds.sort();
    kinds.dedup();
    plan.registered = (0..8).collect();
    if r.pct(15) {
        plan.registered.retain(|_| r.pct(75));
    }
    if wide {
        let mut x = kinds.clone();
        x.retain(|k| *k >= K_X);
        if r.pct(50) {
            plan.registered.extend(x);
        }
    }
    if r.pct(2) {
        plan.registered.clear();
    }
    if r.pct(50) {
        r.shuffle(&mut plan.registered);
    }

    let inside = |v: &[u8]| v.iter().all(|k| kinds.contains(k) || *k == K_U);
    let mut sets: Vec<i64> = (0..t.sets.len())
        .filter(|i| {
            let s = &t.set_kinds[*i];
            inside(s) && !s.contains(&K_U)
        })
        .map(|i| i as i64)
        .collect();
    if pairs {
        // Only some of the many pairs, so that they meet.
        r.shuffle(&mut sets);
        let of_pair = |i: &i64| t.set_kinds[*i as usize].iter().any(|k| *k >= K_X);
        let mut chain: Vec<i64> = sets.iter().copied().filter(|i| !of_pair(i)).collect();
        sets.retain(of_pair);
        sets.truncate(if chain.is_empty() || r.pct(50) { 24 } else { 6 });
        chain.truncate(20);
        sets.extend(chain);
        sets.push(0);
    } else {
        // A few sets twice as often, and each single one.
        for _ in 0..3 {
            let x = *r.of(&sets);
            sets.push(x);
            sets.push(x);
        }
    }
    let specs: Vec<i64> = (0..t.specs.len())
        .filter(|i| {
            let k = kinds_of(&t.specs[*i]);
            inside(&k) && (!k.contains(&K_U) || r.pct(10))
        })
        .map(|i| i as i64)
        .collect();
    let par_specs: Vec<i64> = {
        let v: Vec<i64> = specs.iter().copied().filter(|i| t.specs[*i as usize].par.is_some()).collect();
        if v.is_empty() {
            (0..t.specs.len()).filter(|i| t.specs[*i].par.is_some()).map(|i| i as i64).collect()
        } else {
            v
        }
    };

    // Weights.
    let mut w: Vec<u32> = ALL.iter().map(|(k, _)| base_weight(*k)).collect();
    for (i, x) in w.iter_mut().enumerate() {
        match r.below(6) {
            0 if !matches!(ALL[i].0, K::Create | K::Insert) => *x /= 8,
            1 => *x *= 3,
            _ => (),
        }
    }
    for (k, f) in l.boost {
        if r.pct(85) {
            w[*k as usize] *= f;
        }
    }
    let _ = l.only;

    let faults = if r.pct(l.faults) { *r.of(&[8, 20, 40]) } else { 0 };
    let mid = r.pct(4);
    let wild = *r.of(if prop == "C03" { &[8, 30, 50] } else { &[2, 6, 10, 40] });
    let jump = r.pct(l.jump) || mid;
    let slices = prop == "C07" || r.pct(10);
    let mut g = Gen {
        r,
        sets,
        specs,
        par_specs,
        w,
        faults,
        wild,
        par: plan.workers > 0 || par,
        layouts: plan.layouts.len(),
        many,
        slices,
        kinds: kinds.iter().copied().filter(|k| *k < 9).chain([0, 1]).collect(),
    };
    // Few operations on very many entities.
    let bulk = if callers == 1 && !wide && g.r.pct(2) { 1 + g.r.pct(6) as usize } else { 0 };
    let mut len = match g.r.below(10) {
        _ if bulk > 0 => g.r.range(2, 7),
        0..=2 => g.r.range(3, 10),
        3..=7 => g.r.range(8, 30),
        _ if g.r.pct(8) => g.r.range(70, 250),
        _ => g.r.range(25, 70),
    } as usize;
    if callers > 1 {
        len = 3 + len / callers.max(2);
    }
    for c in 0..callers {
        let mut ops = vec![];
        if c == 0 {
            // Something to work with.
            for _ in 0..g.r.range(0, 5) {
                let k = *g.r.of(&[K::Create, K::Extend, K::Create]);
                let o = g.op_of(k, 0);
                ops.push(o);
            }
            if many || prop == "C08" {
                let mut o = g.op_of(K::Extend, 0);
                o.a[1] = g.r.range(5, 120);
                o.a[2] = 0;
                ops.push(o);
            }
        }
        if bulk > 0 {
            let mut o = g.op_of(K::Extend, 0);
            o.a[1] = if bulk == 1 { g.r.range(400, 4500) } else { g.r.range(65_500, 65_600) };
            o.a[2] = 0;
            while bulk == 2 && tab().set_kinds[set_index(o.a[0])].len() > 3 {
                o.a[0] = g.r.below(1 << 20) as i64;
            }
            let n = o.a[1];
            let again = o.clone();
            let group = plan.layouts[0].iter().find(|g| g.len() < 4 && g.iter().all(|k| *k < K_X)).cloned();
            let with = |g: &mut Gen, f: &dyn Fn(&[u8]) -> bool| {
                let v: Vec<usize> = (0..tab().sets.len()).filter(|i| f(&tab().set_kinds[*i])).collect();
                (!v.is_empty()).then(|| v[g.r.below(v.len())] as i64)
            };
            let mut joins = vec![];
            if let Some(group) = group.filter(|_| g.r.pct(50)) {
                // Many entities in a group, more behind them that lack some of its
                // components, and a few of those that get them.
                let lack = *g.r.of(&group);
                let all = with(&mut g, &|s| s.len() < 5 && !s.contains(&K_U) && group.iter().all(|k| s.contains(k)));
                let part = with(&mut g, &|s| {
                    s.len() < 4 && !s.contains(&lack) && !s.contains(&K_U) && s.iter().any(|k| group.contains(k))
                });
                let rest = with(&mut g, &|s| s.len() < 4 && s.contains(&lack) && !s.contains(&K_U));
                if let (Some(all), Some(part), Some(rest)) = (all, part, rest) {
                    let m = g.r.range(300, 4500);
                    ops.push(Op::new(K::Extend, &[all, m]));
                    o.a[0] = part;
                    for _ in 0..g.r.range(2, 5) {
                        let e = g.r.below(1 << 8) as i64 * 8 + *g.r.of(&[1, 1, 2]);
                        joins.push(Op::new(K::Insert, &[e, rest]));
                    }
                }
            }
            ops.push(o);
            ops.extend(joins);
            if bulk == 1 && g.r.pct(50) {
                // Many indices that wait to be used again.
                let mut o = g.op_of(K::DestroyMany, 0);
                o.a[1] = g.r.range(n / 2, n);
                ops.push(o);
                if g.r.pct(30) {
                    let m = g.r.range(200, 4500);
                    ops.push(Op::new(K::Atomic, &[m]));
                    if g.r.pct(60) {
                        ops.push(Op::new(K::Maintain, &[]));
                    }
                }
                ops.push(again);
            }
        }
        for _ in 0..len {
            let o = g.op(false, 0);
            ops.push(o);
        }
        if jump && c == 0 {
            let at = g.r.below(ops.len());
            let mut o = g.op_of(K::Jump, 0);
            if mid {
                o.a[2] = g.r.range(1, 3);
            }
            ops.insert(at, o);
        }
        plan.threads.push(ops);
    }

    // The scheduler.
    let p = &mut plan.params;
    p.seed = mix(seed, 0xdec1);
    p.strategy = *g.r.of(&[0, 0, 0, 0, 1, 1, 1, 2, 3, 3]);
    p.stay = *g.r.of(&[0, 64, 128, 192, 230, 250]);
    p.plain_rate = *g.r.of(&[0, 0, 400, 100, 30, 8]);
    if bulk > 0 {
        p.plain_rate = if bulk == 1 { 400 } else { 0 };
    }
    p.stale = *g.r.of(&[0, 40, 128, 220]);
    p.race = 1;
    p.step_cap = if bulk == 2 { 200_000_000 } else { 20_000_000 };
    plan
}
