//! What one simulated run does: its configuration, the operations of each caller
//! thread, and (in a replay file) the scheduler's decisions.

use crate::comps::{kname, K_U, K_X, NK};
use crate::rt::{Dec, Params};
use std::collections::BTreeSet;

macro_rules! ops {
    ($($v:ident $n:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum K { $($v),* }
        pub const ALL: &[(K, &str)] = &[$((K::$v, $n)),*];
    };
}

ops! {
    // Exclusive access.
    Create "create",            // set
    Extend "extend",            // set, count, faulty item + 1, size hint
    Destroy "destroy",          // entity, faulty destructor call
    Insert "insert",            // entity, set, faulty destructor call
    Remove "remove",            // entity, set
    Delete "delete",            // entity, set, faulty destructor call
    Maintain "maintain",
    Clear "clear",              // faulty destructor call
    Reset "reset",              // faulty destructor call
    SetLayout "set_layout",     // layout, groups too many
    Register "register",        // kind, typed
    NewWorld "new_world",       // layout, faulty destructor call
    Swap "swap_world",          // layout
    DestroyMany "destroy_many", // entity, count
    Churn "churn",              // count
    Jump "jump",                // indices left, destroyed entities awaiting reuse, end of the range or power of two
    VersionJump "version_jump", // versions left, end of the range or power of two
    Cycle "cycle",              // what to repeat, set, count, layout
    Audit "audit",
    // Shared access.
    Atomic "create_atomic",     // count
    HasEntity "contains_entity",// entity
    Entities "entities",
    Query "query_all",          // query, mode, k, mutate, faulty call + 1, flip
    QueryOne "query_one",       // query, entity, how, mutate, faulty, flip
    Contains "contains",        // query, entity
    Hold "hold",                // kinds shared, kinds exclusive, order, faulty
    IsRegistered "is_registered", // kind
    Yield "yield",
}

impl K {
    pub fn name(self) -> &'static str {
        ALL[self as usize].1
    }
    pub fn shared(self) -> bool {
        self >= K::Atomic
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub a: [i64; 6],
    pub sub: Vec<Op>,
}

impl Op {
    pub fn new(k: K, a: &[i64]) -> Op {
        let mut v = [0; 6];
        v[..a.len()].copy_from_slice(a);
        Op { k, a: v, sub: vec![] }
    }
    fn write(&self, out: &mut String, ind: usize) {
        out.push_str(&"  ".repeat(ind));
        out.push_str(self.k.name());
        let n = 6 - self.a.iter().rev().take_while(|x| **x == 0).count();
        for x in &self.a[..n] {
            out.push_str(&format!(" {x}"));
        }
        if self.sub.is_empty() {
            out.push('\n');
        } else {
            out.push_str(" {\n");
            for s in &self.sub {
                s.write(out, ind + 1);
            }
            out.push_str(&"  ".repeat(ind));
            out.push_str("}\n");
        }
    }
    pub fn size(&self) -> usize {
        1 + self.sub.iter().map(Op::size).sum::<usize>()
    }
    pub fn walk(&self, f: &mut dyn FnMut(&Op)) {
        f(self);
        self.sub.iter().for_each(|s| s.walk(f));
    }
}

pub type Layout = Vec<Vec<u8>>;

/// Which groups of a layout, declared in this order, have to be accepted: those with
/// which the groups accepted so far still form chains, each group containing the one
/// before, that share no components with one another.
pub fn accepted(l: &Layout) -> Vec<bool> {
    let mut chains: Vec<Vec<BTreeSet<u8>>> = vec![];
    l.iter()
        .map(|g| {
            let g: BTreeSet<u8> = g.iter().copied().collect();
            if g.len() < 2 {
                return true;
            }
            let near: Vec<usize> =
                (0..chains.len()).filter(|i| chains[*i].iter().any(|x| !x.is_disjoint(&g))).collect();
            if g.len() > MAX_ARITY || near.len() > 1 {
                return false;
            }
            let Some(i) = near.first() else {
                chains.push(vec![g]);
                return true;
            };
            let c = &mut chains[*i];
            let ok = c.iter().all(|x| x.is_subset(&g) || g.is_subset(x));
            if ok && !c.contains(&g) {
                c.push(g);
            }
            ok
        })
        .collect()
}
pub const MAX_ARITY: usize = 16;

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub params: Params,
    pub workers: usize,
    pub builder: bool,
    /// Looks at nothing but destructor calls, return values and memory.
    pub blind: bool,
    pub registered: Vec<u8>,
    pub layouts: Vec<Layout>,
    pub threads: Vec<Vec<Op>>,
}

pub fn kind_by_name(s: &str) -> Option<u8> {
    (0..NK as u8).find(|k| (*k < 9 || *k >= K_X) && kname(*k) == s)
}

fn kinds_text(v: &[u8]) -> String {
    v.iter().map(|k| kname(*k)).collect::<Vec<_>>().join(" ")
}

impl Plan {
    pub fn text(&self, decisions: &[Dec]) -> String {
        let p = &self.params;
        let mut s = String::new();
        s.push_str(&format!("seed {}\n", p.seed));
        s.push_str(&format!(
            "scheduler {} {} {} {} {} {}\n",
            p.strategy, p.stay, p.plain_rate, p.stale, p.race, p.step_cap
        ));
        s.push_str(&format!("workers {}\n", self.workers));
        s.push_str(&format!("builder {}\n", self.builder as u8));
        if self.blind {
            s.push_str("blind 1\n");
        }
        s.push_str(&format!("registered {}\n", kinds_text(&self.registered)));
        for l in &self.layouts {
            let g: Vec<_> = l.iter().map(|g| kinds_text(g)).collect();
            s.push_str(&format!("layout {}\n", g.join(" | ")));
        }
        for t in &self.threads {
            s.push_str("thread {\n");
            for o in t {
                o.write(&mut s, 1);
            }
            s.push_str("}\n");
        }
        s.push_str("decisions");
        for d in decisions {
            s.push_str(&format!(" {}:{}", d.pos, d.val));
        }
        s.push('\n');
        s
    }

    pub fn parse(text: &str) -> Result<(Plan, Vec<Dec>), String> {
        let mut plan = Plan::default();
        let mut decs = vec![];
        let mut lines = text.lines();
        fn ops(lines: &mut std::str::Lines) -> Result<Vec<Op>, String> {
            let mut v = vec![];
            loop {
                let l = lines.next().ok_or("unexpected end")?.trim();
                if l == "}" {
                    return Ok(v);
                }
                let mut w: Vec<&str> = l.split_whitespace().collect();
                let open = w.last() == Some(&"{");
                if open {
                    w.pop();
                }
                let k = ALL.iter().find(|(_, n)| *n == w[0]).ok_or(format!("operation {}", w[0]))?.0;
                let a: Result<Vec<i64>, _> = w[1..].iter().map(|x| x.parse::<i64>()).collect();
                let mut op = Op::new(k, &a.map_err(|e| e.to_string())?);
                if open {
                    op.sub = ops(lines)?;
                }
                v.push(op);
            }
        }
        let kinds = |s: &str| -> Result<Vec<u8>, String> {
            s.split_whitespace().map(|w| kind_by_name(w).ok_or(format!("kind {w}"))).collect()
        };
        while let Some(l) = lines.next() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (key, rest) = l.split_once(' ').unwrap_or((l, ""));
            let num = |i: usize| -> Result<u64, String> {
                rest.split_whitespace().nth(i).ok_or("missing")?.parse().map_err(|_| format!("number in {l}"))
            };
            match key {
                "seed" => plan.params.seed = num(0)?,
                "scheduler" => {
                    let p = &mut plan.params;
                    p.strategy = num(0)? as u32;
                    p.stay = num(1)? as u32;
                    p.plain_rate = num(2)? as u32;
                    p.stale = num(3)? as u32;
                    p.race = num(4)? as u32;
                    p.step_cap = num(5)?;
                }
                "workers" => plan.workers = num(0)? as usize,
                "blind" => plan.blind = num(0)? != 0,
                "builder" => plan.builder = num(0)? != 0,
                "registered" => plan.registered = kinds(rest)?,
                "layout" => {
                    let mut v = vec![];
                    if !rest.trim().is_empty() {
                        for g in rest.split('|') {
                            v.push(kinds(g)?);
                        }
                    }
                    plan.layouts.push(v);
                }
                "thread" => plan.threads.push(ops(&mut lines)?),
                "decisions" => {
                    for d in rest.split_whitespace() {
                        let (a, b) = d.split_once(':').ok_or("decision")?;
                        decs.push(Dec {
                            pos: a.parse().map_err(|_| "decision")?,
                            val: b.parse().map_err(|_| "decision")?,
                        });
                    }
                }
                _ => return Err(format!("line {l}")),
            }
        }
        Ok((plan, decs))
    }

    pub fn size(&self) -> usize {
        self.threads.iter().flatten().map(Op::size).sum()
    }

    pub fn any(&self, mut f: impl FnMut(&Op) -> bool) -> bool {
        let mut r = false;
        for o in self.threads.iter().flatten() {
            o.walk(&mut |o| r |= f(o));
        }
        r
    }
}

pub const BASE_KINDS: std::ops::Range<u8> = 0..8;
pub const UNREGISTERED: u8 = K_U;
