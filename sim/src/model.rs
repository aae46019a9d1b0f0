//! The reference model: what the world has to look like.

use sparsey::entity::{Entity, Version};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::num::NonZeroU32;

/// A handle: index in the upper half, version in the lower.
pub type H = u64;

pub fn key(e: Entity) -> H {
    (e.index as u64) << 32 | e.version.0.get() as u64
}
pub fn ent(h: H) -> Entity {
    Entity::new((h >> 32) as u32, Version(NonZeroU32::new(h as u32).unwrap()))
}
pub fn idx(h: H) -> u64 {
    h >> 32
}
pub fn hname(h: H) -> String {
    format!("{}v{}", h >> 32, h as u32)
}

pub type Comps = BTreeMap<u8, (u32, u8)>;
pub const LIMIT: u64 = 1 << 32;
/// Sparse storages of larger indices do not fit into memory.
pub const HUGE: u64 = 1 << 22;

#[derive(Default)]
pub struct Model {
    pub alive: BTreeMap<H, Comps>,
    /// Which entity holds a component value, by token.
    pub owner: Vec<H>,
    pub issued: BTreeSet<H>,
    pub dead: Vec<H>,
    pub fifo: VecDeque<H>,
    pub next_fresh: u64,
    pub pending: Vec<H>,
    pub registered: BTreeSet<u8>,
    /// Groups of the layout in force.
    pub groups: Vec<BTreeSet<u8>>,
    pub layout: usize,
}

impl Model {
    pub fn recycle(&mut self, h: H) {
        if h as u32 != u32::MAX {
            self.fifo.push_back(h + 1);
        }
    }
    pub fn capacity(&self) -> u64 {
        self.fifo.len() as u64 + (LIMIT - self.next_fresh)
    }
    /// The n-th handle to be handed out next.
    pub fn nth_next(&self, n: usize) -> Option<H> {
        if n < self.fifo.len() {
            return Some(self.fifo[n]);
        }
        let i = self.next_fresh + (n - self.fifo.len()) as u64;
        (i < LIMIT).then_some(i << 32 | 1)
    }
    pub fn take_next(&mut self) -> Option<H> {
        if let Some(h) = self.fifo.pop_front() {
            return Some(h);
        }
        (self.next_fresh < LIMIT).then(|| {
            self.next_fresh += 1;
            (self.next_fresh - 1) << 32 | 1
        })
    }
    /// Accepts a handle other than the one that was due.
    pub fn take_other(&mut self, h: H) {
        if let Some(i) = self.fifo.iter().position(|x| *x == h) {
            self.fifo.remove(i);
        } else {
            self.next_fresh = self.next_fresh.max(idx(h) + 1).min(LIMIT);
        }
    }
    pub fn own(&mut self, tok: u32, h: H) {
        let i = tok as usize;
        if self.owner.len() <= i {
            self.owner.resize(i + 1, 0);
        }
        self.owner[i] = h;
    }
    pub fn owner_of(&self, tok: u32) -> Option<H> {
        self.owner.get(tok as usize).copied().filter(|h| *h != 0)
    }
    pub fn put(&mut self, h: H, kind: u8, tok: u32, val: u8) {
        if tok != 0 {
            self.own(tok, h);
        }
        self.alive.get_mut(&h).unwrap().insert(kind, (tok, val));
    }
    pub fn take(&mut self, h: H, kind: u8) -> Option<(u32, u8)> {
        let r = self.alive.get_mut(&h)?.remove(&kind);
        if let Some((t, _)) = r {
            self.disown(t);
        }
        r
    }
    pub fn disown(&mut self, tok: u32) {
        if tok != 0 {
            self.own(tok, 0);
        }
    }
    /// Removes the entity; returns its components.
    pub fn kill(&mut self, h: H) -> Comps {
        let c = self.alive.remove(&h).unwrap_or_default();
        for (t, _) in c.values() {
            self.disown(*t);
        }
        self.dead.push(h);
        c
    }
    /// A fingerprint of the state, up to the identity of values.
    pub fn fingerprint(&self) -> u64 {
        let mut x = 0xcbf2_9ce4_8422_2325u64;
        let mut mix = |v: u64| {
            x = (x ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            x ^= x >> 29;
        };
        for (h, c) in &self.alive {
            mix(*h);
            for k in c.keys() {
                mix(1000 + *k as u64);
            }
        }
        mix(2000);
        self.fifo.iter().for_each(|h| mix(*h));
        mix(3000);
        self.pending.iter().for_each(|h| mix(*h));
        mix(self.next_fresh);
        mix(self.registered.len() as u64);
        for g in &self.groups {
            mix(4000);
            g.iter().for_each(|k| mix(*k as u64));
        }
        x
    }
}
