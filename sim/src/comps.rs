//! Component types of many shapes, and the ledger of what became of each value.

use crate::rt::{self, harness};
use sparsey::component::ComponentData;

pub const NK: usize = 16 + 128;
pub const K_F: u8 = 5;
pub const K_G: u8 = 6;
pub const K_U: u8 = 8;
pub const K_X: u8 = 16;

pub fn kname(k: u8) -> String {
    if k < 16 {
        ((b'A' + if k == K_U { 20 } else { k }) as char).to_string()
    } else {
        format!("X{}", k - 16)
    }
}

/// What the harness can see of a component value: its token (the identity of the
/// value), its payload byte, and whether the rest of its bytes are intact.
pub type Val = (u32, u8, bool);

pub trait Comp: Send + Sync + Sized + 'static {
    const KIND: u8;
    fn make(tok: u32, val: u8) -> Self;
    fn get(&self) -> Val;
    fn set(&mut self, val: u8);
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TokState {
    Held,
    World,
    Dropped,
}

#[derive(Default)]
pub struct Ledger {
    pub toks: Vec<(u8, TokState)>,
    /// Components of the zero-sized kind: made, dropped.
    pub g_made: u64,
    pub g_dropped: u64,
    /// Drops since the log was last taken.
    pub log: Vec<(u8, u32)>,
    /// The destructor call that panics, counted down; 0 = none.
    pub countdown: i64,
    pub fired: u64,
    pub total_fired: u64,
}

pub static mut LEDGER: *mut Ledger = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn ledger() -> &'static mut Ledger {
    unsafe { &mut *LEDGER }
}

impl Ledger {
    pub fn new_tok(&mut self, kind: u8) -> u32 {
        if kind == K_G {
            self.g_made += 1;
            return 0;
        }
        self.toks.push((kind, TokState::Held));
        self.toks.len() as u32
    }
    pub fn state(&self, tok: u32) -> Option<(u8, TokState)> {
        self.toks.get((tok as usize).wrapping_sub(1)).copied()
    }
    pub fn set_state(&mut self, kind: u8, tok: u32, s: TokState) {
        if kind != K_G {
            self.toks[tok as usize - 1].1 = s;
        }
    }
    /// Returns whether the destructor has to panic.
    fn on_drop(&mut self, kind: u8, v: Val) -> bool {
        if kind == K_G {
            self.g_dropped += 1;
            if self.g_dropped > self.g_made {
                rt::fail("drop-twice", "more zero-sized components were dropped than made");
            }
        } else {
            match self.state(v.0) {
                Some((k, s)) if k == kind => {
                    if s == TokState::Dropped {
                        rt::fail("drop-twice", &format!("component {} #{} was dropped twice", kname(kind), v.0));
                    }
                    if !v.2 {
                        rt::fail("drop-garbage", &format!("component {} #{} was damaged when it was dropped", kname(kind), v.0));
                    }
                }
                _ => rt::fail(
                    "drop-garbage",
                    &format!("a destructor of {} ran on memory that holds no such component", kname(kind)),
                ),
            }
            self.set_state(kind, v.0, TokState::Dropped);
        }
        self.log.push((kind, v.0));
        if self.countdown > 0 {
            self.countdown -= 1;
            if self.countdown == 0 && !std::thread::panicking() {
                self.fired += 1;
                self.total_fired += 1;
                return true;
            }
        }
        false
    }
}

fn dropped<T: Comp>(t: &T) {
    let v = t.get();
    if harness(|| ledger().on_drop(T::KIND, v)) {
        rt::raise_fault();
    }
}

macro_rules! dropping {
    ($t:ty) => {
        impl Drop for $t {
            fn drop(&mut self) {
                dropped(self);
            }
        }
    };
}

#[derive(Debug)]
pub struct A {
    tok: u32,
    val: u8,
}
impl Comp for A {
    const KIND: u8 = 0;
    fn make(tok: u32, val: u8) -> Self {
        A { tok, val }
    }
    fn get(&self) -> Val {
        (self.tok, self.val, true)
    }
    fn set(&mut self, val: u8) {
        self.val = val
    }
}
dropping!(A);

#[derive(Debug)]
pub struct B(Box<(u32, u8)>);
impl Comp for B {
    const KIND: u8 = 1;
    fn make(tok: u32, val: u8) -> Self {
        B(Box::new((tok, val)))
    }
    fn get(&self) -> Val {
        (self.0 .0, self.0 .1, true)
    }
    fn set(&mut self, val: u8) {
        self.0 .1 = val
    }
}
dropping!(B);

#[derive(Debug)]
pub struct C([u8; 5]);
impl Comp for C {
    const KIND: u8 = 2;
    fn make(tok: u32, val: u8) -> Self {
        let t = tok.to_le_bytes();
        C([t[0], t[1], t[2], t[3], val])
    }
    fn get(&self) -> Val {
        let c = &self.0;
        (u32::from_le_bytes([c[0], c[1], c[2], c[3]]), c[4], true)
    }
    fn set(&mut self, val: u8) {
        self.0[4] = val
    }
}
dropping!(C);

#[derive(Debug)]
#[repr(align(32))]
pub struct D {
    val: u8,
    tok: u32,
}
impl Comp for D {
    const KIND: u8 = 3;
    fn make(tok: u32, val: u8) -> Self {
        D { tok, val }
    }
    fn get(&self) -> Val {
        (self.tok, self.val, (self as *const D as usize) % 32 == 0)
    }
    fn set(&mut self, val: u8) {
        self.val = val
    }
}
dropping!(D);

#[derive(Debug)]
pub struct E {
    head: u64,
    tok: u32,
    val: u8,
    pad: [u8; 3],
    tail: [u64; 3],
}
impl Comp for E {
    const KIND: u8 = 4;
    fn make(tok: u32, val: u8) -> Self {
        let t = tok as u64;
        E { head: t.wrapping_mul(0x9e37_79b9), tok, val, pad: [tok as u8; 3], tail: [!t, t ^ 0x55, t << 7] }
    }
    fn get(&self) -> Val {
        let t = self.tok as u64;
        let ok = self.head == t.wrapping_mul(0x9e37_79b9)
            && self.pad == [t as u8; 3]
            && self.tail == [!t, t ^ 0x55, t << 7];
        (self.tok, self.val, ok)
    }
    fn set(&mut self, val: u8) {
        self.val = val
    }
}
dropping!(E);

#[derive(Clone, Copy, Debug)]
pub struct F {
    tok: u32,
    val: u8,
}
impl Comp for F {
    const KIND: u8 = K_F;
    fn make(tok: u32, val: u8) -> Self {
        F { tok, val }
    }
    fn get(&self) -> Val {
        (self.tok, self.val, true)
    }
    fn set(&mut self, val: u8) {
        self.val = val
    }
}

#[derive(Debug)]
pub struct G;
impl Comp for G {
    const KIND: u8 = K_G;
    fn make(_: u32, _: u8) -> Self {
        G
    }
    fn get(&self) -> Val {
        (0, 0, true)
    }
    fn set(&mut self, _: u8) {}
}
dropping!(G);

#[derive(Debug)]
pub struct H {
    v: Vec<u8>,
    s: String,
}
impl Comp for H {
    const KIND: u8 = 7;
    fn make(tok: u32, val: u8) -> Self {
        let mut v = tok.to_le_bytes().to_vec();
        v.push(val);
        H { v, s: "x".repeat((tok % 7) as usize) }
    }
    fn get(&self) -> Val {
        if self.v.len() != 5 {
            return (0, 0, false);
        }
        let v = &self.v;
        let tok = u32::from_le_bytes([v[0], v[1], v[2], v[3]]);
        let ok = self.s.len() == (tok % 7) as usize && self.s.bytes().all(|b| b == b'x');
        (tok, v[4], ok)
    }
    fn set(&mut self, val: u8) {
        self.v[4] = val
    }
}
dropping!(H);

/// Never registered.
#[derive(Debug)]
pub struct U(u32, u8);
impl Comp for U {
    const KIND: u8 = K_U;
    fn make(tok: u32, val: u8) -> Self {
        U(tok, val)
    }
    fn get(&self) -> Val {
        (self.0, self.1, true)
    }
    fn set(&mut self, val: u8) {
        self.1 = val
    }
}
dropping!(U);

/// 128 small types for layouts with many or wide groups.
#[derive(Clone, Copy, Debug)]
pub struct X<const N: u8>(u32, u8);
impl<const N: u8> Comp for X<N> {
    const KIND: u8 = K_X + N;
    fn make(tok: u32, val: u8) -> Self {
        X(tok, val)
    }
    fn get(&self) -> Val {
        (self.0, self.1, true)
    }
    fn set(&mut self, val: u8) {
        self.1 = val
    }
}

/// Whether values of the kind tell the harness when they are dropped.
pub fn tells(kind: u8) -> bool {
    kind != K_F && kind < K_X
}

pub fn data_of<T: Comp>() -> ComponentData {
    ComponentData::new::<T>()
}
