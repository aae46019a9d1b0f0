//! Tables that make the typed interface of the crate available by number:
//! component kinds, component sets and queries.

use crate::comps::*;
use crate::rt::{self, arena, harness, sut};
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use sparsey::component::{
    ComponentData, ComponentSet, GroupDescriptor, GroupInfo, GroupLayout, QueryGroupInfo, View, ViewGroupInfo, ViewMut,
};
use sparsey::entity::Entity;
use sparsey::query::{Iter, ParIter, Query};
use sparsey::world::WorldBuilder;
use sparsey::World;

// ------------------------------------------------------------------------ kinds

/// A borrowed view. Everything here is called in code-under-test mode.
pub trait DynView {
    fn get(&self, e: Entity) -> Option<Val>;
    fn contains(&self, e: Entity) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn entity_at(&self, i: usize) -> Option<Entity>;
    fn entity_count(&self) -> usize;
    fn slice_at(&self, i: usize) -> Option<Val>;
    fn slice_len(&self) -> usize;
    fn index(&self, e: Entity) -> Val;
    /// The grouping information, if the view was borrowed along with it.
    fn info(&self) -> Option<Option<GroupInfo>>;
    fn set(&mut self, _e: Entity, _val: u8, _how: usize) -> bool {
        false
    }
    fn peek_mut(&mut self, _e: Entity) -> Option<Val> {
        None
    }
    fn index_mut(&mut self, e: Entity) -> Val {
        self.index(e)
    }
}

macro_rules! dyn_view {
    () => {
        fn get(&self, e: Entity) -> Option<Val> {
            (**self).get(e).map(|c| c.get())
        }
        fn contains(&self, e: Entity) -> bool {
            (**self).contains(e)
        }
        fn len(&self) -> usize {
            (**self).len()
        }
        fn is_empty(&self) -> bool {
            (**self).is_empty()
        }
        fn entity_at(&self, i: usize) -> Option<Entity> {
            (**self).entities().get(i).copied()
        }
        fn entity_count(&self) -> usize {
            (**self).entities().len()
        }
        fn slice_at(&self, i: usize) -> Option<Val> {
            (**self).as_slice().get(i).map(|c| c.get())
        }
        fn slice_len(&self) -> usize {
            (**self).as_slice().len()
        }
        fn index(&self, e: Entity) -> Val {
            (&**self)[e].get()
        }
        fn info(&self) -> Option<Option<GroupInfo>> {
            self.1
        }
    };
}

struct Sh<'a, T>(View<'a, T>, Option<Option<GroupInfo>>);
impl<'a, T> std::ops::Deref for Sh<'a, T> {
    type Target = View<'a, T>;
    fn deref(&self) -> &View<'a, T> {
        &self.0
    }
}
struct Mu<'a, T>(ViewMut<'a, T>, Option<Option<GroupInfo>>);
impl<'a, T> std::ops::Deref for Mu<'a, T> {
    type Target = ViewMut<'a, T>;
    fn deref(&self) -> &ViewMut<'a, T> {
        &self.0
    }
}

impl<T: Comp> DynView for Sh<'_, T> {
    dyn_view!();
}
impl<T: Comp> DynView for Mu<'_, T> {
    dyn_view!();
    fn peek_mut(&mut self, e: Entity) -> Option<Val> {
        self.0.get_mut(e).map(|c| c.get())
    }
    fn index_mut(&mut self, e: Entity) -> Val {
        let c: &mut T = &mut self.0[e];
        c.get()
    }
    fn set(&mut self, e: Entity, val: u8, how: usize) -> bool {
        match how {
            0 => match self.0.get_mut(e) {
                Some(c) => c.set(val),
                None => return false,
            },
            1 => {
                if !self.0.contains(e) {
                    return false;
                }
                self.0[e].set(val)
            }
            _ => match self.0.entities().iter().position(|x| *x == e) {
                Some(i) => self.0.as_mut_slice()[i].set(val),
                None => return false,
            },
        }
        true
    }
}

#[derive(Clone, Copy)]
pub struct KindVt {
    pub kind: u8,
    pub data: fn() -> ComponentData,
    pub register: fn(&mut World) -> bool,
    pub is_registered: fn(&World) -> bool,
    pub is_registered_dyn: fn(&World) -> bool,
    pub build: fn(&mut WorldBuilder),
    pub hold: for<'a> fn(&'a World, bool) -> Box<dyn DynView + 'a>,
    pub hold_mut: for<'a> fn(&'a World, bool) -> Box<dyn DynView + 'a>,
}

/// Two components of the given infos in one query: the infos combined in all ways there are.
pub fn combine(a: Option<GroupInfo>, b: Option<GroupInfo>) -> Vec<bool> {
    let view = |info| ViewGroupInfo { info, len: 0 };
    let both = a.zip(b);
    let one = |info| QueryGroupInfo::Empty.add_view(&view(info));
    vec![
        both.is_some_and(|(a, b)| a.add_group(b).is_some()),
        one(a).and_then(|q| q.add_view(&view(b))).is_some(),
        one(a).zip(one(b)).and_then(|(a, b)| a.add_query(&b)).and_then(|q| q.group_info()).is_some(),
        one(b).and_then(|q| q.add_query(&QueryGroupInfo::Empty)).and_then(|q| q.add_view(&view(a))).is_some(),
    ]
}

fn hold<'a, T: Comp>(w: &'a World, info: bool) -> Box<dyn DynView + 'a> {
    if info {
        let (v, i) = sut(|| w.borrow_with_group_info::<T>());
        return Box::new(Sh(v, Some(i)));
    }
    let v = sut(|| w.borrow::<T>());
    Box::new(Sh(v, None))
}
fn hold_mut<'a, T: Comp>(w: &'a World, info: bool) -> Box<dyn DynView + 'a> {
    if info {
        let (v, i) = sut(|| w.borrow_with_group_info_mut::<T>());
        return Box::new(Mu(v, Some(i)));
    }
    let v = sut(|| w.borrow_mut::<T>());
    Box::new(Mu(v, None))
}
fn kind<T: Comp>() -> KindVt {
    KindVt {
        kind: T::KIND,
        data: data_of::<T>,
        register: |w| w.register::<T>(),
        is_registered: |w| w.is_registered::<T>(),
        is_registered_dyn: |w| w.is_registered_dyn(std::any::TypeId::of::<T>()),
        build: |b| {
            b.register::<T>();
        },
        hold: hold::<T>,
        hold_mut: hold_mut::<T>,
    }
}

macro_rules! kinds {
    ([$($t:ty),*] $($n:literal)*) => {
        pub fn kinds() -> Vec<Option<KindVt>> {
            let mut v: Vec<Option<KindVt>> = vec![None; NK];
            for k in [$(kind::<$t>(),)* $(kind::<X<$n>>(),)*] {
                v[k.kind as usize] = Some(k);
            }
            v
        }
    };
}
kinds!([A, B, C, D, E, F, G, H, U]
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
    32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63
    64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95
    96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119
    120 121 122 123 124 125 126 127);

// -------------------------------------------------------------- component sets

pub trait SimSet: ComponentSet + Sized {
    fn kinds() -> Vec<u8>;
    fn make(t: &[(u32, u8)]) -> Self;
    fn unpack(r: &Self::Remove, out: &mut Vec<Option<Val>>);
}

impl SimSet for () {
    fn kinds() -> Vec<u8> {
        vec![]
    }
    fn make(_: &[(u32, u8)]) {}
    fn unpack(_: &(), _: &mut Vec<Option<Val>>) {}
}

macro_rules! sim_set {
    ($(($t:ident, $i:tt)),+) => {
        impl<$($t: Comp),+> SimSet for ($($t,)+) {
            fn kinds() -> Vec<u8> {
                vec![$($t::KIND),+]
            }
            fn make(t: &[(u32, u8)]) -> Self {
                ($($t::make(t[$i].0, t[$i].1),)+)
            }
            fn unpack(r: &<Self as ComponentSet>::Remove, out: &mut Vec<Option<Val>>) {
                $(out.push(r.$i.as_ref().map(|c| c.get()));)+
            }
        }
    };
}
sim_set!((T0, 0));
sim_set!((T0, 0), (T1, 1));
sim_set!((T0, 0), (T1, 1), (T2, 2));
sim_set!((T0, 0), (T1, 1), (T2, 2), (T3, 3));
sim_set!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4));
sim_set!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5));
sim_set!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7));
sim_set!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8), (T9, 9),
    (T10, 10), (T11, 11), (T12, 12), (T13, 13), (T14, 14));
sim_set!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8), (T9, 9),
    (T10, 10), (T11, 11), (T12, 12), (T13, 13), (T14, 14), (T15, 15));

/// Groups that can be declared by their types.
#[derive(Clone, Copy)]
pub struct GroupVt {
    pub kinds: fn() -> Vec<u8>,
    pub layout: fn(&mut GroupLayout),
    pub builder: fn(&mut WorldBuilder),
}
fn group<G: SimSet + GroupDescriptor>() -> GroupVt {
    GroupVt {
        kinds: G::kinds,
        layout: |l| l.add_group::<G>(),
        builder: |b| {
            b.add_group::<G>();
        },
    }
}
pub fn groups() -> Vec<GroupVt> {
    vec![
        group::<(A, B)>(),
        group::<(C, A)>(),
        group::<(C, D)>(),
        group::<(D, E)>(),
        group::<(E, F)>(),
        group::<(F, G)>(),
        group::<(G, H)>(),
        group::<(A, B, C)>(),
        group::<(F, E, D)>(),
        group::<(H, F, G)>(),
        group::<(E, F, G)>(),
        group::<(D, C, B, A)>(),
        group::<(E, F, G, H)>(),
        group::<(A, B, C, D, E)>(),
        group::<(A, B, C, D, E, F)>(),
        group::<(H, G, F, E, D, C, B, A)>(),
        group::<X15>(),
        group::<X16>(),
        group::<(X<0>, X<1>, X<2>, X<3>)>(),
        group::<(X<0>, X<1>)>(),
        group::<(X<2>, X<3>)>(),
        group::<(X<4>, X<5>)>(),
    ]
}

/// The items of a bulk creation; `fault` is the item whose production panics.
pub struct Items {
    pub toks: Vec<Vec<(u32, u8)>>,
    pub fault: Option<usize>,
    pub hint: i64,
    pub pulled: usize,
}

struct SimIter<'a, S>(&'a mut Items, std::marker::PhantomData<S>);
impl<S: SimSet> Iterator for SimIter<'_, S> {
    type Item = S;
    fn next(&mut self) -> Option<S> {
        let toks = harness(|| {
            let i = self.0.pulled;
            if self.0.fault == Some(i) {
                ledger().fired += 1;
                ledger().total_fired += 1;
                return Err(());
            }
            if i < self.0.toks.len() {
                self.0.pulled += 1;
                Ok(Some(self.0.toks[i].clone()))
            } else {
                Ok(None)
            }
        });
        let r = match &toks {
            Ok(Some(t)) => Some(arena(|| S::make(t))),
            Ok(None) => None,
            Err(()) => {
                std::mem::forget(toks);
                rt::raise_fault()
            }
        };
        harness(|| drop(toks));
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.0.toks.len() - self.0.pulled;
        match self.0.hint {
            0 => (left, Some(left)),
            1 => (0, None),
            2 => (left / 2, Some(left * 2 + 1)),
            // Safe code may lie.
            3 => (left + 3, Some(left + 3)),
            // True, but of no use.
            5 => (0, Some(usize::MAX)),
            _ => (0, Some(0)),
        }
    }
}

#[derive(Clone, Copy)]
pub struct SetVt {
    pub kinds: fn() -> Vec<u8>,
    pub create: fn(&mut World, &[(u32, u8)]) -> Entity,
    pub insert: fn(&mut World, Entity, &[(u32, u8)]) -> bool,
    pub extend: fn(&mut World, &mut Items) -> Vec<Entity>,
    /// The values taken out are dropped by the harness after they were read.
    pub remove: fn(&mut World, Entity, &mut dyn FnMut(&[Option<Val>])),
    pub delete: fn(&mut World, Entity),
}

fn set_create<S: SimSet>(w: &mut World, t: &[(u32, u8)]) -> Entity {
    let s = arena(|| S::make(t));
    sut(|| w.create(s))
}
fn set_insert<S: SimSet>(w: &mut World, e: Entity, t: &[(u32, u8)]) -> bool {
    let s = arena(|| S::make(t));
    sut(|| w.insert(e, s))
}
fn set_extend<S: SimSet>(w: &mut World, items: &mut Items) -> Vec<Entity> {
    let mut out = Vec::new();
    sut(|| {
        let s = w.extend::<S, _>(SimIter::<S>(items, std::marker::PhantomData));
        for e in s {
            let e = *e;
            harness(|| out.push(e));
        }
    });
    out
}
fn set_remove<S: SimSet>(w: &mut World, e: Entity, f: &mut dyn FnMut(&[Option<Val>])) {
    let r = sut(|| w.remove::<S>(e));
    let mut v = Vec::new();
    S::unpack(&r, &mut v);
    f(&v);
    drop(r);
}
fn set_delete<S: SimSet>(w: &mut World, e: Entity) {
    sut(|| w.delete::<S>(e))
}
fn set<S: SimSet>() -> SetVt {
    SetVt {
        kinds: S::kinds,
        create: set_create::<S>,
        insert: set_insert::<S>,
        extend: set_extend::<S>,
        remove: set_remove::<S>,
        delete: set_delete::<S>,
    }
}

type X16 = (X<0>, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>, X<8>, X<9>, X<10>, X<11>, X<12>, X<13>, X<14>, X<15>);
type X15 = (X<0>, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>, X<8>, X<9>, X<10>, X<11>, X<12>, X<13>, X<14>);

macro_rules! sets {
    ($([$($t:tt)*])* ; $($n:literal $m:literal),*) => {
        pub fn sets() -> Vec<SetVt> {
            vec![$(set::<$($t)*>(),)* $(set::<(X<$n>, X<$m>)>(), set::<(X<$n>,)>(), set::<(X<$m>,)>(),)*]
        }
    };
}
sets!(
    [()] [(A,)] [(B,)] [(C,)] [(D,)] [(E,)] [(F,)] [(G,)] [(H,)]
    [(A, B)] [(B, A)] [(A, C)] [(B, C)] [(C, D)] [(D, E)] [(E, D)] [(A, D)] [(D, F)] [(A, F)] [(F, G)]
    [(G, H)] [(B, H)] [(A, G)] [(E, F)] [(C, H)] [(A, H)]
    [(A, B, C)] [(C, B, A)] [(B, C, D)] [(D, E, F)] [(A, C, D)] [(A, B, D)] [(E, F, H)] [(F, G, H)] [(A, D, G)]
    [(A, B, C, D)] [(D, C, B, A)] [(C, D, E, F)] [(E, F, G, H)] [(A, B, F, G)]
    [(A, B, C, D, E)] [(A, B, C, D, E, F)] [(H, G, F, E, D, C, B, A)]
    [(A, A)] [(B, B)] [(A, B, A)] [(U,)] [(A, U)] [(U, B)] [(A, B, U)]
    [X16] [X15] [(X<0>, X<1>, X<2>, X<3>)] [(X<0>, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>)] [(X<7>, X<15>)]
    [(X<8>, X<9>, X<10>, X<11>, X<12>, X<13>, X<14>, X<15>)]
    ;
    0 1, 2 3, 4 5, 6 7, 8 9, 10 11, 12 13, 14 15, 16 17, 18 19, 20 21, 22 23, 24 25, 26 27, 28 29, 30 31,
    32 33, 34 35, 36 37, 38 39, 40 41, 42 43, 44 45, 46 47, 48 49, 50 51, 52 53, 54 55, 56 57, 58 59, 60 61, 62 63,
    64 65, 66 67, 68 69, 70 71, 72 73, 74 75, 76 77, 78 79, 80 81, 82 83, 84 85, 86 87, 88 89, 90 91, 92 93, 94 95,
    96 97, 98 99, 100 101, 102 103, 104 105, 106 107, 108 109, 110 111, 112 113, 114 115, 116 117, 118 119,
    120 121, 122 123, 124 125, 126 127
);

// ---------------------------------------------------------------------- queries

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Ref,
    Mut,
    Opt,
    OptMut,
    Ent,
}

#[derive(Clone, Copy, Debug)]
pub struct PartDesc {
    pub kind: u8,
    pub mode: Mode,
}
impl PartDesc {
    /// Whether the part has to be there for an entity to match.
    pub fn required(&self) -> bool {
        matches!(self.mode, Mode::Ref | Mode::Mut)
    }
    pub fn is_mut(&self) -> bool {
        matches!(self.mode, Mode::Mut | Mode::OptMut)
    }
    pub fn name(&self) -> String {
        let k = kname(self.kind);
        match self.mode {
            Mode::Ref => format!("&{k}"),
            Mode::Mut => format!("&mut {k}"),
            Mode::Opt => format!("Option<&{k}>"),
            Mode::OptMut => format!("Option<&mut {k}>"),
            Mode::Ent => "Entity".into(),
        }
    }
}

/// One part of an item, without its type.
#[derive(Clone, Copy)]
pub struct PartRef {
    pub d: PartDesc,
    pub ent: Option<Entity>,
    pub ptr: *mut u8,
    get: fn(*mut u8) -> Val,
    set: fn(*mut u8, u8),
}
impl PartRef {
    pub fn present(&self) -> bool {
        !self.ptr.is_null()
    }
    pub fn get(&self) -> Val {
        (self.get)(self.ptr)
    }
    pub fn set(&self, v: u8) {
        (self.set)(self.ptr, v)
    }
}
fn get_at<T: Comp>(p: *mut u8) -> Val {
    unsafe { (*(p as *const T)).get() }
}
fn set_at<T: Comp>(p: *mut u8, v: u8) {
    unsafe { (*(p as *mut T)).set(v) }
}
fn part<T: Comp>(mode: Mode, ptr: *mut u8) -> PartRef {
    PartRef { d: PartDesc { kind: T::KIND, mode }, ent: None, ptr, get: get_at::<T>, set: set_at::<T> }
}

pub struct Parts {
    pub n: usize,
    pub p: [std::mem::MaybeUninit<PartRef>; 16],
}
impl Parts {
    fn new() -> Parts {
        Parts { n: 0, p: [std::mem::MaybeUninit::uninit(); 16] }
    }
    fn push(&mut self, p: PartRef) {
        self.p[self.n].write(p);
        self.n += 1;
    }
    pub fn all(&self) -> &[PartRef] {
        unsafe { std::slice::from_raw_parts(self.p.as_ptr() as *const PartRef, self.n) }
    }
}

pub trait SimPart {
    const D: PartDesc;
    fn part(self) -> PartRef;
}
impl SimPart for Entity {
    const D: PartDesc = PartDesc { kind: 255, mode: Mode::Ent };
    fn part(self) -> PartRef {
        PartRef { d: Self::D, ent: Some(self), ptr: std::ptr::null_mut(), get: get_at::<F>, set: set_at::<F> }
    }
}
impl<T: Comp> SimPart for &T {
    const D: PartDesc = PartDesc { kind: T::KIND, mode: Mode::Ref };
    fn part(self) -> PartRef {
        part::<T>(Mode::Ref, self as *const T as *mut u8)
    }
}
impl<T: Comp> SimPart for &mut T {
    const D: PartDesc = PartDesc { kind: T::KIND, mode: Mode::Mut };
    fn part(self) -> PartRef {
        part::<T>(Mode::Mut, self as *mut T as *mut u8)
    }
}
impl<T: Comp> SimPart for Option<&T> {
    const D: PartDesc = PartDesc { kind: T::KIND, mode: Mode::Opt };
    fn part(self) -> PartRef {
        part::<T>(Mode::Opt, self.map_or(std::ptr::null_mut(), |c| c as *const T as *mut u8))
    }
}
impl<T: Comp> SimPart for Option<&mut T> {
    const D: PartDesc = PartDesc { kind: T::KIND, mode: Mode::OptMut };
    fn part(self) -> PartRef {
        part::<T>(Mode::OptMut, self.map_or(std::ptr::null_mut(), |c| c as *mut T as *mut u8))
    }
}

pub trait SimItem {
    fn descs() -> Vec<PartDesc>;
    fn parts(self) -> Parts;
}
impl SimItem for () {
    fn descs() -> Vec<PartDesc> {
        vec![]
    }
    fn parts(self) -> Parts {
        Parts::new()
    }
}
impl<P: SimPart> SimItem for P {
    fn descs() -> Vec<PartDesc> {
        vec![P::D]
    }
    fn parts(self) -> Parts {
        let mut p = Parts::new();
        p.push(self.part());
        p
    }
}
macro_rules! sim_item {
    ($(($t:ident, $i:tt)),+) => {
        impl<$($t: SimPart),+> SimItem for ($($t,)+) {
            fn descs() -> Vec<PartDesc> {
                vec![$($t::D),+]
            }
            fn parts(self) -> Parts {
                let mut p = Parts::new();
                $(p.push(self.$i.part());)+
                p
            }
        }
        impl<$($t: SimSlicePart),+> SimSlice for ($($t,)+) {
            fn slices(self) -> Vec<SliceRef> {
                vec![$(self.$i.slice_part()),+]
            }
        }
    };
}
sim_item!((T0, 0));
sim_item!((T0, 0), (T1, 1));
sim_item!((T0, 0), (T1, 1), (T2, 2));
sim_item!((T0, 0), (T1, 1), (T2, 2), (T3, 3));
sim_item!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4));
sim_item!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5));
sim_item!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7));
sim_item!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8));
sim_item!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8), (T9, 9),
    (T10, 10), (T11, 11), (T12, 12), (T13, 13), (T14, 14));
sim_item!((T0, 0), (T1, 1), (T2, 2), (T3, 3), (T4, 4), (T5, 5), (T6, 6), (T7, 7), (T8, 8), (T9, 9),
    (T10, 10), (T11, 11), (T12, 12), (T13, 13), (T14, 14), (T15, 15));

/// A slice, without its type. `len` is none for parts that have no slice.
#[derive(Clone, Copy)]
pub struct SliceRef {
    pub kind: u8,
    pub is_mut: bool,
    pub len: Option<usize>,
    ptr: *mut u8,
    stride: usize,
    get: fn(*mut u8) -> Val,
    set: fn(*mut u8, u8),
}
impl SliceRef {
    pub fn get(&self, i: usize) -> Val {
        (self.get)(unsafe { self.ptr.add(i * self.stride) })
    }
    pub fn set(&self, i: usize, v: u8) {
        (self.set)(unsafe { self.ptr.add(i * self.stride) }, v)
    }
    pub fn entity(&self, i: usize) -> Entity {
        unsafe { *(self.ptr as *const Entity).add(i) }
    }
}
pub trait SimSlicePart {
    fn slice_part(self) -> SliceRef;
}
impl SimSlicePart for () {
    fn slice_part(self) -> SliceRef {
        SliceRef { kind: 255, is_mut: false, len: None, ptr: std::ptr::null_mut(), stride: 0, get: get_at::<F>, set: set_at::<F> }
    }
}
impl SimSlicePart for &[Entity] {
    fn slice_part(self) -> SliceRef {
        SliceRef { kind: 255, is_mut: false, len: Some(self.len()), ptr: self.as_ptr() as *mut u8, stride: 8, get: get_at::<F>, set: set_at::<F> }
    }
}
impl<T: Comp> SimSlicePart for &[T] {
    fn slice_part(self) -> SliceRef {
        SliceRef { kind: T::KIND, is_mut: false, len: Some(self.len()), ptr: self.as_ptr() as *mut u8, stride: size_of::<T>(), get: get_at::<T>, set: set_at::<T> }
    }
}
impl<T: Comp> SimSlicePart for &mut [T] {
    fn slice_part(self) -> SliceRef {
        SliceRef { kind: T::KIND, is_mut: true, len: Some(self.len()), ptr: self.as_mut_ptr() as *mut u8, stride: size_of::<T>(), get: get_at::<T>, set: set_at::<T> }
    }
}
pub trait SimSlice {
    fn slices(self) -> Vec<SliceRef>;
}
impl<P: SimSlicePart> SimSlice for P {
    fn slices(self) -> Vec<SliceRef> {
        vec![self.slice_part()]
    }
}

/// How a query is consumed.
pub const M_NEXT: i64 = 0;
pub const M_FOLD: i64 = 1;
pub const M_MIXED: i64 = 2; // some by next, the rest by fold
pub const M_PARTIAL: i64 = 3; // some by next, the rest never
pub const M_SLICE: i64 = 4;
pub const M_INTO: i64 = 5;
pub const M_TWICE: i64 = 6;
pub const M_WORLD: i64 = 7; // World::for_each
pub const M_PAR: i64 = 8; // par_for_each
pub const M_PAR_COLLECT: i64 = 9; // par_iter().map().collect()
pub const M_PAR_INDEXED: i64 = 10; // DenseParIter as an indexed iterator
pub const M_PAR_WORLD: i64 = 11; // World::par_for_each
pub const M_PAR_REV: i64 = 12; // DenseParIter through its producer
pub const M_PAR_PICK: i64 = 13; // parts of a parallel iterator
pub const M_COUNT: i64 = 14;

pub fn is_par(m: i64) -> bool {
    matches!(m, M_PAR | M_PAR_COLLECT | M_PAR_INDEXED | M_PAR_WORLD | M_PAR_REV | M_PAR_PICK)
}

/// Which positions of a dense iterator an adaptor has to hand out, in order.
#[derive(Clone, Copy, Debug)]
pub enum Picked {
    Skip(usize),
    Take(usize),
    Every(usize),
    /// All of them, in chunks of some size.
    Chunks(usize),
    /// As many as the shorter of the two has.
    Zip(usize),
    /// Until some call ends the iteration; whether it did.
    Until(bool),
}

/// The harness side of a query; called in code-under-test mode.
pub trait QSink {
    fn acquired(&self);
    fn releasing(&self);
    fn dense(&self, dense: bool);
    fn hint(&self, lo: usize, hi: Option<usize>);
    fn visit(&self, p: &Parts) -> usize;
    fn slices(&self, s: &[SliceRef]);
    fn collected(&self, slots: &[usize]);
    fn indexed(&self, len: usize, at: &[(usize, usize)]);
    /// What an adaptor that leaves items out did: what was collected, each with
    /// its position among the items it stands for, and those positions.
    fn picked(&self, len: usize, at: &[(usize, usize)], want: Picked);
    fn enough(&self, slot: usize, n: usize) -> bool;
    fn restart(&self);
    fn not_fused(&self);
    fn one(&self, contains: bool, got: Option<usize>);
}

#[derive(Clone, Copy)]
pub struct S(pub *const dyn QSink);
unsafe impl Send for S {}
unsafe impl Sync for S {}
impl S {
    #[inline]
    pub fn get(&self) -> &dyn QSink {
        unsafe { &*self.0 }
    }
}

pub trait Item2: for<'a> Query<Item<'a>: SimItem, Slice<'a>: SimSlice> {}
impl<Q> Item2 for Q where Q: for<'a> Query<Item<'a>: SimItem, Slice<'a>: SimSlice> {}

macro_rules! start {
    ($w:ident, $flip:ident) => {
        if $flip {
            $w.query_all::<Q>().exclude::<X1>().include::<I>()
        } else {
            $w.query_all::<Q>().include::<I>().exclude::<X1>()
        }
    };
}

fn run_all<Q: Item2, I: Query, X1: Query>(w: &World, s: S, mode: i64, k: usize, flip: bool) {
    let mut q = start!(w, flip);
    let o = s.get();
    o.acquired();
    match mode {
        M_SLICE => {
            if let Some(sl) = q.slice() {
                let v = harness(|| sl.slices());
                o.slices(&v);
                harness(|| drop(v));
            } else {
                o.dense(false);
            }
        }
        M_INTO => {
            for x in &mut q {
                o.visit(&x.parts());
            }
        }
        M_FOLD => {
            let it = q.iter();
            o.dense(it.is_dense());
            it.fold((), |_, x| {
                o.visit(&x.parts());
            });
        }
        _ => {
            for round in 0..if mode == M_TWICE { 2 } else { 1 } {
                if round == 1 {
                    o.restart();
                }
                let mut it: Iter<'_, Q, I, X1> = q.iter();
                o.dense(it.is_dense());
                let mut i = 0;
                loop {
                    let (lo, hi) = it.size_hint();
                    o.hint(lo, hi);
                    if (mode == M_MIXED || mode == M_PARTIAL) && i == k {
                        break;
                    }
                    match it.next() {
                        Some(x) => {
                            o.visit(&x.parts());
                        }
                        None => {
                            if it.next().is_some() {
                                o.not_fused();
                            }
                            break;
                        }
                    }
                    i += 1;
                }
                if mode == M_MIXED {
                    it.for_each(|x| {
                        o.visit(&x.parts());
                    });
                }
            }
        }
    }
    o.releasing();
    drop(q);
}

fn run_par<Q: Item2, I: Query, X1: Query>(w: &World, s: S, mode: i64, k: usize, flip: bool) {
    let mut q = start!(w, flip);
    let o = s.get();
    o.acquired();
    match mode {
        M_PAR_PICK => {
            if q.iter().is_dense() {
                q.for_each(|x| {
                    o.visit(&x.parts());
                });
                o.restart();
            }
            let it = q.par_iter();
            o.dense(it.is_dense());
            let n = k / 8 % 12;
            match it {
                ParIter::Dense(d) if k % 8 < 5 => {
                    let len = d.len();
                    let d = d.enumerate();
                    let call = |(i, x): (usize, <Q as Query>::Item<'_>)| (i, s.get().visit(&x.parts()));
                    let (v, want): (Vec<(usize, usize)>, Picked) = match k % 8 {
                        0 => (d.skip(n).map(call).collect(), Picked::Skip(n)),
                        1 => (d.take(n).map(call).collect(), Picked::Take(n)),
                        2 => (d.step_by(n + 1).map(call).collect(), Picked::Every(n + 1)),
                        3 => {
                            let v: Vec<Vec<(usize, usize)>> =
                                d.chunks(n + 1).map(|c| c.into_iter().map(call).collect()).collect();
                            (v.into_iter().flatten().collect(), Picked::Chunks(n + 1))
                        }
                        _ => (
                            d.zip(rayon::iter::repeatn((), n)).map(|(x, ())| call(x)).collect(),
                            Picked::Zip(n),
                        ),
                    };
                    o.picked(len, &v, want);
                }
                ParIter::Dense(d) if k % 8 == 5 => {
                    // The items first, then the visits.
                    let len = d.len();
                    let mut items = Vec::new();
                    d.collect_into_vec(&mut items);
                    let v: Vec<(usize, usize)> =
                        items.into_iter().enumerate().map(|(i, x)| (i, o.visit(&x.parts()))).collect();
                    o.picked(len, &v, Picked::Skip(0));
                }
                it => {
                    // Some call asks to stop.
                    let r = it.try_for_each(|x| {
                        let slot = s.get().visit(&x.parts());
                        if s.get().enough(slot, n) { Err(slot) } else { Ok(()) }
                    });
                    o.picked(0, &[], Picked::Until(r.is_err()));
                }
            }
        }
        M_PAR => q.par_for_each(|x| {
            s.get().visit(&x.parts());
        }),
        M_PAR_INDEXED | M_PAR_REV => {
            if q.iter().is_dense() {
                // The order that positions have to agree with.
                q.for_each(|x| {
                    o.visit(&x.parts());
                });
                o.restart();
            }
            let it = q.par_iter();
            o.dense(it.is_dense());
            match it {
                ParIter::Dense(d) if mode == M_PAR_INDEXED => {
                    let len = d.len();
                    let v: Vec<(usize, usize)> = d.enumerate().map(|(i, x)| (i, s.get().visit(&x.parts()))).collect();
                    o.indexed(len, &v);
                }
                ParIter::Dense(d) => {
                    let len = d.len();
                    let v: Vec<(usize, usize)> =
                        d.enumerate().with_max_len(2).rev().map(|(i, x)| (i, s.get().visit(&x.parts()))).collect();
                    o.indexed(len, &v);
                }
                ParIter::Sparse(p) => p.for_each(|x| {
                    s.get().visit(&x.parts());
                }),
            }
        }
        _ => {
            let it = q.par_iter();
            o.dense(it.is_dense());
            if let Some(n) = it.opt_len() {
                o.hint(n, Some(n));
            }
            let v: Vec<usize> = it.map(|x| s.get().visit(&x.parts())).collect();
            o.collected(&v);
        }
    }
    o.releasing();
    drop(q);
}

fn run_world<Q: Item2>(w: &World, s: S, mode: i64) {
    // The borrow ends inside the call.
    if mode == M_PAR_WORLD {
        w.par_for_each::<Q>(|x| {
            s.get().visit(&x.parts());
        });
    } else {
        w.for_each::<Q>(|x| {
            s.get().visit(&x.parts());
        });
    }
}

fn run_one<Q: Item2, I: Query, X1: Query>(w: &World, s: S, e: Entity, how: i64, flip: bool) {
    let mut q = if flip {
        w.query_one::<Q>().exclude::<X1>().include::<I>()
    } else {
        w.query_one::<Q>().include::<I>().exclude::<X1>()
    };
    let o = s.get();
    o.acquired();
    let c = q.contains(e);
    let got = if how == 0 {
        q.get(e).map(|x| o.visit(&x.parts()))
    } else {
        q.map(e, |x| o.visit(&x.parts()))
    };
    o.one(c, got);
    o.releasing();
    drop(q);
}

fn contains<Q: Query>(w: &World, e: Entity) -> bool {
    w.contains::<Q>(e)
}

#[derive(Clone)]
pub struct SpecVt {
    pub get: Vec<PartDesc>,
    pub inc: Vec<PartDesc>,
    pub exc: Vec<PartDesc>,
    pub all: fn(&World, S, i64, usize, bool),
    pub par: Option<fn(&World, S, i64, usize, bool)>,
    pub world: Option<fn(&World, S, i64)>,
    pub one: fn(&World, S, Entity, i64, bool),
    pub contains: fn(&World, Entity) -> bool,
}

fn spec<Q, I, X1>(par: bool) -> SpecVt
where
    Q: Item2 + SimItem,
    I: Query + SimItem,
    X1: Query + SimItem,
{
    SpecVt {
        get: Q::descs(),
        inc: I::descs(),
        exc: X1::descs(),
        all: run_all::<Q, I, X1>,
        par: if par { Some(run_par::<Q, I, X1>) } else { None },
        world: None,
        one: run_one::<Q, I, X1>,
        contains: contains::<Q>,
    }
}

macro_rules! specs {
    ($($kind:ident [$($q:ty),*] [$($i:ty),*] [$($x:ty),*];)*) => {
        pub fn specs() -> Vec<SpecVt> {
            vec![$(specs!(@$kind ($($q),*) ($($i),*) ($($x),*))),*]
        }
    };
    // Only sequential iteration.
    (@s ($($q:ty),*) ($($i:ty),*) ($($x:ty),*)) => {
        spec_s::<($($q,)*), ($($i,)*), ($($x,)*)>()
    };
    // Parallel as well.
    (@p ($($q:ty),*) ($($i:ty),*) ($($x:ty),*)) => {
        spec::<($($q,)*), ($($i,)*), ($($x,)*)>(true)
    };
    // World::for_each and World::par_for_each as well.
    (@w ($($q:ty),*) () ()) => {
        SpecVt { world: Some(run_world::<($($q,)*)>), ..spec::<($($q,)*), (), ()>(true) }
    };
    // Parts that are not wrapped in a tuple.
    (@u ($q:ty) ($($i:ty)?) ($($x:ty)?)) => {
        SpecVt { world: specs!(@uw $q; $($i)? $($x)?), ..spec::<$q, specs!(@unit $($i)?), specs!(@unit $($x)?)>(true) }
    };
    (@uw $q:ty;) => { Some(run_world::<$q>) };
    (@uw $q:ty; $($r:ty)+) => { None };
    (@unit) => { () };
    (@unit $t:ty) => { $t };
}

fn spec_s<Q, I, X1>() -> SpecVt
where
    Q: Item2 + SimItem,
    I: Query + SimItem,
    X1: Query + SimItem,
{
    SpecVt {
        get: Q::descs(),
        inc: I::descs(),
        exc: X1::descs(),
        all: run_all::<Q, I, X1>,
        par: None,
        world: None,
        one: run_one::<Q, I, X1>,
        contains: contains::<Q>,
    }
}

type R<T> = &'static T;
type M<T> = &'static mut T;
type O<T> = Option<&'static T>;
type OM<T> = Option<&'static mut T>;
use Entity as En;

specs! {
    // One component.
    w [R<A>] [] [];
    u [M<A>] [] [];
    u [R<B>] [] [];
    w [En, M<B>] [] [];
    w [En, R<C>] [] [];
    s [M<C>] [] [];
    p [En, R<D>] [] [];
    w [M<D>] [] [];
    s [En, R<E>] [] [];
    p [M<E>, En] [] [];
    s [En, M<F>] [] [];
    p [R<F>] [] [];
    p [En, R<G>] [] [];
    u [R<G>] [] [];
    s [En, M<H>] [] [];
    p [R<H>] [] [];
    // Pairs.
    w [R<A>, R<B>] [] [];
    w [M<A>, R<B>] [] [];
    p [En, M<A>, M<B>] [] [];
    p [En, R<B>, R<A>] [] [];
    s [M<A>, M<C>] [] [];
    p [En, R<A>, M<D>] [] [];
    p [M<C>, M<D>, En] [] [];
    s [En, R<C>, R<D>] [] [];
    w [En, M<D>, R<E>] [] [];
    s [R<D>, M<E>] [] [];
    p [En, R<E>, M<F>] [] [];
    p [En, M<F>, R<G>] [] [];
    s [En, R<G>, R<H>] [] [];
    s [M<A>, R<H>, En] [] [];
    s [En, R<B>, M<C>] [] [];
    p [En, R<G>, M<A>] [] [];
    // Three and more.
    w [En, R<A>, R<B>, R<C>] [] [];
    p [M<A>, M<B>, M<C>] [] [];
    s [En, R<D>, M<E>, R<F>] [] [];
    p [M<B>, R<C>, R<D>] [] [];
    w [En, M<A>, R<B>, M<C>, R<D>] [] [];
    s [R<A>, R<B>, R<C>, R<D>] [] [];
    p [M<E>, R<F>, R<G>, M<H>, En] [] [];
    s [En, R<A>, M<B>, R<C>, R<D>, M<E>] [] [];
    p [En, M<A>, R<B>, M<C>, R<D>, R<E>, M<F>, R<G>, M<H>] [] [];
    // Optional parts.
    p [En, R<A>, O<B>] [] [];
    p [M<A>, OM<B>] [] [];
    s [En, R<A>, R<B>, O<C>] [] [];
    p [En, M<A>, M<B>, OM<C>, O<D>] [] [];
    s [En, OM<D>, R<C>] [] [];
    p [En, R<D>, OM<E>, O<F>] [] [];
    s [En, R<B>, O<A>, O<G>, O<H>] [] [];
    p [En, R<G>, OM<A>] [] [];
    // Included and excluded parts.
    p [En, R<A>] [R<B>] [];
    p [M<A>] [] [R<B>];
    p [En, R<A>] [] [R<B>];
    p [En, R<A>] [R<B>] [R<C>];
    p [R<A>, M<B>] [] [R<C>];
    p [En, M<A>, R<B>] [] [R<C>, R<D>];
    s [En, R<A>, R<B>, M<C>] [] [R<D>];
    p [R<A>, R<B>, R<C>] [] [R<D>];
    s [En, R<A>] [R<B>, R<C>] [R<D>];
    p [En, M<B>] [R<A>] [];
    s [En, R<C>] [R<D>, R<A>] [];
    p [En, M<C>] [R<A>, R<B>] [];
    p [En] [R<A>] [];
    p [En] [R<A>, R<B>] [];
    p [En] [R<A>, R<B>] [R<C>];
    s [En] [R<A>] [R<B>];
    s [En, O<A>] [R<B>] [];
    s [] [R<A>, R<B>] [];
    s [] [R<C>] [R<A>];
    s [En, R<D>] [] [R<E>];
    p [En, R<D>, M<E>] [] [R<F>];
    s [M<D>] [R<E>] [R<F>];
    p [En, M<C>, R<D>] [] [R<A>];
    s [R<C>, R<D>] [R<E>] [R<F>];
    p [En, R<E>] [R<F>] [R<G>, R<H>];
    s [En, R<F>, R<G>] [] [R<H>];
    s [En, R<H>] [] [R<A>, R<B>];
    s [En, R<B>] [] [R<A>];
    s [En, R<A>, R<D>] [] [R<B>];
    s [En, O<C>, R<A>, R<B>] [] [R<D>];
    p [R<A>] [R<B>] [R<C>, R<D>];
    s [En, M<G>] [R<A>] [R<B>];
    s [En, R<A>] [M<B>] [M<C>];
    u [M<B>] [R<A>] [R<C>];
    u [R<A>] [] [R<B>];
    u [En] [R<C>] [];
    s [En, R<A>, R<B>] [R<C>, R<D>] [];
    p [M<C>] [R<A>, R<B>] [R<D>];
    s [En, R<A>, M<B>, R<C>] [] [R<D>, R<E>];
    s [R<A>, R<B>, R<C>, R<D>] [] [R<E>, R<F>];
    s [En, R<A>, R<B>, R<C>, R<D>] [R<E>] [R<F>];
    // Conflicting with themselves.
    s [R<A>, M<A>] [] [];
    s [M<B>, R<A>, M<B>] [] [];
    s [M<A>] [R<A>] [];
    s [R<B>, M<C>] [] [R<C>];
    s [R<A>, R<A>] [] [];
    // Unregistered.
    s [R<U>] [] [];
    s [M<A>, R<U>] [] [];
    s [M<B>, M<A>] [] [R<U>];
    s [M<A>, O<U>] [] [];
    // Wide groups.
    s [R<X<0>>, R<X<1>>, R<X<2>>, R<X<3>>, R<X<4>>, R<X<5>>, R<X<6>>, R<X<7>>, R<X<8>>, R<X<9>>, R<X<10>>, R<X<11>>, R<X<12>>, R<X<13>>, R<X<14>>, R<X<15>>] [] [];
    s [R<X<0>>, R<X<1>>, R<X<2>>, R<X<3>>, R<X<4>>, R<X<5>>, R<X<6>>, R<X<7>>, R<X<8>>, R<X<9>>, R<X<10>>, R<X<11>>, R<X<12>>, R<X<13>>, R<X<14>>] [] [R<X<15>>];
    s [En, M<X<7>>, R<X<15>>, R<X<0>>, R<X<1>>, R<X<2>>, R<X<3>>, R<X<4>>, R<X<5>>] [R<X<6>>, R<X<8>>, R<X<9>>, R<X<10>>, R<X<11>>, R<X<12>>, R<X<13>>, R<X<14>>] [];
    s [En, M<X<0>>, R<X<1>>, R<X<2>>, R<X<3>>] [R<X<4>>, R<X<5>>, R<X<6>>, R<X<7>>] [];
    s [M<X<0>>, R<X<1>>, R<X<2>>, R<X<3>>] [] [R<X<4>>, R<X<5>>, R<X<6>>, R<X<7>>];
    s [R<X<0>>, R<X<1>>] [R<X<2>>, R<X<3>>] [];
    s [En, R<X<7>>] [] [R<X<15>>];
    s [En, R<X<15>>, M<X<14>>] [R<X<0>>] [];
    // Nothing that has to be there: for lookups only.
    s [En, O<A>, O<B>] [] [];
    s [OM<C>, O<A>] [] [];
    s [En, OM<D>] [] [R<A>];
    s [O<B>, OM<A>] [] [R<C>];
    // The same component twice.
    s [R<A>] [R<A>] [];
    p [En, R<A>] [] [R<A>];
    s [R<A>, R<B>] [R<B>] [];
    p [En, R<A>] [R<A>, R<B>] [R<C>];
    s [En, R<A>, R<B>] [] [R<B>, R<C>];
    s [En, R<A>] [R<B>, R<B>] [R<C>, R<C>];
    s [En, R<A>, O<A>] [] [];
    p [R<D>] [R<C>] [R<C>];
    p [En, R<C>] [R<C>, R<D>] [R<C>];
}

/// Queries over the pairs of a layout with many groups: the slices of both, of
/// the first without the second, and of the single storages.
pub type PairFn = fn(&World, usize, &mut dyn FnMut(Option<&[SliceRef]>));

fn pair_query<P: Comp, T: Comp>(w: &World, which: usize, f: &mut dyn FnMut(Option<&[SliceRef]>)) {
    match which {
        0 => {
            let mut q = w.query_all::<(En, &P, &T)>();
            let s = q.slice();
            harness(|| f(s.map(|s| s.slices()).as_deref()));
        }
        1 => {
            let mut q = w.query_all::<(En, &P)>().exclude::<&T>();
            let s = q.slice();
            harness(|| f(s.map(|s| s.slices()).as_deref()));
        }
        _ => {
            let mut q = w.query_all::<(En, &mut T)>().include::<&P>();
            let s = q.slice();
            harness(|| f(s.map(|s| s.slices()).as_deref()));
        }
    }
}

macro_rules! pairs {
    ($($n:literal $m:literal),*) => {
        pub const PAIRS: &[(u8, u8, PairFn)] = &[$((K_X + $n, K_X + $m, pair_query::<X<$n>, X<$m>>)),*];
    };
}
pairs!(
    0 1, 2 3, 4 5, 6 7, 8 9, 10 11, 12 13, 14 15, 16 17, 18 19, 20 21, 22 23, 24 25, 26 27, 28 29, 30 31,
    32 33, 34 35, 36 37, 38 39, 40 41, 42 43, 44 45, 46 47, 48 49, 50 51, 52 53, 54 55, 56 57, 58 59, 60 61, 62 63,
    64 65, 66 67, 68 69, 70 71, 72 73, 74 75, 76 77, 78 79, 80 81, 82 83, 84 85, 86 87, 88 89, 90 91, 92 93, 94 95,
    96 97, 98 99, 100 101, 102 103, 104 105, 106 107, 108 109, 110 111, 112 113, 114 115, 116 117, 118 119,
    120 121, 122 123, 124 125, 126 127
);
