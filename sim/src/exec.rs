//! Executes a plan against the real crate and checks it against the model.

use crate::comps::*;
use sparsey::component::ComponentData;
use crate::model::*;
use crate::model::H;
use crate::plan::*;
use crate::rt::{self, harness, sut, try_sut, Caught, Hb};
use crate::tables::*;
use sparsey::component::{GroupInfo, GroupLayout};
use sparsey::entity::Entity;
use sparsey::World;
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};

pub struct Tables {
    pub kinds: Vec<Option<KindVt>>,
    pub sets: Vec<SetVt>,
    pub set_kinds: Vec<Vec<u8>>,
    pub specs: Vec<SpecVt>,
    pub groups: Vec<(BTreeSet<u8>, GroupVt)>,
}
static mut TABLES: *const Tables = std::ptr::null();
pub fn tab() -> &'static Tables {
    unsafe {
        if TABLES.is_null() {
            let sets = sets();
            let set_kinds = sets.iter().map(|s| (s.kinds)()).collect();
            let groups = groups().into_iter().map(|g| ((g.kinds)().into_iter().collect(), g)).collect();
            TABLES = Box::leak(Box::new(Tables { kinds: kinds(), sets, set_kinds, specs: specs(), groups }));
        }
        &*TABLES
    }
}
fn kvt(k: u8) -> &'static KindVt {
    tab().kinds[k as usize].as_ref().unwrap()
}

struct Attempt {
    kinds: Vec<(u8, bool)>,
    begin: u64,
    acq: u64,
    rel: u64,
    end: u64,
}

struct AtomicRec {
    begin: u64,
    end: u64,
    got: Option<H>,
}

struct Job {
    f: *mut dyn FnMut(bool),
    owner: usize,
    queued: bool,
    done: bool,
    hb: Hb,
}

pub struct Sim {
    plan: &'static Plan,
    /// Whether handles that come in another order than the documented one count
    /// as a violation; if not, the model follows the world.
    strict_order: bool,
    world: *mut World,
    pub m: Model,
    /// A second world, that waits.
    other: Option<(*mut World, Model)>,
    writer: bool,
    readers: usize,
    hb_w: Hb,
    hb_r: Hb,
    seq: u64,
    attempts: Vec<Attempt>,
    atomics: Vec<AtomicRec>,
    /// Drops that have to happen before the world is gone.
    due: Vec<(u8, u32)>,
    due_g: i64,
    jobs: Vec<*mut Job>,
    first_worker: usize,
    stop: bool,
    vals: u32,
    pub counters: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub kf1: u64,
    /// Whether the known finding is listed as such.
    kf1_listed: bool,
    pub trace: Option<Vec<String>>,
    /// Entity that operations have to take instead of the selected one.
    force: Option<H>,
    /// Whether the world is to be looked at less often.
    calm: bool,
    /// Cycles executed.
    cycles: u32,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
fn world() -> &'static World {
    unsafe { &*sim().world }
}
fn world_mut() -> &'static mut World {
    unsafe { &mut *sim().world }
}
/// Where to count refused operations.
pub static mut REFUSED: *mut u64 = std::ptr::null_mut();

pub fn bump(k: &'static str) {
    if k.starts_with("refused") {
        unsafe {
            if !REFUSED.is_null() {
                *REFUSED += 1;
            }
        }
    }
    *sim().counters.entry(k).or_insert(0) += 1;
}
fn tick() -> u64 {
    let s = sim();
    s.seq += 1;
    s.seq
}
fn next_val() -> u8 {
    let s = sim();
    s.vals = s.vals.wrapping_add(1);
    (s.vals.wrapping_mul(37) >> 1) as u8
}
macro_rules! trace {
    ($($a:tt)*) => {
        if sim().trace.is_some() {
            let t = rt::current();
            eprintln!("[{}] t{} {}", sim().seq, t, format!($($a)*));
        }
    };
}
macro_rules! bad {
    ($c:expr, $($a:tt)*) => {
        rt::fail($c, &format!($($a)*))
    };
}
fn unexpected(what: &str, c: Caught) -> ! {
    match c {
        Caught::Fault => bad!("panic", "{what}: an injected fault surfaced where none was due"),
        Caught::Panic(s) => bad!("panic", "{what} panicked: {s}"),
    }
}

// -------------------------------------------------------------------------- lock

static LOCK_KEY: u8 = 0;
static POOL_KEY: u8 = 0;
fn lock_key() -> *const u8 {
    &LOCK_KEY
}
fn pool_key() -> *const u8 {
    unsafe { (&POOL_KEY as *const u8).add(1) }
}

fn write_lock() {
    while sim().writer || sim().readers > 0 {
        rt::block(lock_key());
    }
    let s = sim();
    s.writer = true;
    s.hb_w.acquire();
    s.hb_r.acquire();
    settle();
    s.attempts.clear();
}
fn write_unlock() {
    let s = sim();
    s.hb_w.release();
    s.writer = false;
    s.states.insert(s.m.fingerprint());
    rt::wake(lock_key());
    rt::yield_now();
}
fn read_lock() {
    while sim().writer {
        rt::block(lock_key());
    }
    let s = sim();
    s.readers += 1;
    s.hb_w.acquire();
}
fn read_unlock() {
    let s = sim();
    s.hb_r.release();
    s.readers -= 1;
    if s.readers == 0 {
        rt::wake(lock_key());
    }
    rt::yield_now();
}

// ------------------------------------------------------------------------- pool

fn pool_threads() -> usize {
    harness(|| sim().plan.workers.max(1))
}
fn pool_index() -> Option<usize> {
    harness(|| {
        let c = rt::current();
        let s = sim();
        (c >= s.first_worker && c < s.first_worker + s.plan.workers).then(|| c - s.first_worker)
    })
}

fn run_job(j: *mut Job, migrated: bool) {
    let job = unsafe { &mut *j };
    job.hb.acquire();
    if migrated {
        bump("jobs stolen");
    }
    sut(|| unsafe { (*job.f)(migrated) });
    let job = unsafe { &mut *j };
    job.hb.release();
    job.done = true;
    rt::wake(pool_key());
}

/// The oldest queued job of some thread, which a decision picks.
fn steal() -> Option<*mut Job> {
    let s = sim();
    let mut owners: Vec<usize> = s.jobs.iter().map(|j| unsafe { (**j).owner }).collect();
    owners.sort();
    owners.dedup();
    if owners.is_empty() {
        return None;
    }
    let o = owners[rt::decide(owners.len())];
    let i = s.jobs.iter().position(|j| unsafe { (**j).owner } == o)?;
    let j = s.jobs.remove(i);
    unsafe { (*j).queued = false };
    Some(j)
}

fn push_job(j: &mut Job) {
    j.hb.release();
    sim().jobs.push(j);
    rt::wake(pool_key());
}

fn wait_job(j: &mut Job, may_help: bool) {
    let p: *mut Job = j;
    while unsafe { !std::ptr::read_volatile(&(*p).done) } {
        if may_help && !sim().jobs.is_empty() && rt::decide(2) == 0 {
            if let Some(other) = steal() {
                run_job(other, true);
            }
            continue;
        }
        rt::block(pool_key());
    }
    j.hb.acquire();
}

fn join_here(a: &mut dyn FnMut(bool), b: &mut dyn FnMut(bool), migrated: bool) {
    bump("joins");
    let bp: *mut (dyn FnMut(bool) + '_) = b;
    let bp: *mut (dyn FnMut(bool) + 'static) = unsafe { std::mem::transmute(bp) };
    let mut job = Job { f: bp, owner: rt::current(), queued: true, done: false, hb: Hb::new() };
    push_job(&mut job);
    rt::yield_now();
    sut(|| a(migrated));
    let p: *mut Job = &mut job;
    if unsafe { std::ptr::read_volatile(&(*p).queued) } {
        sim().jobs.retain(|j| *j != p);
        sut(|| unsafe { (*bp)(false) });
    } else {
        wait_job(&mut job, true);
    }
}

fn sim_join(a: &mut dyn FnMut(bool), b: &mut dyn FnMut(bool)) {
    harness(|| {
        if sim().plan.workers == 0 {
            sut(|| a(false));
            sut(|| b(false));
        } else if pool_index().is_some() {
            join_here(a, b, false);
        } else {
            // The caller is no worker: the whole task moves into the pool.
            bump("tasks injected");
            let mut f = |_: bool| harness(|| join_here(a, b, true));
            let fp: *mut (dyn FnMut(bool) + '_) = &mut f;
            let fp: *mut (dyn FnMut(bool) + 'static) = unsafe { std::mem::transmute(fp) };
            let mut job = Job { f: fp, owner: rt::current(), queued: true, done: false, hb: Hb::new() };
            push_job(&mut job);
            wait_job(&mut job, false);
        }
    })
}

static HOOKS: rayon_core::SimHooks =
    rayon_core::SimHooks { join: sim_join, threads: pool_threads, index: pool_index };

extern "C" fn worker_main(_: *mut u8) {
    guarded(|| {
        while !sim().stop {
            match steal() {
                Some(j) => run_job(j, true),
                None => rt::block(pool_key()),
            }
        }
    })
}

fn guarded(f: impl FnOnce()) {
    if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        match rt::classify(p) {
            Caught::Fault => rt::harness_error("an injected fault escaped"),
            Caught::Panic(s) => rt::harness_error(&format!("the harness panicked: {s}")),
        }
    }
}

// ----------------------------------------------------------------- borrow oracle

fn conflict(a: &[(u8, bool)], b: &[(u8, bool)]) -> Option<u8> {
    for x in a {
        for y in b {
            if x.0 == y.0 && (x.1 || y.1) {
                return Some(x.0);
            }
        }
    }
    None
}
fn conflict_self(a: &[(u8, bool)]) -> bool {
    (0..a.len()).any(|i| conflict(&a[..i], &a[i..=i]).is_some())
}
fn unregistered(a: &[(u8, bool)]) -> Option<u8> {
    a.iter().map(|x| x.0).find(|k| !sim().m.registered.contains(k))
}

fn attempt(kinds: Vec<(u8, bool)>) -> usize {
    let begin = tick();
    sim().attempts.push(Attempt { kinds, begin, acq: 0, rel: 0, end: 0 });
    sim().attempts.len() - 1
}
/// The borrow succeeded at some point before now.
fn acquired(id: usize, still_held: bool) {
    let t = tick();
    let s = sim();
    s.attempts[id].acq = t;
    let a = &s.attempts[id];
    if let Some(k) = unregistered(&a.kinds) {
        bad!("unregistered", "unregistered component {} was borrowed", kname(k));
    }
    if conflict_self(&a.kinds) {
        bad!("borrow-both", "one query borrowed a component exclusively and once more");
    }
    if still_held {
        for (i, b) in s.attempts.iter().enumerate() {
            if i != id && b.acq != 0 && b.rel == 0 {
                if let Some(k) = conflict(&a.kinds, &b.kinds) {
                    bad!("borrow-both", "component {} is borrowed twice at once, at least once exclusively", kname(k));
                }
            }
        }
    }
}
fn releasing(id: usize) {
    let t = tick();
    let a = &mut sim().attempts[id];
    if a.rel == 0 {
        a.rel = t;
    }
}
fn ended(id: usize) {
    releasing(id);
    let t = tick();
    sim().attempts[id].end = t;
}
fn refused(id: usize, what: &str, c: Caught) {
    let Caught::Panic(msg) = c else { unexpected(what, c) };
    ended(id);
    let s = sim();
    let a = &s.attempts[id];
    if unregistered(&a.kinds).is_some() {
        bump("refused: unregistered");
        return;
    }
    if conflict_self(&a.kinds) {
        bump("refused: conflict with itself");
        return;
    }
    for (i, b) in s.attempts.iter().enumerate() {
        if i != id && (b.end == 0 || b.end >= a.begin) && conflict(&a.kinds, &b.kinds).is_some() {
            bump("refused: conflict with another borrow");
            return;
        }
    }
    bad!("borrow-refused", "{what} was refused although nothing conflicting was borrowed: {msg}");
}
fn spec_kinds(s: &SpecVt) -> Vec<(u8, bool)> {
    s.get
        .iter()
        .chain(&s.inc)
        .chain(&s.exc)
        .filter(|d| d.mode != Mode::Ent)
        .map(|d| (d.kind, d.is_mut()))
        .collect()
}
pub fn spec_name(s: &SpecVt) -> String {
    let n = |v: &[PartDesc]| v.iter().map(|d| d.name()).collect::<Vec<_>>().join(", ");
    let mut t = format!("query ({})", n(&s.get));
    if !s.inc.is_empty() {
        t += &format!(" include ({})", n(&s.inc));
    }
    if !s.exc.is_empty() {
        t += &format!(" exclude ({})", n(&s.exc));
    }
    t
}

// ------------------------------------------------------------------ model queries

fn has_required(s: &SpecVt) -> bool {
    s.get.iter().chain(&s.inc).any(|d| d.required())
}
fn matches(s: &SpecVt, c: &Comps) -> bool {
    s.get.iter().chain(&s.inc).all(|d| !d.required() || c.contains_key(&d.kind))
        && s.exc.iter().all(|d| !c.contains_key(&d.kind))
}
fn expected(s: &SpecVt) -> Vec<H> {
    sim().m.alive.iter().filter(|(_, c)| matches(s, c)).map(|(h, _)| *h).collect()
}

/// Whether the layout in force makes the query dense, and whether it falls under
/// the known finding about excluding several components of one nested group.
fn dense_rule(s: &SpecVt) -> (bool, Option<(BTreeSet<u8>, BTreeSet<u8>)>) {
    let set: BTreeSet<u8> = s.get.iter().chain(&s.inc).filter(|d| d.required()).map(|d| d.kind).collect();
    let exc: BTreeSet<u8> = s.exc.iter().map(|d| d.kind).collect();
    if s.exc.iter().any(|d| !d.required()) || s.get.iter().any(|d| matches!(d.mode, Mode::Opt | Mode::OptMut)) {
        // Not promised, but the known finding applies all the same.
        return (false, kf_shape(&set, &exc));
    }
    if exc.len() < s.exc.len() || set.len() < s.get.iter().chain(&s.inc).filter(|d| d.required()).count() {
        // Parts that name a component twice: nothing is promised.
        return (false, None);
    }
    let g = &sim().m.groups;
    if set.len() == 1 && s.get.iter().filter(|d| d.required()).count() == 1 && s.inc.is_empty() && exc.is_empty() {
        return (true, None);
    }
    if !g.contains(&set) {
        return (false, None);
    }
    if exc.is_empty() {
        return (true, None);
    }
    let all: BTreeSet<u8> = set.union(&exc).copied().collect();
    let next = g.iter().filter(|x| x.len() > set.len() && set.is_subset(x)).min_by_key(|x| x.len());
    if next == Some(&all) && exc.is_disjoint(&set) {
        if exc.len() == 1 {
            return (true, None);
        }
        return (false, sim().kf1_listed.then_some((set, all)));
    }
    (false, None)
}
fn kf_shape(set: &BTreeSet<u8>, exc: &BTreeSet<u8>) -> Option<(BTreeSet<u8>, BTreeSet<u8>)> {
    let g = &sim().m.groups;
    if !sim().kf1_listed || !g.contains(set) || exc.len() < 2 || !exc.is_disjoint(set) {
        return None;
    }
    let all: BTreeSet<u8> = set.union(exc).copied().collect();
    let next = g.iter().filter(|x| x.len() > set.len() && set.is_subset(x)).min_by_key(|x| x.len());
    (next == Some(&all)).then(|| (set.clone(), all))
}

/// Compares what a query yielded with what it had to.
fn compare(s: &SpecVt, got: &[H], what: &str) {
    let mut v = got.to_vec();
    v.sort();
    if let Some(w) = v.windows(2).find(|w| w[0] == w[1]) {
        bad!("query-dup", "{what} yields entity {} twice", hname(w[0]));
    }
    let want = expected(s);
    if v == want {
        return;
    }
    if let (_, Some((p, c))) = dense_rule(s) {
        let dev: Vec<H> = sim()
            .m
            .alive
            .iter()
            .filter(|(_, x)| p.iter().all(|k| x.contains_key(k)) && !c.iter().all(|k| x.contains_key(k)))
            .map(|(h, _)| *h)
            .collect();
        if v == dev {
            sim().kf1 += 1;
            return;
        }
    }
    if let Some(h) = v.iter().find(|h| !want.contains(h)) {
        bad!("query-extra", "{what} yields entity {}, which does not match", hname(*h));
    }
    let h = want.iter().find(|h| !v.contains(h)).unwrap();
    bad!("query-missing", "{what} does not yield entity {}, which matches", hname(*h));
}

// ---------------------------------------------------------------- running queries

struct QState {
    items: Vec<Option<H>>,
    /// Where the current round of items starts.
    round: usize,
    acquired: bool,
    fired: bool,
    dense: Option<bool>,
    sliced: bool,
    /// How many items there are, unless a known finding applies.
    want: Option<Option<usize>>,
    at: Option<(usize, Vec<(usize, usize)>)>,
    picked: Option<(usize, Vec<(usize, usize)>, Picked)>,
    order: Option<Vec<usize>>,
    one: Option<(bool, bool)>,
    threads: BTreeSet<usize>,
}

struct QRun {
    spec: &'static SpecVt,
    op: *const Op,
    id: usize,
    mode: i64,
    mutate: bool,
    fault: i64,
    /// The borrow ends inside of the call, unseen.
    inner: bool,
    target: Option<H>,
    depth: usize,
    st: UnsafeCell<QState>,
}

impl QRun {
    fn new(spec: &'static SpecVt, op: &Op, mode: i64, mutate: bool, fault: i64, depth: usize) -> QRun {
        QRun {
            spec,
            op,
            id: attempt(spec_kinds(spec)),
            mode,
            mutate,
            fault,
            inner: matches!(mode, M_WORLD | M_PAR_WORLD),
            target: None,
            depth,
            st: UnsafeCell::new(QState {
                items: vec![],
                round: 0,
                acquired: false,
                fired: false,
                dense: None,
                sliced: false,
                want: None,
                at: None,
                picked: None,
                order: None,
                one: None,
                threads: BTreeSet::new(),
            }),
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut QState {
        unsafe { &mut *self.st.get() }
    }
    fn sink(&self) -> S {
        let p: *const (dyn QSink + '_) = self;
        S(unsafe { std::mem::transmute::<*const (dyn QSink + '_), *const (dyn QSink + 'static)>(p) })
    }
    fn name(&self) -> String {
        spec_name(self.spec)
    }

    /// Checks one item; returns the entity it belongs to, if that can be told.
    fn check_item(&self, p: &[PartRef], v: &[Val]) -> Option<H> {
        let m = &sim().m;
        if let Some(t) = self.target {
            if !has_required(self.spec) && !m.alive.contains_key(&t) {
                for q in p {
                    if q.present() || q.ent.is_some_and(|e| key(e) != t) {
                        bad!(
                            "stale-query",
                            "{} of entity {}, which is not alive, yields a part of another entity",
                            self.name(), hname(t)
                        );
                    }
                }
                return None;
            }
        }
        let mut h = None;
        for q in p {
            if let Some(e) = q.ent {
                h = Some(key(e));
            }
        }
        if let Some(h) = h {
            if !m.alive.contains_key(&h) {
                bad!("query-extra", "{} yields entity {}, which is not alive", self.name(), hname(h));
            }
        }
        for (q, v) in p.iter().zip(v) {
            if q.d.mode == Mode::Ent || !q.present() || q.d.kind == K_G {
                continue;
            }
            let o = m.owner_of(v.0).filter(|o| m.alive[o].get(&q.d.kind).map(|c| c.0) == Some(v.0));
            if o.is_none() || !v.2 {
                bad!("query-value", "{} yields a {} that is no component of any live entity", self.name(), kname(q.d.kind));
            }
            if h.is_some() && o != h {
                bad!("query-value", "{} mixes components of entities {} and {}", self.name(), hname(h.unwrap()), hname(o.unwrap()));
            }
            h = o;
        }
        let h = h?;
        let c = &m.alive[&h];
        for (q, v) in p.iter().zip(v) {
            if q.d.mode == Mode::Ent {
                continue;
            }
            match c.get(&q.d.kind) {
                Some(x) if q.present() => {
                    if (v.0, v.1) != *x {
                        bad!(
                            "query-value",
                            "{} shows value {} for {} of entity {}, last written was {}",
                            self.name(), v.1, kname(q.d.kind), hname(h), x.1
                        );
                    }
                }
                None if !q.present() => (),
                _ => bad!(
                    "query-optional",
                    "{} is wrong about whether entity {} has {}",
                    self.name(), hname(h), kname(q.d.kind)
                ),
            }
        }
        if !matches(self.spec, c) && dense_rule(self.spec).1.is_none() {
            bad!("query-extra", "{} yields entity {}, which does not match", self.name(), hname(h));
        }
        if self.target.is_some() && self.target != Some(h) {
            bad!("query-value", "{} of entity {} yields entity {}", self.name(), hname(self.target.unwrap()), hname(h));
        }
        Some(h)
    }

    fn finish(&self) {
        let st = self.st();
        if is_par(self.mode) {
            bump("parallel iterations");
            if st.threads.len() > 1 {
                bump("parallel iterations on several threads");
            }
            *sim().counters.entry("parallel items").or_insert(0) += st.items.len() as u64;
        }
        let (must, kf) = dense_rule(self.spec);
        if must && st.dense == Some(false) {
            bad!("dense-missing", "{} is not dense although it is exactly a group", self.name());
        }
        if self.mode == M_SLICE {
            return;
        }
        let items = &st.items[st.round..];
        if st.round > 0 {
            self.compare_round(&st.items[..st.round]);
        }
        if self.mode == M_PARTIAL {
            let want = expected(self.spec);
            let k = unsafe { (*self.op).a[2].max(0) as usize };
            if kf.is_none() && items.len() != want.len().min(k) {
                bad!("query-missing", "{} ended after {} of {} items", self.name(), items.len(), want.len());
            }
            let mut v: Vec<H> = items.iter().flatten().copied().collect();
            v.sort();
            if v.windows(2).any(|w| w[0] == w[1]) {
                bad!("query-dup", "{} yields an entity twice", self.name());
            }
            return;
        }
        if let Some((len, at, want)) = &st.picked {
            self.check_picked(*len, at, *want);
            return;
        }
        self.compare_round(items);
        if let Some((len, at)) = &st.at {
            if *len != items.len() || at.len() != *len {
                bad!("par-index", "{} reports length {} but has {} items", self.name(), len, items.len());
            }
            let mut seen = at.clone();
            seen.sort();
            for (i, (pos, slot)) in seen.iter().enumerate() {
                if i != *pos {
                    bad!("par-index", "{}: position {} was reported as {}", self.name(), i, pos);
                }
                if st.round == *len && st.items[i] != st.items[*slot] {
                    bad!("par-index", "{}: position {} holds another entity than in sequential iteration", self.name(), i);
                }
            }
            let fwd = at.iter().enumerate().all(|(i, x)| x.0 == i);
            let rev = at.iter().rev().enumerate().all(|(i, x)| x.0 == i);
            if !(if self.mode == M_PAR_REV { rev } else { fwd }) {
                bad!("par-index", "{}: collected items are out of order", self.name());
            }
        }
        if let Some(slots) = &st.order {
            let mut v = slots.clone();
            v.sort();
            if v.len() != items.len() || v.windows(2).any(|w| w[0] == w[1]) {
                bad!("par-collect", "{}: {} items were collected from {} calls", self.name(), v.len(), items.len());
            }
        }
    }
    /// What a parallel iterator did of which only a part was asked for.
    fn check_picked(&self, len: usize, at: &[(usize, usize)], want: Picked) {
        let st = self.st();
        let items = &st.items[st.round..];
        let mut v: Vec<H> = items.iter().flatten().copied().collect();
        v.sort();
        if v.windows(2).any(|w| w[0] == w[1]) {
            bad!("query-dup", "{} ({want:?}) yields an entity twice", self.name());
        }
        let positions: Vec<usize> = match want {
            Picked::Until(stopped) => {
                let n = unsafe { (*self.op).a[2].max(0) as usize } / 8 % 12;
                if stopped != (items.len() > n) {
                    bad!("par-stop", "{}: {} calls were made and the {}th asks to stop, but stopped is {stopped}", self.name(), items.len(), n + 1);
                }
                if !stopped {
                    self.compare_round(items);
                }
                return;
            }
            Picked::Skip(n) => (n.min(len)..len).collect(),
            Picked::Take(n) | Picked::Zip(n) => (0..n.min(len)).collect(),
            Picked::Every(n) => (0..len).step_by(n).collect(),
            Picked::Chunks(_) => (0..len).collect(),
        };
        if st.round != len {
            bad!("par-index", "{} reports length {len} but has {} items", self.name(), st.round);
        }
        let got: Vec<usize> = at.iter().map(|x| x.0).collect();
        if got != positions || items.len() != got.len() {
            bad!("par-index", "{} ({want:?}) hands out positions {got:?} of {len} in {} calls", self.name(), items.len());
        }
        for (pos, slot) in at {
            if st.items[*pos] != st.items[*slot] {
                bad!("par-index", "{} ({want:?}): position {pos} holds another entity than in sequential iteration", self.name());
            }
        }
    }
    fn compare_round(&self, items: &[Option<H>]) {
        let v: Vec<H> = items.iter().flatten().copied().collect();
        if v.len() == items.len() {
            compare(self.spec, &v, &self.name());
        } else {
            let want = expected(self.spec).len();
            if items.len() != want && dense_rule(self.spec).1.is_none() {
                bad!(
                    if items.len() < want { "query-missing" } else { "query-extra" },
                    "{} yields {} items instead of {}", self.name(), items.len(), want
                );
            }
        }
    }
}

impl QSink for QRun {
    fn acquired(&self) {
        harness(|| {
            self.st().acquired = true;
            acquired(self.id, true);
            rt::yield_now();
        })
    }
    fn releasing(&self) {
        harness(|| {
            rt::yield_now();
            releasing(self.id)
        })
    }
    fn dense(&self, dense: bool) {
        harness(|| {
            self.st().dense = Some(dense);
            bump(if dense { "dense queries" } else { "sparse queries" });
        })
    }
    fn hint(&self, lo: usize, hi: Option<usize>) {
        harness(|| {
            let st = self.st();
            // Nothing joins or leaves a query while it runs.
            let want = *st.want.get_or_insert_with(|| {
                dense_rule(self.spec).1.is_none().then(|| expected(self.spec).len())
            });
            let Some(want) = want else { return };
            let left = want as i64 - (st.items.len() - st.round) as i64;
            if left >= 0 && (lo as i64 > left || hi.is_some_and(|h| (h as i64) < left)) {
                bad!("query-hint", "{} announces {}..{:?} items while {} are left", self.name(), lo, hi, left);
            }
        })
    }
    fn visit(&self, p: &Parts) -> usize {
        let p = p.all();
        let mut v = [(0u32, 0u8, true); 16];
        for (i, q) in p.iter().enumerate() {
            if q.present() {
                v[i] = q.get();
            }
        }
        let slot = harness(|| {
            let st = self.st();
            if !st.acquired {
                st.acquired = true;
                acquired(self.id, true);
                if self.inner {
                    releasing(self.id);
                }
            }
            let h = self.check_item(p, &v[..p.len()]);
            let st = self.st();
            st.threads.insert(rt::current());
            st.items.push(h);
            rt::hash(h.unwrap_or(0));
            st.items.len() - 1
        });
        let h = self.st().items[slot];
        if self.mutate {
            if let Some(h) = h {
                for q in p {
                    if q.d.is_mut() && q.present() && q.d.kind != K_G {
                        let nv = harness(|| {
                            rt::yield_now();
                            bump("writes");
                            next_val()
                        });
                        q.set(nv);
                        harness(|| {
                            if let Some(x) = sim().m.alive.get_mut(&h).and_then(|c| c.get_mut(&q.d.kind)) {
                                x.1 = nv;
                            }
                        });
                    }
                }
            }
        }
        harness(rt::yield_now);
        // Nobody else may have touched what this call was given.
        if let Some(h) = h {
            for q in p {
                if q.present() {
                    let got = q.get();
                    harness(|| {
                        let want = sim().m.alive.get(&h).and_then(|c| c.get(&q.d.kind)).copied();
                        if want != Some((got.0, got.1)) || !got.2 {
                            bad!("query-alias", "{}: {} of entity {} changed during the call", self.name(), kname(q.d.kind), hname(h));
                        }
                    });
                }
            }
        }
        harness(|| {
            let op = unsafe { &*self.op };
            let i = slot - self.st().round.min(slot);
            if i < op.sub.len() && self.depth < 2 {
                exec_shared(&op.sub[i], self.depth + 1);
            }
        });
        if self.fault > 0 && slot as i64 == self.fault - 1 && !self.st().fired {
            harness(|| {
                self.st().fired = true;
                bump("panics in a query closure");
                if is_par(self.mode) {
                    bump("panics in a parallel closure");
                }
                releasing(self.id);
            });
            rt::raise_fault();
        }
        slot
    }
    fn slices(&self, s: &[SliceRef]) {
        harness(|| bump("slices"));
        let lens: Vec<usize> = harness(|| s.iter().filter_map(|x| x.len).collect());
        harness(|| {
            self.st().sliced = true;
            self.st().dense = Some(true);
            if lens.windows(2).any(|w| w[0] != w[1]) {
                bad!("slice-len", "{}: slices have lengths {:?}", self.name(), lens);
            }
        });
        let n = lens.first().copied();
        harness(|| drop(lens));
        // Queries that only include and exclude have no slices to look at.
        let Some(n) = n else { return };
        let mut found: Vec<H> = Vec::new();
        for i in 0..n {
            let mut h: Option<H> = None;
            for x in s {
                if x.len.is_none() {
                    continue;
                }
                if x.kind == 255 {
                    let e = x.entity(i);
                    h = Some(key(e));
                    harness(|| {
                        if !sim().m.alive.contains_key(&key(e)) {
                            bad!("slice-value", "{}: position {} holds entity {}, which is not alive", self.name(), i, hname(key(e)));
                        }
                    });
                    continue;
                }
                let v = x.get(i);
                harness(|| {
                    if x.kind == K_G {
                        return;
                    }
                    let m = &sim().m;
                    let o = m.owner_of(v.0).filter(|o| m.alive[o].get(&x.kind) == Some(&(v.0, v.1)));
                    if o.is_none() || !v.2 {
                        bad!("slice-value", "{}: position {} of the {} slice holds no component of a live entity", self.name(), i, kname(x.kind));
                    }
                    if h.is_some() && h != o {
                        bad!(
                            "slice-align",
                            "{}: position {} belongs to entity {} in one slice and to {} in another",
                            self.name(), i, hname(h.unwrap()), hname(o.unwrap())
                        );
                    }
                    h = o;
                });
            }
            if self.mutate {
                for x in s {
                    if x.is_mut && x.kind != K_G {
                        if let Some(h) = h {
                            let nv = harness(next_val);
                            x.set(i, nv);
                            harness(|| {
                                if let Some(c) = sim().m.alive.get_mut(&h).and_then(|c| c.get_mut(&x.kind)) {
                                    c.1 = nv;
                                }
                            });
                        }
                    }
                }
            }
            harness(|| found.extend(h));
        }
        harness(|| {
            rt::yield_now();
            if found.len() == n {
                compare(self.spec, &found, &format!("slice of {}", self.name()));
            } else if n != expected(self.spec).len() && dense_rule(self.spec).1.is_none() {
                bad!("slice-len", "{}: slices have length {} instead of {}", self.name(), n, expected(self.spec).len());
            }
            drop(found);
        });
    }
    fn collected(&self, slots: &[usize]) {
        harness(|| self.st().order = Some(slots.to_vec()))
    }
    fn indexed(&self, len: usize, at: &[(usize, usize)]) {
        harness(|| self.st().at = Some((len, at.to_vec())))
    }
    fn picked(&self, len: usize, at: &[(usize, usize)], want: Picked) {
        harness(|| {
            bump("parallel adaptors");
            self.st().picked = Some((len, at.to_vec(), want))
        })
    }
    fn enough(&self, slot: usize, n: usize) -> bool {
        harness(|| slot - self.st().round.min(slot) == n)
    }
    fn restart(&self) {
        harness(|| self.st().round = self.st().items.len())
    }
    fn not_fused(&self) {
        harness(|| bad!("query-extra", "{} yields another item after its end", self.name()))
    }
    fn one(&self, contains: bool, got: Option<usize>) {
        harness(|| self.st().one = Some((contains, got.is_some())))
    }
}

fn do_query(op: &Op, depth: usize) {
    let specs = &tab().specs;
    let spec = &specs[op.a[0].rem_euclid(specs.len() as i64) as usize];
    if !has_required(spec) {
        return;
    }
    let mut mode = op.a[1].rem_euclid(M_COUNT);
    if matches!(mode, M_WORLD | M_PAR_WORLD) && spec.world.is_none() {
        mode = if mode == M_PAR_WORLD { M_PAR } else { M_FOLD };
    }
    if is_par(mode) && spec.par.is_none() {
        mode = M_NEXT;
    }
    bump(match mode {
        M_SLICE => "slice calls",
        m if is_par(m) => "parallel queries",
        _ => "sequential queries",
    });
    let q = QRun::new(spec, op, mode, op.a[3] != 0, op.a[4], depth);
    trace!("{} mode {mode}", spec_name(spec));
    let s = q.sink();
    let k = op.a[2].max(0) as usize;
    let flip = op.a[5] != 0;
    let w = world();
    let r = try_sut(|| match mode {
        M_WORLD | M_PAR_WORLD => (spec.world.unwrap())(w, s, mode),
        m if is_par(m) => (spec.par.unwrap())(w, s, m, k, flip),
        m => (spec.all)(w, s, m, k, flip),
    });
    done_query(&q, r);
}

fn done_query(q: &QRun, r: Result<(), Caught>) {
    match r {
        Ok(()) => {
            if !q.st().acquired {
                acquired(q.id, false);
            }
            ended(q.id);
            if q.st().fired {
                bad!("panic-lost", "{}: a panic in the closure did not reach the caller", q.name());
            }
            if q.target.is_none() {
                q.finish();
            }
        }
        Err(Caught::Fault) if q.st().fired => ended(q.id),
        Err(c) => {
            if q.st().acquired {
                unexpected(&q.name(), c);
            }
            refused(q.id, &q.name(), c);
        }
    }
}

fn do_query_one(op: &Op, depth: usize) {
    let specs = &tab().specs;
    let spec = &specs[op.a[0].rem_euclid(specs.len() as i64) as usize];
    let Some(h) = pick(op.a[1]) else { return };
    bump("single lookups");
    let mut q = QRun::new(spec, op, -1, op.a[3] != 0, op.a[4], depth);
    q.target = Some(h);
    trace!("lookup {} {}", hname(h), spec_name(spec));
    let s = q.sink();
    let w = world();
    let (how, flip) = (op.a[2] & 1, op.a[5] != 0);
    let r = try_sut(|| (spec.one)(w, s, ent(h), how, flip));
    let ok = r.is_ok();
    done_query(&q, r);
    if ok {
        let want = sim().m.alive.get(&h).is_some_and(|c| matches(spec, c));
        let (c, g) = q.st().one.unwrap();
        if !has_required(spec) && !sim().m.alive.contains_key(&h) {
            // Nothing says whether nothing is a match; the parts were checked.
            return;
        }
        if c != want || g != want {
            let cls = if sim().m.alive.contains_key(&h) { "one-wrong" } else { "stale-query" };
            bad!(
                cls,
                "single lookup of entity {} by {}: contains says {}, get {}, should be {}",
                hname(h), q.name(), c, g, want
            );
        }
    }
}

fn do_contains(op: &Op) {
    let specs = &tab().specs;
    let spec = &specs[op.a[0].rem_euclid(specs.len() as i64) as usize];
    if !spec.get.iter().any(|d| d.required()) {
        return;
    }
    let Some(h) = pick(op.a[1]) else { return };
    let kinds: Vec<(u8, bool)> =
        spec.get.iter().filter(|d| d.mode != Mode::Ent).map(|d| (d.kind, d.is_mut())).collect();
    let id = attempt(kinds);
    let w = world();
    match try_sut(|| (spec.contains)(w, ent(h))) {
        Ok(got) => {
            acquired(id, false);
            ended(id);
            let want = sim().m.alive.get(&h).is_some_and(|c| {
                spec.get.iter().all(|d| !d.required() || c.contains_key(&d.kind))
            });
            if got != want {
                let cls = if sim().m.alive.contains_key(&h) { "one-wrong" } else { "stale-query" };
                bad!(cls, "World::contains of {} says {} for entity {}", spec_name(spec), got, hname(h));
            }
        }
        Err(c) => refused(id, "World::contains", c),
    }
}

/// Handles that differ from a given one in the version alone.
fn variants(h: H) -> [H; 6] {
    let v = h as u32;
    [v.wrapping_add(1), v.wrapping_sub(1), v ^ 1 << 8, v ^ 1 << 16, v ^ 1 << 31, v ^ 1 << 24]
        .map(|v| h & !0xffff_ffff | v.max(1) as u64)
}

// ------------------------------------------------------------------------- views

/// Compares a borrowed view with the model.
fn check_view(v: &dyn DynView, k: u8) {
    if sim().plan.blind {
        return;
    }
    let m = &sim().m;
    let want: Vec<H> = m.alive.iter().filter(|(_, c)| c.contains_key(&k)).map(|(h, _)| *h).collect();
    let name = kname(k);
    let (len, empty, ne, ns) = sut(|| (v.len(), v.is_empty(), v.entity_count(), v.slice_len()));
    if len != want.len() || empty != want.is_empty() || ne != len || ns != len {
        bad!(
            "view-len",
            "view of {name}: len {len}, {ne} entities, {ns} components, is_empty {empty}; there are {}",
            want.len()
        );
    }
    let mut got = vec![];
    for i in 0..len {
        let (e, c) = sut(|| (v.entity_at(i), v.slice_at(i)));
        let (Some(e), Some(c)) = (e, c) else { bad!("view-len", "view of {name}: position {i} is missing") };
        let h = key(e);
        got.push(h);
        match m.alive.get(&h).and_then(|x| x.get(&k)) {
            None => bad!("view-entity", "view of {name} lists entity {}, which has none", hname(h)),
            Some(x) if *x == (c.0, c.1) && c.2 => (),
            Some(x) => bad!(
                "view-value",
                "view of {name}: position {i} shows value {} (#{}), entity {} has {} (#{})",
                c.1, c.0, hname(h), x.1, x.0
            ),
        }
    }
    got.sort();
    if got != want {
        bad!("view-entity", "view of {name} does not list its entities exactly once");
    }
    for h in &want {
        let e = ent(*h);
        let (has, g) = sut(|| (v.contains(e), v.get(e)));
        let x = m.alive[h][&k];
        if !has || g != Some((x.0, x.1, true)) {
            bad!("view-get", "view of {name}: contains {has}, get {g:?} for entity {}, which has {x:?}", hname(*h));
        }
    }
    for h in want.iter().take(3).flat_map(|h| variants(*h)) {
        let (has, g) = sut(|| (v.contains(ent(h)), v.get(ent(h))));
        if (has || g.is_some()) && !m.alive.contains_key(&h) {
            bad!("stale-made-up", "view of {name}: contains {has}, get {g:?} for {}, which is not alive", hname(h));
        }
    }
    if let Some(h) = want.first() {
        let g = sut(|| v.index(ent(*h)));
        if (g.0, g.1) != m.alive[h][&k] {
            bad!("view-get", "view of {name}: indexing by entity {} gives {g:?}", hname(*h));
        }
    }
    let n = sim().vals as usize;
    let others: Vec<H> = m.alive.iter().filter(|(_, c)| !c.contains_key(&k)).map(|(h, _)| *h).collect();
    let dead: Vec<H> = m.dead.iter().filter(|h| !m.alive.contains_key(h)).copied().collect();
    for i in 0..3 {
        for l in [&others, &dead] {
            if !l.is_empty() {
                let h = l[l.len() - 1 - (i * (n + 1)) % l.len()];
                let (has, g) = sut(|| (v.contains(ent(h)), v.get(ent(h))));
                if has || g.is_some() {
                    let cls = if m.alive.contains_key(&h) { "view-get" } else { "stale-view" };
                    bad!(cls, "view of {name}: contains {has}, get {g:?} for entity {}, which has none", hname(h));
                }
                if i == 0 && (n + k as usize) % 3 == 0 {
                    index_refused(h, k, || v.index(ent(h)));
                }
            }
        }
    }
}

fn in_one_group(x: u8, y: u8) -> bool {
    sim().m.groups.iter().any(|g| g.contains(&x) && g.contains(&y))
}

/// Views know whether their components are grouped, and with which others.
fn check_infos(a: (u8, Option<Option<GroupInfo>>), b: (u8, Option<Option<GroupInfo>>)) {
    if sim().plan.blind {
        return;
    }
    let together = in_one_group;
    for (k, i) in [a, b] {
        if i.is_some_and(|i| i.is_some() != together(k, k)) {
            bad!("group-info", "the view of {} says grouped: {:?}", kname(k), i.map(|i| i.is_some()));
        }
    }
    if let ((x, Some(i)), (y, Some(j))) = (a, b) {
        bump("grouping information of views combined");
        let got = sut(|| combine(i, j));
        if got.iter().any(|g| *g != together(x, y)) {
            bad!("group-info", "the infos of {} and {} combine: {got:?}", kname(x), kname(y));
        }
    }
}

/// Indexing a view by an entity that has no such component must panic.
fn index_refused(h: H, k: u8, f: impl FnOnce() -> Val) {
    match try_sut(f) {
        Err(Caught::Panic(_)) => bump("refused: indexing without the component"),
        Err(c) => unexpected("indexing a view", c),
        Ok(v) => {
            let cls = if sim().m.alive.contains_key(&h) { "view-get" } else { "stale-view" };
            bad!(cls, "indexing a view of {} by entity {}, which has none, gives {v:?}", kname(k), hname(h))
        }
    }
}

fn do_hold(op: &Op, depth: usize) {
    let mut list: Vec<(u8, bool)> = vec![];
    for k in 0..16u8 {
        if tab().kinds[k as usize].is_some() {
            if op.a[0] >> k & 1 != 0 {
                list.push((k, false));
            }
            if op.a[1] >> k & 1 != 0 {
                list.push((k, true));
            }
        }
    }
    if list.is_empty() {
        return;
    }
    let r = op.a[2].unsigned_abs() as usize;
    let n = list.len();
    list.rotate_left(r % n);
    if r & 64 != 0 {
        list.reverse();
    }
    let w = world();
    let mut held: Vec<(usize, u8, bool, Box<dyn DynView>)> = vec![];
    for (k, ex) in list {
        let id = attempt(vec![(k, ex)]);
        let vt = kvt(k);
        let info = (r >> 3 ^ k as usize) % 3 == 0;
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if ex { (vt.hold_mut)(w, info) } else { (vt.hold)(w, info) }
        }));
        match got {
            Ok(v) => {
                acquired(id, true);
                bump(if ex { "exclusive views" } else { "shared views" });
                held.push((id, k, ex, v));
            }
            Err(p) => {
                refused(id, &format!("borrow of {}", kname(k)), rt::classify(p));
                break;
            }
        }
        rt::yield_now();
    }
    for (i, a) in held.iter().enumerate() {
        for b in &held[..i] {
            check_infos((a.1, a.3.info()), (b.1, b.3.info()));
        }
    }
    for (_, k, ex, v) in &mut held {
        check_view(&**v, *k);
        if *ex && *k != K_G {
            let hs: Vec<H> = sim().m.alive.iter().filter(|(_, c)| c.contains_key(k)).map(|(h, _)| *h).collect();
            for (i, h) in hs.iter().enumerate() {
                let nv = next_val();
                // The last way searches the view.
                let way = if i < 50 { i % 3 } else { i % 2 };
                let ok = sut(|| v.set(ent(*h), nv, way));
                if !ok {
                    bad!("view-get", "exclusive view of {} does not find entity {}", kname(*k), hname(*h));
                }
                sim().m.alive.get_mut(h).unwrap().get_mut(k).unwrap().1 = nv;
            }
        }
        if *ex {
            let m = &sim().m;
            let has = |h: &H| m.alive.get(h).is_some_and(|c| c.contains_key(k));
            let mut n = 0;
            let mut l: Vec<H> = m.dead.iter().rev().take(4).copied().collect();
            let again = |h: &&H| m.alive.range(*h & !0xffff_ffff..=*h | 0xffff_ffff).any(|(_, c)| c.contains_key(k));
            l.extend(m.dead.iter().rev().take(500).filter(again).take(4));
            l.extend(m.alive.keys().rev().take(6));
            l.extend(m.alive.keys().rev().take(3).flat_map(|h| variants(*h)));
            for h in l {
                let g = sut(|| v.peek_mut(ent(h)));
                if g.is_some() != has(&h) {
                    let cls = if m.alive.contains_key(&h) { "view-get" } else { "stale-view" };
                    bad!(cls, "exclusive view of {}: get_mut gives {g:?} for entity {}", kname(*k), hname(h));
                }
                if !has(&h) && n < 8 {
                    n += 1;
                    index_refused(h, *k, || v.index_mut(ent(h)));
                }
            }
        }
        rt::yield_now();
    }
    for s in &op.sub {
        if depth < 2 {
            exec_shared(s, depth + 1);
        }
    }
    for (_, k, _, v) in &held {
        check_view(&**v, *k);
    }
    if op.a[3] != 0 && !held.is_empty() {
        bump("panics while holding views");
        let ids: Vec<usize> = held.iter().map(|x| x.0).collect();
        ids.iter().for_each(|i| releasing(*i));
        match try_sut(|| {
            let _views = held;
            rt::raise_fault();
        }) {
            Err(Caught::Fault) => (),
            Err(c) => unexpected("dropping views", c),
            Ok(()) => (),
        }
        ids.iter().for_each(|i| ended(*i));
        return;
    }
    let mut i = r;
    while !held.is_empty() {
        i = i.wrapping_mul(31) + 7;
        let (id, _, _, v) = held.remove(i % held.len());
        releasing(id);
        sut(|| drop(v));
        ended(id);
        rt::yield_now();
    }
}

// --------------------------------------------------------------------- selectors

fn pick(sel: i64) -> Option<H> {
    let m = &sim().m;
    if sim().force.is_some() {
        return sim().force;
    }
    let (class, i) = (sel.rem_euclid(8), sel.unsigned_abs() as usize / 8);
    let busy = |h: H| {
        m.alive.contains_key(&h) || m.pending.contains(&h) || sim().atomics.iter().any(|a| a.got == Some(h))
    };
    match class {
        5 => {
            let n = m.dead.len();
            let back = |from: usize| (0..n).map(move |j| m.dead[(n - 1) - (from + j) % n]).filter(|h| !busy(*h));
            // Half of them of an index that is in use again.
            let again = |h: &H| m.alive.range(h & !0xffff_ffff..=h | 0xffff_ffff).next().is_some();
            (i % 2 == 0).then(|| back(i / 2).find(again)).flatten().or_else(|| back(i / 2).next())
        }
        6 => {
            let mut v = m.pending.clone();
            v.extend(sim().atomics.iter().filter_map(|a| a.got));
            (!v.is_empty()).then(|| v[i % v.len()])
        }
        7 => {
            let base: Vec<H> = m.alive.keys().copied().collect();
            let h = match i % 4 {
                0 if !base.is_empty() => variants(base[(i / 4) % base.len()])[i / 16 % 6],
                1 => (m.next_fresh.min(LIMIT - 4) + (i as u64 / 4) % 3) << 32 | 1,
                2 if !base.is_empty() => base[(i / 4) % base.len()] & !0xffff_ffff | 0x7fff_0000,
                _ => 0xffff_ffff_0000_0001,
            };
            (h as u32 != 0 && !busy(h)).then_some(h)
        }
        c => {
            let n = m.alive.len();
            (n > 0).then(|| match c {
                1 => *m.alive.keys().nth_back(i % n).unwrap(),
                2 => *m.alive.keys().nth(i * (n / 256 + 1) % n).unwrap(),
                _ => *m.alive.keys().nth(i % n).unwrap(),
            })
        }
    }
}

// -------------------------------------------------------------------- shared ops

fn exec_shared(op: &Op, depth: usize) {
    rt::progress();
    if sim().plan.blind && op.k != K::Atomic {
        return;
    }
    match op.k {
        K::Atomic => {
            for _ in 0..op.a[0].clamp(1, 5000) {
                let begin = tick();
                let w = world();
                let i = sim().atomics.len();
                sim().atomics.push(AtomicRec { begin, end: 0, got: None });
                let r = try_sut(|| w.create_atomic());
                let end = tick();
                sim().atomics[i].end = end;
                match r {
                    Ok(e) => {
                        let h = key(e);
                        trace!("create_atomic -> {}", hname(h));
                        bump("entities queued");
                        if !sim().m.issued.insert(h) {
                            bad!("handle-dup", "handle {} was issued twice", hname(h));
                        }
                        sim().atomics[i].got = Some(h);
                    }
                    Err(Caught::Panic(s)) => {
                        if sim().m.capacity() > 1 << 20 {
                            bad!("panic", "create_atomic panicked: {s}");
                        }
                        bump("creations refused: no ids left");
                    }
                    Err(c) => unexpected("create_atomic", c),
                }
            }
        }
        K::HasEntity => {
            let Some(h) = pick(op.a[0]) else { return };
            let w = world();
            let got = try_sut(|| w.contains_entity(ent(h))).unwrap_or_else(|c| unexpected("contains_entity", c));
            let want = sim().m.alive.contains_key(&h);
            if got != want {
                alive_wrong(h, got);
            }
        }
        K::Entities => check_entities(),
        K::Query => do_query(op, depth),
        K::QueryOne => do_query_one(op, depth),
        K::Contains => do_contains(op),
        K::Hold => do_hold(op, depth),
        K::IsRegistered => {
            let k = op.a[0].rem_euclid(NK as i64) as u8;
            if let Some(vt) = &tab().kinds[k as usize] {
                let w = world();
                let got = try_sut(|| (vt.is_registered)(w)).unwrap_or_else(|c| unexpected("is_registered", c));
                let dy = try_sut(|| (vt.is_registered_dyn)(w)).unwrap_or_else(|c| unexpected("is_registered_dyn", c));
                if got != dy {
                    bad!("registered", "is_registered says {got} for {}, is_registered_dyn {dy}", kname(k));
                }
                if got != sim().m.registered.contains(&k) {
                    bad!("registered", "is_registered says {got} for {}", kname(k));
                }
            }
        }
        K::Yield => rt::yield_now(),
        _ => (),
    }
}

fn alive_wrong(h: H, got: bool) -> ! {
    let m = &sim().m;
    if got {
        let why = if m.pending.contains(&h) || sim().atomics.iter().any(|a| a.got == Some(h)) {
            "alive-queued"
        } else if m.dead.contains(&h) {
            "alive-dead"
        } else {
            "alive-unknown"
        };
        bad!(why, "entity {} is in the world but must not be ({why})", hname(h));
    }
    bad!("alive-missing", "entity {} is missing from the world", hname(h));
}

fn check_entities() {
    if sim().plan.blind {
        return;
    }
    let w = world();
    let m = &sim().m;
    let n = sut(|| w.entities().len());
    let mut v = vec![];
    sut(|| {
        for e in w.entities() {
            let e = *e;
            harness(|| v.push(key(e)));
        }
    });
    let empty = sut(|| w.is_empty());
    v.sort();
    if let Some(x) = v.windows(2).find(|x| x[0] == x[1]) {
        bad!("alive-twice", "entity {} is listed twice", hname(x[0]));
    }
    for h in &v {
        if !m.alive.contains_key(h) {
            alive_wrong(*h, true);
        }
    }
    if let Some(h) = m.alive.keys().find(|h| v.binary_search(h).is_err()) {
        alive_wrong(*h, false);
    }
    if empty != v.is_empty() || n != v.len() {
        bad!("alive-empty", "is_empty says {empty} while {} entities are listed", v.len());
    }
}

// ------------------------------------------------------------- settling a phase

/// Orders the entities queued since the last exclusive access.
fn settle() {
    let s = sim();
    if s.atomics.is_empty() {
        return;
    }
    let recs = std::mem::take(&mut s.atomics);
    let cap = s.m.capacity();
    let got: Vec<&AtomicRec> = recs.iter().filter(|r| r.got.is_some()).collect();
    let refused: Vec<&AtomicRec> = recs.iter().filter(|r| r.got.is_none()).collect();
    if got.len() as u64 > cap {
        bad!("handle-range", "{} entities were created with {} ids left", got.len(), cap);
    }
    for r in &refused {
        let before = recs.iter().filter(|g| g.got.is_some() && g.begin < r.end).count() as u64;
        if before < cap {
            bad!("handle-range", "a creation was refused while {} ids were left", cap - before);
        }
    }
    if got.len() > 1 && rt::stats().switches > 0 {
        bump("phases with several queued entities");
    }
    // Rank of each handle in the documented order.
    let mut ranked: Vec<(usize, &AtomicRec)> = vec![];
    let mut other: Vec<H> = vec![];
    for r in &got {
        let h = r.got.unwrap();
        let n = got.len();
        let pos = s.m.fifo.iter().take(n).position(|x| *x == h).or_else(|| {
            let i = idx(h);
            (h as u32 == 1 && i >= s.m.next_fresh).then(|| s.m.fifo.len() + (i - s.m.next_fresh) as usize)
        });
        match pos {
            Some(p) if p < n => ranked.push((p, r)),
            _ => {
                if s.strict_order {
                    bad!("handle-order", "queued entity {} is not among the {} due next", hname(h), n);
                }
                other.push(h);
            }
        }
    }
    ranked.sort_by_key(|x| x.0);
    let mut latest = 0;
    let mut moved = false;
    for (_, r) in &ranked {
        if r.end < latest {
            if s.strict_order {
                bad!("handle-order", "entity {} was queued before one that took an earlier handle", hname(r.got.unwrap()));
            }
            moved = true;
        }
        latest = latest.max(r.begin);
    }
    let _ = moved;
    let n = if other.is_empty() { ranked.len() } else { 0 };
    for _ in 0..n {
        let h = s.m.take_next().unwrap();
        s.m.pending.push(h);
    }
    if !other.is_empty() {
        for r in &got {
            let h = r.got.unwrap();
            s.m.take_other(h);
            s.m.pending.push(h);
        }
    }
}

// ----------------------------------------------------------------- exclusive ops

/// Expected drops of an operation, and those that happened.
fn settle_drops(want: &[(u8, u32)], faulty: bool) {
    let l = ledger();
    l.countdown = 0;
    let log = std::mem::take(&mut l.log);
    let s = sim();
    let mut w: Vec<(u8, u32)> = want.iter().filter(|x| tells(x.0)).copied().collect();
    let mut log = log;
    if w.len() > 64 {
        // What both have needs no search.
        w.sort();
        log.sort();
        let (mut i, mut j, mut w2, mut log2) = (0, 0, vec![], vec![]);
        while i < w.len() && j < log.len() {
            match w[i].cmp(&log[j]) {
                std::cmp::Ordering::Less => {
                    w2.push(w[i]);
                    i += 1;
                }
                std::cmp::Ordering::Greater => {
                    log2.push(log[j]);
                    j += 1;
                }
                std::cmp::Ordering::Equal => {
                    i += 1;
                    j += 1;
                }
            }
        }
        w2.extend(&w[i..]);
        log2.extend(&log[j..]);
        (w, log) = (w2, log2);
    }
    for d in log {
        if let Some(i) = w.iter().position(|x| *x == d) {
            w.swap_remove(i);
        } else if let Some(i) = s.due.iter().position(|x| *x == d) {
            s.due.swap_remove(i);
        } else {
            bad!(
                "drop-unexpected",
                "component {} #{} was dropped by an operation that had to leave it alone",
                kname(d.0), d.1
            );
        }
    }
    if !faulty {
        s.due.extend(w);
    }
}

struct Fault {
    panicked: bool,
    fired: bool,
}

/// Runs one exclusive operation whose `n`-th destructor call panics (0 = none).
fn faulty<R>(n: i64, what: &str, f: impl FnOnce() -> R) -> (Option<R>, Fault) {
    let l = ledger();
    l.log.clear();
    l.countdown = n.max(0);
    l.fired = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(rt::classify);
    let l = ledger();
    l.countdown = 0;
    let fired = l.fired > 0;
    if fired {
        bump("faults fired in user code");
    }
    match r {
        Ok(r) => (Some(r), Fault { panicked: false, fired }),
        Err(Caught::Fault) if fired => (None, Fault { panicked: true, fired }),
        Err(c) => unexpected(what, c),
    }
}

fn new_toks(kinds: &[u8]) -> Vec<(u32, u8)> {
    kinds.iter().map(|k| (ledger().new_tok(*k), if *k == K_G { 0 } else { next_val() })).collect()
}

/// The values a new set of components replaces or drops on its own, and the
/// values that stay.
fn apply_set(h: H, kinds: &[u8], toks: &[(u32, u8)]) -> Vec<(u8, u32)> {
    let s = sim();
    let mut out = vec![];
    for (k, t) in kinds.iter().zip(toks) {
        if let Some(old) = s.m.take(h, *k) {
            out.push((*k, old.0));
        }
        s.m.put(h, *k, t.0, t.1);
        ledger().set_state(*k, t.0, TokState::World);
    }
    out
}

fn got_handle(e: Entity, what: &str) -> H {
    let h = key(e);
    let s = sim();
    if !s.m.issued.insert(h) {
        bad!("handle-dup", "{what} returned handle {}, which was issued before", hname(h));
    }
    let due = s.m.nth_next(0);
    if due == Some(h) {
        s.m.take_next();
    } else if s.strict_order || due.is_none() {
        bad!(
            if due.is_none() { "handle-range" } else { "handle-order" },
            "{what} returned handle {}, due was {}",
            hname(h), due.map_or("none".into(), hname)
        );
    } else {
        s.m.take_other(h);
    }
    h
}

fn first_unregistered(kinds: &[u8]) -> Option<u8> {
    kinds.iter().copied().find(|k| !sim().m.registered.contains(k))
}

/// Whether `n` entities may be created with exclusive access: the storages could
/// not hold entities whose index is close to the limit.
fn may_create(n: usize) -> bool {
    let m = &sim().m;
    n <= m.fifo.len() || m.next_fresh + n as u64 <= HUGE || m.next_fresh == LIMIT
}
fn huge_pending() -> bool {
    sim().m.pending.iter().any(|h| idx(*h) > HUGE)
}

fn probe(h: H, k: u8) -> Option<Val> {
    if !sim().m.registered.contains(&k) {
        return None;
    }
    let w = world();
    let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (kvt(k).hold)(w, false))) {
        Ok(v) => v,
        Err(p) => match rt::classify(p) {
            Caught::Panic(s) => bad!("panic-borrow", "{} cannot be borrowed after a panic: {s}", kname(k)),
            c => unexpected("borrow", c),
        },
    };
    let g = sut(|| v.get(ent(h)));
    sut(|| drop(v));
    g
}

fn dropped_state(k: u8, tok: u32) -> bool {
    tok != 0 && tells(k) && ledger().state(tok).is_some_and(|x| x.1 == TokState::Dropped)
}

/// After a panic inside of an operation on the components `kinds` of `h`: each
/// of them may have its old or one of the new values or be gone.
fn adopt(h: H, kinds: &[u8], new: &[(u32, u8)]) {
    let mut seen = BTreeSet::new();
    for k in kinds {
        if !seen.insert(*k) {
            continue;
        }
        let old = sim().m.alive.get(&h).and_then(|c| c.get(k)).copied();
        let got = probe(h, *k);
        let mut options: Vec<(u32, u8)> = old.into_iter().collect();
        options.extend(kinds.iter().zip(new).filter(|(x, _)| *x == k).map(|(_, t)| *t));
        match got {
            None => {
                sim().m.take(h, *k);
            }
            Some(v) => {
                let Some(o) = options.iter().find(|o| **o == (v.0, v.1)) else {
                    bad!("panic-value", "after a panic entity {} has a {} that it was never given", hname(h), kname(*k));
                };
                if dropped_state(*k, o.0) {
                    bad!("panic-dropped", "after a panic entity {} still shows a dropped {}", hname(h), kname(*k));
                }
                if old != Some(*o) {
                    sim().m.take(h, *k);
                    sim().m.put(h, *k, o.0, o.1);
                    ledger().set_state(*k, o.0, TokState::World);
                }
            }
        }
    }
}

fn all_world_toks() -> Vec<(u8, u32)> {
    sim().m.alive.values().flat_map(|c| c.iter().map(|(k, t)| (*k, t.0))).collect()
}

fn kill_all() {
    let hs: Vec<H> = sim().m.alive.keys().copied().collect();
    for h in hs {
        sim().m.kill(h);
    }
    let p = std::mem::take(&mut sim().m.pending);
    sim().m.dead.extend(p);
}

/// The group by its types, every other time.
fn typed_group(g: &[u8], n: usize) -> Option<GroupVt> {
    let set: BTreeSet<u8> = g.iter().copied().collect();
    tab().groups.iter().find(|t| t.0 == set && (n + set.len()) % 2 == 0).map(|t| t.1)
}

fn make_layout(i: usize) -> GroupLayout {
    let mut out = sut(GroupLayout::default);
    declare(i, |t, data| match t {
        Some(t) => (t.layout)(&mut out),
        None => out.add_group_dyn(data),
    });
    out
}

/// Declares the groups of a layout one after the other, the unfit ones too.
fn declare(i: usize, mut add: impl FnMut(Option<GroupVt>, &[ComponentData])) {
    let l = &sim().plan.layouts[i];
    let fits = accepted(l);
    for (n, g) in l.iter().enumerate() {
        let data: Vec<_> = g.iter().map(|k| (kvt(*k).data)()).collect();
        let typed = typed_group(g, n + i);
        let names = || g.iter().map(|k| kname(*k)).collect::<Vec<_>>().join(" ");
        match (try_sut(|| add(typed, &data)), fits[n]) {
            (Ok(()), true) => (),
            (Ok(()), false) => bad!("layout-accepted", "the group ({}), unfit for the groups before, was accepted", names()),
            (Err(Caught::Panic(_)), false) => bump("refused: unfit group"),
            (Err(Caught::Panic(s)), true) => bad!("layout-refused", "a valid group ({}) was refused: {s}", names()),
            (Err(c), _) => unexpected("add_group", c),
        }
    }
}
/// A layout of more groups than a world can have; must be refused.
fn oversized_layout(extra: usize) {
    let mut l: Vec<Vec<u8>> = (0..64).map(|p| vec![K_X + 2 * p, K_X + 2 * p + 1]).collect();
    l.extend((0..extra.min(7)).map(|i| (0..2 + i as u8).collect()));
    let mut out = sut(GroupLayout::default);
    let w = world_mut();
    trace!("set_layout with {} groups", l.len());
    let r = try_sut(|| {
        for g in &l {
            let data: Vec<_> = harness(|| g.iter().map(|k| (kvt(*k).data)()).collect());
            out.add_group_dyn(&data);
            harness(|| drop(data));
        }
        w.set_layout(&out)
    });
    sut(|| drop(out));
    match r {
        Err(Caught::Panic(_)) => bump("refused: too many groups"),
        Err(c) => unexpected("set_layout", c),
        Ok(()) => {
            bump("layouts beyond the limit accepted");
            let s = sim();
            s.m.groups = l.iter().map(|g| g.iter().copied().collect()).collect();
            s.m.registered.extend(l.iter().flatten());
        }
    }
    settle_drops(&[], false);
    audit();
}
fn layout_index(a: i64) -> usize {
    a.rem_euclid(sim().plan.layouts.len() as i64) as usize
}
fn model_layout(i: usize) {
    let s = sim();
    s.m.layout = i;
    let l = &s.plan.layouts[i];
    let fits = accepted(l);
    s.m.groups = l.iter().zip(fits).filter(|x| x.1).map(|(g, _)| g.iter().copied().collect::<BTreeSet<u8>>()).filter(|g| g.len() > 1).collect();
    let ks: Vec<u8> = s.m.groups.iter().flatten().copied().collect();
    s.m.registered.extend(ks);
}

fn new_world(li: usize) {
    let plan = sim().plan;
    let old_issued = 0;
    let _ = old_issued;
    sim().m = Model { owner: vec![], ..Model::default() };
    let w: World;
    if plan.builder {
        let (whole, twice) = ((li + plan.registered.len()) % 3 == 0, (li + plan.registered.len()) % 4 == 0);
        let layout = whole.then(|| make_layout(li));
        let mut b = sut(World::builder);
        if let Some(l) = layout {
            sut(|| b.set_layout(l));
        } else {
            declare(li, |t, data| match t {
                Some(t) => (t.builder)(&mut b),
                None => {
                    b.add_group_dyn(data);
                }
            });
        }
        let r = try_sut(|| {
            for k in &plan.registered {
                if k % 3 == 0 {
                    (kvt(*k).build)(&mut b);
                    continue;
                }
                b.register_dyn((kvt(*k).data)());
            }
            if twice {
                drop(b.build());
            }
            b.build()
        });
        w = match r {
            Ok(w) => w,
            Err(Caught::Panic(s)) => bad!("layout-refused", "building a world with a valid layout panicked: {s}"),
            Err(c) => unexpected("build", c),
        };
        sim().m.registered.extend(plan.registered.iter());
    } else {
        let l = make_layout(li);
        w = try_sut(|| World::new(&l)).unwrap_or_else(|c| unexpected("World::new", c));
        sut(|| drop(l));
        sim().world = sut(|| Box::into_raw(Box::new(w)));
        model_layout(li);
        for k in &plan.registered {
            do_register(*k, true);
        }
        return;
    }
    sim().world = sut(|| Box::into_raw(Box::new(w)));
    model_layout(li);
}

fn do_register(k: u8, typed: bool) {
    let vt = kvt(k);
    let w = world_mut();
    let r = try_sut(|| if typed { (vt.register)(w) } else { w.register_dyn((vt.data)()) });
    let r = r.unwrap_or_else(|c| unexpected("register", c));
    let want = sim().m.registered.insert(k);
    if r != want {
        bad!("registered", "registering {} returned {r}", kname(k));
    }
}

/// Drops the world; everything in it has to be dropped now.
fn drop_world(fault: i64) {
    let s = sim();
    let all = all_world_toks();
    let p = s.world;
    s.world = std::ptr::null_mut();
    let (_, f) = faulty(fault, "dropping the world", || sut(|| drop(unsafe { Box::from_raw(p) })));
    settle_drops(&all, f.fired);
    if s.other.is_some() {
        return;
    }
    if ledger().total_fired == 0 {
        if let Some(d) = s.due.first() {
            bad!("drop-never", "component {} #{} was neither dropped nor handed back", kname(d.0), d.1);
        }
        let g = ledger();
        if g.g_made != g.g_dropped {
            bad!("drop-never", "{} zero-sized components were made but {} dropped", g.g_made, g.g_dropped);
        }
    }
    s.due.clear();
}

fn after() {
    if sim().calm && sim().m.alive.len() > 300 {
        return;
    }
    check_entities();
}

fn exec_exclusive(op: &Op) {
    rt::progress();
    let w = world_mut();
    bump("exclusive operations");
    match op.k {
        K::Create => {
            let set = set_index(op.a[0]);
            if !may_create(1) {
                return;
            }
            create(set, None);
        }
        K::Extend => extend(op),
        K::Destroy => {
            if let Some(h) = pick(op.a[0]) {
                destroy(h, op.a[1]);
            }
        }
        K::DestroyMany => {
            for i in 0..op.a[1].clamp(0, 5000) {
                if sim().m.alive.is_empty() {
                    break;
                }
                if let Some(h) = pick((op.a[0].unsigned_abs() as i64 + i * 5) * 8) {
                    sim().calm = op.a[1] > 300 && i % 64 != 0;
                    destroy(h, 0);
                }
            }
            if sim().calm {
                sim().calm = false;
                audit();
            }
        }
        K::Churn => {
            for i in 0..op.a[0].clamp(0, 40) {
                if !may_create(1) {
                    return;
                }
                if let Some(h) = create(set_index(op.a[1]), None) {
                    if i % 3 != 2 {
                        destroy(h, 0);
                    }
                }
            }
        }
        K::Insert => insert(op),
        K::Remove => {
            let Some(h) = pick(op.a[0]) else { return };
            let set = set_index(op.a[1]);
            let kinds = tab().set_kinds[set].clone();
            trace!("remove {} {kinds:?}", hname(h));
            if !sim().m.alive.contains_key(&h) {
                bump("operations on stale handles");
            }
            ledger().log.clear();
            let mut vals: Option<Vec<Option<Val>>> = None;
            let mut early = vec![];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                (tab().sets[set].remove)(w, ent(h), &mut |v| {
                    early = std::mem::take(&mut ledger().log);
                    vals = Some(v.to_vec());
                })
            }));
            match r.map_err(rt::classify) {
                Err(Caught::Panic(_)) if first_unregistered(&kinds).is_some() && vals.is_none() => {
                    bump("refused: unregistered");
                    ledger().log.clear();
                    after();
                    return;
                }
                Err(c) => unexpected("remove", c),
                Ok(()) => (),
            }
            if first_unregistered(&kinds).is_some() && sim().m.alive.contains_key(&h) {
                bad!("unregistered", "removing an unregistered component was not refused");
            }
            let vals = vals.unwrap();
            let live = sim().m.alive.contains_key(&h);
            let mut back = vec![];
            for (k, v) in kinds.iter().zip(&vals) {
                let want = sim().m.take(h, *k);
                let got = v.map(|v| (v.0, v.1));
                if want != got || v.is_some_and(|v| !v.2) {
                    bad!(
                        if live { "ret-remove" } else { "stale-op" },
                        "remove of {} from entity {} returned {:?} instead of {:?}",
                        kname(*k), hname(h), v, want
                    );
                }
                if let Some(t) = want {
                    back.push((*k, t.0));
                }
            }
            if let Some(d) = early.first() {
                bad!("drop-unexpected", "remove dropped component {} #{}", kname(d.0), d.1);
            }
            settle_drops(&back, false);
            if live {
                after();
            } else {
                audit();
            }
        }
        K::Delete => {
            let Some(h) = pick(op.a[0]) else { return };
            let set = set_index(op.a[1]);
            let kinds = tab().set_kinds[set].clone();
            trace!("delete {} {kinds:?}", hname(h));
            if !sim().m.alive.contains_key(&h) {
                bump("operations on stale handles");
            }
            if first_unregistered(&kinds).is_some() {
                ledger().log.clear();
                let r = try_sut(|| (tab().sets[set].delete)(w, ent(h)));
                match r {
                    Err(Caught::Panic(_)) => bump("refused: unregistered"),
                    Err(c) => unexpected("delete", c),
                    Ok(()) if sim().m.alive.contains_key(&h) => {
                        bad!("unregistered", "deleting an unregistered component was not refused")
                    }
                    Ok(()) => (),
                }
                let old: Vec<_> = kinds.iter().filter_map(|k| Some((*k, sim().m.alive.get(&h)?.get(k)?.0))).collect();
                adopt(h, &kinds, &[]);
                let gone: Vec<_> = old.into_iter().filter(|(k, _)| !sim().m.alive[&h].contains_key(k)).collect();
                settle_drops(&gone, false);
                after();
                return;
            }
            let (_, f) = faulty(op.a[2], "delete", || (tab().sets[set].delete)(w, ent(h)));
            let mut old = vec![];
            for k in &kinds {
                if let Some(c) = sim().m.alive.get(&h).and_then(|c| c.get(k)) {
                    if !old.contains(&(*k, c.0)) {
                        old.push((*k, c.0));
                    }
                }
            }
            if f.fired {
                adopt(h, &kinds, &[]);
                settle_drops(&old, true);
                audit();
            } else {
                for k in &kinds {
                    sim().m.take(h, *k);
                }
                settle_drops(&old, false);
                if sim().m.alive.contains_key(&h) {
                    after();
                } else {
                    audit();
                }
            }
        }
        K::Maintain => {
            if huge_pending() {
                return;
            }
            trace!("maintain");
            faulty(0, "maintain", || sut(|| w.maintain()));
            let p = std::mem::take(&mut sim().m.pending);
            for h in p {
                sim().m.alive.insert(h, Comps::new());
                bump("queued entities materialised");
            }
            settle_drops(&[], false);
            after();
        }
        K::Clear | K::Reset => {
            trace!("{}", op.k.name());
            bump(if op.k == K::Clear { "clears" } else { "resets" });
            if !sim().m.pending.is_empty() {
                bump("clears or resets with queued entities");
            }
            let all = all_world_toks();
            let (_, f) = faulty(op.a[0], op.k.name(), || sut(|| if op.k == K::Clear { w.clear() } else { w.reset() }));
            settle_drops(&all, f.fired);
            kill_all();
            if op.k == K::Reset {
                let s = sim();
                s.m.fifo.clear();
                s.m.next_fresh = 0;
                s.m.issued.clear();
            }
            audit();
        }
        K::SetLayout if op.a[1] > 0 => oversized_layout(op.a[1] as usize),
        K::SetLayout => {
            let i = layout_index(op.a[0]);
            trace!("set_layout {i}");
            let l = make_layout(i);
            faulty(0, "set_layout", || sut(|| w.set_layout(&l)));
            sut(|| drop(l));
            model_layout(i);
            settle_drops(&[], false);
            if !sim().m.alive.is_empty() {
                bump("layouts replaced on a populated world");
            }
            audit();
        }
        K::Register => {
            let k = op.a[0].rem_euclid(8) as u8;
            do_register(k, op.a[1] != 0);
            after();
        }
        K::NewWorld => {
            drop_world(op.a[1]);
            new_world(layout_index(op.a[0]));
            after();
        }
        K::Swap => {
            bump("changes between two worlds");
            let now = (sim().world, std::mem::take(&mut sim().m));
            match sim().other.take() {
                Some((w, m)) => {
                    sim().world = w;
                    sim().m = m;
                }
                None => new_world(layout_index(op.a[0])),
            }
            sim().other = Some(now);
            after();
        }
        // Words of the other world could be taken for the ones that count.
        K::Jump | K::VersionJump if sim().other.is_some() => (),
        K::Jump => jump(op),
        K::VersionJump => version_jump(op),
        K::Cycle => cycle(op),
        K::Audit => audit(),
        _ => (),
    }
}

pub fn set_index(a: i64) -> usize {
    a.rem_euclid(tab().sets.len() as i64) as usize
}

/// Creates one entity; `none` if the creation was refused.
fn create(set: usize, _x: Option<()>) -> Option<H> {
    let w = world_mut();
    let kinds = &tab().set_kinds[set];
    let toks = new_toks(kinds);
    let exhausted = sim().m.capacity() == 0;
    let bad_kind = first_unregistered(kinds);
    let l = ledger();
    l.log.clear();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (tab().sets[set].create)(w, &toks)));
    match r.map_err(rt::classify) {
        Ok(e) => {
            if bad_kind.is_some() {
                bad!("unregistered", "an entity with an unregistered component was created");
            }
            if exhausted {
                bad!("handle-range", "create returned {} although no id was left", hname(key(e)));
            }
            let h = got_handle(e, "create");
            trace!("create {} {kinds:?}", hname(h));
            sim().m.alive.insert(h, Comps::new());
            let old = apply_set(h, kinds, &toks);
            settle_drops(&old, false);
            after();
            Some(h)
        }
        Err(Caught::Panic(s)) => {
            if exhausted {
                bump("creations refused: no ids left");
            } else if bad_kind.is_some() {
                bump("refused: unregistered");
            } else {
                bad!("panic", "create panicked: {s}");
            }
            let all: Vec<_> = kinds.iter().zip(&toks).map(|(k, t)| (*k, t.0)).collect();
            settle_drops(&all, false);
            // An entity without components may remain.
            if let Some(due) = sim().m.nth_next(0) {
                if sut(|| w.contains_entity(ent(due))) {
                    sim().m.take_next();
                    sim().m.issued.insert(due);
                    sim().m.alive.insert(due, Comps::new());
                }
            }
            after();
            None
        }
        Err(c) => unexpected("create", c),
    }
}

fn extend(op: &Op) {
    let set = set_index(op.a[0]);
    let n = op.a[1].clamp(0, 70_000) as usize;
    let w = world_mut();
    let kinds = &tab().set_kinds[set];
    let fault = (op.a[2] > 0).then_some((op.a[2] - 1) as usize).filter(|f| *f < n);
    let left = sim().m.capacity() as usize;
    let made = fault.unwrap_or(n);
    if !may_create(made) {
        return;
    }
    let bad_kind = first_unregistered(kinds);
    let toks: Vec<Vec<(u32, u8)>> = (0..made).map(|_| new_toks(kinds)).collect();
    trace!("extend {n} {kinds:?} fault {fault:?}");
    let mut items = Items { toks: toks.clone(), fault, hint: op.a[3], pulled: 0 };
    let l = ledger();
    l.log.clear();
    l.fired = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (tab().sets[set].extend)(w, &mut items)));
    // What the members' duplicate components replaced.
    let mut old = vec![];
    let mut join = |h: H, t: &[(u32, u8)]| {
        sim().m.alive.insert(h, Comps::new());
        if bad_kind.is_some() {
            adopt(h, kinds, t);
            let c = &sim().m.alive[&h];
            old.extend(kinds.iter().zip(t).map(|(k, t)| (*k, t.0)).filter(|(k, t)| c.get(k).map(|x| x.0) != Some(*t)));
        } else {
            old.extend(apply_set(h, kinds, t));
        }
    };
    match r.map_err(rt::classify) {
        Ok(es) => {
            if fault.is_some() {
                bad!("panic-lost", "a panic in the iterator given to extend did not reach the caller");
            }
            if made > left {
                bad!("handle-range", "extend created {made} entities with {left} ids left");
            }
            if bad_kind.is_some() && made > 0 {
                bad!("unregistered", "entities with an unregistered component were created");
            }
            if es.len() != made {
                bad!("ret-extend", "extend returned {} entities for {} items", es.len(), made);
            }
            for (e, t) in es.iter().zip(&toks) {
                let h = got_handle(*e, "extend");
                join(h, t);
            }
            settle_drops(&old, false);
            after();
        }
        Err(c) => {
            let exhausted = made > left;
            match c {
                Caught::Fault if fault.is_some() => bump("panics in an iterator given to extend"),
                Caught::Panic(_) if bad_kind.is_some() => bump("refused: unregistered"),
                Caught::Panic(_) if exhausted => bump("creations refused: no ids left"),
                c => unexpected("extend", c),
            }
            // The entities completed before the panic are members of the world.
            let mut m = 0;
            while m < made.min(left) {
                let Some(due) = sim().m.nth_next(0) else { break };
                if !sut(|| w.contains_entity(ent(due))) {
                    break;
                }
                sim().m.take_next();
                sim().m.issued.insert(due);
                join(due, &toks[m]);
                m += 1;
            }
            let mut rest: Vec<_> = toks[m..items.pulled.max(m)]
                .iter()
                .flat_map(|t| kinds.iter().zip(t).map(|(k, t)| (*k, t.0)))
                .collect();
            rest.extend(old);
            // Items that were never asked for do not exist.
            for t in &toks[items.pulled..] {
                for k in kinds.iter().zip(t) {
                    if *k.0 == K_G {
                        ledger().g_made -= 1;
                    }
                }
            }
            settle_drops(&rest, false);
            audit();
        }
    }
}

fn destroy(h: H, fault: i64) {
    let w = world_mut();
    trace!("destroy {} fault {fault}", hname(h));
    let live = sim().m.alive.contains_key(&h);
    let want: Vec<_> = sim().m.alive.get(&h).map_or(vec![], |c| c.iter().map(|(k, t)| (*k, t.0)).collect());
    let (r, f) = faulty(fault, "destroy", || sut(|| w.destroy(ent(h))));
    if let Some(r) = r {
        if r != live {
            bad!(if live { "ret-destroy" } else { "stale-op" }, "destroy of entity {} returned {r}", hname(h));
        }
    }
    if live {
        sim().m.kill(h);
        sim().m.recycle(h);
        bump("entities destroyed");
    } else {
        bump("operations on stale handles");
    }
    settle_drops(&want, f.fired);
    if f.fired || !live {
        audit();
    } else {
        after();
    }
}

fn insert(op: &Op) {
    let Some(h) = pick(op.a[0]) else { return };
    let set = set_index(op.a[1]);
    let kinds = &tab().set_kinds[set];
    let toks = new_toks(kinds);
    let w = world_mut();
    trace!("insert {} {kinds:?} fault {}", hname(h), op.a[2]);
    let live = sim().m.alive.contains_key(&h);
    let news: Vec<(u8, u32)> = kinds.iter().zip(&toks).map(|(k, t)| (*k, t.0)).collect();
    let olds: Vec<(u8, u32)> =
        kinds.iter().collect::<BTreeSet<_>>().iter().filter_map(|k| Some((**k, sim().m.alive.get(&h)?.get(*k)?.0))).collect();
    let bad_kind = first_unregistered(kinds);
    ledger().log.clear();
    ledger().fired = 0;
    ledger().countdown = if bad_kind.is_some() { 0 } else { op.a[2].max(0) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (tab().sets[set].insert)(w, ent(h), &toks)));
    ledger().countdown = 0;
    let fired = ledger().fired > 0;
    if fired {
        bump("faults fired in user code");
    }
    let r = r.map_err(rt::classify);
    match r {
        Ok(r) if !fired => {
            if r != live {
                bad!(if live { "ret-insert" } else { "stale-op" }, "insert into entity {} returned {r}", hname(h));
            }
            if !live {
                bump("operations on stale handles");
                settle_drops(&news, false);
                audit();
            } else {
                if bad_kind.is_some() {
                    bad!("unregistered", "an unregistered component was inserted");
                }
                let old = apply_set(h, kinds, &toks);
                settle_drops(&old, false);
            }
            after();
        }
        Ok(_) | Err(Caught::Fault) if fired => {
            let mut all = news.clone();
            all.extend(&olds);
            if live {
                adopt(h, kinds, &toks);
            }
            // What the entity still has must not have been dropped.
            settle_drops(&all, true);
            audit();
        }
        Err(Caught::Panic(_)) if bad_kind.is_some() => {
            bump("refused: unregistered");
            let mut all = news.clone();
            all.extend(&olds);
            if live {
                adopt(h, kinds, &toks);
                let c = &sim().m.alive[&h];
                all.retain(|(k, t)| c.get(k).map(|x| x.0) != Some(*t) || *k == K_G);
                if c.contains_key(&K_G) {
                    if let Some(i) = all.iter().position(|x| x.0 == K_G) {
                        all.swap_remove(i);
                    }
                }
            }
            settle_drops(&all, false);
            audit();
        }
        Err(c) => unexpected("insert", c),
        Ok(_) => unreachable!(),
    }
}

/// A word, or a half of one, that counts the indices handed out.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Count {
    Word(u64),
    Half(u64, u32),
}

impl Count {
    fn get(self) -> u64 {
        match self {
            Count::Word(a) => unsafe { *(a as *const u64) },
            Count::Half(a, s) => unsafe { *(a as *const u64) >> s & 0xffff_ffff },
        }
    }
    fn set(self, v: u64) {
        match self {
            Count::Word(a) => rt::poke(a, v),
            Count::Half(a, s) => {
                let w = unsafe { *(a as *const u64) };
                rt::poke(a, w & !(0xffff_ffff << s) | v << s)
            }
        }
    }
}

/// Whether writing to these words moves the counter: tried out in a process of its
/// own, at values far from both ends of the range.
fn moves_counter(set: &[Count]) -> bool {
    [1_000_003u64, 0x4000_0001, 0xc000_0001].iter().any(|v| {
        let e = crate::sys::in_child(|| {
            rt::private(100_000);
            set.iter().for_each(|c| c.set(*v));
            for i in 0..2 {
                match try_sut(|| world().create_atomic()) {
                    Ok(e) if idx(key(e)) == v + i => (),
                    _ => crate::sys::leave(1),
                }
            }
            if try_sut(|| world_mut().clear()).is_err() {
                crate::sys::leave(1);
            }
        });
        matches!(e, crate::sys::Exit::Code(0))
    })
}

/// Moves the index counter close to the end of its range.
fn jump(op: &Op) {
    let s = sim();
    if s.m.next_fresh > HUGE {
        return;
    }
    let w = world_mut();
    // Find the words that count handed out indices: those that go up by one with
    // every entity that is queued and discarded.
    let counts = |n: u64| -> Vec<Count> {
        let mut v: Vec<Count> = rt::scan(n).into_iter().map(Count::Word).collect();
        let p = s.world as u64;
        for a in (0..size_of::<World>() as u64 / 8).map(|i| p + 8 * i) {
            for c in [Count::Half(a, 0), Count::Half(a, 32)] {
                if c.get() == n && !v.contains(&Count::Word(a)) {
                    v.push(c);
                }
            }
        }
        v
    };
    let all = all_world_toks();
    faulty(0, "clear", || sut(|| w.clear()));
    settle_drops(&all, false);
    kill_all();
    let one = || -> Option<(H, Vec<rt::Rmw>)> {
        rt::rmws();
        let e = try_sut(|| world().create_atomic()).unwrap_or_else(|c| unexpected("create_atomic", c));
        let r = rt::rmws();
        let h = key(e);
        if !sim().m.issued.insert(h) {
            bad!("handle-dup", "handle {} was issued twice", hname(h));
        }
        if sim().m.nth_next(0) == Some(h) {
            sim().m.take_next();
        } else if sim().strict_order {
            bad!("handle-order", "create_atomic returned handle {}, due was {:?}", hname(h), sim().m.nth_next(0).map(hname));
        } else {
            sim().m.take_other(h);
        }
        sim().m.pending.push(h);
        Some((h, r))
    };
    while !s.m.fifo.is_empty() {
        one();
    }
    faulty(0, "clear", || sut(|| w.clear()));
    kill_all();
    after();
    let mut found = counts(s.m.next_fresh);
    let mut rmw: Option<Option<u64>> = None;
    for _ in 0..3 {
        let n = s.m.next_fresh;
        let (_, r) = one().unwrap();
        let c: Vec<u64> = r.iter().filter(|r| r.old == n && r.new == n + 1).map(|r| r.addr).collect();
        let a = if c.len() == 1 { Some(c[0]) } else { None };
        rmw = Some(if rmw.is_none() || rmw == Some(a) { a } else { None });
        faulty(0, "clear", || sut(|| w.clear()));
        kill_all();
        let next = counts(s.m.next_fresh);
        found.retain(|c| next.contains(c));
    }
    let rmw = rmw.flatten().map(|a| match a % 8 {
        4 => Count::Half(a - 4, 32),
        _ if Count::Word(a).get() == s.m.next_fresh => Count::Word(a),
        _ => Count::Half(a, 0),
    });
    // Some entities to recycle afterwards.
    let r = op.a[1].clamp(0, 6);
    let hs: Vec<H> = (0..r).filter_map(|_| create(0, None)).collect();
    let now = s.m.next_fresh;
    let mut sets: Vec<Vec<Count>> = vec![];
    let words: Vec<Count> = found.iter().copied().filter(|c| matches!(c, Count::Word(_))).collect();
    for mut set in [words, found, vec![]] {
        if let Some(c) = rmw {
            if !set.contains(&c) {
                set.push(c);
            }
        }
        set.retain(|c| c.get() == now);
        if !set.is_empty() && !sets.contains(&set) {
            sets.push(set);
        }
    }
    // At least one: a counter of 32 bits cannot hold more.
    let left = op.a[0].clamp(1, 40) as u64;
    let end = match op.a[2] {
        0 => LIMIT,
        a => 1 << [8, 16, 18][a as usize % 3],
    };
    let to = end - left;
    if to < now {
        return;
    }
    let Some(set) = sets.iter().find(|c| moves_counter(c)) else {
        bump("counter not recognised");
        return;
    };
    for c in set {
        c.set(to);
    }
    s.m.next_fresh = to;
    if end == LIMIT {
        bump("index counter moved to the end of its range");
    } else {
        bump("index counter moved on, to a power of two");
    }
    trace!("jump: the next index is {to}");
    for h in hs {
        destroy(h, 0);
    }
}

/// Half of a word, that holds a version.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Ver(u64, u32);

impl Ver {
    fn set(self, v: u64) {
        let w = unsafe { *(self.0 as *const u64) };
        rt::poke(self.0, w & !(0xffff_ffff << self.1) | v << self.1)
    }
}

/// Whether writing to these words moves on the version of the index which is due
/// last: tried out in a process of its own, with a version far from any limit.
fn moves_version(set: &[Ver], i: u64, v: u64) -> bool {
    let e = crate::sys::in_child(|| {
        rt::private(100_000 + 3000 * sim().m.fifo.len() as u64);
        let nv = v + 100;
        set.iter().for_each(|c| c.set(nv));
        let create = || match try_sut(|| world_mut().create(())) {
            Ok(e) => key(e),
            Err(_) => crate::sys::leave(1),
        };
        let got: BTreeSet<H> = (0..sim().m.fifo.len()).map(|_| create()).collect();
        let mut want: BTreeSet<H> = sim().m.fifo.iter().copied().collect();
        want.remove(&(i << 32 | v));
        want.insert(i << 32 | nv);
        if got != want {
            crate::sys::leave(1);
        }
        let e = ent(i << 32 | nv);
        match try_sut(|| (world().contains_entity(e), world_mut().destroy(e), world().contains_entity(e))) {
            Ok((true, true, false)) if create() == i << 32 | (nv + 1) => (),
            _ => crate::sys::leave(1),
        }
    });
    matches!(e, crate::sys::Exit::Code(0))
}

/// Moves the version of an index that awaits reuse close to the end of its range.
fn version_jump(op: &Op) {
    let s = sim();
    let Some(h) = s.m.fifo.back().copied() else { return };
    let (i, v) = ((h >> 32), h & 0xffff_ffff);
    if i == v {
        return;
    }
    let end = [0xffff_ffffu64, 0xff, 0xffff, 0x7fff_ffff][op.a[1].clamp(0, 3) as usize];
    let nv = end - op.a[0].clamp(0, 4) as u64;
    if nv <= v {
        return;
    }
    // As entities are laid out in memory, or in a table of versions.
    let e = ent(h);
    let mut words: Vec<Ver> = vec![];
    if size_of_val(&e) == 8 {
        let w = unsafe { std::ptr::read_unaligned(&e as *const Entity as *const u64) };
        let at = if w >> 32 == v { 32 } else { 0 };
        words.extend(rt::scan(w).into_iter().map(|a| Ver(a, at)));
    }
    words.truncate(40);
    let mut sets: Vec<Vec<Ver>> = words.iter().map(|w| vec![*w]).collect();
    let halves: Vec<Ver> = if v > 1 { rt::scan_halves(v).into_iter().map(|(a, at)| Ver(a, at)).collect() } else { vec![] };
    if halves.len() <= 24 {
        sets.extend(halves.into_iter().filter(|h| !words.contains(h)).map(|h| vec![h]));
    }
    let Some(set) = sets.iter().find(|c| moves_version(c, i, v)) else {
        bump("version not recognised");
        return;
    };
    set.iter().for_each(|c| c.set(nv));
    *s.m.fifo.back_mut().unwrap() = i << 32 | nv;
    bump(if op.a[1] == 0 { "versions moved to the end of their range" } else { "versions moved on, to a power of two" });
}

/// Repeats operations that bring the world back to the same contents: from some
/// repetition on it must not hold more memory.
fn cycle(op: &Op) {
    let m = &sim().m;
    if sim().cycles >= 5 || m.alive.len() + m.pending.len() > 60 || m.fifo.len() > 40 || m.next_fresh > 3000 {
        return;
    }
    let old = |h: &H| *h as u32 > 0xffff_0000;
    if m.fifo.iter().any(old) || m.alive.keys().any(old) || m.pending.iter().any(old) {
        return;
    }
    sim().cycles += 1;
    let parts = if op.a[0] & 255 == 0 { 1 } else { op.a[0] };
    let mut set = set_index(op.a[1]);
    if first_unregistered(&tab().set_kinds[set]).is_some() {
        set = 0;
    }
    let n = op.a[2].clamp(1, 9);
    let set = set as i64;
    let kill = |before: &BTreeSet<H>| {
        let new: Vec<H> = sim().m.alive.keys().filter(|h| !before.contains(h)).copied().collect();
        new.into_iter().for_each(|h| destroy(h, 0));
    };
    let members = || sim().m.alive.keys().copied().collect::<BTreeSet<H>>();
    let run = |k: K, a: &[i64]| {
        let o = Op::new(k, a);
        if k.shared() {
            exec_shared(&o, 2);
            settle();
            sim().attempts.clear();
        } else {
            exec_exclusive(&o);
        }
    };
    // Enough for every index to have been in each place.
    let warm = 24 + 2 * (m.fifo.len() + 4 * n as usize);
    let (mut high, mut low) = (0, u64::MAX);
    for round in 0..warm + 72 {
        rt::progress();
        sim().calm = round % 16 != 0;
        if parts & 1 != 0 {
            let b = members();
            for _ in 0..n {
                create(set as usize, None);
            }
            kill(&b);
            if parts & 32 != 0 && op.a[4] & 1 != 0 {
                run(K::Reset, &[]);
            }
        }
        if parts & 2 != 0 {
            if let Some(h) = create(set as usize, None) {
                sim().force = Some(h);
                run(K::Remove, &[0, set]);
                run(K::Insert, &[0, set]);
                run(K::Insert, &[0, set]);
                run(K::Delete, &[0, set]);
                sim().force = None;
                destroy(h, 0);
            }
        }
        if parts & 4 != 0 {
            let b = members();
            run(K::Atomic, &[n]);
            run(K::Maintain, &[]);
            if round > 0 {
                kill(&b);
            }
        }
        if parts & 8 != 0 {
            let b = members();
            run(K::Extend, &[set, n]);
            kill(&b);
        }
        if parts & 16 != 0 {
            run(K::SetLayout, &[op.a[3]]);
            run(K::SetLayout, &[op.a[3] + 1]);
        }
        if parts & 32 != 0 {
            run(K::Extend, &[set, n]);
            run(K::Reset, &[]);
        }
        if parts & 64 != 0 {
            run(K::Query, &[op.a[4], round as i64 % 4, 1]);
            run(K::Hold, &[1 << (round % 8)]);
        }
        if parts & 128 != 0 {
            for i in 0..3 {
                run(K::Register, &[op.a[4] + i, i & 1]);
            }
        }
        let live = rt::stats().live_bytes;
        if (warm..warm + 24).contains(&round) {
            high = high.max(live);
        } else if round >= warm + 48 {
            low = low.min(live);
        }
    }
    sim().calm = false;
    bump("operations repeated a hundred times");
    if low > high {
        bad!("grows", "repeating operations that change nothing in the end made the world grow from {high} to {low} bytes");
    }
}

/// Compares everything the world shows with the model.
/// Specs by the kinds they require and forbid together; those that always can run.
fn specs_about(g: &BTreeSet<u8>) -> &'static [usize] {
    static MAP: std::sync::OnceLock<BTreeMap<BTreeSet<u8>, Vec<usize>>> = std::sync::OnceLock::new();
    let map = MAP.get_or_init(|| {
        let mut map: BTreeMap<BTreeSet<u8>, Vec<usize>> = BTreeMap::new();
        for (i, s) in tab().specs.iter().enumerate() {
            let req: Vec<u8> = s.get.iter().chain(&s.inc).filter(|d| d.required()).map(|d| d.kind).collect();
            let all = || s.get.iter().chain(&s.inc).chain(&s.exc).filter(|d| d.mode != Mode::Ent);
            let once = |k: u8| all().filter(|d| d.kind == k).count() == 1;
            let fits = all().all(|d| once(d.kind) || !matches!(d.mode, Mode::Mut | Mode::OptMut));
            if !req.is_empty() && fits && all().all(|d| d.required()) {
                map.entry(all().map(|d| d.kind).collect()).or_default().push(i);
            }
        }
        map
    });
    map.get(g).map_or(&[], |v| v)
}

/// Runs queries that are about the groups in force.
fn audit_groups() {
    let m = &sim().m;
    let turn = m.issued.len() + m.dead.len();
    let mut todo = vec![];
    for (i, g) in m.groups.iter().enumerate() {
        let v = specs_about(g);
        if v.is_empty() || !g.iter().all(|k| m.registered.contains(k)) {
            continue;
        }
        for j in 0..2 {
            todo.push((v[(turn + i + j) % v.len()], (turn / 2 + j) % 3));
        }
    }
    let n = todo.len();
    for j in 0..n.min(4) {
        let (s, mode) = todo[(turn + j) % n];
        do_query(&Op::new(K::Query, &[s as i64, [M_NEXT, M_FOLD, M_SLICE][mode]]), 9);
    }
    if n > 0 && sim().force.is_none() {
        // One of the entities, and what its index stood for before.
        let (s, _) = todo[turn % n];
        let v = expected(&tab().specs[s]);
        if !v.is_empty() {
            let h = v[turn / 2 % v.len()];
            for h in [h, h.saturating_sub(1)] {
                if h as u32 != 0 {
                    sim().force = Some(h);
                    do_query_one(&Op::new(K::QueryOne, &[s as i64, 0, (turn % 2) as i64]), 9);
                    sim().force = None;
                }
            }
        }
    }
}

fn audit() {
    if sim().plan.blind || sim().calm {
        return;
    }
    bump("audits");
    check_entities();
    let w = world();
    let m = &sim().m;
    for h in m.alive.keys().chain(m.pending.iter()).chain(m.dead.iter().rev().take(8)) {
        let got = sut(|| w.contains_entity(ent(*h)));
        if got != m.alive.contains_key(h) {
            alive_wrong(*h, got);
        }
    }
    for h in m.alive.keys().rev().take(6).flat_map(|h| variants(*h)) {
        if !m.alive.contains_key(&h) && sut(|| w.contains_entity(ent(h))) {
            bad!("stale-made-up", "{}, which was never created, is said to be in the world", hname(h));
        }
    }
    let regs: Vec<u8> = m.registered.iter().copied().collect();
    let mut lens = 0;
    let mut infos = vec![];
    for k in regs {
        if k >= K_X && !sim().m.groups.iter().any(|g| g.contains(&k)) {
            continue;
        }
        for ex in [false, true] {
            let vt = kvt(k);
            let info = (m.issued.len() + k as usize + ex as usize) % 2 == 0;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if ex { (vt.hold_mut)(w, info) } else { (vt.hold)(w, info) }
            }));
            match r.map_err(rt::classify) {
                Ok(v) => {
                    if !ex {
                        check_view(&*v, k);
                        lens += 1;
                    }
                    infos.push((k, v.info()));
                    if infos.len() > 1 {
                        // With one of the same chain, if there is one, and with one in between.
                        let j = infos.len() / 2 - 1;
                        check_infos(infos[infos.len() - 1], infos[j]);
                        if let Some(i) = infos[..infos.len() - 1].iter().find(|x| in_one_group(x.0, k)) {
                            check_infos(infos[infos.len() - 1], *i);
                        }
                    }
                    sut(|| drop(v));
                }
                Err(Caught::Panic(s)) => bad!("borrow-refused", "{} cannot be borrowed although nothing is: {s}", kname(k)),
                Err(c) => unexpected("borrow", c),
            }
        }
    }
    let _ = lens;
    audit_groups();
    // Groups of pairs of the many-groups layouts.
    for (a, b, f) in PAIRS {
        let pair: BTreeSet<u8> = [*a, *b].into();
        if !sim().m.groups.contains(&pair) {
            continue;
        }
        for which in 0..3 {
            let mut seen: Option<Vec<H>> = None;
            let name = format!("slice of pair {} {} ({which})", kname(*a), kname(*b));
            let r = try_sut(|| {
                f(w, which, &mut |s| {
                    let Some(s) = s else { return };
                    let n = s[0].len.unwrap();
                    let mut v = vec![];
                    for i in 0..n {
                        let h = key(sut(|| s[0].entity(i)));
                        for x in &s[1..] {
                            if x.len != Some(n) {
                                bad!("slice-len", "{name}: unequal lengths");
                            }
                            let c = sut(|| x.get(i));
                            if sim().m.alive.get(&h).and_then(|m| m.get(&x.kind)) != Some(&(c.0, c.1)) {
                                bad!("slice-align", "{name}: position {i} does not hold the component of entity {}", hname(h));
                            }
                        }
                        v.push(h);
                    }
                    v.sort();
                    seen = Some(v);
                })
            });
            if let Err(c) = r {
                unexpected(&name, c);
            }
            let m = &sim().m;
            let want: Vec<H> = m
                .alive
                .iter()
                .filter(|(_, c)| c.contains_key(a) && (which == 1) != c.contains_key(b))
                .map(|(h, _)| *h)
                .collect();
            match seen {
                None if which != 1 => bad!("dense-missing", "{name}: not dense"),
                Some(v) if v != want => bad!("slice-set", "{name}: holds {} entities, {} match", v.len(), want.len()),
                _ => (),
            }
        }
    }
}

// -------------------------------------------------------------------------- runs

extern "C" fn caller_main(arg: *mut u8) {
    let t = arg as usize;
    guarded(|| run_thread(t));
}

fn run_thread(t: usize) {
    let plan = sim().plan;
    for op in &plan.threads[t] {
        if op.k.shared() {
            read_lock();
            exec_shared(op, 0);
            read_unlock();
        } else {
            write_lock();
            exec_exclusive(op);
            write_unlock();
        }
    }
}

/// Executes a plan. Does not return if a property is violated.
pub fn run(plan: &Plan, strict_order: bool, tracing: bool) -> (rt::Stats, Box<Sim>) {
    let plan: &'static Plan = unsafe { std::mem::transmute(plan) };
    tab();
    rayon_core::sim_install(&HOOKS);
    unsafe {
        LEDGER = Box::into_raw(Box::new(Ledger::default()));
        SIM = Box::into_raw(Box::new(Sim {
            plan,
            strict_order,
            world: std::ptr::null_mut(),
            m: Model::default(),
            other: None,
            writer: false,
            readers: 0,
            hb_w: Hb::new(),
            hb_r: Hb::new(),
            seq: 0,
            attempts: vec![],
            atomics: vec![],
            due: vec![],
            due_g: 0,
            jobs: vec![],
            first_worker: usize::MAX / 2,
            stop: false,
            vals: 0,
            counters: BTreeMap::new(),
            states: BTreeSet::new(),
            kf1: 0,
            kf1_listed: std::env::var("SIM_KNOWN").is_ok_and(|s| s.split(' ').any(|x| x == "KF1")),
            trace: tracing.then(Vec::new),
            force: None,
            calm: false,
            cycles: 0,
        }));
    }
    guarded(|| {
        new_world(0);
        rt::progress();
        let n = plan.threads.len();
        let par = plan.any(|o| o.k == K::Query && is_par(o.a[1].rem_euclid(M_COUNT)));
        if n == 1 && (!par || plan.workers == 0) {
            run_thread(0);
        } else {
            let callers: Vec<i32> = (0..n).map(|t| rt::spawn(caller_main, t)).collect();
            sim().first_worker = n + 1;
            let workers: Vec<i32> = (0..plan.workers).map(|w| rt::spawn(worker_main, w)).collect();
            callers.iter().for_each(|c| rt::join(*c));
            sim().stop = true;
            rt::wake(pool_key());
            workers.iter().for_each(|c| rt::join(*c));
        }
        write_lock();
        rt::progress();
        audit();
        rt::progress();
        drop_world(0);
        rt::progress();
        if let Some((w, m)) = sim().other.take() {
            sim().world = w;
            sim().m = m;
            audit();
            rt::progress();
            drop_world(0);
            rt::progress();
        }
        let st = rt::stats();
        if st.live_blocks != 0 && ledger().total_fired == 0 {
            bad!(
                "leak",
                "{} blocks ({} bytes) were not freed after the world was dropped, one of {} bytes",
                st.live_blocks, st.live_bytes, rt::first_leak()
            );
        }
    });
    unsafe {
        let s = Box::from_raw(SIM);
        drop(Box::from_raw(LEDGER));
        SIM = std::ptr::null_mut();
        LEDGER = std::ptr::null_mut();
        (rt::stats(), s)
    }
}
