//! Minimises a violating plan and its decisions.

use crate::attr::*;
use crate::gen::mix;
use crate::plan::*;
use crate::rt::Dec;
use crate::sys::*;
use crate::tables::*;
use crate::{trial, Bad, How, Outcome};
use std::collections::HashMap;
use std::time::Instant;

struct Shrink<'a> {
    sh: &'a mut Shared,
    cls: String,
    strict: bool,
    deadline: Instant,
    plan: Plan,
    decs: Vec<Dec>,
    bad: Bad,
    tries: u64,
}

impl Shrink<'_> {
    fn once(&mut self, plan: &Plan, how: How) -> bool {
        self.tries += 1;
        match trial(self.sh, plan, &how, self.strict, false) {
            Outcome::Bad(b) if b.cls == self.cls => {
                self.bad = b;
                self.decs = decs(self.sh);
                self.plan = plan.clone();
                true
            }
            _ => false,
        }
    }
    fn concurrent(p: &Plan) -> bool {
        p.threads.len() > 1 || p.workers > 0
    }
    fn attempt(&mut self, plan: Plan) -> bool {
        if Instant::now() > self.deadline {
            return false;
        }
        let d = self.decs.clone();
        if self.once(&plan, How::Replay(&d)) {
            return true;
        }
        if Self::concurrent(&plan) {
            if !d.is_empty() && self.once(&plan, How::Replay(&[])) {
                return true;
            }
            for i in 0..6 {
                if self.once(&plan, How::Search(mix(plan.params.seed, i + 7))) {
                    return true;
                }
            }
        }
        false
    }
    fn with(&mut self, f: impl FnOnce(&mut Plan)) -> bool {
        let mut p = self.plan.clone();
        f(&mut p);
        if p.text(&[]) == self.plan.text(&[]) {
            return false;
        }
        self.attempt(p)
    }

    fn threads(&mut self) {
        let mut i = 0;
        while i < self.plan.threads.len() && self.plan.threads.len() > 1 {
            if !self.with(|p| {
                p.threads.remove(i);
            }) {
                i += 1;
            }
        }
        if self.plan.threads.len() > 1 {
            self.with(|p| {
                let all = p.threads.drain(..).flatten().collect();
                p.threads = vec![all];
            });
        }
        if self.plan.threads.len() > 1 {
            // Move everything a thread does before or after another one.
            for a in 0..self.plan.threads.len() {
                for b in 0..self.plan.threads.len() {
                    if a != b && self.plan.threads.len() > 2 && a < self.plan.threads.len() && b < self.plan.threads.len() {
                        self.with(|p| {
                            let x = p.threads[b].clone();
                            p.threads[a].extend(x);
                            p.threads.remove(b);
                        });
                    }
                }
            }
        }
        if self.plan.workers > 0 {
            let _ = self.with(|p| p.workers = 0) || self.with(|p| p.workers = 1) || self.with(|p| p.workers = 2);
        }
    }

    fn ops(&mut self) {
        for t in 0..self.plan.threads.len() {
            let mut n = (self.plan.threads[t].len() + 1) / 2;
            while n >= 1 {
                let mut i = 0;
                while i < self.plan.threads[t].len() {
                    let e = (i + n).min(self.plan.threads[t].len());
                    if !self.with(|p| {
                        p.threads[t].drain(i..e);
                    }) {
                        i += n;
                    }
                    if Instant::now() > self.deadline {
                        return;
                    }
                }
                n /= 2;
            }
        }
    }

    fn subs(&mut self) {
        for t in 0..self.plan.threads.len() {
            for i in 0..self.plan.threads[t].len() {
                let mut j = 0;
                while j < self.plan.threads[t][i].sub.len() {
                    if !self.with(|p| {
                        p.threads[t][i].sub.remove(j);
                    }) {
                        // Perhaps without what is nested deeper.
                        self.with(|p| p.threads[t][i].sub[j].sub.clear());
                        j += 1;
                    }
                }
                // Lift nested operations to the top.
                if !self.plan.threads[t][i].sub.is_empty() {
                    self.with(|p| {
                        let s = std::mem::take(&mut p.threads[t][i].sub);
                        for (k, o) in s.into_iter().enumerate() {
                            p.threads[t].insert(i + 1 + k, o);
                        }
                    });
                }
            }
        }
    }

    fn layouts(&mut self) {
        if self.plan.layouts.iter().any(|l| !l.is_empty()) {
            self.with(|p| p.layouts.iter_mut().for_each(|l| l.clear()));
        }
        while self.plan.layouts.len() > 1 && self.with(|p| {
            p.layouts.pop();
        }) {}
        for i in 0..self.plan.layouts.len() {
            self.with(|p| p.layouts[i].clear());
            let mut g = 0;
            while g < self.plan.layouts[i].len() {
                if !self.with(|p| {
                    p.layouts[i].remove(g);
                }) {
                    g += 1;
                }
            }
            self.with(|p| {
                p.layouts[i].iter_mut().for_each(|g| g.sort());
                p.layouts[i].sort_by_key(|g| g.len());
            });
        }
        self.with(|p| p.builder = false);
        self.with(|p| p.registered.sort());
    }

    fn op_args(&mut self, t: usize, i: usize, path: Option<usize>) {
        fn at(p: &mut Plan, t: usize, i: usize, path: Option<usize>) -> &mut Op {
            let o = &mut p.threads[t][i];
            match path {
                None => o,
                Some(j) => &mut o.sub[j],
            }
        }
        let n = 6;
        for x in 0..n {
            let cur = at(&mut self.plan.clone(), t, i, path).a[x];
            if cur == 0 {
                continue;
            }
            let mut cands = vec![0, 1];
            let k = at(&mut self.plan.clone(), t, i, path).k;
            if x == 0 && !matches!(k, K::Query | K::QueryOne | K::Contains | K::Create | K::Extend) || k == K::Extend && x == 1 {
                cands.extend([8, cur / 2, cur - 1, cur - 8]);
            }
            for c in cands {
                if c >= 0 && c < cur && self.with(|p| at(p, t, i, path).a[x] = c) {
                    break;
                }
            }
        }
    }

    fn args(&mut self) {
        for t in 0..self.plan.threads.len() {
            for i in 0..self.plan.threads[t].len() {
                if Instant::now() > self.deadline {
                    return;
                }
                self.op_args(t, i, None);
                for j in 0..self.plan.threads[t][i].sub.len() {
                    self.op_args(t, i, Some(j));
                }
            }
        }
    }

    fn decisions(&mut self) {
        if self.decs.is_empty() {
            return;
        }
        let plan = self.plan.clone();
        self.once(&plan, How::Replay(&[]));
        let mut n = (self.decs.len() + 1) / 2;
        while n >= 1 && !self.decs.is_empty() {
            let mut i = 0;
            while i < self.decs.len() {
                if Instant::now() > self.deadline {
                    return;
                }
                let mut d = self.decs.clone();
                let e = (i + n).min(d.len());
                d.drain(i..e);
                let before = self.decs.len();
                if !self.once(&plan, How::Replay(&d)) || self.decs.len() >= before {
                    i += n;
                }
            }
            n /= 2;
        }
    }
}

pub fn minimise(sh: &mut Shared, plan: Plan, d: Vec<Dec>, bad: &Bad, strict: bool, deadline: Instant) -> Option<(Plan, Vec<Dec>, Bad)> {
    let mut s = Shrink { sh, cls: bad.cls.clone(), strict, deadline, plan: plan.clone(), decs: d.clone(), bad: bad.clone(), tries: 0 };
    if !(s.once(&plan, How::Search(plan.params.seed)) || s.once(&plan, How::Replay(&d))) {
        return None;
    }
    // What the attribution depends on comes first.
    for round in 0..4 {
        let before = s.plan.text(&s.decs);
        s.threads();
        s.ops();
        s.layouts();
        s.subs();
        s.args();
        if s.plan.text(&s.decs) == before || Instant::now() > s.deadline {
            break;
        }
    }
    s.deadline = s.deadline + std::time::Duration::from_secs(6);
    s.with(|p| p.params.plain_rate = 0);
    s.with(|p| p.params.stale = 0);
    s.decisions();
    // The final word has the replay of exactly what is written down.
    let (plan, d) = (s.plan.clone(), s.decs.clone());
    if s.once(&plan, How::Replay(&d)) {
        let d = s.decs.clone();
        s.once(&plan, How::Replay(&d));
    }
    Some((s.plan, s.decs, s.bad))
}

pub fn replay_text(prop: &str, seed: u64, strict: bool, plan: &Plan, d: &[Dec], bad: &Bad, ps: &[&str]) -> String {
    let mut s = String::new();
    s.push_str(&format!("# {}: {}\n", bad.cls, bad.msg.replace('\n', " ")));
    s.push_str(&format!("# found from seed {seed}; breaks {}\n", ps.join(" ")));
    s.push_str(&describe(plan));
    s.push_str(&format!("property {prop}\n"));
    s.push_str(&format!("strict {}\n", strict as u8));
    s.push_str(&format!("expect {} {} {} {:016x}\n", bad.cls, bad.thread, bad.step, bad.hash));
    s.push_str(&plan.text(d));
    s
}

/// What numbers in the plan mean.
fn describe(p: &Plan) -> String {
    let t = crate::exec::tab();
    let mut sets = std::collections::BTreeSet::new();
    let mut specs = std::collections::BTreeSet::new();
    p.any(|o| {
        match o.k {
            K::Create | K::Extend => {
                sets.insert(crate::exec::set_index(o.a[0]));
            }
            K::Insert | K::Remove | K::Delete | K::Churn => {
                sets.insert(crate::exec::set_index(o.a[1]));
            }
            K::Query | K::QueryOne | K::Contains => {
                specs.insert(o.a[0].rem_euclid(t.specs.len() as i64));
            }
            _ => (),
        }
        false
    });
    let mut s = String::new();
    for i in sets {
        let n: Vec<String> = t.set_kinds[i].iter().map(|k| crate::comps::kname(*k)).collect();
        s.push_str(&format!("# set {i}: ({})\n", n.join(", ")));
    }
    for i in specs {
        s.push_str(&format!("# query {i}: {}\n", crate::exec::spec_name(&t.specs[i as usize])));
    }
    s
}

pub fn parse_replay(text: &str) -> Result<(Plan, Vec<Dec>, HashMap<String, String>), String> {
    let mut head = HashMap::new();
    let mut rest = String::new();
    for l in text.lines() {
        match l.split_once(' ') {
            Some((k, v)) if ["property", "strict", "expect", "known", "search"].contains(&k) => {
                head.insert(k.to_string(), v.to_string());
            }
            _ => {
                rest.push_str(l);
                rest.push('\n');
            }
        }
    }
    let (p, d) = Plan::parse(&rest)?;
    Ok((p, d, head))
}
