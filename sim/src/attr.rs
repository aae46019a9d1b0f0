//! Which properties a violation breaks, from its class and from what a minimal
//! history that shows it is made of.

use crate::plan::*;
use crate::tables::*;

pub const PROPS: [&str; 17] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"];

pub fn has_fault(o: &Op) -> bool {
    use K::*;
    match o.k {
        Destroy | NewWorld => o.a[1] > 0,
        Insert | Delete | Extend => o.a[2] > 0,
        Clear | Reset => o.a[0] > 0,
        Query | QueryOne => o.a[4] > 0,
        Hold => o.a[3] != 0,
        _ => false,
    }
}

pub fn uses_par(p: &Plan) -> bool {
    p.any(|o| o.k == K::Query && is_par(o.a[1].rem_euclid(M_COUNT)))
}

pub fn attribute(cls: &str, p: &Plan, refused: bool) -> Vec<&'static str> {
    use K::*;
    let has = |ks: &[K]| p.any(|o| ks.contains(&o.k));
    let threads = p.threads.iter().filter(|t| !t.is_empty()).count() >= 2;
    let layouts = p.layouts.iter().any(|l| !l.is_empty());
    let unfit = p.layouts.iter().any(|l| accepted(l).contains(&false));
    let fault = p.any(has_fault);
    let par = uses_par(p);
    let jump = p.any(|o| o.k == Jump && o.a[2] == 0 || o.k == VersionJump && o.a[1] == 0);
    let wipe = has(&[Clear, Reset]);
    let killed = wipe || has(&[Destroy, DestroyMany, Churn]);
    let queued = has(&[Atomic]);
    let mut v: Vec<&'static str> = vec![];
    let mut add = |c: bool, ps: &[&'static str]| {
        if c {
            v.extend(ps);
        }
    };
    let fam = cls.split('-').next().unwrap();
    match fam {
        "memory" | "crash" | "stuck" | "race" | "panic" if !cls.starts_with("panic-") => return PROPS.to_vec(),
        "handle" => match cls {
            "handle-dup" => {
                add(true, &["C01", "C03", "C04"]);
                add(threads, &["C12"]);
                add(jump, &["C13"]);
                add(wipe, &["C14"]);
                add(queued, &["C02"]);
                add(killed, &["C15"]);
            }
            "handle-range" => add(true, &["C13"]),
            _ => {
                add(true, &["C15"]);
                add(wipe, &["C14"]);
                add(jump, &["C13"]);
                add(threads, &["C12"]);
            }
        },
        "alive" => {
            add(true, &["C04"]);
            add(queued, &["C02"]);
            add(killed, &["C03"]);
            add(queued && threads, &["C12"]);
            add(queued && threads, &["C01"]);
        }
        "ret" => {
            add(true, &["C04"]);
            add(killed, &["C03"]);
        }
        "stale" => add(true, &["C03", "C04"]),
        "view" => {
            add(true, &["C04"]);
            add(killed, &["C03"]);
        }
        "query" | "one" => {
            add(true, &["C05"]);
            add(matches!(cls, "query-value" | "query-alias"), &["C04"]);
            add(killed, &["C03"]);
            add(cls == "query-dup" || cls == "query-alias", &["C09"]);
        }
        "slice" => {
            add(true, &["C07", "C05"]);
            add(cls == "slice-value", &["C04"]);
            add(killed, &["C03"]);
        }
        "layout" if cls == "layout-accepted" => return vec!["C17"],
        "dense" | "layout" => {
            add(true, &["C07", "C06"]);
            add(fam == "layout", &["C17"]);
        }
        "par" => add(true, &["C08"]),
        "borrow" => {
            add(true, &["C09"]);
            add(threads, &["C12"]);
        }
        "unregistered" | "registered" => add(true, &["C04"]),
        "drop" | "leak" => {
            add(true, &["C10"]);
            add(cls == "drop-unexpected" && killed, &["C03"]);
        }
        "panic" => {
            add(true, &["C11"]);
            add(cls == "panic-dropped", &["C10"]);
        }
        "group" => {
            add(true, &["C07"]);
        }
        "grows" => return vec!["C16"],
        _ => return PROPS.to_vec(),
    }
    let state = !matches!(fam, "group" | "handle" | "drop" | "leak" | "registered" | "unregistered");
    add(state && jump, &["C13"]);
    add(state && queued && has(&[Maintain]), &["C02"]);
    add(state && layouts, &["C06"]);
    add(unfit && fam != "handle", &["C17"]);
    add(state && layouts && matches!(fam, "query" | "one" | "slice"), &["C07"]);
    add(wipe && fam != "handle", &["C14"]);
    add(fault || refused && fam != "borrow", &["C11"]);
    add(par, &["C08"]);
    add(threads && fam != "handle", &["C12"]);
    v.sort();
    v.dedup();
    v
}
