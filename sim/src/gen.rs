//! From (check, seed, run index) to a plan: swarm-style random workloads, schedules and faults.
use crate::coll::*;
use crate::ctl::*;
use crate::ops::*;
use crate::plan::*;
use crate::rng::{mix2, Rng};
use std::collections::BTreeMap;

/// a quarter of the plans goes to the build without debug assertions, and for C15 one to
/// the build in which no tail call is optimised away; for the properties about several threads
/// some go to the build that can be preempted anywhere
pub const BUILDS: u64 = 8;
pub fn build_of(check: u8, run: u64) -> u8 {
    match run % BUILDS {
        3 | 7 => B_REL,
        1 | 5 if check == 15 => B_O0,
        1 | 4 | 5 if check == 11 => B_PRE,
        1 if check == 1 || check == 6 => B_PRE,
        _ => B_DEV,
    }
}

const MAPS: &[usize] = &[0, 0, 0, 0, 13, 13, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 15, 16];
const SETS: &[usize] = &[8, 8, 8, 8, 8, 8, 9, 9, 10, 10, 14, 14, 11, 11, 17];
const TREES: &[usize] = &[0, 0, 0, 0, 13, 13, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 8, 8, 8, 8, 9, 9, 10, 10, 14, 14, 11, 11, 15, 16, 17];
const TREESF: &[usize] = &[0, 0, 0, 0, 13, 13, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 8, 8, 8, 8, 9, 9, 10, 10, 14, 14, 11, 11, 6, 6, 7, 7, 15, 16, 17];
const ALL: &[usize] = &[0, 0, 0, 0, 13, 13, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 8, 8, 8, 8, 9, 9, 10, 10, 14, 14, 11, 11, 6, 6, 7, 7, 12, 12, 12, 12, 15, 16, 17];
const ALL15: &[usize] = &[0, 0, 0, 13, 1, 1, 2, 2, 3, 4, 5, 8, 8, 8, 9, 10, 14, 11, 6, 7, 12, 12, 12, 12, 12, 15, 16, 17];
const NOFIX: &[usize] = &[0, 0, 0, 0, 13, 13, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 8, 8, 8, 8, 9, 9, 10, 10, 14, 14, 11, 11, 12, 12, 15, 16, 17];

fn kinds(check: u8) -> &'static [usize] {
    match check {
        2 => MAPS,
        3 => SETS,
        4 => &[12],
        5 | 11 | 18 => TREESF,
        10 | 14 | 16 => TREES,
        12 => NOFIX,
        15 => ALL15,
        _ => ALL,
    }
}

/// weight of an operation for a check, before the per-run swarm factor
fn weight(check: u8, oc: Oc, multi: bool) -> u32 {
    use Oc::*;
    let base = match oc {
        Clone => 12,
        Drop => 6,
        Build => 1,
        Send | Recv => if multi { 5 } else { 1 },
        Publish => 2,
        BoardRead => 4,
        BoardClone => 2,
        CurOpen => 2,
        CurStep => 6,
        CurDrop => 1,
        Clear => 1,
        Insert | Remove => 14,
        Push | Pop => 14,
        TopMut | Top => 8,
        GetMut => 8,
        PopFirst | PopLast => 5,
        Get | Contains | GetKv => 4,
        Extend | FromIter => 4,
        Append | SplitOff => 5,
        Retain => 4,
        IterMut => 4,
        Iter => 4,
        IntoIter => 3,
        De | SerDe | Ser => 2,
        StkSplit | StkRemove => 8,
        OtherTypes => match check {
            2 | 3 | 4 => 3,
            1 | 5 | 6 | 8 | 12 | 16 => 1,
            _ => 0,
        },
        _ => 3,
    };
    let boost = match check {
        1 => match oc {
            Clone => 3,
            IterMut | ForEachMut | ValuesMut | RangeMut | GetMut | TopMut | Retain | IntoIter | SplitOff | Append => 2,
            _ => 1,
        },
        3 => match oc {
            SubSet | SuperSet | Disjoint | Diff | Inter | Union | SymDiff | OpAnd | OpOr | OpXor | OpSub | NewUnion | NewInter | NewDiff | NewSym => 2,
            _ => 1,
        },
        5 => match oc {
            Remove | PopFirst | PopLast | Retain | SplitOff | Append | NewUnion | NewInter | NewDiff | NewSym | NewJoin => 3,
            De | SerDe | Insert => 2,
            _ => 1,
        },
        6 => match oc {
            CurOpen | CurStep | IntoIter | IntoKeys | IntoValues | Retain | Send | Recv => 3,
            _ => 1,
        },
        8 => match oc {
            Iter | Keys | Values | IterMut | ValuesMut | IntoIter | IntoKeys | IntoValues | IntoVec | CurOpen | CurStep => 8,
            ForEach | ForEachMut => 3,
            _ => 1,
        },
        9 => match oc {
            Clone => 3,
            GetMut | Insert | Remove | Push | Pop | TopMut | IterMut | IntoIter => 2,
            _ => 1,
        },
        10 => match oc {
            De => 40,
            SerDe => 10,
            _ => 1,
        },
        12 => match oc {
            Eq | Cmp | PCmp | Hash | Dbg => 10,
            _ => 1,
        },
        13 => match oc {
            Extend | ExtendRef | FromIter | EntryOrInsertWith | EntryOrInsertWithKey | EntryAndModify | EntryModOrInsert | FirstEntryMod | LastEntryMod
            | ForEach | ForEachMut | IterMut | ValuesMut | RangeMut => 8,
            _ => 1,
        },
        14 => match oc {
            Ser => 20,
            SerDe => 12,
            _ => 1,
        },
        18 => match oc {
            GetMut | IterMut | ValuesMut | RangeMut | ForEachMut | Insert | Remove | Send | Recv | Publish | BoardRead | BoardClone => 2,
            _ => 1,
        },
        16 => match oc {
            Range | RangeMut => 20,
            _ => 1,
        },
        _ => 1,
    };
    base * boost
}

fn fault_rate(check: u8, r: &mut Rng) -> u64 {
    // per thousand operations
    match check {
        7 => *r.pick(&[60, 120, 200]),
        13 => *r.pick(&[80, 150, 250]),
        6 => *r.pick(&[0, 30, 80]),
        1 | 8 | 14 | 15 => *r.pick(&[0, 20, 50]),
        10 => *r.pick(&[0, 30]),
        9 | 12 => 0,
        _ => *r.pick(&[0, 0, 15]),
    }
}

fn kinds_of_fault(check: u8, oc: Oc, r: &mut Rng) -> usize {
    use Oc::*;
    if check == 13 {
        return match oc {
            Extend | ExtendRef | FromIter => CB_SRC,
            _ => CB_CLOSURE,
        };
    }
    let mut c = vec![];
    match oc {
        Extend | ExtendRef => c.extend([CB_SRC, CB_CMP, CB_KCLONE, CB_VCLONE]),
        FromIter => c.extend([CB_SRC, CB_CMP]),
        Retain => c.extend([CB_CLOSURE, CB_CLOSURE, CB_CMP, CB_KCLONE, CB_VCLONE]),
        ForEach | ForEachMut | IterMut | ValuesMut | RangeMut => c.extend([CB_CLOSURE, CB_KCLONE, CB_VCLONE]),
        EntryOrInsertWith | EntryOrInsertWithKey | EntryAndModify | EntryModOrInsert | FirstEntryMod | LastEntryMod => {
            c.extend([CB_CLOSURE, CB_CLOSURE, CB_CMP, CB_KCLONE, CB_VCLONE])
        }
        Ser => c.push(CB_SER),
        De => c.extend([CB_DE, CB_CMP]),
        SerDe => c.extend([CB_DE, CB_CMP, CB_SER]),
        Eq | Cmp | PCmp | Hash | Dbg => c.extend([CB_CMP, CB_VCMP, CB_VCMP]),
        _ => c.extend([CB_CMP, CB_KCLONE, CB_VCLONE]),
    }
    if matches!(check, 1 | 6 | 7 | 15) {
        if c.contains(&CB_CMP) && check != 15 {
            c.push(LIE)
        }
        if r.pct(12) {
            c.push(CB_DROP)
        }
    }
    *r.pick(&c)
}

pub fn gen_plan(check: u8, seed: u64, idx: u64, thorough: bool) -> Plan {
    let mut r = Rng::new(mix2(mix2(seed, check as u64), idx));
    let kind = *r.pick(kinds(check));
    let fam = fam_of(kind);
    if check == 15 && r.pct(92) {
        return gen_big(check, kind, &mut r, thorough, build_of(check, idx));
    }
    let ntasks = if fam == Fam::Stack {
        1
    } else {
        match check {
            11 | 18 => *r.pick(&[2, 2, 2, 3, 3, 4]),
            1 | 6 | 7 => *r.pick(&[1, 1, 1, 2, 2, 3]),
            10 | 14 | 16 | 12 | 13 => *r.pick(&[1, 1, 1, 1, 1, 2]),
            _ => *r.pick(&[1, 1, 1, 2]),
        }
    };
    let multi = ntasks > 1;
    // a few runs on trees with one more level of wide nodes
    let huge = r.below(if thorough { 100 } else { 500 }) == 0;
    // and a handful with more entries than fit in 16 bits
    let giant = huge && r.below(15) == 0;
    let deep = huge || r.pct(if check == 5 { 15 } else if check == 9 || check == 16 { 8 } else if build_of(check, idx) == B_PRE { 12 } else { 4 });
    let krange = if giant { r.range(66_000, 140_000) } else if huge { r.range(5_000, if thorough { 60_000 } else { 20_000 }) } else if deep { r.range(600, if thorough { 6000 } else { 2500 }) } else { *r.pick(&[3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 100, 160, 256]) } as i32;
    let init = if deep { r.range(krange as u64 / if giant { 1 } else { 2 }, krange as u64) } else { *r.pick(&[0, 0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233]) };
    let init = init.min(krange as u64) as usize;
    let nmax = match r.below(5) {
        0 => 2,
        1 => 6,
        2 => krange as u64 / 2 + 1,
        3 => krange as u64 + 2,
        _ => 2 * krange as u64,
    } as usize;
    let nops = if giant { r.range(5, 14) } else if deep { r.range(10, 40) } else if multi { r.range(10, 90) } else { r.range(10, 160) } as usize;
    let sw = r.pct(70);
    // in this build most switches come from its own preemption points
    let rare = multi && build_of(check, idx) == B_PRE && r.pct(70);
    let p_base = if !multi { 0 } else if rare { *r.pick(&[0, 0, 8, 65536 / 1000]) } else { *r.pick(&[65536 / 4, 65536 / 12, 65536 / 40, 65536 / 150]) };
    let cfg = Cfg {
        check,
        kind,
        krange,
        nmax,
        ntasks,
        init,
        init_pat: r.u64(),
        nslots: r.range(2, 5) as usize,
        p_switch: [p_base.max(if !multi { 0 } else if rare { 65536 / 100 } else { 65536 / 8 }), if sw { p_base } else { p_base / 8 }, p_base, p_base],
        stall_pct: if multi { *r.pick(&[0, 0, 5, 30]) } else { 0 },
        heap_elems: r.pct(40),
        quarantine: r.pct(80),
        stack_kb: 0,
        step_limit: if giant { 400_000_000 } else { 20_000_000 },
        sched_seed: r.u64(),
        nan: match check {
            12 => r.pct(45),
            2 | 4 => r.pct(15),
            _ => false,
        },
        build: build_of(check, idx),
    };
    // swarm: which operations this run uses, and how much
    let mut ws: Vec<(Oc, u32)> = vec![];
    for oc in OC_ALL {
        if !supports(fam, *oc) {
            continue;
        }
        let w = weight(check, *oc, multi);
        let f = match r.below(10) {
            0..=2 => 0,
            3..=7 => 2,
            8 => 6,
            _ => 12,
        };
        ws.push((*oc, w * f));
    }
    if ws.iter().all(|w| w.1 == 0) {
        ws[0].1 = 1;
    }
    if rare && r.pct(40) {
        // all tasks mostly do the same few things, at the same time
        let sum: u32 = ws.iter().map(|w| w.1).sum();
        for _ in 0..r.range(1, 2) {
            let i = r.below(ws.len() as u64) as usize;
            if weight(check, ws[i].0, multi) > 0 {
                ws[i].1 += sum
            }
        }
    }
    let wts: Vec<u32> = ws.iter().map(|w| w.1).collect();
    let rate = fault_rate(check, &mut r);
    // callbacks that use other collections, per thousand operations
    let reenter = match check {
        13 => *r.pick(&[0, 60, 200]),
        2 | 3 | 4 | 8 | 10 | 12 | 14 | 16 => *r.pick(&[0, 0, 0, 0, 0, 60]),
        _ => 0,
    };
    let kill_pct = match check {
        11 | 18 => 60,
        6 | 15 => 35,
        7 | 1 => 20,
        13 => 0,
        _ => 10,
    };
    let only_closure = check == 13;
    let mut tasks = vec![vec![]; ntasks];
    let mut faults = BTreeMap::new();
    let mut uid = 1;
    let keymode = r.below(6);
    let mut seqk = r.below(krange as u64);
    // phases: the mix may drift half-way (grow, then shrink)
    let drift = r.below(3);
    for t in 0..ntasks {
        for n in 0..nops {
            let mut i = r.weighted(&wts);
            if drift == 1 {
                use Oc::*;
                let grow = n * 2 < nops;
                for _ in 0..2 {
                    let o = ws[i].0;
                    let shrink = matches!(o, Remove | RemoveEntry | PopFirst | PopLast | Retain | Take | Pop | StkRemove | Clear | Drop);
                    let grows = matches!(o, Insert | Extend | ExtendRef | FromIter | Push | EntryOrInsert | Append);
                    if grow && shrink || !grow && grows {
                        i = r.weighted(&wts);
                    }
                }
            }
            let mut oc = ws[i].0;
            if cfg.nan && oc == Oc::Cmp {
                oc = Oc::PCmp; // no total order to speak of
            }
            let key = match keymode {
                0 | 1 => r.u64() >> 33,
                2 => r.below(8),
                3 => {
                    seqk += 1;
                    seqk
                }
                4 => {
                    seqk = seqk.wrapping_sub(1) & 0xFFFF_FFFF;
                    seqk
                }
                _ => {
                    if r.pct(70) {
                        (seqk + r.below(6)) & 0xFFFF_FFFF
                    } else {
                        r.u64() >> 33
                    }
                }
            };
            let op = Op { uid, oc, a: [r.below(64), key, r.below(64), r.u64(), r.u64() >> 33] };
            if r.below(1000) < rate && !matches!(oc, Oc::Clone | Oc::Drop | Oc::Send | Oc::Recv | Oc::Publish | Oc::BoardClone | Oc::CurOpen | Oc::CurDrop | Oc::Build | Oc::OtherTypes) {
                let f = if r.pct(kill_pct) && n > nops / 4 {
                    Fault { kind: ANY, nth: r.logu(100) as u32, kill: true, reenter: false }
                } else {
                    let mut k = kinds_of_fault(check, oc, &mut r);
                    if only_closure && k != CB_SRC {
                        k = CB_CLOSURE
                    }
                    let lim = if deep { 300 } else { 40 };
                    let nth = if r.pct(50) { r.range(1, 4) } else { r.logu(lim) };
                    Fault { kind: k, nth: nth as u32, kill: false, reenter: false }
                };
                faults.insert(uid, f);
            } else if matches!(check, 1 | 6 | 7) && matches!(oc, Oc::Drop | Oc::CurDrop) && r.below(1000) < rate {
                faults.insert(uid, Fault { kind: CB_DROP, nth: r.logu(40) as u32, kill: false, reenter: false });
            } else if r.below(1000) < reenter {
                let kind = if r.pct(60) { ANY } else { kinds_of_fault(check, oc, &mut r) };
                if kind != LIE && kind != CB_DROP {
                    faults.insert(uid, Fault { kind, nth: r.logu(30) as u32, kill: false, reenter: true });
                }
            }
            tasks[t].push(op);
            uid += 1;
        }
    }
    Plan { cfg, tasks, faults, switches: None }
}

/// long chains and large trees on a small stack
fn gen_big(check: u8, kind: usize, r: &mut Rng, thorough: bool, build: u8) -> Plan {
    use Oc::*;
    let fam = fam_of(kind);
    let n = r.logu(if thorough { 400_000 } else { 120_000 }).max(if fam == Fam::Stack { 30_000 } else { 15_000 });
    // the build without optimisation is slow, and its frames are large
    let n = if build == B_O0 { n.min(if fam == Fam::Stack { 20_000 } else { 9_000 }) } else { n };
    let cfg = Cfg {
        check,
        kind,
        krange: (n * 2) as i32,
        nmax: n as usize,
        ntasks: if fam != Fam::Stack && r.pct(30) { 2 } else { 1 },
        init: if r.pct(50) { n as usize } else { 0 },
        init_pat: r.u64(),
        nslots: 4,
        p_switch: [65536 / 4, 65536 / 20000, 65536 / 20000, 65536 / 20000],
        stall_pct: 0,
        heap_elems: r.pct(20),
        quarantine: false,
        stack_kb: 256,
        step_limit: 400_000_000,
        sched_seed: r.u64(),
        nan: false,
        build,
    };
    let nops = r.range(4, if build == B_O0 { 10 } else { 14 }) as usize;
    let mut tasks = vec![vec![]; cfg.ntasks];
    let mut faults = BTreeMap::new();
    let mut uid = 1;
    let mut ws = vec![];
    for oc in OC_ALL {
        if supports(fam, *oc) {
            let w = match oc {
                Clone => 8,
                FromIter | Extend => 5,
                Drop | Clear => 4,
                StkSplit | StkRemove | IntoIter | CurOpen | CurStep | CurDrop | Append | SplitOff | De | SerDe | Pop | Push => 4,
                Dbg | Eq | Cmp | Diff | Inter | Union | SymDiff | SubSet | Disjoint => 3,
                StkContains => 6,
                StkRemoveBad | StkSplitBad => 1,
                Send | Recv | Publish | BoardClone | BoardRead => 1,
                OtherTypes => 0,
                _ => 2,
            };
            ws.push((*oc, w));
        }
    }
    let wts: Vec<u32> = ws.iter().map(|w| w.1).collect();
    for t in 0..cfg.ntasks {
        for i in 0..nops {
            let mut oc = ws[r.weighted(&wts)].0;
            if i == 0 && cfg.init == 0 {
                oc = FromIter;
            }
            let big = r.pct(75);
            let a4 = if big { n } else { r.below(n) };
            let mut pat = r.u64();
            if oc == FromIter || oc == Extend {
                // cheap, large and varied
                pat = pat & !7 | *r.pick(&[0, 0, 2, 3, 6]);
            }
            tasks[t].push(Op { uid, oc, a: [r.below(4), r.below(n), r.below(4), pat, a4] });
            if i > 0 && matches!(oc, Drop | CurDrop | Clear) && r.pct(25) {
                // a destructor fails while a long chain is let go
                faults.insert(uid, Fault { kind: CB_DROP, nth: r.logu(n) as u32, kill: false, reenter: false });
            } else if i > 0 && r.pct(8) && !matches!(oc, Clone | Drop | Send | Recv | Publish | BoardClone | CurOpen | CurDrop | Build) {
                let f = if r.pct(60) {
                    Fault { kind: ANY, nth: r.logu(2 * n) as u32, kill: true, reenter: false }
                } else {
                    Fault { kind: kinds_of_fault(check, oc, r), nth: r.logu(n) as u32, kill: false, reenter: false }
                };
                faults.insert(uid, f);
            }
            uid += 1;
        }
    }
    Plan { cfg, tasks, faults, switches: None }
}
