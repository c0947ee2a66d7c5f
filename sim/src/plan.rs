//! A plan: everything that decides one simulated run, and its text form (the replay file).
use crate::ctl::{ANY, CB_NAMES};
use crate::ops::*;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub check: u8,
    pub kind: usize,
    pub krange: i32,
    pub nmax: usize,
    pub ntasks: usize,
    pub init: usize,
    pub init_pat: u64,
    pub nslots: usize,
    pub p_switch: [u32; 4],
    pub stall_pct: u64,
    pub heap_elems: bool,
    pub quarantine: bool,
    pub stack_kb: usize,
    pub step_limit: u64,
    pub sched_seed: u64,
    /// some values are not equal to themselves and not ordered (like a floating-point NaN)
    pub nan: bool,
    /// which build of the simulator and the code under test runs it
    pub build: u8,
}

pub const B_DEV: u8 = 0;
pub const B_REL: u8 = 1;
pub const B_O0: u8 = 2;
/// optimised, with a preemption point at every edge between basic blocks and at every load and
/// store (see pre.rs)
pub const B_PRE: u8 = 3;
pub const B_NAMES: [&str; 4] = ["dev", "rel", "o0", "pre"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub kind: usize,
    pub nth: u32,
    pub kill: bool,
    /// no failure: the callback uses other collections
    pub reenter: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub cfg: Cfg,
    pub tasks: Vec<Vec<Op>>,
    pub faults: BTreeMap<u32, Fault>,
    pub switches: Option<Vec<(u32, u32, u8)>>,
}

pub fn build_named(s: &str) -> u8 {
    B_NAMES.iter().position(|b| *b == s).unwrap_or(0) as u8
}

impl Plan {
    pub fn nops(&self) -> usize {
        self.tasks.iter().map(|t| t.len()).sum()
    }
    pub fn to_text(&self, head: &[String]) -> String {
        let mut s = String::from("lccsim-replay 1\n");
        for h in head {
            writeln!(s, "{h}").unwrap();
        }
        let c = &self.cfg;
        writeln!(
            s,
            "config check={} kind={} krange={} nmax={} ntasks={} init={} init_pat={} nslots={} p_switch={},{},{},{} stall_pct={} heap_elems={} quarantine={} stack_kb={} step_limit={} sched_seed={} nan={} build={}",
            c.check,
            crate::coll::KINDS[c.kind],
            c.krange,
            c.nmax,
            c.ntasks,
            c.init,
            c.init_pat,
            c.nslots,
            c.p_switch[0],
            c.p_switch[1],
            c.p_switch[2],
            c.p_switch[3],
            c.stall_pct,
            c.heap_elems as u8,
            c.quarantine as u8,
            c.stack_kb,
            c.step_limit,
            c.sched_seed,
            c.nan as u8,
            B_NAMES[c.build as usize]
        )
        .unwrap();
        for (i, t) in self.tasks.iter().enumerate() {
            for o in t {
                write!(s, "op task={i} uid={} {}", o.uid, o.oc.name()).unwrap();
                for a in o.a {
                    write!(s, " {a}").unwrap();
                }
                s.push('\n');
            }
        }
        for (u, f) in &self.faults {
            writeln!(s, "fault uid={u} callback={} nth={} effect={}", CB_NAMES[f.kind], f.nth, if f.reenter { "reenter" } else if f.kill { "kill" } else { "panic" }).unwrap();
        }
        if let Some(sw) = &self.switches {
            writeln!(s, "switches {}", sw.len()).unwrap();
            for (u, y, t) in sw {
                writeln!(s, "switch op={u} yield={y} to={t}").unwrap();
            }
        }
        s
    }
    pub fn parse(s: &str) -> Result<(Plan, BTreeMap<String, String>), String> {
        let mut ls = s.lines();
        if ls.next() != Some("lccsim-replay 1") {
            return Err("not a replay file".into());
        }
        let mut head = BTreeMap::new();
        let mut p = Plan {
            cfg: Cfg {
                check: 0,
                kind: 0,
                krange: 1,
                nmax: 0,
                ntasks: 1,
                init: 0,
                init_pat: 0,
                nslots: 4,
                p_switch: [0; 4],
                stall_pct: 0,
                heap_elems: false,
                quarantine: true,
                stack_kb: 0,
                step_limit: 20_000_000,
                sched_seed: 0,
                nan: false,
                build: B_DEV,
            },
            tasks: vec![],
            faults: BTreeMap::new(),
            switches: None,
        };
        let num = |x: &str| x.parse::<u64>().map_err(|e| format!("{x}: {e}"));
        for l in ls {
            let ws: Vec<&str> = l.split_whitespace().collect();
            let kv: BTreeMap<&str, &str> = ws.iter().skip(1).filter_map(|w| w.split_once('=')).collect();
            let get = |k: &str| kv.get(k).copied().ok_or(format!("missing {k} in: {l}"));
            match ws.first().copied() {
                Some("config") => {
                    let c = &mut p.cfg;
                    c.check = num(get("check")?)? as u8;
                    let kn = get("kind")?;
                    c.kind = crate::coll::KINDS.iter().position(|k| *k == kn).ok_or("kind")?;
                    c.krange = num(get("krange")?)? as i32;
                    c.nmax = num(get("nmax")?)? as usize;
                    c.ntasks = num(get("ntasks")?)? as usize;
                    c.init = num(get("init")?)? as usize;
                    c.init_pat = num(get("init_pat")?)?;
                    c.nslots = num(get("nslots")?)? as usize;
                    for (i, x) in get("p_switch")?.split(',').enumerate().take(4) {
                        c.p_switch[i] = num(x)? as u32;
                    }
                    c.stall_pct = num(get("stall_pct")?)?;
                    c.heap_elems = get("heap_elems")? == "1";
                    c.quarantine = get("quarantine")? == "1";
                    c.stack_kb = num(get("stack_kb")?)? as usize;
                    c.step_limit = num(get("step_limit")?)?;
                    c.sched_seed = num(get("sched_seed")?)?;
                    c.nan = kv.get("nan") == Some(&"1");
                    c.build = build_named(kv.get("build").unwrap_or(&"dev"));
                    p.tasks = vec![vec![]; c.ntasks];
                }
                Some("op") => {
                    let t = num(get("task")?)? as usize;
                    let uid = num(get("uid")?)? as u32;
                    let oc = Oc::parse(ws[3]).ok_or(format!("op {}", ws[3]))?;
                    let mut a = [0; 5];
                    for (i, w) in ws[4..].iter().enumerate().take(5) {
                        a[i] = num(w)?;
                    }
                    p.tasks.get_mut(t).ok_or("task")?.push(Op { uid, oc, a });
                }
                Some("fault") => {
                    let cb = get("callback")?;
                    let kind = CB_NAMES.iter().position(|x| *x == cb).unwrap_or(ANY);
                    p.faults.insert(num(get("uid")?)? as u32, Fault { kind, nth: num(get("nth")?)? as u32, kill: get("effect")? == "kill", reenter: get("effect")? == "reenter" });
                }
                Some("switches") => p.switches = Some(vec![]),
                Some("switch") => {
                    let x = (num(get("op")?)? as u32, num(get("yield")?)? as u32, num(get("to")?)? as u8);
                    p.switches.get_or_insert_with(Vec::new).push(x)
                }
                Some(k) => {
                    head.insert(k.trim_end_matches(':').to_string(), l[k.len()..].trim().to_string());
                }
                None => (),
            }
        }
        Ok((p, head))
    }
}
