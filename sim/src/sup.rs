//! Supervisor: spreads runs over worker processes, watches for crashes and hangs, minimises and
//! replays failures, writes evidence.
use crate::coll::KINDS;
use crate::ctl::*;
use crate::gen::gen_plan;
use crate::ops::*;
use crate::plan::*;
use crate::run::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn opt<'a>(args: &'a [String], k: &str) -> Option<&'a str> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}
fn onum(args: &[String], k: &str, d: u64) -> u64 {
    opt(args, k).and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn check_no(s: &str) -> u8 {
    s.trim_start_matches(['C', 'c']).parse().unwrap_or(0)
}

pub fn main(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("check") => check(args),
        Some("worker") => worker(args),
        Some("exec") => exec(args),
        Some("replay") => replay(args),
        Some("gen") => {
            let p = gen_plan(check_no(&args[1]), onum(args, "--seed", 1), onum(args, "--run", 0), opt(args, "--tier") == Some("thorough"));
            print!("{}", p.to_text(&[]));
            0
        }
        Some("selftest") => selftest(args),
        _ => {
            eprintln!("usage: lccsim check|replay|exec|gen|selftest ...");
            2
        }
    }
}

extern "C" {
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn _exit(code: i32) -> !;
}
fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64 % 16] = 1 << (cpu % 64);
    unsafe {
        sched_setaffinity(0, 128, m.as_ptr());
    }
}

// ------------------------------------------------------------------ one run, reported

/// a violation ends the process right where it was seen: nothing the damage could do afterwards
/// can hide it
fn report_and_exit(gl: &Global) {
    let v = gl.viol.iter().find(|v| v.props & gl.check_bit != 0).unwrap();
    let line = format!("VIOL {} {} {} {:016x} {}\n", v.oracle, v.props, v.uid, gl.s.ev_hash, v.msg.replace('\n', " "));
    let mut o = std::io::stdout();
    let _ = o.write_all(line.as_bytes());
    let _ = o.flush();
    unsafe { _exit(3) }
}

fn exec(args: &[String]) -> i32 {
    install_hook();
    unsafe { ON_ABORT = Some(report_and_exit) }
    let text = match std::fs::read_to_string(&args[1]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {e}", args[1]);
            return 2;
        }
    };
    let (p, _) = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}: {e}", args[1]);
            return 2;
        }
    };
    if exe_of(p.cfg.build) != self_exe() {
        use std::os::unix::process::CommandExt;
        let e = Command::new(exe_of(p.cfg.build)).args(args).exec();
        eprintln!("{e}");
        return 2;
    }
    if let Some(r) = opt(args, "--rec") {
        let _ = REC_PATH.set(r.to_string());
    }
    pin(onum(args, "--cpu", 0) as usize);
    let o = run_plan(&p, args.iter().any(|a| a == "-v"));
    println!("OK {:016x} steps {} switches {}", o.gl.s.ev_hash, o.gl.s.steps, o.gl.s.switches);
    0
}

fn worker(args: &[String]) -> i32 {
    install_hook();
    unsafe { ON_ABORT = Some(report_and_exit) }
    let check = check_no(&args[1]);
    let seed = onum(args, "--seed", 1);
    let (w, of, runs) = (onum(args, "--worker", 0), onum(args, "--of", 1), onum(args, "--runs", 1));
    let start = onum(args, "--start", 0);
    let secs = onum(args, "--secs", 60);
    let thorough = opt(args, "--tier") == Some("thorough");
    let status = std::fs::OpenOptions::new().write(true).create(true).open(opt(args, "--status").unwrap()).unwrap();
    let hashes = std::fs::File::create(opt(args, "--hashes").unwrap()).unwrap();
    let mut hashes = std::io::BufWriter::new(hashes);
    pin(w as usize);
    let t0 = Instant::now();
    let mut st: BTreeMap<String, u64> = BTreeMap::new();
    let mut ctx: HashSet<u64> = HashSet::new();
    let mut idx = start + w;
    let mut max_yield = 0;
    while idx < start + runs {
        status.write_at(&(idx + 1).to_le_bytes(), 0).unwrap();
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        let p = gen_plan(check, seed, idx, thorough);
        let o = run_plan(&p, false);
        let gl = &o.gl;
        let mut add = |k: &str, v: u64| {
            if v > 0 {
                match st.get_mut(k) {
                    Some(x) => *x += v,
                    None => {
                        st.insert(k.to_string(), v);
                    }
                }
            }
        };
        add("runs", 1);
        add(["build:with debug assertions and overflow checks", "build:without debug assertions and overflow checks, optimised", "build:not optimised at all", "build:optimised, preemptible at every basic block, load and store"][my_build() as usize], 1);
        add("ops", gl.ops);
        add("steps", gl.s.steps);
        add("switches", gl.s.switches);
        add("preempts", gl.s.preempts);
        add("stalls", gl.s.stalls);
        add("arcops", gl.arc_ops);
        add("elements", gl.l.created);
        add(&format!("kind:{}", KINDS[p.cfg.kind]), 1);
        add(&format!("tasks:{}", p.cfg.ntasks), 1);
        for (i, n) in CNT_NAMES.iter().enumerate() {
            if !n.is_empty() {
                add(&format!("cnt:{n}"), gl.cnt[i]);
            }
        }
        for (i, n) in gl.fired.iter().enumerate() {
            let name = match i {
                10 => "task killed inside an operation".to_string(),
                11 => "serializer sink reported an error".to_string(),
                12 => "deserializer stream reported an error".to_string(),
                13 => "comparison gave a wrong answer".to_string(),
                14 => "stream of the wrong shape".to_string(),
                16 => "formatter sink reported an error".to_string(),
                15 => "callback used other collections".to_string(),
                i if i < NCB => format!("panic in callback {}", CB_NAMES[i]),
                _ => continue,
            };
            add(&format!("fault:{name}"), *n);
        }
        for (i, n) in gl.yields_by.iter().enumerate() {
            if *n > 0 {
                add(&format!("yield:{}", yname(i)), *n);
            }
        }
        for v in &gl.viol {
            add(&format!("foreign:{}", v.oracle), 1);
        }
        let fired: u64 = gl.fired.iter().sum();
        let nontrivial = gl.s.preempts > 0 || fired > 0 || gl.cnt[C_SHAREDOP] > 0;
        add("nontrivial", nontrivial as u64);
        max_yield = max_yield.max(gl.s.steps);
        ctx.extend(&gl.ctx);
        let _ = hashes.write_all(&gl.s.ev_hash.to_le_bytes());
        let _ = hashes.write_all(&gl.s.il_hash.to_le_bytes());
        let _ = hashes.write_all(&(nontrivial as u64).to_le_bytes());
        idx += of;
    }
    let _ = hashes.flush();
    let mut out = String::new();
    for (k, v) in &st {
        writeln!(out, "S {v} {k}").unwrap();
    }
    for c in ctx {
        writeln!(out, "C {c}").unwrap();
    }
    writeln!(out, "DONE {max_yield}").unwrap();
    let _ = std::io::stdout().write_all(out.as_bytes());
    0
}

// ------------------------------------------------------------------ failures

#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
    oracle: String,
    props: u32,
    uid: u32,
    ev: String,
    msg: String,
}

fn self_exe() -> PathBuf {
    std::env::current_exe().unwrap()
}
/// which of the builds this is: one with debug assertions and overflow checks (dev),
/// one without (rel), one without any optimisation (o0)
pub fn my_build() -> u8 {
    let me = self_exe();
    let dir = me.parent().and_then(|d| d.file_name()).and_then(|d| d.to_str()).unwrap_or("").to_string();
    build_named(&dir)
}
fn exe_of(build: u8) -> PathBuf {
    let me = self_exe();
    let dir = if build == B_DEV { "debug" } else { B_NAMES[build as usize] };
    let sib = me.parent().and_then(|d| d.parent()).map(|d| d.join(dir).join("lccsim"));
    match sib {
        Some(s) if build != my_build() && s.exists() => s,
        _ => me,
    }
}

/// run a plan in a fresh process
fn exec_plan(text: &str, tmp: &Path, extra: &[&str], limit: Duration) -> Option<Fail> {
    let f = tmp.join("cand.plan");
    std::fs::write(&f, text).unwrap();
    let build = text.lines().find(|l| l.starts_with("config ")).and_then(|l| l.rsplit_once(" build=")).map_or(B_DEV, |x| build_named(x.1));
    let mut c = Command::new(exe_of(build));
    c.arg("exec").arg(&f).args(extra).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut ch = c.spawn().ok()?;
    let t0 = Instant::now();
    let mut nap = 200;
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            _ => {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(5000);
            }
        }
    };
    let mut out = String::new();
    if let Some(mut so) = ch.stdout.take() {
        use std::io::Read;
        let mut b = vec![];
        let _ = so.read_to_end(&mut b);
        out = String::from_utf8_lossy(&b).into_owned();
    }
    parse_fail(&out).or_else(|| match st {
        None => Some(Fail { oracle: "hang".into(), props: u32::MAX, uid: 0, ev: "-".into(), msg: format!("the run did not finish within {} s of real time", limit.as_secs()) }),
        Some(s) if s.signal().is_some() => Some(crash_fail(s.signal().unwrap())),
        Some(_) => None,
    })
}
fn crash_fail(sig: i32) -> Fail {
    let why = match sig {
        11 | 7 => "invalid memory access or call-stack overflow",
        6 => "abort: panic while unwinding, call-stack overflow or allocator failure",
        9 => "killed (out of memory)",
        _ => "",
    };
    Fail { oracle: "crash".into(), props: u32::MAX, uid: 0, ev: "-".into(), msg: format!("the process died with signal {sig} ({why})") }
}
fn parse_fail(out: &str) -> Option<Fail> {
    let l = out.lines().find(|l| l.starts_with("VIOL "))?;
    let w: Vec<&str> = l.splitn(6, ' ').collect();
    Some(Fail { oracle: w[1].into(), props: w[2].parse().ok()?, uid: w[3].parse().ok()?, ev: w[4].into(), msg: w.get(5).unwrap_or(&"").to_string() })
}

/// delta debugging over operations, faults, switches and sizes
fn minimise(mut p: Plan, want: &Fail, tmp: &Path, budget: Duration, stats: &mut (u64, usize, usize)) -> (Plan, Fail) {
    let t0 = Instant::now();
    let mut best = want.clone();
    let limit = Duration::from_secs(20);
    stats.1 = p.nops();
    let mut test = |q: &Plan, best: &mut Fail| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        stats.0 += 1;
        match exec_plan(&q.to_text(&[]), tmp, &[], limit) {
            Some(f) if f.oracle == best.oracle => {
                *best = f;
                true
            }
            _ => false,
        }
    };
    // the run up to the failing operation is enough
    loop {
        let before = (p.nops(), p.faults.len(), p.switches.as_ref().map_or(0, |s| s.len()), p.cfg.init);
        // operations
        let mut flat: Vec<(usize, Op)> = p.tasks.iter().enumerate().flat_map(|(i, t)| t.iter().map(move |o| (i, o.clone()))).collect();
        flat.sort_by_key(|x| x.1.uid);
        let build = |p: &Plan, fl: &[(usize, Op)]| -> Plan {
            let mut q = p.clone();
            q.tasks = vec![vec![]; p.cfg.ntasks];
            let mut have = HashSet::new();
            for (t, o) in fl {
                q.tasks[*t].push(o.clone());
                have.insert(o.uid);
            }
            q.faults.retain(|u, _| have.contains(u));
            if let Some(s) = &mut q.switches {
                s.retain(|x| have.contains(&x.0) || x.0 >= 2_000_000);
            }
            q
        };
        let mut chunk = (flat.len() / 2).max(1);
        while !flat.is_empty() {
            let mut i = 0;
            let mut any = false;
            while i < flat.len() {
                let mut c = flat.clone();
                c.drain(i..(i + chunk).min(flat.len()));
                let q = build(&p, &c);
                if test(&q, &mut best) {
                    flat = c;
                    p = q;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                if !any {
                    break;
                }
            } else {
                chunk = (chunk / 2).max(1);
            }
            if t0.elapsed() > budget {
                break;
            }
        }
        // faults
        for u in p.faults.keys().copied().collect::<Vec<_>>() {
            let mut q = p.clone();
            q.faults.remove(&u);
            if test(&q, &mut best) {
                p = q;
            }
        }
        // switches
        if let Some(sw) = p.switches.clone() {
            let mut sw = sw;
            let mut chunk = (sw.len() / 2).max(1);
            while !sw.is_empty() && t0.elapsed() < budget {
                let mut i = 0;
                while i < sw.len() {
                    let mut c = sw.clone();
                    c.drain(i..(i + chunk).min(sw.len()));
                    let mut q = p.clone();
                    q.switches = Some(c.clone());
                    if test(&q, &mut best) {
                        sw = c;
                        p = q;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
        // sizes
        for tgt in [0, p.cfg.init / 4, p.cfg.init / 2, p.cfg.init * 3 / 4, p.cfg.init.saturating_sub(1)] {
            if tgt < p.cfg.init {
                let mut q = p.clone();
                q.cfg.init = tgt;
                if test(&q, &mut best) {
                    p = q;
                    break;
                }
            }
        }
        for tgt in [1, p.cfg.nmax / 4, p.cfg.nmax / 2, p.cfg.nmax.saturating_sub(1)] {
            if tgt < p.cfg.nmax && tgt > 0 {
                let mut q = p.clone();
                q.cfg.nmax = tgt;
                if test(&q, &mut best) {
                    p = q;
                    break;
                }
            }
        }
        if p.cfg.heap_elems {
            let mut q = p.clone();
            q.cfg.heap_elems = false;
            if test(&q, &mut best) {
                p = q;
            }
        }
        // a last idle task is no use
        while p.cfg.ntasks > 1 && p.tasks.last().map_or(false, |t| t.is_empty()) {
            let mut q = p.clone();
            q.cfg.ntasks -= 1;
            q.tasks.pop();
            if test(&q, &mut best) {
                p = q;
            } else {
                break;
            }
        }
        let after = (p.nops(), p.faults.len(), p.switches.as_ref().map_or(0, |s| s.len()), p.cfg.init);
        if after == before || t0.elapsed() > budget {
            break;
        }
    }
    stats.2 = p.nops();
    (p, best)
}

struct W {
    ch: Child,
    status: PathBuf,
    out: PathBuf,
    hashes: PathBuf,
    last: u64,
    since: Instant,
    done: Option<Option<i32>>, // exited: Some(signal)
}

fn status_of(p: &Path) -> u64 {
    std::fs::read(p).ok().filter(|b| b.len() >= 8).map_or(0, |b| u64::from_le_bytes(b[..8].try_into().unwrap()))
}

/// default number of runs
fn budget(check: u8, thorough: bool) -> (u64, u64) {
    let quick = match check {
        15 => 3500,
        11 | 18 => 130_000,
        4 => 500_000,
        2 | 8 => 350_000,
        _ => 250_000,
    };
    if thorough {
        (u64::MAX / 4, 600)
    } else {
        (quick, 150)
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check(args: &[String]) -> i32 {
    let id = args[1].clone();
    let no = check_no(&id);
    let seed = onum(args, "--seed", 1);
    let tier = opt(args, "--tier").unwrap_or("quick").to_string();
    let thorough = tier == "thorough";
    let (dr, ds) = budget(no, thorough);
    let runs = onum(args, "--runs", dr);
    let secs = onum(args, "--secs", ds);
    let hooked = opt(args, "--hooks") != Some("off");
    let nw = onum(args, "--workers", std::thread::available_parallelism().map_or(8, |n| n.get()) as u64);
    // a worker runs every nw-th plan, in the build that the plan asks for
    let nw = nw.div_ceil(crate::gen::BUILDS) * crate::gen::BUILDS;
    let evidence = PathBuf::from(opt(args, "--evidence").unwrap_or("evidence.json"));
    let replays = PathBuf::from(opt(args, "--replays").unwrap_or("replays"));
    let tmp = std::env::temp_dir().join(format!("lccsim.{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let t0 = Instant::now();
    let hang = Duration::from_secs(onum(args, "--hang", 90));

    let mut ws: Vec<W> = vec![];
    for w in 0..nw {
        let status = tmp.join(format!("status.{w}"));
        let out = tmp.join(format!("out.{w}"));
        let hashes = tmp.join(format!("hashes.{w}"));
        let ch = Command::new(exe_of(crate::gen::build_of(no, w)))
            .args(["worker", &id, "--seed", &seed.to_string(), "--worker", &w.to_string(), "--of", &nw.to_string()])
            .args(["--runs", &runs.to_string(), "--secs", &secs.to_string(), "--tier", &tier])
            .arg("--status")
            .arg(&status)
            .arg("--hashes")
            .arg(&hashes)
            .stdout(std::fs::File::create(&out).unwrap())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        ws.push(W { ch, status, out, hashes, last: 0, since: Instant::now(), done: None });
    }
    // (run index, failure) of the lowest failing run seen
    let mut fails: Vec<(u64, Fail)> = vec![];
    let mut broken = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let mut alive = 0;
        for w in ws.iter_mut() {
            if w.done.is_some() {
                continue;
            }
            match w.ch.try_wait() {
                Ok(Some(s)) => {
                    w.done = Some(s.signal());
                    let idx = status_of(&w.status).saturating_sub(1);
                    let out = std::fs::read_to_string(&w.out).unwrap_or_default();
                    if let Some(f) = parse_fail(&out) {
                        fails.push((idx, f));
                    } else if let Some(sig) = s.signal() {
                        fails.push((idx, crash_fail(sig)));
                    } else if s.code() != Some(0) || !out.contains("DONE ") {
                        broken = Some(format!("worker ended with {s} at run {idx}"));
                    }
                }
                _ => {
                    alive += 1;
                    let now = status_of(&w.status);
                    if now != w.last {
                        w.last = now;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > hang {
                        let _ = w.ch.kill();
                        let _ = w.ch.wait();
                        w.done = Some(Some(9));
                        fails.push((now.saturating_sub(1), Fail { oracle: "hang".into(), props: u32::MAX, uid: 0, ev: "-".into(), msg: format!("an operation did not finish within {} s of real time", hang.as_secs()) }));
                    }
                }
            }
        }
        if alive == 0 || !fails.is_empty() || broken.is_some() {
            break;
        }
    }
    if !fails.is_empty() || broken.is_some() {
        // one failure is enough
        for w in ws.iter_mut() {
            if w.done.is_none() {
                let _ = w.ch.kill();
                let _ = w.ch.wait();
                w.done = Some(None);
            }
        }
    }
    if fails.is_empty() {
        if let Some(b) = broken {
            eprintln!("lccsim: {b}");
            let _ = std::fs::remove_dir_all(&tmp);
            return 2;
        }
    }

    let mut code = 0;
    let mut vcount = 0;
    let mut viol_json = String::from("null");
    if !fails.is_empty() {
        fails.sort_by_key(|f| f.0);
        let (idx, f) = fails[0].clone();
        let (file, f2, note, st) = failure(no, &id, seed, idx, &f, thorough, &tmp, &replays);
        println!("{}: {} (run {idx}, seed {seed}): {}", id, f2.oracle, f2.msg);
        println!("{note}");
        println!("VIOLATION property={} replay={}", id, file.display());
        vcount = 1;
        code = 1;
        viol_json = format!(
            "{{\"run\": {idx}, \"seed\": {seed}, \"oracle\": {}, \"message\": {}, \"replay\": {}, \"operations_before_minimising\": {}, \"operations_after\": {}, \"candidate_runs\": {}}}",
            jstr(&f2.oracle),
            jstr(&f2.msg),
            jstr(&file.display().to_string()),
            st.1,
            st.2,
            st.0
        );
    }

    // evidence
    let mut st: BTreeMap<String, u64> = BTreeMap::new();
    let mut ctx: HashSet<String> = HashSet::new();
    let mut evs: HashSet<u64> = HashSet::new();
    let mut ils: HashSet<u64> = HashSet::new();
    let mut distinct_nt: HashSet<u64> = HashSet::new();
    for w in &ws {
        for l in std::fs::read_to_string(&w.out).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("S ") {
                if let Some((v, k)) = r.split_once(' ') {
                    *st.entry(k.to_string()).or_default() += v.parse::<u64>().unwrap_or(0);
                }
            } else if let Some(c) = l.strip_prefix("C ") {
                ctx.insert(c.to_string());
            }
        }
        let b = std::fs::read(&w.hashes).unwrap_or_default();
        for c in b.chunks_exact(24) {
            let h = |i: usize| u64::from_le_bytes(c[i..i + 8].try_into().unwrap());
            evs.insert(h(0));
            ils.insert(h(8));
            if h(16) == 1 {
                distinct_nt.insert(h(0));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let done = st.get("runs").copied().unwrap_or(0).max(evs.len() as u64);
    let group = |pre: &str| -> String {
        let v: Vec<String> = st.iter().filter_map(|(k, v)| k.strip_prefix(pre).map(|n| format!("{}: {v}", jstr(n)))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let s = |k: &str| st.get(k).copied().unwrap_or(0);
    let samples: Vec<String> = [0, 1, 2].iter().map(|i| jstr(&sample(&gen_plan(no, seed, *i, thorough)))).collect();
    let per_h = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
    let text = format!(
        r#"{{
 "property": {},
 "tier": {},
 "seed": {seed},
 "level": "exploration",
 "wall_s": {wall:.2},
 "violations": {vcount},
 "coverage": {{
  "evaluations": {done},
  "distinct_nontrivial": {},
  "rule": "One evaluation is one simulated run: a plan (operations per task, faults) drawn from (check, seed, run index) and executed under the seeded scheduler. Distinct: the hash over every yield point, its task, every observed result and every fault differs. Non-trivial: at least one operation ran on structure shared between handles, or a fault fired, or a task was preempted inside an operation.",
  "samples": [{}],
  "runs_and_seeds_per_hour": {},
  "simulated_steps": {},
  "simulated_time": "the code under test has no clock or timer; simulated time is counted in scheduler steps (yield points passed)",
  "operations": {},
  "elements_created": {},
  "distinct_histories": {},
  "distinct_interleavings": {},
  "interleaving_measure": "hash over the sequence of context switches (from, to, kind of yield point, operation)",
  "operation_contexts": {},
  "operation_context_measure": "distinct (collection type, operation, size bucket, shared or not, fault fired or not, faulted handle or not, one or several tasks)",
  "context_switches": {},
  "preemptions_inside_operations": {},
  "task_stalls": {},
  "faults_fired": {},
  "events": {},
  "yield_points_passed": {},
  "runs_by_collection": {},
  "runs_by_number_of_tasks": {},
  "runs_by_build": {},
  "mismatches_seen_that_belong_to_other_properties": {},
  "refcount_hooks": {},
  "real_components": ["lazy-clone-collections, whole crate, from /repo's working tree", "std::sync::Arc / std::rc::Rc under it", "serde data model"],
  "stub_components": ["thread scheduler (seeded baton)", "allocator (tagging, poisoning, quarantine over the system allocator)", "keys, values, closures, predicates, source iterators", "serializer sink and deserializer stream", "mailboxes that lose, duplicate and reorder handles"],
  "violation": {viol_json}
 }},
 "assumptions": [{}, "failures of the memory allocator abort the process and are out of scope"]
}}
"#,
        jstr(&id),
        jstr(&tier),
        distinct_nt.len(),
        samples.join(", "),
        per_h(done),
        s("steps"),
        s("ops"),
        s("elements"),
        evs.len(),
        ils.len(),
        ctx.len(),
        s("switches"),
        s("preempts"),
        s("stalls"),
        group("fault:"),
        group("cnt:"),
        group("yield:"),
        group("kind:"),
        group("tasks:"),
        group("build:"),
        group("foreign:"),
        jstr(if hooked { "on (cfg lcc_sim)" } else { "OFF: the tree did not build with cfg lcc_sim; yield points at user callbacks only" }),
        jstr(if no == 18 {
            "std::sync::Arc orders accesses as documented (Release when a reference is given up, Acquire when its owner is found to be the only one); accesses seen are those to elements (reads, writes, moves, clones, drops)"
        } else {
            "sequentially consistent interleaving at the granularity of reference-count operations and user callbacks"
        }),
    );
    if let Some(d) = evidence.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&evidence, text).expect("write evidence");
    let _ = std::fs::remove_dir_all(&tmp);
    if code == 0 {
        println!(
            "{id}: held on {done} runs ({} steps, {} distinct histories, {} distinct interleavings, {} faults) in {wall:.1} s",
            s("steps"),
            evs.len(),
            ils.len(),
            st.iter().filter(|(k, _)| k.starts_with("fault:")).map(|x| x.1).sum::<u64>()
        );
    }
    code
}

fn sample(p: &Plan) -> String {
    let mut s = format!(
        "{} x{} tasks, {} initial entries, keys 0..{}: ",
        KINDS[p.cfg.kind], p.cfg.ntasks, p.cfg.init, p.cfg.krange
    );
    for (i, t) in p.tasks.iter().enumerate() {
        let v: Vec<String> = t.iter().take(12).map(|o| match p.faults.get(&o.uid) {
            Some(f) => format!("{}!{}#{}", o.oc.name(), if f.reenter { "reenter" } else if f.kill { "kill" } else { CB_NAMES[f.kind] }, f.nth),
            None => o.oc.name().to_string(),
        }).collect();
        write!(s, "task {i}: {}{}; ", v.join(" "), if t.len() > 12 { " .." } else { "" }).unwrap();
    }
    s
}

/// re-run, minimise, store the replay file and make sure that it reproduces
#[allow(clippy::too_many_arguments)]
fn failure(no: u8, id: &str, seed: u64, idx: u64, f: &Fail, thorough: bool, tmp: &Path, replays: &Path) -> (PathBuf, Fail, String, (u64, usize, usize)) {
    let mut p = gen_plan(no, seed, idx, thorough);
    let mut stats = (0, p.nops(), p.nops());
    let mut note = String::new();
    let mut best = f.clone();
    let rec = tmp.join("rec");
    let lim = Duration::from_secs(if f.oracle == "hang" { 60 } else { 40 });
    let again = exec_plan(&p.to_text(&[]), tmp, &["--rec", rec.to_str().unwrap()], lim);
    match &again {
        Some(g) => {
            best = g.clone();
            let sw = std::fs::read_to_string(&rec).unwrap_or_default();
            let sw: Vec<(u32, u32, u8)> = sw
                .lines()
                .filter_map(|l| {
                    let w: Vec<u32> = l.split(' ').filter_map(|x| x.parse().ok()).collect();
                    (w.len() == 3).then(|| (w[0], w[1], w[2] as u8))
                })
                .collect();
            p.switches = Some(sw);
            let same = exec_plan(&p.to_text(&[]), tmp, &[], lim);
            if same.as_ref().map(|s| &s.oracle) != Some(&best.oracle) {
                p.switches = None;
            } else {
                best = same.unwrap();
            }
            if best.oracle != "hang" {
                let (q, b) = minimise(p, &best.clone(), tmp, Duration::from_secs(45), &mut stats);
                p = q;
                best = b;
            }
        }
        None => note.push_str("(a fresh process did not reproduce it: memory damage may depend on what ran before; the replay file holds the whole plan)\n"),
    }
    let _ = std::fs::create_dir_all(replays);
    let file = replays.join(format!("{id}-seed{seed}-run{idx}.replay"));
    let head = vec![
        format!("property {id}"),
        format!("seed {seed}"),
        format!("run {idx}"),
        format!("oracle {}", best.oracle),
        format!("ev_hash {}", best.ev),
        format!("message {}", best.msg),
    ];
    let text = p.to_text(&head);
    std::fs::write(&file, &text).expect("write replay");
    if again.is_some() && best.oracle != "hang" {
        match exec_plan(&text, tmp, &[], lim) {
            Some(r) if r.oracle == best.oracle && r.ev == best.ev => {
                writeln!(
                    note,
                    "minimised from {} to {} operations, {} faults, {} switches in {} candidate runs; replay reproduces it exactly (event hash {})",
                    stats.1,
                    stats.2,
                    p.faults.len(),
                    p.switches.as_ref().map_or(0, |s| s.len()),
                    stats.0,
                    best.ev
                )
                .unwrap();
            }
            r => writeln!(note, "replay gave {r:?} instead").unwrap(),
        }
    }
    (file.canonicalize().unwrap_or(file), best, note.trim_end().to_string(), stats)
}

/// replay a file, printing the trace; exit 1 if it shows the recorded failure
fn replay(args: &[String]) -> i32 {
    let text = std::fs::read_to_string(&args[1]).expect("read replay file");
    let (_, head) = Plan::parse(&text).expect("parse replay file");
    let quiet = args.iter().any(|a| a == "-q");
    if !quiet {
        let _ = Command::new(self_exe()).args(["exec", &args[1], "-v"]).status();
    }
    let tmp = std::env::temp_dir().join(format!("lccsim.{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let r = exec_plan(&text, &tmp, &[], Duration::from_secs(120));
    let _ = std::fs::remove_dir_all(&tmp);
    match r {
        None => {
            println!("no violation");
            0
        }
        Some(f) => {
            let same = head.get("oracle") == Some(&f.oracle) && head.get("ev_hash") == Some(&f.ev);
            println!("{}: {}", f.oracle, f.msg);
            println!("{}", if same { "reproduced exactly" } else { "a violation, but not the recorded execution (the code has changed)" });
            1
        }
    }
}

/// every run twice, in different processes: the histories must be identical
fn selftest(args: &[String]) -> i32 {
    let n = onum(args, "--runs", 400);
    let seed = onum(args, "--seed", 1);
    let tmp = std::env::temp_dir().join(format!("lccsim.{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let mut bad = 0;
    let me = self_exe();
    let pre = exe_of(B_PRE);
    let all = (1..=16).chain([18]).map(|c| (c, &me));
    for (c, exe) in all.chain([1, 6, 11].into_iter().filter(|_| pre != me).map(|c| (c, &pre))) {
        let n = if c == 15 { n / 20 } else { n };
        let mut sums = vec![];
        for rep in 0..2 {
            let h = tmp.join(format!("h{rep}"));
            let st = Command::new(exe)
                .args(["worker", &format!("C{c:02}"), "--seed", &seed.to_string(), "--worker", "0", "--of", "1", "--runs", &n.to_string(), "--secs", "600"])
                .arg("--status")
                .arg(tmp.join("st"))
                .arg("--hashes")
                .arg(&h)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            sums.push((st.ok().and_then(|s| s.code()), std::fs::read(&h).unwrap_or_default()));
        }
        // and with recorded switches replayed
        let same = sums[0] == sums[1];
        println!("C{c:02}: {} runs twice{}: {}", n, if *exe == me { "" } else { ", preemptible anywhere" }, if same { "identical" } else { "DIFFERENT" });
        if !same {
            bad += 1;
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    (bad > 0) as i32
}
