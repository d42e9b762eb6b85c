#![allow(dead_code)]
//! Replays behaviours of a TLA+ specification into the real library.
//!
//!   vp-seq run --sut NAME --lts FILE --seed N --walks N --len N [--views a,b] [--cov full|N]
//!              [--replay-out FILE] [--name LABEL]
//!   vp-seq replay FILE
//!
//! Prints one JSON object with counts; with a violation it contains "violation" and the
//! offending walk is written to --replay-out.  Exit: 0 fine, 1 violation, 2 harness error.
mod alloc;
mod core;
mod rng;
mod suts;
use crate::core::*;
use crate::rng::Rng;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub type Factory = fn(&J) -> Box<dyn Sut>;

struct Trans {
    to: usize,
    op: &'static J,
    x: &'static J,
    path: u32, // unused padding for alignment of debug output
}
struct Lts {
    obs: Vec<Option<&'static J>>,
    out: Vec<Vec<usize>>,
    trans: Vec<Trans>,
    from: Vec<usize>,
    parent: Vec<Option<usize>>, // BFS tree: transition that first reached the state
    behaviours: Vec<&'static J>,
}

fn leak(j: J) -> &'static J {
    Box::leak(Box::new(j))
}

fn load(file: &str) -> Lts {
    let mut ids: HashMap<String, usize> = HashMap::new();
    let mut l = Lts { obs: vec![], out: vec![], trans: vec![], from: vec![], parent: vec![], behaviours: vec![] };
    let id = |l: &mut Lts, ids: &mut HashMap<String, usize>, s: &J| -> usize {
        let k = s.to_string();
        if let Some(i) = ids.get(&k) {
            return *i;
        }
        let i = l.obs.len();
        ids.insert(k, i);
        l.obs.push(None);
        l.out.push(vec![]);
        l.parent.push(None);
        i
    };
    let f = std::fs::File::open(file).unwrap_or_else(|e| panic!("VPHARNESS: cannot open {}: {}", file, e));
    let mut first_state: Option<usize> = None;
    for line in BufReader::new(f).lines() {
        let line = line.unwrap();
        let line = line.trim();
        if !line.starts_with("\"@") {
            continue;
        }
        let inner: String = serde_json::from_str(line).unwrap_or_else(|e| panic!("VPHARNESS: bad line {}: {}", line, e));
        let (tag, body) = inner.split_at(3);
        let j: J = serde_json::from_str(body).unwrap_or_else(|e| panic!("VPHARNESS: bad json {}: {}", body, e));
        match tag {
            "@S@" => {
                let i = id(&mut l, &mut ids, &j["s"]);
                if first_state.is_none() {
                    first_state = Some(i);
                }
                l.obs[i] = Some(leak(j["obs"].clone()));
            }
            "@T@" => {
                let a = id(&mut l, &mut ids, &j["s"]);
                let b = id(&mut l, &mut ids, &j["t"]);
                let n = l.trans.len();
                l.trans.push(Trans { to: b, op: leak(j["op"].clone()), x: leak(j["x"].clone()), path: 0 });
                l.from.push(a);
                l.out[a].push(n);
            }
            "@B@" => l.behaviours.push(leak(j)),
            _ => {}
        }
    }
    if let Some(i0) = first_state {
        if i0 != 0 {
            panic!("VPHARNESS: the initial state is not the first state printed");
        }
    }
    // breadth-first tree
    if !l.obs.is_empty() {
        let mut seen = vec![false; l.obs.len()];
        let mut q = std::collections::VecDeque::from([0usize]);
        seen[0] = true;
        while let Some(v) = q.pop_front() {
            for &t in &l.out[v] {
                let w = l.trans[t].to;
                if !seen[w] {
                    seen[w] = true;
                    l.parent[w] = Some(t);
                    q.push_back(w);
                }
            }
        }
    }
    l
}

// ------------------------------------------------------------------ walks
#[derive(Clone)]
enum Step {
    Op(&'static J, &'static J, Option<&'static J>),
    Drain,
    Part(usize),
    Spur,
    /// From now on what is sent arrives in the middle of polls, until everything is drained
    Stir(u64),
    Sub,
    Unsub(usize),
}
impl Step {
    fn to_json(&self) -> J {
        match self {
            Step::Op(op, x, obs) => json!({"do": "op", "op": op, "x": x, "obs": obs}),
            Step::Drain => json!({"do": "drain"}),
            Step::Part(n) => json!({"do": "part", "n": n}),
            Step::Spur => json!({"do": "spur"}),
            Step::Stir(n) => json!({"do": "stir", "n": n}),
            Step::Sub => json!({"do": "sub"}),
            Step::Unsub(n) => json!({"do": "unsub", "n": n}),
        }
    }
    fn from_json(j: &J) -> Step {
        match s(j, "do") {
            "op" => Step::Op(leak(j["op"].clone()), leak(j["x"].clone()), if j["obs"].is_null() { None } else { Some(leak(j["obs"].clone())) }),
            "drain" => Step::Drain,
            "part" => Step::Part(u(j, "n")),
            "spur" => Step::Spur,
            "stir" => Step::Stir(j["n"].as_u64().unwrap()),
            "sub" => Step::Sub,
            _ => Step::Unsub(u(j, "n")),
        }
    }
}
#[derive(Clone)]
struct Walk {
    sut: &'static str,
    cfg: J,
    steps: Vec<Step>,
    /// how the views are held and polled (see hold_vec)
    wrap: u64,
}
/// Half of the walks hold their views plainly.
fn wrap_of(n: usize) -> u64 {
    let w = Rng::new(n as u64 ^ 0x5eed).next();
    if w % 2 == 0 {
        0
    } else {
        w
    }
}
impl Walk {
    fn to_json(&self) -> J {
        json!({"sut": self.sut, "cfg": self.cfg, "wrap": self.wrap, "steps": self.steps.iter().map(|s| s.to_json()).collect::<Vec<_>>()})
    }
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

fn check_all(sut: &mut Box<dyn Sut>, obs: &J) -> R {
    for sl in sut.slots().iter_mut() {
        let name = sl.name.clone();
        if let Some(exp) = obs["views"].get(&name) {
            sl.view.check(exp, true).map_err(|e| format!("view {}: {}", name, e))?;
        }
        let ended = match obs["ends"].get(&name) {
            Some(e) => e.as_bool(),
            None => obs["ended"].as_bool(),
        };
        if let Some(e) = ended {
            if e != sl.ended {
                return Err(format!("view {}: {}", name, if e { "has not ended although everything it depends on has" } else { "ended although it still can change" }));
            }
        }
    }
    sut.post(obs)
}

/// Executes a walk.  Ok(number of comparisons) or (step index, message).
fn execute(f: Factory, w: &Walk) -> Result<u64, (usize, String)> {
    let at = std::cell::Cell::new(0usize);
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<u64, String> {
        Tr::reset();
        stir_off();
        wrap_with(w.wrap);
        let mut sut = f(&w.cfg);
        let mut checks = 0u64;
        let mut obs: Option<&'static J> = None;
        let res = (|| -> Result<u64, String> {
            for (n, st) in w.steps.iter().enumerate() {
                at.set(n);
                match st {
                    Step::Op(op, x, o) => {
                        if s(op, "op") == "drain" {
                            for sl in sut.slots().iter_mut() {
                                sl.run(usize::MAX)?;
                                if let Some(exp) = x["out"].get(&sl.name) {
                                    let out = J::Array(sl.view.take_out());
                                    checks += 1;
                                    if &out != exp {
                                        return Err(format!("view {}: reported {} but the specification says {}", sl.name, out, exp));
                                    }
                                } else {
                                    sl.view.take_out();
                                }
                            }
                        } else {
                            sut.apply(op, x)?;
                        }
                        if let Some(o) = o {
                            obs = Some(o);
                            if !o["contents"].is_null() {
                                let silent = x["silent"].as_bool().unwrap_or(false);
                                for sl in sut.slots().iter_mut() {
                                    let path = x["path"].as_array();
                                    for c in path.into_iter().flatten() {
                                        sl.view.note(c, false)?;
                                    }
                                    if path.map_or(true, |p| p.last() != Some(&o["contents"])) {
                                        sl.view.note(&o["contents"], silent)?;
                                    }
                                }
                            }
                            if s(op, "op") == "drain" {
                                checks += 1;
                                check_all(&mut sut, o)?;
                            } else if sut.manual() {
                                checks += 1;
                                sut.post(o)?;
                            }
                        }
                    }
                    Step::Drain => {
                        let slots = sut.slots();
                        let first = stir_below(slots.len());
                        loop {
                            for k in 0..slots.len() {
                                let k = (first + k) % slots.len();
                                slots[k].run(usize::MAX)?;
                            }
                            if !slots.iter().any(|s| s.runnable()) && !stir(true) {
                                break;
                            }
                        }
                        stir_off();
                        if let Some(o) = obs {
                            checks += 1;
                            check_all(&mut sut, o)?;
                        }
                    }
                    Step::Part(k) => {
                        for sl in sut.slots().iter_mut() {
                            sl.run(*k)?;
                        }
                    }
                    Step::Spur => {
                        for sl in sut.slots().iter_mut() {
                            sl.spurious()?;
                        }
                    }
                    Step::Stir(n) => stir_on(*n),
                    Step::Sub => sut.subscribe(),
                    Step::Unsub(n) => sut.unsubscribe(*n),
                }
            }
            sut.finish()?;
            Ok(checks)
        })();
        if res.is_err() {
            std::mem::forget(sut);
        }
        res
    }));
    match r {
        Ok(Ok(c)) => Ok(c),
        Ok(Err(e)) => Err((at.get(), e)),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            if m.contains("VPHARNESS") {
                eprintln!("harness error: {}", m);
                eprintln!("{}", w.to_json());
                std::process::exit(2);
            }
            Err((at.get(), format!("panic: {}", m)))
        }
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn path_to(l: &Lts, mut s: usize) -> Vec<usize> {
    let mut p = vec![];
    while let Some(t) = l.parent[s] {
        p.push(t);
        s = l.from[t];
    }
    p.reverse();
    p
}

fn op_step(l: &Lts, t: usize) -> Step {
    let tr = &l.trans[t];
    let _ = tr.path;
    Step::Op(tr.op, tr.x, l.obs[tr.to])
}

fn drain_of(l: &Lts, st: usize) -> Option<usize> {
    l.out[st].iter().copied().find(|t| l.trans[*t].op["op"] == "drain")
}

/// What the operating system says about a thread: whether it sleeps, how often it went to
/// sleep so far, and how much processor time it has used (hundredths of a second).
fn probe(task: &str) -> Option<(bool, u64, u64)> {
    let stat = std::fs::read_to_string(format!("{}/stat", task)).ok()?;
    let f: Vec<&str> = stat[stat.rfind(')')? + 1..].split_whitespace().collect();
    let cpu = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    let status = std::fs::read_to_string(format!("{}/status", task)).ok()?;
    let n = status.lines().find_map(|l| l.strip_prefix("voluntary_ctxt_switches:"))?.trim().parse().ok()?;
    Some((f[0] == "S", n, cpu))
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let j: J = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let name: &'static str = Box::leak(s(&j, "sut").to_string().into_boxed_str());
            let sut = suts::find(name).expect("unknown sut");
            let w = Walk { sut: name, cfg: j["cfg"].clone(), steps: j["steps"].as_array().unwrap().iter().map(Step::from_json).collect(), wrap: j["wrap"].as_u64().unwrap_or(0) };
            match execute(sut.factory, &w) {
                Ok(_) => println!("the walk now agrees with the specification"),
                Err((n, e)) => {
                    println!("step {}: {}", n, e);
                    std::process::exit(1)
                }
            }
        }
        Some("run") => run(&args),
        _ => {
            eprintln!("usage: vp-seq run|replay ...");
            std::process::exit(2)
        }
    }
}

fn run(args: &[String]) {
    let name: &'static str = Box::leak(arg(args, "--sut").expect("--sut").into_boxed_str());
    let sut = suts::find(name).unwrap_or_else(|| {
        eprintln!("unknown sut {}", name);
        std::process::exit(2)
    });
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n_walks: usize = arg(args, "--walks").and_then(|s| s.parse().ok()).unwrap_or(2000);
    let len: usize = arg(args, "--len").and_then(|s| s.parse().ok()).unwrap_or(30);
    let cov: usize = match arg(args, "--cov").as_deref() {
        None | Some("full") => usize::MAX,
        Some(n) => n.parse().unwrap(),
    };
    let views = arg(args, "--views");
    // no new walk is started after this many seconds
    let limit = std::time::Duration::from_secs(arg(args, "--deadline").and_then(|s| s.parse().ok()).unwrap_or(1_000_000));
    let begun = std::time::Instant::now();
    let late = Arc::new(AtomicBool::new(false));
    let replay_out = arg(args, "--replay-out");
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let l: &'static Lts = Box::leak(Box::new(load(&arg(args, "--lts").expect("--lts"))));
    if l.trans.is_empty() && l.behaviours.is_empty() {
        eprintln!("the specification printed nothing to replay");
        std::process::exit(2)
    }
    let emission = l.trans.iter().any(|t| t.op["op"] == "drain")
        || l.behaviours.iter().any(|b| b.as_array().unwrap().iter().any(|e| e["op"]["op"] == "drain"));
    let only: Option<Vec<String>> = arg(args, "--configs").map(|c| c.split(',').map(|s| s.to_string()).collect());
    let cfgs: &'static Vec<J> = Box::leak(Box::new(
        (sut.configs)()
            .into_iter()
            .filter(|c| only.as_ref().map_or(true, |o| o.iter().any(|n| c["name"] == n.as_str())))
            .map(|mut c| {
                if let Some(v) = &views {
                    c["only"] = J::Array(v.split(',').map(|s| json!(s)).collect());
                }
                c
            })
            .collect(),
    ));
    if cfgs.is_empty() {
        eprintln!("no configuration selected");
        std::process::exit(2)
    }

    // ---- work items: (kind, index)
    let nt = l.trans.len();
    let tsel: Vec<usize> = if nt <= cov {
        (0..nt).collect()
    } else {
        let mut r = Rng::new(seed ^ 77);
        (0..cov).map(|_| r.below(nt)).collect()
    };
    let tsel: &'static Vec<usize> = Box::leak(Box::new(tsel));
    let reach: Vec<bool> = (0..l.obs.len()).map(|i| i == 0 || l.parent[i].is_some()).collect();
    let reach: &'static Vec<bool> = Box::leak(Box::new(reach));

    let manual = sut.manual;
    let variants = if emission { 2 } else if manual { 1 } else { 4 };
    let total_cov = tsel.len() * cfgs.len() * variants;
    let total_walk = if l.trans.is_empty() { 0 } else { n_walks };
    let total_beh = l.behaviours.len() * cfgs.len();
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let walks = Arc::new(AtomicU64::new(0));
    let steps = Arc::new(AtomicU64::new(0));
    let checks = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Vec<(Walk, usize, String)>>> = Arc::new(Mutex::new(vec![]));
    let samples: Arc<Mutex<Vec<J>>> = Arc::new(Mutex::new(vec![]));
    let covered: Arc<Mutex<HashSet<usize>>> = Arc::new(Mutex::new(HashSet::new()));
    let current: Arc<Vec<Mutex<(u64, Option<Walk>)>>> = Arc::new((0..threads).map(|_| Mutex::new((0, None))).collect());

    // hang watchdog: a walk which sleeps, or keeps its thread busy, for 20 s (one that waits for a processor doesn't count)
    let tasks: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; threads]));
    {
        let (current, tasks) = (current.clone(), tasks.clone());
        let replay_out = replay_out.clone();
        std::thread::spawn(move || {
            // per thread: the walk, how often it was found asleep in a row, how often it had gone to sleep, its processor time when the walk was first seen
            let mut last: Vec<(u64, u32, u64, u64)> = vec![(0, 0, 0, 0); threads];
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                for k in 0..threads {
                    let (id, w) = {
                        let g = current[k].lock().unwrap();
                        (g.0, g.1.clone())
                    };
                    let (sleeps, n, cpu) = match tasks.lock().unwrap()[k].as_ref().and_then(|t| probe(t)) {
                        Some(x) => x,
                        None => continue,
                    };
                    let l = &mut last[k];
                    if w.is_none() || id != l.0 {
                        *l = (id, 0, n, cpu);
                        continue;
                    }
                    l.1 = if sleeps && n == l.2 { l.1 + 1 } else { 0 };
                    l.2 = n;
                    if l.1 >= 40 || cpu.saturating_sub(l.3) > 2000 {
                        let mut j = w.unwrap().to_json();
                        j["message"] = json!("hang: the walk did not finish within 20 s");
                        if let Some(f) = &replay_out {
                            std::fs::write(f, serde_json::to_string_pretty(&j).unwrap()).ok();
                        }
                        println!("{}", json!({"violation": {"message": j["message"], "steps": j["steps"].as_array().unwrap().len()}}));
                        std::process::exit(1);
                    }
                }
            }
        });
    }

    let hs: Vec<_> = (0..threads)
        .map(|k| {
            let (next, stop, walks, steps, checks, found, samples, covered, current) =
                (next.clone(), stop.clone(), walks.clone(), steps.clone(), checks.clone(), found.clone(), samples.clone(), covered.clone(), current.clone());
            let factory = sut.factory;
            let (late, tasks) = (late.clone(), tasks.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    tasks.lock().unwrap()[k] = std::fs::read_link("/proc/thread-self").ok().map(|p| format!("/proc/{}", p.display()));
                    let mut cov_local: HashSet<usize> = HashSet::new();
                    let mut serial = 0u64;
                    loop {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if serial % 64 == 63 && begun.elapsed() > limit {
                            late.store(true, Ordering::SeqCst);
                            break;
                        }
                        let n = next.fetch_add(1, Ordering::SeqCst);
                        let w = if n < total_cov {
                            // ---- every transition, in several draining disciplines
                            let t = tsel[n / (cfgs.len() * variants)];
                            let cfg = &cfgs[(n / variants) % cfgs.len()];
                            let var = n % variants;
                            if !reach[l.from[t]] {
                                continue;
                            }
                            cov_local.insert(t);
                            let mut st = vec![];
                            let p = path_to(l, l.from[t]);
                            if emission {
                                for q in p {
                                    st.push(op_step(l, q));
                                }
                                if var == 1 {
                                    // spurious polls are only allowed where they change nothing: right after a drain
                                    if let Some(Step::Op(op, _, _)) = st.last() {
                                        if op["op"] == "drain" {
                                            st.push(Step::Spur);
                                        }
                                    }
                                }
                                st.push(op_step(l, t));
                                if let Some(d) = drain_of(l, l.trans[t].to) {
                                    st.push(op_step(l, d));
                                    if let Some(d2) = drain_of(l, l.trans[d].to) {
                                        st.push(op_step(l, d2));
                                    }
                                }
                            } else if manual {
                                for q in p {
                                    st.push(op_step(l, q));
                                }
                                st.push(op_step(l, t));
                                let mut r = Rng::new(seed ^ (n as u64) << 8);
                                let mut cur = l.trans[t].to;
                                for _ in 0..r.below(8) {
                                    if l.out[cur].is_empty() {
                                        break;
                                    }
                                    let t = l.out[cur][r.below(l.out[cur].len())];
                                    st.push(op_step(l, t));
                                    cur = l.trans[t].to;
                                }
                            } else {
                                if var == 1 && n / variants % 2 == 0 {
                                    st.push(Step::Stir(n as u64));
                                }
                                for q in p {
                                    st.push(op_step(l, q));
                                    match var {
                                        0 => st.push(Step::Drain),
                                        2 => st.push(Step::Part(1)),
                                        _ => {}
                                    }
                                }
                                if var == 3 {
                                    st.push(Step::Drain);
                                    st.push(Step::Spur);
                                }
                                if var == 2 {
                                    st.push(Step::Stir(n as u64));
                                }
                                st.push(op_step(l, t));
                                st.push(Step::Drain);
                            }
                            Walk { sut: name, cfg: cfg.clone(), steps: st, wrap: wrap_of(n) }
                        } else if n < total_cov + total_beh {
                            // ---- behaviours printed by TLC's simulator
                            let m = n - total_cov;
                            let b = l.behaviours[m / cfgs.len()].as_array().unwrap();
                            let cfg = &cfgs[m % cfgs.len()];
                            let mut r = Rng::new(seed.wrapping_add(m as u64 * 7919));
                            let p_drain = [1usize, 3, 6, 10][r.below(4)];
                            let mut st = vec![];
                            for e in b {
                                let obs = if e["obs"].is_null() { None } else { Some(&e["obs"]) };
                                st.push(Step::Op(&e["op"], &e["x"], obs));
                                if !emission && !manual {
                                    extra(&mut st, &mut r, p_drain);
                                }
                            }
                            if !emission && !manual {
                                st.push(Step::Drain);
                            }
                            Walk { sut: name, cfg: cfg.clone(), steps: st, wrap: wrap_of(n) }
                        } else if n < total_cov + total_beh + total_walk {
                            // ---- random walks over the exported transition system
                            let m = n - total_cov - total_beh;
                            let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(m as u64));
                            let cfg = &cfgs[m % cfgs.len()];
                            let p_drain = [0usize, 1, 3, 6, 10][r.below(5)];
                            let mut st = vec![];
                            let mut cur = 0usize;
                            let ln = 1 + r.below(len);
                            let avoid_end = r.chance(2, 3);
                            for _ in 0..ln {
                                if l.out[cur].is_empty() {
                                    break;
                                }
                                let mut t = l.out[cur][r.below(l.out[cur].len())];
                                for _ in 0..6 {
                                    let o = l.trans[t].op["op"].as_str().unwrap_or("");
                                    if avoid_end && st.len() + 3 < ln && (o == "end" || o.starts_with("close")) {
                                        t = l.out[cur][r.below(l.out[cur].len())];
                                    }
                                }
                                if emission && r.chance(1, 4) {
                                    if let Some(d) = drain_of(l, cur) {
                                        t = d;
                                    }
                                }
                                cov_local.insert(t);
                                st.push(op_step(l, t));
                                cur = l.trans[t].to;
                                if !emission && !manual {
                                    extra(&mut st, &mut r, p_drain);
                                }
                            }
                            if emission {
                                if let Some(d) = drain_of(l, cur) {
                                    st.push(op_step(l, d));
                                }
                            } else if !manual {
                                st.push(Step::Drain);
                            }
                            Walk { sut: name, cfg: cfg.clone(), steps: st, wrap: wrap_of(n) }
                        } else {
                            break;
                        };
                        serial += 1;
                        *current[k].lock().unwrap() = (serial, Some(w.clone()));
                        let res = execute(factory, &w);
                        current[k].lock().unwrap().1 = None;
                        walks.fetch_add(1, Ordering::SeqCst);
                        steps.fetch_add(w.steps.len() as u64, Ordering::SeqCst);
                        match res {
                            Ok(c) => {
                                checks.fetch_add(c, Ordering::SeqCst);
                                if n % 9973 == 17 {
                                    let mut s = samples.lock().unwrap();
                                    if s.len() < 3 {
                                        s.push(brief(&w));
                                    }
                                }
                            }
                            Err((at, e)) => {
                                let mut f = found.lock().unwrap();
                                f.push((w, at, e));
                                if f.len() >= 50 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                    covered.lock().unwrap().extend(cov_local);
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            eprintln!("harness thread failed");
            std::process::exit(2)
        }
    }
    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| f.0.steps.len());
    let mut out = json!({
        "sut": name, "configs": cfgs.iter().map(|c| c["name"].clone()).collect::<Vec<_>>(),
        "walks": walks.load(Ordering::SeqCst), "steps": steps.load(Ordering::SeqCst), "comparisons": checks.load(Ordering::SeqCst),
        "lts_states": l.obs.len(), "lts_transitions": nt, "lts_transitions_replayed": covered.lock().unwrap().len(),
        "behaviours": l.behaviours.len(), "samples": *samples.lock().unwrap(), "failing_walks": found.len(),
        "out_of_time": late.load(Ordering::SeqCst),
    });
    if out["samples"].as_array().unwrap().is_empty() && found.is_empty() {
        if let Some(c) = cfgs.first() {
            let mut st = vec![];
            let mut cur = 0;
            for _ in 0..4 {
                if let Some(&t) = l.out.get(cur).and_then(|o| o.last()) {
                    st.push(op_step(l, t));
                    cur = l.trans[t].to;
                }
            }
            out["samples"] = json!([brief(&Walk { sut: name, cfg: c.clone(), steps: st, wrap: 0 })]);
        }
    }
    if let Some((w, at, e)) = found.into_iter().next() {
        let mut w = w;
        w.steps.truncate(at + 1);
        let (w, e) = shrink(sut.factory, w, e);
        let mut j = w.to_json();
        j["message"] = json!(e);
        if let Some(f) = &replay_out {
            std::fs::write(f, serde_json::to_string_pretty(&j).unwrap()).expect("write replay");
        }
        out["violation"] = json!({"message": e, "steps": w.steps.len(), "ops": brief(&w)});
        println!("{}", out);
        std::process::exit(1)
    }
    println!("{}", out);
}

fn extra(st: &mut Vec<Step>, r: &mut Rng, p_drain: usize) {
    if r.chance(1, 6) {
        st.push(Step::Stir(r.next()));
    }
    if r.chance(p_drain, 10) {
        st.push(Step::Drain);
        if r.chance(1, 4) {
            st.push(Step::Spur);
        }
    } else if r.chance(1, 6) {
        st.push(Step::Part(1 + r.below(3)));
    } else if r.chance(1, 12) {
        st.push(Step::Spur);
    }
    if r.chance(1, 16) {
        st.push(Step::Sub);
    }
    if r.chance(1, 24) {
        st.push(Step::Unsub(r.below(4)));
    }
}

/// Drop harness-level steps (drains, partial polls, ...) that are not needed to fail.
fn shrink(f: Factory, mut w: Walk, mut msg: String) -> (Walk, String) {
    if let Err((at, e)) = execute(f, &Walk { wrap: 0, ..w.clone() }) {
        w.wrap = 0;
        w.steps.truncate(at + 1);
        msg = e;
    }
    let mut i = 0;
    while i + 1 < w.steps.len() {
        if matches!(w.steps[i], Step::Op(..)) {
            i += 1;
            continue;
        }
        let mut v = w.clone();
        v.steps.remove(i);
        match execute(f, &v) {
            Err((at, e)) if !e.starts_with("harness") => {
                v.steps.truncate(at + 1);
                w = v;
                msg = e;
            }
            _ => i += 1,
        }
    }
    (w, msg)
}

fn brief(w: &Walk) -> J {
    json!({"cfg": w.cfg["name"], "ops": w.steps.iter().map(|s| match s {
        Step::Op(op, x, _) => if x["out"].is_object() { json!([op, x["out"]]) } else { (*op).clone() },
        s => json!(s.to_json()["do"])
    }).collect::<Vec<_>>()})
}
