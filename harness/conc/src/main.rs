//! Runs small multi-threaded programs on the real library under a controlled scheduler
//! and records, per execution, the history of calls and returns, who is left parked and
//! what is still alive.  It does not judge anything: the histories are checked by TLC
//! against the specifications Lin*.tla.
//!
//!   vp-conc run --scen FILE --out FILE --seed N --preempt P --max N --random N
//!   vp-conc replay FILE
mod fam;
mod sched;
use crate::fam::*;
use crate::sched::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Wake, Waker};

thread_local! {
    static HOOK: RefCell<Option<Arc<Hook>>> = RefCell::new(None);
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

/// A scheduling point of the harness itself (inside user code).
pub fn user_step() {
    let h = HOOK.try_with(|h| h.borrow().clone()).unwrap_or(None);
    if let Some(h) = h {
        h.s.switch(h.me, Status::Ready);
    }
}

struct W {
    s: Arc<Sched>,
    who: usize,
    gens: Arc<AtomicUsize>,
    gen: usize,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        user_step();
        // only the waker of the latest poll counts
        if self.gens.load(Ordering::SeqCst) == self.gen {
            self.s.wake(self.who);
        }
    }
}

pub struct Outcome {
    pub events: Vec<String>,
    pub choices: Vec<Choice>,
    pub end: End,
    pub steps: usize,
    pub same: bool,
}

fn opname(op: &J) -> &str {
    op["op"].as_str().unwrap()
}

/// `same`: the task passes one and the same waker to every poll, instead of a new one each time.
fn thread_body(s: &Arc<Sched>, me: usize, prog: &[J], ctx: &mut dyn Ctx, parked: &Arc<Mutex<Vec<i64>>>, same: bool) {
    let gens = Arc::new(AtomicUsize::new(0));
    let only = Waker::from(Arc::new(W { s: s.clone(), who: me, gens: gens.clone(), gen: 0 }));
    for op in prog {
        let consume = opname(op) == "consume";
        let pollop = if consume { json!({"op": "poll", "o": op["o"]}) } else { op.clone() };
        loop {
            user_step();
            if opname(&pollop) == "poll" {
                s.clear_wake(me);
                let waker = if same {
                    only.clone()
                } else {
                    let gen = gens.fetch_add(1, Ordering::SeqCst) + 1;
                    Waker::from(Arc::new(W { s: s.clone(), who: me, gens: gens.clone(), gen }))
                };
                let mut cx = Context::from_waker(&waker);
                s.event(format!("{{\"e\":\"call\",\"t\":{},\"op\":{}}}", me, pollop));
                let r = ctx.poll(op["o"].as_i64().unwrap(), &mut cx);
                s.event(format!("{{\"e\":\"ret\",\"t\":{},\"r\":\"{}\"}}", me, r));
                if !consume || r == "e" || r == "gone" || r.starts_with("end") {
                    break;
                }
                if r == "p" {
                    parked.lock().unwrap().push(op["o"].as_i64().unwrap());
                    let again = s.park(me);
                    parked.lock().unwrap().retain(|o| *o != op["o"].as_i64().unwrap());
                    if !again {
                        return;
                    }
                }
            } else {
                s.event(format!("{{\"e\":\"call\",\"t\":{},\"op\":{}}}", me, pollop));
                let r = ctx.exec(op);
                s.event(format!("{{\"e\":\"ret\",\"t\":{},\"r\":\"{}\"}}", me, r));
                break;
            }
        }
    }
}

pub fn execute(scen: &J, prefix: Vec<u8>, rng: Option<u64>, preempt: usize, same: bool) -> Outcome {
    let progs: Vec<Vec<J>> = scen["threads"].as_array().unwrap().iter().map(|t| t.as_array().unwrap().clone()).collect();
    let n = progs.len();
    let s = Sched::new(n, prefix, rng, preempt);
    let live = Arc::new(Live::default());
    let ctxs = make(scen, &live);
    let parked: Arc<Mutex<Vec<i64>>> = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for (me, (prog, mut ctx)) in progs.into_iter().zip(ctxs).enumerate() {
        let (s, parked) = (s.clone(), parked.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 * 1024)
                .spawn(move || {
                    let hook = Arc::new(Hook { s: s.clone(), me });
                    HOOK.with(|h| *h.borrow_mut() = Some(hook.clone()));
                    s.start(me);
                    futures_signals::vp_install(Some(hook));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        thread_body(&s, me, &prog, &mut *ctx, &parked, same);
                        // keep everything alive until all threads came to rest
                        while s.park(me) {}
                    }));
                    if r.is_err() {
                        let m = PANIC.with(|p| p.borrow().clone());
                        s.event(format!("{{\"e\":\"panic\",\"t\":{},\"r\":{}}}", me, json!(m)));
                    }
                    let r = catch_unwind(AssertUnwindSafe(move || drop(ctx)));
                    if r.is_err() {
                        let m = PANIC.with(|p| p.borrow().clone());
                        s.event(format!("{{\"e\":\"panic\",\"t\":{},\"r\":{}}}", me, json!(m)));
                    }
                    futures_signals::vp_install(None);
                    HOOK.with(|h| *h.borrow_mut() = None);
                    s.done(me);
                })
                .unwrap(),
        );
    }
    let mut end = s.run_all();
    let (mut events, choices);
    {
        let mut g = s.m.lock().unwrap();
        events = std::mem::take(&mut g.events);
        choices = g.choices.clone();
        if end == End::Quiet {
            let mut p = parked.lock().unwrap().clone();
            p.sort();
            events.push(format!("{{\"e\":\"quiet\",\"parked\":{:?}}}", p));
            g.ending = true;
            for st in g.status.iter_mut() {
                if *st == Status::Parked {
                    *st = Status::Ready;
                }
            }
        }
    }
    if end == End::Quiet {
        end = s.run_all();
        if end == End::Quiet {
            for h in hs {
                h.join().ok();
            }
            events.push(format!("{{\"e\":\"final\",\"r\":\"{}\"}}", live.summary()));
        }
    }
    match end {
        End::Deadlock => events.push("{\"e\":\"deadlock\"}".into()),
        End::Livelock => events.push("{\"e\":\"livelock\"}".into()),
        _ => {}
    }
    let steps = s.m.lock().unwrap().steps;
    Outcome { events, choices, end, steps, same }
}

/// Calls next to each other commute, and so do returns: sort them.
fn canon(ev: &[String]) -> Vec<String> {
    let kind = |e: &String| if e.starts_with("{\"e\":\"call\"") { 1 } else if e.starts_with("{\"e\":\"ret\"") { 2 } else { 0 };
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < ev.len() {
        let k = kind(&ev[i]);
        let mut j = i + 1;
        while j < ev.len() && k != 0 && kind(&ev[j]) == k {
            j += 1;
        }
        let mut part = ev[i..j].to_vec();
        if k != 0 {
            part.sort();
        }
        out.extend(part);
        i = j;
    }
    out
}

/// Write histories (sorted, so that those with a common prefix are neighbours) as a forest
/// in which common prefixes are shared: roots.ndjson has one line {init, kids} per scenario,
/// nodes.ndjson one line {ev, kids, h} per node (h: the number of the history that ends here, or 0).
fn forest(dir: &str, scens: &[J], hs: &[(usize, usize, &Vec<String>)]) {
    struct Node {
        ev: Vec<String>,
        kids: Vec<usize>,
        h: usize,
    }
    let mut nodes: Vec<Node> = vec![];
    let mut roots: Vec<(usize, Vec<usize>)> = vec![];
    // one node per event first
    fn build(nodes: &mut Vec<Node>, hs: &[(usize, usize, &Vec<String>)], depth: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut a = 0;
        while a < hs.len() {
            if hs[a].2.len() <= depth {
                a += 1;
                continue;
            }
            let mut b = a + 1;
            while b < hs.len() && hs[b].2.get(depth) == hs[a].2.get(depth) {
                b += 1;
            }
            // the events all of them share
            let mut end = depth + 1;
            while hs[a].2.len() > end && hs[a..b].iter().all(|h| h.2.get(end) == hs[a].2.get(end)) {
                end += 1;
            }
            let h = hs[a..b].iter().find(|h| h.2.len() == end).map_or(0, |h| h.0);
            let kids = build(nodes, &hs[a..b], end);
            nodes.push(Node { ev: hs[a].2[depth..end].to_vec(), kids, h });
            out.push(nodes.len());
            a = b;
        }
        out
    }
    let mut a = 0;
    while a < hs.len() {
        let mut b = a + 1;
        while b < hs.len() && hs[b].1 == hs[a].1 {
            b += 1;
        }
        let kids = build(&mut nodes, &hs[a..b], 0);
        roots.push((hs[a].1, kids));
        a = b;
    }
    std::fs::create_dir_all(dir).unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/roots.ndjson", dir)).unwrap());
    for (i, kids) in &roots {
        writeln!(f, "{{\"init\":{},\"kids\":{:?}}}", init_of(&scens[*i]), kids).unwrap();
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/nodes.ndjson", dir)).unwrap());
    for n in &nodes {
        writeln!(f, "{{\"ev\":[{}],\"kids\":{:?},\"h\":{}}}", n.ev.join(","), n.kids, n.h).unwrap();
    }
}

fn arg(args: &[String], k: &str, d: usize) -> usize {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn sarg(args: &[String], k: &str) -> String {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| panic!("missing {}", k))
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = m.clone());
        if m.contains("VPHARNESS") || m.contains("harness/conc") {
            eprintln!("harness error: {}", m);
            std::process::exit(2);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args),
        Some("replay") => {
            let j: J = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let prefix: Vec<u8> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            let o = execute(&j["scen"], prefix, None, 1000, j["same_waker"] == true);
            println!("{}", j["scen"]);
            for e in o.events {
                println!("{}", e);
            }
            std::process::exit(0)
        }
        _ => std::process::exit(2),
    }
}

fn run(args: &[String]) {
    let seed = arg(args, "--seed", 1) as u64;
    let preempt = arg(args, "--preempt", 2);
    let max = arg(args, "--max", 2000);
    let random = arg(args, "--random", 200);
    let keep = arg(args, "--keep", 400);
    let workers = arg(args, "--threads", 8);
    // no new execution is started after this many seconds
    let limit = std::time::Duration::from_secs(arg(args, "--deadline", 1_000_000) as u64);
    let begun = std::time::Instant::now();
    let late = Arc::new(AtomicUsize::new(0));
    let scens: Vec<J> = std::io::BufReader::new(std::fs::File::open(sarg(args, "--scen")).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let scens = Arc::new(scens);
    let next = Arc::new(AtomicUsize::new(0));
    let results: Arc<Mutex<Vec<(usize, Vec<String>, Vec<u8>, bool)>>> = Arc::new(Mutex::new(vec![]));
    let (execs, steps, complete, dropped) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let worst = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..workers)
        .map(|_| {
            let (worst, late) = (worst.clone(), late.clone());
            let (scens, next, results, execs, steps, complete, dropped) = (scens.clone(), next.clone(), results.clone(), execs.clone(), steps.clone(), complete.clone(), dropped.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                // (dead locks take long; some of them are enough)
                if i >= scens.len() || worst.load(Ordering::SeqCst) >= 40 {
                    break;
                }
                if begun.elapsed() > limit {
                    late.fetch_add(1, Ordering::SeqCst);
                    continue;
                }
                let scen = &scens[i];
                let mut seen: HashMap<Vec<String>, (Vec<u8>, bool)> = HashMap::new();
                let mut bad = 0;
                let mut note = |o: Outcome| -> (Vec<Choice>, bool) {
                    execs.fetch_add(1, Ordering::SeqCst);
                    steps.fetch_add(o.steps, Ordering::SeqCst);
                    let c = canon(&o.events);
                    if seen.len() < keep || o.end != End::Quiet {
                        seen.entry(c).or_insert_with(|| (o.choices.iter().map(|c| c.picked).collect(), o.same));
                    } else if !seen.contains_key(&c) {
                        dropped.fetch_add(1, Ordering::SeqCst);
                    }
                    if o.end != End::Quiet {
                        bad += 1;
                        worst.fetch_add(1, Ordering::SeqCst);
                    }
                    (o.choices, bad >= 3)
                };
                // depth first with an increasing number of preemptions
                let mut exhausted = 0;
                'outer: for same in [false, true] {
                    for p in 0..=preempt {
                        let mut prefix: Vec<u8> = vec![];
                        let mut m = 0;
                        loop {
                            let (choices, stop) = note(execute(scen, prefix.clone(), None, p, same));
                            m += 1;
                            if stop {
                                break 'outer;
                            }
                            let mut k = choices.len();
                            while k > 0 && choices[k - 1].picked + 1 >= choices[k - 1].options {
                                k -= 1;
                            }
                            if k == 0 {
                                exhausted += (p == preempt) as usize;
                                break;
                            }
                            prefix = choices[..k].iter().map(|c| c.picked).collect();
                            prefix[k - 1] += 1;
                            if m >= max || begun.elapsed() > limit {
                                break;
                            }
                        }
                    }
                }
                if exhausted == 2 {
                    complete.fetch_add(1, Ordering::SeqCst);
                }
                for k in 0..random {
                    if begun.elapsed() > limit {
                        break;
                    }
                    let r = (seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ((i as u64) << 20) ^ (k as u64 + 1)).wrapping_mul(0xD1342543DE82EF95) | 1;
                    let (_, stop) = note(execute(scen, vec![], Some(r), 1000, k % 2 == 1));
                    if stop {
                        break;
                    }
                }
                let mut v: Vec<_> = seen.into_iter().map(|(c, (ch, same))| (i, c, ch, same)).collect();
                v.sort();
                results.lock().unwrap().extend(v);
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            std::process::exit(2);
        }
    }
    let mut rs = std::mem::take(&mut *results.lock().unwrap());
    rs.sort();
    let out = sarg(args, "--out");
    let parts = arg(args, "--parts", 1);
    std::fs::create_dir_all(&out).unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}/histories.ndjson", out)).unwrap());
    for (i, c, ch, same) in &rs {
        writeln!(f, "{{\"i\":{},\"ev\":[{}],\"choices\":{:?},\"same\":{}}}", i, c.join(","), ch, same).unwrap();
    }
    drop(f);
    let all: Vec<(usize, usize, &Vec<String>)> = rs.iter().enumerate().map(|(h, (i, c, _, _))| (h + 1, *i, c)).collect();
    // scenarios go round so that the parts take about equally long
    let mut order: Vec<&[(usize, usize, &Vec<String>)]> = vec![];
    let mut a = 0;
    while a < all.len() {
        let mut b = a + 1;
        while b < all.len() && all[b].1 == all[a].1 && b - a < 400 {
            b += 1;
        }
        order.push(&all[a..b]);
        a = b;
    }
    for k in 0..parts {
        let mine: Vec<_> = order.iter().skip(k).step_by(parts).flat_map(|x| x.iter().cloned()).collect();
        forest(&format!("{}/part{}", out, k), &scens, &mine);
    }
    println!(
        "{}",
        json!({"scenarios": scens.len(), "executions": execs.load(Ordering::SeqCst), "steps": steps.load(Ordering::SeqCst),
               "histories": rs.len(), "histories_not_kept": dropped.load(Ordering::SeqCst), "exhausted": complete.load(Ordering::SeqCst),
               "programs_not_run": late.load(Ordering::SeqCst)})
    );
    std::process::exit(0);
}
