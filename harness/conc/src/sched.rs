//! A controlled scheduler: exactly one thread of an execution runs at any time, and at
//! every operation on a synchronization primitive (hook vp_hooks in /repo/src/sync.rs) it
//! decides who runs next.  Sequentially consistent interleavings only.
use futures_signals::VpScheduler;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Ready,
    Blocked(usize),
    Parked, // a consumer that waits to be woken
    External, // blocked on something we do not control
    Done,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Running,
    Quiet,
    Deadlock,
    Livelock,
}

#[derive(Clone, Copy)]
pub struct Choice {
    pub picked: u8,
    pub options: u8,
    pub preempt: bool, // picking anything but 0 is a preemption
}

pub struct Inner {
    pub current: usize, // usize::MAX: the controller
    pub status: Vec<Status>,
    pub woken: Vec<bool>,
    pub prefix: Vec<u8>,
    pub choices: Vec<Choice>,
    pub rng: Option<u64>,
    pub leave: u64,
    pub preempt_left: usize,
    pub steps: usize,
    pub end: End,
    pub ending: bool,
    pub events: Vec<String>,
    pub tasks: Vec<Option<String>>, // where /proc tells about the thread
}

/// What the operating system says about a thread: whether it sleeps, how often it went to
/// sleep so far, and how much processor time it has used (hundredths of a second).
fn probe(task: &str) -> Option<(bool, u64, u64)> {
    let stat = std::fs::read_to_string(format!("{}/stat", task)).ok()?;
    let f: Vec<&str> = stat[stat.rfind(')')? + 1..].split_whitespace().collect();
    let cpu = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    let status = std::fs::read_to_string(format!("{}/status", task)).ok()?;
    let n = status.lines().find_map(|l| l.strip_prefix("voluntary_ctxt_switches:"))?.trim().parse().ok()?;
    Some((f[0] == "S", n, cpu))
}

/// Tells threads that are stuck (asleep, or busy without end) from threads which merely wait for a processor.
#[derive(Default)]
struct Stuck {
    seen: std::collections::HashMap<usize, (usize, u64, u64, u32)>,
}
impl Stuck {
    /// How many probes found thread t asleep all the time, or busy for another second, since anyone took a step.
    fn look(&mut self, g: &Inner, t: usize, steps: usize) -> u32 {
        let (sleeps, n, cpu) = match g.tasks[t].as_ref().map(|p| probe(p)) {
            Some(Some(x)) => x,
            _ => return 0,
        };
        let e = self.seen.entry(t).or_insert((steps, n, cpu, 0));
        if e.0 != steps {
            *e = (steps, n, cpu, 0);
        }
        if e.1 != n {
            // it slept and went on
            (e.1, e.3) = (n, 0);
        } else if sleeps {
            e.3 += 1;
        } else if cpu.saturating_sub(e.2) >= 100 {
            (e.2, e.3) = (cpu, e.3 + 1);
        }
        e.3
    }
}

pub struct Sched {
    pub m: Mutex<Inner>,
    pub cv: Vec<Condvar>,
    pub main: Condvar,
}

pub const MAX_STEPS: usize = 4000;

fn next_rand(x: &mut u64) -> u64 {
    *x ^= *x << 13;
    *x ^= *x >> 7;
    *x ^= *x << 17;
    *x
}

impl Sched {
    pub fn new(n: usize, prefix: Vec<u8>, rng: Option<u64>, preempt: usize) -> Arc<Sched> {
        Arc::new(Sched {
            m: Mutex::new(Inner {
                current: usize::MAX,
                status: vec![Status::Ready; n],
                woken: vec![false; n],
                prefix,
                choices: vec![],
                rng,
                leave: rng.map_or(1, |mut r| { next_rand(&mut r); [2, 4, 10, 30][((r >> 13) % 4) as usize] }),
                preempt_left: preempt,
                steps: 0,
                end: End::Running,
                ending: false,
                events: vec![],
                tasks: vec![None; n],
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            main: Condvar::new(),
        })
    }

    /// Choose the next thread to run; `me` is the one that asks (usize::MAX: nobody).
    fn choose(&self, g: &mut Inner, me: usize) {
        g.steps += 1;
        let me_ok = me != usize::MAX && g.status[me] == Status::Ready;
        let mut opts: Vec<usize> = vec![];
        if me_ok {
            opts.push(me);
        }
        for t in 0..g.status.len() {
            if t != me && g.status[t] == Status::Ready {
                opts.push(t);
            }
        }
        if g.steps > MAX_STEPS {
            g.end = End::Livelock;
            g.current = usize::MAX;
            self.main.notify_all();
            return;
        }
        if opts.is_empty() {
            g.current = usize::MAX;
            if g.status.iter().any(|s| matches!(s, Status::Blocked(_))) {
                // somebody outside of our control may still release it
                if !g.status.iter().any(|s| *s == Status::External) {
                    g.end = End::Deadlock;
                }
            } else if !g.status.iter().any(|s| *s == Status::External) {
                g.end = End::Quiet;
            }
            self.main.notify_all();
            return;
        }
        let k = if opts.len() == 1 || g.ending {
            0
        } else {
            let n = if me_ok && g.preempt_left == 0 { 1 } else { opts.len() };
            let at = g.choices.len();
            let k = if at < g.prefix.len() {
                (g.prefix[at] as usize).min(n - 1)
            } else if let Some(r) = &mut g.rng {
                // leave the current thread sometimes: often, rarely or hardly ever
                if me_ok && next_rand(r) % g.leave != 0 {
                    0
                } else {
                    (next_rand(r) % n as u64) as usize
                }
            } else {
                0
            };
            g.choices.push(Choice { picked: k as u8, options: n as u8, preempt: me_ok });
            if me_ok && k != 0 {
                g.preempt_left -= 1;
            }
            k
        };
        g.current = opts[k];
        if opts[k] != me {
            self.cv[opts[k]].notify_all();
        }
    }

    fn wait_turn(&self, mut g: std::sync::MutexGuard<Inner>, me: usize) {
        while g.current != me {
            g = self.cv[me].wait(g).unwrap();
        }
    }

    pub fn start(&self, me: usize) {
        let task = std::fs::read_link("/proc/thread-self").ok().map(|p| format!("/proc/{}", p.display()));
        let mut g = self.m.lock().unwrap();
        g.tasks[me] = task;
        self.wait_turn(g, me);
    }

    pub fn switch(&self, me: usize, st: Status) {
        let mut g = self.m.lock().unwrap();
        if g.current != me {
            // we had been given up as blocked elsewhere; queue up again
            if g.status[me] == Status::External {
                g.status[me] = Status::Ready;
                if g.current == usize::MAX {
                    g.current = me;
                }
            }
            self.wait_turn(g, me);
            g = self.m.lock().unwrap();
        }
        g.status[me] = st;
        self.choose(&mut g, me);
        self.wait_turn(g, me);
    }

    pub fn done(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.status[me] = Status::Done;
        if g.current == me || g.current == usize::MAX {
            self.choose(&mut g, me);
        }
    }

    /// Park until woken; false: the execution is ending.
    pub fn park(&self, me: usize) -> bool {
        {
            let mut g = self.m.lock().unwrap();
            if g.woken[me] {
                g.woken[me] = false;
                return true;
            }
            if g.ending {
                return false;
            }
            g.status[me] = Status::Parked;
            self.choose(&mut g, me);
            self.wait_turn(g, me);
        }
        let mut g = self.m.lock().unwrap();
        if g.ending {
            return false;
        }
        g.woken[me] = false;
        true
    }

    pub fn clear_wake(&self, me: usize) {
        self.m.lock().unwrap().woken[me] = false;
    }

    pub fn wake(&self, who: usize) {
        let mut g = self.m.lock().unwrap();
        g.woken[who] = true;
        if g.status[who] == Status::Parked {
            g.status[who] = Status::Ready;
        }
    }

    pub fn event(&self, e: String) {
        let mut g = self.m.lock().unwrap();
        if !g.ending {
            g.events.push(e);
        }
    }

    /// Controller: run until nothing can run any more.
    pub fn run_all(&self) -> End {
        let mut g = self.m.lock().unwrap();
        g.end = End::Running;
        self.choose(&mut g, usize::MAX);
        let mut last = g.steps;
        let mut stuck = Stuck::default();
        while g.end == End::Running {
            let (g2, to) = self.main.wait_timeout(g, Duration::from_millis(200)).unwrap();
            g = g2;
            if g.end != End::Running {
                break;
            }
            if to.timed_out() && g.steps == last {
                let c = g.current;
                if c != usize::MAX && g.status[c] == Status::Ready {
                    if stuck.look(&g, c, last) >= 3 {
                        // it blocks on something that is not hooked: let others go on
                        g.status[c] = Status::External;
                        self.choose(&mut g, usize::MAX);
                    }
                } else {
                    // nobody can run until one of those goes on
                    let ext: Vec<usize> = (0..g.status.len()).filter(|t| g.status[*t] == Status::External).collect();
                    if ext.iter().map(|t| stuck.look(&g, *t, last)).min().unwrap_or(0) > 8 {
                        g.end = End::Deadlock;
                    }
                }
            }
            if g.steps != last {
                last = g.steps;
            }
        }
        g.end
    }
}

pub struct Hook {
    pub s: Arc<Sched>,
    pub me: usize,
}
impl VpScheduler for Hook {
    fn step(&self, _what: &'static str, _addr: usize) {
        self.s.switch(self.me, Status::Ready);
    }
    fn blocked(&self, addr: usize) {
        self.s.switch(self.me, Status::Blocked(addr));
    }
    fn released(&self, addr: usize) {
        let mut g = self.s.m.lock().unwrap();
        for s in g.status.iter_mut() {
            if *s == Status::Blocked(addr) {
                *s = Status::Ready;
            }
        }
    }
}
