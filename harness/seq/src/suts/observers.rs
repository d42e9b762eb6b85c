//! Observers.tla: observers of a Mutable or of a Broadcaster's source, each at its own pace.
use crate::core::*;
use futures_signals::signal::{Broadcaster, Mutable, MutableSignal, ReadOnlyMutable, Signal};
use serde_json::{json, Value as J};
use std::pin::Pin;
use std::sync::Arc;

enum Src {
    Mut(ReadOnlyMutable<i64>),
    Bc(Broadcaster<MutableSignal<i64>>),
    Hub(Hub<i64>, Broadcaster<HubSig<i64>>),
}
struct Ghost {
    flag: Arc<Flag>,
    wakes: usize,
    sets: usize,
}
struct Obs {
    kind: String,
    handles: Vec<Mutable<i64>>,
    src: Src,
    slots: Vec<Slot>,
    ghosts: Vec<Ghost>,
    made: usize,
    hub_handles: usize,
}
impl Obs {
    fn signal(&mut self) -> Pin<Box<dyn Signal<Item = i64>>> {
        self.made += 1;
        let how = match self.kind.as_str() {
            k if k.ends_with("-cloned") => 1,
            k if k.ends_with("-ref") => 2,
            k if k.ends_with("-mix") => self.made % 3,
            _ => 0,
        };
        match (&self.src, how) {
            // through a handle if there is one, else through the read-only one
            (Src::Mut(r), 0) => match self.handles.last() {
                Some(m) if self.made % 2 == 0 => Box::pin(m.signal()),
                _ => Box::pin(r.signal()),
            },
            (Src::Mut(r), 1) => Box::pin(r.clone().signal_cloned()),
            (Src::Mut(r), _) => Box::pin(r.signal_ref(|v| *v)),
            (Src::Bc(b), 0) => Box::pin(b.signal()),
            (Src::Bc(b), 1) => Box::pin(b.clone().signal_cloned()),
            (Src::Bc(b), _) => Box::pin(b.signal_ref(|v| *v)),
            (Src::Hub(_, b), 0) => Box::pin(b.signal()),
            (Src::Hub(_, b), 1) => Box::pin(b.signal_cloned()),
            (Src::Hub(_, b), _) => Box::pin(b.signal_ref(|v| *v)),
        }
    }
    fn set(&mut self, v: i64) {
        match &self.src {
            Src::Hub(h, _) => h.send(|| v),
            _ => {
                let n = self.handles.len();
                self.made += 1;
                self.handles[self.made % n].set(v)
            }
        }
        for g in self.ghosts.iter_mut() {
            g.sets += 1;
        }
    }
    fn at(&mut self, op: &J) -> Result<usize, String> {
        let n = op["i"].to_string();
        self.slots.iter().position(|s| s.name == n).ok_or_else(|| "harness: no such observer".to_string())
    }
}
impl Sut for Obs {
    fn apply(&mut self, op: &J, x: &J) -> R {
        match s(op, "op") {
            "set" => self.set(i(op, "v")),
            // many changes, each of them read by this observer only
            "burst" => {
                let (k, n, v) = (self.at(op)?, i(op, "n"), i(op, "v"));
                for j in (0..n).rev() {
                    self.set(v + 1000 * j);
                    self.slots[k].run(usize::MAX)?;
                    let out = self.slots[k].view.take_out();
                    if !self.kind.contains("-sw") && out != [json!(v + 1000 * j)] {
                        return Err(format!("observer {}: reported {:?} after {} was set", op["i"], out, v + 1000 * j));
                    }
                }
            }
            // more observers, which are gone again afterwards; a change before each half of them goes
            "crowd" => {
                let (n, v, old) = (i(op, "n"), i(op, "v"), i(x, "v"));
                let lax = self.kind.contains("-sw");
                let mut crowd = vec![];
                for k in 0..n {
                    let sig = self.signal();
                    crowd.push(Slot::new(&format!("crowd {}", k), Box::new(SigView::new(SigBox(sig), ji))));
                }
                let mut want = old;
                for half in 0..3 {
                    for sl in crowd.iter_mut() {
                        sl.run(usize::MAX)?;
                        let out = sl.view.take_out();
                        if sl.ended || (!lax && out != [json!(want)]) {
                            return Err(format!("{} of {}, phase {}: reported {:?} (ended: {}) but the value is {}", sl.name, n, half, out, sl.ended, want));
                        }
                        sl.view.check(&json!(want), true).map_err(|e| format!("{} of {}: {}", sl.name, n, e))?;
                    }
                    if half == 1 {
                        let mut k = 0;
                        crowd.retain(|_| {
                            k += 1;
                            k % 2 == 0
                        });
                    }
                    if half < 2 {
                        want = v + 1000 * (1 - half);
                        self.set(want);
                    }
                }
            }
            "handles" => match self.handles.first() {
                Some(h) => {
                    let mut more: Vec<_> = (0..i(op, "n")).map(|_| h.clone()).collect();
                    std::mem::swap(&mut self.handles[0], &mut more[0]);
                    more.into_iter().rev().for_each(drop);
                }
                None => {}
            },
            "clone" => match self.handles.first() {
                Some(h) => {
                    let h = h.clone();
                    self.handles.push(h)
                }
                None => self.hub_handles += 1,
            },
            "drop" => match &self.src {
                Src::Hub(h, _) => {
                    self.hub_handles -= 1;
                    if self.hub_handles == 0 {
                        h.close()
                    }
                }
                _ => {
                    self.handles.swap_remove(0);
                }
            },
            "sub" => {
                let sig = self.signal();
                self.slots.push(Slot::new(&op["i"].to_string(), Box::new(SigView::new(SigBox(sig), ji))));
            }
            "unsub" => {
                let k = self.at(op)?;
                let sl = self.slots.remove(k);
                let flag = sl.flag_arc();
                drop(sl);
                let wakes = flag.wakes.load(std::sync::atomic::Ordering::SeqCst);
                self.ghosts.push(Ghost { flag, wakes, sets: 0 });
            }
            o => {
                let k = self.at(op)?;
                let sl = &mut self.slots[k];
                sl.run(if o == "read" { usize::MAX } else { 1 })?;
                if self.kind.contains("-sw") {
                    // such a source may put off its newest value by one more wake-up
                    if o == "read" {
                        sl.view.check(&x["v"], true).map_err(|e| format!("observer {}: {}", op["i"], e))?;
                        if x["done"] != sl.ended {
                            return Err(format!("observer {}: ended = {} but the specification says {}", op["i"], sl.ended, x["done"]));
                        }
                    }
                    return Ok(());
                }
                let out = J::Array(sl.view.take_out());
                if out != x["got"] {
                    return Err(format!("observer {}: reported {} but the specification says {}", op["i"], out, x["got"]));
                }
            }
        }
        Ok(())
    }
    fn slots(&mut self) -> &mut Vec<Slot> {
        &mut self.slots
    }
    fn manual(&self) -> bool {
        true
    }
    fn post(&mut self, obs: &J) -> R {
        if i(obs, "n") as usize != self.slots.len() {
            return Err("harness: observer count".into());
        }
        for g in &self.ghosts {
            let w = g.flag.wakes.load(std::sync::atomic::Ordering::SeqCst);
            if w != g.wakes {
                return Err("an observer was woken after it had been dropped".into());
            }
            if g.sets > 0 && Arc::strong_count(&g.flag) != 1 {
                return Err("the source still holds the waker of a dropped observer after notifying again".into());
            }
        }
        Ok(())
    }
    fn finish(&mut self) -> R {
        let mut flags: Vec<Arc<Flag>> = self.ghosts.drain(..).map(|g| g.flag).collect();
        flags.extend(self.slots.iter().map(|s| s.flag_arc()));
        self.slots.clear();
        self.handles.clear();
        self.src = Src::Mut(Mutable::new(0).read_only());
        if flags.iter().any(|f| Arc::strong_count(f) != 1) {
            return Err("a waker is still held although the source and all observers are gone".into());
        }
        Ok(())
    }
}
struct SigBox(Pin<Box<dyn Signal<Item = i64>>>);
impl Signal for SigBox {
    type Item = i64;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Option<i64>> {
        self.0.as_mut().poll_change(cx)
    }
}

pub fn make(cfg: &J) -> Box<dyn Sut> {
    let kind = s(cfg, "kind");
    let mut handles = vec![];
    let src = if kind.starts_with("bchub") {
        let mut h = if kind.contains("queue") { Hub::new(0) } else { Hub::new_latest(if kind.contains("-sw") { 2 } else { 0 }) };
        h.late = kind.contains("late");
        let b = Broadcaster::new(HubSig(h.subscribe(Some(0))));
        Src::Hub(h, b)
    } else {
        let m = Mutable::new(0);
        let src = if kind.starts_with("bc") { Src::Bc(Broadcaster::new(m.signal())) } else { Src::Mut(m.read_only()) };
        handles.push(m);
        src
    };
    Box::new(Obs { kind: kind.to_string(), handles, src, slots: vec![], ghosts: vec![], made: 0, hub_handles: 1 })
}
pub fn configs() -> Vec<J> {
    ["mut", "mut-cloned", "mut-ref", "mut-mix", "bc", "bc-cloned", "bc-ref", "bc-mix", "bchub", "bchub-queue-mix", "bchub-sw2", "bchub-sw2-late", "bchub-sw2-late-mix"]
        .iter()
        .map(|k| json!({"name": k, "kind": k}))
        .collect()
}
