//! Life.tla: how many values are alive, and how much memory a source keeps.
use crate::alloc::held;
use crate::core::*;
use futures_signals::signal::{Broadcaster, Mutable, MutableSignalCloned, Signal, SignalExt};
use futures_signals::signal_map::{MutableBTreeMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, SignalVecExt};
use serde_json::{json, Value as J};
use std::pin::Pin;
use std::task::{Context, Poll};

enum Src {
    None,
    Vec(Vec<MutableVec<Tr>>),
    Map(Vec<MutableBTreeMap<Tr, Tr>>),
    Mut(Vec<Mutable<Tr>>),
    Bc(Vec<Mutable<Tr>>, Vec<Broadcaster<MutableSignalCloned<Tr>>>),
}
/// A consumer that drops everything at once.
struct Sink(Pin<Box<dyn Signal<Item = ()>>>);
impl View for Sink {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String> {
        Ok(match self.0.as_mut().poll_change(cx) {
            Poll::Ready(Some(())) => Ev::Item,
            Poll::Ready(None) => Ev::End,
            Poll::Pending => Ev::Pending,
        })
    }
    fn check(&mut self, _exp: &J, _drained: bool) -> R {
        Ok(())
    }
    fn take_out(&mut self) -> Vec<J> {
        vec![]
    }
}
struct VecSink<S>(Pin<Box<S>>);
impl<S: futures_signals::signal_vec::SignalVec> Signal for VecSink<S> {
    type Item = ();
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<()>> {
        self.0.as_mut().poll_vec_change(cx).map(|d| d.map(drop))
    }
}
struct MapSink<S>(Pin<Box<S>>);
impl<S: futures_signals::signal_map::SignalMap> Signal for MapSink<S> {
    type Item = ();
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<()>> {
        self.0.as_mut().poll_map_change(cx).map(|d| d.map(drop))
    }
}
struct Life {
    src: Src,
    slots: Vec<Slot>,
    n: i64,
    turn: usize,
    deep: bool,
}
impl Life {
    fn sink(&mut self) -> Sink {
        self.turn += 1;
        let t = self.turn;
        let deep = self.deep;
        Sink(match &self.src {
            Src::Vec(h) => {
                let sv = h[t % h.len()].signal_vec_cloned();
                if deep && t % 2 == 0 {
                    Box::pin(VecSink(Box::pin(sv.map(|t| t.v))))
                } else {
                    Box::pin(VecSink(Box::pin(sv)))
                }
            }
            Src::Map(h) => {
                let h = &h[t % h.len()];
                match if deep { t % 4 } else { 0 } {
                    0 => Box::pin(MapSink(Box::pin(h.signal_map_cloned()))),
                    1 => Box::pin(MapSink(Box::pin(h.signal_map_cloned().map_value(|t| t.v)))),
                    2 => Box::pin(VecSink(Box::pin(h.entries_cloned().map(|_| 0)))),
                    _ => Box::pin(h.signal_map_cloned().key_cloned(Tr::new(-1)).map(|_| ())),
                }
            }
            Src::Mut(h) => {
                let m = &h[t % h.len()];
                match t % 3 {
                    0 => Box::pin(m.signal_cloned().map(|_| ())),
                    1 => Box::pin(m.signal_ref(|_| ())),
                    _ => Box::pin(m.read_only().signal_cloned().map(|_| ())),
                }
            }
            Src::Bc(_, b) => {
                let b = &b[t % b.len()];
                match t % 2 {
                    0 => Box::pin(b.signal_cloned().map(|_| ())),
                    _ => Box::pin(b.clone().signal_ref(|_| ())),
                }
            }
            Src::None => panic!("VPHARNESS: no source"),
        })
    }
    /// A change that leaves the number of elements as it is.
    fn change(&mut self) {
        self.turn += 1;
        let t = self.turn;
        match &self.src {
            Src::Vec(h) => {
                let mut l = h[t % h.len()].lock_mut();
                if self.n > 0 {
                    l.set_cloned(0, Tr::new(1))
                } else {
                    l.push_cloned(Tr::new(0));
                    l.pop();
                }
            }
            Src::Map(h) => {
                let mut l = h[t % h.len()].lock_mut();
                if self.n > 0 {
                    l.insert_cloned(Tr::new(0), Tr::new(1));
                } else {
                    l.insert_cloned(Tr::new(0), Tr::new(0));
                    l.remove(&Tr::new(0));
                }
            }
            Src::Mut(h) | Src::Bc(h, _) => h[t % h.len()].set(Tr::new(1)),
            Src::None => {}
        }
    }
    fn read_all(&mut self) -> R {
        for s in self.slots.iter_mut() {
            s.run(usize::MAX)?;
        }
        Ok(())
    }
    /// `n` times the same cycle; returns how many bytes more are held after the second half.
    fn cycles(&mut self, n: i64, mut f: impl FnMut(&mut Life) -> R) -> Result<isize, String> {
        for _ in 0..n {
            f(self)?;
        }
        let a = held();
        for _ in 0..n {
            f(self)?;
        }
        Ok(held() - a)
    }
    fn at(&self, op: &J) -> usize {
        let n = op["i"].to_string();
        self.slots.iter().position(|s| s.name == n).expect("VPHARNESS: no such subscriber")
    }
}
impl Sut for Life {
    fn apply(&mut self, op: &J, x: &J) -> R {
        self.turn += 1;
        let t = self.turn;
        let mut grown = 0;
        match s(op, "op") {
            "idle" => {}
            "make" => {
                self.src = match s(op, "k") {
                    "vec" => Src::Vec(vec![MutableVec::new()]),
                    "map" => Src::Map(vec![MutableBTreeMap::new()]),
                    k => {
                        let m = Mutable::new(Tr::new(0));
                        if k == "mut" {
                            Src::Mut(vec![m])
                        } else {
                            let b = Broadcaster::new(m.signal_cloned());
                            Src::Bc(vec![m], vec![b])
                        }
                    }
                }
            }
            "set" | "update" => self.change(),
            "replace1" => match &self.src {
                Src::Mut(h) | Src::Bc(h, _) => drop(h[0].replace(Tr::new(2))),
                _ => {}
            },
            "push" => {
                match &self.src {
                    Src::Vec(h) if t % 2 == 0 => h[0].lock_mut().push_cloned(Tr::new(0)),
                    Src::Vec(h) => h[0].lock_mut().insert_cloned(0, Tr::new(0)),
                    Src::Map(h) => drop(h[0].lock_mut().insert_cloned(Tr::new(self.n), Tr::new(0))),
                    _ => {}
                }
                self.n += 1;
            }
            "replace" => {
                self.n = i(op, "n");
                match &self.src {
                    Src::Vec(h) => h[0].lock_mut().replace_cloned((0..self.n).map(Tr::new).collect()),
                    Src::Map(h) => h[0].lock_mut().replace_cloned((0..self.n).map(|k| (Tr::new(k), Tr::new(k))).collect()),
                    _ => {}
                }
            }
            o @ ("remove" | "drop_elem") => {
                self.n -= 1;
                match (&self.src, o) {
                    (Src::Vec(h), "remove") => drop(h[0].lock_mut().remove(self.n as usize / 2)),
                    (Src::Vec(h), _) if t % 3 == 0 => h[0].lock_mut().truncate(self.n as usize),
                    (Src::Vec(h), _) if t % 3 == 1 => drop(h[0].lock_mut().pop()),
                    (Src::Vec(h), _) => drop(h[0].lock_mut().drain(0..1)),
                    (Src::Map(h), _) => drop(h[0].lock_mut().remove(&Tr::new(self.n))),
                    _ => {}
                }
            }
            "clear" => {
                self.n = 0;
                match &self.src {
                    Src::Vec(h) => h[0].lock_mut().clear(),
                    Src::Map(h) => h[0].lock_mut().clear(),
                    _ => {}
                }
            }
            "clone" => match &mut self.src {
                Src::Vec(h) => h.push(h[0].clone()),
                Src::Map(h) => h.push(h[0].clone()),
                Src::Mut(h) => h.push(h[0].clone()),
                Src::Bc(h, b) => {
                    h.push(h[0].clone());
                    b.push(b[0].clone())
                }
                Src::None => {}
            },
            "drop" => {
                match &mut self.src {
                    Src::Vec(h) => drop(h.remove(0)),
                    Src::Map(h) => drop(h.remove(0)),
                    Src::Mut(h) => drop(h.remove(0)),
                    Src::Bc(h, b) => {
                        h.remove(0);
                        b.remove(0);
                    }
                    Src::None => {}
                }
            }
            "sub" => {
                let v = self.sink();
                self.slots.push(Slot::new(&op["i"].to_string(), Box::new(v)));
            }
            "unsub" => {
                let k = self.at(op);
                self.slots.remove(k);
            }
            "read" => {
                let k = self.at(op);
                self.slots[k].run(usize::MAX)?;
            }
            "churn" => {
                let poll = op["poll"] == true;
                grown = self.cycles(i(op, "n"), |l| {
                    let mut sl = Slot::new("c", Box::new(l.sink()));
                    if poll {
                        sl.run(usize::MAX)?;
                    }
                    drop(sl);
                    l.change();
                    l.read_all()
                })?;
            }
            "handles" => {
                grown = self.cycles(i(op, "n"), |l| {
                    match &mut l.src {
                        Src::Vec(h) => drop(h[0].clone()),
                        Src::Map(h) => drop(h[0].clone()),
                        Src::Mut(h) => {
                            drop(h[0].read_only().clone());
                            drop(h[0].clone())
                        }
                        Src::Bc(h, b) => {
                            drop(h[0].clone());
                            drop(b[0].clone())
                        }
                        Src::None => {}
                    }
                    Ok(())
                })?;
            }
            "writes" => {
                let read = op["read"] == true;
                grown = self.cycles(i(op, "n"), |l| {
                    l.change();
                    if read {
                        l.read_all()?;
                    }
                    Ok(())
                })?;
                // (what was not read is read now, so that the cycle is complete)
                self.read_all()?;
            }
            o => panic!("VPHARNESS: op {}", o),
        }
        if x["bytes"] == true && grown >= i(op, "n") as isize {
            return Err(format!("{} bytes more are held after {} further rounds of {}", grown, op["n"], op));
        }
        Ok(())
    }
    fn slots(&mut self) -> &mut Vec<Slot> {
        &mut self.slots
    }
    fn manual(&self) -> bool {
        true
    }
    fn post(&mut self, obs: &J) -> R {
        let n = Tr::live() as i64;
        // (the subscribers for a single key of a map hold that key)
        let extra = if self.deep && matches!(self.src, Src::Map(_)) { 1000 } else { 0 };
        if n < i(obs, "lo") || n > i(obs, "hi") + extra {
            return Err(format!("{} values are alive but the specification says {} to {}", n, obs["lo"], obs["hi"]));
        }
        Tr::check_live(n as usize)
    }
    fn finish(&mut self) -> R {
        self.slots.clear();
        self.src = Src::None;
        Tr::check_live(0)
    }
}
pub fn make(cfg: &J) -> Box<dyn Sut> {
    Box::new(Life { src: Src::None, slots: vec![], n: 0, turn: u(cfg, "turn"), deep: cfg["deep"] == true })
}
pub fn configs() -> Vec<J> {
    vec![json!({"name": "plain", "turn": 0}), json!({"name": "plain1", "turn": 1}), json!({"name": "deep", "turn": 2, "deep": true})]
}
