//! MutApi.tla: return values, closure arguments and wake-ups of every Mutable operation.
use crate::core::*;
use futures_signals::signal::{Mutable, ReadOnlyMutable, Signal};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::pin::Pin;

struct Api {
    m: [Mutable<Tr>; 2],
    ro: [ReadOnlyMutable<Tr>; 2],
    slots: Vec<Slot>,
    how: usize,
    n: usize,
    pinned: bool,
}
struct SigBox(Pin<Box<dyn Signal<Item = i64>>>);
impl Signal for SigBox {
    type Item = i64;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Option<i64>> {
        self.0.as_mut().poll_change(cx)
    }
}
impl Api {
    fn signal(&mut self, m: usize) -> SigBox {
        self.n += 1;
        let r = &self.ro[m];
        use futures_signals::signal::SignalExt;
        SigBox(match (self.how + self.n) % 4 {
            0 => Box::pin(self.m[m].signal_cloned().map(|t| t.v)),
            1 => Box::pin(r.signal_cloned().map(|t| t.v)),
            2 => Box::pin(self.m[m].clone().signal_ref(|t| t.v)),
            _ => Box::pin(r.clone().signal_ref(|t| t.v)),
        })
    }
    fn ops(&mut self, op: &J) -> Result<Vec<i64>, String> {
        let k = u(op, "m");
        let v = op["v"].as_i64().unwrap_or(0);
        self.n += 1;
        // sometimes through another handle
        let other = if self.pinned && self.n % 3 == 0 { Some(self.m[k].clone()) } else { None };
        let m = other.as_ref().unwrap_or(&self.m[k]);
        Ok(match s(op, "op") {
            "set" => {
                m.set(Tr::new(v));
                vec![]
            }
            "replace" => vec![m.replace(Tr::new(v)).v],
            "replace_with" => vec![m.replace_with(|a| Tr::new((a.v + v) % 3)).v],
            "replace_with_mut" => {
                vec![m.replace_with(|a| {
                    a.v += 10;
                    Tr::new(v)
                })
                .v]
            }
            "set_if" => {
                let seen = RefCell::new(vec![]);
                m.set_if(Tr::new(v), |a, b| {
                    seen.borrow_mut().extend([a.v, b.v]);
                    b.v > a.v
                });
                seen.into_inner()
            }
            "set_neq" => {
                m.set_neq(Tr::new(v));
                vec![]
            }
            "lock_write" => {
                let mut l = m.lock_mut();
                if self.n % 2 == 0 {
                    *l = Tr::new(v);
                } else {
                    l.v = v;
                }
                vec![]
            }
            "lock_twice" => {
                let mut l = m.lock_mut();
                l.v = v;
                let seen = l.v;
                l.v = (seen + 1) % 3;
                vec![]
            }
            "lock_read" => vec![m.lock_mut().v],
            "lock_idle" => {
                let _l = m.lock_mut();
                vec![]
            }
            "lock_ref" => {
                let a = m.lock_ref();
                let b = self.ro[k].lock_ref();
                if *a != *b {
                    return Err("two readers of the same Mutable differ".into());
                }
                vec![a.v]
            }
            "get" => {
                // `get` is for Copy values
                let c = Mutable::new(m.lock_ref().v);
                let r = c.read_only();
                if r.get() != c.get() {
                    return Err("get of the read-only handle differs".into());
                }
                vec![c.get()]
            }
            "get_cloned" => vec![m.get_cloned().v],
            "ro" => vec![m.read_only().clone().get_cloned().v],
            "debug" => {
                let v = m.lock_ref().v;
                if format!("{:?}", m) != format!("Mutable({})", v) || format!("{:?}", self.ro[k]) != format!("ReadOnlyMutable({})", v) {
                    return Err(format!("Debug output {:?} / {:?}", m, self.ro[k]));
                }
                vec![v]
            }
            "serde" => {
                let j = serde_json::to_value(&Mutable::new(m.lock_ref().v)).map_err(|e| e.to_string())?;
                let back: Mutable<i64> = serde_json::from_value(j).map_err(|e| e.to_string())?;
                vec![back.get()]
            }
            "signals" => {
                // a new signal starts with the current value, whatever was read before
                let mut out = vec![];
                for _ in 0..2 {
                    let sig = self.signal(k);
                    let mut sl = Slot::new("t", Box::new(SigView::new(sig, ji)));
                    sl.run(usize::MAX)?;
                    out.extend(sl.view.take_out().iter().map(|x| x.as_i64().unwrap()));
                }
                if out.len() != 2 || out[0] != out[1] {
                    return Err(format!("two new signals reported {:?}", out));
                }
                out[..1].to_vec()
            }
            "swap" => {
                let n = u(op, "n");
                if n == k && self.n % 2 == 0 {
                    let c = m.clone();
                    m.swap(&c);
                } else {
                    m.swap(&self.m[n]);
                }
                vec![]
            }
            "reclone" => {
                // replaces the handle by a clone of it: must not end or wake anything
                let c = m.clone();
                drop(other);
                self.m[k] = c;
                vec![]
            }
            o => panic!("VPHARNESS: op {}", o),
        })
    }
}
impl Sut for Api {
    fn apply(&mut self, op: &J, x: &J) -> R {
        let before: Vec<usize> = self.slots.iter().map(|s| s.wakes()).collect();
        let ret = match s(op, "op") {
            "sub" => {
                let k = u(op, "i");
                let sig = self.signal(k % 2);
                self.slots.push(Slot::new(&k.to_string(), Box::new(SigView::new(sig, ji))));
                return Ok(());
            }
            "unsub" => {
                self.slots.retain(|s| s.name != op["i"].to_string());
                return Ok(());
            }
            "read" => {
                let sl = self.slots.iter_mut().find(|s| s.name == op["i"].to_string()).expect("VPHARNESS: observer");
                sl.run(usize::MAX)?;
                if sl.ended {
                    return Err("the signal ended although the Mutable is alive".into());
                }
                let out = sl.view.take_out();
                if J::Array(out.clone()) != x["ret"] {
                    return Err(format!("observer {} reported {} but the specification says {}", op["i"], J::Array(out), x["ret"]));
                }
                return Ok(());
            }
            _ => self.ops(op)?,
        };
        if json!(ret) != x["ret"] {
            return Err(format!("{} gave {:?} but the specification says {}", op, ret, x["ret"]));
        }
        let woken: Vec<i64> = {
            let mut w: Vec<i64> = self.slots.iter().zip(before).filter(|(s, b)| s.wakes() != *b).map(|(s, _)| s.name.parse().unwrap()).collect();
            w.sort();
            w
        };
        if json!(woken) != x["woken"] {
            return Err(format!("{} woke the observers {:?} but the specification says {}", op, woken, x["woken"]));
        }
        Ok(())
    }
    fn slots(&mut self) -> &mut Vec<Slot> {
        &mut self.slots
    }
    fn manual(&self) -> bool {
        true
    }
    fn post(&mut self, obs: &J) -> R {
        for k in 0..2 {
            let v = self.m[k].lock_ref().v;
            if json!(v) != obs["v"][k] {
                return Err(format!("Mutable {} holds {} but the specification says {}", k, v, obs["v"][k]));
            }
        }
        Tr::check_live(2)
    }
    fn finish(&mut self) -> R {
        self.slots.clear();
        self.m = [Mutable::new(Tr::new(0)), Mutable::new(Tr::new(0))];
        self.ro = [self.m[0].read_only(), self.m[1].read_only()];
        Tr::check_live(2)
    }
}
pub fn make(cfg: &J) -> Box<dyn Sut> {
    let m = if cfg["how"] == 0 { [Mutable::new(Tr::new(0)), Mutable::new(Tr::new(1))] } else { [Mutable::default(), Mutable::from(Tr::new(1))] };
    let ro = [m[0].read_only(), m[1].read_only()];
    Box::new(Api { m, ro, slots: vec![], how: u(cfg, "how"), n: 0, pinned: cfg["clones"] == true })
}
pub fn configs() -> Vec<J> {
    vec![
        json!({"name": "a", "how": 0, "clones": false}),
        json!({"name": "b", "how": 1, "clones": true}),
        json!({"name": "c", "how": 2, "clones": true}),
        json!({"name": "d", "how": 3, "clones": false}),
    ]
}
