//! Channel.tla: a channel and its senders, on one thread.
use crate::core::*;
use futures_signals::signal::{channel, Sender};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

struct Chan {
    tx: BTreeMap<usize, Sender<Tr>>,
    slots: Vec<Slot>,
    inplace: bool,
}
impl Chan {
    fn read(&mut self, max: usize) -> Result<Vec<J>, String> {
        let sl = &mut self.slots[0];
        if max == 1 {
            sl.poll_once()?;
        } else {
            sl.run(max)?;
        }
        Ok(sl.view.take_out())
    }
    fn gives_back(r: Result<(), Tr>) -> Vec<J> {
        match r {
            Ok(()) => vec![],
            Err(t) => vec![jt(&t)],
        }
    }
}
impl Sut for Chan {
    fn apply(&mut self, op: &J, x: &J) -> R {
        let wakes = self.slots.first().map(|s| s.wakes());
        let k = op["i"].as_u64().unwrap_or(0) as usize;
        let (tx, slot) = (&mut self.tx, self.slots.first_mut());
        let ret = match s(op, "op") {
            "inplace" => {
                self.inplace = true;
                self.read(usize::MAX)?
            }
            "send" => in_place(self.inplace, slot, || Chan::gives_back(tx[&k].send(Tr::new(i(op, "v")))))?,
            "sends" => {
                let mut last = vec![];
                for j in (0..i(op, "n")).rev() {
                    let v = i(op, "v") + 1000 * j;
                    last = Chan::gives_back(self.tx[&k].send(Tr::new(v)));
                    if last.is_empty() && op["read"] == true && !self.slots[0].ended {
                        let got = self.read(usize::MAX)?;
                        if got.last() != Some(&json!(v)) {
                            return Err(format!("the receiver reported {:?} after {} was sent", got, v));
                        }
                    }
                }
                last
            }
            "clones" => {
                let many: Vec<Sender<Tr>> = (0..i(op, "n")).map(|_| self.tx[&k].clone()).collect();
                drop(many);
                vec![]
            }
            "clone" => {
                let c = self.tx[&k].clone();
                self.tx.insert(u(op, "j"), c);
                vec![]
            }
            "close" => {
                in_place(self.inplace, slot, || tx[&k].close())?;
                vec![]
            }
            "drop" => {
                in_place(self.inplace, slot, || drop(tx.remove(&k)))?;
                vec![]
            }
            "debug" => {
                let _ = format!("{:?}", self.tx[&k]);
                vec![]
            }
            "read" => self.read(usize::MAX)?,
            "poll" => self.read(1)?,
            "drop_rx" => {
                let flag = self.slots[0].flag_arc();
                self.slots.clear();
                if std::sync::Arc::strong_count(&flag) != 1 {
                    return Err("the waker of the receiver is still held after it was dropped".into());
                }
                vec![]
            }
            "idle" => vec![],
            o => panic!("VPHARNESS: op {}", o),
        };
        if J::Array(ret.clone()) != x["ret"] {
            return Err(format!("{} gave {} but the specification says {}", op, J::Array(ret), x["ret"]));
        }
        let got = self.slots.first_mut().map_or(vec![], |s| s.view.take_out());
        if J::Array(got.clone()) != x["got"] {
            return Err(format!("{} made the receiver report {} but the specification says {}", op, J::Array(got), x["got"]));
        }
        if x["woken"] == true && self.slots.first().map(|s| s.wakes()) == wakes {
            return Err(format!("{} did not wake the receiver", op));
        }
        Ok(())
    }
    fn slots(&mut self) -> &mut Vec<Slot> {
        &mut self.slots
    }
    fn manual(&self) -> bool {
        true
    }
    fn post(&mut self, obs: &J) -> R {
        if let Some(sl) = self.slots.first() {
            if obs["ended"] != sl.ended {
                return Err(format!("ended = {} but the specification says {}", sl.ended, obs["ended"]));
            }
        }
        Tr::check_live(u(obs, "live"))
    }
    fn finish(&mut self) -> R {
        self.slots.clear();
        self.tx.clear();
        Tr::check_live(0)
    }
}
pub fn make(_cfg: &J) -> Box<dyn Sut> {
    let (tx, rx) = channel(Tr::new(0));
    let view = SigView::new(futures_signals::signal::SignalExt::map(rx, |t: Tr| t.v), ji);
    Box::new(Chan { tx: [(0, tx)].into_iter().collect(), slots: vec![Slot::new("rx", Box::new(view))], inplace: false })
}
pub fn configs() -> Vec<J> {
    vec![json!({"name": "chan"})]
}
