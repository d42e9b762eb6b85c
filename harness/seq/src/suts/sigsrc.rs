//! A signal source of one of several kinds, all with the semantics of a signal:
//! a subscriber gets the current value first, then the newest one after changes.
use crate::core::*;
use futures_signals::signal::{channel, Broadcaster, Mutable, MutableSignal, ReadOnlyMutable, Sender, Signal};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;

pub type BoxSig = Pin<Box<dyn Signal<Item = i64>>>;

pub enum SigSrc {
    Hub(Hub<i64>, Rc<Cell<i64>>),
    Mut(Option<Mutable<i64>>, ReadOnlyMutable<i64>, u8),
    Chan(RefCell<Vec<Sender<i64>>>, Cell<i64>, bool),
    Bc(Option<Mutable<i64>>, Broadcaster<MutableSignal<i64>>, u8),
    BcHub(Hub<i64>, Broadcaster<HubSig<i64>>),
}
impl SigSrc {
    /// kinds: hub hub-sw2 hub-sw3 queue queue-sw2 mut mut-cloned mut-ref chan bc bc-cloned bc-ref bchub bchub-sw2
    pub fn new(kind: &str, init: i64) -> SigSrc {
        let sw = if kind.ends_with("-sw2") {
            2
        } else if kind.ends_with("-sw3") {
            3
        } else {
            0
        };
        match kind {
            k if k.starts_with("hub") => SigSrc::Hub(Hub::new_latest(sw), Rc::new(Cell::new(init))),
            k if k.starts_with("queue") => SigSrc::Hub(Hub::new(sw), Rc::new(Cell::new(init))),
            "mut" | "mut-cloned" | "mut-ref" => {
                let m = Mutable::new(init);
                let r = m.read_only();
                SigSrc::Mut(Some(m), r, ["mut", "mut-cloned", "mut-ref"].iter().position(|x| *x == kind).unwrap() as u8)
            }
            "chan" => SigSrc::Chan(RefCell::new(vec![]), Cell::new(init), true),
            "bc" | "bc-cloned" | "bc-ref" => {
                let m = Mutable::new(init);
                let b = Broadcaster::new(m.signal());
                SigSrc::Bc(Some(m), b, ["bc", "bc-cloned", "bc-ref"].iter().position(|x| *x == kind).unwrap() as u8)
            }
            k if k.starts_with("bchub") => {
                let h = if k.contains("queue") { Hub::new(sw) } else { Hub::new_latest(sw) };
                let b = Broadcaster::new(HubSig(h.subscribe(Some(init))));
                SigSrc::BcHub(h, b)
            }
            k => panic!("VPHARNESS: unknown signal kind {}", k),
        }
    }
    pub fn sub(&self) -> BoxSig {
        match self {
            SigSrc::Hub(h, now) => Box::pin(HubSig(h.subscribe(Some(now.get())))),
            SigSrc::Mut(_, r, 0) => Box::pin(r.signal()),
            SigSrc::Mut(_, r, 1) => Box::pin(r.signal_cloned()),
            SigSrc::Mut(_, r, _) => Box::pin(r.signal_ref(|v| *v)),
            SigSrc::Chan(s, now, open) => {
                let (tx, rx) = channel(now.get());
                if *open {
                    s.borrow_mut().push(tx);
                }
                Box::pin(rx)
            }
            SigSrc::Bc(_, b, 0) => Box::pin(b.signal()),
            SigSrc::Bc(_, b, 1) => Box::pin(b.signal_cloned()),
            SigSrc::Bc(_, b, _) => Box::pin(b.signal_ref(|v| *v)),
            SigSrc::BcHub(_, b) => Box::pin(b.signal()),
        }
    }
    pub fn set(&mut self, v: i64) {
        match self {
            SigSrc::Hub(h, now) => {
                now.set(v);
                h.send(|| v);
            }
            SigSrc::Mut(m, _, _) => m.as_ref().unwrap().set(v),
            SigSrc::Chan(s, now, _) => {
                now.set(v);
                for s in s.borrow().iter() {
                    s.send(v).ok();
                }
            }
            SigSrc::Bc(m, _, _) => m.as_ref().unwrap().set(v),
            SigSrc::BcHub(h, _) => h.send(|| v),
        }
    }
    pub fn close(&mut self) {
        match self {
            SigSrc::Hub(h, _) | SigSrc::BcHub(h, _) => h.close(),
            SigSrc::Mut(m, _, _) => *m = None,
            SigSrc::Chan(s, _, open) => {
                *open = false;
                s.borrow_mut().clear();
            }
            SigSrc::Bc(m, _, _) => *m = None,
        }
    }
    /// How many subscriptions are alive (only known for hubs).
    pub fn live(&self) -> Option<usize> {
        match self {
            SigSrc::Hub(h, _) => Some(h.live()),
            _ => None,
        }
    }
}
