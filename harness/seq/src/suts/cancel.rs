//! Cancel.tla: cancelable_future on one thread.
use crate::core::*;
use discard::{Discard, DiscardOnDrop};
use futures_signals::{cancelable_future, CancelableFuture, CancelableFutureHandle};
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

type Handle = DiscardOnDrop<CancelableFutureHandle>;
#[derive(Default)]
struct Ctl {
    ready: Cell<bool>,
    left: Cell<i64>,
    waker: RefCell<Option<Waker>>,
    discard: RefCell<Option<Handle>>,
    inner_live: Cell<i64>,
    done: Cell<bool>,
    cb: Cell<i64>,
}
/// The inner future: must be polled in place, never after completion.
struct Inner {
    ctl: Rc<Ctl>,
    at: usize,
    _pin: std::marker::PhantomPinned,
}
impl Drop for Inner {
    fn drop(&mut self) {
        self.ctl.inner_live.set(self.ctl.inner_live.get() - 1);
        if self.at != 0 && self.at != self as *const Inner as usize {
            panic!("VP: the inner future was moved after it had been polled");
        }
        // what a real future might do: wake its task for the last time
        let w = self.ctl.waker.borrow_mut().take();
        drop(w);
    }
}
impl Future for Inner {
    type Output = &'static str;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<&'static str> {
        let me = unsafe { self.get_unchecked_mut() };
        let here = me as *const Inner as usize;
        if me.at != 0 && me.at != here {
            panic!("VP: the inner future was moved after it had been polled");
        }
        me.at = here;
        if me.ctl.done.get() {
            panic!("VP: the inner future was polled after it had completed");
        }
        if let Some(h) = me.ctl.discard.borrow_mut().take() {
            drop(h);
        }
        if me.ctl.ready.get() {
            me.ctl.done.set(true);
            return Poll::Ready("output");
        }
        *me.ctl.waker.borrow_mut() = Some(cx.waker().clone());
        if me.ctl.left.get() > 0 {
            me.ctl.left.set(me.ctl.left.get() - 1);
            cx.waker().wake_by_ref();
        }
        Poll::Pending
    }
}
/// Counts how long the callback is kept and how often it is called.
struct Token(Rc<Ctl>);

struct View0 {
    fut: Option<Pin<Box<dyn Future<Output = &'static str>>>>,
    ctl: Rc<Ctl>,
    keep: bool,
    out: Vec<J>,
}
impl View for View0 {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String> {
        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => {
                if v == "cancelled" && self.ctl.inner_live.get() != 0 {
                    return Err("completed as cancelled but the inner future is still alive".into());
                }
                self.out.push(json!(v));
                if !self.keep {
                    self.fut = None;
                }
                Ok(Ev::End)
            }
            Poll::Pending => Ok(Ev::Pending),
        }
    }
    fn check(&mut self, _exp: &J, _drained: bool) -> R {
        Ok(())
    }
    fn take_out(&mut self) -> Vec<J> {
        std::mem::take(&mut self.out)
    }
}

struct Canc {
    ctl: Rc<Ctl>,
    handle: Option<Handle>,
    slots: Vec<Slot>,
    inplace: bool,
}
impl Sut for Canc {
    fn apply(&mut self, op: &J, x: &J) -> R {
        let wakes = self.slots.first().map(|s| s.wakes());
        let (on, slot) = (self.inplace, self.slots.first_mut());
        match s(op, "op") {
            "inplace" => {
                self.inplace = true;
                self.slots[0].run(usize::MAX)?
            }
            "discard" => {
                let h = DiscardOnDrop::leak(self.handle.take().unwrap());
                in_place(on, slot, || h.discard())?
            }
            "drop_handle" => {
                let h = self.handle.take();
                in_place(on, slot, || drop(h))?
            }
            "leak" => {
                let _ = DiscardOnDrop::leak(self.handle.take().unwrap());
            }
            "poll" => self.slots[0].run(usize::MAX)?,
            "spurious" => {
                self.slots[0].spurious()?;
                self.slots[0].run(usize::MAX)?
            }
            "poll_discard" => {
                *self.ctl.discard.borrow_mut() = self.handle.take();
                self.slots[0].spurious()?;
                self.slots[0].run(usize::MAX)?;
                if let Some(h) = self.ctl.discard.borrow_mut().take() {
                    drop(h);
                    return Err("the inner future was not polled".into());
                }
            }
            o @ ("wake" | "ready") => {
                if o == "ready" {
                    self.ctl.ready.set(true);
                }
                let w = self.ctl.waker.borrow_mut().take();
                if let Some(w) = w {
                    in_place(on, slot, || w.wake())?
                }
            }
            "selfwake" => self.ctl.left.set(i(op, "n")),
            "drop_fut" => self.slots.clear(),
            "idle" => {}
            o => panic!("VPHARNESS: op {}", o),
        }
        let out = self.slots.first_mut().map_or(vec![], |s| s.view.take_out());
        if J::Array(out.clone()) != x["ret"] {
            return Err(format!("after {} the future gave {} but the specification says {}", op, J::Array(out), x["ret"]));
        }
        if x["woken"] == true && self.slots.first().map(|s| s.wakes()) == wakes {
            return Err(format!("{} did not wake the task", op));
        }
        Ok(())
    }
    fn slots(&mut self) -> &mut Vec<Slot> {
        &mut self.slots
    }
    fn manual(&self) -> bool {
        true
    }
    fn post(&mut self, obs: &J) -> R {
        if self.ctl.cb.get() != i(obs, "cb") {
            return Err(format!("the callback was called {} times but the specification says {}", self.ctl.cb.get(), obs["cb"]));
        }
        if let Some(sl) = self.slots.first() {
            if obs["done"] != sl.ended {
                return Err(format!("done = {} but the specification says {}", sl.ended, obs["done"]));
            }
        }
        match i(obs, "inner") {
            2 => Ok(()),
            n if n == self.ctl.inner_live.get() => Ok(()),
            n => Err(format!("{} inner futures are alive but the specification says {}", self.ctl.inner_live.get(), n)),
        }
    }
    fn finish(&mut self) -> R {
        let flags: Vec<_> = self.slots.iter().map(|s| s.flag_arc()).collect();
        self.slots.clear();
        self.handle = None;
        self.ctl.discard.borrow_mut().take();
        self.ctl.waker.borrow_mut().take();
        if Rc::strong_count(&self.ctl) != 1 || self.ctl.inner_live.get() != 0 {
            return Err("the inner future or the callback is still alive although everything was dropped".into());
        }
        if flags.iter().any(|f| std::sync::Arc::strong_count(f) != 1) {
            return Err("a waker is still held although everything was dropped".into());
        }
        Ok(())
    }
}
pub fn make(cfg: &J) -> Box<dyn Sut> {
    let ctl = Rc::new(Ctl::default());
    ctl.inner_live.set(1);
    let inner = Inner { ctl: ctl.clone(), at: 0, _pin: std::marker::PhantomPinned };
    let token = Token(ctl.clone());
    let (handle, fut): (Handle, CancelableFuture<Inner, _>) = cancelable_future(inner, move || {
        token.0.cb.set(token.0.cb.get() + 1);
        "cancelled"
    });
    let view = View0 { fut: Some(Box::pin(fut)), ctl: ctl.clone(), keep: cfg["keep"] == true, out: vec![] };
    Box::new(Canc { ctl, handle: Some(handle), slots: vec![Slot::new("fut", Box::new(view))], inplace: false })
}
pub fn configs() -> Vec<J> {
    vec![json!({"name": "keep", "keep": true}), json!({"name": "drop", "keep": false})]
}
