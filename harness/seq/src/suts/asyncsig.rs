//! AsyncMap.tla, AsyncDelay.tla, AsyncStream.tla
use super::sigsrc::SigSrc;
use super::want;
use crate::core::*;
use futures_signals::signal::{from_future, from_stream, SignalExt};
use futures_util::stream::StreamExt;
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

fn jo(v: &Option<i64>) -> J {
    match v {
        Some(v) => json!([v]),
        None => json!([]),
    }
}

pub fn make_map(cfg: &J) -> Box<dyn Sut> {
    let src = Rc::new(RefCell::new(SigSrc::new(s(cfg, "kind"), 0)));
    let gates: Rc<BTreeMap<i64, Gate>> = Rc::new((0..8).map(|k| (k, Gate::new())).collect());
    let done = Gate::new();
    let (src1, gates1, gates2, done1) = (src.clone(), gates.clone(), gates.clone(), done.clone());
    let cfg = cfg.clone();
    let mk = move || {
        let mut out: Vec<Slot> = vec![];
        if want(&cfg, "map_future") {
            let k = Rc::new(Cell::new(0usize));
            let (k1, g) = (k.clone(), gates1.clone());
            out.push(Slot::new_b(
                "map_future",
                SigView::new(
                    src1.borrow().sub().map_future(move |v| {
                        k1.set(k1.get() + 1);
                        let f = g[&v].wait();
                        async move {
                            f.await;
                            v + 100
                        }
                    }),
                    jo,
                )
                .counting(k),
            ));
        }
        if want(&cfg, "wait_for") {
            out.push(Slot::new_b("wait_for", FutView::new(src1.borrow().sub().wait_for(2), jo)));
        }
        if want(&cfg, "to_future") {
            out.push(Slot::new_b("to_future", FutView::new(src1.borrow().sub().to_future(), ji)));
        }
        if want(&cfg, "from_future") {
            let f = done1.wait();
            out.push(Slot::new_b(
                "from_future",
                SigView::new(
                    from_future(async move {
                        f.await;
                        5i64
                    }),
                    jo,
                ),
            ));
        }
        out
    };
    let apply = move |op: &J, _x: &J, _sl: &mut Vec<Slot>| -> R {
        match s(op, "op") {
            "set" => src.borrow_mut().set(i(op, "v")),
            "close" => src.borrow_mut().close(),
            "gate" => gates[&i(op, "k")].open(),
            _ => done.open(),
        }
        Ok(())
    };
    let post = move |obs: &J, sl: &mut Vec<Slot>| -> R {
        if !sl.iter().any(|x| x.name == "map_future") {
            return Ok(());
        }
        for (k, n) in obs["held"].as_object().ok_or("VPHARNESS held")? {
            let have = gates2[&k.parse::<i64>().unwrap()].live() as i64;
            if have != n.as_i64().unwrap() {
                return Err(format!("view map_future: {} futures made for {} are alive, expected {}", have, k, n));
            }
        }
        Ok(())
    };
    Box::new(Multi::new(mk, apply).with_post(post))
}
pub fn configs_map() -> Vec<J> {
    ["hub", "hub-sw2", "hub-sw3", "mut", "mut-cloned", "chan", "bc", "bchub-sw2"].iter().map(|k| json!({"name": k, "kind": k})).collect()
}

// ------------------------------------------------------------------ delay
struct EachView {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    log: Rc<RefCell<Vec<J>>>,
}
impl View for EachView {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String> {
        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(()) => {
                self.log.borrow_mut().push(json!("END"));
                self.fut = None;
                Ok(Ev::End)
            }
            Poll::Pending => Ok(Ev::Pending),
        }
    }
    fn check(&mut self, _e: &J, _d: bool) -> R {
        Ok(())
    }
    fn take_out(&mut self) -> Vec<J> {
        std::mem::take(&mut *self.log.borrow_mut())
    }
}

pub fn make_delay(cfg: &J) -> Box<dyn Sut> {
    let src = Rc::new(RefCell::new(SigSrc::new(s(cfg, "kind"), 0)));
    // one gate per delay, so that a tick completes exactly the delays that run now
    let gates: Rc<RefCell<Vec<Gate>>> = Rc::new(RefCell::new(vec![]));
    let auto = Rc::new(Cell::new(false));
    let (src1, gates1, auto1) = (src.clone(), gates.clone(), auto.clone());
    let cfg = cfg.clone();
    let mk = move || {
        let mut out: Vec<Slot> = vec![];
        let delay = {
            let (gates, auto) = (gates1.clone(), auto1.clone());
            move || {
                let g = Gate::new();
                if auto.get() {
                    g.open();
                } else {
                    gates.borrow_mut().push(g.clone());
                }
                g.wait()
            }
        };
        if want(&cfg, "throttle") {
            let k = Rc::new(Cell::new(0usize));
            let (k1, d) = (k.clone(), delay.clone());
            out.push(Slot::new_b(
                "throttle",
                SigView::new(
                    src1.borrow().sub().throttle(move || {
                        k1.set(k1.get() + 1);
                        d()
                    }),
                    ji,
                )
                .counting(k),
            ));
        }
        for name in ["for_each", "stream_each"] {
            if want(&cfg, name) {
                let log = Rc::new(RefCell::new(vec![]));
                let (l, d) = (log.clone(), delay.clone());
                let cb = move |v: i64| {
                    l.borrow_mut().push(json!(v));
                    d()
                };
                let fut: Pin<Box<dyn Future<Output = ()>>> =
                    if name == "for_each" { Box::pin(src1.borrow().sub().for_each(cb)) } else { Box::pin(src1.borrow().sub().to_stream().for_each(cb)) };
                out.push(Slot::new_b(name, EachView { fut: Some(fut), log }));
            }
        }
        out
    };
    let apply = move |op: &J, _x: &J, _sl: &mut Vec<Slot>| -> R {
        match s(op, "op") {
            "set" => src.borrow_mut().set(i(op, "v")),
            "close" => src.borrow_mut().close(),
            "auto" => auto.set(op["on"].as_bool().unwrap()),
            _ => {
                let gs = std::mem::take(&mut *gates.borrow_mut());
                gs.iter().for_each(|g| g.open());
            }
        }
        Ok(())
    };
    Box::new(Multi::new(mk, apply))
}

// ------------------------------------------------------------------ streams
pub fn make_stream(cfg: &J) -> Box<dyn Sut> {
    let src = Rc::new(RefCell::new(SigSrc::new(s(cfg, "kind"), 0)));
    let hub: Hub<i64> = Hub::new(0);
    let (src1, hub1) = (src.clone(), hub.clone());
    let cfg = cfg.clone();
    let mk = move || {
        let mut out: Vec<Slot> = vec![];
        if want(&cfg, "from_stream") {
            out.push(Slot::new_b("from_stream", SigView::new(from_stream(HubStream(hub1.subscribe(None))), jo)));
        }
        if want(&cfg, "sample") {
            out.push(Slot::new_b("sample", StreamView::new(src1.borrow().sub().sample_stream_cloned(HubStream(hub1.subscribe(None))), |p: &(i64, i64)| json!([p.0, p.1]))));
        }
        out
    };
    let apply = move |op: &J, _x: &J, _sl: &mut Vec<Slot>| -> R {
        match s(op, "op") {
            "set" => src.borrow_mut().set(i(op, "v")),
            "closesig" => src.borrow_mut().close(),
            "item" => hub.send(|| i(op, "v")),
            _ => hub.close(),
        }
        Ok(())
    };
    Box::new(Multi::new(mk, apply))
}
pub fn configs_stream() -> Vec<J> {
    ["hub", "mut", "mut-cloned", "chan", "bc"].iter().map(|k| json!({"name": k, "kind": k})).collect()
}
