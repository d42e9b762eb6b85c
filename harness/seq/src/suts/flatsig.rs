//! FlatSig.tla: switch and flatten of signals.
use super::sigsrc::SigSrc;
use super::want;
use crate::core::*;
use futures_signals::signal::SignalExt;
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn make(cfg: &J) -> Box<dyn Sut> {
    let outer = Rc::new(RefCell::new(SigSrc::new(s(cfg, "outer"), 0)));
    let inner: Rc<RefCell<BTreeMap<i64, SigSrc>>> = Rc::new(RefCell::new((0..8).map(|k| (k, SigSrc::new(s(cfg, "inner"), k * 10))).collect()));
    let (o1, i1, i2) = (outer.clone(), inner.clone(), inner.clone());
    let cfg = cfg.clone();
    let views: Rc<Cell<usize>> = Rc::new(Cell::new(0));
    let v1 = views.clone();
    let mk = move || {
        let mut out: Vec<Slot> = vec![];
        let k = Rc::new(Cell::new(0usize));
        let k1 = k.clone();
        if want(&cfg, "switch") {
            let inn = i1.clone();
            out.push(Slot::new_b("switch", SigView::new(o1.borrow().sub().switch(move |v| { k1.set(k1.get() + 1); inn.borrow()[&v].sub() }), ji).counting(k)));
        }
        if want(&cfg, "flatten") {
            let inn = i1.clone();
            out.push(Slot::new_b("flatten", SigView::new(o1.borrow().sub().map(move |v| inn.borrow()[&v].sub()).flatten(), ji)));
        }
        if want(&cfg, "mapped") {
            // a switch inside a switch, and a map of the result
            let (inn, o) = (i1.clone(), o1.clone());
            let _ = &o;
            out.push(Slot::new_b("mapped", SigView::new(o1.borrow().sub().switch(move |v| { let inn = inn.clone(); futures_signals::signal::always(v).switch(move |v| inn.borrow()[&v].sub()) }).map(|v| v + 1000), ji)));
        }
        v1.set(out.len());
        out
    };
    let apply = move |op: &J, _x: &J, _sl: &mut Vec<Slot>| -> R {
        match s(op, "op") {
            "outer" => outer.borrow_mut().set(i(op, "k")),
            "close" => outer.borrow_mut().close(),
            "inner" => inner.borrow_mut().get_mut(&i(op, "k")).unwrap().set(i(op, "v")),
            _ => inner.borrow_mut().get_mut(&i(op, "k")).unwrap().close(),
        }
        Ok(())
    };
    let post = move |obs: &J, _sl: &mut Vec<Slot>| -> R {
        if let Some(l) = obs["live"].as_object() {
            for (k, exp) in l {
                let k: i64 = k.parse().unwrap();
                let exp = exp.as_bool().unwrap();
                if let Some(n) = i2.borrow()[&k].live() {
                    if exp && n == 0 {
                        return Err(format!("nobody follows inner signal {} any more", k));
                    }
                    if !exp && n > 0 {
                        return Err(format!("inner signal {} is still held although it was replaced or ended", k));
                    }
                }
            }
        } else if let Some(l) = obs["live"].as_array() {
            for (k, exp) in l.iter().enumerate() {
                let _ = (k, exp);
                return Err("VPHARNESS: live printed as a list".into());
            }
        }
        Ok(())
    };
    Box::new(Multi::new(mk, apply).with_post(post))
}
pub fn configs() -> Vec<J> {
    let mut v = vec![];
    for (o, i) in [("hub", "hub"), ("hub-sw2", "hub"), ("hub", "hub-sw2"), ("hub-sw3", "hub-sw2"), ("mut", "mut"), ("mut", "chan"), ("chan", "mut-cloned"), ("bc", "bc"), ("mut-ref", "bchub"), ("bchub", "hub")] {
        v.push(json!({"name": format!("{}/{}", o, i), "outer": o, "inner": i}));
    }
    v
}
