//! DynVec.tla (map_signal, filter_signal_cloned), ChainVec.tla, FlatVec.tla, SwitchVec.tla, DelayVec.tla
use super::sigsrc::SigSrc;
use super::vec::Src;
use super::want;
use crate::core::*;
use futures_signals::signal::SignalExt;
use futures_signals::signal_vec::{SignalVec, SignalVecExt, VecDiff};
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::rc::Rc;

fn jpair(p: &(i64, i64)) -> J {
    json!([p.0, p.1])
}

struct Dyn {
    src: Src,
    sig: BTreeMap<i64, SigSrc>,
}
pub fn make_dyn(cfg: &J) -> Box<dyn Sut> {
    let kind = s(cfg, "sig").to_string();
    let n = cfg["n"].as_i64().unwrap_or(8);
    let d = Rc::new(RefCell::new(Dyn { src: Src::from_cfg(cfg), sig: (0..n).map(|e| (e, SigSrc::new(&kind, 0))).collect() }));
    let (d1, d2, d3) = (d.clone(), d.clone(), d.clone());
    let cfg = cfg.clone();
    let mk = move || {
        let mut out = vec![];
        if !d1.borrow().src.open() {
            return out;
        }
        let entered: Vec<J> = Initial::of(&cfg["eager"]).order(d1.borrow().src.now().iter().map(|v| json!(v)).collect());
        if want(&cfg, "map_signal") {
            let d = d1.clone();
            let (log, called) = logged();
            let f = move |e| {
                called(e);
                d.borrow().sig[&e].sub().map(move |v| (e, v))
            };
            let mut v = VecView::new(d1.borrow().src.subscribe().map_signal(f), jpair).with_calls(log);
            v.expect_calls(&entered);
            out.push(Slot::new_b("map_signal", v));
        }
        if want(&cfg, "filter_signal") {
            let d = d1.clone();
            let (log, called) = logged();
            let f = move |e: &i64| {
                called(*e);
                d.borrow().sig[e].sub().map(|v| v % 2 == 1)
            };
            let mut v = VecView::new(d1.borrow().src.subscribe().filter_signal_cloned(f), ji).with_calls(log);
            v.expect_calls(&entered);
            out.push(Slot::new_b("filter_signal", v));
        }
        out
    };
    let apply = move |op: &J, x: &J, sl: &mut Vec<Slot>| -> R {
        expect_calls(sl, x);
        let mut d = d2.borrow_mut();
        match s(op, "op") {
            "end" => d.src.end(),
            "sig" => d.sig.get_mut(&i(op, "e")).unwrap().set(i(op, "v")),
            "close" => d.sig.get_mut(&i(op, "e")).unwrap().close(),
            _ => d.src.apply(op),
        }
        Ok(())
    };
    let post = move |obs: &J, sl: &mut Vec<Slot>| -> R { held_at_most(obs, sl.len(), "signals", |e| d3.borrow().sig[&e].live()) };
    Box::new(Multi::new(mk, apply).with_post(post))
}
pub fn configs_dyn() -> Vec<J> {
    vec![
        json!({"name": "hub", "src": "hub", "eager": true, "sig": "hub"}),
        json!({"name": "hub-push", "src": "hub", "eager": "push", "sig": "hub"}),
        json!({"name": "hub-mixed", "src": "hub", "eager": "mixed", "selfwake": 2, "sig": "mut"}),
        json!({"name": "hub-queue", "src": "hub", "eager": false, "sig": "queue"}),
        json!({"name": "hub-selfwake2", "src": "hub", "eager": true, "selfwake": 2, "sig": "queue-sw2"}),
        json!({"name": "hub-selfwake3", "src": "hub", "eager": false, "selfwake": 3, "sig": "hub-sw3"}),
        json!({"name": "mutable", "src": "copy", "sig": "mut"}),
    ]
}

// ------------------------------------------------------------------ chain
pub fn make_chain(cfg: &J) -> Box<dyn Sut> {
    let l = Rc::new(RefCell::new(Src::from_cfg(&cfg["l"])));
    let r = Rc::new(RefCell::new(Src::from_cfg(&cfg["r"])));
    let (l1, r1) = (l.clone(), r.clone());
    let mk = move || {
        if !l1.borrow().open() || !r1.borrow().open() {
            return vec![];
        }
        let v: VecView<i64> = VecView::new(l1.borrow().subscribe().chain(r1.borrow().subscribe()), ji);
        vec![Slot::new_b("chain", v)]
    };
    let apply = move |op: &J, _x: &J, _sl: &mut Vec<Slot>| -> R {
        let side = if s(op, "side") == "l" { &l } else { &r };
        if s(op, "op") == "close" {
            side.borrow_mut().end();
        } else {
            side.borrow_mut().apply(&op["d"]);
        }
        Ok(())
    };
    Box::new(Multi::new(mk, apply))
}
pub fn configs_chain() -> Vec<J> {
    let hub = |eager: bool, sw: u64| json!({"src": "hub", "eager": eager, "selfwake": sw});
    let by = |init: &str| json!({"src": "hub", "eager": init});
    vec![
        json!({"name": "push-insert", "l": by("push"), "r": by("insert")}),
        json!({"name": "mixed-push", "l": by("mixed"), "r": by("push")}),
        json!({"name": "push-eager", "l": by("push"), "r": hub(true, 2)}),
        json!({"name": "eager-eager", "l": hub(true, 0), "r": hub(true, 0)}),
        json!({"name": "lazy-lazy", "l": hub(false, 0), "r": hub(false, 0)}),
        json!({"name": "eager-lazy", "l": hub(true, 0), "r": hub(false, 0)}),
        json!({"name": "lazy-eager", "l": hub(false, 0), "r": hub(true, 0)}),
        json!({"name": "selfwake", "l": hub(true, 2), "r": hub(false, 3)}),
        json!({"name": "selfwake-r", "l": hub(false, 0), "r": hub(true, 2)}),
        json!({"name": "mutable", "l": {"src": "copy"}, "r": {"src": "cloned"}}),
    ]
}

// ------------------------------------------------------------------ flatten
pub type BoxVecI = Pin<Box<dyn SignalVec<Item = i64>>>;
type Inners = Rc<RefCell<BTreeMap<i64, VecHub>>>;
fn inners(cfg: &J) -> Inners {
    let sw = cfg["in_selfwake"].as_u64().unwrap_or(0) as usize;
    let eager = Initial::of(&cfg["in_eager"]);
    Rc::new(RefCell::new((0..12).map(|k| (k, VecHub::new(sw, eager))).collect()))
}
fn outer_diff(op: &J, inn: &Inners) -> VecDiff<BoxVecI> {
    let sub = |k: i64| -> BoxVecI { Box::pin(inn.borrow()[&k].subscribe()) };
    match vec_diff(op) {
        VecDiff::Replace { values } => VecDiff::Replace { values: values.into_iter().map(sub).collect() },
        VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index, value: sub(value) },
        VecDiff::UpdateAt { index, value } => VecDiff::UpdateAt { index, value: sub(value) },
        VecDiff::Push { value } => VecDiff::Push { value: sub(value) },
        VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index },
        VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index, new_index },
        VecDiff::Pop {} => VecDiff::Pop {},
        VecDiff::Clear {} => VecDiff::Clear {},
    }
}
pub fn make_flat(cfg: &J) -> Box<dyn Sut> {
    let inn = inners(cfg);
    let outer: Hub<VecDiff<BoxVecI>> = Hub::new(cfg["selfwake"].as_u64().unwrap_or(0) as usize);
    let now: Rc<RefCell<Vec<i64>>> = Rc::new(RefCell::new(vec![]));
    let eager = Initial::of(&cfg["eager"]);
    let (inn1, inn2, outer1, now1) = (inn.clone(), inn.clone(), outer.clone(), now.clone());
    let mk = move || {
        if outer1.closed.get() {
            return vec![];
        }
        let n = now1.borrow().clone();
        let init = eager.diffs(n.iter().map(|k| -> BoxVecI { Box::pin(inn1.borrow()[k].subscribe()) }).collect());
        vec![Slot::new_b("flatten", VecView::new(HubVec(outer1.subscribe(init)).flatten(), ji))]
    };
    let apply = move |op: &J, _x: &J, _sl: &mut Vec<Slot>| -> R {
        match s(op, "op") {
            "outer" => {
                vec_apply(&mut now.borrow_mut(), vec_diff(&op["d"]));
                outer.send(|| outer_diff(&op["d"], &inn));
            }
            "inner" => {
                let h = inn.borrow()[&i(op, "k")].clone();
                h.apply(&op["d"]);
            }
            "close" => inn.borrow()[&i(op, "k")].hub.close(),
            _ => outer.close(),
        }
        Ok(())
    };
    let post = move |obs: &J, sl: &mut Vec<Slot>| -> R { held_at_most(obs, sl.len(), "inner vectors", |k| Some(inn2.borrow()[&k].hub.live())) };
    Box::new(Multi::new(mk, apply).with_post(post))
}
pub fn configs_flat() -> Vec<J> {
    vec![
        json!({"name": "eager", "eager": true, "in_eager": true}),
        json!({"name": "lazy", "eager": false, "in_eager": false}),
        json!({"name": "mixed", "eager": true, "in_eager": false}),
        json!({"name": "push", "eager": "push", "in_eager": "push"}),
        json!({"name": "insert", "eager": "insert", "in_eager": "mixed", "in_selfwake": 2}),
        json!({"name": "mixed-insert", "eager": "mixed", "in_eager": "insert", "selfwake": 2}),
        json!({"name": "selfwake", "eager": false, "in_eager": true, "selfwake": 3, "in_selfwake": 2}),
    ]
}

// ------------------------------------------------------------------ switch_signal_vec
pub fn make_switch(cfg: &J) -> Box<dyn Sut> {
    let inn = inners(cfg);
    let sig = Rc::new(RefCell::new(SigSrc::new(s(cfg, "sig"), 0)));
    let (inn1, inn2, sig1) = (inn.clone(), inn.clone(), sig.clone());
    // how many values there have been, and the calls of the closure of each view since its start
    let switches = Rc::new(Cell::new(0));
    let calls: Rc<RefCell<Vec<(usize, Rc<RefCell<Vec<J>>>)>>> = Rc::new(RefCell::new(vec![]));
    let (switches1, switches2, calls1) = (switches.clone(), switches.clone(), calls.clone());
    let mk = move || {
        let inn = inn1.clone();
        let (log, called) = logged();
        calls1.borrow_mut().push((switches1.get(), log));
        let f = move |k| {
            called(k);
            inn.borrow()[&k].subscribe()
        };
        let v: VecView<i64> = VecView::new(sig1.borrow().sub().switch_signal_vec(f), ji);
        vec![Slot::new_b("switch", v)]
    };
    let apply = move |op: &J, _x: &J, _sl: &mut Vec<Slot>| -> R {
        match s(op, "op") {
            "switch" => {
                switches.set(switches.get() + 1);
                sig.borrow_mut().set(i(op, "k"))
            }
            "inner" => {
                let h = inn.borrow()[&i(op, "k")].clone();
                h.apply(&op["d"]);
            }
            "close" => inn.borrow()[&i(op, "k")].hub.close(),
            _ => sig.borrow_mut().close(),
        }
        Ok(())
    };
    let post = move |obs: &J, sl: &mut Vec<Slot>| -> R {
        for (since, log) in calls.borrow().iter() {
            let (n, most) = (log.borrow().len(), 1 + switches2.get() - since);
            if n > most {
                return Err(format!("the closure was called {} times for at most {} values: {:?}", n, most, log.borrow()));
            }
        }
        held_at_most(obs, sl.len(), "inner vectors", |k| Some(inn2.borrow()[&k].hub.live()))
    };
    let mut m = Multi::new(mk, apply).with_post(post);
    m.max_sets = 3;
    Box::new(m)
}
pub fn configs_switch() -> Vec<J> {
    vec![
        json!({"name": "hub-eager", "sig": "hub", "in_eager": true}),
        json!({"name": "queue-lazy", "sig": "queue", "in_eager": false}),
        json!({"name": "selfwake", "sig": "queue-sw2", "in_eager": true, "in_selfwake": 2}),
        json!({"name": "selfwake-lazy", "sig": "hub-sw3", "in_eager": false, "in_selfwake": 3}),
        json!({"name": "mutable", "sig": "mut", "in_eager": false}),
        json!({"name": "push", "sig": "mut", "in_eager": "push"}),
        json!({"name": "insert", "sig": "queue", "in_eager": "insert"}),
        json!({"name": "mixed-selfwake", "sig": "hub", "in_eager": "mixed", "in_selfwake": 2}),
    ]
}

// ------------------------------------------------------------------ delay_remove
pub fn make_delay(cfg: &J) -> Box<dyn Sut> {
    let src = Rc::new(RefCell::new(Src::from_cfg(cfg)));
    let gates: Rc<BTreeMap<i64, Gate>> = Rc::new((0..12).map(|e| (e, Gate::new())).collect());
    let (src1, gates1, gates2) = (src.clone(), gates.clone(), gates.clone());
    let init = Initial::of(&cfg["eager"]);
    let mk = move || {
        if !src1.borrow().open() {
            return vec![];
        }
        let g = gates1.clone();
        let entered: Vec<J> = init.order(src1.borrow().now().iter().map(|v| json!(v)).collect());
        let (log, called) = logged();
        let f = move |e: &i64| {
            called(*e);
            g[e].wait()
        };
        let mut v = VecView::new(src1.borrow().subscribe().delay_remove(f), ji).with_calls(log);
        v.expect_calls(&entered);
        vec![Slot::new_b("delay", v)]
    };
    let apply = move |op: &J, x: &J, sl: &mut Vec<Slot>| -> R {
        expect_calls(sl, x);
        match s(op, "op") {
            "diff" => src.borrow_mut().apply(&op["d"]),
            "gate" => gates[&i(op, "e")].open(),
            _ => src.borrow_mut().end(),
        }
        Ok(())
    };
    let post = move |obs: &J, sl: &mut Vec<Slot>| -> R { held_at_most(obs, sl.len(), "futures", |e| Some(gates2[&e].live())) };
    let mut m = Multi::new(mk, apply).with_post(post);
    // a late subscriber does not see what is already leaving
    m.max_sets = 1;
    Box::new(m)
}
pub fn configs_delay() -> Vec<J> {
    vec![
        json!({"name": "hub", "src": "hub", "eager": true}),
        json!({"name": "hub-lazy", "src": "hub", "eager": false}),
        json!({"name": "hub-selfwake2", "src": "hub", "eager": true, "selfwake": 2}),
        json!({"name": "hub-push", "src": "hub", "eager": "push"}),
        json!({"name": "hub-mixed", "src": "hub", "eager": "mixed"}),
        json!({"name": "mutable", "src": "copy"}),
    ]
}
