//! SigOps.tla: combinators over one or two signals.
use super::sigsrc::SigSrc;
use super::want;
use crate::core::*;
use futures_signals::signal::{always, and, not, option, or, result, Always, SignalExt};
use futures_signals::{map_mut, map_ref};
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

fn jo(v: &Option<i64>) -> J {
    match v {
        Some(v) => json!([v]),
        None => json!([]),
    }
}
fn jr(v: &Result<i64, String>) -> J {
    match v {
        Ok(v) => json!([v]),
        Err(e) => json!(e),
    }
}
fn jp(v: &(i64, i64)) -> J {
    json!([v.0, v.1])
}
fn odd(v: i64) -> bool {
    v % 2 == 1
}

pub fn make(cfg: &J) -> Box<dyn Sut> {
    let a = Rc::new(RefCell::new(SigSrc::new(s(cfg, "kind"), 0)));
    let b = Rc::new(RefCell::new(SigSrc::new(s(cfg, "kind"), 0)));
    let (a1, b1) = (a.clone(), b.clone());
    let cfg = cfg.clone();
    let single = cfg["single"].as_bool().unwrap_or(false);
    let mk = move || {
        let mut out: Vec<Slot> = vec![];
        let c = || Rc::new(Cell::new(0usize));
        let tick = |c: &Rc<Cell<usize>>| c.set(c.get() + 1);
        let (a, b) = (|| a1.borrow().sub(), || b1.borrow().sub());
        macro_rules! view {
            ($name:expr, $e:expr) => {
                if want(&cfg, $name) {
                    out.push(Slot::new_b($name, $e));
                }
            };
        }
        {
            let k = c();
            let k1 = k.clone();
            view!("map", SigView::new(a().map(move |v| { tick(&k1); v + 100 }), ji).counting(k));
        }
        {
            let k = c();
            let k1 = k.clone();
            view!("inspect", SigView::new(a().inspect(move |_| tick(&k1)), ji).counting(k));
        }
        view!("stream", StreamView::new(a().to_stream(), ji));
        view!("boxed", SigView::new(a().map(|v| v).boxed_local(), ji));
        view!("dedupe", SigView::new(a().dedupe(), ji).nodup());
        view!("dedupe_cloned", SigView::new(a().dedupe_cloned(), ji).nodup());
        {
            let k = c();
            let k1 = k.clone();
            view!("dedupe_map", SigView::new(a().dedupe_map(move |v| { tick(&k1); *v + 100 }), ji).counting(k));
        }
        view!("dedupe_mapped", SigView::new(a().map(|v| v / 2).dedupe(), ji));
        view!("eq", SigView::new(a().eq(1), jb));
        view!("neq", SigView::new(a().neq(1), jb));
        view!("not", SigView::new(not(a().map(odd)), jb));
        {
            let k = c();
            let k1 = k.clone();
            view!("filter_map", SigView::new(a().filter_map(move |v| { tick(&k1); if odd(v) { Some(v + 200) } else { None } }), jo).counting(k));
        }
        {
            let k = c();
            let k1 = k.clone();
            view!("stop_if", SigView::new(a().stop_if(move |v| { tick(&k1); *v == 2 }), ji).counting(k));
        }
        view!("first", SigView::new(a().first(), ji));
        view!("option", SigView::new(option(Some(a())), jo));
        view!("option_none", SigView::new(option(None::<Always<i64>>), jo));
        view!("result", SigView::new(result(Ok::<_, String>(a())), jr));
        view!("result_err", SigView::new(result(Err::<Always<i64>, String>("err".into())), jr));
        view!("always", SigView::new(always(7i64), ji));
        view!("signal_vec", VecView::new(a().map(|v| (1..=v).collect::<Vec<i64>>()).to_signal_vec(), ji));
        if !single {
            {
                let k = c();
                let k1 = k.clone();
                view!("map_ref", SigView::new(map_ref! { let a = a(), let b = b() => { tick(&k1); *a * 10 + *b } }, ji).counting(k));
            }
            {
                let k = c();
                let k1 = k.clone();
                view!("map_mut", SigView::new(map_mut! { let a = a(), let b = b() => { tick(&k1); *a * 10 + *b } }, ji).counting(k));
            }
            view!("map_ref_nested", SigView::new(map_ref! { let x = map_ref! { let a = a(), let b = b() => *a + *b }, let y = b() => *x * 100 + *y }, ji));
            view!("map_ref_3", SigView::new(map_ref! { let a = a(), let b = b(), let c = a() => *a * 100 + *b * 10 + *c }, ji));
            {
                let k = c();
                let k1 = k.clone();
                view!("diamond", SigView::new(map_ref! { let x = a(), let y = a().map(|v| v + 100) => { tick(&k1); (*x, *y) } }, jp).counting(k));
            }
            view!("and", SigView::new(and(a().map(odd), b().map(odd)), jb));
            view!("or", SigView::new(or(a().map(odd), b().map(odd)), jb));
        }
        out
    };
    let apply = move |op: &J, _x: &J, _sl: &mut Vec<Slot>| -> R {
        let t = if s(op, "k") == "a" { &a } else { &b };
        match s(op, "op") {
            "set" => t.borrow_mut().set(i(op, "v")),
            _ => t.borrow_mut().close(),
        }
        Ok(())
    };
    Box::new(Multi::new(mk, apply))
}
pub fn configs() -> Vec<J> {
    let mut v: Vec<J> = ["hub", "mut", "mut-cloned", "mut-ref", "chan", "bc", "bc-cloned", "bc-ref", "bchub"].iter().map(|k| json!({"name": k, "kind": k})).collect();
    for k in ["hub-sw2", "hub-sw3", "bchub-sw2"] {
        v.push(json!({"name": k, "kind": k, "single": true}));
    }
    v
}
