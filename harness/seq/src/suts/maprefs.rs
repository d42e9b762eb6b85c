//! MapRefs.tla: map_ref! and map_mut! over several signals, in every spelling.
use super::sigsrc::SigSrc;
use super::want;
use crate::core::*;
use futures_signals::signal::{and, not, or, SignalExt};
use futures_signals::{map_mut, map_ref};
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

fn odd(v: i64) -> bool {
    v % 2 == 1
}
struct P {
    x: i64,
    y: (i64, i64),
}

pub fn make(cfg: &J) -> Box<dyn Sut> {
    let kinds: Vec<String> = cfg["kinds"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
    let src: Rc<Vec<RefCell<SigSrc>>> = Rc::new((0..4).map(|k| RefCell::new(SigSrc::new(&kinds[k % kinds.len()], 0))).collect());
    let src1 = src.clone();
    let cfg = cfg.clone();
    let mk = move || {
        let mut out: Vec<Slot> = vec![];
        let g = |k: usize| src1[k - 1].borrow().sub();
        macro_rules! view {
            ($name:expr, $e:expr) => {
                if want(&cfg, $name) {
                    out.push(Slot::new_b($name, SigView::new($e, ji)));
                }
            };
            ($name:expr, $k:ident => $e:expr) => {
                if want(&cfg, $name) {
                    let k = Rc::new(Cell::new(0usize));
                    let $k = k.clone();
                    out.push(Slot::new_b($name, SigView::new($e, ji).counting(k)));
                }
            };
        }
        macro_rules! bview {
            ($name:expr, $e:expr) => {
                if want(&cfg, $name) {
                    out.push(Slot::new_b($name, SigView::new($e, jb)));
                }
            };
        }
        let tick = |c: &Rc<Cell<usize>>| c.set(c.get() + 1);
        view!("names3", k => {
            let (a, b, c) = (g(1), g(2), g(3));
            map_ref!(a, b, c => { tick(&k); *a * 100 + *b * 10 + *c })
        });
        view!("mixed3", k => {
            let b = g(1);
            map_ref! { let a = g(3), b, let c = g(2) => { tick(&k); *a * 100 + *b * 10 + *c } }
        });
        view!("move3", {
            let (a, b) = (g(2), g(3));
            map_ref!(a, b, let c = g(1) => move *a * 100 + *b * 10 + *c)
        });
        view!("one", {
            let a = g(4);
            map_ref!(a => *a)
        });
        view!("names4", k => {
            let (a, b, c, d) = (g(1), g(2), g(3), g(4));
            map_ref!(a, b, c, d => { tick(&k); *a * 1000 + *b * 100 + *c * 10 + *d })
        });
        view!("mut4", k => map_mut! { let a = g(4), let b = g(3), let c = g(2), let d = g(1) => { tick(&k); *a * 1000 + *b * 100 + *c * 10 + *d } });
        view!("five", map_ref! { let a = g(1), let b = g(2), let c = g(3), let d = g(4), let e = g(1) => *a * 10000 + *b * 1000 + *c * 100 + *d * 10 + *e });
        view!("held", {
            let b = g(2);
            map_mut! { let a = g(1), b, let c = g(3) => {
                *a = (*a + 1) % 3;
                *c = (*c + 1) % 3;
                *a * 100 + *b * 10 + *c
            } }
        });
        view!("nest_l", map_ref! { let x = map_ref! { let y = map_ref! { let a = g(1), let b = g(2) => *a * 10 + *b }, let c = g(3) => *y * 10 + *c }, let d = g(4) => *x * 10 + *d });
        view!("nest_r", map_ref! { let a = g(1), let x = map_ref! { let b = g(2), let y = map_ref! { let c = g(3), let d = g(4) => *c * 10 + *d } => *b * 100 + *y } => *a * 1000 + *x });
        view!("pairs", map_ref! { let x = map_ref! { let a = g(1), let b = g(2) => (*a, *b) }, let y = map_mut! { let c = g(3), let d = g(4) => (*c, *d) } => x.0 * 1000 + x.1 * 100 + y.0 * 10 + y.1 });
        view!("patterns", map_ref! {
            let P { x: a, y: (b, _) } = map_ref! { let a = g(1), let b = g(2) => P { x: *a, y: (*b, 0) } },
            let (c, _) = g(3).map(|c| (c, ())) => *a * 100 + *b * 10 + *c
        });
        bview!("and3", and(and(g(1).map(odd), g(2).map(odd)), g(3).map(odd)));
        bview!("or3", or(g(1).map(odd), or(g(2).map(odd), g(3).map(odd))));
        bview!("andor", or(and(g(1).map(odd), g(2).map(odd)), and(g(3).map(odd), not(g(4).map(odd)))));
        view!("mapped", map_ref! { let a = g(1).map(|v| v + 10), let b = g(2).map(|v| v + 20), let c = g(3).map(|v| v + 30) => *a + *b + *c });
        out
    };
    let apply = move |op: &J, _x: &J, _sl: &mut Vec<Slot>| -> R {
        match s(op, "op") {
            "set" => src[u(op, "k") - 1].borrow_mut().set(i(op, "v")),
            _ => op["ks"].as_array().unwrap().iter().for_each(|k| src[k.as_u64().unwrap() as usize - 1].borrow_mut().close()),
        }
        Ok(())
    };
    Box::new(Multi::new(mk, apply))
}
pub fn configs() -> Vec<J> {
    vec![
        json!({"name": "hub", "kinds": ["hub"]}),
        json!({"name": "mut", "kinds": ["mut", "mut-cloned", "mut-ref"]}),
        json!({"name": "mix", "kinds": ["chan", "bc", "mut", "bchub"]}),
    ]
}
