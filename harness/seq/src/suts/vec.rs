//! VecViews.tla: one source vector, every single-combinator view of it.
use super::want;
use crate::core::*;
use futures_signals::signal::{ReadOnlyMutable, SignalExt};
use futures_signals::signal_vec::{MutableVec, SignalVec, SignalVecExt, VecDiff};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;

pub enum Src {
    Hub(VecHub),
    Copy(Option<MutableVec<i64>>),
    Cloned(Option<MutableVec<i64>>),
}
pub type BoxVec = Pin<Box<dyn SignalVec<Item = i64>>>;
impl Src {
    pub fn from_cfg(cfg: &J) -> Src {
        match s(cfg, "src") {
            "hub" => Src::Hub(VecHub::new(cfg["selfwake"].as_u64().unwrap_or(0) as usize, Initial::of(&cfg["eager"]))),
            "copy" => Src::Copy(Some(MutableVec::new())),
            _ => Src::Cloned(Some(MutableVec::new())),
        }
    }
    pub fn open(&self) -> bool {
        match self {
            Src::Hub(h) => !h.hub.closed.get(),
            Src::Copy(m) | Src::Cloned(m) => m.is_some(),
        }
    }
    pub fn subscribe(&self) -> BoxVec {
        match self {
            Src::Hub(h) => Box::pin(h.subscribe()),
            Src::Copy(m) => Box::pin(m.as_ref().unwrap().signal_vec()),
            Src::Cloned(m) => Box::pin(m.as_ref().unwrap().signal_vec_cloned()),
        }
    }
    pub fn now(&self) -> Vec<i64> {
        match self {
            Src::Hub(h) => h.now.borrow().clone(),
            Src::Copy(m) | Src::Cloned(m) => m.as_ref().map(|m| m.lock_ref().to_vec()).unwrap_or_default(),
        }
    }
    pub fn end(&mut self) {
        match self {
            Src::Hub(h) => h.hub.close(),
            Src::Copy(m) | Src::Cloned(m) => *m = None,
        }
    }
    pub fn apply(&mut self, op: &J) {
        match self {
            Src::Hub(h) => h.apply(op),
            Src::Copy(m) => {
                let mut l = m.as_ref().unwrap().lock_mut();
                match s(op, "op") {
                    "replace" => l.replace(ints(&op["vs"])),
                    "insert" => l.insert(u(op, "i"), i(op, "v")),
                    "update" => l.set(u(op, "i"), i(op, "v")),
                    "remove" => {
                        l.remove(u(op, "i"));
                    }
                    "move" => l.move_from_to(u(op, "o"), u(op, "n")),
                    "push" => l.push(i(op, "v")),
                    "pop" => {
                        l.pop();
                    }
                    _ => l.clear(),
                }
            }
            Src::Cloned(m) => {
                let mut l = m.as_ref().unwrap().lock_mut();
                match s(op, "op") {
                    "replace" => l.replace_cloned(ints(&op["vs"])),
                    "insert" => l.insert_cloned(u(op, "i"), i(op, "v")),
                    "update" => l.set_cloned(u(op, "i"), i(op, "v")),
                    "remove" => {
                        l.remove(u(op, "i"));
                    }
                    "move" => l.move_from_to(u(op, "o"), u(op, "n")),
                    "push" => l.push_cloned(i(op, "v")),
                    "pop" => {
                        l.pop();
                    }
                    _ => l.clear(),
                }
            }
        }
    }
}

pub struct VecSut {
    src: Src,
    slots: Vec<Slot>,
    per_set: usize,
    sets: usize,
    cfg: J,
}

fn key(v: i64) -> i64 {
    v / 2
}
fn log() -> Rc<RefCell<Vec<J>>> {
    Rc::new(RefCell::new(vec![]))
}

type Ro = ReadOnlyMutable<Option<usize>>;

pub fn views(sub: &mut dyn FnMut() -> BoxVec, now: &[i64], cfg: &J) -> Vec<Slot> {
    let mut out = vec![];
    let entered: Vec<J> = Initial::of(&cfg["eager"]).order(now.iter().map(|v| json!(v)).collect());
    if want(cfg, "plain") {
        out.push(Slot::new_b("plain", VecView::new(sub(), ji)));
    }
    if want(cfg, "map") {
        let l = log();
        let l2 = l.clone();
        let mut v = VecView::new(
            sub().map(move |v| {
                l2.borrow_mut().push(json!(v));
                v + 100
            }),
            ji,
        )
        .with_calls(l);
        v.expect_calls(&entered);
        out.push(Slot::new_b("map", v));
    }
    if want(cfg, "filter") {
        let l = log();
        let l2 = l.clone();
        let mut v = VecView::new(
            sub().filter(move |v| {
                l2.borrow_mut().push(json!(*v));
                key(*v) % 2 == 1
            }),
            ji,
        )
        .with_calls(l);
        v.expect_calls(&entered);
        out.push(Slot::new_b("filter", v));
    }
    if want(cfg, "filter_map") {
        let l = log();
        let l2 = l.clone();
        let mut v = VecView::new(
            sub().filter_map(move |v| {
                l2.borrow_mut().push(json!(v));
                if key(v) % 2 == 0 {
                    Some(v + 200)
                } else {
                    None
                }
            }),
            ji,
        )
        .with_calls(l);
        v.expect_calls(&entered);
        out.push(Slot::new_b("filter_map", v));
    }
    if want(cfg, "sort") {
        out.push(Slot::new_b("sort", VecView::new(sub().sort_by_cloned(|a, b| key(*b).cmp(&key(*a))), ji)));
    }
    if want(cfg, "sort_asc") {
        out.push(Slot::new_b("sort_asc", VecView::new(sub().sort_by_cloned(|a, b| a.cmp(b)), ji)));
    }
    if want(cfg, "enumerate") {
        // every index handle ever handed out (by element: an update hands out another one for
        // the same position), a wake-driven observer of each, and where the elements are now
        #[derive(Default)]
        struct Indexes {
            elems: Vec<Vec<(Ro, Slot)>>,
            order: Vec<usize>,
        }
        let all: Rc<RefCell<Indexes>> = Rc::new(RefCell::new(Indexes::default()));
        let all2 = all.clone();
        let view = VecView::new(sub().enumerate(), |(i, v): &(Ro, i64)| json!([i.get(), v]))
            .with_on_diff(move |d| {
                let all = &mut *all2.borrow_mut();
                let obs = |ro: &Ro| (ro.clone(), Slot::new_b("index", SigView::new(ro.signal(), |v: &Option<usize>| json!(v))));
                let elems = &mut all.elems;
                let mut new = |(ro, _): &(Ro, i64)| {
                    elems.push(vec![obs(ro)]);
                    elems.len() - 1
                };
                let d = match d {
                    VecDiff::Replace { values } => VecDiff::Replace { values: values.iter().map(new).collect() },
                    VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index: *index, value: new(value) },
                    VecDiff::Push { value } => VecDiff::Push { value: new(value) },
                    VecDiff::UpdateAt { index, value } => {
                        elems[all.order[*index]].push(obs(&value.0));
                        return;
                    }
                    VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index: *index },
                    VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index: *old_index, new_index: *new_index },
                    VecDiff::Pop {} => VecDiff::Pop {},
                    VecDiff::Clear {} => VecDiff::Clear {},
                };
                vec_apply(&mut all.order, d);
            })
            .with_custom(move |mirror, exp| {
                let got: Vec<J> = mirror.iter().map(|(i, v)| json!([i.get(), v])).collect();
                if J::Array(got.clone()) != *exp {
                    return Err(format!("holds {} but the specification says {}", J::Array(got), exp));
                }
                let all = &mut *all.borrow_mut();
                let mut at = vec![None; all.elems.len()];
                for (k, e) in all.order.iter().enumerate() {
                    at[*e] = Some(k);
                }
                for (e, handles) in all.elems.iter_mut().enumerate() {
                    let last = handles.len() - 1;
                    for (h, (ro, obs)) in handles.iter_mut().enumerate() {
                        // the handle of an updated element may live on or be gone
                        if ro.get() != at[e] && !(h < last && ro.get() == None) {
                            return Err(format!("an index says {:?} although its element is at {:?}", ro.get(), at[e]));
                        }
                        obs.run(usize::MAX)?;
                        obs.view.check(&json!(ro.get()), true).map_err(|e| format!("observer of an index: {}", e))?;
                    }
                }
                Ok(())
            });
        out.push(Slot::new_b("enumerate", view));
    }
    if want(cfg, "len") {
        out.push(Slot::new_b("len", SigView::new(sub().len(), |v: &usize| json!(*v))));
    }
    if want(cfg, "is_empty") {
        out.push(Slot::new_b("is_empty", SigView::new(sub().is_empty(), jb).nodup()));
    }
    if want(cfg, "sum") {
        out.push(Slot::new_b("sum", SigView::new(sub().sum(), ji)));
    }
    if want(cfg, "to_signal") {
        out.push(Slot::new_b("to_signal", SigView::new(sub().to_signal_cloned(), |v: &Vec<i64>| json!(v))));
    }
    if want(cfg, "to_signal_map") {
        out.push(Slot::new_b(
            "to_signal_map",
            SigView::new(sub().to_signal_map(|v| (v.len(), v.iter().sum::<i64>())), |v: &(usize, i64)| json!([v.0, v.1])),
        ));
    }
    if want(cfg, "to_signal_vec") {
        // round trip through a signal
        out.push(Slot::new_b("plain", VecView::new(sub().to_signal_cloned().to_signal_vec(), ji)));
    }
    out
}

pub fn make(cfg: &J) -> Box<dyn Sut> {
    let src = Src::from_cfg(cfg);
    let mut s = VecSut { src, slots: vec![], per_set: 0, sets: 0, cfg: cfg.clone() };
    s.subscribe();
    Box::new(s)
}

impl Sut for VecSut {
    fn apply(&mut self, op: &J, x: &J) -> R {
        if s(op, "op") == "end" {
            self.src.end();
        } else {
            self.src.apply(op);
            let entered = x.as_array().unwrap();
            for sl in self.slots.iter_mut() {
                sl.view.expect_calls(entered);
            }
        }
        Ok(())
    }
    fn slots(&mut self) -> &mut Vec<Slot> {
        &mut self.slots
    }
    fn subscribe(&mut self) {
        if !self.src.open() || self.sets > 3 {
            return;
        }
        let now = self.src.now();
        let src = &self.src;
        let v = views(&mut || src.subscribe(), &now, &self.cfg);
        self.per_set = v.len();
        self.sets += 1;
        self.slots.extend(v);
    }
    fn unsubscribe(&mut self, i: usize) {
        if self.sets > 1 {
            let k = i % self.sets;
            self.slots.drain(k * self.per_set..(k + 1) * self.per_set);
            self.sets -= 1;
        }
    }
}

pub fn configs() -> Vec<J> {
    vec![
        json!({"name": "hub", "src": "hub", "eager": true}),
        json!({"name": "hub-lazy", "src": "hub", "eager": false}),
        json!({"name": "hub-selfwake2", "src": "hub", "eager": true, "selfwake": 2}),
        json!({"name": "hub-selfwake3", "src": "hub", "eager": false, "selfwake": 3}),
        json!({"name": "hub-push", "src": "hub", "eager": "push"}),
        json!({"name": "hub-insert-selfwake2", "src": "hub", "eager": "insert", "selfwake": 2}),
        json!({"name": "hub-mixed", "src": "hub", "eager": "mixed"}),
        json!({"name": "mutable-copy", "src": "copy"}),
        json!({"name": "mutable-cloned", "src": "cloned"}),
    ]
}
