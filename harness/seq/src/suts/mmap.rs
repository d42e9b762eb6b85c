//! MutMap.tla: the whole MutableBTreeMap API and the views derived from one map;
//! DynMap.tla: map_value_signal.
use super::sigsrc::SigSrc;
use super::want;
use crate::core::*;
use futures_signals::signal::SignalExt;
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, MutableBTreeMapLockMut, SignalMap, SignalMapExt};
use futures_signals::signal_vec::SignalVec;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::rc::Rc;

type BoxMap<T> = Pin<Box<dyn SignalMap<Key = T, Value = T>>>;
type BoxEntries<T> = Pin<Box<dyn SignalVec<Item = (T, T)>>>;

pub trait El: Clone + Ord + Hash + std::fmt::Debug + Into<i64> + 'static {
    fn mk(v: i64) -> Self;
    fn val(&self) -> i64;
    fn insert(l: &mut MutableBTreeMapLockMut<Self, Self>, k: Self, v: Self) -> Option<Self>;
    fn replace(l: &mut MutableBTreeMapLockMut<Self, Self>, m: BTreeMap<Self, Self>);
    fn sub(m: &MutableBTreeMap<Self, Self>) -> BoxMap<Self>;
    fn entries(m: &MutableBTreeMap<Self, Self>) -> BoxEntries<Self>;
    /// Written out and read back with serde.
    fn serde(_m: &MutableBTreeMap<Self, Self>) -> Option<(J, MutableBTreeMap<Self, Self>)> {
        None
    }
}
impl El for i64 {
    fn mk(v: i64) -> i64 {
        v
    }
    fn val(&self) -> i64 {
        *self
    }
    fn insert(l: &mut MutableBTreeMapLockMut<i64, i64>, k: i64, v: i64) -> Option<i64> {
        l.insert(k, v)
    }
    fn replace(l: &mut MutableBTreeMapLockMut<i64, i64>, m: BTreeMap<i64, i64>) {
        l.replace(m)
    }
    fn sub(m: &MutableBTreeMap<i64, i64>) -> BoxMap<i64> {
        Box::pin(m.signal_map())
    }
    fn entries(m: &MutableBTreeMap<i64, i64>) -> BoxEntries<i64> {
        Box::pin(m.signal_vec_entries())
    }
    fn serde(m: &MutableBTreeMap<i64, i64>) -> Option<(J, MutableBTreeMap<i64, i64>)> {
        let t = serde_json::to_string(m).expect("serialize");
        Some((serde_json::from_str(&t).expect("JSON"), serde_json::from_str(&t).expect("deserialize")))
    }
}
impl El for Tr {
    fn mk(v: i64) -> Tr {
        Tr::new(v)
    }
    fn val(&self) -> i64 {
        self.v
    }
    fn insert(l: &mut MutableBTreeMapLockMut<Tr, Tr>, k: Tr, v: Tr) -> Option<Tr> {
        l.insert_cloned(k, v)
    }
    fn replace(l: &mut MutableBTreeMapLockMut<Tr, Tr>, m: BTreeMap<Tr, Tr>) {
        l.replace_cloned(m)
    }
    fn sub(m: &MutableBTreeMap<Tr, Tr>) -> BoxMap<Tr> {
        Box::pin(m.signal_map_cloned())
    }
    fn entries(m: &MutableBTreeMap<Tr, Tr>) -> BoxEntries<Tr> {
        Box::pin(m.entries_cloned())
    }
}

fn map_of<T: El>(es: &J) -> BTreeMap<T, T> {
    es.as_array().unwrap().iter().map(|e| (T::mk(e[0].as_i64().unwrap()), T::mk(e[1].as_i64().unwrap()))).collect()
}
fn jopt<T: El>(v: &Option<T>) -> J {
    v.as_ref().map_or(json!([]), |v| json!([v.val()]))
}
fn jentry<T: El>(e: &(T, T)) -> J {
    json!([e.0.val(), e.1.val()])
}
fn jkey<T: El>(e: &T) -> J {
    json!(e.val())
}
fn eq(what: &str, got: J, exp: &J) -> R {
    if &got == exp {
        Ok(())
    } else {
        Err(format!("{} is {} but the specification says {}", what, got, exp))
    }
}

/// One operation through a write lock.
fn lock_op<T: El>(l: &mut MutableBTreeMapLockMut<T, T>, op: &J) -> J {
    match s(op, "op") {
        "insert" => jopt(&T::insert(l, T::mk(i(op, "k")), T::mk(i(op, "v")))),
        "remove" => jopt(&l.remove(&T::mk(i(op, "k")))),
        "clear" => {
            l.clear();
            json!([])
        }
        "replace" => {
            T::replace(l, map_of(&op["es"]));
            json!([])
        }
        o => panic!("VPHARNESS: unknown op {}", o),
    }
}
/// More subscribers while a key is inserted, updated and removed; half of them leave in between.
fn crowd<T: El>(m: &MutableBTreeMap<T, T>, op: &J) {
    let k = i(op, "k");
    let mut crowd: Vec<Slot> =
        (0..u(op, "n")).map(|j| Slot::new_b(&format!("crowd {}", j), MapView::new(T::sub(m)).replica(jmap(&m.lock_ref())))).collect();
    for round in 0..4 {
        let exp = jmap(&m.lock_ref());
        for sl in crowd.iter_mut() {
            sl.run(usize::MAX)
                .and_then(|_| sl.view.check(&exp, true))
                .unwrap_or_else(|e| panic!("{} of {}, round {}: {}", sl.name, op["n"], round, e));
        }
        let note = |crowd: &mut Vec<Slot>| crowd.iter_mut().for_each(|sl| sl.view.note(&jmap(&m.lock_ref()), false).unwrap());
        match round {
            0 | 1 => {
                T::insert(&mut m.lock_mut(), T::mk(k), T::mk(round));
                note(&mut crowd);
                if round == 0 {
                    let mut j = 0;
                    crowd.retain(|_| {
                        j += 1;
                        j % 2 == 0
                    });
                }
            }
            2 => {
                m.lock_mut().remove(&T::mk(k));
                note(&mut crowd);
            }
            _ => {}
        }
    }
}

enum Src<T: El> {
    Mut(Vec<MutableBTreeMap<T, T>>),
    Hub(Hub<MapDiff<T, T>>, BTreeMap<T, T>, usize, Initial),
}
impl<T: El> Src<T> {
    fn pick(&self, n: usize) -> Option<MutableBTreeMap<T, T>> {
        match self {
            Src::Mut(h) if !h.is_empty() => Some(h[n % h.len()].clone()),
            _ => None,
        }
    }
    fn now(&self) -> BTreeMap<T, T> {
        match self {
            Src::Mut(h) => h.first().map(|m| (*m.lock_ref()).clone()).unwrap_or_default(),
            Src::Hub(_, m, ..) => m.clone(),
        }
    }
    fn open(&self) -> bool {
        match self {
            Src::Mut(h) => !h.is_empty(),
            Src::Hub(_, _, n, _) => *n > 0,
        }
    }
    fn sub(&self) -> BoxMap<T> {
        match self {
            Src::Mut(h) => T::sub(&h[h.len() - 1]),
            Src::Hub(h, m, _, eager) => {
                let entries: Vec<(T, T)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                Box::pin(HubMap(h.subscribe(eager.map_diffs(entries))))
            }
        }
    }
    fn apply(&mut self, turn: usize, op: &J) -> J {
        let name = s(op, "op");
        match self {
            Src::Mut(h) => {
                if name == "clone" {
                    let c = h[0].clone();
                    h.push(c);
                    return json!([]);
                }
                if name == "drop" {
                    // drop the oldest one: the last one standing is a clone
                    drop(h.remove(0));
                    return json!([]);
                }
                if name == "handles" {
                    let mut more: Vec<_> = (0..u(op, "n")).map(|_| h[0].clone()).collect();
                    std::mem::swap(&mut h[0], &mut more[0]);
                    more.into_iter().rev().for_each(drop);
                    return json!([]);
                }
                let m = h[turn % h.len()].clone();
                if name == "crowd" {
                    crowd(&m, op);
                    return json!([]);
                }
                let mut l = m.lock_mut();
                if name == "batch" {
                    return J::Array(op["ops"].as_array().unwrap().iter().map(|o| lock_op(&mut l, o)).collect());
                }
                lock_op(&mut l, op)
            }
            Src::Hub(h, m, n, _) => {
                match name {
                    "batch" => return J::Array(op["ops"].as_array().unwrap().iter().map(|o| self.apply(turn, o)).collect()),
                    "handles" => {}
                    "crowd" => {
                        for v in 0..2 {
                            self.apply(turn, &json!({"op": "insert", "k": op["k"], "v": v}));
                        }
                        self.apply(turn, &json!({"op": "remove", "k": op["k"]}));
                    }
                    "clone" => *n += 1,
                    "drop" => {
                        *n -= 1;
                        if *n == 0 {
                            h.close()
                        }
                    }
                    "insert" => {
                        let (k, v) = (T::mk(i(op, "k")), T::mk(i(op, "v")));
                        let old = m.insert(k.clone(), v.clone());
                        h.send(|| {
                            if old.is_some() {
                                MapDiff::Update { key: k.clone(), value: v.clone() }
                            } else {
                                MapDiff::Insert { key: k.clone(), value: v.clone() }
                            }
                        });
                        return jopt(&old);
                    }
                    "remove" => {
                        let k = T::mk(i(op, "k"));
                        let old = m.remove(&k);
                        if old.is_some() {
                            h.send(|| MapDiff::Remove { key: k.clone() });
                        }
                        return jopt(&old);
                    }
                    "clear" => {
                        m.clear();
                        h.send(|| MapDiff::Clear {});
                    }
                    _ => {
                        *m = map_of(&op["es"]);
                        h.send(|| MapDiff::Replace { entries: m.iter().map(|(k, v)| (k.clone(), v.clone())).collect() });
                    }
                }
                json!([])
            }
        }
    }
    fn from_cfg(cfg: &J) -> Src<T> {
        match s(cfg, "src") {
            "hub" => Src::Hub(Hub::new(cfg["selfwake"].as_u64().unwrap_or(0) as usize), BTreeMap::new(), 1, Initial::of(&cfg["eager"])),
            _ => Src::Mut(vec![match cfg["ctor"].as_u64() {
                Some(1) => MutableBTreeMap::with_values(BTreeMap::new()),
                Some(2) => MutableBTreeMap::from(BTreeMap::new()),
                Some(3) => MutableBTreeMap::default(),
                _ => MutableBTreeMap::new(),
            }]),
        }
    }
}

/// Everything that can be read through a lock must agree with the specification.
fn check_reads<T: El>(m: &MutableBTreeMap<T, T>, exp: &J) -> R {
    let want: BTreeMap<T, T> = map_of(exp);
    {
        let l = m.lock_ref();
        eq("lock_ref()", jmap(&l), exp)?;
        if !(*l == want && !(*l != want)) {
            return Err("lock_ref() does not equal the map it holds".into());
        }
        if l.partial_cmp(&want) != Some(std::cmp::Ordering::Equal) {
            return Err("lock_ref() does not compare as equal to the map it holds".into());
        }
        let mut more = want.clone();
        more.insert(T::mk(1_000), T::mk(0));
        if *l == more || l.partial_cmp(&more) != want.partial_cmp(&more) {
            return Err("lock_ref() compares wrongly with a larger map".into());
        }
        for (k, v) in want.iter() {
            if l[k] != *v || l.get(k) != Some(v) {
                return Err("indexing gives another value".into());
            }
        }
        let (mut a, mut b) = (DefaultHasher::new(), DefaultHasher::new());
        l.hash(&mut a);
        want.hash(&mut b);
        if a.finish() != b.finish() {
            return Err("the hash differs from the hash of the map".into());
        }
        let l2 = m.lock_ref();
        if !(l == l2) || l.cmp(&l2) != std::cmp::Ordering::Equal {
            return Err("two locks of one map are not equal".into());
        }
    }
    {
        let l = m.lock_mut();
        eq("lock_mut()", jmap(&l), exp)?;
        if *l != want {
            return Err("lock_mut() does not equal the map it holds".into());
        }
    }
    if let Some((j, back)) = T::serde(m) {
        let plain: J = want.iter().map(|(k, v)| (k.val().to_string(), json!(v.val()))).collect::<serde_json::Map<_, _>>().into();
        eq("the serialized form", j, &plain)?;
        eq("what was serialized and read back", jmap(&back.lock_ref()), exp)?;
    }
    eq("Debug", json!(format!("{:?}", m)), &json!(format!("MutableBTreeMap({:?})", want)))
}

pub fn make_of<T: El>(cfg: &J) -> Box<dyn Sut> {
    let src: Rc<RefCell<Src<T>>> = Rc::new(RefCell::new(Src::from_cfg(cfg)));
    let cfg = cfg.clone();
    let mk = {
        let (src, cfg) = (src.clone(), cfg.clone());
        move || {
            let mut out = vec![];
            let src = src.borrow();
            if !src.open() {
                return out;
            }
            let now = src.now();
            if want(&cfg, "replica") {
                let v = MapView::new(src.sub());
                out.push(Slot::new_b("replica", if let Src::Mut(_) = &*src { v.replica(jmap(&now)) } else { v }));
            }
            if want(&cfg, "for_each") {
                let mirror = Rc::new(RefCell::new(BTreeMap::new()));
                let err = Rc::new(RefCell::new(Ok(())));
                let (m2, e2) = (mirror.clone(), err.clone());
                let f = src.sub().for_each(move |d| {
                    let r = map_apply(&mut m2.borrow_mut(), d);
                    if e2.borrow().is_ok() {
                        *e2.borrow_mut() = r;
                    }
                    std::future::ready(())
                });
                out.push(Slot::new_b("for_each", ForEachView::new(f, mirror, err, |m: &BTreeMap<T, T>| jmap(m))));
            }
            if want(&cfg, "map_value") {
                let log = Rc::new(RefCell::new(vec![]));
                let l2 = log.clone();
                let mut v = MapView::new(src.sub().map_value(move |v: T| {
                    l2.borrow_mut().push(json!(v.val()));
                    v.val() + 100
                }))
                .with_calls(log);
                v.expect_calls(&Initial::of(&cfg["eager"]).order(now.values().map(|v| json!(v.val())).collect::<Vec<_>>()));
                out.push(Slot::new_b("map_value", v));
            }
            for k in [1, 2] {
                let name = format!("key{}", k);
                if want(&cfg, &name) {
                    out.push(Slot::new_b(&name, SigView::new(src.sub().key_cloned(T::mk(k)), jopt::<T>)));
                }
            }
            if let Some(m) = src.pick(0) {
                if want(&cfg, "keys") {
                    out.push(Slot::new_b("keys", VecView::new(m.signal_vec_keys(), jkey::<T>)));
                }
                if want(&cfg, "entries") {
                    out.push(Slot::new_b("entries", VecView::new(T::entries(&m), jentry::<T>)));
                }
                if want(&cfg, "entries_cloned") {
                    out.push(Slot::new_b("entries_cloned", VecView::new(m.entries_cloned(), jentry::<T>)));
                }
            }
            out
        }
    };
    let apply = {
        let src = src.clone();
        let mut turn = 0;
        move |op: &J, x: &J, sl: &mut Vec<Slot>| -> R {
            turn += 1;
            let r = src.borrow_mut().apply(turn, op);
            for sl in sl.iter_mut() {
                sl.view.expect_calls(x["calls"].as_array().unwrap());
            }
            eq(&format!("the result of {}", op), r, &x["ret"])
        }
    };
    let post = {
        let src = src.clone();
        move |obs: &J, _sl: &mut Vec<Slot>| -> R {
            if let Src::Mut(h) = &*src.borrow() {
                for m in h.iter() {
                    check_reads(m, &obs["contents"])?;
                }
            }
            Ok(())
        }
    };
    let finish = move || -> R {
        *src.borrow_mut() = Src::Mut(vec![]);
        Tr::check_live(0)
    };
    Box::new(Multi::new(mk, apply).with_post(post).with_finish(finish))
}

pub fn make(cfg: &J) -> Box<dyn Sut> {
    match s(cfg, "el") {
        "copy" => make_of::<i64>(cfg),
        _ => make_of::<Tr>(cfg),
    }
}
pub fn configs() -> Vec<J> {
    vec![
        json!({"name": "copy", "src": "mut", "el": "copy", "ctor": 0}),
        json!({"name": "cloned", "src": "mut", "el": "tr", "ctor": 1}),
        json!({"name": "copy-from", "src": "mut", "el": "copy", "ctor": 2}),
        json!({"name": "cloned-default", "src": "mut", "el": "tr", "ctor": 3}),
        json!({"name": "hub", "src": "hub", "el": "copy", "eager": true}),
        json!({"name": "hub-lazy-selfwake2", "src": "hub", "el": "copy", "eager": false, "selfwake": 2}),
        json!({"name": "hub-selfwake3", "src": "hub", "el": "tr", "eager": true, "selfwake": 3}),
        json!({"name": "hub-insert", "src": "hub", "el": "tr", "eager": "insert"}),
        json!({"name": "hub-mixed-selfwake2", "src": "hub", "el": "copy", "eager": "mixed", "selfwake": 2}),
    ]
}

// ------------------------------------------------------------------ map_value_signal
struct Dyn {
    src: Src<i64>,
    sig: BTreeMap<i64, SigSrc>,
}
pub fn make_dyn(cfg: &J) -> Box<dyn Sut> {
    let kind = s(cfg, "sig").to_string();
    let d = Rc::new(RefCell::new(Dyn { src: Src::from_cfg(cfg), sig: (0..12).map(|e| (e, SigSrc::new(&kind, 0))).collect() }));
    let (d1, d2) = (d.clone(), d.clone());
    let cfg = cfg.clone();
    let mk = move || {
        let mut out = vec![];
        if !d1.borrow().src.open() {
            return out;
        }
        let mapped = || {
            let d = d1.clone();
            let sm = d1.borrow().src.sub();
            let (log, called) = logged();
            let f = move |e| {
                called(e);
                d.borrow().sig[&e].sub().map(move |v| e * 10 + v)
            };
            (log, sm.map_value_signal(f))
        };
        if want(&cfg, "map_value_signal") {
            let (log, sm) = mapped();
            let mut v = MapView::new(sm).with_calls(log);
            v.expect_calls(&Initial::of(&cfg["eager"]).order(d1.borrow().src.now().values().map(|v| json!(v)).collect::<Vec<_>>()));
            out.push(Slot::new_b("map_value_signal", v));
        }
        if want(&cfg, "key1") {
            out.push(Slot::new_b("key1", SigView::new(mapped().1.key_cloned(1), jopt::<i64>)));
        }
        out
    };
    let mut turn = 0;
    let apply = move |op: &J, x: &J, sl: &mut Vec<Slot>| -> R {
        expect_calls(sl, x);
        let mut d = d.borrow_mut();
        turn += 1;
        match s(op, "op") {
            "end" => {
                d.src.apply(turn, &json!({"op": "drop"}));
            }
            "sig" => d.sig.get_mut(&i(op, "e")).unwrap().set(i(op, "v")),
            "close" => d.sig.get_mut(&i(op, "e")).unwrap().close(),
            _ => {
                d.src.apply(turn, op);
            }
        }
        Ok(())
    };
    let post = move |obs: &J, sl: &mut Vec<Slot>| -> R { held_at_most(obs, sl.len(), "signals", |e| d2.borrow().sig[&e].live()) };
    Box::new(Multi::new(mk, apply).with_post(post))
}
pub fn configs_dyn() -> Vec<J> {
    vec![
        json!({"name": "hub", "src": "hub", "eager": true, "sig": "hub"}),
        json!({"name": "hub-queue", "src": "hub", "eager": false, "sig": "queue"}),
        json!({"name": "hub-insert", "src": "hub", "eager": "push", "sig": "hub"}),
        json!({"name": "hub-mixed", "src": "hub", "eager": "mixed", "selfwake": 2, "sig": "mut"}),
        json!({"name": "hub-selfwake2", "src": "hub", "eager": true, "selfwake": 2, "sig": "queue-sw2"}),
        json!({"name": "hub-selfwake3", "src": "hub", "eager": false, "selfwake": 3, "sig": "hub-sw3"}),
        json!({"name": "mutable", "src": "mut", "sig": "mut"}),
    ]
}
