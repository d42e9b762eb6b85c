//! Compose.tla: pipelines of any stages, built at run time.
use super::sigsrc::SigSrc;
use super::vec::Src;
use crate::core::*;
use futures_signals::signal::{self, Broadcaster, Signal, SignalExt};
use futures_signals::signal_map::{self, MapDiff, MutableBTreeMap, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{self, SignalVec, SignalVecExt};
use futures_signals::{map_mut, map_ref};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

type BV = Pin<Box<dyn SignalVec<Item = i64>>>;
type BS = Pin<Box<dyn Signal<Item = Vec<i64>>>>;
type BM = Pin<Box<dyn SignalMap<Key = i64, Value = i64>>>;

/// Ready at once, or after waking itself once.
struct Later(bool);
impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if std::mem::replace(&mut self.0, false) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
}

enum MapSrc {
    Hub(Hub<MapDiff<i64, i64>>, BTreeMap<i64, i64>, Initial),
    Mut(Option<MutableBTreeMap<i64, i64>>),
}
impl MapSrc {
    fn sub(&self) -> BM {
        match self {
            MapSrc::Hub(h, m, eager) => {
                let entries: Vec<(i64, i64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
                Box::pin(HubMap(h.subscribe(eager.map_diffs(entries))))
            }
            MapSrc::Mut(m) => Box::pin(m.as_ref().unwrap().signal_map()),
        }
    }
    /// The keys and entries vectors exist for a MutableBTreeMap only.
    fn entries(&self) -> Pin<Box<dyn SignalVec<Item = (i64, i64)>>> {
        match self {
            MapSrc::Mut(m) => Box::pin(m.as_ref().unwrap().entries_cloned()),
            _ => panic!("VPHARNESS: entries of a hub"),
        }
    }
    fn apply(&mut self, op: &J) {
        let name = s(op, "op");
        match self {
            MapSrc::Mut(m) => {
                let mut l = m.as_ref().unwrap().lock_mut();
                match name {
                    "minsert" => drop(l.insert(i(op, "k"), i(op, "v"))),
                    "mremove" => drop(l.remove(&i(op, "k"))),
                    _ => l.replace(pairs(&op["es"]).into_iter().collect()),
                }
            }
            MapSrc::Hub(h, m, _) => match name {
                "minsert" => {
                    let (key, value) = (i(op, "k"), i(op, "v"));
                    if m.insert(key, value).is_some() {
                        h.send(|| MapDiff::Update { key, value })
                    } else {
                        h.send(|| MapDiff::Insert { key, value })
                    }
                }
                "mremove" => {
                    let key = i(op, "k");
                    m.remove(&key);
                    h.send(|| MapDiff::Remove { key })
                }
                _ => {
                    let entries = pairs(&op["es"]);
                    *m = entries.iter().copied().collect();
                    h.send(|| if entries.is_empty() { MapDiff::Clear {} } else { MapDiff::Replace { entries: entries.clone() } })
                }
            },
        }
    }
    fn close(&mut self) {
        match self {
            MapSrc::Mut(m) => *m = None,
            MapSrc::Hub(h, ..) => h.close(),
        }
    }
}
fn pairs(es: &J) -> Vec<(i64, i64)> {
    es.as_array().unwrap().iter().map(|e| (e[0].as_i64().unwrap(), e[1].as_i64().unwrap())).collect()
}

struct World {
    a: Src,
    b: VecHub,
    g: Vec<SigSrc>,
    t: SigSrc,
    m: MapSrc,
    p: (Vec<i64>, Hub<i64>),
    closed: bool,
}
type W = Rc<RefCell<World>>;
fn g(w: &W, k: i64) -> super::sigsrc::BoxSig {
    let w = w.borrow();
    let n = w.g.len() as i64;
    w.g[(k % n) as usize].sub()
}
fn t(w: &W) -> super::sigsrc::BoxSig {
    w.borrow().t.sub()
}
fn b(w: &W) -> BV {
    Box::pin(w.borrow().b.subscribe())
}

fn start(w: &W, n: &str) -> BV {
    match n {
        "A" => w.borrow().a.subscribe(),
        "keys" => {
            let sv = match &w.borrow().m {
                MapSrc::Mut(m) => m.as_ref().unwrap().signal_vec_keys(),
                _ => panic!("VPHARNESS: keys of a hub"),
            };
            Box::pin(sv)
        }
        "entries" => Box::pin(w.borrow().m.entries().map(|(k, v)| (k * 3 + v) % 10)),
        "mvs" => {
            let w2 = w.clone();
            let sm = w.borrow().m.sub().map_value_signal(move |v| g(&w2, v).map(move |x| (v + x) % 10));
            Box::pin(MapVec { sm: Box::pin(sm), now: BTreeMap::new() }.to_signal_vec())
        }
        "keyc" => Box::pin(w.borrow().m.sub().key_cloned(1).map(|o| o.into_iter().collect::<Vec<i64>>()).to_signal_vec()),
        "tsig" => Box::pin(t(w).map(|v| vec![v, 7]).to_signal_vec()),
        "pushes" => {
            let w = w.borrow();
            let before = futures_util::stream::iter(w.p.0.clone());
            Box::pin(signal_vec::from_stream(futures_util::StreamExt::chain(before, HubStream(w.p.1.subscribe(None)))))
        }
        "fixed" => signal_vec::always(vec![3, 1, 2]).boxed(),
        "mfixed" => {
            let sm = signal_map::always([(1, 2), (2, 6)]).boxed().map_value(|v| v + 1);
            Box::pin(MapVec { sm: Box::pin(sm), now: BTreeMap::new() }.to_signal_vec())
        }
        "kfixed" => Box::pin(signal_map::always(vec![(1, 2), (2, 6)]).key_cloned(2).boxed().map(|o| o.into_iter().collect::<Vec<i64>>()).to_signal_vec()),
        o => panic!("VPHARNESS: start {}", o),
    }
}
/// Turns a signal map into the vector of (key + value).
struct MapVec {
    sm: BM,
    now: BTreeMap<i64, i64>,
}
impl Signal for MapVec {
    type Item = Vec<i64>;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Vec<i64>>> {
        let me = &mut *self;
        me.sm.as_mut().poll_map_change(cx).map(|d| {
            d.map(|d| {
                map_apply(&mut me.now, d).unwrap_or_else(|e| panic!("{}", e));
                me.now.iter().map(|(k, v)| (k + v) % 10).collect()
            })
        })
    }
}
/// The stream of diffs of a vector as a vector again.
struct StreamVec(Pin<Box<dyn futures_core::Stream<Item = signal_vec::VecDiff<i64>>>>);
impl SignalVec for StreamVec {
    type Item = i64;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<signal_vec::VecDiff<i64>>> {
        self.0.as_mut().poll_next(cx)
    }
}
fn push(mut v: Vec<i64>, x: i64) -> Vec<i64> {
    v.push(x);
    v
}
fn stage(w: &W, n: &str, sv: BV) -> BV {
    fn sig(s: impl Signal<Item = Vec<i64>> + 'static) -> BV {
        Box::pin(s.to_signal_vec())
    }
    let vs = |sv: BV| -> BS { Box::pin(sv.to_signal_cloned()) };
    let w2 = w.clone();
    match n {
        "map" => Box::pin(sv.map(|v| (v * 3 + 1) % 10)),
        "filter" => Box::pin(sv.filter(|v| v % 2 == 0)),
        "filter_map" => Box::pin(sv.filter_map(|v| if v % 3 != 0 { Some((v + 5) % 10) } else { None })),
        "sort" => Box::pin(sv.sort_by_cloned(|a, b| a.cmp(b))),
        "delay" => Box::pin(sv.delay_remove(|_| Later(false))),
        "delay_late" => Box::pin(sv.delay_remove(|_| Later(true))),
        "to_sig" => sig(vs(sv)),
        "to_sig_map" => sig(sv.to_signal_map(|v| v.iter().rev().copied().collect())),
        "len" => sig(sv.len().map(|n| (1..=n as i64).map(|i| i % 10).collect())),
        "sum" => sig(sv.sum().map(|n| vec![n % 10])),
        "empty" => sig(sv.is_empty().map(|b| vec![b as i64])),
        "bcast" => sig(vs(sv).broadcast().signal_cloned()),
        "stream" => sig(signal::from_stream(vs(sv).to_stream()).map(|o| o.unwrap_or_default())),
        "vstream" => Box::pin(StreamVec(Box::pin(sv.to_stream()))),
        "sig_map" => sig(vs(sv).map(|v| v.into_iter().rev().collect())),
        "dedupe" => sig(vs(sv).dedupe_cloned()),
        "dedupe_map" => sig(vs(sv).dedupe_map(|v| vec![v.len() as i64])),
        "inspect" => sig(vs(sv).inspect(|_| ())),
        "vdebug" => sig(sv.debug().boxed_local().to_signal_cloned().debug().boxed_local()),
        "option" => sig(signal::option(Some(vs(sv))).map(|o| o.unwrap())),
        "future" | "future_late" => {
            let late = n == "future_late";
            sig(vs(sv)
                .map_future(move |v| async move {
                    Later(late).await;
                    v
                })
                .map(|o| o.unwrap_or_default()))
        }
        "throttle" => sig(vs(sv).throttle(|| Later(false))),
        "throttle_late" => sig(vs(sv).throttle(|| Later(true))),
        "tee" => {
            let bc = Broadcaster::new(vs(sv));
            Box::pin(bc.signal_cloned().to_signal_vec().chain(bc.signal_cloned().to_signal_vec()))
        }
        "diamond" => {
            let bc = Broadcaster::new(vs(sv));
            let (l, r) = (bc.signal_cloned(), bc.signal_ref(|v| v.len() as i64 % 10));
            sig(map_ref!(l, r => push(l.clone(), *r)))
        }
        "chain_b" => Box::pin(sv.chain(b(w))),
        "b_chain" => Box::pin(b(w).chain(sv)),
        "flat" => Box::pin(
            sv.map(move |v| -> BV {
                match v % 3 {
                    0 => Box::pin(signal_vec::always(vec![])),
                    1 => b(&w2),
                    _ => Box::pin(signal_vec::always(vec![v, (v + 1) % 10])),
                }
            })
            .flatten(),
        ),
        "flat_b" => {
            let bc = Broadcaster::new(vs(sv));
            Box::pin(b(w).map(move |_| bc.signal_cloned().to_signal_vec()).flatten())
        }
        "map_sig" => Box::pin(sv.map_signal(move |v| g(&w2, v).map(move |x| (v + x) % 10))),
        "filter_sig" => Box::pin(sv.filter_signal_cloned(move |v| g(&w2, *v).map(|x| x == 1))),
        "sig_flat" => sig(vs(sv).map(move |v| g(&w2, v.len() as i64).map(move |x| push(v.clone(), x))).flatten()),
        "sig_ref" => {
            let (l, r) = (vs(sv), g(w, 0));
            sig(map_ref!(l, r => l.iter().map(|v| (v + *r) % 10).collect::<Vec<i64>>()))
        }
        "switch" => {
            let bc = Broadcaster::new(vs(sv));
            Box::pin(t(w).switch_signal_vec(move |t| -> BV {
                match t {
                    0 => Box::pin(bc.signal_cloned().to_signal_vec()),
                    1 => b(&w2),
                    _ => Box::pin(signal_vec::always(vec![])),
                }
            }))
        }
        "sig_switch" => sig(vs(sv).switch(move |v| t(&w2).map(move |x| push(v.clone(), x)))),
        "mapref" => {
            let (l, r) = (vs(sv), t(w));
            sig(map_ref!(l, r => push(l.clone(), *r)))
        }
        "mapmut" => {
            let (l, r) = (vs(sv), t(w));
            sig(map_mut! {
                let a = l,
                let b = r =>
                push(a.clone(), *b)
            })
        }
        "guard" => {
            let bc = Broadcaster::new(vs(sv));
            let on = signal::and(signal::not(t(w).map(|v| v != 0)), signal::not(bc.signal_ref(|v| v.is_empty())));
            let l = bc.signal_cloned();
            sig(map_ref!(l, on => if *on { l.clone() } else { vec![9] }))
        }
        "enum" => Box::pin(sv.enumerate().map_signal(|(i, v)| i.signal().map(move |i| (v + i.unwrap_or(0) as i64) % 10))),
        o => panic!("VPHARNESS: stage {}", o),
    }
}

struct Compose {
    w: W,
    pipe: Vec<String>,
    slots: Vec<Slot>,
    cfg: J,
}
impl Compose {
    fn build(&mut self) {
        // (some sources cannot be subscribed to any more once they are closed)
        if self.pipe.is_empty() || self.w.borrow().closed || self.slots.len() >= 3 {
            return;
        }
        let mut sv = start(&self.w, &self.pipe[0]);
        for n in &self.pipe[1..] {
            sv = stage(&self.w, n, sv);
        }
        self.slots.push(Slot::new_b("out", VecView::new(sv, ji)));
    }
}
impl Sut for Compose {
    fn apply(&mut self, op: &J, _x: &J) -> R {
        match s(op, "op") {
            "build" => {
                self.w.borrow_mut().g.truncate(u(op, "ng"));
                self.pipe = op["p"].as_array().unwrap().iter().map(|n| n.as_str().unwrap().to_string()).collect();
                if ["keys", "entries"].contains(&self.pipe[0].as_str()) {
                    self.w.borrow_mut().m = MapSrc::Mut(Some(MutableBTreeMap::new()));
                } else if self.cfg["m"] == "mut" {
                    self.w.borrow_mut().m = MapSrc::Mut(Some(MutableBTreeMap::new()));
                }
                self.build();
            }
            "idle" => {}
            "vec" if s(op, "x") == "A" => self.w.borrow_mut().a.apply(&op["d"]),
            "vec" => self.w.borrow_mut().b.apply(&op["d"]),
            "sig" => self.w.borrow_mut().g[u(op, "k")].set(i(op, "v")),
            "emit" => {
                let mut w = self.w.borrow_mut();
                w.p.0.push(i(op, "v"));
                w.p.1.send(|| i(op, "v"));
            }
            "sel" => self.w.borrow_mut().t.set(i(op, "v")),
            "close" => {
                let mut w = self.w.borrow_mut();
                w.closed = true;
                match s(op, "x") {
                    "A" => w.a.end(),
                    "B" => w.b.hub.close(),
                    "G" => w.g.iter_mut().for_each(|g| g.close()),
                    "T" => w.t.close(),
                    "P" => w.p.1.close(),
                    _ => w.m.close(),
                }
            }
            _ => self.w.borrow_mut().m.apply(op),
        }
        Ok(())
    }
    fn slots(&mut self) -> &mut Vec<Slot> {
        &mut self.slots
    }
    fn subscribe(&mut self) {
        self.build()
    }
    fn unsubscribe(&mut self, i: usize) {
        if self.slots.len() > 1 {
            let n = self.slots.len();
            self.slots.remove(i % n);
        }
    }
    fn finish(&mut self) -> R {
        let flags: Vec<_> = self.slots.iter().map(|s| s.flag_arc()).collect();
        self.slots.clear();
        self.w = Rc::new(RefCell::new(world(&self.cfg)));
        if flags.iter().any(|f| std::sync::Arc::strong_count(f) != 1) {
            return Err("a waker is still held although the pipeline and its sources are gone".into());
        }
        Ok(())
    }
}
fn world(cfg: &J) -> World {
    let sw = cfg["selfwake"].as_u64().unwrap_or(0) as usize;
    let mut b = VecHub::new(sw, Initial::of(&cfg["eager"]));
    b.hub.late = cfg["late"] == true;
    let mut mh = Hub::new(sw);
    mh.late = cfg["late"] == true;
    World {
        a: Src::from_cfg(&json!({"src": cfg["a"], "selfwake": sw, "eager": cfg["eager"]})),
        b,
        g: (0..4).map(|_| SigSrc::new(s(cfg, "sig"), 0)).collect(),
        t: SigSrc::new(s(cfg, "sig"), 0),
        m: MapSrc::Hub(mh, BTreeMap::new(), Initial::of(&cfg["eager"])),
        p: (vec![], Hub::new(sw)),
        closed: false,
    }
}
pub fn make(cfg: &J) -> Box<dyn Sut> {
    Box::new(Compose { w: Rc::new(RefCell::new(world(cfg))), pipe: vec![], slots: vec![], cfg: cfg.clone() })
}
pub fn configs() -> Vec<J> {
    vec![
        json!({"name": "hub", "a": "hub", "eager": true, "sig": "hub", "m": "hub"}),
        json!({"name": "mutable", "a": "copy", "eager": false, "sig": "mut", "m": "mut"}),
        json!({"name": "selfwake2", "a": "hub", "eager": false, "selfwake": 2, "sig": "hub-sw2", "m": "hub"}),
        json!({"name": "selfwake3-late", "a": "hub", "eager": true, "selfwake": 3, "late": true, "sig": "queue-sw2", "m": "hub"}),
        json!({"name": "push", "a": "hub", "eager": "push", "sig": "hub", "m": "mut"}),
        json!({"name": "mixed-selfwake2", "a": "hub", "eager": "mixed", "selfwake": 2, "sig": "mut", "m": "hub"}),
        json!({"name": "chan", "a": "cloned", "eager": true, "sig": "chan", "m": "mut"}),
        json!({"name": "bc", "a": "copy", "eager": true, "sig": "bc", "m": "hub"}),
    ]
}
