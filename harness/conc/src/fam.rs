//! The object families: how an operation of a scenario is performed on the library.
use futures_signals::signal::{channel, Broadcaster, Mutable, MutableSignal, MutableSignalCloned, ReadOnlyMutable, Receiver, Sender, Signal, SignalExt};
use futures_signals::signal_map::{MapDiff, MutableBTreeMap, MutableBTreeMapLockMut, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{MutableVec, MutableVecLockMut, SignalVec, SignalVecExt, VecDiff};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub trait Ctx: Send {
    fn exec(&mut self, op: &J) -> String;
    fn poll(&mut self, o: i64, cx: &mut Context) -> String;
}

#[derive(Default)]
pub struct Live {
    values: AtomicI64,
    twice: AtomicBool,
    pub callbacks: AtomicI64,
    pub inner: AtomicI64,
}
impl Live {
    pub fn summary(&self) -> String {
        format!(
            "live{}{} cb{} in{}",
            self.values.load(Ordering::SeqCst),
            if self.twice.load(Ordering::SeqCst) { "!" } else { "" },
            self.callbacks.load(Ordering::SeqCst),
            self.inner.load(Ordering::SeqCst)
        )
    }
}

/// A counted value.
pub struct P {
    v: i64,
    live: Option<Arc<Live>>,
    dropped: bool,
}
impl P {
    fn new(v: i64, l: &Arc<Live>) -> P {
        l.values.fetch_add(1, Ordering::SeqCst);
        P { v, live: Some(l.clone()), dropped: false }
    }
}
impl Clone for P {
    fn clone(&self) -> P {
        crate::user_step();
        if let Some(l) = &self.live {
            l.values.fetch_add(1, Ordering::SeqCst);
        }
        P { v: self.v, live: self.live.clone(), dropped: false }
    }
}
impl Default for P {
    fn default() -> P {
        P { v: 0, live: None, dropped: false }
    }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        self.v == o.v
    }
}
impl Drop for P {
    fn drop(&mut self) {
        if let Some(l) = &self.live {
            if std::mem::replace(&mut self.dropped, true) {
                l.twice.store(true, Ordering::SeqCst);
            }
            l.values.fetch_sub(1, Ordering::SeqCst);
        }
    }
}

/// The flavours of values: counted ones, which are cloned (the `_cloned` methods), and plain
/// ones, which are copied (the methods without suffix).
pub trait Val: PartialEq + Default + Clone + Send + Sync + 'static {
    type MutSig: Signal<Item = Self> + Send + Sync + 'static;
    fn make(v: i64, l: &Arc<Live>) -> Self;
    fn v(&self) -> i64;
    fn mut_signal(m: &ReadOnlyMutable<Self>) -> Self::MutSig;
    fn bc_signal(b: &Broadcaster<Self::MutSig>) -> BoxSig<Self>;
    fn get(m: &ReadOnlyMutable<Self>) -> Self;
    fn vec_signal(m: &MutableVec<Self>) -> Pin<Box<dyn SignalVec<Item = Self> + Send>>;
    fn push(g: &mut MutableVecLockMut<Self>, v: Self);
    fn insert(g: &mut MutableVecLockMut<Self>, i: usize, v: Self);
    fn set(g: &mut MutableVecLockMut<Self>, i: usize, v: Self);
    fn replace(g: &mut MutableVecLockMut<Self>, v: Vec<Self>);
    fn map_signal(m: &MutableBTreeMap<i64, Self>) -> Pin<Box<dyn SignalMap<Key = i64, Value = Self> + Send>>;
    fn map_insert(g: &mut MutableBTreeMapLockMut<i64, Self>, k: i64, v: Self) -> Option<Self>;
    fn map_replace(g: &mut MutableBTreeMapLockMut<i64, Self>, m: BTreeMap<i64, Self>);
}
macro_rules! flavour {
    ($t:ty, $sig:ident, $make:expr, $signal:ident, $get:ident, $vsignal:ident, $push:ident, $insert:ident, $set:ident, $replace:ident, $msignal:ident) => {
        impl Val for $t {
            type MutSig = $sig<$t>;
            fn make(v: i64, l: &Arc<Live>) -> Self {
                ($make)(v, l)
            }
            fn v(&self) -> i64 {
                self.v
            }
            fn mut_signal(m: &ReadOnlyMutable<Self>) -> Self::MutSig {
                m.$signal()
            }
            fn bc_signal(b: &Broadcaster<Self::MutSig>) -> BoxSig<Self> {
                b.$signal().boxed()
            }
            fn get(m: &ReadOnlyMutable<Self>) -> Self {
                m.$get()
            }
            fn vec_signal(m: &MutableVec<Self>) -> Pin<Box<dyn SignalVec<Item = Self> + Send>> {
                m.$vsignal().boxed()
            }
            fn push(g: &mut MutableVecLockMut<Self>, v: Self) {
                g.$push(v)
            }
            fn insert(g: &mut MutableVecLockMut<Self>, i: usize, v: Self) {
                g.$insert(i, v)
            }
            fn set(g: &mut MutableVecLockMut<Self>, i: usize, v: Self) {
                g.$set(i, v)
            }
            fn replace(g: &mut MutableVecLockMut<Self>, v: Vec<Self>) {
                g.$replace(v)
            }
            fn map_signal(m: &MutableBTreeMap<i64, Self>) -> Pin<Box<dyn SignalMap<Key = i64, Value = Self> + Send>> {
                m.$msignal().boxed()
            }
            fn map_insert(g: &mut MutableBTreeMapLockMut<i64, Self>, k: i64, v: Self) -> Option<Self> {
                g.$insert(k, v)
            }
            fn map_replace(g: &mut MutableBTreeMapLockMut<i64, Self>, m: BTreeMap<i64, Self>) {
                g.$replace(m)
            }
        }
    };
}

flavour!(P, MutableSignalCloned, P::new, signal_cloned, get_cloned, signal_vec_cloned, push_cloned, insert_cloned, set_cloned, replace_cloned, signal_map_cloned);
/// A plain value.
#[derive(Clone, Copy, Default, PartialEq)]
pub struct C {
    v: i64,
}
flavour!(C, MutableSignal, |v, _: &Arc<Live>| C { v }, signal, get, signal_vec, push, insert, set, replace, signal_map);

fn i(op: &J, k: &str) -> i64 {
    op[k].as_i64().unwrap_or_else(|| panic!("VPHARNESS: no {} in {}", k, op))
}
fn u(op: &J, k: &str) -> usize {
    i(op, k) as usize
}
fn name(op: &J) -> &str {
    op["op"].as_str().unwrap()
}
fn seq(v: impl Iterator<Item = i64>) -> String {
    let v: Vec<String> = v.map(|x| x.to_string()).collect();
    if v.is_empty() {
        "<<>>".into()
    } else {
        format!("<<{}>>", v.join(", "))
    }
}

/// What the specification has to know about the initial state.
pub fn init_of(scen: &J) -> J {
    scen["init"].clone()
}

pub fn make(scen: &J, live: &Arc<Live>) -> Vec<Box<dyn Ctx>> {
    match scen["kind"].as_str().unwrap() {
        "mut" if scen["copy"] == true => make_mut::<C>(scen, live),
        "mut" => make_mut::<P>(scen, live),
        "chan" => make_chan(scen, live),
        "vec" if scen["copy"] == true => make_vec::<C>(scen, live),
        "vec" => make_vec::<P>(scen, live),
        "map" if scen["copy"] == true => make_map::<C>(scen, live),
        "map" => make_map::<P>(scen, live),
        "cancel" => make_cancel(scen, live),
        k => panic!("VPHARNESS: kind {}", k),
    }
}
fn nthreads(scen: &J) -> usize {
    scen["threads"].as_array().unwrap().len()
}

// ------------------------------------------------------------------ Mutable and Broadcaster
type BoxSig<V> = Pin<Box<dyn Signal<Item = V> + Send>>;
struct MutCtx<V: Val> {
    handles: Vec<Vec<Mutable<V>>>,
    ro: Vec<ReadOnlyMutable<V>>,
    bc: Option<Broadcaster<V::MutSig>>,
    obs: BTreeMap<i64, BoxSig<V>>,
    live: Arc<Live>,
}
impl<V: Val> MutCtx<V> {
    fn sub(&self, m: usize, how: i64) -> BoxSig<V> {
        match (&self.bc, how % 2) {
            (None, 0) => Box::pin(V::mut_signal(&self.ro[m])),
            (None, _) => Box::pin(self.ro[m].signal_ref(|v| v.clone())),
            (Some(b), 0) => V::bc_signal(b),
            (Some(b), _) => Box::pin(b.signal_ref(|v| v.clone())),
        }
    }
    fn h(&self, op: &J, k: &str) -> &Mutable<V> {
        self.handles[u(op, k)].last().unwrap_or_else(|| panic!("VPHARNESS: no handle for {}", op))
    }
}
fn make_mut<V: Val>(scen: &J, live: &Arc<Live>) -> Vec<Box<dyn Ctx>> {
    let vals: Vec<i64> = scen["init"]["vals"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
    let ms: Vec<Mutable<V>> = vals.iter().map(|v| Mutable::new(V::make(*v, live))).collect();
    let bc = if scen["src"] == "bc" { Some(Broadcaster::new(V::mut_signal(&ms[0].read_only()))) } else { None };
    let mut out: Vec<Box<dyn Ctx>> = vec![];
    for t in 0..nthreads(scen) {
        let own: Vec<usize> = scen["own"][t].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect();
        let mut c = MutCtx { handles: ms.iter().map(|_| vec![]).collect(), ro: ms.iter().map(|m| m.read_only()).collect(), bc: bc.clone(), obs: BTreeMap::new(), live: live.clone() };
        for m in own {
            c.handles[m].push(ms[m].clone());
        }
        for o in scen["obs"].as_array().unwrap() {
            if o["t"] == t {
                let sig = c.sub(u(o, "m"), i(o, "o"));
                c.obs.insert(i(o, "o"), sig);
            }
        }
        out.push(Box::new(c));
    }
    out
}
impl<V: Val> Ctx for MutCtx<V> {
    fn exec(&mut self, op: &J) -> String {
        let v = |l: &Arc<Live>| V::make(i(op, "v"), l);
        match name(op) {
            "set" => self.h(op, "m").set(v(&self.live)),
            "set_neq" => self.h(op, "m").set_neq(v(&self.live)),
            "set_if_gt" => self.h(op, "m").set_if(v(&self.live), |old, new| new.v() > old.v()),
            "replace" => return format!("v{}", self.h(op, "m").replace(v(&self.live)).v()),
            "replace_with" => {
                let l = self.live.clone();
                return format!("v{}", self.h(op, "m").replace_with(|x| V::make(x.v() + i(op, "v"), &l)).v());
            }
            "take" => return format!("v{}", std::mem::take(&mut *self.h(op, "m").lock_mut()).v()),
            "swap" => self.h(op, "m").swap(self.h(op, "n")),
            "get" => return format!("v{}", V::get(&self.ro[u(op, "m")]).v()),
            "ref2" => {
                let g = self.ro[u(op, "m")].lock_ref();
                let a = g.v();
                crate::user_step();
                return format!("v{}", if g.v() == a { a } else { -999 });
            }
            "lock_add" => {
                let mut g = self.h(op, "m").lock_mut();
                let old = g.v();
                crate::user_step();
                *g = V::make(old + i(op, "v"), &self.live);
                crate::user_step();
                return format!("v{}", old);
            }
            "lock_look" => {
                let g = self.h(op, "m").lock_mut();
                return format!("v{}", g.v());
            }
            "clone" => {
                let h = self.h(op, "m").clone();
                self.handles[u(op, "m")].push(h);
            }
            "drop" => {
                drop(self.handles[u(op, "m")].pop().unwrap());
            }
            "sub" => {
                let sig = self.sub(u(op, "m"), i(op, "o"));
                self.obs.insert(i(op, "o"), sig);
            }
            "unsub" => {
                self.obs.remove(&i(op, "o"));
            }
            o => panic!("VPHARNESS: op {}", o),
        }
        "ok".into()
    }
    fn poll(&mut self, o: i64, cx: &mut Context) -> String {
        match self.obs.get_mut(&o).expect("VPHARNESS: observer").as_mut().poll_change(cx) {
            Poll::Ready(Some(v)) => format!("v{}", v.v()),
            Poll::Ready(None) => "e".into(),
            Poll::Pending => "p".into(),
        }
    }
}

// ------------------------------------------------------------------ channel
struct ChanCtx {
    tx: Vec<Sender<P>>,
    rx: Option<Receiver<P>>,
    live: Arc<Live>,
}
fn make_chan(scen: &J, live: &Arc<Live>) -> Vec<Box<dyn Ctx>> {
    let (tx, rx) = channel(P::new(i(&scen["init"], "v"), live));
    let mut rx = Some(rx);
    let mut out: Vec<Box<dyn Ctx>> = vec![];
    for t in 0..nthreads(scen) {
        let n = scen["own"][t].as_u64().unwrap();
        out.push(Box::new(ChanCtx { tx: (0..n).map(|_| tx.clone()).collect(), rx: if scen["rx"] == t { rx.take() } else { None }, live: live.clone() }));
    }
    out
}
impl Ctx for ChanCtx {
    fn exec(&mut self, op: &J) -> String {
        match name(op) {
            "send" => {
                return match self.tx.last().unwrap().send(P::new(i(op, "v"), &self.live)) {
                    Ok(()) => "ok".into(),
                    Err(v) => format!("err{}", v.v),
                }
            }
            "close" => self.tx.last().unwrap().close(),
            "clone" => {
                let t = self.tx.last().unwrap().clone();
                self.tx.push(t);
            }
            "drop" => drop(self.tx.pop().unwrap()),
            "drop_rx" => drop(self.rx.take().unwrap()),
            o => panic!("VPHARNESS: op {}", o),
        }
        "ok".into()
    }
    fn poll(&mut self, _o: i64, cx: &mut Context) -> String {
        match Pin::new(self.rx.as_mut().unwrap()).poll_change(cx) {
            Poll::Ready(Some(v)) => format!("v{}", v.v),
            Poll::Ready(None) => "e".into(),
            Poll::Pending => "p".into(),
        }
    }
}

// ------------------------------------------------------------------ MutableVec
struct VecCtx<V: Val> {
    h: Vec<MutableVec<V>>,
    obs: BTreeMap<i64, (Pin<Box<dyn SignalVec<Item = V> + Send>>, Vec<V>)>,
    live: Arc<Live>,
}
fn make_vec<V: Val>(scen: &J, live: &Arc<Live>) -> Vec<Box<dyn Ctx>> {
    let vals: Vec<V> = scen["init"]["vals"].as_array().unwrap().iter().map(|v| V::make(v.as_i64().unwrap(), live)).collect();
    let m = MutableVec::new_with_values(vals);
    let mut out: Vec<Box<dyn Ctx>> = vec![];
    for t in 0..nthreads(scen) {
        let n = scen["own"][t].as_u64().unwrap();
        let mut c = VecCtx { h: (0..n).map(|_| m.clone()).collect(), obs: BTreeMap::new(), live: live.clone() };
        for o in scen["obs"].as_array().unwrap() {
            if o["t"] == t {
                c.obs.insert(i(o, "o"), (V::vec_signal(&m), vec![]));
            }
        }
        out.push(Box::new(c));
    }
    out
}
impl<V: Val> Ctx for VecCtx<V> {
    fn exec(&mut self, op: &J) -> String {
        let v = || V::make(i(op, "v"), &self.live);
        match name(op) {
            "push" => V::push(&mut self.h.last().unwrap().lock_mut(), v()),
            "push2" => {
                let mut g = self.h.last().unwrap().lock_mut();
                V::push(&mut g, v());
                crate::user_step();
                V::push(&mut g, V::make(i(op, "v") + 1, &self.live));
            }
            "insert" => {
                let x = v();
                let mut g = self.h.last().unwrap().lock_mut();
                V::insert(&mut g, 0, x)
            }
            "pop" => {
                return match self.h.last().unwrap().lock_mut().pop() {
                    Some(v) => format!("v{}", v.v()),
                    None => "n".into(),
                }
            }
            "remove0" => {
                let mut g = self.h.last().unwrap().lock_mut();
                return if g.len() > 0 { format!("v{}", g.remove(0).v()) } else { "n".into() };
            }
            "set0" => {
                let x = v();
                let mut g = self.h.last().unwrap().lock_mut();
                if g.len() > 0 {
                    V::set(&mut g, 0, x)
                }
            }
            "rotate" => {
                let mut g = self.h.last().unwrap().lock_mut();
                let n = g.len();
                if n > 1 {
                    g.move_from_to(0, n - 1)
                }
            }
            "clear" => self.h.last().unwrap().lock_mut().clear(),
            "replace" => {
                let x = vec![v(), V::make(i(op, "v") + 1, &self.live)];
                V::replace(&mut self.h.last().unwrap().lock_mut(), x)
            }
            "read" => {
                let g = self.h.last().unwrap().lock_ref();
                return seq(g.iter().map(|v| v.v()));
            }
            "clone" => {
                let h = self.h.last().unwrap().clone();
                self.h.push(h)
            }
            "drop" => drop(self.h.pop().unwrap()),
            "sub" => {
                let s = V::vec_signal(self.h.last().unwrap());
                self.obs.insert(i(op, "o"), (s, vec![]));
            }
            "unsub" => drop(self.obs.remove(&i(op, "o"))),
            o => panic!("VPHARNESS: op {}", o),
        }
        "ok".into()
    }
    fn poll(&mut self, o: i64, cx: &mut Context) -> String {
        let (s, m) = self.obs.get_mut(&o).expect("VPHARNESS: observer");
        match s.as_mut().poll_vec_change(cx) {
            Poll::Ready(Some(d)) => {
                let ok = match &d {
                    VecDiff::InsertAt { index, .. } => *index <= m.len(),
                    VecDiff::UpdateAt { index, .. } | VecDiff::RemoveAt { index } => *index < m.len(),
                    VecDiff::Move { old_index, new_index } => *old_index < m.len() && *new_index < m.len(),
                    VecDiff::Pop {} => !m.is_empty(),
                    _ => true,
                };
                if !ok {
                    return "out of range".into();
                }
                match d {
                    VecDiff::Replace { values } => *m = values,
                    VecDiff::InsertAt { index, value } => m.insert(index, value),
                    VecDiff::UpdateAt { index, value } => m[index] = value,
                    VecDiff::RemoveAt { index } => drop(m.remove(index)),
                    VecDiff::Move { old_index, new_index } => {
                        let v = m.remove(old_index);
                        m.insert(new_index, v)
                    }
                    VecDiff::Push { value } => m.push(value),
                    VecDiff::Pop {} => drop(m.pop()),
                    VecDiff::Clear {} => m.clear(),
                }
                format!("c{}", seq(m.iter().map(|v| v.v())))
            }
            Poll::Ready(None) => "e".into(),
            Poll::Pending => "p".into(),
        }
    }
}

// ------------------------------------------------------------------ MutableBTreeMap
struct MapCtx<V: Val> {
    h: Vec<MutableBTreeMap<i64, V>>,
    obs: BTreeMap<i64, (Pin<Box<dyn SignalMap<Key = i64, Value = V> + Send>>, BTreeMap<i64, V>)>,
    live: Arc<Live>,
}
fn entries<V: Val>(m: &BTreeMap<i64, V>) -> String {
    seq(m.iter().flat_map(|(k, v)| [*k, v.v()]))
}
fn make_map<V: Val>(scen: &J, live: &Arc<Live>) -> Vec<Box<dyn Ctx>> {
    let vals: BTreeMap<i64, V> = scen["init"]["entries"].as_array().unwrap().iter().map(|v| (v[0].as_i64().unwrap(), V::make(v[1].as_i64().unwrap(), live))).collect();
    let m = MutableBTreeMap::with_values(vals);
    let mut out: Vec<Box<dyn Ctx>> = vec![];
    for t in 0..nthreads(scen) {
        let n = scen["own"][t].as_u64().unwrap();
        let mut c = MapCtx { h: (0..n).map(|_| m.clone()).collect(), obs: BTreeMap::new(), live: live.clone() };
        for o in scen["obs"].as_array().unwrap() {
            if o["t"] == t {
                c.obs.insert(i(o, "o"), (V::map_signal(&m), BTreeMap::new()));
            }
        }
        out.push(Box::new(c));
    }
    out
}
impl<V: Val> Ctx for MapCtx<V> {
    fn exec(&mut self, op: &J) -> String {
        let v = || V::make(i(op, "v"), &self.live);
        let old = |x: Option<V>| match x {
            Some(p) => format!("v{}", p.v()),
            None => "n".into(),
        };
        match name(op) {
            "insert" => {
                let x = v();
                return old(V::map_insert(&mut self.h.last().unwrap().lock_mut(), i(op, "k"), x));
            }
            "bump" => {
                // read, then write, under one lock
                let l = self.live.clone();
                let mut g = self.h.last().unwrap().lock_mut();
                let n = g.get(&i(op, "k")).map_or(0, |p| p.v());
                crate::user_step();
                return old(V::map_insert(&mut g, i(op, "k"), V::make(n + i(op, "v"), &l)));
            }
            "remove" => return old(self.h.last().unwrap().lock_mut().remove(&i(op, "k"))),
            "clear" => self.h.last().unwrap().lock_mut().clear(),
            "replace" => {
                let x = BTreeMap::from([(i(op, "k"), v())]);
                V::map_replace(&mut self.h.last().unwrap().lock_mut(), x)
            }
            "read" => {
                let g = self.h.last().unwrap().lock_ref();
                return entries(&g);
            }
            "clone" => {
                let h = self.h.last().unwrap().clone();
                self.h.push(h)
            }
            "drop" => drop(self.h.pop().unwrap()),
            "sub" => {
                let s = V::map_signal(self.h.last().unwrap());
                self.obs.insert(i(op, "o"), (s, BTreeMap::new()));
            }
            "unsub" => drop(self.obs.remove(&i(op, "o"))),
            o => panic!("VPHARNESS: op {}", o),
        }
        "ok".into()
    }
    fn poll(&mut self, o: i64, cx: &mut Context) -> String {
        let (s, m) = self.obs.get_mut(&o).expect("VPHARNESS: observer");
        match s.as_mut().poll_map_change(cx) {
            Poll::Ready(Some(d)) => {
                match d {
                    MapDiff::Replace { entries } => *m = entries.into_iter().collect(),
                    MapDiff::Insert { key, value } => {
                        if m.insert(key, value).is_some() {
                            return "insert of a present key".into();
                        }
                    }
                    MapDiff::Update { key, value } => {
                        if m.insert(key, value).is_none() {
                            return "update of an absent key".into();
                        }
                    }
                    MapDiff::Remove { key } => {
                        if m.remove(&key).is_none() {
                            return "remove of an absent key".into();
                        }
                    }
                    MapDiff::Clear {} => m.clear(),
                }
                format!("c{}", entries(m))
            }
            Poll::Ready(None) => "e".into(),
            Poll::Pending => "p".into(),
        }
    }
}

// ------------------------------------------------------------------ cancelable_future
struct GateSt {
    open: bool,
    waker: Option<Waker>,
}
struct Inner {
    gate: Arc<Mutex<GateSt>>,
    handle: Option<Arc<Mutex<Option<discard::DiscardOnDrop<futures_signals::CancelableFutureHandle>>>>>,
    live: Arc<Live>,
}
impl Drop for Inner {
    fn drop(&mut self) {
        self.live.inner.fetch_sub(1, Ordering::SeqCst);
    }
}
impl Future for Inner {
    type Output = i64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<i64> {
        crate::user_step();
        if let Some(h) = &self.handle {
            // cancel from within the poll itself
            let h = h.lock().unwrap().take();
            drop(h);
        }
        let mut g = self.gate.lock().unwrap();
        if g.open {
            Poll::Ready(1)
        } else {
            g.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
struct CancelCtx {
    fut: Option<Pin<Box<dyn Future<Output = i64> + Send>>>,
    handle: Option<Arc<Mutex<Option<discard::DiscardOnDrop<futures_signals::CancelableFutureHandle>>>>>,
    gate: Arc<Mutex<GateSt>>,
    live: Arc<Live>,
}
fn make_cancel(scen: &J, live: &Arc<Live>) -> Vec<Box<dyn Ctx>> {
    let gate = Arc::new(Mutex::new(GateSt { open: false, waker: None }));
    let cell = Arc::new(Mutex::new(None));
    live.inner.fetch_add(1, Ordering::SeqCst);
    let inner = Inner { gate: gate.clone(), handle: if scen["inside"] == true { Some(cell.clone()) } else { None }, live: live.clone() };
    let l = live.clone();
    let (handle, fut) = futures_signals::cancelable_future(inner, move || {
        l.callbacks.fetch_add(1, Ordering::SeqCst);
        2
    });
    *cell.lock().unwrap() = Some(handle);
    let mut fut: Option<Pin<Box<dyn Future<Output = i64> + Send>>> = Some(Box::pin(fut));
    (0..nthreads(scen))
        .map(|t| Box::new(CancelCtx { fut: if scen["rx"] == t { fut.take() } else { None }, handle: Some(cell.clone()), gate: gate.clone(), live: live.clone() }) as Box<dyn Ctx>)
        .collect()
}
impl Ctx for CancelCtx {
    fn exec(&mut self, op: &J) -> String {
        match name(op) {
            "discard" => {
                let h = self.handle.take().and_then(|c| c.lock().unwrap().take());
                drop(h)
            }
            "leak" => {
                let h = self.handle.take().and_then(|c| c.lock().unwrap().take());
                if let Some(h) = h {
                    discard::DiscardOnDrop::leak(h);
                }
            }
            "open" => {
                let w = {
                    let mut g = self.gate.lock().unwrap();
                    g.open = true;
                    g.waker.take()
                };
                crate::user_step();
                if let Some(w) = w {
                    w.wake()
                }
            }
            "drop_fut" => drop(self.fut.take()),
            o => panic!("VPHARNESS: op {}", o),
        }
        "ok".into()
    }
    fn poll(&mut self, _o: i64, cx: &mut Context) -> String {
        let Some(fut) = self.fut.as_mut() else { return "gone".into() };
        match fut.as_mut().poll(cx) {
            Poll::Ready(r) => {
                // the inner future of a cancelled task is gone before the callback's value is returned
                let r = format!("end{}{} cb{}", r, if r == 2 && self.live.inner.load(Ordering::SeqCst) != 0 { "-live" } else { "" }, self.live.callbacks.load(Ordering::SeqCst));
                self.fut = None;
                r
            }
            Poll::Pending => "p".into(),
        }
    }
}
#[allow(unused)]
fn unused() -> J {
    json!(0)
}
