//! Wake-driven consumers ("views") of signals, signal vecs and signal maps, and
//! scripted sources ("hubs") that feed them.  Nothing in here knows what the right
//! answer is: expectations come from the TLA+ specification.
use futures_signals::signal::{Signal, SignalExt};
use futures_signals::signal_map::{MapDiff, SignalMap, SignalMapExt};
use futures_signals::signal_vec::{SignalVec, SignalVecExt, VecDiff};
use serde_json::{json, Value as J};
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type R = Result<(), String>;

// ------------------------------------------------------------------ wakers
pub struct Flag {
    woken: AtomicBool,
    pub wakes: AtomicUsize,
    gen: AtomicUsize,
}
/// About half of the polls pass a new waker (as when a task moves), the others the one of the poll before (as a
/// task does that stays); only the waker of the latest poll counts.
struct GenWaker {
    flag: Arc<Flag>,
    gen: usize,
}
impl Wake for GenWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.flag.wakes.fetch_add(1, Ordering::SeqCst);
        if self.gen == self.flag.gen.load(Ordering::SeqCst) {
            self.flag.woken.store(true, Ordering::SeqCst);
            INPLACE.with(|i| {
                let (slot, busy) = i.get();
                if let (Some(slot), false) = (slot, busy) {
                    // SAFETY: `in_place` keeps the slot where it is, and nobody is polling it
                    let slot = unsafe { &mut *slot };
                    if Arc::ptr_eq(&slot.flag, &self.flag) {
                        if let Err(e) = slot.run(usize::MAX) {
                            INPLACE_ERR.with(|r| *r.borrow_mut() = Some(e));
                        }
                    }
                }
            });
        }
    }
}

thread_local! {
    /// The consumer which is polled in place, by whoever wakes it, and whether it is being polled.
    static INPLACE: Cell<(Option<*mut Slot>, bool)> = const { Cell::new((None, false)) };
    static INPLACE_ERR: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// An executor that polls the task as soon as it is woken: within `wake` (unless it is being polled, then right after
/// the poll).  Only while `f` runs, which must leave the slot alone except for dropping it.
pub fn in_place<T>(on: bool, slot: Option<&mut Slot>, f: impl FnOnce() -> T) -> Result<T, String> {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            INPLACE.with(|i| i.set((None, false)));
        }
    }
    let _off = Off;
    INPLACE.with(|i| i.set((slot.filter(|_| on).map(|s| s as *mut Slot), false)));
    let t = f();
    INPLACE_ERR.with(|r| r.borrow_mut().take()).map_or(Ok(t), Err)
}

// ------------------------------------------------------------------ views
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Ev {
    Item,
    Pending,
    End,
}

pub trait View {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String>;
    /// What the consumer holds now, compared with what the specification predicts.
    fn check(&mut self, exp: &J, drained: bool) -> R;
    /// What was emitted since the last call (items as JSON, "END" at the end).
    fn take_out(&mut self) -> Vec<J>;
    /// Values the user's closure was called with (None: not instrumented).
    fn calls(&self) -> Option<Vec<J>> {
        None
    }
    fn expect_calls(&mut self, _more: &[J]) {}
    /// Note the contents of the source after an operation (lossless replicas).
    fn note(&mut self, _contents: &J, _silent: bool) -> R {
        Ok(())
    }
}

pub struct Slot {
    pub name: String,
    pub view: Box<dyn View>,
    flag: Arc<Flag>,
    waker: Option<Waker>,
    again: bool,
    pub ended: bool,
    pub polls: usize,
}

impl Slot {
    pub fn new(name: &str, view: Box<dyn View>) -> Slot {
        let flag = Arc::new(Flag { woken: AtomicBool::new(false), wakes: AtomicUsize::new(0), gen: AtomicUsize::new(0) });
        Slot { name: name.to_string(), view, flag, waker: None, again: true, ended: false, polls: 0 }
    }
    pub fn new_b<V: View + 'static>(name: &str, view: V) -> Slot {
        Slot::new(name, Box::new(view))
    }
    pub fn wakes(&self) -> usize {
        self.flag.wakes.load(Ordering::SeqCst)
    }
    pub fn flag_arc(&self) -> Arc<Flag> {
        self.flag.clone()
    }
    pub fn runnable(&self) -> bool {
        !self.ended && (self.again || self.flag.woken.load(Ordering::SeqCst))
    }
    /// Poll while woken (at most `max` polls).
    pub fn run(&mut self, max: usize) -> R {
        let mut n = 0;
        while n < max && self.runnable() {
            self.poll_once()?;
            n += 1;
            if n > 20_000 {
                return Err(format!("view {}: livelock (polled {} times without parking)", self.name, n));
            }
            if max == usize::MAX {
                while !self.runnable() && stir(true) {}
            }
        }
        Ok(())
    }
    pub fn poll_once(&mut self) -> R {
        self.flag.woken.store(false, Ordering::SeqCst);
        self.polls += 1;
        let again = self.polls.wrapping_mul(0x9E37_79B9) >> 9 & 1 == 0;
        if !again || self.waker.is_none() {
            self.flag.gen.store(self.polls, Ordering::SeqCst);
            self.waker = Some(Waker::from(Arc::new(GenWaker { flag: self.flag.clone(), gen: self.polls })));
        }
        let waker = self.waker.clone().unwrap();
        let mut cx = Context::from_waker(&waker);
        let busy = INPLACE.with(|i| i.replace((i.get().0, true)));
        let ev = self.view.poll(&mut cx).map_err(|e| format!("view {}: {}", self.name, e));
        INPLACE.with(|i| i.set((i.get().0, busy.1)));
        let ev = ev?;
        self.again = ev == Ev::Item;
        if ev == Ev::End {
            self.ended = true;
        }
        Ok(())
    }
    pub fn spurious(&mut self) -> R {
        if !self.ended {
            self.poll_once()?;
        }
        Ok(())
    }
}

// ---- vec view
pub struct VecView<T> {
    sv: Pin<Box<dyn SignalVec<Item = T>>>,
    mirror: Vec<T>,
    to_j: fn(&T) -> J,
    out: Vec<J>,
    diffs: usize,
    calls: Option<Rc<RefCell<Vec<J>>>>,
    exp_calls: Vec<J>,
    replica: bool,
    notes: VecDeque<J>,
    seen_diffs: usize,
    silent_base: Option<usize>,
    custom: Option<Box<dyn FnMut(&[T], &J) -> R>>,
    on_diff: Option<Box<dyn FnMut(&VecDiff<T>)>>,
}

pub fn vec_valid<T>(len: usize, d: &VecDiff<T>) -> R {
    let ok = match d {
        VecDiff::Replace { .. } | VecDiff::Push { .. } | VecDiff::Clear {} => true,
        VecDiff::InsertAt { index, .. } => *index <= len,
        VecDiff::UpdateAt { index, .. } | VecDiff::RemoveAt { index } => *index < len,
        VecDiff::Move { old_index, new_index } => *old_index < len && *new_index < len,
        VecDiff::Pop {} => len > 0,
    };
    if ok {
        Ok(())
    } else {
        let d = match d {
            VecDiff::InsertAt { index, .. } => format!("InsertAt {}", index),
            VecDiff::UpdateAt { index, .. } => format!("UpdateAt {}", index),
            VecDiff::RemoveAt { index } => format!("RemoveAt {}", index),
            VecDiff::Move { old_index, new_index } => format!("Move {} -> {}", old_index, new_index),
            _ => "Pop".to_string(),
        };
        Err(format!("emitted diff out of range: {} on {} elements", d, len))
    }
}

impl<T: 'static> VecView<T> {
    pub fn new(sv: impl SignalVec<Item = T> + 'static, to_j: fn(&T) -> J) -> Self {
        VecView {
            sv: hold_vec(sv),
            mirror: vec![],
            to_j,
            out: vec![],
            diffs: 0,
            calls: None,
            exp_calls: vec![],
            replica: false,
            notes: VecDeque::new(),
            seen_diffs: usize::MAX,
            silent_base: None,
            custom: None,
            on_diff: None,
        }
    }
    pub fn with_calls(mut self, log: Rc<RefCell<Vec<J>>>) -> Self {
        self.calls = Some(log);
        self
    }
    pub fn with_custom(mut self, f: impl FnMut(&[T], &J) -> R + 'static) -> Self {
        self.custom = Some(Box::new(f));
        self
    }
    pub fn with_on_diff(mut self, f: impl FnMut(&VecDiff<T>) + 'static) -> Self {
        self.on_diff = Some(Box::new(f));
        self
    }
    pub fn replica(mut self) -> Self {
        self.replica = true;
        self
    }
    fn contents(&self) -> J {
        J::Array(self.mirror.iter().map(|v| (self.to_j)(v)).collect())
    }
}

pub fn vec_apply<T>(m: &mut Vec<T>, d: VecDiff<T>) {
    // deliberately not VecDiff::apply_to_vec: that is code under test
    match d {
        VecDiff::Replace { values } => *m = values,
        VecDiff::InsertAt { index, value } => m.insert(index, value),
        VecDiff::UpdateAt { index, value } => m[index] = value,
        VecDiff::RemoveAt { index } => {
            m.remove(index);
        }
        VecDiff::Move { old_index, new_index } => {
            let v = m.remove(old_index);
            m.insert(new_index, v)
        }
        VecDiff::Push { value } => m.push(value),
        VecDiff::Pop {} => {
            m.pop();
        }
        VecDiff::Clear {} => m.clear(),
    }
}

impl<T: 'static> View for VecView<T> {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String> {
        match self.sv.as_mut().poll_vec_change(cx) {
            Poll::Ready(Some(d)) => {
                vec_valid(self.mirror.len(), &d)?;
                if let Some(f) = &mut self.on_diff {
                    f(&d)
                }
                vec_apply(&mut self.mirror, d);
                self.diffs += 1;
                let c = self.contents();
                if self.replica {
                    while self.notes.front() == Some(&c) {
                        self.notes.pop_front();
                    }
                }
                self.out.push(c);
                Ok(Ev::Item)
            }
            Poll::Ready(None) => {
                self.out.push(json!("END"));
                Ok(Ev::End)
            }
            Poll::Pending => Ok(Ev::Pending),
        }
    }
    fn check(&mut self, exp: &J, drained: bool) -> R {
        if !drained {
            return Ok(());
        }
        if let Some(f) = &mut self.custom {
            f(&self.mirror, exp)?;
        } else {
            let c = self.contents();
            if &c != exp {
                return Err(format!("holds {} but the specification says {}", c, exp));
            }
        }
        if self.replica {
            if let Some(n) = self.notes.front() {
                return Err(format!("never passed through the contents {}", n));
            }
        }
        if let Some(b) = self.silent_base.take() {
            if self.diffs != b {
                return Err(format!("{} diffs emitted although nothing changed", self.diffs - b));
            }
        }
        self.seen_diffs = self.diffs;
        if let Some(calls) = &self.calls {
            let calls = calls.borrow();
            if *calls != self.exp_calls {
                return Err(format!("closure called with {} but values that entered are {}", J::Array(calls.clone()), J::Array(self.exp_calls.clone())));
            }
        }
        Ok(())
    }
    fn take_out(&mut self) -> Vec<J> {
        std::mem::take(&mut self.out)
    }
    fn calls(&self) -> Option<Vec<J>> {
        self.calls.as_ref().map(|c| c.borrow().clone())
    }
    fn expect_calls(&mut self, more: &[J]) {
        self.exp_calls.extend_from_slice(more)
    }
    fn note(&mut self, contents: &J, silent: bool) -> R {
        if self.replica {
            // `silent_base` is set only if everything before was already consumed
            if silent {
                if self.notes.is_empty() && self.silent_base.is_none() && self.seen_diffs == self.diffs {
                    self.silent_base = Some(self.diffs);
                }
            } else {
                self.silent_base = None;
                self.seen_diffs = usize::MAX;
                if self.notes.back() != Some(contents) {
                    self.notes.push_back(contents.clone());
                }
            }
        }
        Ok(())
    }
}

// ---- signal view
pub struct SigView<T> {
    sig: Pin<Box<dyn Signal<Item = T>>>,
    last: Option<J>,
    to_j: fn(&T) -> J,
    out: Vec<J>,
    polled: bool,
    nodup: bool,
    calls: Option<Rc<Cell<usize>>>,
    first_ready: bool,
}
impl<T: 'static> SigView<T> {
    pub fn new(sig: impl Signal<Item = T> + 'static, to_j: fn(&T) -> J) -> Self {
        SigView { sig: hold_sig(sig), last: None, to_j, out: vec![], polled: false, nodup: false, calls: None, first_ready: true }
    }
    pub fn nodup(mut self) -> Self {
        self.nodup = true;
        self
    }
    pub fn counting(mut self, c: Rc<Cell<usize>>) -> Self {
        self.calls = Some(c);
        self
    }
}
impl<T: 'static> View for SigView<T> {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String> {
        let first = !self.polled;
        self.polled = true;
        match self.sig.as_mut().poll_change(cx) {
            Poll::Ready(Some(v)) => {
                let j = (self.to_j)(&v);
                if self.nodup && self.last.as_ref() == Some(&j) {
                    return Err(format!("reported {} again although it did not change", j));
                }
                self.last = Some(j.clone());
                self.out.push(j);
                Ok(Ev::Item)
            }
            _ if first && self.first_ready => Err("the first poll did not return a value".to_string()),
            Poll::Ready(None) => {
                self.out.push(json!("END"));
                Ok(Ev::End)
            }
            Poll::Pending => Ok(Ev::Pending),
        }
    }
    fn check(&mut self, exp: &J, drained: bool) -> R {
        if !drained {
            return Ok(());
        }
        if self.last.as_ref() != Some(exp) {
            return Err(format!("last reported {} but the specification says {}", self.last.as_ref().unwrap_or(&J::Null), exp));
        }
        Ok(())
    }
    fn take_out(&mut self) -> Vec<J> {
        let mut o = std::mem::take(&mut self.out);
        if let Some(c) = &self.calls {
            o.push(json!({"calls": c.replace(0)}));
        }
        o
    }
}

// ---- map view
pub struct MapView<K, V> {
    sm: Pin<Box<dyn SignalMap<Key = K, Value = V>>>,
    mirror: BTreeMap<K, V>,
    diffs: usize,
    /// for a lossless replica: the contents it must still pass through
    notes: Option<VecDeque<J>>,
    base: J,
    out: Vec<J>,
    calls: Option<Rc<RefCell<Vec<J>>>>,
    exp_calls: Vec<J>,
}
pub fn map_apply<K: Ord + Clone, V: Clone>(m: &mut BTreeMap<K, V>, d: MapDiff<K, V>) -> R {
    match d {
        MapDiff::Replace { entries } => {
            if entries.windows(2).any(|w| w[0].0 >= w[1].0) {
                return Err("Replace entries are not in ascending key order".into());
            }
            *m = entries.into_iter().collect();
        }
        MapDiff::Insert { key, value } => {
            if m.insert(key, value).is_some() {
                return Err("Insert of a key which is already present".into());
            }
        }
        MapDiff::Update { key, value } => {
            if m.insert(key, value).is_none() {
                return Err("Update of an absent key".into());
            }
        }
        MapDiff::Remove { key } => {
            if m.remove(&key).is_none() {
                return Err("Remove of an absent key".into());
            }
        }
        MapDiff::Clear {} => m.clear(),
    }
    Ok(())
}
pub fn jmap<K: Clone + Into<i64>, V: Clone + Into<i64>>(m: &BTreeMap<K, V>) -> J {
    J::Array(m.iter().map(|(k, v)| json!([k.clone().into(), v.clone().into()])).collect())
}
impl<K: Ord + Clone + Into<i64> + 'static, V: Clone + Into<i64> + 'static> MapView<K, V> {
    pub fn new(sm: impl SignalMap<Key = K, Value = V> + 'static) -> Self {
        MapView { sm: hold_map(sm), mirror: BTreeMap::new(), diffs: 0, notes: None, base: J::Null, out: vec![], calls: None, exp_calls: vec![] }
    }
    /// Subscribed while the contents were `base`.
    pub fn replica(mut self, base: J) -> Self {
        self.notes = Some(VecDeque::new());
        self.base = base;
        self
    }
    pub fn with_calls(mut self, log: Rc<RefCell<Vec<J>>>) -> Self {
        self.calls = Some(log);
        self
    }
}
impl<K: Ord + Clone + Into<i64> + 'static, V: Clone + Into<i64> + 'static> View for MapView<K, V> {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String> {
        match self.sm.as_mut().poll_map_change(cx) {
            Poll::Ready(Some(d)) => {
                let before = if self.diffs == 0 { self.base.clone() } else { jmap(&self.mirror) };
                map_apply(&mut self.mirror, d)?;
                self.diffs += 1;
                let c = jmap(&self.mirror);
                if let Some(notes) = &mut self.notes {
                    // every diff leads to the next contents the map had; changes that
                    // left the contents as they were need not be sent
                    let start = self.diffs == 1 && c == self.base;
                    while !start && notes.front() != Some(&c) {
                        if notes.front() == Some(&before) {
                            notes.pop_front();
                        } else {
                            return Err(format!("went from {} to {}, but the map went on to {:?}", before, c, notes.front().map(|x| x.to_string())));
                        }
                    }
                    if !start {
                        notes.pop_front();
                    }
                }
                self.out.push(c);
                Ok(Ev::Item)
            }
            Poll::Ready(None) => {
                self.out.push(json!("END"));
                Ok(Ev::End)
            }
            Poll::Pending => Ok(Ev::Pending),
        }
    }
    fn check(&mut self, exp: &J, drained: bool) -> R {
        if !drained {
            return Ok(());
        }
        let c = jmap(&self.mirror);
        if &c != exp {
            return Err(format!("holds {} but the specification says {}", c, exp));
        }
        if let Some(notes) = &mut self.notes {
            if let Some(n) = notes.iter().find(|n| **n != c) {
                return Err(format!("never passed through the contents {}", n));
            }
            notes.clear();
        }
        if let Some(calls) = &self.calls {
            let calls = calls.borrow();
            if *calls != self.exp_calls {
                return Err(format!("closure called with {} but values that entered are {}", J::Array(calls.clone()), J::Array(self.exp_calls.clone())));
            }
        }
        Ok(())
    }
    fn take_out(&mut self) -> Vec<J> {
        std::mem::take(&mut self.out)
    }
    fn calls(&self) -> Option<Vec<J>> {
        self.calls.as_ref().map(|c| c.borrow().clone())
    }
    fn expect_calls(&mut self, more: &[J]) {
        self.exp_calls.extend_from_slice(more)
    }
    fn note(&mut self, contents: &J, silent: bool) -> R {
        if let (Some(n), false) = (&mut self.notes, silent) {
            n.push_back(contents.clone());
        }
        Ok(())
    }
}

// ---- the ways in which the library lets one hold and poll a source
thread_local! { static WRAP: RefCell<Option<Rng>> = const { RefCell::new(None) }; }
/// The views made from now on are held and polled in ways drawn from the seed (0: plainly).
pub fn wrap_with(seed: u64) {
    WRAP.with(|w| *w.borrow_mut() = if seed == 0 { None } else { Some(Rng::new(seed)) });
}
fn wrap(n: usize) -> usize {
    WRAP.with(|w| w.borrow_mut().as_mut().map_or(0, |r| r.below(n)))
}
/// Ready when it is polled the second time.
struct Second(bool);
impl Future for Second {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            Poll::Ready(())
        } else {
            // the one who polls has just been given an item, so it will poll again
            Poll::Pending
        }
    }
}
/// A source which is consumed by for_each, one item per poll.
struct Fed<D, F> {
    fut: Pin<Box<F>>,
    item: Rc<RefCell<Option<D>>>,
}
impl<D, F: Future<Output = ()>> Fed<D, F> {
    fn next(&mut self, cx: &mut Context) -> Poll<Option<D>> {
        let p = self.fut.as_mut().poll(cx);
        match self.item.borrow_mut().take() {
            Some(d) => {
                if p.is_ready() {
                    panic!("for_each finished before the future of the last item did");
                }
                Poll::Ready(Some(d))
            }
            None => p.map(|()| None),
        }
    }
}
fn feed<D>() -> (Rc<RefCell<Option<D>>>, impl FnMut(D) -> Second) {
    let item = Rc::new(RefCell::new(None));
    let i2 = item.clone();
    (item, move |d| {
        if i2.borrow_mut().replace(d).is_some() {
            panic!("for_each called its closure before the future of the last item was done");
        }
        Second(false)
    })
}
impl<T, F: Future<Output = ()>> SignalVec for Fed<VecDiff<T>, F> {
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> {
        self.next(cx)
    }
}
impl<K, V, F: Future<Output = ()>> SignalMap for Fed<MapDiff<K, V>, F> {
    type Key = K;
    type Value = V;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<K, V>>> {
        self.next(cx)
    }
}
struct FedSig<D, F>(Fed<D, F>);
impl<T, F: Future<Output = ()>> Signal for FedSig<T, F> {
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.0.next(cx)
    }
}
/// A source which is consumed through to_stream, or polled through a reference.
struct By<S>(Pin<Box<S>>);
impl<T, S: futures_core::Stream<Item = VecDiff<T>>> SignalVec for By<S> {
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> {
        self.0.as_mut().poll_next(cx)
    }
}
struct BySig<S>(Pin<Box<S>>);
impl<S: futures_core::Stream> Signal for BySig<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<S::Item>> {
        self.0.as_mut().poll_next(cx)
    }
}
struct ByRef<S: ?Sized>(Pin<Box<S>>);
impl<S: SignalVec + ?Sized> SignalVec for ByRef<S> {
    type Item = S::Item;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<S::Item>>> {
        let mut by_ref = &mut self.0;
        (&mut by_ref).poll_vec_change_unpin(cx)
    }
}
struct ByRefMap<S: ?Sized>(Pin<Box<S>>);
impl<S: SignalMap + ?Sized> SignalMap for ByRefMap<S> {
    type Key = S::Key;
    type Value = S::Value;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<S::Key, S::Value>>> {
        let mut by_ref = &mut self.0;
        (&mut by_ref).poll_map_change_unpin(cx)
    }
}
struct ByRefSig<S: ?Sized>(Pin<Box<S>>);
impl<S: Signal + ?Sized> Signal for ByRefSig<S> {
    type Item = S::Item;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<S::Item>> {
        let mut by_ref = &mut self.0;
        (&mut by_ref).poll_change_unpin(cx)
    }
}
pub fn hold_vec<S: SignalVec + 'static>(sv: S) -> Pin<Box<dyn SignalVec<Item = S::Item>>> {
    match wrap(8) {
        1 => sv.boxed_local(),
        2 => Box::pin(Box::new(Box::pin(sv))),
        3 => Box::pin(ByRef(Box::pin(sv))),
        4 => Box::pin(By(Box::pin(sv.to_stream()))),
        5 | 6 => {
            let (item, f) = feed();
            Box::pin(Fed { fut: Box::pin(sv.for_each(f)), item })
        }
        _ => Box::pin(sv),
    }
}
pub fn hold_map<S: SignalMap + 'static>(sm: S) -> Pin<Box<dyn SignalMap<Key = S::Key, Value = S::Value>>> {
    match wrap(8) {
        1 => sm.boxed_local(),
        2 => Box::pin(Box::new(Box::pin(sm))),
        3 => Box::pin(ByRefMap(Box::pin(sm))),
        4 | 5 => {
            let (item, f) = feed();
            Box::pin(Fed { fut: Box::pin(sm.for_each(f)), item })
        }
        _ => Box::pin(sm),
    }
}
pub fn hold_sig<S: Signal + 'static>(sig: S) -> Pin<Box<dyn Signal<Item = S::Item>>> {
    match wrap(8) {
        1 => sig.boxed_local(),
        2 => Box::pin(Box::new(Box::pin(sig))),
        3 => Box::pin(ByRefSig(Box::pin(sig))),
        4 => Box::pin(BySig(Box::pin(sig.to_stream()))),
        5 | 6 => {
            let (item, f) = feed();
            Box::pin(FedSig(Fed { fut: Box::pin(sig.for_each(f)), item }))
        }
        _ => Box::pin(sig),
    }
}

/// A future that consumes a source and keeps its contents somewhere.
pub struct ForEachView<M> {
    fut: Pin<Box<dyn Future<Output = ()>>>,
    mirror: Rc<RefCell<M>>,
    err: Rc<RefCell<R>>,
    to_j: fn(&M) -> J,
}
impl<M: 'static> ForEachView<M> {
    pub fn new(fut: impl Future<Output = ()> + 'static, mirror: Rc<RefCell<M>>, err: Rc<RefCell<R>>, to_j: fn(&M) -> J) -> Self {
        ForEachView { fut: Box::pin(fut), mirror, err, to_j }
    }
}
impl<M: 'static> View for ForEachView<M> {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String> {
        let p = self.fut.as_mut().poll(cx);
        self.err.borrow().clone()?;
        Ok(if p.is_ready() { Ev::End } else { Ev::Pending })
    }
    fn check(&mut self, exp: &J, drained: bool) -> R {
        let c = (self.to_j)(&self.mirror.borrow());
        if drained && &c != exp {
            return Err(format!("the callback was told {} but the specification says {}", c, exp));
        }
        Ok(())
    }
    fn take_out(&mut self) -> Vec<J> {
        vec![]
    }
}

// ---- future / stream views: emit the output once, then END
pub struct FutView<T> {
    fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    to_j: fn(&T) -> J,
    out: Vec<J>,
}
impl<T: 'static> FutView<T> {
    pub fn new(f: impl Future<Output = T> + 'static, to_j: fn(&T) -> J) -> Self {
        FutView { fut: Some(Box::pin(f)), to_j, out: vec![] }
    }
}
impl<T: 'static> View for FutView<T> {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String> {
        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => {
                self.out.push((self.to_j)(&v));
                self.out.push(json!("END"));
                self.fut = None;
                Ok(Ev::End)
            }
            Poll::Pending => Ok(Ev::Pending),
        }
    }
    fn check(&mut self, _exp: &J, _d: bool) -> R {
        Ok(())
    }
    fn take_out(&mut self) -> Vec<J> {
        std::mem::take(&mut self.out)
    }
}

pub struct StreamView<T> {
    st: Pin<Box<dyn futures_core::Stream<Item = T>>>,
    to_j: fn(&T) -> J,
    out: Vec<J>,
}
impl<T: 'static> StreamView<T> {
    pub fn new(f: impl futures_core::Stream<Item = T> + 'static, to_j: fn(&T) -> J) -> Self {
        StreamView { st: Box::pin(f), to_j, out: vec![] }
    }
}
impl<T: 'static> View for StreamView<T> {
    fn poll(&mut self, cx: &mut Context) -> Result<Ev, String> {
        match self.st.as_mut().poll_next(cx) {
            Poll::Ready(Some(v)) => {
                self.out.push((self.to_j)(&v));
                Ok(Ev::Item)
            }
            Poll::Ready(None) => {
                self.out.push(json!("END"));
                Ok(Ev::End)
            }
            Poll::Pending => Ok(Ev::Pending),
        }
    }
    fn check(&mut self, _exp: &J, _d: bool) -> R {
        Ok(())
    }
    fn take_out(&mut self) -> Vec<J> {
        std::mem::take(&mut self.out)
    }
}

// ------------------------------------------------------------------ hubs
/// A scripted source: every subscriber gets its own queue of items.
pub struct SubQ<D> {
    q: VecDeque<D>,
    /// What was sent but has not arrived yet: an item, or the end
    coming: VecDeque<Option<D>>,
    latest: bool,
    closed: bool,
    finished: bool,
    waker: Option<Waker>,
    gone: bool,
}
pub struct Hub<D> {
    subs: Rc<RefCell<Vec<Rc<RefCell<SubQ<D>>>>>>,
    pub closed: Rc<Cell<bool>>,
    /// 0: well behaved; n: every n-th poll wakes itself and returns Pending
    pub selfwake: usize,
    /// keep only the newest item (like a signal)
    pub latest: bool,
    /// put off items although an idle wake-up already happened in between
    pub late: bool,
}
/// What hubs send while this is on arrives later, in the middle of polls: as if other threads were sending it.
struct Stir {
    on: bool,
    rng: Rng,
    coming: Vec<Rc<dyn Arrive>>,
}
thread_local! { static STIR: RefCell<Stir> = RefCell::new(Stir { on: false, rng: Rng::new(0), coming: vec![] }); }
trait Arrive {
    /// The next item arrives; whether that was the last one
    fn arrive(&self) -> (bool, Option<Waker>);
}
impl<D> Arrive for RefCell<SubQ<D>> {
    fn arrive(&self) -> (bool, Option<Waker>) {
        let mut s = self.borrow_mut();
        match s.coming.pop_front() {
            Some(Some(d)) => {
                if s.latest {
                    s.q.clear();
                }
                s.q.push_back(d);
            }
            Some(None) => s.closed = true,
            None => {}
        }
        (s.coming.is_empty(), s.waker.take())
    }
}
/// Begin to put off what is sent.
pub fn stir_on(seed: u64) {
    STIR.with(|s| {
        let mut s = s.borrow_mut();
        if !s.on {
            s.on = true;
            s.rng = Rng::new(seed);
        }
    })
}
/// Everything arrives at once from now on (there must be nothing left).
pub fn stir_off() {
    STIR.with(|s| {
        let mut s = s.borrow_mut();
        s.on = false;
        s.coming.clear();
    })
}
pub fn stir_below(n: usize) -> usize {
    STIR.with(|s| {
        let mut s = s.borrow_mut();
        if s.on {
            s.rng.below(n)
        } else {
            0
        }
    })
}
/// Something arrives, at some source (maybe); whether something did
pub fn stir(always: bool) -> bool {
    let next = STIR.with(|s| {
        let mut s = s.borrow_mut();
        if !s.on || s.coming.is_empty() || !(always || s.rng.chance(1, 3)) {
            return None;
        }
        let n = s.coming.len();
        let k = s.rng.below(n);
        Some(s.coming[k].clone())
    });
    let Some(next) = next else { return false };
    let (last, waker) = next.arrive();
    if last {
        STIR.with(|s| s.borrow_mut().coming.retain(|c| !Rc::ptr_eq(c, &next)));
    }
    if let Some(w) = waker {
        w.wake()
    }
    true
}
impl<D> Clone for Hub<D> {
    fn clone(&self) -> Self {
        Hub { subs: self.subs.clone(), closed: self.closed.clone(), selfwake: self.selfwake, latest: self.latest, late: self.late }
    }
}
impl<D: 'static> Hub<D> {
    pub fn new(selfwake: usize) -> Self {
        Hub { subs: Rc::new(RefCell::new(vec![])), closed: Rc::new(Cell::new(false)), selfwake, latest: false, late: false }
    }
    pub fn new_latest(selfwake: usize) -> Self {
        Hub { latest: true, ..Hub::new(selfwake) }
    }
    pub fn subscribe(&self, initial: impl IntoIterator<Item = D>) -> HubSource<D> {
        let q = Rc::new(RefCell::new(SubQ { q: initial.into_iter().collect(), coming: VecDeque::new(), latest: self.latest, closed: self.closed.get(), finished: false, waker: None, gone: false }));
        self.subs.borrow_mut().push(q.clone());
        HubSource { q, selfwake: self.selfwake, n: 0, skipped: false, delayed: false, late: self.late }
    }
    pub fn send(&self, mut mk: impl FnMut() -> D) {
        let subs: Vec<_> = {
            let mut s = self.subs.borrow_mut();
            s.retain(|q| !q.borrow().gone);
            s.clone()
        };
        for s in subs {
            Self::tell(s, Some(mk()))
        }
    }
    pub fn close(&self) {
        self.closed.set(true);
        let subs: Vec<_> = self.subs.borrow().clone();
        for s in subs {
            Self::tell(s, None)
        }
    }
    fn tell(s: Rc<RefCell<SubQ<D>>>, what: Option<D>) {
        let stirred = STIR.with(|x| x.borrow().on);
        let first = {
            let mut s = s.borrow_mut();
            if s.gone {
                return;
            }
            s.coming.push_back(what);
            s.coming.len() == 1
        };
        if !stirred {
            if let (_, Some(w)) = s.arrive() {
                w.wake()
            }
        } else if first {
            STIR.with(|x| x.borrow_mut().coming.push(s))
        }
    }
    /// Number of sources that are still held by someone
    pub fn live(&self) -> usize {
        self.subs.borrow().iter().filter(|q| !q.borrow().gone).count()
    }
}
pub struct HubSource<D> {
    q: Rc<RefCell<SubQ<D>>>,
    selfwake: usize,
    n: usize,
    skipped: bool,
    delayed: bool,
    late: bool,
}
impl<D> Drop for HubSource<D> {
    fn drop(&mut self) {
        let w = {
            let mut q = self.q.borrow_mut();
            q.gone = true;
            (q.waker.take(), std::mem::take(&mut q.q), std::mem::take(&mut q.coming))
        };
        drop(w);
    }
}
impl<D> HubSource<D> {
    fn poll(&mut self, cx: &mut Context) -> Poll<Option<D>> {
        stir(false);
        let r = self.poll_now(cx);
        stir(false);
        r
    }
    fn poll_now(&mut self, cx: &mut Context) -> Poll<Option<D>> {
        let mut q = self.q.borrow_mut();
        if q.finished {
            panic!("VP: a source was polled again after it had ended");
        }
        // A self-waking source puts off every n-th item (and the end) by one poll, and
        // wakes itself once for nothing after every item; never at the very first poll.
        let idle = q.q.is_empty() && !q.closed;
        let due = if idle { !self.skipped } else { !self.delayed && (self.late || !self.skipped) && self.n % self.selfwake.max(1) == 0 };
        if self.selfwake > 0 && self.n > 0 && due {
            if idle {
                self.skipped = true;
            } else {
                self.delayed = true;
                self.skipped = true;
            }
            drop(q);
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if !idle {
            self.n += 1;
            self.skipped = false;
            self.delayed = false;
        }
        if let Some(d) = q.q.pop_front() {
            Poll::Ready(Some(d))
        } else if q.closed {
            q.finished = true;
            Poll::Ready(None)
        } else {
            q.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
impl<T> Unpin for HubSource<T> {}
pub struct HubVec<T>(pub HubSource<VecDiff<T>>);
impl<T> SignalVec for HubVec<T> {
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> {
        self.0.poll(cx)
    }
}
pub struct HubMap<K, V>(pub HubSource<MapDiff<K, V>>);
impl<K, V> SignalMap for HubMap<K, V> {
    type Key = K;
    type Value = V;
    fn poll_map_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<MapDiff<K, V>>> {
        self.0.poll(cx)
    }
}
pub struct HubSig<T>(pub HubSource<T>);
impl<T> Signal for HubSig<T> {
    type Item = T;
    fn poll_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.0.poll(cx)
    }
}
pub struct HubStream<T>(pub HubSource<T>);
impl<T> futures_core::Stream for HubStream<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<T>> {
        self.0.poll(cx)
    }
}

/// A vector with subscribers, fed by JSON diffs; counterpart of `Diffs` in Lib.tla.
#[derive(Clone)]
pub struct VecHub {
    pub hub: Hub<VecDiff<i64>>,
    pub now: Rc<RefCell<Vec<i64>>>,
    /// how a subscriber is told the contents
    pub initial: Initial,
}
/// A SignalVec may tell its contents in any way it likes.
#[derive(Clone, Copy, PartialEq)]
pub enum Initial {
    /// one Replace, even when empty
    Eager,
    /// one Replace, unless empty
    Lazy,
    /// a Push for every element
    Push,
    /// every element inserted at the front, last one first
    Insert,
    /// a Clear, the first half at once and the rest one by one
    Mixed,
}
impl Initial {
    pub fn of(j: &J) -> Initial {
        match j {
            J::Null => Initial::Eager,
            J::Bool(true) => Initial::Eager,
            J::Bool(false) => Initial::Lazy,
            j => match j.as_str() {
                Some("push") => Initial::Push,
                Some("insert") => Initial::Insert,
                Some("mixed") => Initial::Mixed,
                _ => panic!("VPHARNESS: initial {}", j),
            },
        }
    }
    /// The order in which the values of the contents are told.
    pub fn order<T>(self, mut now: Vec<T>) -> Vec<T> {
        if self == Initial::Insert {
            now.reverse();
        }
        now
    }
    pub fn map_diffs<K, V>(self, now: Vec<(K, V)>) -> Vec<MapDiff<K, V>> {
        match self {
            Initial::Lazy if now.is_empty() => vec![],
            Initial::Eager | Initial::Lazy => vec![MapDiff::Replace { entries: now }],
            Initial::Push => now.into_iter().map(|(key, value)| MapDiff::Insert { key, value }).collect(),
            Initial::Insert => now.into_iter().rev().map(|(key, value)| MapDiff::Insert { key, value }).collect(),
            Initial::Mixed => {
                let n = now.len() / 2;
                let mut now = now.into_iter();
                let head: Vec<(K, V)> = now.by_ref().take(n).collect();
                let mut out = vec![MapDiff::Clear {}];
                if !head.is_empty() {
                    out.push(MapDiff::Replace { entries: head });
                }
                out.extend(now.map(|(key, value)| MapDiff::Insert { key, value }));
                out
            }
        }
    }
    pub fn diffs<T>(self, now: Vec<T>) -> Vec<VecDiff<T>> {
        match self {
            Initial::Lazy if now.is_empty() => vec![],
            Initial::Eager | Initial::Lazy => vec![VecDiff::Replace { values: now }],
            Initial::Push => now.into_iter().map(|value| VecDiff::Push { value }).collect(),
            Initial::Insert => now.into_iter().rev().map(|value| VecDiff::InsertAt { index: 0, value }).collect(),
            Initial::Mixed => {
                let n = now.len() / 2;
                let mut now = now.into_iter();
                let mut out = vec![VecDiff::Clear {}];
                let head: Vec<T> = now.by_ref().take(n).collect();
                if !head.is_empty() {
                    out.push(VecDiff::Replace { values: head });
                }
                out.extend(now.map(|value| VecDiff::Push { value }));
                out
            }
        }
    }
}
impl VecHub {
    pub fn new(selfwake: usize, initial: Initial) -> Self {
        VecHub { hub: Hub::new(selfwake), now: Rc::new(RefCell::new(vec![])), initial }
    }
    pub fn subscribe(&self) -> HubVec<i64> {
        let now = self.now.borrow().clone();
        HubVec(self.hub.subscribe(self.initial.diffs(now)))
    }
    pub fn apply(&self, op: &J) {
        vec_apply(&mut self.now.borrow_mut(), vec_diff(op));
        self.hub.send(|| vec_diff(op));
    }
}
pub fn vec_diff(op: &J) -> VecDiff<i64> {
    match s(op, "op") {
        "replace" => VecDiff::Replace { values: ints(&op["vs"]) },
        "insert" => VecDiff::InsertAt { index: u(op, "i"), value: i(op, "v") },
        "update" => VecDiff::UpdateAt { index: u(op, "i"), value: i(op, "v") },
        "remove" => VecDiff::RemoveAt { index: u(op, "i") },
        "move" => VecDiff::Move { old_index: u(op, "o"), new_index: u(op, "n") },
        "push" => VecDiff::Push { value: i(op, "v") },
        "pop" => VecDiff::Pop {},
        "clear" => VecDiff::Clear {},
        o => panic!("VPHARNESS: unknown diff {}", o),
    }
}

// ------------------------------------------------------------------ gates
/// A future that completes once its gate is open.
#[derive(Clone)]
pub struct Gate(Rc<RefCell<GateState>>);
struct GateState {
    open: bool,
    wakers: Vec<Waker>,
    live: usize,
}
impl Gate {
    pub fn new() -> Self {
        Gate(Rc::new(RefCell::new(GateState { open: false, wakers: vec![], live: 0 })))
    }
    pub fn open(&self) {
        let ws = {
            let mut g = self.0.borrow_mut();
            g.open = true;
            std::mem::take(&mut g.wakers)
        };
        for w in ws {
            w.wake()
        }
    }
    pub fn live(&self) -> usize {
        self.0.borrow().live
    }
    pub fn wait(&self) -> GateFut {
        self.0.borrow_mut().live += 1;
        GateFut { g: self.clone(), done: false }
    }
}
pub struct GateFut {
    g: Gate,
    done: bool,
}
impl Drop for GateFut {
    fn drop(&mut self) {
        self.g.0.borrow_mut().live -= 1;
    }
}
impl Future for GateFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.done {
            panic!("VP: a future was polled again after it had completed");
        }
        let open = {
            let mut g = self.g.0.borrow_mut();
            if !g.open {
                g.wakers.push(cx.waker().clone());
            }
            g.open
        };
        if open {
            self.done = true;
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

// ------------------------------------------------------------------ JSON helpers
pub fn s<'a>(j: &'a J, k: &str) -> &'a str {
    j[k].as_str().unwrap_or_else(|| panic!("VPHARNESS: no string field {} in {}", k, j))
}
pub fn i(j: &J, k: &str) -> i64 {
    j[k].as_i64().unwrap_or_else(|| panic!("VPHARNESS: no int field {} in {}", k, j))
}
pub fn u(j: &J, k: &str) -> usize {
    i(j, k) as usize
}
pub fn ints(j: &J) -> Vec<i64> {
    j.as_array().unwrap_or_else(|| panic!("VPHARNESS: not an array: {}", j)).iter().map(|x| x.as_i64().unwrap()).collect()
}
pub fn ji(v: &i64) -> J {
    json!(*v)
}
pub fn jb(v: &bool) -> J {
    json!(*v)
}

// ------------------------------------------------------------------ systems under test
pub trait Sut {
    /// Perform one operation of the specification on the real objects.
    fn apply(&mut self, op: &J, x: &J) -> R;
    fn slots(&mut self) -> &mut Vec<Slot>;
    /// The specification decides who is polled when; `post` is called after every operation.
    fn manual(&self) -> bool {
        false
    }
    /// Add one more complete set of views.
    fn subscribe(&mut self) {}
    /// Drop the i-th (modulo) extra set of views.
    fn unsubscribe(&mut self, _i: usize) {}
    fn post(&mut self, _obs: &J) -> R {
        Ok(())
    }
    /// Called once at the end of a walk: drop everything and check what is left.
    fn finish(&mut self) -> R {
        Ok(())
    }
}

/// A `Sut` assembled from closures.
pub struct Multi {
    pub slots: Vec<Slot>,
    pub sets: Vec<usize>,
    pub max_sets: usize,
    pub mk: Box<dyn FnMut() -> Vec<Slot>>,
    pub apply: Box<dyn FnMut(&J, &J, &mut Vec<Slot>) -> R>,
    pub post: Box<dyn FnMut(&J, &mut Vec<Slot>) -> R>,
    pub finish: Box<dyn FnMut() -> R>,
}
impl Multi {
    pub fn new(mk: impl FnMut() -> Vec<Slot> + 'static, apply: impl FnMut(&J, &J, &mut Vec<Slot>) -> R + 'static) -> Multi {
        let mut m = Multi { slots: vec![], sets: vec![], max_sets: 4, mk: Box::new(mk), apply: Box::new(apply), post: Box::new(|_, _| Ok(())), finish: Box::new(|| Ok(())) };
        m.subscribe();
        m
    }
    pub fn with_post(mut self, f: impl FnMut(&J, &mut Vec<Slot>) -> R + 'static) -> Self {
        self.post = Box::new(f);
        self
    }
    pub fn with_finish(mut self, f: impl FnMut() -> R + 'static) -> Self {
        self.finish = Box::new(f);
        self
    }
}
/// Remembers the arguments a closure is called with.
pub fn logged() -> (Rc<RefCell<Vec<J>>>, impl Fn(i64)) {
    let log = Rc::new(RefCell::new(vec![]));
    let l = log.clone();
    (log, move |v| l.borrow_mut().push(json!(v)))
}
pub fn expect_calls(sl: &mut [Slot], x: &J) {
    for sl in sl.iter_mut() {
        sl.view.expect_calls(x.as_array().expect("VPHARNESS calls"));
    }
}

impl Sut for Multi {
    fn apply(&mut self, op: &J, x: &J) -> R {
        (self.apply)(op, x, &mut self.slots)
    }
    fn slots(&mut self) -> &mut Vec<Slot> {
        &mut self.slots
    }
    fn subscribe(&mut self) {
        if self.sets.len() < self.max_sets {
            let v = (self.mk)();
            if !v.is_empty() {
                self.sets.push(v.len());
                self.slots.extend(v);
            }
        }
    }
    fn unsubscribe(&mut self, i: usize) {
        if self.sets.len() > 1 {
            let k = i % self.sets.len();
            let a: usize = self.sets[..k].iter().sum();
            let n = self.sets.remove(k);
            self.slots.drain(a..a + n);
        }
    }
    fn post(&mut self, obs: &J) -> R {
        (self.post)(obs, &mut self.slots)
    }
    fn finish(&mut self) -> R {
        self.slots.clear();
        (self.finish)()
    }
}

/// Nothing may be held more often than the spec says (`held`: pairs of an id and a number per view).
pub fn held_at_most(obs: &J, views: usize, what: &str, live: impl Fn(i64) -> Option<usize>) -> R {
    for p in obs["held"].as_array().ok_or("VPHARNESS held")? {
        let (k, n) = (p[0].as_i64().unwrap(), p[1].as_u64().unwrap() as usize);
        if let Some(have) = live(k) {
            if have > n * views {
                return Err(format!("{} {} are held of {}, although only {} are in use", have, what, k, n * views));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ tracked values
/// A value whose copies are counted: every one must be dropped exactly once.
pub struct Tr {
    pub v: i64,
    id: u64,
}
thread_local! {
    static LIVE: RefCell<std::collections::HashSet<u64>> = RefCell::new(Default::default());
    static NEXT: Cell<u64> = Cell::new(0);
    static DOUBLE: Cell<u64> = Cell::new(0);
}
impl Tr {
    pub fn new(v: i64) -> Tr {
        let id = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        LIVE.with(|l| l.borrow_mut().insert(id));
        Tr { v, id }
    }
    pub fn reset() {
        LIVE.with(|l| l.borrow_mut().clear());
        DOUBLE.with(|d| d.set(0));
    }
    pub fn live() -> usize {
        LIVE.with(|l| l.borrow().len())
    }
    pub fn check_live(expected: usize) -> R {
        if DOUBLE.with(|d| d.get()) > 0 {
            return Err("a value was dropped twice".into());
        }
        if Tr::live() != expected {
            return Err(format!("{} values are alive, expected {}", Tr::live(), expected));
        }
        Ok(())
    }
}
impl Default for Tr {
    fn default() -> Tr {
        Tr::new(0)
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        Tr::new(self.v)
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        self.v == o.v
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}
impl std::hash::Hash for Tr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}
impl Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        let known = LIVE.try_with(|l| l.borrow_mut().remove(&self.id)).unwrap_or(true);
        if !known {
            let _ = DOUBLE.try_with(|d| d.set(d.get() + 1));
        }
    }
}
impl From<Tr> for i64 {
    fn from(t: Tr) -> i64 {
        t.v
    }
}
pub fn jt(t: &Tr) -> J {
    json!(t.v)
}
pub fn tracked(v: &J) -> Vec<Tr> {
    ints(v).into_iter().map(Tr::new).collect()
}
