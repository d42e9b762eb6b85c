//! MutVec.tla: the whole MutableVec API, with replicas subscribed at any time.
use crate::core::*;
use futures_signals::signal_vec::{MutableVec, MutableVecLockMut, SignalVec, VecDiff};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// Which flavour of the API is used: the `Copy` one or the `Clone` one.
pub trait El: Clone + Ord + Hash + std::fmt::Debug + 'static {
    fn mk(v: i64) -> Self;
    fn val(&self) -> i64;
    fn push(l: &mut MutableVecLockMut<Self>, v: i64);
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, v: i64);
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, v: i64);
    fn replace(l: &mut MutableVecLockMut<Self>, v: Vec<i64>);
    fn sub(m: &MutableVec<Self>) -> Pin<Box<dyn SignalVec<Item = Self>>>;
}
impl El for i64 {
    fn mk(v: i64) -> i64 {
        v
    }
    fn val(&self) -> i64 {
        *self
    }
    fn push(l: &mut MutableVecLockMut<Self>, v: i64) {
        l.push(v)
    }
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, v: i64) {
        l.insert(i, v)
    }
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, v: i64) {
        l.set(i, v)
    }
    fn replace(l: &mut MutableVecLockMut<Self>, v: Vec<i64>) {
        l.replace(v)
    }
    fn sub(m: &MutableVec<Self>) -> Pin<Box<dyn SignalVec<Item = Self>>> {
        Box::pin(m.signal_vec())
    }
}
impl El for Tr {
    fn mk(v: i64) -> Tr {
        Tr::new(v)
    }
    fn val(&self) -> i64 {
        self.v
    }
    fn push(l: &mut MutableVecLockMut<Self>, v: i64) {
        l.push_cloned(Tr::new(v))
    }
    fn insert(l: &mut MutableVecLockMut<Self>, i: usize, v: i64) {
        l.insert_cloned(i, Tr::new(v))
    }
    fn set(l: &mut MutableVecLockMut<Self>, i: usize, v: i64) {
        l.set_cloned(i, Tr::new(v))
    }
    fn replace(l: &mut MutableVecLockMut<Self>, v: Vec<i64>) {
        l.replace_cloned(v.into_iter().map(Tr::new).collect())
    }
    fn sub(m: &MutableVec<Self>) -> Pin<Box<dyn SignalVec<Item = Self>>> {
        Box::pin(m.signal_vec_cloned())
    }
}

/// Passes diffs through while also applying them with the library's own functions.
struct LibMirror<T: El> {
    inner: Pin<Box<dyn SignalVec<Item = T>>>,
    by_apply: Rc<RefCell<Vec<T>>>,
    by_mutable: MutableVec<T>,
}
impl<T: El> Unpin for LibMirror<T> {}
impl<T: El> SignalVec for LibMirror<T> {
    type Item = T;
    fn poll_vec_change(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<VecDiff<T>>> {
        let p = self.inner.as_mut().poll_vec_change(cx);
        if let Poll::Ready(Some(d)) = &p {
            vec_valid(self.by_apply.borrow().len(), d).unwrap_or_else(|e| panic!("{}", e));
            d.clone().apply_to_vec(&mut self.by_apply.borrow_mut());
            let mut l = self.by_mutable.lock_mut();
            MutableVecLockMut::apply_vec_diff(&mut l, d.clone());
        }
        p
    }
}

fn conv<T: El>(d: VecDiff<i64>) -> VecDiff<T> {
    match d {
        VecDiff::Replace { values } => VecDiff::Replace { values: values.into_iter().map(T::mk).collect() },
        VecDiff::InsertAt { index, value } => VecDiff::InsertAt { index, value: T::mk(value) },
        VecDiff::UpdateAt { index, value } => VecDiff::UpdateAt { index, value: T::mk(value) },
        VecDiff::Push { value } => VecDiff::Push { value: T::mk(value) },
        VecDiff::RemoveAt { index } => VecDiff::RemoveAt { index },
        VecDiff::Move { old_index, new_index } => VecDiff::Move { old_index, new_index },
        VecDiff::Pop {} => VecDiff::Pop {},
        VecDiff::Clear {} => VecDiff::Clear {},
    }
}

fn eq(what: &str, got: J, exp: &J) -> R {
    if &got == exp {
        Ok(())
    } else {
        Err(format!("{} is {} but the specification says {}", what, got, exp))
    }
}
fn vals<T: El>(v: &[T]) -> J {
    J::Array(v.iter().map(|x| json!(x.val())).collect())
}

fn do_op<T: El>(m: &MutableVec<T>, op: &J) -> J {
    let mut l = m.lock_mut();
    if s(op, "op") == "batch" {
        let mut rets = vec![];
        for o in op["ops"].as_array().unwrap() {
            rets.push(do_one(&mut l, o));
        }
        return J::Array(rets);
    }
    do_one(&mut l, op)
}
fn do_one<T: El>(l: &mut MutableVecLockMut<T>, op: &J) -> J {
    let name = s(op, "op");
    let mut ret = json!([]);
    match name {
        "push" => T::push(l, i(op, "v")),
        "insert" => T::insert(l, u(op, "i"), i(op, "v")),
        "set" => T::set(l, u(op, "i"), i(op, "v")),
        "remove" => ret = json!([l.remove(u(op, "i")).val()]),
        "pop" => ret = l.pop().map_or(json!([]), |v| json!([v.val()])),
        "clear" => l.clear(),
        "replace" => T::replace(l, ints(&op["vs"])),
        "move" => l.move_from_to(u(op, "o"), u(op, "n")),
        "swap" => l.swap(u(op, "a"), u(op, "b")),
        "retain" => {
            let keep = ints(&op["keep"]);
            let mut seen = vec![];
            l.retain(|v| {
                seen.push(v.val());
                keep.contains(&v.val())
            });
            ret = json!(seen);
        }
        "drainrange" => {
            let (a, b) = (u(op, "a"), u(op, "b"));
            let d: Vec<T> = match s(op, "form") {
                "half" => l.drain(a..b).collect(),
                "incl" => l.drain(a..=b - 1).collect(),
                "to" => l.drain(..b).collect(),
                "toincl" => l.drain(..=b - 1).collect(),
                "from" => l.drain(a..).collect(),
                "full" => l.drain(..).collect(),
                "dropped" => {
                    drop(l.drain(a..b));
                    vec![]
                }
                "some" => l.drain(a..b).next().into_iter().collect(),
                "back" => l.drain(a..b).rev().collect(),
                _ => l.drain((Bound::Excluded(a - 1), Bound::Excluded(b))).collect(),
            };
            ret = vals(&d);
        }
        "truncate" => l.truncate(u(op, "n")),
        "reverse" => l.reverse(),
        "extend" => l.extend(ints(&op["vs"]).into_iter().map(T::mk)),
        "apply" => MutableVecLockMut::apply_vec_diff(l, conv::<T>(vec_diff(&op["d"]))),
        "caps" => {
            let n = l.len();
            let before = vals(l);
            match s(op, "call") {
                "reserve" => {
                    l.reserve(7);
                    assert!(l.capacity() >= n + 7, "reserve");
                }
                "reserve_exact" => {
                    l.reserve_exact(3);
                    assert!(l.capacity() >= n + 3, "reserve_exact");
                }
                "shrink_to_fit" => {
                    l.shrink_to_fit();
                    assert!(l.capacity() >= n, "shrink_to_fit");
                }
                "serde" => {
                    // reading through the write lock
                    let v: Vec<i64> = l.iter().map(|x| x.val()).collect();
                    let m = MutableVec::from(v.clone());
                    let j = serde_json::to_value(&m).expect("serialize");
                    assert_eq!(j, vals(&l[..]), "the serialized form");
                    let back: MutableVec<i64> = serde_json::from_value(j).expect("deserialize");
                    assert_eq!(&back.lock_ref()[..], &v[..], "what was serialized and read back");
                    assert!(MutableVec::<i64>::default().lock_ref().is_empty() && MutableVec::from([1, 2]).lock_ref()[..] == [1, 2]);
                }
                _ => {}
            }
            assert_eq!(vals(l), before, "contents after {}", op);
        }
        "oob" => {
            let n = u(op, "i");
            match s(op, "call") {
                "set" => T::set(l, n, 0),
                "insert" => T::insert(l, n, 0),
                "remove" => {
                    l.remove(n);
                }
                "move" => l.move_from_to(n, 0),
                "swap" => l.swap(n, n + 1),
                "drainfrom" => {
                    l.drain(n + 1..);
                }
                _ => {
                    l.drain(0..n + 2);
                }
            }
        }
        o => panic!("VPHARNESS: unknown op {}", o),
    }
    ret
}

pub fn make_of<T: El>(cfg: &J) -> Box<dyn Sut> {
    let initial: Vec<T> = vec![];
    let first = match cfg["ctor"].as_u64() {
        Some(1) => MutableVec::new_with_values(initial),
        Some(2) => MutableVec::with_capacity(4),
        _ => MutableVec::new(),
    };
    let handles: Rc<RefCell<Vec<MutableVec<T>>>> = Rc::new(RefCell::new(vec![first]));
    let dead = Rc::new(RefCell::new(false));
    let turn = Rc::new(RefCell::new(0usize));
    let pick = {
        let (handles, turn) = (handles.clone(), turn);
        move || -> Option<MutableVec<T>> {
            let h = handles.borrow();
            *turn.borrow_mut() += 1;
            if h.is_empty() {
                None
            } else {
                // through a temporary clone every third time, which must not matter
                Some(h[*turn.borrow() % h.len()].clone())
            }
        }
    };
    let lib = cfg["lib"].as_bool().unwrap_or(false);
    let mk = {
        let (pick, dead) = (pick.clone(), dead.clone());
        move || {
            if *dead.borrow() {
                return vec![];
            }
            let m = match pick() {
                Some(m) => m,
                None => return vec![],
            };
            let by_apply = Rc::new(RefCell::new(vec![]));
            let by_mutable = MutableVec::new();
            let src: Pin<Box<dyn SignalVec<Item = T>>> = if lib {
                Box::pin(LibMirror { inner: T::sub(&m), by_apply: by_apply.clone(), by_mutable: by_mutable.clone() })
            } else {
                T::sub(&m)
            };
            let mut v = VecView::new(src, |t: &T| json!(t.val())).replica();
            if lib {
                v = v.with_custom(move |mirror, exp| {
                    eq("the replica", vals(mirror), exp)?;
                    eq("the vector built with apply_to_vec", vals(&by_apply.borrow()), exp)?;
                    eq("the MutableVec built with apply_vec_diff", vals(&by_mutable.lock_ref()), exp)
                });
            }
            let out = vec![Slot::new_b("replica", v)];
            out
        }
    };
    let apply = {
        let (handles, pick, dead) = (handles.clone(), pick.clone(), dead.clone());
        move |op: &J, x: &J, _sl: &mut Vec<Slot>| -> R {
            match s(op, "op") {
                "clone" => {
                    let c = handles.borrow()[0].clone();
                    handles.borrow_mut().push(c);
                }
                "drop" => {
                    // drop the oldest one: the last one standing is a clone
                    let h = handles.borrow_mut().remove(0);
                    drop(h);
                }
                "oob" => {
                    let m = pick().unwrap();
                    *dead.borrow_mut() = true;
                    if catch_unwind(AssertUnwindSafe(|| do_op(&m, op))).is_ok() {
                        return Err(format!("{} did not panic", op));
                    }
                }
                "handles" => {
                    let h = handles.borrow()[0].clone();
                    let mut more: Vec<_> = (0..u(op, "n")).map(|_| h.clone()).collect();
                    std::mem::swap(&mut handles.borrow_mut()[0], &mut more[0]);
                    drop(h);
                    more.into_iter().rev().for_each(drop);
                }
                // more subscribers; half of them leave before the contents change back
                "crowd" => {
                    let m = pick().unwrap();
                    let v = i(op, "v");
                    let mut crowd: Vec<Slot> = (0..u(op, "n"))
                        .map(|k| Slot::new_b(&format!("crowd {}", k), VecView::new(T::sub(&m), |t: &T| json!(t.val())).replica()))
                        .collect();
                    for round in 0..3 {
                        let exp = vals(&m.lock_ref());
                        for sl in crowd.iter_mut() {
                            sl.run(usize::MAX)?;
                            sl.view.check(&exp, true).map_err(|e| format!("{} of {}, round {}: {}", sl.name, op["n"], round, e))?;
                        }
                        match round {
                            0 => {
                                T::push(&mut m.lock_mut(), v);
                                for sl in crowd.iter_mut() {
                                    sl.view.note(&vals(&m.lock_ref()), false)?;
                                }
                                let mut k = 0;
                                crowd.retain(|_| {
                                    k += 1;
                                    k % 2 == 0
                                });
                            }
                            1 => {
                                m.lock_mut().pop();
                                for sl in crowd.iter_mut() {
                                    sl.view.note(&vals(&m.lock_ref()), false)?;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                _ => {
                    let m = pick().unwrap();
                    let r = do_op(&m, op);
                    eq(&format!("the result of {}", op), r, &x["ret"])?;
                }
            }
            Ok(())
        }
    };
    let post = {
        let handles = handles.clone();
        move |obs: &J, _sl: &mut Vec<Slot>| -> R {
            if obs["dead"] == json!(true) {
                return Ok(());
            }
            for m in handles.borrow().iter() {
                let l = m.lock_ref();
                eq("lock_ref()", vals(&l), &obs["contents"])?;
                eq("as_slice()", vals(l.as_slice()), &obs["contents"])?;
                let n = l.len();
                for k in 0..n {
                    eq("indexing", json!(l[k].val()), &obs["contents"][k])?;
                }
                eq("Debug", json!(format!("{:?}", m)), &json!(format!("MutableVec({:?})", &l[..])))?;
                let (mut a, mut b) = (DefaultHasher::new(), DefaultHasher::new());
                l.hash(&mut a);
                l[..].to_vec().hash(&mut b);
                let s1: &[T] = l.as_ref();
                let s2: &[T] = std::borrow::Borrow::borrow(&l);
                if a.finish() != b.finish() || s1 != &l[..] || s2 != &l[..] || l.cmp(&m.lock_ref()) != std::cmp::Ordering::Equal {
                    return Err("the lock hashes, compares or borrows otherwise than the slice".into());
                }
                if !(l == m.lock_ref() && &l[..] == m.lock_ref().as_slice()) {
                    return Err("a lock does not equal itself".into());
                }
            }
            Ok(())
        }
    };
    let finish = {
        let handles = handles.clone();
        move || -> R {
            handles.borrow_mut().clear();
            Tr::check_live(0)
        }
    };
    Box::new(Multi::new(mk, apply).with_post(post).with_finish(finish))
}

pub fn make(cfg: &J) -> Box<dyn Sut> {
    match s(cfg, "el") {
        "copy" => make_of::<i64>(cfg),
        _ => make_of::<Tr>(cfg),
    }
}
pub fn configs() -> Vec<J> {
    vec![
        json!({"name": "copy", "el": "copy", "ctor": 0}),
        json!({"name": "cloned", "el": "tr", "ctor": 1}),
        json!({"name": "copy-lib", "el": "copy", "lib": true, "ctor": 2}),
        json!({"name": "cloned-lib", "el": "tr", "lib": true}),
    ]
}
