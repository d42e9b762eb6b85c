"""Programs for the concurrent harness: small hand-picked ones and random ones."""
import random


def op(name, **kw):
    return dict(op=name, **kw)


def consume(o):
    return op("consume", o=o)


# ------------------------------------------------------------------ Mutable / Broadcaster
def mut(threads, own, obs=(), vals=(0,), src="mut"):
    """threads: programs; own: per thread the list of Mutables it has a handle of;
    obs: (observer, thread, mutable) that exist from the start."""
    handles = [sum(o.count(m) for o in own) for m in range(len(vals))]
    return dict(kind="mut", src=src, own=own, obs=[dict(o=o, t=t, m=m) for o, t, m in obs], threads=threads,
                init=dict(strict=src == "mut", vals=list(vals), handles=handles, obs=[dict(o=o, m=m) for o, t, m in obs]))


def S(v, m=0):
    return op("set", m=m, v=v)


def D(m=0):
    return op("drop", m=m)


def mut_core(src):
    C0, C1 = [consume(0)], [consume(1)]
    o0 = [(0, 0, 0)]
    o01 = [(0, 0, 0), (1, 1, 0)]
    return [
        mut([C0, [S(1)]], [[], [0]], o0, src=src),
        mut([C0, [S(1), S(2)]], [[], [0]], o0, src=src),
        mut([C0, [S(1)], [S(2)]], [[], [0], [0]], o0, src=src),
        mut([C0, [S(1), D()]], [[], [0]], o0, src=src),
        mut([C0, [D()]], [[], [0]], o0, src=src),
        mut([C0, [S(1), D()], [D()]], [[], [0], [0]], o0, src=src),
        mut([C0, [op("clone", m=0), D(), S(1), D()]], [[], [0]], o0, src=src),
        mut([C0, C1, [S(1)]], [[], [], [0]], o01, src=src),
        mut([C0, C1, [S(1), D()]], [[], [], [0]], o01, src=src),
        mut([C0, [op("sub", o=1, m=0), consume(1)], [S(1), D()]], [[], [], [0]], o0, src=src),
        mut([[op("sub", o=0, m=0), consume(0)], [D()]], [[], [0]], src=src),
        mut([[op("poll", o=0), op("unsub", o=0)], [consume(1)], [S(1), S(2)]], [[], [], [0]], o01, src=src),
        mut([[op("poll", o=0), op("poll", o=0), consume(0)], [S(1), op("get", m=0), D()]], [[], [0]], o0, src=src),
    ]


def mut_api():
    o0 = [(0, 0, 0)]
    C0 = [consume(0)]
    two = (0, 5)
    return [
        mut([[op("replace", m=0, v=1)], [op("replace", m=0, v=2)], [op("get", m=0)]], [[0], [0], [0]]),
        mut([[op("replace_with", m=0, v=1)], [op("replace_with", m=0, v=2)]], [[0], [0]]),
        mut([[op("lock_add", m=0, v=1)], [op("lock_add", m=0, v=2), op("get", m=0)]], [[0], [0]]),
        mut([[op("lock_add", m=0, v=1)], [op("replace", m=0, v=7)], C0], [[0], [0], []], [(0, 2, 0)]),
        mut([[op("take", m=0)], [op("lock_add", m=0, v=2)]], [[0], [0]], vals=(3,)),
        mut([[op("set_neq", m=0, v=1)], [op("set_neq", m=0, v=1), op("set_neq", m=0, v=0)], C0], [[0], [0], []], [(0, 2, 0)]),
        mut([[op("set_neq", m=0, v=1)], [op("set_neq", m=0, v=1)], C0], [[0], [0], []], [(0, 2, 0)]),
        mut([[op("set_neq", m=0, v=1)], [S(1), op("poll", o=0), op("poll", o=0)]], [[0], [0]], [(0, 1, 0)]),
        mut([[op("set_if_gt", m=0, v=1)], [S(1), op("poll", o=0), op("poll", o=0)]], [[0], [0]], [(0, 1, 0)]),
        mut([[op("set_neq", m=0, v=1)], [op("set_neq", m=0, v=1), op("poll", o=0), op("poll", o=0), D()]], [[0], [0]], [(0, 1, 0)]),
        mut([[op("set_neq", m=0, v=0), op("lock_look", m=0)], [op("poll", o=0), op("poll", o=0), D()]], [[0], [0]], [(0, 1, 0)]),
        mut([[op("set_if_gt", m=0, v=2)], [op("set_if_gt", m=0, v=1)], [op("get", m=0), op("get", m=0)]], [[0], [0], [0]]),
        mut([[op("ref2", m=0)], [S(1), S(2)]], [[], [0]]),
        mut([[op("lock_look", m=0), S(1)], C0], [[0], []], [(0, 1, 0)]),
        mut([[op("swap", m=0, n=1)], [op("swap", m=1, n=0)]], [[0, 1], [0, 1]], vals=two),
        mut([[op("swap", m=0, n=1)], [op("get", m=0), op("get", m=1)]], [[0, 1], [0, 1]], vals=two),
        mut([[op("swap", m=0, n=1)], [op("swap", m=1, n=0)], [consume(0), consume(1)]], [[0, 1], [0, 1], []], [(0, 2, 0), (1, 2, 1)], vals=two),
        mut([[op("swap", m=0, n=1)], C0, [consume(1)]], [[0, 1], [], []], [(0, 1, 0), (1, 2, 1)], vals=two),
        mut([[op("swap", m=0, n=1)], [op("lock_add", m=1, v=1)]], [[0, 1], [0, 1]], vals=two),
        mut([[op("swap", m=0, n=0)], C0], [[0], []], [(0, 1, 0)]),
        mut([[op("swap", m=0, n=0)], [S(1)]], [[0], [0]]),
    ]


def mut_random(r, src):
    nw = r.choice([1, 2, 2])
    nc = r.choice([1, 1, 2]) if src == "bc" or r.random() < .6 else 1
    nm = 1 if src == "bc" else r.choice([1, 1, 2])
    threads, own, obs = [], [], []
    for c in range(nc):
        m = r.randrange(nm)
        if r.random() < .3:
            p = [op("sub", o=c, m=m)]
        else:
            p = []
            obs.append((c, c, m))
        for _ in range(r.choice([0, 0, 1, 2])):
            p.append(op("poll", o=c))
        k = r.random()
        if k < .85:
            p.append(consume(c))
        else:
            p += [op("poll", o=c), op("unsub", o=c)]
        threads.append(p)
        own.append([])
    v = [0]

    def val():
        v[0] += 1
        return v[0]
    for w in range(nw):
        p = []
        n = [1] * nm
        for _ in range(r.choice([1, 2, 2, 3])):
            ms = [m for m in range(nm) if n[m]]
            if not ms:
                break
            m = r.choice(ms)
            k = r.choice(["set", "set", "set", "set_neq", "set_if_gt", "replace", "replace_with", "lock_add", "take", "get", "ref2", "lock_look", "clone", "drop", "swap"])
            if k in ("set", "set_if_gt", "replace"):
                p.append(op(k, m=m, v=val()))
            elif k in ("replace_with", "lock_add"):
                p.append(op(k, m=m, v=10))
            elif k == "set_neq":
                p.append(op(k, m=m, v=r.choice([0, 1, val()])))
            elif k == "swap":
                if len(ms) == nm:
                    p.append(op(k, m=m, n=r.randrange(nm)))
            elif k == "clone":
                p.append(op(k, m=m))
                n[m] += 1
            elif k == "drop":
                p.append(op(k, m=m))
                n[m] -= 1
            else:
                p.append(op(k, m=m))
        for m in range(nm):
            if r.random() < .5:
                p += [op("drop", m=m)] * n[m]
        threads.append(p)
        own.append(list(range(nm)))
    return mut(threads, own, obs, vals=[0] + [50] * (nm - 1), src=src)


def api_random(r):
    """Two or three threads use one or two Mutables in all ways; at most one of them is observed."""
    nm = r.choice([1, 1, 2])
    nw = 2 if r.random() < .75 else 3
    threads, v = [], 10
    for w in range(nw):
        p = []
        for _ in range(r.choice([1, 2] if nw == 3 else [1, 2, 2, 3])):
            m = r.randrange(nm)
            k = r.choice(["set", "set_neq", "set_neq", "set_if_gt", "set_if_gt", "replace", "replace_with", "replace_with", "lock_add", "lock_add", "take", "get", "ref2", "lock_look", "swap", "swap"])
            v += 1
            if k in ("set", "replace"):
                p.append(op(k, m=m, v=v))
            elif k == "set_if_gt":
                p.append(op(k, m=m, v=r.choice([0, 5, v])))
            elif k in ("replace_with", "lock_add"):
                p.append(op(k, m=m, v=r.choice([1, 10, 100])))
            elif k == "set_neq":
                p.append(op(k, m=m, v=r.choice([0, 3, 3])))
            elif k == "swap":
                p.append(op(k, m=m, n=r.randrange(nm)))
            else:
                p.append(op(k, m=m))
        if r.random() < .5:
            p.append(op(r.choice(["get", "ref2"]), m=r.randrange(nm)))
        threads.append(p)
    own, obs = [list(range(nm)) for _ in threads], []
    if r.random() < .6:
        threads.append([consume(0)])
        own.append([])
        obs.append((0, nw, r.randrange(nm)))
    return mut(threads, own, obs, vals=[0] + [3] * (nm - 1))


def mut_end(src):
    """Handles are cloned and dropped while observers are made and polled."""
    C0, C1 = [consume(0)], [consume(1)]
    o0 = [(0, 0, 0)]
    c, d = op("clone", m=0), D()
    late = [op("sub", o=0, m=0), consume(0)]
    return [
        mut([C0, [c, d, d]], [[], [0]], o0, src=src),
        mut([C0, [d], [d]], [[], [0], [0]], o0, src=src),
        mut([C0, [c, d, d], [c, d, d]], [[], [0], [0]], o0, src=src),
        mut([C0, [c, d], [d]], [[], [0], [0]], o0, src=src),
        mut([C0, [S(1), d], [S(2), d]], [[], [0], [0]], o0, src=src),
        mut([C0, C1, [d], [d]], [[], [], [0], [0]], [(0, 0, 0), (1, 1, 0)], src=src),
        mut([late, [S(1), d]], [[], [0]], src=src),
        mut([late, C1, [c, S(1), d, d]], [[], [], [0]], [(1, 1, 0)], src=src),
        mut([[op("poll", o=0), op("poll", o=0), consume(0)], [d]], [[], [0]], o0, src=src),
        mut([[op("poll", o=0), op("unsub", o=0)], C1, [d]], [[], [], [0]], [(0, 0, 0), (1, 1, 0)], src=src),
        mut([C0, [op("set_neq", m=0, v=0), d]], [[], [0]], o0, src=src),
        mut([C0, [op("lock_add", m=0, v=1), d]], [[], [0]], o0, src=src),
        mut([C0, [c, op("set_if_gt", m=0, v=1), d, d]], [[], [0]], o0, src=src),
    ]


def end_random(r, src):
    nw = r.choice([1, 2, 2, 3])
    threads, own, obs = [], [], []
    for c in range(r.choice([1, 1, 2]) if nw < 3 else 1):
        if r.random() < .35:
            p = [op("sub", o=c, m=0)]
        else:
            p = []
            obs.append((c, c, 0))
        p += [op("poll", o=c)] * r.choice([0, 0, 1, 2])
        threads.append(p + [consume(c)])
        own.append([])
    v = 0
    for w in range(nw):
        p, n = [], 1
        for _ in range(r.choice([1, 2, 3])):
            if n == 0:
                break
            k = r.choice(["set", "set_neq", "lock_add", "clone", "clone", "drop", "drop"])
            v += 1
            p.append(op(k, m=0) if k in ("clone", "drop") else op(k, m=0, v=r.choice([0, v])))
            n += (k == "clone") - (k == "drop")
        if r.random() < .85:
            p += [D()] * n
        threads.append(p)
        own.append([0])
    return mut(threads, own, obs, src=src)


# ------------------------------------------------------------------ channel
def chan(threads, own, rx):
    return dict(kind="chan", threads=threads, own=own, rx=rx, init=dict(v=0, n=sum(own)))


def chan_core():
    C = [consume(0)]
    s = lambda v: op("send", v=v)
    d, cl, c = op("drop"), op("close"), op("clone")
    return [
        chan([C, [s(1)]], [0, 1], 0),
        chan([C, [s(1), s(2)]], [0, 1], 0),
        chan([C, [s(1), d]], [0, 1], 0),
        chan([C, [d]], [0, 1], 0),
        chan([C, [cl]], [0, 1], 0),
        chan([C, [s(1), cl, s(2)]], [0, 1], 0),
        chan([C, [s(1), d], [s(2), d]], [0, 1, 1], 0),
        chan([C, [s(1), d], [cl, d]], [0, 1, 1], 0),
        chan([C, [d], [cl]], [0, 1, 1], 0),
        chan([C, [d], [cl], [s(3)]], [0, 1, 1, 1], 0),
        chan([C, [c], [cl]], [0, 1, 1], 0),
        chan([C, [c, s(1), d, d], [cl, s(2)]], [0, 1, 1], 0),
        chan([C, [c, d, s(1), d]], [0, 1], 0),
        chan([C, [c, d, d], [d]], [0, 1, 1], 0),
        chan([[op("poll", o=0), op("drop_rx")], [s(1), s(2)]], [0, 1], 0),
        chan([[op("poll", o=0), op("drop_rx")], [s(1), d], [cl]], [0, 1, 1], 0),
        chan([[op("poll", o=0), op("poll", o=0), consume(0)], [s(1), s(2), d]], [0, 1], 0),
    ]


def chan_random(r):
    nw = r.choice([1, 2, 2, 3])
    p = [op("poll", o=0)] * r.choice([0, 0, 1, 2])
    p = list(p) + ([consume(0)] if r.random() < .85 else [op("drop_rx")])
    threads, own = [p], [0]
    v = 0
    for w in range(nw):
        p, n = [], 1
        for _ in range(r.choice([1, 2, 3])):
            if n == 0:
                break
            k = r.choice(["send", "send", "send", "close", "clone", "drop"])
            if k == "send":
                v += 1
                p.append(op(k, v=v))
            else:
                p.append(op(k))
                n += (k == "clone") - (k == "drop")
        if r.random() < .5:
            p += [op("drop")] * n
        threads.append(p)
        own.append(1)
    return chan(threads, own, 0)


# ------------------------------------------------------------------ MutableVec / MutableBTreeMap
def coll(kind, threads, own, obs=(), vals=()):
    init = dict(n=sum(own), obs=[o for o, t in obs])
    init["vals" if kind == "vec" else "entries"] = list(vals)
    return dict(kind=kind, threads=threads, own=own, obs=[dict(o=o, t=t) for o, t in obs], init=init)


def vec_core():
    p = lambda v: op("push", v=v)
    C0, C1 = [consume(0)], [consume(1)]
    d, rd = op("drop"), op("read")
    return [
        coll("vec", [C0, [p(1), p(2)]], [0, 1], [(0, 0)]),
        coll("vec", [C0, [p(1), d], [p(2), d]], [0, 1, 1], [(0, 0)], [9]),
        coll("vec", [C0, C1, [p(1), op("pop"), d]], [0, 0, 1], [(0, 0), (1, 1)]),
        coll("vec", [[op("sub", o=0), op("drop"), consume(0)], [p(1), p(2), d]], [1, 1]),
        coll("vec", [[op("sub", o=0), op("drop"), consume(0)], [op("push2", v=1)], [op("clear")]], [1, 1, 1], [], [7]),
        coll("vec", [[op("push2", v=1), rd], [op("push2", v=3), rd]], [1, 1]),
        coll("vec", [C0, [op("insert", v=1)], [op("remove0"), rd]], [0, 1, 1], [(0, 0)], [5]),
        coll("vec", [C0, [op("rotate"), op("set0", v=8)], [op("rotate"), d]], [0, 1, 1], [(0, 0)], [5, 6]),
        coll("vec", [C0, [op("replace", v=1), d], [op("clear"), d]], [0, 1, 1], [(0, 0)], [5, 6]),
        coll("vec", [[op("poll", o=0), op("unsub", o=0)], C1, [p(1), p(2), d]], [0, 0, 1], [(0, 0), (1, 1)], [5]),
        coll("vec", [C0, [op("clone"), d, p(1), d], [d]], [0, 1, 1], [(0, 0)]),
        coll("vec", [C0, [d]], [0, 1], [(0, 0)]),
    ]


def vec_random(r):
    nw = r.choice([1, 2, 2])
    threads, own, obs = [], [], []
    for c in range(r.choice([1, 1, 2])):
        if r.random() < .5:
            obs.append((c, len(threads)))
            threads.append([consume(c)])
            own.append(0)
        else:
            threads.append([op("sub", o=c), op("drop"), consume(c)])
            own.append(1)
    v = 0
    for w in range(nw):
        p = []
        for _ in range(r.choice([1, 2, 2])):
            k = r.choice(["push", "push2", "insert", "pop", "remove0", "set0", "rotate", "clear", "replace", "read"])
            if k in ("push", "insert", "set0", "replace", "push2"):
                v += 2
                p.append(op(k, v=v))
            else:
                p.append(op(k))
        if r.random() < .6:
            p.append(op("drop"))
        threads.append(p)
        own.append(1)
    return coll("vec", threads, own, obs, [90, 91][:r.choice([0, 1, 2])])


def map_core():
    ins = lambda k, v: op("insert", k=k, v=v)
    C0, C1 = [consume(0)], [consume(1)]
    d, rd = op("drop"), op("read")
    return [
        coll("map", [C0, [ins(1, 1), ins(1, 2)]], [0, 1], [(0, 0)]),
        coll("map", [C0, [ins(1, 1), d], [op("remove", k=1), d]], [0, 1, 1], [(0, 0)], [[1, 9]]),
        coll("map", [C0, C1, [ins(2, 1), op("clear"), d]], [0, 0, 1], [(0, 0), (1, 1)], [[1, 9]]),
        coll("map", [[op("sub", o=0), op("drop"), consume(0)], [ins(1, 1), ins(2, 2), d]], [1, 1]),
        coll("map", [[op("sub", o=0), op("drop"), consume(0)], [ins(1, 1)], [op("clear")]], [1, 1, 1], [], [[3, 7]]),
        coll("map", [[op("bump", k=1, v=1), rd], [op("bump", k=1, v=2), rd]], [1, 1]),
        coll("map", [C0, [op("replace", k=1, v=1), d], [ins(2, 2), op("remove", k=2), d]], [0, 1, 1], [(0, 0)], [[1, 5]]),
        coll("map", [[op("poll", o=0), op("unsub", o=0)], C1, [ins(1, 1), ins(2, 2), d]], [0, 0, 1], [(0, 0), (1, 1)], [[3, 7]]),
        coll("map", [C0, [d]], [0, 1], [(0, 0)]),
    ]


def map_random(r):
    nw = r.choice([1, 2, 2])
    threads, own, obs = [], [], []
    for c in range(r.choice([1, 1, 2])):
        if r.random() < .5:
            obs.append((c, len(threads)))
            threads.append([consume(c)])
            own.append(0)
        else:
            threads.append([op("sub", o=c), op("drop"), consume(c)])
            own.append(1)
    v = 0
    for w in range(nw):
        p = []
        for _ in range(r.choice([1, 2, 2])):
            k = r.choice(["insert", "insert", "bump", "remove", "clear", "replace", "read"])
            v += 1
            q = op(k)
            if k in ("insert", "bump", "remove", "replace"):
                q["k"] = r.choice([1, 2])
            if k in ("insert", "bump", "replace"):
                q["v"] = v
            p.append(q)
        if r.random() < .6:
            p.append(op("drop"))
        threads.append(p)
        own.append(1)
    return coll("map", threads, own, obs, [[1, 90], [3, 91]][:r.choice([0, 1, 2])])


# ------------------------------------------------------------------ cancelable_future
def cancel_core():
    C = [consume(0)]
    out = []
    for inside in (False, True):
        for rest in ([["discard"]], [["open"]], [["discard"], ["open"]], [["open"], ["leak"]], [["open", "discard"]], [["discard", "open"]], [["leak", "open"]]):
            if inside and any("leak" in x for x in rest):
                continue
            for first in (C, [op("poll", o=0)] + C, [op("poll", o=0), op("drop_fut")]):
                if first[-1]["op"] == "drop_fut" and (inside or any("leak" in x for x in rest)):
                    continue
                out.append(dict(kind="cancel", rx=0, inside=inside, threads=[first] + [[op(x) for x in p] for p in rest], init=dict(inside=inside)))
    return out


def copied(scen):
    """The same program with plain values: signal(), get(), push(), ... instead of signal_cloned(), ..."""
    return dict(scen, copy=True)


def third(scens):
    """Every third program runs with plain values instead of counted ones."""
    return [copied(s) if j % 3 == 1 else s for j, s in enumerate(scens)]


def scenarios(kinds, n_random, seed):
    r = random.Random(seed * 7919 + 13)
    out = []
    for k in kinds:
        if k in ("mut", "bc"):
            out += mut_core(k)
            out += [copied(s) for s in mut_core(k)[::3]]
            out += third([mut_random(r, k) for _ in range(n_random)])
        elif k == "end":
            for src in ("mut", "bc"):
                out += mut_end(src)
            out += third([end_random(r, "mut" if j % 4 else "bc") for j in range(n_random)])
        elif k == "mutapi":
            out += mut_api()
            out += [copied(s) for s in mut_api()[::3]]
            out += third([api_random(r) for _ in range(n_random)])
        elif k == "chan":
            out += chan_core()
            out += [chan_random(r) for _ in range(n_random)]
        elif k == "vec":
            out += vec_core()
            out += [copied(s) for s in vec_core()[1::3]]
            out += third([vec_random(r) for _ in range(n_random)])
        elif k == "map":
            out += map_core()
            out += [copied(s) for s in map_core()[1::3]]
            out += third([map_random(r) for _ in range(n_random)])
        elif k == "cancel":
            out += cancel_core()
        else:
            raise ValueError(k)
    return out
