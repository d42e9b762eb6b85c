"""Which specifications and bindings decide which property."""

RUSTFLAGS = {
    "seq": "-A mismatched_lifetime_syntaxes",
    "conc": "-A mismatched_lifetime_syntaxes --cfg vp_hooks",
}

ASSUMPTIONS = [
    "TLC and the CommunityModules JSON output are trusted",
    "the harness (consumers, scripted sources, comparison) is trusted; it never uses the diff application of the library itself",
    "constants of the specifications bound the exhaustive part; larger sizes are covered by TLC simulation and random walks only",
]

# module -> (bfs cfg, sim (num, depth) quick, sim thorough, bigger constants for the thorough tier)
SPECS = {
    "VecViews": dict(sim=(250, 41), tsim=(2500, 41), large=(200, 41), huge=(50, 16), big={"MaxLen": "4", "Keys": "{0, 1}"}),
    "MutVec": dict(sim=(250, 42), tsim=(2500, 42), large=(300, 52), huge=(50, 22), big=None),
    "DynVec": dict(sim=(250, 42), tsim=(2500, 42), large=(300, 52), huge=(50, 16), big=None),
    "ChainVec": dict(sim=(250, 42), tsim=(2500, 42), large=(300, 52), huge=(50, 16), big={"MaxLen": "3"}),
    "FlatVec": dict(sim=(200, 52), tsim=(2000, 52), large=(300, 52), huge=(50, 20), big=None),
    "SwitchVec": dict(sim=(200, 52), tsim=(2000, 52), large=(300, 52), huge=(50, 20), big=None),
    "DelayVec": dict(sim=(250, 42), tsim=(2500, 42), large=(300, 52), huge=(50, 16), big=None),
    "SigOps": dict(sim=(250, 52), tsim=(2500, 52), big=None),
    "MapRefs": dict(sim=(250, 62), tsim=(2500, 62), big=None),
    "FlatSig": dict(sim=(250, 52), tsim=(2500, 52), big=None),
    "AsyncMap": dict(sim=(250, 52), tsim=(2500, 52), big=None),
    "AsyncDelay": dict(sim=(250, 52), tsim=(2500, 52), big=None),
    "AsyncStream": dict(sim=(250, 52), tsim=(2500, 52), big=None),
    "MutMap": dict(sim=(250, 42), tsim=(2500, 42), large=(300, 62), huge=(50, 16), big={"NKeys": "4"}),
    "DynMap": dict(sim=(250, 42), tsim=(2500, 42), large=(300, 62), huge=(50, 16), big={"Closers": "{0, 1}", "NKeys": "3"}),
    "MutApi": dict(sim=(250, 62), tsim=(2500, 62), big=None),
    "Channel": dict(sim=(250, 52), tsim=(2500, 52), huge=(100, 26), big=None),
    "Cancel": dict(sim=(250, 32), tsim=(2500, 32), big=None),
    "Life": dict(sim=(250, 52), tsim=(2500, 52), big=None),
    "Compose": dict(sim=(3000, 37), tsim=(20000, 37), big={"MaxA": "3", "NG": "2", "NKeys": "2"}, extra=["Compose.pairs.cfg"]),
    "Observers": dict(sim=(250, 62), tsim=(2500, 62), large=(60, 102), huge=(40, 26), big=None),
}


def seq(tier, sut, mod, walks=6000, length=30, **kw):
    s = SPECS[mod]
    quick = tier == "quick"
    tl = [dict(mod=mod, cfg=mod + ".cfg")] + [dict(mod=mod, cfg=c) for c in s.get("extra", [])]
    if not quick and s["big"]:
        tl.append(dict(mod=mod, cfg=mod + ".cfg", defs=s["big"], timeout=400, optional=True))
    if quick:
        tl.append(dict(mod=mod, cfg=mod + ".sim.cfg", sim=list(s["sim"])))
        for size in ("large", "huge"):
            if s.get(size):
                tl.append(dict(mod=mod, cfg="%s.%s.cfg" % (mod, size), sim=list(s[size])))
    else:
        for size in ("large", "huge"):
            if s.get(size):
                tl += [dict(mod=mod, cfg="%s.%s.cfg" % (mod, size), sim=[s[size][0] * 10, s[size][1]], seed=k + 1) for k in range(3)]
        for k in range(4):
            tl.append(dict(mod=mod, cfg=mod + ".sim.cfg", sim=list(s["tsim"]), seed=k + 1))
    return dict(kind="seq", harness="seq", sut=sut, tlc=tl, walks=walks if quick else walks * 20, len=length if quick else length * 2, **kw)


def conc(tier, kinds, spec, n, m=600, rnd=600, preempt=2):
    if tier != "quick":
        n, m, rnd, preempt = n * 4, m * 6, rnd * 6, preempt + 1
    return dict(kind="conc", harness="conc", kinds=kinds, spec=spec, n=n, max=m, random=rnd, preempt=preempt, keep=4000 if tier == "quick" else 8000)


# everything else that consumes by waking alone: for C21 at a smaller size
ALL_WAKE = [("vec", "VecViews"), ("chain", "ChainVec"), ("flat", "FlatVec"), ("switch", "SwitchVec"), ("dyn", "DynVec"), ("delay", "DelayVec"),
            ("sig", "SigOps"), ("maprefs", "MapRefs"), ("flatsig", "FlatSig"), ("asyncmap", "AsyncMap"), ("asyncdelay", "AsyncDelay"), ("asyncstream", "AsyncStream"),
            ("mmap", "MutMap"), ("dynmap", "DynMap")]


def table(t):
    return {
        "C01": [seq(t, "observers", "Observers", configs="mut,mut-cloned,mut-ref,mut-mix"), conc(t, ["mut"], "LinObs", 40)],
        "C02": [seq(t, "observers", "Observers", configs="mut,mut-cloned,mut-ref,mut-mix"), conc(t, ["end"], "LinObs", 60)],
        "C03": [seq(t, "mutapi", "MutApi"), conc(t, ["mutapi"], "LinObs", 30, m=2000, rnd=1000)],
        "C04": [seq(t, "chan", "Channel"), conc(t, ["chan"], "LinChan", 40)],
        "C05": [seq(t, "observers", "Observers", configs="bc,bc-mix,bchub,bchub-queue-mix,bchub-sw2,bchub-sw2-late,bchub-sw2-late-mix"), conc(t, ["bc"], "LinObs", 40)],
        "C06": [seq(t, "sig", "SigOps"), seq(t, "maprefs", "MapRefs")],
        "C07": [seq(t, "flatsig", "FlatSig")],
        "C08": [seq(t, "asyncmap", "AsyncMap"), seq(t, "asyncdelay", "AsyncDelay"), seq(t, "asyncstream", "AsyncStream")],
        "C09": [seq(t, "mvec", "MutVec"), conc(t, ["vec"], "LinVec", 30)],
        "C10": [seq(t, "vec", "VecViews", views="map,filter,filter_map")],
        "C11": [seq(t, "vec", "VecViews", views="sort,sort_asc")],
        "C12": [seq(t, "vec", "VecViews", views="enumerate")],
        "C13": [seq(t, "chain", "ChainVec")],
        "C14": [seq(t, "flat", "FlatVec"), seq(t, "switch", "SwitchVec")],
        "C15": [seq(t, "dyn", "DynVec")],
        "C16": [seq(t, "delay", "DelayVec")],
        "C18": [seq(t, "mmap", "MutMap", views="replica", configs="copy,cloned,copy-from,cloned-default"), conc(t, ["map"], "LinMap", 30)],
        "C19": [seq(t, "mmap", "MutMap", views="for_each,map_value,key1,key2,keys,entries,entries_cloned"), seq(t, "dynmap", "DynMap")],
        "C20": [seq(t, "cancel", "Cancel"), conc(t, ["cancel"], "LinCancel", 0, m=4000, preempt=3)],
        "C21": [seq(t, "compose", "Compose")] + [seq(t, s, m, walks=1500, **({"cov": 8000} if t == "quick" else {})) for s, m in ALL_WAKE],
        "C22": [seq(t, "life", "Life"), conc(t, ["chan"], "LinChan", 20), seq(t, "mutapi", "MutApi"), seq(t, "chan", "Channel"),
                seq(t, "observers", "Observers", configs="mut,mut-mix,bc,bc-mix"),
                seq(t, "mvec", "MutVec", configs="cloned,cloned-lib"), seq(t, "mmap", "MutMap", configs="cloned,cloned-default")],
        "C17": [seq(t, "vec", "VecViews", views="len,is_empty,sum,to_signal,to_signal_map")],
    }


PROPS = sorted(table("quick"))


def jobs(prop, tier):
    return table(tier).get(prop, [])

HOOK_COMMITS = ["2a6d13e", "4315ac8"]
NOT_APPLICABLE = {}
NOTES = {}
NOTE = ("Exhaustive over the specification's transition system at small constants, every transition replayed into the real code; "
        "larger constants by TLC simulation and random walks. Trusts TLC and the replay harness.")
