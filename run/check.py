#!/usr/bin/env python3
"""check.py <ID>|setup [quick|thorough]

Decides one property: runs TLC on the specifications named for it in jobs.py, binds them
to the code in /repo (replaying what TLC printed into the real library, or checking
traces recorded from the real library against the specification) and writes
evidence/<ID>.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: the check
itself could not decide.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
WORK = os.path.join(ROOT, ".work")
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CORES = os.cpu_count() or 4
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "HOME": os.environ.get("HOME", "/root"),
    "PATH": "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""),
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never",
    "RUSTC_WRAPPER": "",
})
ENV.pop("CARGO_INCREMENTAL", None)


# seconds a check may take (thorough, quick); what does not fit is left out and counted as such
BUDGET = (float(os.environ.get("VERIF_BUDGET", 840)), 780.0)


def bounded():
    """Memory without bound ends in an abort of that process, not in the machine running out of it."""
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


def died(rc):
    """Whether the library brought the process down (SIGKILL and SIGTERM come from elsewhere)."""
    return rc in (101, 134) or (rc < 0 and -rc not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGHUP))


class Broken(Exception):
    """The check could not be carried out (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def files_under(d, ext):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        out += [os.path.join(r, f) for f in sorted(fs) if f.endswith(ext)]
    return out


def build(which):
    """Build one harness crate against /repo's working tree; returns the binary."""
    os.makedirs(WORK, exist_ok=True)
    crate = os.path.join(ROOT, "harness", which)
    tgt = os.path.join(WORK, "target-" + which)
    srcs = files_under(os.path.join(REPO, "src"), ".rs") + [os.path.join(REPO, "Cargo.toml")]
    srcs += files_under(crate, ".rs") + [os.path.join(crate, "Cargo.toml"), os.path.join(crate, "Cargo.lock")]
    key = sha(srcs) + J.RUSTFLAGS[which]
    stamp = os.path.join(WORK, "built-" + which)
    binary = os.path.join(tgt, "debug", "vp-" + which)
    try:
        with open(stamp) as f:
            if f.read() == key and os.path.exists(binary):
                return binary
    except OSError:
        pass
    # contents decide, never time stamps
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("futures-signals-") or d.startswith("vp-"):
                subprocess.run(["rm", "-rf", os.path.join(fp, d)], check=True)
    env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS=J.RUSTFLAGS[which])
    lock = os.path.join(crate, "Cargo.lock")
    with open(lock, "rb") as f:
        before = f.read()
    p = subprocess.run(["cargo", "build", "--offline"], cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(lock, "rb") as f:
        after = f.read()
    if after != before:
        with open(lock, "wb") as f:
            f.write(before)
    if p.returncode != 0 or not os.path.exists(binary):
        log(p.stdout[-6000:])
        raise Broken("cannot build harness " + which)
    with open(stamp, "w") as f:
        f.write(key)
    return binary


# ------------------------------------------------------------------ TLC
def tlc(job):
    """Run TLC; returns (stats, output file).  Cached by the contents of the specs."""
    mod, cfg = job["mod"], job["cfg"]
    sim = job.get("sim")
    seed = job.get("seed", SEED)
    defs = job.get("defs") or {}
    key = hashlib.sha256((sha(files_under(SPEC, ".tla") + [os.path.join(SPEC, cfg)]) + json.dumps([mod, cfg, sim, seed if sim else 0, defs])).encode()).hexdigest()[:20]
    d = os.path.join(WORK, "tlc")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s.out" % (cfg.replace(".cfg", ""), key))
    meta = out + ".json"
    if os.path.exists(meta) and os.path.exists(out):
        with open(meta) as f:
            return json.load(f), out
    run = os.path.join(d, "run-%s-%d" % (key, os.getpid()))
    os.makedirs(run, exist_ok=True)
    for f in files_under(SPEC, ".tla"):
        os.symlink(f, os.path.join(run, os.path.basename(f)))
    with open(os.path.join(SPEC, cfg)) as f:
        text = f.read()
    for k, v in defs.items():
        text, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % re.escape(k), lambda m: m.group(1) + " " + v, text)
        if n != 1:
            raise Broken("no constant %s in %s" % (k, cfg))
    with open(os.path.join(run, "run.cfg"), "w") as f:
        f.write(text)
    cmd = ["tlc", "-workers", str(job.get("workers", 1)), "-metadir", os.path.join(run, "md"), "-config", "run.cfg"]
    if sim:
        cmd += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(seed)]
    cmd += [mod + ".tla"]
    t = time.time()
    try:
        with open(out + ".tmp", "w") as f:
            p = subprocess.run(cmd, cwd=run, env=dict(ENV, JAVA_TOOL_OPTIONS="-Xmx4g -Xss64m"), stdout=f, stderr=subprocess.STDOUT, timeout=job.get("timeout", 600))
    except subprocess.TimeoutExpired:
        subprocess.run(["rm", "-rf", run])
        if job.get("optional"):
            return {"mod": mod, "cfg": cfg, "rc": 0, "wall": round(time.time() - t, 2), "out_of_time": True}, None
        raise Broken("TLC ran out of time on %s" % cfg)
    subprocess.run(["rm", "-rf", run])
    text = subprocess.run(["grep", "-v", '^"@', out + ".tmp"], stdout=subprocess.PIPE, text=True).stdout
    st = {"mod": mod, "cfg": cfg, "rc": p.returncode, "wall": round(time.time() - t, 2), "expect_violation": bool(job.get("violates"))}
    m = re.search(r"(\d+) states generated, (\d+) distinct", text)
    if m:
        st["transitions"], st["states"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"number of states generated: (\d+)", text)
    if m:
        st["sim_states"] = int(m.group(1))
    want = job.get("violates")
    if want:
        ok = p.returncode == 12 or (p.returncode != 0 and ("is violated" in text or "Deadlock reached" in text))
        if not ok:
            log(text[-3000:])
            raise Broken("TLC was expected to refute %s in %s" % (want, cfg))
    elif p.returncode != 0 or not ("transitions" in st or "sim_states" in st):
        log(text[-4000:])
        raise Broken("TLC failed on %s (exit %d)" % (cfg, p.returncode))
    os.rename(out + ".tmp", out)
    with open(meta + ".tmp", "w") as f:
        json.dump(st, f)
    os.rename(meta + ".tmp", meta)
    return st, out


# ------------------------------------------------------------------ known findings
def known(prop):
    """Entries `known: property=<id> sut=<sut> match=<regex>` (unrepaired findings)."""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) sut=(\S+) match=(.*)$", line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------------ jobs
class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.states = self.transitions = self.traces = self.comparisons = self.steps = 0
        self.samples, self.details, self.violations = [], [], []
        self.t0 = time.time()
        self.seed, self.round = SEED, 0  # the seed in use; rounds past the first (thorough)

    def replay_path(self, name):
        d = os.path.join(WORK, "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9._-]", "_", name)))

    def violation(self, sut, msg, path):
        for s, rx in known(self.prop):
            if s == sut and re.search(rx, msg):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, msg))
                return
        self.violations.append((sut, msg, path))
        log("violation in %s: %s" % (sut, msg))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def left(self):
        return BUDGET[self.tier == "quick"] - (time.time() - self.t0)

    # -- specification -> code: what TLC printed is replayed into the library
    def share(self, items):
        """Seconds for the next of `items` pieces of work."""
        left = self.left()
        return max(60.0, min(left - 20, 1.5 * left / max(1, items)))

    def seq(self, job, lts, label, share):
        rp = self.replay_path(job["sut"] + "-" + label)
        cmd = [self.seqbin, "run", "--sut", job["sut"], "--lts", lts, "--seed", str(self.seed), "--walks", str(job["walks"]), "--len", str(job.get("len", 30)),
               "--replay-out", rp, "--threads", str(min(8, CORES)), "--deadline", str(int(share))]
        for k in ("views", "configs", "cov"):
            if job.get(k):
                cmd += ["--" + k, str(job[k])]
        t = time.time()
        try:
            p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=share + 100, preexec_fn=bounded)
        except subprocess.TimeoutExpired:
            raise Broken("replay of %s ran out of time" % job["sut"])
        if p.returncode not in (0, 1):
            log(p.stderr[-3000:])
            if died(p.returncode):
                # the library brought the process down (abort in a drop, stack overflow ...)
                with open(rp, "w") as f:
                    json.dump({"sut": job["sut"], "message": "the process died: exit %d" % p.returncode, "stderr": p.stderr[-2000:], "cmd": cmd}, f)
                self.violation(job["sut"], "the process died replaying %s: exit %d" % (job["sut"], p.returncode), rp)
                return
            raise Broken("replay of %s failed with exit %d" % (job["sut"], p.returncode))
        d = json.loads(p.stdout.strip().splitlines()[-1])
        if "walks" not in d:  # (a hang: the harness stopped at once)
            self.violation(job["sut"], d["violation"]["message"], rp)
            return
        if p.returncode == 0 and (d["comparisons"] == 0 or d["walks"] == 0):
            raise Broken("replay of %s compared nothing" % job["sut"])
        if p.returncode == 0 and d["lts_transitions"] and not job.get("cov") and not d["out_of_time"] and d["lts_transitions_replayed"] < d["lts_transitions"] and not job.get("partial"):
            raise Broken("replay of %s left transitions out" % job["sut"])
        self.traces += d["walks"]
        self.comparisons += d["comparisons"]
        self.steps += d["steps"]
        self.samples += [dict(s, sut=job["sut"]) for s in d["samples"][:2]]
        self.details.append({"kind": "replay of specification behaviours into the code", "sut": job["sut"], "from": label, "configs": d["configs"], "walks": d["walks"], "steps": d["steps"],
                             "comparisons": d["comparisons"], "lts_transitions_replayed": d["lts_transitions_replayed"], "tlc_behaviours": d["behaviours"], "out_of_time": d["out_of_time"], "wall_s": round(time.time() - t, 1)})
        if p.returncode == 1:
            self.violation(job["sut"], d["violation"]["message"], rp)

    def add_tlc(self, st):
        if "states" in st:
            self.states += st["states"]
            self.transitions += st["transitions"]
        if "sim_states" in st:
            self.transitions += st["sim_states"]
        self.details.append({"kind": "TLC", **{k: v for k, v in st.items() if k != "rc"}})

    def go(self):
        js = J.jobs(self.prop, self.tier)
        if not js:
            raise Broken("no jobs for " + self.prop)
        need = []

        def tl(t):
            if not any(x == t for x in need):
                need.append(t)
        for j in js:
            for t in j.get("tlc", []):
                tl(t)
        with cf.ThreadPoolExecutor(max_workers=max(2, CORES - 1)) as ex:
            fb = {w: ex.submit(build, w) for w in sorted({j["harness"] for j in js if j.get("harness")})}
            ft = [(t, ex.submit(tlc, t)) for t in need]
            bins = {}
            for w, f in fb.items():
                try:
                    bins[w] = f.result()
                except Broken as e:
                    # The tree builds, but not with the hooks: it uses something of std::sync which the
                    # shims don't offer.  The schedules are left out then, and the evidence says so.
                    if w != "conc" or "seq" not in fb:
                        raise
                    log("NOT EXPLORED: schedules (%s)" % e)
                    self.details.append({"kind": "NOT RUN", "what": "schedules of the hooked primitives", "why": str(e)})
            res = [(t, f.result()) for t, f in ft]
        self.seqbin = bins.get("seq")
        self.concbin = bins.get("conc")
        for _, (st, _) in res:
            self.add_tlc(st)

        def out(t):
            return next(r[1] for x, r in res if x == t)
        work = []
        for j in js:
            if j["kind"] == "seq":
                work += [(j, t) for t in j["tlc"] if out(t)]
            elif self.concbin:
                work.append((j, None))
        broken = None

        def piece(j, t, file, share):
            if t:
                size = "large" if "large" in t["cfg"] else "huge" if "huge" in t["cfg"] else "sim"
                self.seq(j, file, "%s%d" % (size, t.get("seed", SEED)) if t.get("sim") else "bfs", share)
            else:
                import conc
                conc.run(self, j, share)
        for k, (j, t) in enumerate(work):
            if self.violations and time.time() - self.t0 > 200:
                self.details.append({"kind": "NOT RUN", "what": "%d more pieces" % (len(work) - k), "why": "a violation was found"})
                break
            share = self.share(len(work) - k)
            try:
                piece(j, t, t and out(t), share)
            except Broken as e:
                # what the other pieces find still counts
                log("piece broken:", e)
                broken = broken or e
        if broken and not self.violations:
            raise broken
        if self.tier != "quick" and not self.violations:
            self.further(work, piece)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                         "comparisons": self.comparisons, "steps": self.steps, "samples": self.samples[:8] or [{"note": "violation before any sample"}], "jobs": self.details},
            "assumptions": J.ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
        if not self.violations and self.traces == 0:
            raise Broken("no trace was compared with the implementation")
        log("%s %s: %d traces, %d comparisons, %d states, %.1fs" % (self.prop, self.tier, self.traces, self.comparisons, self.states, time.time() - self.t0))
        return 1 if self.violations else 0


    def further(self, work, piece):
        """The rest of the time goes into the same exploration with other seeds."""
        sims, todo = {}, []
        for j, t in work:
            if not t:
                todo.append((j, None))
            elif t.get("sim") and "huge" not in t["cfg"] and not any(i is j and c == t["cfg"] for i, c in todo):
                sims.setdefault(t["cfg"], t)
                todo.append((j, t["cfg"]))
        kept, self.details = self.details, []
        pieces, why = 0, "time used up"
        while todo and self.left() > 45 and not self.violations:
            self.round += 1
            self.seed = SEED + 1000 * self.round
            ts = [dict(t, seed=self.seed, sim=[max(50, t["sim"][0] // 4), t["sim"][1]], timeout=self.left() - 20, optional=True) for t in sims.values()]
            files = []
            try:
                with cf.ThreadPoolExecutor(max_workers=max(2, CORES - 1)) as ex:
                    res = list(ex.map(tlc, ts))
                files = [f for _, f in res if f]
                got = {t["cfg"]: (t, f) for t, (_, f) in zip(ts, res)}
                self.transitions += sum(st.get("sim_states", 0) for st, _ in res)
                for k, (j, c) in enumerate(todo):
                    if self.left() < 45 or self.violations:
                        break
                    t, f = got[c] if c else (None, None)
                    if c and not f:
                        continue
                    piece(j, t, f, min(max(20.0, self.left() - 25), max(30.0, 1.5 * self.left() / (len(todo) - k))))
                    pieces += 1
            except Broken as e:
                why = "ended: %s" % e
                log("further rounds", why)
                break
            finally:
                for f in files:
                    for x in (f, f + ".json"):
                        if os.path.exists(x):
                            os.remove(x)
        extra, self.details = self.details, kept
        if todo:
            self.details.append({"kind": "further rounds with other seeds", "rounds": self.round, "pieces": pieces, "ended_because": why,
                                 **{k: sum(x.get(k, 0) for x in extra) for k in ("walks", "comparisons", "histories", "executions")}})


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        todo = []
        for p in J.PROPS:
            for j in J.jobs(p, "quick"):
                for t in j.get("tlc", []):
                    if t not in todo:
                        todo.append(t)
        with cf.ThreadPoolExecutor(max_workers=max(2, CORES - 1)) as ex:
            fs = [ex.submit(build, w) for w in J.RUSTFLAGS]
            fs += [ex.submit(tlc, t) for t in todo]
            for f in fs:
                f.result()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return Run(prop, tier).go()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        log("check broken:", e)
        sys.exit(2)
