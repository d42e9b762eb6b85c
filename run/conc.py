"""Code -> specification: programs run on the library under a controlled scheduler, TLC
checks every recorded history against the specification."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

import scen


def judge(chk, spec, d, diag=False, until=None):
    """TLC on the forest in directory d; returns (accepted histories, statistics, output, whether TLC finished)."""
    left = until - time.time() if until else 600
    if left < 5:
        return set(), (0, 0), "", False
    for f in chk.files_under(chk.SPEC, ".tla"):
        dst = os.path.join(d, os.path.basename(f))
        if not os.path.exists(dst):
            os.symlink(f, dst)
    with open(os.path.join(chk.SPEC, spec + ".cfg")) as f:
        text = f.read()
    if diag:
        text = text.replace("Diag = FALSE", "Diag = TRUE")
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(text)
    cmd = ["tlc", "-workers", "1", "-metadir", os.path.join(d, "md"), "-config", "run.cfg", spec + ".tla"]
    late = False
    with open(os.path.join(d, "out.txt"), "w") as f:
        try:
            p = subprocess.run(cmd, cwd=d, env=dict(chk.ENV, JAVA_TOOL_OPTIONS="-Xmx3g"), stdout=f, stderr=subprocess.STDOUT, timeout=left)
        except subprocess.TimeoutExpired:
            late = True
    shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
    with open(os.path.join(d, "out.txt")) as f:
        out = f.read()
    acc = {int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', out)}
    if late:  # what was accepted so far is accepted; nothing is known of the others
        return acc, (0, 0), out, False
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if p.returncode != 0 or not m:
        chk.log(out[-3000:])
        raise chk.Broken("TLC failed on the histories of %s (exit %d)" % (spec, p.returncode))
    return acc, (int(m.group(1)), int(m.group(2))), out, True


def where(chk, spec, d, history, init):
    """How far a rejected history can be followed."""
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "roots.ndjson"), "w") as f:
        f.write(json.dumps({"init": init, "kids": [1]}) + "\n")
    with open(os.path.join(d, "nodes.ndjson"), "w") as f:
        f.write(json.dumps({"ev": history, "kids": [], "h": 1}) + "\n")
    acc, _, out, done = judge(chk, spec, d, diag=True)
    if not done:
        return 0
    if acc:
        raise chk.Broken("a rejected history is accepted on its own")
    return max(int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', out))


def run(r, job, share):
    chk = sys.modules["__main__"]  # check.py
    spec = job["spec"]
    d = os.path.join(chk.WORK, "conc-%s-%s-%d" % (r.prop, spec, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        run_in(chk, r, job, spec, d, share)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_in(chk, r, job, spec, d, share):
    t0 = time.time()
    scens = scen.scenarios(job["kinds"], job["n"], r.seed)
    sf = os.path.join(d, "scen.ndjson")
    with open(sf, "w") as f:
        for s in scens:
            f.write(json.dumps(s) + "\n")
    tr = os.path.join(d, "tr")
    workers = max(2, min(8, chk.CORES))
    parts = workers * (1 if r.tier == "quick" else 4)
    name = "conc-" + "-".join(job["kinds"])
    rp = r.replay_path(name)
    cmd = [r.concbin, "run", "--scen", sf, "--out", tr, "--parts", str(parts), "--seed", str(r.seed), "--preempt", str(job["preempt"]), "--max", str(job["max"]),
           "--random", str(job["random"]), "--keep", str(job.get("keep", 4000)), "--threads", str(workers),
           "--deadline", str(int(share * 0.35))]
    try:
        p = subprocess.run(cmd, env=chk.ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=share + 100, preexec_fn=chk.bounded)
    except subprocess.TimeoutExpired:
        raise chk.Broken("the programs of %s ran out of time" % name)
    if p.returncode != 0:
        chk.log(p.stderr[-3000:])
        if chk.died(p.returncode):
            with open(rp, "w") as f:
                json.dump({"message": "the process died: exit %d" % p.returncode, "stderr": p.stderr[-2000:], "cmd": cmd}, f)
            r.violation(name, "the process died running %s: exit %d" % (name, p.returncode), rp)
            return
        raise chk.Broken("vp-conc failed with exit %d" % p.returncode)
    st = json.loads(p.stdout.strip().splitlines()[-1])
    with open(os.path.join(tr, "histories.ndjson")) as f:
        hs = [json.loads(line) for line in f]
    t1 = time.time()
    dirs = [os.path.join(tr, "part%d" % k) for k in range(parts)]
    dirs = [x for x in dirs if os.path.getsize(os.path.join(x, "roots.ndjson")) > 0]
    acc, gen, dis, unknown = set(), 0, 0, set()
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        for x, (a, (g, s), _, done) in zip(dirs, ex.map(lambda x: judge(chk, spec, x, until=t0 + share), dirs)):
            acc |= a
            gen += g
            dis += s
            if not done:
                with open(os.path.join(x, "nodes.ndjson")) as f:
                    unknown |= {json.loads(line).get("h", 0) for line in f} - a
    unknown.discard(0)
    bad = [k for k in range(1, len(hs) + 1) if k not in acc and k not in unknown]
    if not hs:
        raise chk.Broken("no history was recorded")
    if not acc and not bad:
        raise chk.Broken("TLC ran out of time on the histories of " + spec)
    r.transitions += gen
    r.states += dis
    r.traces += len(hs) - len(unknown)
    r.comparisons += sum(1 for h in hs for e in h["ev"] if e["e"] in ("ret", "quiet", "final"))
    r.steps += st["steps"]
    mid = hs[len(hs) // 2]
    r.samples += [{"program": scens[mid["i"]]["threads"], "history": mid["ev"], "accepted": len(hs) // 2 + 1 in acc}]
    r.details.append({"kind": "histories of concurrent executions checked against the specification", "spec": spec, "programs": st["scenarios"], "executions": st["executions"],
                      "histories": len(hs), "histories_not_kept": st["histories_not_kept"], "histories_left_out_for_time": len(unknown), "programs_left_out_for_time": st["programs_not_run"], "programs_exhausted_at_preemption_bound": st["exhausted"], "preemption_bound": job["preempt"],
                      "scheduling_steps": st["steps"], "tlc_states": dis, "tlc_transitions": gen, "rejected": len(bad), "wall_s": [round(t1 - t0, 1), round(time.time() - t1, 1)]})
    if not bad:
        return
    # report the shortest one (per kind of object)
    seen = set()
    for k in sorted(bad, key=lambda k: (len(hs[k - 1]["ev"]), k)):
        h = hs[k - 1]
        s = scens[h["i"]]
        kind = s["kind"] + "-" + str(s.get("src", ""))
        if kind in seen:
            continue
        seen.add(kind)
        at = where(chk, spec, os.path.join(d, "diag%d" % len(seen)), h["ev"], s["init"])
        ev = h["ev"][at - 1] if at <= len(h["ev"]) else {"e": "end"}
        out = rp.replace(".json", "-%s.json" % kind.strip("-"))
        msg = "%s: no order of the calls explains event %d (%s) of the history of %s" % (spec, at, json.dumps(ev), json.dumps(s["threads"]))
        with open(out, "w") as f:
            json.dump({"message": msg, "scen": s, "choices": h["choices"], "same_waker": h["same"], "history": h["ev"], "rejected_at": at, "how": "vp-conc replay FILE runs this schedule again"}, f, indent=1)
        r.violation(name, msg, out)
