"""Check runner: property -> scenarios -> obligations -> verdict, evidence and replay files."""
import json
import multiprocessing as mp
import os
import re
import sys
import time

from . import explore
from .interp import Source

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SINGDLINT_REPO", "/repo")
PKG = "singd"

GENERIC = {"no-raise", "struct-mix"}


def registry():
    from . import properties

    return properties


_SRC = None


def properties_clients():
    from . import structs

    return structs.CLIENTS


def source():
    global _SRC
    if _SRC is None:
        _SRC = Source(REPO, PKG)
        for name, (rel, text) in properties_clients().items():
            _SRC.add(name, rel, text)
    return _SRC


SLICE = 6.0


def collectives(s):
    """All processes must run the same collectives: decisions on one process's own data must not change them."""
    from .path import DATA

    def add(ok, msg, site=None):
        k = ("P12", ok, msg if not ok else short(msg), str(site) if not ok else None)
        o = s["obls"].setdefault(k, dict(rule="P12", ok=ok, msg=msg, site=site, part="", scenario=s["key"], n=0))
        o["n"] += 1

    done = set()
    for log, seq in s["colls"]:
        ok = True
        for op, what, site in seq:
            if op in ("RACE", "UNFINISHED"):
                ok = False
                add(False, "tensor used or left behind while its all-reduce is in flight" if op == "RACE"
                    else "asynchronous all-reduce is never waited for", site)
            elif DATA.search(what.split("[", 1)[-1]):
                ok = False
                add(False, f"the shape {what} of an all-reduced tensor depends on the data of one process", site)
        loc = [x for x in log if x[2]]
        if loc:
            base = {x[0]: x[1] for x in log if not x[2]}
            for log2, seq2 in s["colls"]:
                if log2 is log or any(x[0] in base and base[x[0]] != x[1] for x in log2 if not x[2]):
                    continue
                if [x[:2] for x in seq] != [x[:2] for x in seq2]:
                    ok = False
                    other = {x[0]: x[1] for x in log2}
                    dec = next((x for x in loc if x[0] in other and other[x[0]] != x[1]), loc[0])
                    if (dec[0], dec[3]) not in done:
                        done.add((dec[0], dec[3]))
                        add(False, f"the all-reduces that are run ({len(seq)} or {len(seq2)}) depend on a decision about the data of one "
                            f"process: {dec[0]}", dec[3])
        if ok:
            add(True, "same collectives on every process")


def run_one(job):
    """Explore partitions of one scenario for a few seconds; unexplored prefixes are handed back."""
    key, kind, name, kw, start = job
    from . import properties

    try:
        fn, model, paths = properties.resolve(kind, name, kw)
        r = explore.explore(source(), key, fn, model=model, max_paths=paths, start=start, slice=SLICE)
    except Exception as e:  # machinery failure
        import traceback

        return dict(key=key, paths=0, infeasible=0, obls=[], undecided=[dict(
            reason=f"internal {type(e).__name__}: {e} {traceback.format_exc(limit=3)}", site=None, part="")], touched=[], time=0.0,
            rest=[], job=job)
    obls = {}
    for o in r.obls:
        if o["ok"] is None:  # note
            continue
        k = (o["rule"], bool(o["ok"]), o["msg"] if not o["ok"] else short(o["msg"]), str(o["site"]) if not o["ok"] else None)
        x = obls.setdefault(k, dict(rule=o["rule"], ok=bool(o["ok"]), msg=o["msg"], site=o["site"], part=o["part"], scenario=key, n=0))
        x["n"] += 1
    return dict(key=key, paths=r.paths, infeasible=r.infeasible, obls=list(obls.values()),
                undecided=[{k: str(v) if v is not None else None for k, v in u.items()} for u in r.undecided],
                touched=sorted(r.touched), time=r.time, rest=r.rest, job=job, colls=r.colls)


class Summary(dict):
    """Results of all slices of one scenario."""

    def __init__(self, key):
        super().__init__(key=key, paths=0, infeasible=0, obls={}, undecided=[], touched=set(), time=0.0, colls=[], limits=[])

    def merge(self, r):
        for k in ("paths", "infeasible", "time"):
            self[k] += r[k]
        for o in r["obls"]:
            k = (o["rule"], o["ok"], o["msg"] if not o["ok"] else short(o["msg"]), str(o["site"]) if not o["ok"] else None)
            if k in self["obls"]:
                self["obls"][k]["n"] += o["n"]
            else:
                self["obls"][k] = o
        self["undecided"] += r["undecided"]
        self["touched"] |= {tuple(x) for x in r["touched"]}
        self["colls"] += r.get("colls", [])


def run_jobs(jobs, procs, budget, violates=lambda o: False, enough=200):
    """Run all scenarios, sharing the partitions between the processes."""
    t0 = time.time()
    res = {j[0]: Summary(j[0]) for j in jobs}
    limit = {j[0]: j[4] for j in jobs}
    queue = [(*j[:4], None) for j in jobs]
    with mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        active, running = [], {}
        while queue or active:
            while queue and len(active) < procs:
                q = queue.pop(0)
                a = pool.apply_async(run_one, (q,))
                running[a] = q[0]
                active.append(a)
            done = [a for a in active if a.ready()]
            if not done:
                if time.time() - t0 > budget:
                    pool.terminate()
                    res["*"] = Summary("*")
                    left = sorted({q[0] for q in queue} | {r for r in running.values()})
                    res["*"]["limits"].append(f"time limit of {budget} s; not explored completely: {', '.join(left)}")
                    break
                active[0].wait(0.02)
                continue
            active = [a for a in active if a not in done]
            for a in done:
                running.pop(a)
                r = a.get()
                s = res[r["key"]]
                s.merge(r)
                bad = sum(1 for o in s["obls"].values() if not o["ok"])
                rest = r["rest"]
                if time.time() - t0 > enough and any(violates(o) for x in res.values() for o in x["obls"].values()):
                    pool.terminate()
                    res["*"] = Summary("*")
                    res["*"]["limits"].append("stopped after violations were found")
                    queue, active = [], []
                    break
                if bad > 60:
                    rest = []
                if rest and s["paths"] > limit[r["key"]]:
                    s["limits"].append(f"more than {limit[r['key']]} partitions: {r['key']}")
                    rest = []
                # first finish what was started; split the work while processes idle
                k = max(1, min(len(rest), procs)) if rest else 0
                for n in range(k):
                    queue.insert(0, (*r["job"][:4], rest[n::k]))
    for s in res.values():
        collectives(s)
        s["obls"] = list(s["obls"].values())
    return list(res.values())


def short(msg):
    return msg.split(":")[0][:80]


def known_findings(pid):
    """Entries of the known-findings file that concern pid (repaired ones suppress nothing)."""
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(fn):
        return out
    for line in open(fn):
        m = re.match(r"known: property=(\S+) rule=(\S+) site=(\S+) match=(\".*?\") :: (.*)", line)
        if m and m.group(1) == pid:
            out.append(dict(rule=m.group(2), site=m.group(3), match=json.loads(m.group(4)), text=m.group(5).strip()))
    return out


def is_known(o, known):
    for k in known:
        if k["rule"] == o["rule"] and k["site"] in str(o["site"]) and k["match"] in o["msg"]:
            return k
    return None


def run(pid, tier="quick", procs=None, only=None, verbose=False):
    t0 = time.time()
    props = registry()
    jobs, rules = props.jobs(pid, tier)
    if only:
        jobs = [j for j in jobs if only in j[0]]
    budget = 700 if tier == "quick" else 3000
    jobs = [(*j, props.resolve(*j[1:])[2]) for j in jobs]
    procs = procs or min(8, os.cpu_count() or 1)
    source()
    known = known_findings(pid)

    def violates(o):
        return not o["ok"] and (o["rule"] in rules(o["scenario"]) or o["rule"] in GENERIC) and not is_known(o, known)

    results = run_jobs(jobs, procs, budget, violates)
    bad, und, ok, kf = [], [], 0, {}
    limits = [x for r in results for x in r["limits"]]
    per_rule = {}
    touched = set()
    for r in sorted(results, key=lambda r: r["key"]):
        touched |= {tuple(x) for x in r["touched"]}
        und += [dict(u, scenario=r["key"]) for u in r["undecided"]]
        acc = rules(r["key"])
        for o in r["obls"]:
            if o["rule"] not in acc and o["rule"] not in GENERIC:
                continue
            if o["ok"]:
                ok += o["n"]
                per_rule[o["rule"]] = per_rule.get(o["rule"], 0) + o["n"]
            else:
                k = is_known(o, known)
                if k:
                    kf.setdefault(k["text"], []).append(o)
                else:
                    bad.append(o)
    for text, os_ in kf.items():
        print(f"KNOWN-FINDING: property={pid} {text}")
    missing = []
    if not only:
        for k, n in props.minimum(pid).items():
            if per_rule.get(k, 0) < n and not bad:
                missing.append(f"rule {k} discharged {per_rule.get(k, 0)} obligations, expected at least {n}")
    wall = time.time() - t0
    n_ob = ok + sum(o["n"] for o in bad) + sum(o["n"] for v in kf.values() for o in v)
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
        coverage=dict(
            explanation=props.explanation(pid),
            scenarios=len(results), obligations=n_ob, discharged=ok, undecided=len(und), cut_short=limits, per_rule=per_rule,
            partitions=sum(r["paths"] for r in results), infeasible_partitions=sum(r["infeasible"] for r in results),
            functions_analysed=len(touched), functions=[f"{a}:{b}" for a, b in sorted(touched)],
            scenario_list=[dict(scenario=r["key"], partitions=r["paths"], seconds=round(r["time"], 2)) for r in sorted(results, key=lambda r: r["key"])],
            samples=[dict(rule=o["rule"], what=o["msg"][:300], partition=o["part"], scenario=o["scenario"])
                     for r in results[:12] for o in [x for x in r["obls"] if x["ok"] and x["rule"] in rules(r["key"])][:1]],
        ),
        assumptions=props.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(bad))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for u in und[: 50 if verbose else 6]:
        print(f"UNDECIDED property={pid} scenario={u['scenario']}: {u['reason'][:400]} at {u.get('site')} [{u.get('part')}]")
    if bad:
        rp = os.path.join(HERE, "evidence", f"{pid}.violation.json")
        with open(rp, "w") as fh:
            json.dump(dict(property=pid, repo=REPO, violations=[dict(o, replay=f"python3 -m singdlint.checks {pid} --only '{o['scenario']}'") for o in bad[:40]]), fh, indent=1)
        seen = set()
        for o in bad:
            k = (o["rule"], o["site"], o["msg"][:60])
            if k in seen:
                continue
            seen.add(k)
            if len(seen) <= (40 if verbose else 5):
                print(f"  [{o['rule']}] {o['site']}: {o['msg'][:700]} (scenario {o['scenario']}, partition: {o['part'] or '-'})")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if und or missing:
        for x in missing:
            print(f"ANALYSIS-BROKEN property={pid}: {x}")
        print(f"property={pid}: undecided ({len(und)} partitions) after {wall:.1f} s")
        return 2
    for x in limits:
        print(f"NOTE property={pid}: {x}")
    print(f"property={pid}: held{' on everything explored' if limits else ''}; {n_ob} obligations in {len(results)} scenarios, {sum(r['paths'] for r in results)} partitions, "
          f"{len(touched)} functions, {wall:.1f} s")
    return 0


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--procs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    rc = 0
    pids = registry().ALL if a.property == ["all"] else a.property
    for p in pids:
        r = run(p, a.tier if a.tier in ("quick", "thorough") else "quick", a.procs, a.only, a.v)
        rc = max(rc, r) if rc != 1 else 1
        sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    try:
        rc = main(sys.argv[1:])
    except Exception:  # a failure of the machinery is not a violation
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)
