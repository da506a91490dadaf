#!/opt/venv/bin/python
"""Decide one property on the current tree of /repo.

    check.py C01 [--tier quick|thorough]

Two things run side by side:
  * the contracts of the property (contracts/c01.py): every obligation generated from /repo's current source is put
    to the verifier (pv/).  All discharged: the property holds for all inputs.
  * the run-time reading of the same contracts (rt/c01.py) on the running code: it replays counterexamples, looks for
    a failing input and stands in, bounded, for obligations the verifier could not decide.

Exit 0: nothing violates the property.  Exit 1: a line VIOLATION property=<id> replay=<path>.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYOTF_REPO", "/repo")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "2")
sys.dont_write_bytecode = True
PY = sys.executable
DEADLINE = {"quick": 420, "thorough": 3000}        # seconds for the obligations
BUDGET = {"quick": 10, "thorough": 180}            # seconds of sampling
SEARCH = {"quick": 60, "thorough": 300}            # more sampling when an obligation is not discharged


SHARDS = 7                                         # processes that discharge obligations


def worker(pid, tier, out, k=0, n=1):
    """Generate and discharge the obligations (of the k-th of n shares); each result is appended to `out` as it is known."""
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    import importlib
    import pv  # noqa
    from pv import contract as C, prove as P, symnp
    f = open(out, "w")
    s = C.Session(pid, tier=tier, repo=REPO, shard=(int(k), int(n)))
    real = s.add

    def add(*a, **k):
        r = real(*a, **k)
        f.write(json.dumps({"ob": s.obs[-1]}) + "\n")
        f.flush()
        return r
    s.add = add
    importlib.import_module("contracts." + pid.lower()).contract(s)
    f.write(json.dumps(dict(end=True, functions=sorted(s.functions), assumptions=s.assumptions, lemmas=sorted(s.lemmas),
                            extra=s.extra_cases, covers=s.covers, paths=s.npaths, stats=P.STATS,
                            library=sorted(symnp.USED)), default=str) + "\n")
    f.close()


def conform(names, out):
    """Compare the library contracts the obligations relied on with the real libraries, at concrete points."""
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    import pv  # noqa
    from pv import conform as F
    names = [x for x in names.split(",") if x] + ["indexing", "assignment", "machine_integers", "python"]
    done, n, skipped, bad, rest = F.check(names)
    json.dump(dict(compared=done, elements=n, without_a_value=skipped, disagreements=bad, assumed_only=rest), open(out, "w"))


def run_rt(pid, tier, seed, out, budget, extra=None):
    cmd = [PY, os.path.join(HERE, "rt", "run.py"), pid, "--tier", tier, "--seed", str(seed), "--out", out,
           "--budget", str(budget)]
    if extra:
        cmd += ["--extra", extra]
    return subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def finish_rt(p, out, timeout):
    """The result of the run, None if it did not finish, or an error text if it could not start."""
    try:
        txt, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "timeout"
    if p.returncode != 0 or not os.path.exists(out):
        return None, txt[-3000:]
    return json.load(open(out)), ""


def findings(pid):
    """Entries of known_findings.txt for this property that suppress an alarm: (text, match)."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                body = line.split(" ", 2)[2]
                m, _, text = body.partition(" :: ")
                out.append((text, m))
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        return worker(*sys.argv[2:7])
    if len(sys.argv) > 1 and sys.argv[1] == "--conform":
        return conform(*sys.argv[2:4])
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    tier = a.tier if a.tier in DEADLINE else "quick"
    pid = a.id.upper()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix=f"pv_{pid}_")
    try:
        code = decide(pid, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(pid, tier, seed, t0, tmp):
    ev = os.path.join(HERE, "evidence")
    rep = os.path.join(ev, "replay")
    os.makedirs(rep, exist_ok=True)
    rout = os.path.join(tmp, "rt.json")
    ws = []
    for k in range(SHARDS):
        cout, errf = os.path.join(tmp, f"ob{k}.jsonl"), open(os.path.join(tmp, f"err{k}"), "w+")
        ws.append((subprocess.Popen([PY, os.path.abspath(__file__), "--worker", pid, tier, cout, str(k), str(SHARDS)], cwd=HERE,
                                    stdout=errf, stderr=subprocess.STDOUT), cout, errf))
    rp = run_rt(pid, tier, seed, rout, BUDGET[tier])
    rt, rterr = finish_rt(rp, rout, BUDGET[tier] * 4 + 180)
    obs, err = [], ""
    # once a failing input is known the verdict is clear: the obligations that fail are still named, within a minute
    end_at = min(t0 + DEADLINE[tier], time.time() + 60) if rt and rt["fails"] else t0 + DEADLINE[tier]
    info = dict(functions=set(), assumptions=[], lemmas=set(), extra=[], covers=0, paths=0, stats={}, library=set())
    for w, cout, errf in ws:
        late = False
        try:
            w.wait(timeout=max(5, end_at - time.time()))
        except subprocess.TimeoutExpired:
            w.kill()
            w.wait()
            late = True
        errf.seek(0)
        e = errf.read()
        err += e
        end = None
        if os.path.exists(cout):
            for line in open(cout):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "ob" in d:
                    obs.append(d["ob"])
                else:
                    end = d
        if end is None:
            obs.append(dict(name="remaining obligations of " + pid, status="unknown", seconds=0,
                            detail="deadline reached" if late else "the verifier stopped: " + e[-1500:]))
            continue
        for f in ("functions", "lemmas", "library"):
            info[f] |= set(end[f])
        info["assumptions"] += [x for x in end["assumptions"] if x not in info["assumptions"]]
        info["extra"] += end["extra"]
        for f in ("covers", "paths"):
            info[f] += end[f]
        for f, v in end["stats"].items():
            info["stats"][f] = info["stats"].get(f, 0) + v
    for f in ("functions", "lemmas", "library"):
        info[f] = sorted(info[f])
    lib, lout = dict(note="not compared on this run"), os.path.join(tmp, "lib.json")
    try:
        subprocess.run([PY, os.path.abspath(__file__), "--conform", ",".join(info["library"]), lout], cwd=HERE, timeout=60,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        lib = json.load(open(lout))
    except (subprocess.TimeoutExpired, OSError, ValueError):
        pass
    for b in lib.get("disagreements", ()):
        print(f"NOTE: a library contract disagrees with the library: {b}")
    refuted = [o for o in obs if o["status"] == "refuted"]
    open_ = [o for o in obs if o["status"] in ("unknown", "unsupported")]
    proved = [o for o in obs if o["status"] == "proved"]
    fails = list(rt["fails"]) if rt else []
    runs = [rt] if rt else []
    # a failed obligation: look harder for a failing input, starting from the verifier's counterexamples
    if (refuted or open_) and not fails:
        xf = os.path.join(tmp, "extra.json")
        json.dump(info["extra"], open(xf, "w"), default=str)
        out2 = os.path.join(tmp, "rt2.json")
        p = run_rt(pid, tier, seed + 1000, out2, SEARCH[tier], xf)
        r2, e2 = finish_rt(p, out2, SEARCH[tier] * 3 + 180)
        if r2:
            runs.append(r2)
            fails = list(r2["fails"])
        else:
            rterr = rterr or e2
    known = findings(pid)
    real, quiet = [], []
    for f in fails:
        txt = json.dumps(f["case"], sort_keys=True, default=str)
        hit = [t for t, m in known if m and m in txt]
        (quiet if hit else real).append(f)
    for t, _ in known:
        print(f"KNOWN-FINDING: property={pid} {t}")
    nfi = bool(refuted) and not real and not quiet
    for o in refuted:
        print(f"FAILED OBLIGATION [{o['name']}] {o['detail'][:600]}")
    for o in open_:
        print(f"NOT DISCHARGED ({o['status']}) [{o['name']}] {o['detail'][:300]}")
    viol = 0
    if real:
        viol = len(real)
        path = os.path.join(rep, f"{pid}.json")
        json.dump(dict(property=pid, case=real[0]["case"], message=real[0]["message"],
                       replay=f"PYOTF_REPO={REPO} {PY} {HERE}/rt/run.py {pid} --case {path}",
                       failed_obligations=refuted, open_obligations=open_[:20]), open(path, "w"), indent=1, default=str)
        print(f"failing input: {json.dumps(real[0]['case'], default=str)[:600]}\n{real[0]['message'][:800]}")
        print(f"VIOLATION property={pid} replay={path}")
    elif nfi:
        viol = len(refuted)
        path = os.path.join(rep, f"{pid}.json")
        json.dump(dict(property=pid, failed_obligations=refuted, open_obligations=open_[:20],
                       verifier=err[-4000:]), open(path, "w"), indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    st = info["stats"]
    sampled = sum(r["evaluations"] for r in runs)
    bounded = [o["name"] for o in open_]
    all_ok = bool(proved) and not refuted and not open_
    level = "proof" if proved and not lib.get("disagreements") else "exploration"
    cov = dict(obligations=len(obs), discharged=len(proved),
               checker_cmd=f"{PY} /verif/check.py {pid} --tier {tier}",
               trusted_base=TRUSTED + [f"library contract: {x}" for x in info["library"]] + list(info["lemmas"]),
               functions_under_contract=info["functions"], paths_explored=info["paths"],
               library_contracts_compared_with_the_library=lib,
               preconditions_shown_satisfiable=info["covers"],
               backends=dict(z3_queries=st.get("queries", 0), z3_seconds=round(st.get("time", 0), 2),
                             z3_unknown=st.get("unknown", 0), normal_form=st.get("ring", 0), cvc5=st.get("cvc5", 0)),
               slowest=sorted(([o["seconds"], o["name"]] for o in obs), reverse=True)[:5],
               undischarged=[dict(name=o["name"], status=o["status"], detail=o["detail"][:500]) for o in refuted + open_],
               bounded_standin=dict(stands_in_for=bounded, note="run-time contract on sampled inputs of the real code; never counted "
                                    "as proved" if bounded else "not needed: every obligation was discharged"),
               evaluations=sampled, distinct_nontrivial=sum(r["distinct"] for r in runs),
               rule="cases of rt/%s.py: generated from VERIF_SEED, run on the real code and compared with the property's "
                    "statement; distinct by their JSON text" % pid.lower(),
               samples=(runs[0]["samples"] if runs else []))
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                   assumptions=ASSUME + info["assumptions"], wall_s=round(time.time() - t0, 2), violations=viol),
              open(os.path.join(ev, f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid} [{tier}] obligations {len(obs)}, discharged {len(proved)}, refuted {len(refuted)}, open {len(open_)}; "
          f"{sampled} inputs run, {len(real)} failing; {time.time() - t0:.1f} s")
    if viol:
        return 1
    if not runs or not obs:
        print("ERROR: the check could not run\n" + (rterr or err)[-3000:])
        return 2
    return 0


TRUSTED = [
    "pv/load.py: executes /repo's source (parsed on this run) on symbolic values; rewrites only comprehensions, `in` and for loops",
    "pv/sym.py, pv/symnp.py: contracts of Python's arithmetic and of the numpy/scipy functions used (compared with the "
    "real libraries on every run by pv/conform.py; pyotf functions executed both ways by tools/conformance.py)",
    "pv/term.py: ring normal form of terms", "z3 5.3",
]
ASSUME = [
    "floating point arithmetic is treated as exact real arithmetic (integers are mathematical integers; unsigned wrap-around is modelled "
    "where a contract names an unsigned type)",
    "a decimal literal in the code stands for that decimal number",
    "data are finite (no NaN or infinity in the inputs)",
]

if __name__ == "__main__":
    main()
