"""labview: prepare, retrieve, convert.  The two functions it calls are used through recorders that stand for any behaviour."""
import inspect
from pv.contract import *


class Rec:
    """A callee standing for any function with the real one's parameters: records what it was given, returns an unknown."""

    def __init__(self, fn, out):
        self.calls, self.out = [], out
        self.sig = inspect.signature(fn)

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)
        given = dict(b.arguments)
        b.apply_defaults()
        self.calls.append((dict(b.arguments), given))
        return self.out


class Result:
    """A retrieval result of which only the phase may be read."""

    def __init__(self, phase):
        self.phase = phase

    def __getattr__(self, k):
        raise Unsupported("labview reads " + k)


def contract(s):
    w = s.world()
    lv = w.module("labview")
    NAMES = ("wl", "na", "ni", "res", "zres")
    V = {k: rvar(k) for k in NAMES}
    IT, PT, MT = ivar("max_iters"), rvar("pupil_tol"), rvar("mse_tol")
    N = [ivar("nz"), ivar("ny"), ivar("nx")]
    M = [ivar("m0"), ivar("m1")]

    def run(form, kind, flag, lists=False):
        s.under("labview.labview")
        data = inarr("data", N, kind)
        prepped = inarr("prepared", [N[0], M[0], M[0]])
        phase = inarr("phase", M)
        st = dict(wl=pyfloat(V["wl"]), na=pyfloat(V["na"]), ni=pyfloat(V["ni"]), res=pyfloat(V["res"]), zres=pyfloat(V["zres"]))
        opt = dict(max_iters=pyint(IT), pupil_tol=pyfloat(PT), mse_tol=pyfloat(MT), phase_only=flag)
        want = dict(max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, phase_only=False)
        t = f"{form}, {kind}{' lists' if lists else ''}, phase only {flag}"
        given_data = sym.NestedList(data) if lists else data

        def call():
            prep = Rec(lv_real["prep_data_for_PR"], prepped)
            retr = Rec(lv_real["retrieve_phase"], Result(phase))
            lv.prep_data_for_PR, lv.retrieve_phase = prep, retr
            for m in ("utils", "phaseretrieval"):
                for k, f in (("prep_data_for_PR", prep), ("retrieve_phase", retr)):
                    if hasattr(w.module(m), k):
                        setattr(w.module(m), k, f)
            if form == "defaults":
                r = lv.labview(given_data, **st)
            elif form == "keywords":
                r = lv.labview(data=given_data, **opt, **st)
            elif form == "positional":
                r = lv.labview(given_data, *st.values(), *opt.values())
            else:
                r = lv.labview(given_data, *st.values(), **{form: opt[form]})
            return r, prep, retr
        if form in ("keywords", "positional"):
            want = opt
        elif form != "defaults":
            want = dict(want, **{form: opt[form]})
        for p in s.paths(call, [le(1, n) for n in N + M] + [lt(0, v) for v in V.values()]):
            if not s.returns(f"returns ({t})", p):
                continue
            r, prep, retr = p.result

            def once(what, ok, d=""):
                return s.add(f"{what} ({t})", "proved" if ok else "refuted", d)
            if not once("the data are prepared once", len(prep.calls) == 1, len(prep.calls)):
                continue
            if not once("the phase is retrieved once", len(retr.calls) == 1, len(retr.calls)):
                continue
            a, given = prep.calls[0]
            s.array(f"the caller's data are prepared ({t})", p.facts, a["data"], N, lambda *i: data.orig(i), kind=kind)
            dft = {k: q.default for k, q in prep.sig.parameters.items() if k != "data"}
            for k, v in given.items():
                if k != "data":
                    once(f"preparation by default: {k}", v is dft[k] or v == dft[k], v)
            a, given = retr.calls[0]
            s.array(f"the prepared data are retrieved ({t})", p.facts, a["data"], prepped._shape, lambda *i: prepped.orig(i), kind="f")
            pr = a["params"]
            once("the parameters are the five of that name", isinstance(pr, dict) and set(pr) == set(NAMES), pr)
            for k in NAMES:
                if k in pr:
                    s.equal(f"{k} is passed on ({t})", val(pr[k]), V[k], p.facts)
            for k in ("max_iters", "pupil_tol", "mse_tol"):
                s.equal(f"{k} is passed on ({t})", sym.to_num(val(a[k])), sym.to_num(val(want[k])), p.facts)
            s.prove(f"phase_only is passed on ({t})", eq(T.b2i(sym.to_bool(val(a["phase_only"]))), T.b2i(sym.to_bool(val(want["phase_only"])))), p.facts)
            for k in set(given) - {"data", "params", *opt}:
                once(f"{k} is left at its default", given[k] is retr.sig.parameters[k].default, given[k])
            if not once("nested lists are returned", isinstance(r, sym.NestedList), type(r)):
                continue
            s.array(f"the phase ({t})", p.facts, r.arr, M, lambda *i: phase.orig(i))
            s.unchanged(f"the data are not modified ({t})", p.facts, data, prepped, phase)

    lv_real = dict(prep_data_for_PR=w.module("utils").prep_data_for_PR, retrieve_phase=w.module("phaseretrieval").retrieve_phase)
    for kind in "if":
        for form in ("defaults", "keywords", "positional", "max_iters", "pupil_tol", "mse_tol", "phase_only"):
            for flag in (True, False):
                s.guard(f"labview ({form}, {kind}, {flag})", lambda: run(form, kind, flag))
    for kind in "if":
        s.guard(f"labview (lists, {kind})", lambda: [run(form, kind, False, True) for form in ("defaults", "keywords")])
    s.lemma("the two callees are any functions with the parameters of prep_data_for_PR and retrieve_phase")
