"""Extra obligations on the executed code (called by core after the assertions are decided)."""
from fractions import Fraction


def _bug(res, msg, pt):
    res["bugs"].append({"kind": "overflow", "msg": msg, "point": pt, "confirmed": True, "native": {}})


def softmax_stable(m, res, sc):
    """every exponential of softmax is taken of a number <= 88 for all finite inputs: no overflow to infinity"""
    _stable(m, res, sc, 0)

def exp_stable(m, res, sc):
    if sc["p"]["act"] in (6, 8): _stable(m, res, sc, 88)

def _stable(m, res, sc, lim):
    from irsym import sem, smt
    import z3, core
    assume = [c for c in m.user.get("assume", []) if c is not True]
    done = set()
    for pc, x in m.trace_exp:
        if (pc, x) in done: continue
        done.add((pc, x))
        if sem.is_const(x):
            if x > 88: _bug(res, "exp of %s" % x, {})
            continue
        r, mdl, enc = smt.solve(lambda e: [e.poly(x) > 88, *[e.cond(c) for c in list(pc) + assume]], 10000)
        if r == "unsat": continue
        if r != "sat": raise core.CheckError("undecided: overflow of an exponential: " + r)
        names = sorted(m.user.get("syms", {}))
        pt = {k: core.f32(v) for k, v in smt.model_point(mdl, enc, names).items()}
        # replay: the native result must be finite
        ok, eqs, chks, rc, err = core.run_native(sc, pt)
        bad = [k for k, v in eqs.items() if k[0] == "value" and not (abs(v[0]) < 3.5e38)]
        if not bad:
            for big in (100.0, 1e4, 1e30):
                for n in names: pt[n] = big
                ok, eqs, chks, rc, err = core.run_native(sc, pt)
                bad = [k for k, v in eqs.items() if k[0] == "value" and not (abs(v[0]) < 3.5e38)]
                if bad: break
        if bad: _bug(res, "value[%d] is not finite: the exponential of a number above 88 is taken" % bad[0][1], pt); return
        raise core.CheckError("exponential of a number above 88 does not show in the native result")
