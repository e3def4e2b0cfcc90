"""Neighbourhood algorithm: whole runs of minimize."""
from .core import C, lift
from .driver import Cand, nm
from .runs import M, N, OptRun, QD, QK, R0, R1, arr_slots, isdim, rng, run_templates, tau_id, tau_mask, tau_unit, NEED_BOX
from .terms import add, and_, implies, le, num


class NA(OptRun):
    module = "stochopy.optimize.na._na"
    method = "na"
    retry = True
    taus = {"user": tau_id, "unit": tau_unit, "mask": tau_mask}

    def __init__(self, name, props, root=None, **cfg):
        cfg["inside"] = True
        cfg["syncmove"] = False
        OptRun.__init__(self, name, props, root, **cfg)

    def options(self):
        return {"nrperc": self.real("nrperc", 0, 1, left=False)}

    def templates(self, info, si, head):
        out = run_templates(self, info, si, head)
        if not (self.props & NEED_BOX):
            return out
        # rows filled so far are in the unit box
        cnt = [s for s, v in head.env.items() if s[0] == "v" and s[2].startswith("$i")]
        for s, a, m in arr_slots(info, head):
            if not m or a.nd != 2 or a.dtype != "f" or not isdim(a.shape[1], N):
                continue
            for s2 in cnt:
                for o in (0, 1):
                    def fn(e, s=s, s2=s2, o=o):
                        x = e[s].el((QK, QD))
                        g = and_(rng(QK, add(lift(e[s2]), num(o))), rng(QD, N))
                        return implies(g, and_(le(R0, x), le(x, R1))), [[x]]
                    out.append(Cand("%s[k<%s+%d] in [0,1]" % (nm(s), nm(s2), o), (QK, QD), fn, 3))
        return out
