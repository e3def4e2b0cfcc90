"""Differential evolution: whole runs of minimize."""
from .runs import OptRun

STRATS = {"best1bin": 3, "rand1bin": 4, "best2bin": 5, "rand2bin": 6}


class DE(OptRun):
    module = "stochopy.optimize.de._de"
    method = "de"

    def __init__(self, name, props, root=None, **cfg):
        cfg.setdefault("strategy", "best1bin")
        cfg.setdefault("updating", "deferred")
        cfg.setdefault("constraints", None)
        cfg["minpop"] = STRATS.get(cfg["strategy"], 6)
        cfg["inside"] = cfg["constraints"] == "Random"
        cfg["syncmove"] = cfg["updating"] == "deferred"
        OptRun.__init__(self, name, props, root, **cfg)

    def options(self):
        return dict(mutation=self.real("mutation", 0, 2), recombination=self.real("recombination", 0, 1),
                    strategy=self.cfg["strategy"])
