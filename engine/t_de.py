import sys,time
from engine import interp, runs, driver
interp._init_builtins()
class DE(runs.OptRun):
    module="stochopy.optimize.de._de"
    def options(self):
        return dict(mutation=self.real("mutation",0,2), recombination=self.real("recombination",0,1), strategy=self.cfg.get("strategy","best1bin"))
ps=set("C01 C03 C05 C06 C07 C09 C10 C11 C12 C24".split())
cfg=dict(updating=sys.argv[1], constraints=None if sys.argv[2]=="None" else sys.argv[2], cb="cb" in sys.argv[3:], hist="hist" in sys.argv, x0="x0" in sys.argv, verb0="verb0" in sys.argv)
if cfg["constraints"]: cfg["inside"]=True
cfg["minpop"]=3
cfg["syncmove"]=cfg["updating"]=="deferred"
u=DE("de",ps,**cfg)
u.verify()
print("error",u.error); print("paths",u.paths,"functions",len(u.functions),"loops",len(u.live_loops()))
for n in u.notes: print("note",n[:300])
for k,v in getattr(u,"cands",{}).items():
    print(k,[c.name for c in v])
from collections import Counter
print(Counter((r["prop"] if isinstance(r["prop"],str) else r["prop"][0],r["status"]) for r in u.results))
for r in u.results:
    if r["status"]!="proved": print(r["prop"],r["label"],r["line"],r["status"],r.get("goal","")[:300],r.get("path"))
print("reach",getattr(u,"reachable",None),"t",u.wall,getattr(u,"t_explore",None),getattr(u,"t_inv",None),driver.STATS, getattr(u,"ncand",None))
