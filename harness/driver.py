"""Runs calls on the library of /repo and records them.
driver.py PROP --seed S --n N --out FILE [--scen FILE]"""
import sys, os, json, argparse, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--n", type=int, default=1000)
ap.add_argument("--out"); ap.add_argument("--scen"); ap.add_argument("--sims", type=int, default=1)
ap.add_argument("--maxscen", type=int, default=10**9)
o = ap.parse_args()
out = open(o.out, "w")
sys.stdout = open(os.devnull, "w")
import warnings; warnings.simplefilter("ignore")
import numpy as np
import planegeometry.geometry as g
assert g.__file__.startswith(os.environ.get("VERIF_REPO", "/repo") + "/"), g.__file__
from enc import enc, arg, dec, Sim, Exc, Multi
import ops, gens
import re
from props import PROPS
mine = re.compile("(%s)" % PROPS[o.prop].get("ops", ".*"))

rnd = gens.R(o.seed * 1000003 + sum(map(ord, o.prop)))
np.random.seed((o.seed * 7919 + 13) % 2**31)
count = 0
ALT = {"inv.circle": ["inv.circle", "inv.gcircle"], "inv.line": ["inv.line", "inv.gcircle", "line.invert"]}


def record(op, args, src):
    global count
    if ops.hung > 7:        # the library hangs: what is recorded tells it
        return
    a = [arg(x) for x in args]
    r = enc(ops.run(op, args))
    if any(x["t"] == "bad" for x in a):
        return
    count += 1
    out.write(json.dumps({"i": count, "op": op, "a": a, "r": r, "src": src}, separators=(",", ":")) + "\n")


if o.scen:
    lines = sorted(set(open(o.scen)))      # TLC's workers write in any order
    lines = [l for l in lines if mine.match(json.loads(json.loads(l))["op"])]
    if len(lines) > o.maxscen:
        lines = rnd.sample(lines, o.maxscen)
    for k, line in enumerate(lines):
        s = json.loads(json.loads(line))
        for j in range(o.sims):
            sim = Sim(fmt=rnd.fmt) if (j == 0 and k % 2 == 0) else rnd.sim()
            try:
                args = [dec(x, sim) for x in s["a"]]
                if s["op"] in ALT:
                    s["op"] = rnd.choice(ALT[s["op"]])
            except Exception as x:          # a constructor refused a valid argument
                a = [{"t": "str", "v": json.dumps(s["a"])[:300]}]
                count += 1
                out.write(json.dumps({"i": count, "op": "construct", "a": a,
                                      "r": {"t": "raise", "e": type(x).__name__}, "src": "model"}) + "\n")
                continue
            record(s["op"], args, "model")
try:
    for op, args in gens.units(random.Random(o.seed + 17), o.prop, gens.GENS[o.prop](rnd, o.n)):
        record(op, args, "gen")
except Exception as x:
    import traceback; traceback.print_exc()
    count += 1
    out.write(json.dumps({"i": count, "op": "construct", "a": [{"t": "str", "v": str(x)[:200]}],
                          "r": {"t": "raise", "e": type(x).__name__}, "src": "gen"}) + "\n")
out.close()
