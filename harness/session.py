"""P22: sessions with the library.  Same interface as driver.py."""
import sys, os, json, pickle, argparse, hashlib, itertools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--n", type=int, default=1000)
ap.add_argument("--out"); ap.add_argument("--scen"); ap.add_argument("--sims", type=int, default=1)
ap.add_argument("--maxscen", type=int, default=10**9)
o = ap.parse_args()
outf = open(o.out, "w")
sys.stdout = open(os.devnull, "w")
import warnings; warnings.simplefilter("ignore")
import numpy as np
import planegeometry.geometry as g
assert g.__file__.startswith(os.environ.get("VERIF_REPO", "/repo") + "/"), g.__file__
from enc import Ang, Exc, Multi, Raw
import re, ops, gens
from ops import OPS, T

ATTRS = {g.Line: ["A", "B", "extendA", "extendB"], g.Circle: ["center", "radius"], g.Arc: ["center", "radius", "alpha1", "alpha2", "degrees"],
         g.Ellipse: ["center", "rmajor", "rminor", "alpha", "degrees"], g.Inversion: ["pole", "power"], g.Triangle: ["A", "B", "C"],
         g.Affine: ["A", "b"], g.Mobius: ["M"], g.Reflection: ["line"], g.Projection: ["D", "Delta"], g.Rotation: ["center", "theta", "degrees"],
         g.Shear: ["vertex", "vector", "ratio", "angle", "degrees"], g.ScalingXY: ["center", "sx", "sy"], g.Homothety: ["center", "scale"],
         g.Scaling: ["center", "direction", "scale"]}
OPS["show"] = lambda x: x.show()
OPS["str"] = lambda x: re.sub("0x[0-9a-f]+", "", str(x))     # without the addresses of nested objects
OPS["tri.get"] = ops._meas
OPS["points"] = lambda x, n, where: x.random_points(n, where)
OPS["ell.angles"] = lambda e, theta, degrees: e.point_from_angle(theta, degrees)
DRAWS = {"lj", "lj.b", "points"}


def canon(x):
    """a complete description of a value"""
    if type(x) in ATTRS:
        return [type(x).__name__] + [canon(getattr(x, a, Exc("missing"))) for a in ATTRS[type(x)]]
    if isinstance(x, np.ndarray):
        return ["array", x.dtype.str, list(x.shape), [canon(y) for y in x.ravel().tolist()]]
    if isinstance(x, Ang):
        return ["ang", canon(x.v), x.deg]
    if isinstance(x, Exc):
        return ["exc", x.name]
    if isinstance(x, Raw):
        return ["raw", canon(x.v)]
    if isinstance(x, (tuple, list)):
        return [type(x).__name__] + [canon(y) for y in x]
    if isinstance(x, dict):
        return ["dict"] + sorted([str(k), canon(v)] for k, v in x.items())
    if x is None or isinstance(x, (bool, np.bool_, str)):
        return [type(x).__name__, str(x)]
    if isinstance(x, (float, np.floating)):
        return ["f", float(x).hex()]
    if isinstance(x, (complex, np.complexfloating)):
        return ["c", float(x.real).hex(), float(x.imag).hex()]
    if isinstance(x, (int, np.integer)):
        return ["i", int(x)]
    return ["other", type(x).__name__]


def digest(x):
    return hashlib.md5(json.dumps(canon(x)).encode()).hexdigest()[:14]


def rngstate():
    s = np.random.get_state()
    return hashlib.md5(repr((s[0], s[1].tobytes(), s[2:])).encode()).hexdigest()[:14]


def fresh(x, given=None):
    """an equal object, built anew; the arrays passed to the constructors are added to given"""
    if type(x) in ATTRS:
        a = [fresh(getattr(x, a), given) for a in ATTRS[type(x)]]
        if type(x) is g.Projection and getattr(x, "orthogonal", False):
            a[1] = None
        if given is not None:
            given += [y for y in a if isinstance(y, np.ndarray)]
        return type(x)(*a)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (tuple, list)) and not isinstance(x, Multi):
        return type(x)(fresh(y, given) for y in x)
    return x


def loose(x):
    """the arrays of a value which are not part of an object of the library"""
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from loose(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from loose(y)


def holds(x):
    return type(x) in ATTRS or isinstance(x, (np.ndarray, list, tuple, dict))


def parts(x):
    yield x
    if type(x) in ATTRS:
        for a in ATTRS[type(x)]:
            if type(getattr(x, a, None)) in ATTRS:
                yield from parts(getattr(x, a))
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from parts(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from parts(y)


class Pristine:
    """runs calls in copies of this process as it is before its first call of the library"""
    def __init__(self):
        self.a, b = os.pipe()
        c, self.d = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(b), os.close(c)
            self.a, self.d = os.fdopen(self.a, "rb"), os.fdopen(self.d, "wb")
            return
        os.close(self.a), os.close(self.d)
        inp, out = os.fdopen(c, "rb"), os.fdopen(b, "wb")
        while True:
            try:
                data = pickle.load(inp)
            except EOFError:
                os._exit(0)
            pid = os.fork()
            if pid == 0:
                try:
                    op, args, rng = data
                    np.random.set_state(rng)
                    pickle.dump((digest(list(args)), ops.run(op, args), digest(list(args)), rngstate()), out)
                    out.flush()
                finally:
                    os._exit(0)
            if os.waitpid(pid, 0)[1]:
                os._exit(1)

    def run(self, op, args):
        pickle.dump((op, args, np.random.get_state()), self.d)
        self.d.flush()
        return pickle.load(self.a)


PRISTINE = Pristine()
rnd = gens.R(o.seed * 1000003 + 22)
np.random.seed((o.seed * 7919 + 13) % 2**31)
count = 0
nsess = 0
lanes = {i: [] for i in range(1, 17)}


class Sess:
    def __init__(self, src):
        global nsess
        nsess += 1
        self.lane = 1 + nsess % 16
        self.src, self.objs, self.n, self.log = src, {}, 0, []
        self.emit("start", "start", "", None)

    def add(self, x):
        """hold x (and nothing already held again)"""
        known = {id(y) for v in self.objs.values() for y in parts(v)}
        if holds(x) and not any(id(y) in known for y in parts(x) if holds(y)):
            self.n += 1
            self.objs["o%d" % self.n] = x

    def name(self, x):
        return [k for k, v in self.objs.items() if v is x]

    def emit(self, k, op, key, res, rngb="", target="", args=(), more={}):
        global count
        count += 1
        self.log.append(op + ("" if k in ("call", "draw") else ":" + k))
        after = {"none": "none"}
        after.update((n, digest(x)) for n, x in self.objs.items())
        e = {"i": count, "op": op, "k": k, "lane": self.lane, "key": key, "res": digest(res), "rngb": rngb, "rng": rngstate(),
             "after": after, "target": target, "a": [{"t": "str", "v": json.dumps(canon(x))[:160]} for x in args],
             "r": {"t": "str", "v": json.dumps(canon(res))[:300]}, "src": self.src, "hist": list(self.log), **more}
        lanes[self.lane].append(e)

    def new(self, args):
        for x in args:
            self.add(x)
        self.emit("new", "new", "", None)

    def call(self, op, args, keep=True):
        b = rngstate()
        key = op + ":" + digest(list(args))
        k = "draw" if op in DRAWS else "call"
        res = ops.run(op, args)
        if isinstance(res, Exc) and res.name == "Timeout":
            return
        self.emit(k, op, key, res, b, args=args)
        if keep and len(self.objs) < 40:
            for x in (res if isinstance(res, Multi) else [res]):
                self.add(x)
            self.emit("new", "new", "", None)

    def restart(self, op, args):
        """the call made as the first one of another process, the same in all other respects"""
        b = rngstate()
        key = op + ":" + digest(list(args))
        before, res, after, rng = PRISTINE.run(op, args)
        if isinstance(res, Exc) and res.name == "Timeout" or before != digest(list(args)):
            return
        self.emit("first", op, key, res, b, args=args, more={"draws": op in DRAWS, "before": before, "argsafter": after, "rng1": rng})

    def arrays(self):
        return [y for x in self.objs.values() for y in loose(x) if y.flags.writeable and y.size and y.dtype.kind in "ifc"]

    def write(self, w):
        """the caller writes into an array of its own"""
        targets = [n for n, x in self.objs.items() if any(np.shares_memory(w, y) for y in loose(x))]
        w += 1
        self.emit("write", "write", "", None, args=(w,), more={"targets": targets})

    def set(self, x, a, v):
        names = self.name(x)
        if len(names) != 1:
            return False
        try:
            setattr(x, a, v)
        except Exception:
            return False
        self.emit("set", "set", "", None, target=names[0], args=(type(x).__name__ + "." + a,))
        return True


# a bank of calls of every operation
bank, pool = {}, {t: [] for t in ATTRS}
for p in sorted(gens.GENS):
    if p in ("P22", "P23", "P24", "P25"):
        continue
    for op, args in gens.GENS[p](rnd, 60 if p == "P17" else 30 if p == "P21" else 400):
        if op not in OPS or op == "uni" and args[0] > 12:
            continue
        bank.setdefault(op, []).append(args)
        for x in args:
            if type(x) in ATTRS:
                pool[type(x)].append(x)
for t, L in pool.items():
    for x in L[:40]:
        bank.setdefault("str", []).append((x,))
        if hasattr(x, "show"):
            bank.setdefault("show", []).append((x,))
    if hasattr(t, "random_points"):
        bank["points"] = bank.get("points", []) + [(x, rnd.randint(1, 9), rnd.choice(["in", "on"])) for x in L[:40]]
bank["ell.angles"] = [(x, np.array([rnd.choice([rnd.f(-400, 400), rnd.randint(-7, 400), 90.0, 0.0]) for _ in range(rnd.randint(1, 5))],
                                   dtype=rnd.choice([float, float, int])), rnd.bl()) for x in pool[g.Ellipse][:60]]
names = sorted(bank)
turn = itertools.cycle(names)


def clone(args, given=None):
    return tuple(fresh(x, given) for x in args)


def draw_call(op=None, given=None):
    op = op or next(turn)
    return op, clone(rnd.choice(bank[op]), given)


def other_value(x, a):
    y = rnd.choice(pool[type(x)])
    v = fresh(getattr(y, a))
    return v


def settable(args):
    return [(x, a) for x in args if type(x) in ATTRS for a in ATTRS[type(x)]]


def history(cmds, src):
    given = []
    op, args = draw_call(given=given)
    s = Sess(src)
    s.new(args + tuple(given))
    orig = {}
    todo = settable(args)
    rnd.shuffle(todo)
    for c in cmds:
        if c == "call":
            s.call(op, args)
        elif c == "fresh":
            try:
                f = clone(args)
            except Exception:       # the reassigned value is not one the constructor takes
                continue
            s.new(f)
            s.call(op, f)
        elif c == "first":
            s.restart(op, args)
        elif c == "set" and todo:
            x, a = todo[0]
            if (id(x), a) in orig:  # put the original value back
                s.set(x, a, orig.pop((id(x), a)))
                todo = todo[1:] + todo[:1]
            else:
                orig[id(x), a] = getattr(x, a)
                s.set(x, a, other_value(x, a))
        elif c == "other":
            s.call(*draw_call(rnd.choice(names)))
        elif c == "write":
            L = s.arrays()
            if L:
                s.write(rnd.choice(L))
        elif c == "draw":
            s.call(*draw_call(rnd.choice(sorted(DRAWS))))
        elif c == "seed":
            np.random.seed(rnd.randint(0, 3))
            s.emit("seed", "seed", "", None)


if o.scen:
    lines = sorted(set(open(o.scen)))
    if len(lines) > o.maxscen:
        lines = rnd.sample(lines, o.maxscen)
    for line in lines:
        history(json.loads(json.loads(line))["a"], "model")
# every operation, every attribute of every argument
for op in names:
    args = draw_call(op)[1]
    for j in range(max(1, len(settable(args)))):
        given = []
        op_, args = draw_call(op, given)
        s = Sess("gen")
        s.new(args + tuple(given))
        s.call(op, args)
        L = s.arrays()
        for w in rnd.sample(L, min(len(L), 6)):
            s.write(w)
        st = settable(args)
        if st:
            x, a = st[j % len(st)]
            old = getattr(x, a)
            if s.set(x, a, other_value(x, a)):
                s.call(op, args)
                try:
                    f = clone(args)
                    s.new(f)
                    s.call(op, f)
                except Exception:
                    pass
                s.set(x, a, old)
        s.call(op, args)
        s.call(op, args)
# runs of one operation with different arguments, repeated in another order
for op in names:
    k = 6 if op.startswith("lj") or op.startswith("uni") else 14
    for shared in (False, True):
        calls = [draw_call(op)[1] for _ in range(k)]
        if shared:                  # the first argument in common, as far as it goes
            calls = [(calls[0][0],) + a[1:] if a and calls[0] and type(a[0]) is type(calls[0][0]) and len(a) > 1 else a for a in calls]
        s = Sess("gen")
        for a in calls:
            s.new(a)
            s.call(op, a, keep=False)
        rnd.shuffle(calls)
        for a in calls:
            s.call(op, clone(a), keep=False)
        for a in calls[:6]:
            s.restart(op, clone(a))
# long sessions: many calls on shared objects, repeated in another order
while count < o.n:
    s = Sess("gen")
    calls = []
    for _ in range(8):
        op, args = draw_call(rnd.choice(names))
        if calls and rnd.bl():      # share an object with an earlier call
            prev = [x for _, a in calls for x in a]
            args = tuple(next((y for y in prev if type(y) is type(x) and type(x) in ATTRS and rnd.bl()), x) for x in args)
        s.new(args)
        calls.append((op, args))
    for op, args in calls:
        s.call(op, args)
    for rep in range(2):
        rnd.shuffle(calls)
        for op, args in calls:
            s.call(op, args if rep == 0 else clone(args), keep=False)
# the lanes one after another, numbered in that order
i = 0
for l in sorted(lanes):
    for e in lanes[l]:
        i += 1
        e["i"] = i
        outf.write(json.dumps(e, separators=(",", ":")) + "\n")
outf.close()
