"""Seeded generators for harness/drv_pure.cpp: Lie functions, kinematics, state container, measurements."""
import math
from vplib import fx
import gen_est

class Script(gen_est.Script):
    """Adds matrices to the script writer."""
    def m(self, M): return f"{len(M)} {len(M[0]) if M else 0} " + " ".join(fx(x) for r in M for x in r)
    def col(self, v): return f"{len(v)} 1 " + " ".join(fx(x) for x in v)
    def pick(self, *a): return self.rng.choice(a)
    def chance(self, p): return self.rng.random() < p
    def u(self, s=1.0): return self.rng.uniform(-s, s)

def unit(s):
    while True:
        v = [s.rng.gauss(0, 1) for _ in range(3)]; n = math.sqrt(sum(x * x for x in v))
        if n > 1e-3: return [x / n for x in v]
def axisy(s):
    if s.chance(.3): e = [0.0, 0.0, 0.0]; e[s.rng.randrange(3)] = s.pick(1.0, -1.0); return e
    return unit(s)
def angle(s):
    """Angles from exactly zero through vanishing, the branch points and half turns to many turns."""
    k = s.rng.randrange(10)
    if k == 0: return s.pick(0.0, 0.0, 1e-300, 5e-324, 1e-160)
    if k == 1: return 10 ** s.rng.uniform(-20, -8)
    if k == 2: return 10 ** s.rng.uniform(-11, -9)
    if k == 3: return 10 ** s.rng.uniform(-8, -2)
    if k == 4: return 10 ** s.rng.uniform(-2, 0)
    if k == 5: return 0.5 * (1 + s.u() * 10 ** s.rng.uniform(-16, -1))
    if k == 6: return math.pi * s.pick(1, 2, 3, 4, .5, 1.5) + s.pick(0, 1, -1) * 10 ** s.rng.uniform(-16, -1)
    if k == 7: return s.rng.uniform(0, 2 * math.pi)
    if k == 8: return s.rng.uniform(0, 50)
    return s.rng.uniform(0, 1000)
def rotvec(s):
    a = angle(s); v = [a * x for x in axisy(s)]
    if s.chance(.1): v[s.rng.randrange(3)] = -0.0
    return v
def matmul(A, B): return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]
def rot(v):
    a = math.sqrt(sum(x * x for x in v))
    I = [[float(i == j) for j in range(3)] for i in range(3)]
    if a < 1e-12: return I
    x, y, z = [c / a for c in v]; K = [[0, -z, y], [z, 0, -x], [-y, x, 0]]; K2 = matmul(K, K)
    return [[I[i][j] + math.sin(a) * K[i][j] + (1 - math.cos(a)) * K2[i][j] for j in range(3)] for i in range(3)]
def vec3(s, size=None):
    z = s.pick(1e-9, .1, 1, 1, 10, 1000) if size is None else size
    if s.chance(.08): return [0.0, 0.0, 0.0]
    return [s.u(z) for _ in range(3)]
def pose(s, k):
    R = rot([s.u(4) for _ in range(3)]) if s.chance(.9) else rot([0, 0, 0])
    X = [[float(i == j) for j in range(3 + k)] for i in range(3 + k)]
    for i in range(3):
        for j in range(3): X[i][j] = R[i][j]
    for c in range(k):
        v = vec3(s)
        for i in range(3): X[i][3 + c] = v[i]
    return X

def scen_lie(s, n=40):
    s.trace("lie")
    for _ in range(n):
        f = s.pick("skew", "gamma", "gamma", "gamma", "exp", "lj", "rj", "expk", "expk", "adj", "conj", "conj", "fact")
        if f == "skew": s.add("lie skew", s.v(vec3(s)))
        elif f == "gamma": s.add("lie gamma", s.pick(0, 1, 2, 3, 3, 4, 5, 6, 7, 8), s.v(rotvec(s)))
        elif f in ("exp", "lj", "rj"): s.add("lie", f, s.v(rotvec(s)))
        elif f == "expk":
            k = s.rng.randrange(0, 8); s.add("lie expk", s.col(rotvec(s) + [x for _ in range(k) for x in vec3(s)]))
        elif f == "adj": s.add("lie adj", s.m(pose(s, s.rng.randrange(0, 8))))
        elif f == "conj":
            k = s.rng.randrange(0, 5)
            v = lambda: rotvec(s) + [x for _ in range(k) for x in vec3(s)]
            a, b = v(), v()
            for x in (a, b):    # many turns times large translations only amplify rounding
                q = math.sqrt(sum(y * y for y in x[:3]))
                if q > 20: x[:3] = [y * 20 / q for y in x[:3]]
            s.add("lie conj", s.col(a), s.col(b))
        else: s.add("lie fact", s.rng.randrange(0, 21))
def scen_grp(s, n=30):
    s.trace("group"); live = []
    for _ in range(n):
        f = s.pick("new", "newX", "newRp", "newRpv", "setX", "setR", "setp", "setv", "setK", "mul", "mul", "inv", "inv")
        if not live: f = s.pick("new", "newX", "newRp", "newRpv")
        k = s.rng.randrange(5)
        R = " ".join(fx(x) for r in rot(rotvec(s)) for x in r)
        if f in ("setX", "setR", "setp", "setv", "setK"): k = s.pick(*live)
        if f == "new": s.add("grp new", k)
        elif f in ("newX", "setX"): s.add("grp", f, k, s.m(pose(s, 2)))
        elif f == "newRp": s.add("grp newRp", k, R, s.v(vec3(s)))
        elif f == "newRpv": s.add("grp newRpv", k, R, s.v(vec3(s)), s.v(vec3(s)))
        elif f == "setR": s.add("grp setR", k, R)
        elif f in ("setp", "setv"): s.add("grp", f, k, s.v(vec3(s, 10)))
        elif f == "setK": s.add("grp setK", k, s.rng.randrange(1, 6))
        elif f == "mul": s.add("grp mul", k, s.pick(*live), s.pick(*live))
        elif f == "inv": s.add("grp inv", k, s.pick(*live))
        if k not in live: live.append(k)

def joints(s):
    k = s.rng.randrange(6)
    if k == 0: return [0.0] * 12
    if k == 1: return [s.pick(0.0, math.pi / 2, -math.pi / 2, math.pi, 1e-9, -1e-3) for _ in range(12)]
    if k == 2: q = [0.0] * 12; q[s.rng.randrange(12)] = s.u(3); return q
    if k == 3: return [s.u(30) for _ in range(12)]
    return [s.u(math.pi) for _ in range(12)]
def contacts(s): return [int(s.chance(s.pick(.2, .5, .9))) for _ in range(4)]
def scen_kin(s, n=24):
    s.trace("kinematics"); have = dq = False
    for _ in range(n):
        f = s.pick("new", "ctor", "q", "q", "dq", "c", "c", "compute", "compute", "look", "look") if have else s.pick("new", "ctor")
        w = s.v(vec3(s, s.pick(0.0, 1, 5)))
        if f == "ctor": s.add("kin ctor", s.v(joints(s)), s.v([s.u(10) for _ in range(12)]), *contacts(s), w)
        elif f == "q": s.add("kin q", s.v(joints(s)), w)
        elif f == "dq": s.add("kin dq", s.v([s.u(s.pick(0, 1, 20)) for _ in range(12)]), w)
        elif f == "c": s.add("kin c", *contacts(s), w)
        else: s.add("kin", f, w)
        have = True
def scen_kinraw(s, n=10):
    s.trace("raw")
    for _ in range(n): s.add("kin raw", s.v(joints(s)))

def rmat(s, r, c=None, z=None): return [[s.u(z or s.pick(1e-6, 1, 1, 100)) for _ in range(c or r)] for _ in range(r)]
def vals(M): return " ".join(fx(x) for r in M for x in r)
class Box:
    """What the generator must know of a container: dimensions and live handles."""
    def __init__(self, cols=5, th=6, p=None):
        self.cols, self.th, self.p, self.q = cols, th, p if p is not None else 3 * cols - 6 + th, None
        self.q = self.p; self.h = []; self.col = {}          # handle -> column
    def reset(self): self.__init__()
def c_add(s, k, b, h):
    s.add("rst add", k, h, s.v(vec3(s)), s.m(rmat(s, b.p + 3)), vals(rmat(s, 3)))
    if h: b.col[h] = b.cols
    b.cols += 1; b.p += 3; b.q += 3
def c_del(s, k, b, col):
    h = next((x for x, c in b.col.items() if c == col), 0)
    s.add("rst del", k, h if h else -col)
    b.col = {x: (c - 1 if c > col else c) for x, c in b.col.items() if c != col}
    b.cols -= 1; b.p -= 3; b.q -= 3
def scen_container(s, n=40):
    s.trace("container"); B = {}; nh = [0]
    for _ in range(n):
        k = s.rng.randrange(3); b = B.get(k)
        f = s.pick("new", "newX", "newXT", "newXTP", "newG", "newGT", "newGTP") if b is None or s.chance(.03) else \
            s.pick("rotation", "velocity", "position", "gbias", "abias", "rate", "X", "P", "Qc", "theta", "Rcov", "vcov", "pcov", "gcov", "acov", "time", "ptime", "ben", "slip",
                   "add", "add", "add", "add", "add", "add", "set", "set", "del", "del", "del", "addbias", "delbias", "cov", "clear", "diag", "copy", "look", "delraw")
        if f.startswith("new"):
            g = f.startswith("newG"); cols = 5 if g or f == "new" else s.rng.randrange(5, 9); th = 6
            if f[-1] == "T" and not g: th = s.pick(6, 6, 9)
            B[k] = b = Box(cols, th); a = []
            if f != "new": a.append(s.m(pose(s, cols - 3)))
            if f[4:] in ("T", "TP") or f[4:] == "XT": pass
            if "T" in f: a.append(s.col([s.u() for _ in range(th)]))
            if f.endswith("P"): a.append(s.m(rmat(s, b.p)))
            s.add("rst", f, k, *a)
        elif f in ("velocity", "position", "gbias", "abias", "rate"): s.add("rst", f, k, s.v(vec3(s)))
        elif f == "rotation": s.add("rst rotation", k, vals(rot(rotvec(s))))
        elif f in ("Rcov", "vcov", "pcov"): s.add("rst", f, k, vals(rmat(s, 3)))
        elif f in ("gcov", "acov"):
            if b.p >= b.th: s.add("rst", f, k, vals(rmat(s, 3)))
        elif f == "X": s.add("rst X", k, s.m(pose(s, b.cols - 3)))
        elif f == "P": s.add("rst P", k, s.m(rmat(s, b.p)))
        elif f == "Qc": s.add("rst Qc", k, s.m(rmat(s, b.q)))
        elif f == "theta": s.add("rst theta", k, s.col([s.u() for _ in range(b.th)]))
        elif f in ("time", "ptime"): s.add("rst", f, k, fx(s.pick(0.0, s.u(10), 1.6e9 + s.u(1e3), -1.0)))
        elif f == "ben": s.add("rst ben", k, s.pick(0, 1))
        elif f == "slip": s.add("rst slip", k, s.pick(0, 1, 0, 7))
        elif f == "add":
            if b.q == b.p and b.cols < 14: nh[0] += 1; c_add(s, k, b, nh[0] if s.chance(.8) else 0)
        elif f == "set" and b.cols > 5:
            c = s.rng.randrange(5, b.cols); h = next((x for x, y in b.col.items() if y == c), 0); s.add("rst set", k, h if h else -c, s.v(vec3(s)))
        elif f == "del" and b.cols > 5 and b.q == b.p: c_del(s, k, b, s.rng.randrange(5, b.cols))
        elif f == "addbias": s.add("rst addbias", k, s.v(vec3(s))); b.th += 3; s.add("rst addcov", k, vals(rmat(s, 3))); b.p += 3; s.add("rst Qc", k, s.m(rmat(s, b.p))); b.q = b.p
        elif f == "delbias" and b.th > 6:
            s.add("rst delbias", k, 5 + s.rng.randrange((b.th - 6) // 3)); b.th -= 3; b.p -= 3; b.q -= 3
            s.add("rst P", k, s.m(rmat(s, b.p))); s.add("rst Qc", k, s.m(rmat(s, b.q)))
        elif f == "delraw" and b.p > 18 and b.q == b.p:      # the two halves of a removal, then put back
            c = s.rng.randrange(3, b.cols); s.add("rst delcov", k, c); s.add("rst delnoise", k, c)
            s.add("rst P", k, s.m(rmat(s, b.p))); s.add("rst Qc", k, s.m(rmat(s, b.q)))
        elif f == "clear": s.add("rst clear", k); b.reset()
        elif f == "diag": s.add("rst diag", k, s.pick(0, 1), s.rng.randrange(0, 4), s.m(rmat(s, s.rng.randrange(0, 4))))
        elif f == "copy":
            k2 = s.rng.randrange(3)
            if k2 != k and not b.col and not any(True for _ in ()): s.add("rst copy", k2, k); nb = Box(b.cols, b.th, b.p); nb.q = b.q; B[k2] = nb
        elif f == "look": s.add("rst look", k)
def scen_cmc(s, ops):
    """Replay of a behaviour of ContainerMC: handles are numbered as in the model."""
    s.trace("model"); s.add("rst new", 0); b = Box()
    for o in ops:
        if o[0] == "add": c_add(s, 0, b, o[1])
        elif o[0] == "del": c_del(s, 0, b, b.col[o[1]])
        elif o[0] == "delcol": c_del(s, 0, b, 4 + o[1])
        elif o[0] == "clear": s.add("rst clear", 0); b.reset()

def quat(s):
    v = [s.rng.gauss(0, 1) for _ in range(4)]; n = math.sqrt(sum(x * x for x in v)) or 1.0
    q = [x / n for x in v]
    k = s.rng.randrange(8)
    if k == 0: q = [0.0] * 4; q[s.rng.randrange(4)] = s.pick(1.0, -1.0)
    if k in (1, 2, 3):   # squared norm 1 + d, near the bound on both sides
        d = s.pick(1, -1) * 1e-5 * (1 + s.pick(1, -1) * 10 ** s.rng.uniform(-4, -.5))
        q = [x * math.sqrt(1 + d) for x in q]
    if k == 4: q = [x * s.pick(0.0, .5, .99, 1.01, 2, 1e-3, 1e6) for x in q]
    return q
def mvec(s):
    k = s.rng.randrange(5)
    if k == 0: return [0.0, 0.0, 0.0]
    if k == 1: v = [0.0] * 3; v[s.rng.randrange(3)] = s.pick(1.0, -2.0, 1e-9); return v
    return [s.u(s.pick(1e-8, 1, 1e3, 1e6)) for _ in range(3)]
def scen_measure(s, n=40):
    s.trace("measurements"); K = {}
    kinds = ["base", "typed", "imu", "imuf", "vel", "velf", "ang", "angf", "joint", "contact", "odom", "leg"]
    hset = set()
    def seq(): return s.pick(0, 1, s.rng.randrange(2 ** 31), 2 ** 32 + 5, 2 ** 64 - 1)
    def fr(): return s.pick("_", "base", "odom/left", "a" * 40)
    for _ in range(n):
        k = s.rng.randrange(6); t = K.get(k)
        if t is None or s.chance(.08):
            t = s.pick(*kinds, "newodom", "newleg")
            hset.discard(k)
            if t == "newodom": s.add("mea newodom", k, s.v(mvec(s)), s.v(quat(s)), seq(), fx(s.u(1e9)), fr()); t = "odom"; hset.add(k)
            elif t == "newleg": s.add("mea newleg", k, s.v(joints(s)), s.v(joints(s)), *contacts(s)); t = "leg"
            else: s.add("mea new", k, t, *([s.rng.randrange(8)] if t == "typed" else []))
            K[k] = t; continue
        f = s.pick("time", "header", "header2") if s.chance(.3) or t in ("base", "typed") else "value"
        if f == "time": s.add("mea time", k, fx(s.pick(0.0, s.u(10), 1.7e9 + s.u(), -5.5)))
        elif f == "header": s.add("mea header", k, seq(), fx(s.pick(0.0, 1.7e9 + s.u())), fr()); hset.add(k)
        elif f == "header2":
            o = [x for x in K if x in hset]
            if o: s.add("mea header2", k, s.pick(*o)); hset.add(k)
        elif t in ("imu", "imuf"):
            g = s.pick("quat", "quat", "angvel", "acc"); s.add("mea", g, k, s.v(quat(s) if g == "quat" else mvec(s)))
        elif t in ("vel", "velf", "ang", "angf"): s.add("mea vel", k, s.v(mvec(s)))
        elif t == "joint":
            r = lambda: s.col([s.u(9) for _ in range(s.rng.randrange(1, 14))])
            if s.chance(.6): s.add("mea joints", k, r(), r(), r())
            else: s.add("mea encoders", k, r())
        elif t == "contact": m = s.rng.randrange(1, 9); s.add("mea contacts", k, m, *[s.pick(0, 1) for _ in range(m)])
        elif t == "leg":
            if s.chance(.5): s.add("mea contacts", k, 4, *contacts(s))
            else: s.add("mea legq", k, s.v(joints(s)))
        elif t == "odom":
            g = s.pick("trans", "rot", "pose", "pose")
            s.add("mea", g, k, *([s.v(mvec(s))] if g == "trans" else [s.v(quat(s))] if g == "rot" else []))
