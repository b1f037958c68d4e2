"""Seeded generators of estimator and component scripts (see harness/drv_est.cpp for the commands)."""
import json, random, math
from vplib import hx, num, vec, fx

def yaml_text(keys):
    sec = {}
    for k, v in keys.items():
        s, n = k.split("."); sec.setdefault(s, []).append((n, v))
    out = []
    for s, kv in sec.items():
        out.append(s + ":")
        for n, v in kv:
            if isinstance(v, bool): t = "true" if v else "false"
            elif isinstance(v, (list, tuple)): t = "[" + ", ".join(repr(float(x)) for x in v) + "]"
            elif isinstance(v, int): t = str(v)
            elif isinstance(v, str): t = json.dumps(v)
            else: t = repr(float(v))
            out.append(f"  {n}: {t}")
    return "\n".join(out) + "\n"
def keys_note(keys):
    d = {}
    for k, v in keys.items():
        if isinstance(v, bool) or isinstance(v, int): d[k] = v
        elif isinstance(v, (list, tuple)): d[k] = vec(v)
        elif isinstance(v, str): d[k] = v
        else: d[k] = num(v)
    return d
INTKEYS = {"settings.init_bias_size"}

class Script:
    def __init__(self, work, seed, tag):
        self.work, self.rng, self.tag = work, random.Random(seed), tag
        self.lines, self.nid, self.ntr, self.names = [], 0, 0, []
        self.keysof = {}
    def add(self, *a): self.lines.append(self.again(" ".join(str(x) for x in a)))
    stuck = False    # in some histories a sensor repeats its last reading now and then, with a new stamp
    def again(self, line):
        if not self.stuck: return line
        kind, _, rest = line.partition(" ")
        if kind not in ("imu", "vel", "ang", "leg", "mc"): return line
        q, i, t, vals = rest.split(" ", 3); k = (kind, q, len(vals.split()))
        if k in self.last and self.rng2.random() < .3: vals = self.last[k]
        self.last[k] = vals
        return f"{kind} {q} {i} {t} {vals}"
    def note(self, **k): self.lines.append("note " + json.dumps(k, separators=(",", ":")))
    def trace(self, name):
        self.ntr += 1; self.nid = 0; self.far = self.pick(1, 1, 1, 1, 1, 1, 10, 40, 100)
        self.last = {}; self.rng2 = random.Random(self.rng.random()); self.stuck = self.rng2.random() < .2
        n = f"{self.tag}{self.ntr}:{name}".replace(" ", "_"); self.names.append(n); self.add("trace", n)
    def yaml(self, keys):
        n = self.work.nfile = getattr(self.work, "nfile", 0) + 1
        return self.work.write(f"cfg/{n}.yaml", yaml_text(keys))
    def mkq(self, k, q): self.add("mkq", k, q); self.note(e="mkq", q=q)
    def comp(self, cid, kind, q, et, keys, direct=True):
        y = self.yaml(keys); self.keysof[cid] = (kind, q, et, keys, y)
        self.note(e="comp", id=cid, kind=kind, q=q, et=et, keys=keys_note(keys))
        if direct: self.add({"imu": "prop", "vel": "vcor", "leg": "lcor"}[kind], cid, q, et, y)
    def est(self, eid, et, keys, prop, cors):
        k = dict(keys); k.setdefault("logger.enable_pose_logger", False)
        self.note(e="estc", id=eid, prop=prop, cors=list(cors), et=et, keys=keys_note(keys))
        self.add("est", eid, et, self.yaml(k)); self.add("eprop", eid, self.keysof[prop][1], self.keysof[prop][4])
        for c in cors: self.add("evel" if self.keysof[c][0] == "vel" else "eleg", eid, self.keysof[c][1], self.keysof[c][4])
        self.add("enew", eid)
    def v(self, v): return " ".join(fx(x) for x in v)
    def id(self): self.nid += 1; return self.nid
    far = 1          # some histories have measurements far larger than a robot's usual ones
    def out(self, v, most=1000): f = min(self.far, most) if self.far > 1 and self.chance(.4) else 1; return [x * f for x in v]
    def imu(self, q, t, w, a, qt=None): a = self.out(a, 100); self.add("imu", q, self.id(), fx(t), self.v(w), self.v(a), *( [self.v(qt)] if qt else []))
    def vel(self, q, t, v): self.add("vel", q, self.id(), fx(t), self.v(self.out(v)))
    def leg(self, q, t, c, pos, J, iv):
        n = len(c); iv = self.out(iv); pos = [self.out(x, 10) for x in pos]
        self.add("leg", q, self.id(), fx(t), n, *[int(x) for x in c], *[self.v(p) for p in pos], *[self.v(x) for x in J], self.v(iv))
    def mc(self, q, t, enc, denc, c): self.add("mc", q, self.id(), fx(t), self.v(enc), self.v(denc), *[int(x) for x in c])
    def cmp(self, a, b, p, why): self.note(e="cmp", a=a, b=b, p=p, why=why)
    # ---- random material
    def u(self, a, b): return self.rng.uniform(a, b)
    def v3(self, s): return [self.rng.uniform(-s, s) for _ in range(3)]
    def pick(self, *a): return self.rng.choice(a)
    def chance(self, p): return self.rng.random() < p
    def base(self): return self.pick(0.0, 0.0, 0.0, 0.0, 1700000000.0)      # seconds since start, or of the epoch
    def quat(self):
        q = [self.rng.gauss(0, 1) for _ in range(4)]; n = math.sqrt(sum(x * x for x in q)); return [x / n for x in q]
    def rate(self, style=None):
        s = style or self.pick("zero", "axis", "tiny", "tiny2", "small", "mid", "mid", "big")
        if s == "zero": return [0.0, 0.0, 0.0]
        if s == "axis": v = [0.0] * 3; v[self.rng.randrange(3)] = self.u(-3, 3); return v
        m = {"tiny": 10 ** self.u(-12, -7), "tiny2": 10 ** self.u(-7, -3), "small": 10 ** self.u(-3, -0.5), "mid": 2.0, "big": 40.0}[s]
        return self.v3(m)
    def legs(self, n, contacts=None, iv=0.5):
        c = contacts if contacts is not None else [self.chance(0.5) for _ in range(n)]
        return c, [self.v3(0.6) for _ in range(n)], [self.v3(0.4) for _ in range(3 * n)], self.v3(iv)

def imu_keys(s, full=None, calib=False, ori=False):
    full = s.chance(0.5) if full is None else full
    p = 0.5 if not full else 0.95
    k = {}
    def put(n, f):
        if s.chance(p): k[n] = f()
    put("noises.gyroscope_std", lambda: s.u(0.001, 0.3)); put("noises.accelerometer_std", lambda: s.u(0.001, 0.3))
    put("noises.gyroscope_bias_std", lambda: s.u(0.001, 0.2)); put("noises.accelerometer_bias_std", lambda: s.u(0.001, 0.2))
    put("settings.rotation_imu2body", s.quat); put("settings.translation_imu2body", lambda: s.v3(0.5))
    put("settings.enable_imu_bias_update", lambda: s.chance(0.6))
    put("priors.gyroscope_bias", lambda: s.v3(0.05)); put("priors.accelerometer_bias", lambda: s.v3(0.3))
    if calib:
        k["settings.static_bias_initialization"] = True; k["settings.init_bias_size"] = s.rng.randint(1, 5)
    else: k["settings.static_bias_initialization"] = False
    if ori and s.chance(0.5): k["settings.use_imu_ori_to_init"] = True
    return k
def vel_keys(s, thr=None):
    k = {}
    if s.chance(0.7): k["noises.velocity_std"] = s.u(0.01, 0.4)
    if s.chance(0.6): k["settings.rotation_vel2body"] = s.quat()
    if s.chance(0.6): k["settings.velocity_scale"] = s.pick(1.0, 0.9, 1.1, -1.0, s.u(0.3, 2))
    if thr is not None: k["settings.correction_time_threshold"] = thr
    elif s.chance(0.7): k["settings.correction_time_threshold"] = s.pick(0.125, 0.25, 0.5, 1.0)
    return k
def leg_keys(s, thr=None):
    k = {}
    if s.chance(0.7): k["noises.encoder_std"] = s.u(0.005, 0.1)
    if s.chance(0.7): k["noises.kinematics_additive_std"] = s.u(0.01, 0.1)
    if s.chance(0.7): k[s.pick("noises.contact_std", "noises.contact_noise_std")] = s.u(0.01, 0.3)
    if thr is not None: k["settings.correction_time_threshold"] = thr
    elif s.chance(0.7): k["settings.correction_time_threshold"] = s.pick(0.125, 0.25, 0.5, 1.0)
    return k
def est_keys(s):
    k = {}
    for n in ("rotation", "velocity", "position"):
        if s.chance(0.6): k[f"state.{n}_std_value"] = s.u(0.01, 0.5)
    return k

# ---------------------------------------------------------------------------------------------
def scen_control(s, n_ops=60, calib=False, legs=None, vels=None, clears=True, ori=False, views=False, name="control", nruns=None):
    """A whole estimator under a random sequence of arrivals and calls on a grid of times."""
    et = s.pick("L", "R")
    nv = s.pick(0, 1, 1, 2) if vels is None else vels
    nl = s.pick(0, 1, 1, 2) if legs is None else legs
    s.trace(name); s.far = 1
    if views: s.add("views", 1)
    s.mkq("i", "I"); s.comp("I", "imu", "I", et, imu_keys(s, calib=calib, ori=ori), direct=False)
    cors, nlegs, thr = [], {}, {}
    order = ["v"] * nv + ["l"] * nl; s.rng.shuffle(order)
    for j, k in enumerate(order):
        c = f"{k}{j}"; s.mkq(k, c)
        s.comp(c, "vel" if k == "v" else "leg", c, et, vel_keys(s) if k == "v" else leg_keys(s), direct=False)
        thr[c] = s.keysof[c][3].get("settings.correction_time_threshold", 0.3)
        if k == "l": nlegs[c] = s.pick(1, 2, 4, 4, 6, 9) if nl == 1 else s.pick(1, 2)
        cors.append(c)
    s.est("E", et, est_keys(s), "I", cors)
    G = 0.125; base = s.base(); now = base + s.rng.randrange(0, 200) * G; wstyle = s.pick("mid", "small", "tiny", "zero", None)
    bias_n = s.keysof["I"][3].get("settings.init_bias_size", 0) if calib else 0
    def push_imu(t): s.imu("I", t, s.rate(wstyle), [x + y for x, y in zip(s.v3(2), (0, 0, 9.8))], s.quat() if ori else None)
    contacts = {}
    def push_cor(c, t):
        if c[0] == "v": s.vel(c, t, s.v3(1.5))
        else:
            n = nlegs[c]; old = contacts.get(c, [s.chance(0.5) for _ in range(n)])
            new = [(not x) if s.chance(0.3) else x for x in old]; contacts[c] = new
            s.leg(c, t, *s.legs(n, new))
    def start():
        nonlocal now
        if s.chance(0.15): s.add("init", "E")            # nothing waiting
        if calib and (not calibrated[0]):
            k = 0
            while k < bias_n:
                if s.chance(0.25): s.add("bias", "E")   # nothing waiting: must not count
                m = s.rng.randint(1, 2)
                for _ in range(m): push_imu(now); now += G
                for _ in range(m):
                    if k < bias_n: s.add("bias", "E"); k += 1
            s.add("bias", "E"); calibrated[0] = True
        elif not calib and s.chance(0.7): s.add("bias", "E")
        for c in cors:
            for _ in range(s.rng.randint(1, 3)): push_cor(c, now - s.pick(0, 1, 2) * G)
        for _ in range(s.rng.randint(1, 3)): push_imu(now); now += G
        s.add("init", "E")
    s.nlegs = nlegs
    calibrated = [False]
    start()
    ops = 0
    while ops < n_ops:
        ops += 1
        r = s.rng.random()
        if r < 0.34:
            for _ in range(s.pick(1, 1, 1, 2, 4)):
                now += s.pick(0, 1, 1, 1, 1, 2, 3) * G if s.chance(0.96) else s.pick(-1, -2, 40, 90) * G
                push_imu(now)
        elif r < 0.60 and cors:
            c = s.pick(*cors)
            for _ in range(s.pick(1, 1, 2, 3)):
                d = s.pick(0, 0, -1, -1, -2, -3, -4, -8, -20, 1, 2, 4, 8) * G
                if s.chance(0.25): d = s.pick(-1, 1) * thr[c]
                push_cor(c, now + d)
        elif r < 0.95:
            for _ in range(s.pick(1, 1, 2, 3)): s.add("run", "E")
        elif r < 0.97: s.add("take", "E", s.rng.randint(0, 6))
        elif r < 0.975: s.add("enable", "E")
        elif clears and r < 0.99:
            s.add("clear", "E")
            if s.chance(0.5): s.add("take", "E", 1)
            if s.chance(0.3): s.add("clear", "E")
            if s.chance(0.5): now = base + s.rng.randrange(0, 200) * G
            contacts.clear(); start()
    for _ in range(8): s.add("run", "E")

def scen_scale(s, n, parts, name="scale"):
    """Long backlogs and histories: n waiting samples of each kind, n unread snapshots, n calibration samples."""
    et = s.pick("L", "R"); s.trace(f"{name}-{'-'.join(parts)}"); s.far = 1; calib = "calib" in parts
    s.mkq("i", "I"); k = {a: b for a, b in imu_keys(s, calib=calib).items() if "2body" not in a and "priors" not in a}; dt = s.pick(0.0078125, 0.03125)
    if calib: k["settings.init_bias_size"] = n
    s.comp("I", "imu", "I", et, k, direct=False); cors = []
    for c, kind in (("v", "vel"), ("l", "leg")):
        if kind in parts: s.mkq(c, c); s.comp(c, kind, c, et, (vel_keys if c == "v" else leg_keys)(s, thr=s.pick(4, 16) * dt), direct=False); cors.append(c)
    s.rng.shuffle(cors); s.est("E", et, est_keys(s), "I", cors); t = s.pick(0.0, 64.0, 1.7e9); contact = [True, False]; bias = s.v3(.02); F, J = [s.v3(.6), s.v3(.6)], [s.v3(.4) for _ in range(6)]     # a robot that hardly moves
    def imu(x): s.imu("I", x, [a + b for a, b in zip(s.v3(.02), bias)], [a + b for a, b in zip(s.v3(.2), (0, 0, 9.81))])
    def cor(c, x):
        nonlocal contact
        if c == "v": s.vel(c, x, s.v3(.1))
        else:
            if s.chance(.02): contact = [not y if s.chance(.5) else y for y in contact]
            s.leg(c, x, contact, [[a + s.rng.gauss(0, .01) for a in f] for f in F], J, s.v3(.05))
    s.add("brief", 1)
    if calib:
        for _ in range(n): imu(t); t += dt
        for _ in range(n + 1): s.add("bias", "E")
    def start(m):
        nonlocal t
        for c in cors:
            for _ in range(m): cor(c, t)
        imu(t); t += dt; s.add("init", "E")
    start(n if "init" in parts else 1)
    if "imu" in parts or "vel" in parts or "leg" in parts:
        t0 = t
        if "stale" in parts:
            for j in range(n):
                for c in cors: cor(c, max(t - 40 * dt + dt * (j % 8), 0.0))
        for j in range(n):
            if "imu" in parts: imu(t)
            for c in cors: cor(c, t + s.pick(0, -1, -2) * dt)
            t += dt
        if "imu" not in parts:                          # the samples arrive one by one, the corrections were all there
            x = t0
            for j in range(n): imu(x); x += dt; s.add("run", "E")
        else:
            for j in range(n): s.add("run", "E")
        for _ in range(3): s.add("run", "E")
        s.add("take", "E", s.pick(0, 1, n // 2)); s.add("take", "E", 2)
    if "clear" in parts:
        for j in range(n):
            imu(t + j * dt)
            for c in cors: cor(c, t + j * dt)
        t += n * dt; s.add("clear", "E"); start(2)
        for _ in range(5): imu(t); t += dt; s.add("run", "E")
    s.add("brief", 0); s.add("run", "E"); s.add("take", "E", 1)

def rename(lines, suffix, names):
    """The same script for another estimator: every estimator, component and buffer name gets a suffix."""
    import re
    out = []
    for l in lines:
        if l.startswith("note "):
            d = json.loads(l[5:])
            for k in ("id", "q", "prop", "a", "b"):
                if k in d and d[k] in names: d[k] += suffix
            if "cors" in d: d["cors"] = [c + suffix for c in d["cors"]]
            out.append("note " + json.dumps(d, separators=(",", ":")))
        else:
            w = l.split(" ")
            out.append(" ".join([w[0]] + [x + suffix if x in names else x for x in w[1:]]))
    return out
CFGOPS = ("mkq", "note", "est", "eprop", "evel", "eleg", "enew", "views")

def scen_clear_twin(s):
    """P07: the life after a clear against a fresh estimator with the same calibration."""
    sub = Script(s.work, s.rng.getrandbits(60), s.tag + "t")
    s.trace("cleartwin"); s.far = 1; s.stuck = False
    calib = s.chance(0.5)
    scen_control(sub, n_ops=s.rng.randint(10, 40), calib=calib, clears=False)
    A1 = sub.lines[1:]                                   # first life, without the trace line
    names = {"E", "I"} | {k for k in sub.keysof}
    cfg = [l for l in A1 if l.split(" ")[0] in CFGOPS]
    life1 = [l for l in A1 if l.split(" ")[0] not in CFGOPS]
    # second life on the same configuration
    nb = sub.keysof["I"][3].get("settings.init_bias_size", 0) if calib else 0
    life2 = []
    sub2 = Script(s.work, s.rng.getrandbits(60), s.tag + "u"); sub2.keysof = sub.keysof; sub2.nid = 5000
    life(sub2, sub.keysof, [k for k in sub.keysof if k != "I"], sub.nlegs, s.rng.randint(10, 40))
    life2 = sub2.lines
    # the calibration part of the first life: pushes up to the last bias call
    last = max([i for i, l in enumerate(life1) if l.startswith("bias")], default=-1)
    cal = life1[:last + 1]
    s.lines += cfg + life1 + ["clear E"] + (["clear E"] if s.chance(0.3) else []) + life2
    # buffers of the twin: leftovers of the calibration phase are cleared, as a clear would
    s.lines += rename(cfg + cal + ["clear E"] + life2, "b", names)
    s.cmp("E", "Eb", "P07", "published states after clear differ from a fresh estimator")

def life(s, keysof, cors, nlegs, n_ops):
    """Initialise and run (no clears) an estimator E whose buffers are empty."""
    G = 0.125; now = s.base() + s.rng.randrange(0, 200) * G; wst = s.pick("mid", "small", "tiny", None)
    contacts = {}
    def push_imu(t): s.imu("I", t, s.rate(wst), [x + y for x, y in zip(s.v3(2), (0, 0, 9.8))], s.quat())
    def push_cor(c, t):
        if keysof[c][0] == "vel": s.vel(c, t, s.v3(1.5))
        else:
            n = nlegs[c]; old = contacts.get(c, [s.chance(0.6) for _ in range(n)])
            new = [(not x) if s.chance(0.3) else x for x in old]; contacts[c] = new
            s.leg(c, t, *s.legs(n, new))
    for c in cors: push_cor(c, now)
    push_imu(now); now += G; push_imu(now); s.add("init", "E")
    for _ in range(n_ops):
        r = s.rng.random()
        if r < 0.4: now += s.pick(1, 1, 2) * G; push_imu(now)
        elif r < 0.6 and cors: push_cor(s.pick(*cors), now + s.pick(0, -1, -1, -2, 1, -6) * G)
        else: s.add("run", "E")
    for _ in range(4): s.add("run", "E")

def feet(s, S, I_unused, lc, q, n, t):
    s.add("stime", S, fx(t), fx(t)); s.leg(q, t, *s.legs(n, [True] * n)); s.add("ccor", lc, S)

def scen_prop(s, n=30):
    """P08/P09: one propagation at a time from random states, any interval, any rate."""
    et = s.pick("L", "R"); s.trace("prop"); s.mkq("i", "I"); s.mkq("l", "F")
    k = imu_keys(s); s.comp("I", "imu", "I", et, k); s.comp("F", "leg", "F", et, leg_keys(s))
    s.add("state", "S"); t = s.base() + s.u(0, 100)
    nf = s.pick(0, 0, 1, 2, 4)
    if nf: feet(s, "S", None, "F", "F", nf, t)
    s.add("sben", "S", int(k.get("settings.enable_imu_bias_update", False)))
    s.imu("I", t, s.rate(), s.v3(12)); s.add("cinitp", "I", "S")
    for _ in range(n):
        s.add("srand", "S", s.rng.getrandbits(31), s.pick(7, 7, 7, 15, 5), fx(s.pick(0.0, 1e-6, 1.0, 3.0)), fx(s.pick(0.0, 1.0, 5.0)), fx(s.pick(1e-4, 0.01, 1.0)), fx(s.pick(0.0, 0.01, 0.3)))
        dt = s.pick(0.0, 1e-9, 1e-4, 0.001, 0.005, 0.01, 0.02, 0.1, 0.125, 1.0, 3.0, 12.0, 30.0, s.u(0, 0.5), -0.01)
        s.add("stime", "S", fx(t), fx(t - dt))
        if s.chance(0.1): s.add("cprop", "I", "S")      # nothing waiting
        t = t + s.pick(0.0, 0.001, 0.01, 0.125)
        s.imu("I", t, s.rate(), s.v3(s.pick(0.5, 10, 30))); s.add("cprop", "I", "S")

def scen_vel(s, n=30):
    """P10: one velocity correction at a time from random states."""
    et = s.pick("L", "R"); s.trace("vel"); s.mkq("v", "V"); s.mkq("l", "F")
    s.comp("V", "vel", "V", et, vel_keys(s, thr=1.0)); s.comp("F", "leg", "F", et, leg_keys(s, thr=1.0))
    s.add("state", "S"); t = s.base() + s.u(0, 100)
    nf = s.pick(0, 0, 1, 2, 4)
    if nf: feet(s, "S", None, "F", "F", nf, t)
    for _ in range(n):
        if s.chance(0.3): s.add("sben", "S", s.rng.randint(0, 1))
        if s.chance(0.8): s.add("srand", "S", s.rng.getrandbits(31), s.pick(7, 7, 15), fx(s.pick(0.0, 1.0, 3.0)), fx(s.pick(0.5, 2.0, 6.0)), fx(s.pick(1e-3, 0.01, 0.1)), fx(s.pick(0.0, 0.05)))
        t += 1; s.add("stime", "S", fx(t), fx(t)); s.vel("V", t - s.pick(0.25, 0.5, 1.0), s.v3(s.pick(0.0, 1.0, 3.0))); s.add("ccor", "V", "S")

def scen_leg(s, n=30, sources=None):
    """P11/P05: leg-kinematics corrections from random states with changing contacts."""
    et = s.pick("L", "R"); s.trace("leg"); ns = sources or s.pick(1, 1, 2, 3)
    nl = [s.pick(1, 2, 4, 4, 5, 8, 11) if ns == 1 else s.pick(1, 2, 3) for _ in range(ns)]
    for j in range(ns): s.mkq("l", f"F{j}"); s.comp(f"F{j}", "leg", f"F{j}", et, leg_keys(s, thr=1.0))
    s.add("state", "S"); t = s.base() + s.u(0, 100); c = [[False] * m for m in nl]; p = s.pick(0.2, 0.5, 0.8)
    for _ in range(n):
        if s.chance(0.2): s.add("sben", "S", s.rng.randint(0, 1))
        if s.chance(0.5): s.add("srand", "S", s.rng.getrandbits(31), s.pick(7, 7, 15), fx(s.pick(0.0, 1.0, 3.0)), fx(s.pick(0.5, 1.0, 3.0)), fx(s.pick(1e-3, 0.01, 0.1)), fx(s.pick(0.0, 0.05)))
        j = s.rng.randrange(ns); m = nl[j]
        style = s.rng.random()
        if style < 0.1: c[j] = [True] * m
        elif style < 0.2: c[j] = [False] * m
        else: c[j] = [(not x) if s.chance(p) else x for x in c[j]]
        t += 1; s.add("stime", "S", fx(t), fx(t)); s.leg(f"F{j}", t + s.pick(0, -0.5, 0.5, 1, -1), *s.legs(m, c[j], iv=0.3)); s.add("ccor", f"F{j}", "S")

def scen_upd(s, n=30):
    """P30: generic observations of either kind on filters of either kind, one at a time from random states."""
    s.trace("upd"); s.mkq("l", "F"); s.comp("F", "leg", "F", "R", leg_keys(s, thr=1.0)); s.add("state", "S"); t = s.base() + s.u(0, 100)
    nf = s.pick(0, 0, 1, 2, 4)
    if nf: feet(s, "S", None, "F", "F", nf, t)
    for j in range(n):
        if s.chance(0.3): s.add("sben", "S", s.rng.randint(0, 1))
        if j == 0 or s.chance(0.8): s.add("srand", "S", s.rng.getrandbits(31), s.pick(7, 7, 15), fx(s.pick(0.0, 1.0, 3.0)), fx(s.pick(0.0, 0.5, 2.0, 6.0)), fx(s.pick(1e-3, 0.01, 0.1)), fx(s.pick(0.0, 0.05)))
        s.add("upd", s.pick("L", "R"), s.pick("L", "R"), "S", s.rng.getrandbits(31), s.pick(1, 2, 3, 3, 6, 9), s.pick(0, 1, 2, 2), fx(s.pick(0.0, 0.1, 1.0)), fx(s.pick(1e-2, 0.1, 1.0, 1e6)))

def scen_gate(s, kind, n=40):
    """P03/P04: one correction alone, backlogs of any relation to the propagation time, several calls for each."""
    et = s.pick("L", "R"); s.trace(f"gate-{kind}"); G = 0.125; thr = s.pick(0, 1, 2, 2, 4, 8); q = kind[0].upper(); m = s.rng.randint(1, 3)
    s.mkq(kind[0], q); s.comp(q, kind, q, et, vel_keys(s, thr=thr * G) if kind == "vel" else leg_keys(s, thr=thr * G)); s.add("state", "S"); t = int(s.base() * 8) + s.rng.randrange(0, 500)
    offs = [0, 0, -1, 1, -thr, thr, -thr - 1, thr + 1, -thr + 1, thr - 1, -thr - 9, thr + 9, -2]; c = [s.chance(.5) for _ in range(m)]
    for _ in range(n):
        if s.chance(.7): t += s.pick(0, 1, 2, 5)
        if s.chance(.05): t = max(0, t - 3)
        s.add("stime", "S", fx((t + s.pick(0, 0, 0, 1, -1, thr)) * G), fx(t * G))      # the state's own time is not the clock of the gate
        for _ in range(s.pick(0, 0, 1, 1, 2, 3, 5)):
            x = max(0, t + s.pick(*offs)) * G
            if kind == "vel": s.vel(q, x, s.v3(1))
            else: c = [(not y) if s.chance(.3) else y for y in c]; s.leg(q, x, *s.legs(m, c))
        for _ in range(s.pick(1, 1, 1, 2, 3)): s.add("ccor", q, "S")

def scen_bias(s):
    """P13: calibration alone, including configurations that ask for no sample."""
    et = s.pick("L", "R"); s.trace("bias"); s.mkq("i", "I")
    k = imu_keys(s); mode = s.pick("off", "n", "n", "n", "zero", "default")
    if mode == "off": k["settings.static_bias_initialization"] = False; k["settings.init_bias_size"] = s.pick(0, 3)
    else:
        k["settings.static_bias_initialization"] = True
        if s.chance(0.3): del k["settings.static_bias_initialization"]
        k.pop("settings.init_bias_size", None)
        if mode == "n": k["settings.init_bias_size"] = s.rng.randint(1, 8)
        if mode == "zero": k["settings.init_bias_size"] = 0
    if s.chance(0.4): k["settings.use_imu_ori_to_init"] = s.chance(0.8)
    s.comp("I", "imu", "I", et, k); n = k.get("settings.init_bias_size", 0); t = s.base() + s.u(0, 10)
    for _ in range(n + 6):
        for _ in range(s.pick(0, 1, 1, 2)): t += 0.01; s.imu("I", t, s.rate(), [x + y for x, y in zip(s.v3(1), (0, 0, 9.8))], s.quat())
        s.add("cbias", "I")
    for _ in range(n + 2): s.add("cbias", "I")
    s.imu("I", t + 1, s.rate(), s.v3(10), s.quat()); s.imu("I", t + 1, s.rate(), s.v3(10), s.quat())
    s.add("cbias", "I"); s.add("state", "S"); s.add("cinitp", "I", "S")

def scen_cinit(s, n=24):
    """P14: the initialisers of the components alone, with and without data waiting."""
    et = s.pick("L", "R"); s.trace("cinit"); s.mkq("i", "I"); s.mkq("v", "V"); s.mkq("l", "L"); s.mkq("l", "M")
    k = imu_keys(s, ori=s.chance(.7)); s.comp("I", "imu", "I", et, k); s.comp("V", "vel", "V", et, vel_keys(s)); s.comp("L", "leg", "L", et, leg_keys(s)); s.comp("M", "leg", "M", et, leg_keys(s))
    s.add("state", "S"); t = s.base() + s.u(0, 50)
    for _ in range(n):
        if s.chance(.5): s.add("srand", "S", s.rng.getrandbits(31), s.pick(7, 7, 15), fx(s.pick(0.0, 1.0, 3.0)), fx(s.pick(0.0, 1.0, 5.0)), fx(s.pick(1e-3, 0.1)), fx(s.pick(0.0, 0.1)))
        c = s.pick("I", "V", "V", "L", "L", "M")
        for _ in range(s.pick(0, 0, 1, 1, 2, 4)):
            t += s.u(-.2, .5)
            if c == "I": s.imu("I", t, s.rate(), s.v3(10), s.quat())
            elif c == "V": s.vel("V", t, s.v3(s.pick(0.0, 1.0, 3.0)))
            elif c == "L": m = s.pick(1, 3, 4); s.leg("L", t, *s.legs(m))
            else: s.mc("M", t, [s.u(-1.5, 1.5) for _ in range(12)], [s.u(-3, 3) for _ in range(12)], [s.chance(0.5) for _ in range(4)])
        if s.chance(.12): s.add("cclr", c)
        for _ in range(s.pick(1, 1, 2)): s.add("cinitp" if c == "I" else "cinitc", c, "S")

def scen_init(s):
    """P14: initialisation from what is waiting, with real leg kinematics among the sources."""
    et = s.pick("L", "R"); s.trace("init"); calib = s.chance(0.3)
    s.mkq("i", "I"); s.comp("I", "imu", "I", et, imu_keys(s, calib=calib, ori=True), direct=False)
    cors = []
    for j, k in enumerate(s.pick("", "v", "l", "m", "vm", "mv", "lv", "vl")):
        c = f"{k}{j}"; cors.append(c); s.mkq("v" if k == "v" else "l", c)
        s.comp(c, "vel" if k == "v" else "leg", c, et, vel_keys(s) if k == "v" else leg_keys(s), direct=False)
    s.est("E", et, est_keys(s), "I", cors); t = s.base() + s.u(0, 50)
    if calib:
        for _ in range(s.keysof["I"][3]["settings.init_bias_size"]):
            s.imu("I", t, s.rate(), s.v3(10), s.quat()); s.add("bias", "E")
    if s.chance(0.8): s.add("bias", "E")
    for life_ in range(s.pick(1, 2, 3)):
        if s.chance(0.5): s.add("init", "E")
        for c in cors:
            for _ in range(s.rng.randint(1, 4)):
                tt = t + s.u(-1, 1)
                if c[0] == "v": s.vel(c, tt, s.v3(2))
                elif c[0] == "l": n = s.pick(1, 3, 4); s.leg(c, tt, *s.legs(n))
                else: s.mc(c, tt, [s.u(-1.5, 1.5) for _ in range(12)], [s.u(-3, 3) for _ in range(12)], [s.chance(0.5) for _ in range(4)])
        for _ in range(s.rng.randint(1, 3)): t += 0.1; s.imu("I", t, s.rate(), s.v3(10), s.quat())
        s.add("init", "E")
        for _ in range(s.rng.randint(0, 3)): s.add("run", "E")
        s.add("clear", "E")

def rot(w, R):
    th = math.sqrt(sum(x * x for x in w))
    K = [[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]]
    a = 1 if th < 1e-9 else math.sin(th) / th; b = 0.5 if th < 1e-9 else (1 - math.cos(th)) / th ** 2
    K2 = [[sum(K[i][k] * K[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    E = [[(i == j) + a * K[i][j] + b * K2[i][j] for j in range(3)] for i in range(3)]
    return [[sum(R[i][k] * E[k][j] for k in range(3)) for j in range(3)] for i in range(3)]

def scen_long(s, n=400, legs=True, name="long"):
    """P12: a long consistent run: smooth motion, contacts switching, velocity updates."""
    et = s.pick("L", "R"); s.trace(name); s.far = 1
    k = {x: y for x, y in imu_keys(s).items() if x not in ("settings.rotation_imu2body", "settings.translation_imu2body")}
    for x in list(k):
        if x.startswith("priors"): k.pop(x)
    s.mkq("i", "I"); s.comp("I", "imu", "I", et, k, direct=False); cors = []
    if s.chance(0.7) or not legs: s.mkq("v", "v"); s.comp("v", "vel", "v", et, {"noises.velocity_std": s.u(0.02, 0.3)}, direct=False); cors.append("v")
    if legs: s.mkq("l", "l"); s.comp("l", "leg", "l", et, leg_keys(s), direct=False); cors.append("l")
    s.est("E", et, est_keys(s), "I", cors); s.add("bias", "E")
    dt = s.pick(0.002, 0.005, 0.01, 0.05); t = 1.0; R = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]; v = [0.0] * 3; p = [0.0] * 3
    F = [s.v3(0.5) for _ in range(4)]; c = [True] * 4; ph = [s.u(0, 6) for _ in range(6)]; amp = s.pick(0.1, 1.0, 4.0)
    def body(x): return [sum(R[k][i] * x[k] for k in range(3)) for i in range(3)]
    def sense(i):
        w = [amp * math.sin(0.7 * t + ph[j]) for j in range(3)]; acc = [0.8 * math.sin(1.3 * t + ph[3 + j]) for j in range(3)]
        s.imu("I", t, [x + s.rng.gauss(0, 0.01) for x in w], [x + s.rng.gauss(0, 0.03) for x in body([acc[0], acc[1], acc[2] + 9.8])])
        return w, acc
    def legm():
        s.leg("l", t, c, [[x + s.rng.gauss(0, 0.005) for x in body([F[j][i] - p[i] for i in range(3)])] for j in range(4)], [s.v3(0.3) for _ in range(12)], body(v))
    if "v" in cors: s.vel("v", t, body(v))
    if "l" in cors: legm()
    w, acc = sense(0); s.add("init", "E")
    for i in range(n):
        R = rot([x * dt for x in w], R); p = [p[j] + v[j] * dt for j in range(3)]; v = [v[j] + acc[j] * dt for j in range(3)]; t += dt
        w, acc = sense(i)
        if "v" in cors and i % 3 == 0: s.vel("v", t - dt * s.u(0.1, 2), [x + s.rng.gauss(0, 0.02) for x in body(v)])
        if "l" in cors and i % 2 == 0:
            for j in range(4):
                if s.chance(0.05):
                    c[j] = not c[j]
                    if c[j]: F[j] = [p[q] + x for q, x in enumerate(s.v3(0.5))]
            legm()
        if i % 50 == 49: s.add("views", 1)
        s.add("run", "E")
        if i % 50 == 49: s.add("views", 0)
        if i % 40 == 39: s.add("take", "E", 40)
    for _ in range(3): s.add("run", "E")

def scen_replay(s, ops, kinds, nbias, legs=2):
    """A behaviour of EstimatorMC on the real estimator."""
    et = s.pick("L", "R"); s.trace("mc"); s.far = 1; G = 0.125
    k = imu_keys(s); k["settings.static_bias_initialization"] = nbias > 0; k["settings.init_bias_size"] = nbias
    s.mkq("i", "I"); s.comp("I", "imu", "I", et, k, direct=False); cors = []
    for kind in kinds:
        c = "v" if kind == "vel" else "l"; s.mkq(c, c)
        s.comp(c, kind, c, et, vel_keys(s, thr=0.25) if kind == "vel" else leg_keys(s, thr=0.125), direct=False); cors.append(c)
    s.est("E", et, est_keys(s), "I", cors)
    for o in ops:
        if o[0] == "imu": s.imu("I", o[1] * G, s.rate("mid"), [x + y for x, y in zip(s.v3(2), (0, 0, 9.8))])
        elif o[0] == "vel": s.vel("v", o[1] * G, s.v3(1.5))
        elif o[0] == "leg": s.leg("l", o[1] * G, *s.legs(legs, list(o[2:])[:legs]))
        else: s.add(o[0], "E")

def scen_idle_twin(s, work_probe):
    """P15: the same data polled differently, beside an unrelated estimator; work_probe runs a script and returns its events."""
    sub = Script(s.work, s.rng.getrandbits(60), s.tag + "p"); scen_control(sub, n_ops=s.rng.randint(15, 45), calib=s.chance(0.3), clears=s.chance(0.3))
    A = sub.lines[1:]; names = {"E", "I"} | set(sub.keysof)
    ev = work_probe(sub.lines)
    other = Script(s.work, s.rng.getrandbits(60), s.tag + "o"); scen_control(other, n_ops=40)
    Cn = {"E", "I"} | set(other.keysof); C = rename(other.lines[1:], "c", Cn)
    s.trace("idletwin"); B = rename(A, "b", names)
    idle = []                               # for each driver line of A: is another run here idle?
    k = 1; lastd = None; lastq = None
    for l in A:
        op = l.split(" ")[0]
        if op in ("mkq", "est", "eprop", "evel", "eleg", "views"): idle.append(False); continue
        e = ev[k]; k += 1
        ok = False
        if op in ("run", "init") and e.get("en"):
            empty = all(not x for x in e["q"].values())
            ok = empty or (op == "run" and e["d"] == lastd and e["q"] == lastq)
        if "d" in e: lastd, lastq = e["d"], e["q"]
        idle.append(ok)
    ia, ic = 0, 0
    for j, l in enumerate(B):
        while ia <= j + s.rng.randint(-3, 3) and ia < len(A): s.lines.append(A[ia]); ia += 1
        while ic < len(C) and s.chance(0.45): s.lines.append(C[ic]); ic += 1
        s.lines.append(l)
        if idle[j]:
            for _ in range(s.rng.randint(0, 3)): s.lines.append("run Eb")
    s.lines += A[ia:] + C[ic:]
    s.cmp("E", "Eb", "P15", "published states depend on idle polling")

# ---- P25: the same data under configurations that differ in one key ------------------------------
def full_keys(s):
    """Explicit values for every documented key of the four components."""
    def q(): return s.pick([1.0, 0.0, 0.0, 0.0], s.quat())
    imu = {"noises.gyroscope_std": s.u(0.01, 0.3), "noises.accelerometer_std": s.u(0.01, 0.3), "noises.gyroscope_bias_std": s.u(0.01, 0.2), "noises.accelerometer_bias_std": s.u(0.01, 0.2),
           "settings.rotation_imu2body": q(), "settings.translation_imu2body": s.pick([0.0] * 3, s.v3(0.5)), "settings.enable_imu_bias_update": s.chance(0.5),
           "settings.static_bias_initialization": s.chance(0.5), "settings.init_bias_size": s.rng.randint(1, 4), "settings.use_imu_ori_to_init": s.chance(0.5),
           "priors.gyroscope_bias": s.v3(0.05), "priors.accelerometer_bias": s.v3(0.3)}
    vel = {"noises.velocity_std": s.u(0.01, 0.4), "settings.rotation_vel2body": q(), "settings.velocity_scale": s.pick(1.0, s.u(0.3, 2)), "settings.correction_time_threshold": s.pick(0.125, 0.5, 1.0)}
    leg = {"noises.encoder_std": s.u(0.01, 0.1), "noises.kinematics_additive_std": s.u(0.01, 0.1), s.pick("noises.contact_std", "noises.contact_noise_std"): s.u(0.01, 0.3), "settings.correction_time_threshold": s.pick(0.125, 0.5, 1.0)}
    est = {"state.rotation_std_value": s.u(0.02, 0.5), "state.velocity_std_value": s.u(0.02, 0.5), "state.position_std_value": s.u(0.02, 0.5)}
    return {"imu": imu, "vel": vel, "leg": leg, "est": est}
DEFAULTS = {"imu": {"noises.gyroscope_std": .1, "noises.accelerometer_std": .1, "noises.gyroscope_bias_std": .1, "noises.accelerometer_bias_std": .1, "settings.rotation_imu2body": [1., 0., 0., 0.],
                    "settings.translation_imu2body": [0.] * 3, "settings.enable_imu_bias_update": False, "settings.use_imu_ori_to_init": False, "priors.gyroscope_bias": [0.] * 3, "priors.accelerometer_bias": [0.] * 3},
            "vel": {"noises.velocity_std": .1, "settings.rotation_vel2body": [1., 0., 0., 0.], "settings.velocity_scale": 1., "settings.correction_time_threshold": .3},
            "leg": {"noises.encoder_std": .01, "noises.kinematics_additive_std": .05, "noises.contact_std": .1, "noises.contact_noise_std": .1, "settings.correction_time_threshold": .3}, "est": {}}
def base_keys(s, how):
    """A base configuration: arbitrary values, every default spelled out, or values that equal their squares."""
    K = full_keys(s)
    for comp in K:
        for k in K[comp]:
            if how == "default" and k in DEFAULTS[comp]: K[comp][k] = DEFAULTS[comp][k]
            if how == "neutral":
                if k.startswith(("noises", "state")): K[comp][k] = 1.0
                elif "rotation" in k: K[comp][k] = [1.0, 0.0, 0.0, 0.0]
                elif k == "settings.velocity_scale": K[comp][k] = 1.0
                elif "translation" in k or "priors" in k: K[comp][k] = [0.0] * 3
    return K
def cfg_life(s, K, et, seed, n=30):
    """Calibrate, initialise and run; the data depend on the seed only."""
    d = Script(s.work, seed, s.tag); d.nid = 0
    s.mkq("i", "I"); s.comp("I", "imu", "I", et, K["imu"], direct=False)
    s.mkq("v", "v"); s.comp("v", "vel", "v", et, K["vel"], direct=False)
    s.mkq("l", "l"); s.comp("l", "leg", "l", et, K["leg"], direct=False)
    s.est("E", et, K["est"], "I", ["v", "l"])
    G = 0.125; now = 3.0; c = [True, False, True]
    def imu(): d.imu("I", now, d.v3(1.0), [x + y for x, y in zip(d.v3(2), (0, 0, 9.8))], d.quat())
    for _ in range(5): imu(); now += G; d.add("bias", "E")
    d.add("bias", "E"); d.vel("v", now, d.v3(1.5)); d.leg("l", now, *d.legs(3, c)); imu(); now += G; imu(); d.add("init", "E")
    for _ in range(6): d.add("run", "E")
    for _ in range(n):
        r = d.rng.random()
        if r < 0.4: now += d.pick(1, 1, 2) * G; imu(); d.add("run", "E"); d.add("run", "E")
        elif r < 0.6: d.vel("v", now - d.pick(1, 2, 3, 4, 5, 8, 9) * G, d.v3(1.5))
        elif r < 0.8: c = [(not x) if d.chance(0.3) else x for x in c]; d.leg("l", now - d.pick(-2, -1, 0, 1, 2, 3, 4, 5, 8, 9) * G, *d.legs(3, c))
        d.add("run", "E")
    s.lines += d.lines
def nil(s, k):
    """A value that says "none of it", where a key admits one: given is not the same as absent.
    (A measurement without noise leaves nothing to divide by once the state is known.)"""
    if k in ("noises.velocity_std", "noises.imu_meas_noise_std", "noises.encoder_meas_noise_std"): return None
    if k.startswith(("noises", "state")) or k in ("settings.correction_time_threshold", "settings.t_threshold"): return 0.0
    return s.pick(0.0, -0.7) if k == "settings.velocity_scale" else None
def cfg_group(s, g):
    """[base script, variant script] of one group: the variants differ from the base in one key each."""
    et = s.pick("L", "R"); seed = s.rng.getrandbits(60); K = base_keys(s, ("any", "default", "neutral")[g % 3]); K["imu"]["settings.static_bias_initialization"] = g % 2 == 1 if g < 6 else K["imu"]["settings.static_bias_initialization"]; K2 = full_keys(s)
    base, var = Script(s.work, s.rng.getrandbits(60), f"{s.tag}g{g}b"), Script(s.work, s.rng.getrandbits(60), f"{s.tag}g{g}v")
    base.trace("base"); cfg_life(base, K, et, seed)
    for comp in K:
        for k in K[comp]:
            for how in ("absent", "changed") + (("zero", "noneon") if k == "settings.init_bias_size" else ("nil",) if nil(s, k) is not None else ()):
                V = {c: dict(x) for c, x in K.items()}
                if how in ("zero", "noneon"):      # asked to calibrate over no sample: the priors stay
                    V[comp]["settings.static_bias_initialization"] = True
                    if how == "zero": V[comp][k] = 0
                    else: del V[comp][k]
                elif how == "nil": V[comp][k] = nil(s, k)
                elif how == "absent": del V[comp][k]
                elif k in K2[comp] and K2[comp][k] != K[comp][k]: V[comp][k] = K2[comp][k]
                else: continue
                if k == "settings.init_bias_size" and how == "absent" and V["imu"]["settings.static_bias_initialization"] and s.chance(0.5): V["imu"]["settings.static_bias_initialization"] = False
                var.trace(f"{comp}.{k}:{how}"); cfg_life(var, V, et, seed)
    return base, var
