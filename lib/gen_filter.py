"""Seeded generators of IMU filter scripts (see harness/drv_filter.cpp)."""
import json
from gen_est import Script as Base, yaml_text, keys_note, rename, nil
from vplib import fx
MODE = {"SPA": 0, "SINGLE": 1, "MULTI": 2, "ANG": 3}

class Script(Base):
    def imuf(self, q, t): self.add("imu", q, self.id(), fx(t), self.v(self.rate(self.wst)), self.v(self.v3(10)), self.v(self.quat()))
    def angf(self, q, t): self.add("ang", q, self.id(), fx(t), self.v(self.rate(self.wst)))
    wst = "mid"
def fkeys(s, mode=None, static=None, nb=None, thr=None):
    k = {}
    for n in ("ang_vel_std", "ang_vel_bias_std", "filter_std", "filter_bias_std", "imu_meas_noise_std", "encoder_meas_noise_std"):
        if s.chance(.6): k["noises." + n] = s.u(0.003, 0.4)
    if s.chance(.6): k["settings.rotation_imu2body"] = s.quat()
    if s.chance(.7): k["settings.flat_ground"] = s.chance(.7)
    if thr is not None: k["settings.t_threshold"] = thr
    elif s.chance(.8): k["settings.t_threshold"] = s.pick(0.03, 0.125, 0.25, 0.375)
    if mode is not None and not (mode == "SPA" and s.chance(.5)): k["settings.correction_method"] = MODE[mode]
    st = s.chance(.4) if static is None else static
    if st or s.chance(.5): k["settings.static_bias_initialization"] = st
    if st or s.chance(.3): k["settings.init_bias_size"] = s.pick(0, 1, 2, 3, 5) if nb is None else nb
    if s.chance(.6): k["priors.ang_vel_bias"] = s.v3(0.2)
    return k
def setup(s, keys, gyro, nimu, nang, five, F="F", pre=""):
    """Buffers, filter and attachments; returns the buffer names (gyro, imus, ang)."""
    g = pre + "g" if gyro else ""; im = [pre + x for x in "ab"[:nimu]] if nimu <= 2 else [pre + x for x in "abcd"[:nimu]]; w = pre + "w" if nang else ""
    for q in ([g] if g else []) + im: s.mkq("i", q)
    if w: s.mkq("a", w)
    y = s.yaml(keys)
    cfg = dict(e="fcfg", F=F, gyro=g, single=im[0] if im else "", ang=w, imus=[] if five else im, nimu=0 if five else nimu, nang=0 if five else nang, keys=keys_note(keys))
    s.note(**cfg)
    if five: s.add("fnew5", F, im[0], w, y)
    else:
        s.add("fnew1", F, y)
        order = [("fimu", q) for q in im] + ([("fang", w)] if w else [])
        if s.chance(.3): order.reverse(); order = sorted(order, key=lambda x: x[0] == "fang") if s.chance(.5) else [o for o in order if o[0] == "fang"] + [("fimu", q) for q in im]
        order = [o for o in order if o[0] == "fang"] + [("fimu", q) for q in im] if s.chance(.5) else [("fimu", q) for q in im] + [o for o in order if o[0] == "fang"]
        for o, q in order: s.add(o, F, q)
    if g: s.add("fgyro", F, g)
    return g, im, w
SHAPES = [("SINGLE", 1, 0, False), ("SPA", 1, 1, False), ("MULTI", 2, 0, False), ("MULTI", 3, 0, False), ("ANG", 0, 1, False), ("SPA", 1, 1, True), ("SINGLE", 1, 1, True), ("ANG", 1, 1, True)]
def scen_filter(s, n_ops=60, static=None, clears=True, shape=None, thread=False):
    """A filter of any shape under a random history on a grid of times."""
    mode, nimu, nang, five = shape or s.pick(*SHAPES); gyro = s.chance(.6)
    s.trace(f"filter-{mode}{'-g' if gyro else ''}{'-5' if five else ''}"); s.wst = s.pick("mid", "mid", "small", None)
    if mode == "ANG" and not gyro and s.chance(.7): gyro = True
    k = fkeys(s, mode if five else s.pick(None, *MODE), static); g, im, w = setup(s, k, gyro, nimu, nang, five)
    G = 0.125 if s.chance(.8) else 0.01; now = s.base() + s.rng.randrange(0, 200) * G; thr = k.get("settings.t_threshold", 0.03)
    def push(q, t):
        t = max(t, 0.0)
        (s.angf if q == w else s.imuf)(q, t)
    srcs = im + ([w] if w else [])
    if thread: n_ops = 25
    for _ in range(n_ops):
        r = s.rng.random()
        if r < .25 and g:
            for _ in range(s.pick(1, 1, 2, 3)): now += s.pick(0, 1, 1, 2, 3) * G; push(g, now)
        elif r < .5:
            q = s.pick(*srcs)
            for _ in range(s.pick(1, 1, 2, 3)):
                d = s.pick(0, 0, -1, -1, -2, -3, -4, -8, 1, 2, 4) * G
                if s.chance(.2): d = s.pick(-1, 1) * thr
                push(q, now + d)
            if not g: now += s.pick(0, 1, 2) * G
        elif thread: continue
        elif r < .95:
            for _ in range(s.pick(1, 1, 2, 4)): s.add("frun", "F")
        elif r < .97: s.add("ftake", "F", s.rng.randint(0, 6))
        elif clears: s.add("fclear", "F")
    if thread: s.add("fthread", "F")
    else:
        for _ in range(8): s.add("frun", "F")
        if s.chance(.3): s.add("fdel", "F")
def scen_fscale(s, n, calib=False, clear=False):
    """Long backlogs: n waiting samples in every buffer, n unread outputs, a calibration over n samples."""
    mode, nimu, nang, five = s.pick(*SHAPES); gyro = s.chance(.6) or mode == "ANG"
    s.trace(f"scale-{mode}{'-g' if gyro else ''}{'-5' if five else ''}{'-cal' if calib else ''}{'-clear' if clear else ''}"); s.wst = s.pick("mid", "small")
    G = s.pick(0.0078125, 0.125); t = s.pick(0.0, 64.0, 1.7e9)
    k = fkeys(s, mode if five else None, calib, n if calib else None, thr=s.pick(2, 8) * G)
    if calib and n == 250: k.pop("settings.init_bias_size", None)          # the documented default
    g, im, w = setup(s, k, gyro, nimu, nang, five); s.add("brief", 1); src = im + ([g] if g else [])
    def burst(m, off=0):
        for j in range(m):
            for q in src: s.imuf(q, t + j * G)
            if w: s.angf(w, t + j * G)
    if calib:
        burst(n + 2)
        for _ in range(n + 6): s.add("frun", "F")
        t += (n + 2) * G
    else: burst(3); t += 3 * G
    for _ in range(3): s.add("frun", "F")
    burst(n); t += n * G
    if clear: s.add("fclear", "F"); burst(5)
    for _ in range(20 if clear else n + 10): s.add("frun", "F")
    if not clear:
        s.add("ftake", "F", s.pick(0, 1, n // 2)); s.add("ftake", "F", 2)
    s.add("brief", 0); s.add("frun", "F"); s.add("ftake", "F", 1)
def scen_startup(s):
    """P18: start-up with too little, exactly enough and too much data, clears in between, then life."""
    mode, nimu, nang, five = s.pick(*SHAPES); gyro = s.chance(.5) or mode == "ANG"
    s.trace(f"startup-{mode}{'-g' if gyro else ''}{'-5' if five else ''}")
    k = fkeys(s, mode if five else None, s.chance(.8), s.pick(0, 1, 2, 3, 6)); g, im, w = setup(s, k, gyro, nimu, nang, five)
    if s.chance(.1): s.add("fdel", "F"); return
    G = 0.125; now = s.base() + 1.0
    for _ in range(s.rng.randint(3, 30)):
        r = s.rng.random()
        if r < .35: now += G; s.imuf(s.pick(*(im + ([g] if g else []))), now)
        elif r < .5 and w: s.angf(w, now)
        elif r < .53: s.add("fclear", "F")
        else: s.add("frun", "F")
    for _ in range(12):
        for q in im + ([g] if g else []):
            if s.chance(.7): s.imuf(q, now)
        if w and s.chance(.7): s.angf(w, now)
        now += G
        for _ in range(s.pick(1, 2, 3)): s.add("frun", "F")
    s.add("fdel", "F") if s.chance(.5) else None
def scen_freplay(s, ops, gyro, nimu, nang, five, static, nb):
    s.trace("mc"); G = 0.125
    k = fkeys(s, five or None, static, nb, thr=0.25); g, im, w = setup(s, k, gyro, nimu, nang, bool(five))
    for o in ops:
        if o[0] == "push": (s.angf if o[1] == "w" else s.imuf)(o[1], o[2] * G)
        elif o[0] == "run": s.add("frun", "F")
        else: s.add("fclear", "F")
def scen_ftwin(s, work_probe):
    """P15: the same data polled differently, beside another filter."""
    sub = Script(s.work, s.rng.getrandbits(60), s.tag + "p"); scen_filter(sub, n_ops=s.rng.randint(15, 45), clears=s.chance(.4)); A = sub.lines[1:]
    A = [l for l in A if not l.startswith("fdel")]
    other = Script(s.work, s.rng.getrandbits(60), s.tag + "o"); scen_filter(other, n_ops=30); C = [l for l in other.lines[1:] if not l.startswith("fdel")]
    names = {"F", "g", "w"} | set("abcd")
    ev = work_probe([x for x in sub.lines if not x.startswith("fdel")])
    B = frename(A, "2", names); C = frename(C, "3", names)
    s.trace("ftwin"); k = 1; idle = []; last = None
    for l in A:
        op = l.split(" ")[0]
        if op in ("mkq", "fnew1", "fnew5", "fimu", "fang", "fgyro"): idle.append(False); continue
        e = ev[k]; k += 1
        # everything consumed: another iteration finds nothing to do
        idle.append(op == "frun" and all(not x for x in e["q"].values()))
    ia, ic = 0, 0
    static = any('"settings.static_bias_initialization":true' in l for l in A)
    for j, l in enumerate(B):
        while ia <= j + s.rng.randint(-3, 3) and ia < len(A): s.lines.append(A[ia]); ia += 1
        while ic < len(C) and s.chance(.45): s.lines.append(C[ic]); ic += 1
        s.lines.append(l)
        if idle[j] and not static:
            for _ in range(s.rng.randint(0, 3)): s.lines.append("frun F2")
    s.lines += A[ia:] + C[ic:]
    s.cmp("F", "F2", "P15", "emitted samples depend on idle polling")
def frename(lines, suffix, names):
    out = []
    for l in lines:
        if l.startswith("note "):
            d = json.loads(l[5:])
            for k in ("F", "q", "gyro", "single", "ang"):
                if d.get(k) in names: d[k] += suffix
            if "imus" in d: d["imus"] = [x + suffix for x in d["imus"]]
            out.append("note " + json.dumps(d, separators=(",", ":")))
        else:
            w = l.split(" "); out.append(" ".join([w[0]] + [x + suffix if x in names and i < 3 else x for i, x in enumerate(w[1:])]))
    return out

# ---- P25: one key at a time ----------------------------------------------------------------------
FDEF = {"noises.ang_vel_std": .01, "noises.ang_vel_bias_std": .01, "noises.filter_std": .01, "noises.filter_bias_std": .01, "noises.imu_meas_noise_std": .1, "noises.encoder_meas_noise_std": .1,
        "settings.rotation_imu2body": [1., 0., 0., 0.], "settings.flat_ground": False, "settings.t_threshold": .03, "settings.static_bias_initialization": False, "priors.ang_vel_bias": [0.] * 3, "settings.correction_method": 0}
def ffull(s):
    k = {n: s.u(0.01, 0.4) for n in FDEF if n.startswith("noises")}
    k.update({"settings.rotation_imu2body": s.pick([1., 0., 0., 0.], s.quat()), "settings.flat_ground": s.chance(.7), "settings.t_threshold": s.pick(.03, .125, .375),
              "settings.static_bias_initialization": s.chance(.4), "settings.init_bias_size": s.rng.randint(1, 4), "priors.ang_vel_bias": s.v3(.2), "settings.correction_method": s.pick(0, 1, 3)})
    return k
def flife(s, keys, seed, shape, gyro):
    d = Script(s.work, seed, s.tag); mode, nimu, nang, five = shape
    d.rng.random(); g, im, w = setup(d, keys, gyro, nimu, nang, five); G = 0.125; now = 1.0
    for _ in range(5):
        for q in im + ([g] if g else []): d.imuf(q, now)
        if w: d.angf(w, now)
        now += G; d.add("frun", "F"); d.add("frun", "F")
    for _ in range(25):
        r = d.rng.random()
        if r < .4 and g: now += d.pick(0, 1, 1, 2) * G; d.imuf(g, now)
        elif r < .8:
            q = d.pick(*(im + ([w] if w else []))); t = now - d.pick(0, 0, 1, 1, 2, 3, 4) * G
            (d.angf if q == w else d.imuf)(q, t)
            if not g: now += G
        d.add("frun", "F"); d.add("frun", "F")
    s.lines += d.lines
def fcfg_group(s, g):
    seed = s.rng.getrandbits(60); shape = SHAPES[(g // 3) % len(SHAPES)]; gyro = s.chance(.6) or shape[0] == "ANG"; K = ffull(s); K2 = ffull(s); how = ("any", "default", "neutral")[g % 3]
    if how == "default": K = {k: FDEF.get(k, v) for k, v in K.items()}
    if how == "neutral": K = {k: 1.0 if k.startswith("noises") else [1., 0., 0., 0.] if "rotation" in k else [0.] * 3 if "priors" in k else v for k, v in K.items()}
    if shape[3]: K["settings.correction_method"] = K2["settings.correction_method"] = MODE[shape[0]]
    base, var = Script(s.work, s.rng.getrandbits(60), f"{s.tag}g{g}b"), Script(s.work, s.rng.getrandbits(60), f"{s.tag}g{g}v")
    base.trace("base"); flife(base, K, seed, shape, gyro)
    for k in K:
        for h in ("absent", "changed") + (("nil",) if nil(s, k) is not None else ()):
            V = dict(K)
            if h == "absent": del V[k]
            elif h == "nil": V[k] = nil(s, k)
            elif K2[k] != K[k]: V[k] = K2[k]
            else: continue
            if k == "settings.init_bias_size" and h == "absent": V["settings.static_bias_initialization"] = s.chance(.5)
            var.trace(f"{k}:{h}"); flife(var, V, seed, shape, gyro)
    return base, var
