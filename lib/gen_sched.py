"""Seeded generators of threaded scenarios (see harness/drv_sched.cpp)."""
from gen_est import Script as Base, imu_keys, vel_keys, est_keys, leg_keys
from gen_filter import fkeys, MODE
from vplib import fx
import os

class Script(Base):
    def trace(self, name, mode=None, limit=None):
        super().trace(name); self.far = min(self.far, 100); self.cur = self.pre = []; self.thr = []
        m = self.rng.choice([0, 1, 2, 3, 4, 4, 4]) if mode is None else mode; self.add("sched", self.rng.getrandbits(40), m, limit or self.limit)
    limit = 200000
    def close(self, before, threads, after):
        self.lines += before
        for t in threads: self.lines.append("thread"); self.lines += t
        self.lines += ["main", "go", "wait"] + after
    def logname(self):
        n = self.work.nlog = getattr(self.work, "nlog", 0) + 1
        d = self.work.path("logs", self.pick("", "", "run.1", "a.b/c")); os.makedirs(d, exist_ok=True); return os.path.join(d, f"{self.tag}{n}")
    def w_imu(self, q, t): return self.again(f"imu {q} {self.id()} {fx(t)} {self.v(self.v3(.5))} {self.v([self.u(-1, 1), self.u(-1, 1), 9.81 + self.u(-1, 1)])}")
    def w_vel(self, q, t): return self.again(f"vel {q} {self.id()} {fx(t)} {self.v(self.out(self.v3(1)))}")
    def w_ang(self, q, t): return self.again(f"ang {q} {self.id()} {fx(t)} {self.v(self.out(self.v3(.5)))}")
    def w_leg(self, q, t): return self.again(f"leg {q} {self.id()} {fx(t)} {self.v([self.u(-.5, .5) for _ in range(12)])} {' '.join(str(self.rng.randrange(2)) for _ in range(4))}")
    def w_y(self, p=.4): return [f"y {self.rng.randint(1, 12)}"] if self.chance(p) else []

def logs(s, base, clears, rate, names=None):
    """Read back the log files of every period."""
    out = [f"lograte {fx(rate)}"]; pose, vel = names or (base + "_p", base + "_v")
    for n in range(1, clears + 2):
        if n == 1: names = (pose, vel, vel + "_body_frame")
        else: c = n - 1; names = (f"{pose}_{3 * c - 2}", f"{vel}_{3 * c - 1}", f"{vel}_body_frame_{3 * c}")
        for k, cols, f in zip(("pose", "vel", "body"), (8, 4, 4), names): out.append(f"log {k} {n} {cols} {f}.txt")
    return out + ["logged"]
def scen_est(s, log=True, clears=False, legs=False, runs=30, ekf=None, bias=False):
    """An estimator stepped by one thread while others produce its inputs and consume its states; its logger writes."""
    s.trace("estimator" + ("-clear" if clears else "") + ("-leg" if legs else "") + ("-ekf" if ekf else "") + ("-log" if log else ""))
    et = s.rng.randrange(2); base = s.logname(); rate = s.pick(2.0, 5.0, 1.0, 0.5, 10.0, 1000.0)
    k = est_keys(s); k["logger.enable_pose_logger"] = bool(log)
    if log:
        k["logger.pose_log_file"] = base + "_p.txt"; k["logger.vel_log_file"] = base + "_v.txt"; k["logger.pose_log_rate"] = rate
    B = ["iq i", "vq v"]
    if legs: B += ["lq l"]
    vk = vel_keys(s); vk["settings.correction_time_threshold"] = 1.0
    ik = imu_keys(s, calib=bias); src = "i"
    if bias: ik["settings.init_bias_size"] = 2
    B += [f"est {et} {s.yaml(k)}"]
    if ekf:
        fk = fkeys(s, ekf, static=False); fk["settings.correction_method"] = MODE[ekf]
        B += ["aq w", f"ekf i w f {s.yaml(fk)}"]; src = "f"
    B += [f"prop {src} {s.yaml(ik)}", f"vcor v {s.yaml(vk)}"]
    if legs: lk = leg_keys(s); lk["settings.correction_time_threshold"] = 1.0; B += [f"lcor l {s.yaml(lk)}"]
    t0 = s.base() + 100.0; t2 = t0 + s.pick(100.0, 100.0, -50.0); B += [s.w_imu("i", t0 + .125 * j) for j in range(3 if bias else 1)]
    if ekf: B += [s.w_imu("i", t0)]
    B += [s.w_vel("v", t0)] + ([s.w_leg("l", t0)] if legs else [])
    n = s.rng.randint(4, 12); P, V, A, L = [], [], [], []; stale = s.chance(.4)
    def old(w, q, t): return [w(q, t - s.pick(1.5, 3.0, 20.0)) for _ in range(s.rng.randint(1, 3))] if stale and s.chance(.3) else []
    for j in range(1, n + 1):
        t = t0 + .5 + .25 * j; P += [s.w_imu("i", t)] + s.w_y(); V += old(s.w_vel, "v", t) + ([s.w_vel("v", t - s.pick(0, .125))] if s.chance(.6) else []) + s.w_y(.3)
        if ekf: A += ([s.w_ang("w", t)] if s.chance(.5) else []) + s.w_y(.3)
        if legs: L += old(s.w_leg, "l", t) + ([s.w_leg("l", t)] if s.chance(.5) else []) + s.w_y(.3)
    E = []; nc = 0
    for j in range(runs):
        E.append("run"); E += s.w_y(.15)
        if clears and nc < 2 and j > 4 and s.chance(.12):
            # enough data for the initialisation that follows a clear
            E += ["clear", s.w_vel("v", t2), *([s.w_leg("l", t2)] if legs else [])]; nc += 1
            E += [s.w_imu("i", t2 + .25 * j) for j in range(1, s.rng.randint(4, 8))]
    C = []
    for j in range(s.rng.randint(3, 15)): C += ["take out"] + s.w_y(.7)
    th = [E, P, V, C] + ([A] if ekf else []) + ([L] if legs else [])
    if s.chance(.3): th.append(["take out"] * s.rng.randint(1, 6))
    after = ["run"] * s.rng.randint(0, 6) + ["end"]
    if clears and s.chance(.15): after.insert(0, "clear"); nc += 1; after = ["clear", "end"]
    s.close(B, th, after + (logs(s, base, nc, rate) if log else []))
def scen_logrun(s, short=False):
    """One thread steps the estimator over given data; the logger lags behind as the schedule wants; then the end."""
    s.trace("log-backlog"); et = s.rng.randrange(2); base = s.logname(); rate = s.pick(.5, 1.0, 2.0, 4.0, 10.0, 3.0)
    k = est_keys(s); k.update({"logger.enable_pose_logger": True, "logger.pose_log_file": base + s.pick("_p.txt", "_p.csv", "_p"), "logger.vel_log_file": base + s.pick("_v.txt", "_v"), "logger.pose_log_rate": rate})
    if s.chance(.15): del k["logger.pose_log_rate"]; rate = 10.0
    names = None
    if s.chance(.12): names = ("inekf_pose", "inekf_vel"); del k["logger.pose_log_file"], k["logger.vel_log_file"]      # the documented defaults
    elif s.chance(.1): names = ("here_p", "here_v"); k.update({"logger.pose_log_file": "here_p.csv", "logger.vel_log_file": "./here_v.txt"})
    vk = vel_keys(s); vk["settings.correction_time_threshold"] = 1.0
    B = ["iq i", "vq v", f"est {et} {s.yaml(k)}", f"prop i {s.yaml(imu_keys(s))}", f"vcor v {s.yaml(vk)}"]; nc = s.pick(0, 0, 1, 2) if not short else s.pick(2, 3, 4, 2, 3, 4, 2, 3, 4, 12); M = []; t = s.pick(0.0, 0.0, 50.0, 1.7e9)
    for p in range(nc + 1):
        if p and s.chance(.5): t = 0.0
        B2 = [s.w_vel("v", t), s.w_imu("i", t)]; n = s.rng.randint(0, 9) if not short else s.rng.randint(1, 3)
        for j in range(n):
            t += s.pick(.125, .25, .25, .5, 1.0); B2.append(s.w_imu("i", t))
            if s.chance(.4): B2.append(s.w_vel("v", t))
        M += B2 + ["run"] * 1 + ["run"] * (n + 1)
        for j in range(s.rng.randint(0, 3) if not short else s.rng.randint(0, 1)): M += [f"y {s.rng.randint(1, 25)}"]
        if p < nc: M += ["clear"]
    M += [f"y {s.rng.randint(1, 200)}"] if s.chance(.3) else []
    s.close(B, [], M + ["end"] + logs(s, base, nc, rate, names))
def scen_logscale(s, n):
    """The logger hardly gets to run while n steps publish n states, which nobody takes; then the end, or a clear and a second life."""
    s.trace("log-scale", mode=s.pick(5, 5, 1), limit=3000000); et = s.rng.randrange(2); base = s.logname(); rate = s.pick(4.0, 10.0, 1000.0); nc = s.pick(0, 0, 1)
    k = est_keys(s); k.update({"logger.enable_pose_logger": True, "logger.pose_log_file": base + "_p.txt", "logger.vel_log_file": base + "_v.txt", "logger.pose_log_rate": rate})
    ik = {a: b for a, b in imu_keys(s).items() if "2body" not in a and "priors" not in a}; vk = vel_keys(s); vk["settings.correction_time_threshold"] = 1.0
    B = ["scale", "iq i", "vq v", f"est {et} {s.yaml(k)}", f"prop i {s.yaml(ik)}", f"vcor v {s.yaml(vk)}"]; M = []; t = s.pick(0.0, 50.0, 1.7e9)
    for p in range(nc + 1):
        M += [s.w_vel("v", t), s.w_imu("i", t)]
        for j in range(n if p == nc else 30):
            t += .125; M.append(s.w_imu("i", t))
            if s.chance(.3): M.append(s.w_vel("v", t))
        M += ["run"] * ((n if p == nc else 30) + 2)
        if p < nc: M.append("clear")
    s.close(B, [], M + ["end"] + logs(s, base, nc, rate))
def scen_script(s, behaviours):
    """A behaviour of the model Threads: the same measurements and calls, in the order of critical sections it prescribes."""
    prog, takes, ops, letters = behaviours.pop()
    s.trace("model", mode=7); et = s.rng.randrange(2); base = s.logname(); rate = s.pick(4.0, 2.0, 1.0, 10.0)
    k = est_keys(s); k.update({"logger.enable_pose_logger": True, "logger.pose_log_file": base + "_p.txt", "logger.vel_log_file": base + "_v.txt", "logger.pose_log_rate": rate})
    vk = vel_keys(s); vk["settings.correction_time_threshold"] = .25
    B = ["iq i", "vq v", f"est {et} {s.yaml(k)}", f"prop i {s.yaml(imu_keys(s))}", f"vcor v {s.yaml(vk)}", "initbias"]; t0 = s.base()
    P = [(s.w_imu if q == "i" else s.w_vel)(q, t0 + .25 * t) for q, t in prog]
    E = sum([{"i": ["step v"], "r": ["step v"], "c": ["clear", "initbias"], "e": ["end"]}[o] for o in ops], [])
    s.lines += B + ["thread"] + P + ["thread"] + ["take out"] * takes + ["main", "go", f"script EGPC {letters}"] + E + ["wait"] + logs(s, base, ops.count("c"), rate)
def scen_fscript(s, behaviours):
    """A behaviour of the model FilterThreads."""
    prog, takes, clears, letters = behaviours.pop()
    s.trace("fmodel", mode=7); t0 = s.pick(10.0, 1700000000.0)
    B = ["iq a", "aq w", f"fil f {s.yaml(fkeys(s, 'SPA', static=False))}", "fimu a", "fang w", "fstart"]
    P = [s.w_imu("a", t0 + .25 * t) if q == "i" else s.w_ang("w", t0 + .25 * t) for q, t in prog]
    s.lines += B + ["thread"] + P + ["thread"] + ["take f"] * takes + (["thread"] + ["fclear"] * clears if clears else []) + ["main", "go", f"script MFPCK {letters}", "wait", "fend"]
def scen_stale(s):
    """Corrections whose waiting data are all too old, too new, or absent, when the step comes; a producer may be at work meanwhile."""
    s.trace("stale"); et = s.rng.randrange(2); k = est_keys(s); k["logger.enable_pose_logger"] = False
    vk, lk = vel_keys(s), leg_keys(s); vk["settings.correction_time_threshold"] = lk["settings.correction_time_threshold"] = 1.0
    kinds = s.pick("vl", "lv", "v", "l", "ll"); B = ["iq i"]; qs = []
    for j, x in enumerate(kinds): q = f"{x}{j}"; qs.append(q); B.append(f"{x}q {q}")
    B += [f"est {et} {s.yaml(k)}", f"prop i {s.yaml(imu_keys(s))}"] + [f"{q[0]}cor {q} {s.yaml(vk if q[0] == 'v' else lk)}" for q in qs]
    t = 50.0; w = lambda q, x: (s.w_vel if q[0] == "v" else s.w_leg)(q, x)
    B += [s.w_imu("i", t)] + [w(q, t) for q in qs] + ["run"]; E, T = [], []
    for j in range(s.rng.randint(4, 10)):
        t += .25; X = [s.w_imu("i", t)]
        for q in qs: X += [w(q, t + d) for d in s.pick((), (0,), (-3,), (-5, -3), (-5, -3, 0), (-1.5, 2), (3,))]
        if s.chance(.5): E += X + ["run"] + s.w_y(.3)
        else: T += X + s.w_y(.3); E += ["run"] + s.w_y(.3)
    s.close(B, [E, T] if T else [E], ["run"] * s.rng.randint(0, 6) + ["end"])
def scen_fil(s, clears=False):
    """The IMU filter in its own thread, with concurrent producers and a consumer; destroyed at some point."""
    mode, nimu, nang = s.pick(("SINGLE", 1, 0), ("SPA", 1, 1), ("SPA", 1, 1), ("MULTI", 2, 0), ("MULTI", 3, 0)); gyro = s.chance(.35)
    s.trace(f"filter-{mode}{'-g' if gyro else ''}{'-clear' if clears else ''}")
    k = fkeys(s, mode, static=s.chance(.3) if clears or gyro else False, nb=2); y = s.yaml(k); im = list("abc"[:nimu])
    B = [f"iq {q}" for q in im] + (["iq g"] if gyro else []) + (["aq w"] if nang else []) + [f"fil f {y}"]
    B += [f"fimu {q}" for q in im] + (["fang w"] if nang else []) + (["fgyro g"] if gyro else [])
    T = []; t0 = 10.0
    for q in im + (["g"] if gyro else []) + (["w"] if nang else []):
        p = []
        for j in range(s.rng.randint(3, 12)):
            t = t0 + .125 * j - (s.pick(0, .125, .25) if q != "g" and gyro else 0)
            p += [s.w_ang(q, t) if q == "w" else s.w_imu(q, t)] + s.w_y(.4)
        if s.chance(.3): k2 = len(p) // 2; B += [x for x in p[:k2] if not x.startswith("y")]; p = p[k2:]
        T.append(p)
    B.append("fstart")
    T.append(sum([["take f"] + s.w_y(.6) for _ in range(s.rng.randint(2, 12))], []))
    drain = [f"until {q}" for q in im + (["w"] if nang else [])]
    if clears: T.append(sum([[f"y {s.rng.randint(1, 60)}", "fclear"] for _ in range(s.rng.randint(1, 3))], []))
    after = []
    if not clears and not gyro: after += drain + ["y 30", "fend"] + ["expect f"]
    elif s.chance(.5): after += drain + ["fend"]
    else: after += ["fend"]
    s.close(B, T, after)
def scen_wheel(s):
    """Wheel odometry with its two inputs produced concurrently."""
    s.trace("wheel"); base = s.logname(); rate = s.pick(1e6, 1.0, 4.0); y = s.yaml({"logger.enable_pose_logger": True, "logger.pose_log_file": base + ".txt", "logger.pose_log_rate": rate})
    B = ["vq v", "aq w", f"wheel v w {y}"]; n = s.rng.randint(3, 15)
    V = sum([[s.w_vel("v", .25 * (j + 1))] + s.w_y(.4) for j in range(n)], []); A = sum([[s.w_ang("w", .25 * (j + 1))] + s.w_y(.4) for j in range(n)], [])
    s.close(B, [V, A, sum([["wrun"] + s.w_y(.3) for _ in range(n + 8)], [])], ["wrun"] * 3 + ["wend"])
