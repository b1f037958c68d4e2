"""Seeded scenarios of the ROS wrappers (see harness/drv_ros_ops.hpp)."""
import math
from gen_sched import Script as Base
from gen_est import imu_keys, vel_keys, est_keys, leg_keys, yaml_text
from vplib import fx

class Script(Base):
    limit = 1500000
    def head(self, t=None):
        """Sequence number, stamp, frame; exact binary fractions when t is given."""
        if t is not None: sec = int(math.floor(t)); return f"{self.id()} {sec} {int(round((t - sec) * 1e9))} base"
        return f"{self.pick(0, 1, self.rng.randrange(1 << 31), (1 << 32) - 1)} {self.stamp()} {self.pick('~', 'imu_link', 'odom', '/base')}"
    def stamp(self):
        return f"{self.pick(0, self.rng.randrange(100), self.rng.randrange(1 << 31), (1 << 32) - 1)} {self.pick(0, 1, 999999999, 500000000, self.rng.randrange(10 ** 9))}"
    def val(self, n, m=None): m = m or self.pick(0.0, 1e-3, 1.0, 1.0, 50.0, 1e4); return self.v([self.u(-m, m) for _ in range(n)])
    def oquat(self): return self.v(self.pick([0.0] * 4, [1.0, 0, 0, 0], [0.0, 1, 0, 0], self.quat(), self.quat()))
KINDS = ("imu", "fimu", "vel", "velc", "dd1", "dd2", "fl", "fa", "odom", "leg")
def add(s, k, n):
    """One subscription: the operation and what is needed to write messages for it."""
    q, t = f"{k}{n}", f"/{k}/{n}"
    if k in ("imu", "vel", "velc"): return f"r{k} {q} {t}", [q], t
    if k == "fimu": return f"rfimu {q} {t} {t}/offset", [q], t
    if k in ("dd1", "fl"): return f"r{k} {q} {t} {fx(s.u(.05, .5))}", [q], t
    if k in ("dd2", "fa"): return f"r{k} {q} {q}w {t} {fx(s.u(.05, .5))} {fx(s.u(.2, 1))}", [q, q + "w"], t
    if k == "odom": return f"rodom {q} {t} {s.v(s.pick([0.0] * 3, s.v3(1), s.v3(1)))} {s.v(s.pick([1.0, 0, 0, 0], s.quat(), s.quat()))}", [q], t
    return f"rmc {q} {t} {t}/joints", [q], t
class Odo:
    """Poses of an odometry source: never a rotation near half a turn between two of them, never the same stamp twice."""
    def __init__(self, s): self.s = s; self.q = s.quat(); self.p = s.v3(s.pick(1, 1, 100)); self.t = [s.pick(0, s.rng.randrange(100), 1700000000), s.rng.randrange(10 ** 9)]
    def next(self):
        s = self.s; a = s.pick(0.0, 1e-9, 1e-3, .1, 1.0, 2.4); u = s.v3(1); n = math.sqrt(sum(x * x for x in u)) or 1.0; w = [math.cos(a / 2)] + [math.sin(a / 2) * x / n for x in u]
        q = self.q; r = [q[0] * w[0] - sum(q[i] * w[i] for i in (1, 2, 3)), q[0] * w[1] + q[1] * w[0] + q[2] * w[3] - q[3] * w[2], q[0] * w[2] - q[1] * w[3] + q[2] * w[0] + q[3] * w[1], q[0] * w[3] + q[1] * w[2] - q[2] * w[1] + q[3] * w[0]]
        m = math.sqrt(sum(x * x for x in r)); self.q = [x / m for x in r]; d = s.pick(0.0, 1e-6, .01, 1.0, 1.0, 100.0); self.p = [x + y for x, y in zip(self.p, s.v3(d))]
        self.t[1] += s.pick(1000000, 10000000, 100000000, 999999999)
        if self.t[1] >= 10 ** 9: self.t[0] += 1; self.t[1] -= 10 ** 9
        return f"{s.rng.randrange(1 << 31)} {self.t[0]} {self.t[1]} odom {s.v(self.p)} {s.v(self.q)} {s.val(6)}"
def write(s, k, t, how, odo):
    """A message; some sources send the same one twice."""
    l = s.last.get((k, t))
    if k == "odom" or l is None or not s.stuck or s.rng2.random() > .25: l = s.last[k, t] = write1(s, k, t, how, odo).split(" ")
    l[2] = how; return " ".join(l)
def write1(s, k, t, how, odo):
    if k == "imu": return f"msg imu {how} {t} {s.head()} {s.val(6)} {s.oquat()}"
    if k == "fimu": return f"msg fimu {how} {t} {t}/offset {s.head()} {s.val(6)} {s.oquat()} {s.head()} {s.val(3)}"
    if k in ("vel", "velc"): return f"msg {k} {how} {t} {s.head()} {s.val(6)}"
    if k in ("dd1", "dd2"): return f"msg joint {how} {t} {s.head()} 4 {s.pick(0, 4)} " + s.val(4) + " " + s.val(0)
    if k in ("fl", "fa"): n = s.pick(0, 1, 2, 3, 3, 5, 13, 13); return f"msg joint {how} {t} {s.head()} {n} 0 {s.val(n)}"
    if k == "odom": return f"msg odom {how} {t} {odo[t].next()}"
    return f"msg leg {how} {t} {t}/joints {s.head()} {' '.join(str(s.rng.randrange(2)) for _ in range(4))} {s.head()} {s.val(24)}"
def fix(l):   # positions of joint messages are filled to the announced number
    w = l.split(" ")
    if w[1] == "joint":
        n, p = int(w[8]), int(w[9]); v = [x for x in w[10:] if x]; l = " ".join(w[:10] + v[:n] + ["0x1p0"] * p)
    return l
def scen_sub(s):
    """Subscriptions of every kind; messages delivered at once, or by the spinner's threads while consumers take measurements."""
    spin = s.chance(.6); s.trace("subscriptions" + ("-spinner" if spin else "")); B = ["rsub"]; S = []
    for n in range(s.rng.randint(1, 6)): k = s.pick(*KINDS); o, qs, t = add(s, k, n); S.append((k, t, qs)); B.append(o)
    if s.chance(.4):      # a second subscription of the same topic
        k, t, _ = s.pick(*S); o, qs, t2 = add(s, k, 90); B.append(o.replace(t2 + "/", t + "/").replace(t2 + " ", t + " ") if (t2 + " ") in o or (t2 + "/") in o else o.replace(t2, t)); S.append((k, t, qs))
    odo = {t: Odo(s) for k, t, _ in S if k == "odom"}; L = []
    def some(how, n): return [fix(write(s, *s.pick(*S)[:2], how, odo)) for _ in range(n)]
    def other(how): return [f"msg vel {how} /nobody {s.head()} {s.val(6)}"] if s.chance(.2) else []
    if not spin: M = some("d", s.rng.randint(3, 25)) + other("d"); s.close(B, [], M + ["rdrain"] + (["rok"] if s.chance(.5) else []) + ["rend"] + some("d", 3)); return
    P = [[] for _ in range(s.rng.randint(1, 3))]; by = {t: s.pick(*P) for k, t, q in S}
    for _ in range(s.rng.randint(3, 25)): k, t, q = s.pick(*S); by[t] += [fix(write(s, k, t, "e", odo))] + s.w_y(.3)
    C = sum([[f"take {s.pick(*s.pick(*S)[2])}"] + s.w_y(.5) for _ in range(s.rng.randint(0, 15))], [])
    T = P + ([C] if C else [])
    if s.chance(.3): B += some("e", s.rng.randint(1, 5))
    s.close(B + ["rstart"], T, (["rdrain"] if s.chance(.85) else []) + ["rok", "rend"] + some("e", 2) + some("d", 2))
def pub_cfg(s):
    pose, path = s.pick((10, 10), (1000, 100), (100, 50), (100, 30), (50, 7), (10, 4), (3, 1))
    k = {"publishers.pose_publish_topic": s.pick("/robot/pose", "/husky/pose"), "publishers.path_publish_topic": s.pick("/robot/path", "/p"), "publishers.pose_frame": s.pick("/odom", "map"),
         "publishers.pose_publish_rate": s.pick(pose, float(pose)), "publishers.path_publish_rate": s.pick(path, float(path))}
    if s.chance(.5): k["publishers.enable_slip_publisher"] = s.chance(.5)
    return k, int(pose / path)
def pub_op(s, default=None):
    if default if default is not None else s.chance(.2): return f"rpub {s.pick(0, 1)} /robot/inekf_estimation/pose /robot/inekf_estimation/path /odom {fx(1000)} {fx(10)}", 100
    k, n = pub_cfg(s); g = lambda x: k["publishers." + x]
    return f"rpubc {s.yaml(k)} {g('pose_publish_topic')} {g('path_publish_topic')} {g('pose_frame')} {fx(g('pose_publish_rate'))} {fx(g('path_publish_rate'))}", n
def state(s, t): return f"state {fx(t)} {s.v(s.pick([1.0, 0, 0, 0], [0.0, 0, 0, 1], s.quat(), s.quat()))} {s.val(3)} {s.val(3)} {s.rng.getrandbits(30)} {s.pick(0, 0, 0, 1, 4)}"
def scen_pub(s, default=None):
    """States put in the queue before and while the publisher runs."""
    o, skip = pub_op(s, default); s.trace("publisher"); B = ["rstates", o]; n = s.rng.randint(0, 30) if skip < 100 else s.pick(5, 210); t = s.pick(0.0, 5.0, 1700000000.0); st = []
    for _ in range(n): t += s.pick(.001, .25, 1e-9, .9999999999, 0.0); st.append(state(s, t))
    k = s.rng.randint(0, n) if s.chance(.5) else 0; B += st[:k] + ["rpstart"]; P = sum([[x] + s.w_y(.3) for x in st[k:]], [])
    clr = s.chance(.35); T = [P] if P else []      # clears, in the producer's thread or in one of their own
    if clr and P and s.chance(.5):
        for _ in range(s.rng.randint(1, 4)): P.insert(s.rng.randint(0, len(P)), "oclear")
    elif clr: T.append(sum([s.w_y(.8) + ["oclear"] for _ in range(s.rng.randint(1, 4))], []))
    s.close(B, T, (["until out"] if clr else [f"rpubd {n} {n // skip}"] if s.chance(.85) else []) + ["rok", "rpend"])
def scen_ros(s):
    """A robot: subscriptions, spinner, estimator in its own thread, publisher."""
    s.trace("robot"); et = s.rng.randrange(2); k = est_keys(s); k["logger.enable_pose_logger"] = False
    vk, lk = vel_keys(s), leg_keys(s); vk["settings.correction_time_threshold"] = lk["settings.correction_time_threshold"] = 1.0; legs = s.chance(.5)
    B = ["rsub", "rimu i /imu"] + (["rmc l /contacts /joints"] if legs else ["rvel v /vel"]) + (["rstart"] if s.chance(.5) else [])
    B += [f"est {et} {s.yaml(k)}", f"prop i {s.yaml(imu_keys(s))}", f"lcor l {s.yaml(lk)}" if legs else f"vcor v {s.yaml(vk)}", "rest"]
    o, skip = pub_op(s, False); B += [o] + (["rstart"] if "rstart" not in B else []) + ["rpstart"]; t0 = 100.0
    imu = lambda t: f"msg imu e /imu {s.head(t)} {s.val(3, .5)} {s.val(2, .5)} {fx(9.81)} {s.oquat()}"
    cor = lambda t: f"msg leg e /contacts /joints {s.head(t)} {' '.join(str(s.rng.randrange(2)) for _ in range(4))} {s.head(t)} {s.val(24, .5)}" if legs else f"msg vel e /vel {s.head(t)} {s.val(6, 1.0)}"
    B += [cor(t0), imu(t0)] + (["rdrain"] if s.chance(.9) else []); n = s.rng.randint(3, 12); P, C = [], []
    for j in range(1, n + 1): P += [imu(t0 + .25 * j)] + s.w_y(); C += ([cor(t0 + .25 * j - s.pick(0, .125))] if s.chance(.6) else []) + s.w_y(.3)
    E = sum([["run"] + s.w_y(.15) for _ in range(25)], [])
    s.close(B, [E, P, C], (["rdrain"] if s.chance(.8) else []) + ["run"] * s.rng.randint(0, 8) + ["until out"] * s.chance(.5) + ["rok"] + s.pick(["rpend", "rend", "end"], ["rend", "rpend", "end"], ["end", "rpend", "rend"]))
def scen_subscale(s, n):
    """n messages of each subscription: nobody takes a measurement; or a burst waits for the spinner."""
    burst = s.turn // 5 % 2 == 1; s.trace("subscriptions-scale" + ("-burst" if burst else ""), mode=0, limit=8000000); B = ["scale", "rsub"]; S = []
    for k in KINDS[s.turn % 5 * 2:][:2]: o, qs, t = add(s, k, len(S)); S.append((k, t, qs)); B.append(o)
    odo = {t: Odo(s) for k, t, _ in S if k == "odom"}; m = min(n, 900) if burst else n        # the queues of ROS hold 1000 messages
    M = [fix(write(s, k, t, "e" if burst else "d", odo)) for j in range(m) for k, t, q in S]
    s.close(B + (M if burst else []) + (["rstart"] if burst else []), [], ([] if burst else M) + ["rdrain", "rok", "rend"])
def scen_pubscale(s, n):
    """n states, waiting in the queue or one by one."""
    s.trace("publisher-scale", mode=s.pick(0, 3), limit=3000000); o, skip = pub_op(s, False); t = s.pick(0.0, 1700000000.0); st = []
    for _ in range(n): t += s.pick(.001, .25); st.append(state(s, t))
    k = s.pick(0, n, n // 2); s.close(["scale", "rstates", o] + st[:k] + ["rpstart"], [sum([[x, "y 5"] for x in st[k:]], [])] if k < n else [], [f"rpubd {n} {n // skip}", "rok", "rpend"])
