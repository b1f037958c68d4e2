"""Seeded generators of wheel odometry scripts (see harness/drv_wheel.cpp)."""
import os
from gen_est import Script as Base, keys_note
from vplib import fx

class Script(Base):
    def inst(self, o):
        n = self.work.nlog = getattr(self.work, "nlog", 0) + 1; d = self.work.path("logs", self.pick("", "", "run.1")); os.makedirs(d, exist_ok=True)
        base = os.path.join(d, f"w{self.tag}{n}"); k = {"logger.enable_pose_logger": True, "logger.pose_log_file": base + self.pick(".txt", ".csv", "")}
        grid = self.chance(.5)
        if grid:
            if self.chance(.8): k["logger.pose_log_rate"] = self.pick(1.0, 2.0, 4.0, 8.0, 0.5)
        else: k["logger.pose_log_rate"] = 1e9
        if self.chance(.06): k["logger.enable_pose_logger"] = False
        self.note(e="cfg", o=o, keys=keys_note({x: y for x, y in k.items() if "file" not in x})); self.add("new", o, self.yaml(k))
        return dict(o=o, log=base + ".txt", grid=grid, t=self.pick(0.0, 0.0, 10.0, 1.6e9), w=self.pick("zero", "axis", "tiny", "small", "mid", None), v=self.pick(0.1, 1.0, 30.0, 300.0))
def scen_wheel(s, n=40, two=False):
    s.trace("wheel"); os_ = [s.inst("a")] + ([s.inst("b")] if two else [])
    ex = {o["o"]: 0 for o in os_}
    for _ in range(n):
        o = s.pick(*os_); r = s.rng.random(); a = o["o"]; step = .125 if o["grid"] else s.u(.001, .4)
        if r < .35:
            for _ in range(s.pick(1, 1, 1, 2, 3)):
                o["t"] += s.pick(0, 1, 1, 1, 2, 4) * step; t = o["t"] - (s.pick(0, 0, 0, 0, 1) * step * 2)
                if t < 0: t = 0.0
                s.add("vel", a, s.id(), fx(t), s.v(s.v3(o["v"])))
                if s.chance(.8): s.add("ang", a, s.id(), fx(t + s.pick(0, 0, .01)), s.v(s.rate(o["w"])))
        elif r < .45: s.add("ang", a, s.id(), fx(o["t"]), s.v(s.rate(o["w"])))
        else:
            for _ in range(s.pick(1, 1, 2, 4)): s.add("run", a)
    for o in os_:
        for _ in range(s.pick(0, 5)): s.add("run", o["o"])
        s.add("end", o["o"]); s.add("log", o["o"], o["log"])
def scen_wscale(s, n):
    """A long backlog in both buffers, then a long run, logging all the way."""
    s.trace("scale"); o = s.inst("a"); a = o["o"]; step = .125 if o["grid"] else .01; t = o["t"]; s.add("brief")
    extra = s.pick("", "vel", "ang")
    for j in range(n):
        t += step; s.add("vel", a, s.id(), fx(t), s.v(s.v3(o["v"]))); s.add("ang", a, s.id(), fx(t), s.v(s.rate(o["w"])))
    for j in range(n if extra else 0): s.add(extra, a, s.id(), fx(t), s.v(s.v3(o["v"])))
    for j in range(n + 2): s.add("run", a)
    s.add("end", a); s.add("log", a, o["log"])
