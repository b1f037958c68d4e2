#!/usr/bin/env python3
"""Writes vp_kin.inc: calls of all generated kinematics functions."""
import sys
legs = ["FrontRight", "FrontLeft", "HindRight", "HindLeft"]
fns = ["p", "R", "H", "Jp", "Jb", "Js", "Jvb", "Jvs", "Jwb", "Jws"]
with open(sys.argv[1], "w") as f:
    for l in legs:
        for n in fns: f.write(f'#include "drift/kinematics/robots/mini_cheetah/{n}_Body_to_{l}Foot.h"\n')
    f.write("static void vp_raw(vp::Ev& e, const Eigen::Matrix<double, 12, 1>& q) {\n")
    for n in fns: f.write(f'  e.raw("{n}", vp::arr(std::vector<std::string>{{{", ".join(f"vp::mat({n}_Body_to_{l}Foot(q))" for l in legs)}}}));\n')
    f.write("}\n")
