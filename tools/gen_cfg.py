#!/usr/bin/env python3
"""Generates dynamic_reconfigure config headers from /repo's .cfg files (executed with stub generator modules)."""
import sys, types, os
repo, out = sys.argv[1], sys.argv[2]
CT = {"bool": "bool", "double": "double", "int": "int", "str": "std::string"}
def run(path, pkg):
    class PG:
        def __init__(s): s.items = []; s.consts = []
        def const(s, name, t, v, d): s.consts.append((name, v)); return {"name": name, "value": v}
        def add(s, name, t, level, descr, default=None, mn=None, mx=None, **k): s.items.append((name, t, level, default))
        def enum(s, *a): return None
        def generate(s, p, node, name): s.name = name; s.pkg = p; run.res = s; return 0
    m = types.ModuleType("dynamic_reconfigure"); g = types.ModuleType("dynamic_reconfigure.parameter_generator_catkin")
    g.ParameterGenerator = PG
    for t in CT: setattr(g, t + "_t", t)
    r = types.ModuleType("roslib"); r.load_manifest = lambda *a: None
    sys.modules.update({"dynamic_reconfigure": m, "dynamic_reconfigure.parameter_generator_catkin": g, "dynamic_reconfigure.parameter_generator": g, "roslib": r})
    try: exec(compile(open(path).read(), path, "exec"), {"__name__": "cfg"})
    except SystemExit: pass
    return run.res
def lit(t, v):
    if t == "bool": return "true" if v else "false"
    if t == "str": return '"%s"' % (v or "")
    return repr(v if v is not None else 0)
def emit(g, pkg):
    n = g.name
    s = f"#ifndef GEN_{n}_CFG_H\n#define GEN_{n}_CFG_H\n#include <cstdint>\n#include <string>\nnamespace {pkg} {{\n"
    s += f"struct {n}Config {{\n"
    for (name, t, l, d) in g.items: s += f"  {CT[t]} {name} = {lit(t, d)};\n"
    s += f"  uint32_t diffLevel(const {n}Config& o) const {{\n    uint32_t l = 0;\n"
    for (name, t, l, d) in g.items: s += f"    if (!({name} == o.{name})) l |= {l}u;\n"
    s += f"    return l;\n  }}\n  static {n}Config __getDefault__() {{ return {n}Config(); }}\n}};\n"
    for (c, v) in g.consts: s += f"const int {n}_{c} = {v};\n"
    s += "}\n#endif\n"
    os.makedirs(os.path.join(out, pkg), exist_ok=True)
    p = os.path.join(out, pkg, n + "Config.h")
    if not os.path.exists(p) or open(p).read() != s: open(p, "w").write(s)
for pkg in ("msf_core", "msf_updates", "msf_distort"):
    d = os.path.join(repo, pkg, "cfg")
    for f in sorted(os.listdir(d)):
        if f.endswith(".cfg"): emit(run(os.path.join(d, f), pkg), pkg)
