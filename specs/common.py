"""Shared contract vocabulary: models of configuration, telemetry and ghost event logs."""
import os
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "engine"))
from spec import *
import sym

CFG_INT = z3.Function("config_int", z3.IntSort(), z3.IntSort())


def cfg(key): return CFG_INT(strid(key))


def m_getint(eng, st, fr, n, obj, args): return CFG_INT(eng.rv(args[0], st, fr))


def m_getstr(eng, st, fr, n, obj, args): return z3.Function("config_str", z3.IntSort(), z3.IntSort())(eng.rv(args[0], st, fr))


def m_getflt(eng, st, fr, n, obj, args): return z3.Function("config_float", z3.IntSort(), z3.RealSort())(eng.rv(args[0], st, fr))


def nop(eng, st, fr, n, obj, args): return None


def freshint(name):
    def f(eng, st, fr, n, obj, args):
        return z3.Int(fname(name))
    return f


CONFIG = {"Configuration::GetInt": m_getint, "Configuration::GetStr": m_getstr, "Configuration::GetFloat": m_getflt}
TELEMETRY = {"NoCTransactionTelemetry::" + x: nop for x in ("RecordTransactionTailPacketization", "RecordTransactionHeadInjection", "RecordTransactionTailEjection", "UpdateHops", "RecordTransactionTailDepacketization", "RecordTransactionReceipt")}
TELEMETRY["NoCTransactionTelemetry::RecordTransactionInitiation"] = freshint("sim_id")
LOGGING = {"SimLog::log": nop, "GetSimulationCycle": freshint("cycle")}
BASE = dict(CONFIG, **TELEMETRY, **LOGGING)


def ghost(st, name, sorts):
    """ghost log of the calls of an external function: number of calls, arguments of the last call"""
    st.store["ev:" + name] = Rec("ev", dict({"n": I(0)}, **{"a%d" % k: z3.Const("%s_a%d" % (name, k), s) for k, s in enumerate(sorts)}))


def event(name, ret=None):
    def f(eng, st, fr, n, obj, args):
        r = "ev:" + name
        v = st.store[r]
        d = dict(v.f)
        d["n"] = add(d["n"], I(1))
        for k in range(len(d) - 1):
            x = eng.rv(args[k], st, fr) if k < len(args) else None
            if x is None or not isz(x): raise Unsupported("argument %d of %s" % (k, name))
            d["a%d" % k] = coerce(x, d["a%d" % k].sort())
        st.store[r] = Rec("ev", d)
        return ret(eng, st, fr, n, obj, args) if ret else None
    return f


def ev(c, name, st=None): return View(c.eng, st or c.post, None, (st or c.post).store["ev:" + name])


def rawbv(c, ptr, w, st=None):
    """the bit vector an sc_bv<w>* points at"""
    return View(c.eng, st or c.post, Path("heap:raw:sc_dt::sc_bv<%d>" % w, (("h", ptr),)))


def q(vs, body): return z3.ForAll(vs, body)


def noc_sources():
    """every source of the NoC simulator, the adapters and the design context that the simulations link"""
    import glob
    b = [x for x in sorted(glob.glob(BOOK + "/*.cpp") + glob.glob(BOOK + "/*/*.cpp"))]
    b += [BOOK + "/y.tab.c", BOOK + "/lex.yy.c"]
    n = [SIM + "/noc/" + x + ".cpp" for x in ("axis_master_adapter", "axis_slave_adapter", "aximm_master_adapter", "aximm_slave_adapter", "radsim_noc", "noc_utils", "sc_flit")]
    s = [SIM + "/" + x + ".cpp" for x in ("design_context", "radsim_config", "radsim_module", "radsim_telemetry", "radsim_utils")]
    return s + n + b


def header(defs):
    """the tracked parameter header with other widths (it is normally regenerated by config.py); returns -I flags"""
    import re, hashlib
    t = open(SIM + "/radsim_defines.hpp").read()
    for k, v in defs.items():
        t2 = re.sub(r"(#define\s+%s\s+)\S+" % k, lambda m: m.group(1) + str(v), t)
        t = t2 if re.search(r"#define\s+%s\s" % k, t) else t.replace("#pragma once", "#pragma once\n#define %s %s" % (k, v))
    d = "%s/build/hdr/%s" % (VERIF, hashlib.sha1(t.encode()).hexdigest()[:12])
    os.makedirs(d, exist_ok=True)
    p = d + "/radsim_defines.hpp"
    if not os.path.exists(p) or open(p).read() != t:
        open(p + ".%d" % os.getpid(), "w").write(t)
        os.replace(p + ".%d" % os.getpid(), p)
    return ["-I" + d]


def macro(name, flags=()):
    """value of an integer macro of the parameter header in use"""
    import re
    for f in list(flags) + ["-I" + SIM]:
        p = f[2:] + "/radsim_defines.hpp"
        if f.startswith("-I") and os.path.exists(p):
            m = re.search(r"#define\s+%s\s+(\d+)" % name, open(p).read())
            if m: return int(m.group(1))
    raise Unsupported("macro %s not found" % name)
