"""DRAM address mapping: line address <-> (channel, rank, bank group, bank, row, column) (P13)."""
from dram import *

SY = NS + "BaseDRAMSystem"
FN = ("ch", "ra", "bg", "ba", "ro", "co")
FLD = dict(zip(FN, ("channel", "rank", "bankgroup", "bank", "row", "column")))
BV = {"bv": True}


def bvpre(g):
    small = lambda v: z3.ULT(v, z3.BitVecVal(64, v.size()))
    return [("positions inside a 64-bit address", And(small(g.shift_bits), *[small(getattr(g, f + "_pos")) for f in FN])), ("masks", And(*[z3.ULT(getattr(g, f + "_mask"), z3.BitVecVal(1 << 31, 64)) for f in FN]))]


def sh(v): return z3.SignExt(64 - v.size(), v)


def place(g, a, f): return z3.Extract(31, 0, z3.LShR(z3.LShR(a, sh(g.shift_bits)), sh(getattr(g, f + "_pos"))) & getattr(g, f + "_mask"))


def am_post(c):
    g = c.this
    out = [("%s: the bits of the line address at its position" % FLD[f], getattr(c.ret, FLD[f]) == place(g, c.arg(0), f)) for f in FN]
    out += [("%s: between zero and its mask" % FLD[f], And(getattr(c.ret, FLD[f]) >= 0, sh(getattr(c.ret, FLD[f])) <= getattr(g, f + "_mask"))) for f in FN]
    return out


# -- LogBase2
P2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
Engine_pow2 = P2
n_ = z3.Int("n")


MK = z3.Function("step", z3.IntSort(), z3.IntSort())  # always zero; triggers one step of the definition
LGF = z3.Function("log2_of", z3.IntSort(), z3.IntSort())


def lg_def():
    """the logarithm rounded down, by halving"""
    return z3.ForAll([n_], And(MK(n_) == 0, LGF(n_) == If(n_ > 1, 1 + LGF(n_ / 2), I(0))), patterns=[MK(n_)])


def lg_goals(pr):
    """2^lg(n) <= n < 2^(lg(n)+1), by induction over halving: a = 2^lg(n/2)"""
    a, n, h = z3.Ints("a n h")
    return [("for one", And(1 <= I(1), I(1) < 2)), ("for twice the size", Implies(And(n > 1, h == n / 2, a >= 1, a <= h, h < 2 * a), And(2 * a <= n, n < 2 * (2 * a))))]


def lg_setup(eng, st, c): st.assume(lg_def())


def lg_post(c): return [("the logarithm, rounded down", And(c.ret >= 0, c.ret == LGF(c.arg(0))))]


def lg_invs(L):
    out = []
    vs = [v for _, v in L.ints()]
    for p_ in vs:
        out.append(("positive", p_ >= 1))
        for v in vs: out.append(("halvings so far", And(v >= 0, MK(p_) == 0, v + LGF(p_) == LGF(LN))))
    return out


LN = z3.Int("LogBase2_argument")
LGU = Unit("LogBase2", NS + "LogBase2", setup=lg_setup, requires=lambda c: [("a size", And(c.arg(0) >= 1, c.arg(0) == LN))], ensures=lg_post, invs=lg_invs, models=MODELS)
LG = Contract(NS + "LogBase2", lambda c: [("a size", c.arg(0) >= 1)], lg_post)

import itertools
import models as M_

DIM = dict(zip(FN, ("channels", "ranks", "bankgroups", "banks_per_group", "rows", "columns")))


def token(m, n): return M_.SUBSTR(m, I(2 * n), I(2))


def name(f): return M_.strid(f)


def sm_setup(eng, st, c):
    eng.strlens = [(c.this.address_mapping, 12)]


def sm_pre(c):
    g = c.this
    T = [token(g.address_mapping, n) for n in range(6)]
    return [("the mapping names every field once", And(z3.Distinct(*T), *[Or(*[t_ == name(f) for f in FN]) for t_ in T])), ("sizes", And(g.columns >= 1, g.BL >= 1, g.bus_width >= 8, LGF(g.columns) >= LGF(g.BL), (g.bus_width / 8) * g.BL >= 1, *[getattr(g, DIM[f]) >= 1 for f in FN]))]


def width(g, f): return LGF(g.columns) - LGF(g.BL) if f == "co" else LGF(getattr(g, DIM[f]))


def sm_post(c):
    g, o = c.this, c.old
    T = [token(o.address_mapping, n) for n in range(6)]
    W = {f: width(o, f) for f in FN}
    P = {f: getattr(g, f + "_pos") for f in FN}
    out = [("the byte within a line takes the lowest bits", g.shift_bits == LGF((o.bus_width / 8) * o.BL))]
    for f in FN: out.append(("%s: as many bits as its size needs" % f, getattr(g, f + "_mask") == M_pow2(W[f]) - 1))
    for k_ in range(6):
        for f in FN:
            out.append(("%s named %d from the right: right above the fields after it" % (f, k_), Implies(T[5 - k_] == name(f), P[f] == sum([wt(W, T[5 - e]) for e in range(k_)], I(0)))))
    return out


def wt(W, t_):
    r_ = I(0)
    for f in FN: r_ = If(t_ == name(f), W[f], r_)
    return r_


def M_pow2(k_):
    from sym import Engine
    if Engine._pow2 is None: Engine._pow2 = P2
    return Engine._pow2(k_)


def cover_goals():
    """the positions are sums of the widths of the fields further right (SetAddressMapping): every bit of a line address is in exactly one field;
    two addresses with equal fields have equal bits there"""
    b = z3.Int("b")
    W = [z3.Int("w%d" % e) for e in range(6)]           # widths from the right
    P = [sum(W[:e], I(0)) for e in range(6)]
    inside = [And(P[e] <= b, b < P[e] + W[e]) for e in range(6)]
    tot = sum(W, I(0))
    out = [("every bit below the total width is in a field", Implies(And(0 <= b, b < tot, *[w >= 0 for w in W]), Or(*inside))), ("in one field only", Implies(And(*[w >= 0 for w in W]), And(*[Not(And(inside[e], inside[f])) for e in range(6) for f in range(e)])))]
    x_, y_, p_, w_, k_ = z3.BitVecs("x y p w k", 64)
    one = z3.BitVecVal(1, 64)
    m = (one << w_) - 1
    out.append(("equal fields have equal bits", Implies(And(z3.ULT(w_, 31), z3.ULT(p_, 64), z3.ULE(p_, k_), z3.ULT(k_, p_ + w_), z3.ULT(k_, 64), (z3.LShR(x_, p_) & m) == (z3.LShR(y_, p_) & m)), (z3.LShR(x_, k_) & 1) == (z3.LShR(y_, k_) & 1))))
    return out


def cz_pre(c):
    g = c.this
    return [("a device fits the bus and holds at least a megabyte per bank", And(g.device_width >= 1, g.bus_width >= g.device_width, g.banks >= 1, g.columns >= 1, g.rows >= 1, g.channel_size >= 1, (g.columns * g.device_width / 8) * (g.rows / 1024) / 1024 >= 1))]


def cz_post(c):
    g, o = c.this, c.old
    M = (o.columns * o.device_width / 8) * (o.rows / 1024) / 1024 * o.banks * (o.bus_width / o.device_width)
    return [("devices of a rank fill the bus", g.devices_per_rank == o.bus_width / o.device_width), ("the channel is a whole number of ranks, at least one", And(g.ranks >= 1, g.channel_size == g.ranks * M)), ("no more than asked, unless one rank is more", Or(g.channel_size <= o.channel_size, g.ranks == 1)), ("no whole rank is left out", Implies(M <= o.channel_size, o.channel_size - g.channel_size < M))]


MAP = [
    Unit("Config::AddressMapping", NS + "Config::AddressMapping", requires=lambda c: bvpre(c.this), ensures=am_post, models=MODELS, engine=BV),
    Unit("BaseDRAMSystem::GetChannel", SY + "::GetChannel", requires=lambda c: bvpre(c.this.config_), ensures=lambda c: [("the channel of the address", c.ret == place(c.this.config_, c.arg(0), "ch"))], models=MODELS, engine=BV),
    LGU,
    Lemma("2^lg(n) <= n < 2^(lg(n)+1)", lg_goals),
    Unit("Config::SetAddressMapping", NS + "Config::SetAddressMapping", setup=sm_setup, requires=sm_pre, ensures=sm_post, models=MODELS, contracts=[LG]),
    Lemma("the fields of the line address", lambda pr: cover_goals()),
    Unit("Config::CalculateSize", CFG + "::CalculateSize", requires=cz_pre, ensures=cz_post, models=MODELS),
]


# -- the memory controller module: translation of a channel address, and the channel of a returned address
MC = "mem_controller"
ALLF = FN + ("bl",)
ORDER = ("bl", "co", "ba", "ro", "bg", "ra", "ch")   # of the fields in the address a user gives, from the lowest bits up


def wd(t, f): return t._field_widths[name(f)]


def known(t): return [("every field has a width", And(*[And(z3.Select(t._field_widths.val.dom, name(f)), 0 <= wd(t, f), wd(t, f) <= 30) for f in ALLF]))]


def order_setup(toks):
    """the tokens of the mapping, in order (None: arbitrary)"""
    def f(eng, st, c):
        p = c.thisp.fld("_mem_addr_fields")
        v = eng.read(st, p)
        e = v.elem
        for k_, t_ in enumerate(toks):
            if t_ is not None: e = z3.Store(e, I(k_), name(t_))
        eng.write(st, p, type(v)(I(0), I(6), e))
    return f


def fields_of(t, a):
    out = {}
    for f in ORDER:
        out[f] = a % M_pow2(wd(t, f))
        a = a / M_pow2(wd(t, f))
    return out


def tr_post(perm):
    def f(c):
        t = c.old
        v = fields_of(t, c.arg(0))
        r_ = I(0)
        for tk in perm: r_ = r_ * M_pow2(wd(t, tk)) + (c.arg(1) if tk == "ch" else v[tk])
        return [("every field of the address, and the channel, at its place in the memory's order", c.ret == r_ * M_pow2(wd(t, "bl")) + v["bl"])]
    return f


def cfa_pre(k_):
    return lambda c: known(c.this) + [("channel token %d" % k_, And(c.this._mem_addr_fields[I(k_)] == name("ch"), *[Or(*[c.this._mem_addr_fields[I(e)] == name(f) for f in FN[1:]]) for e in range(6) if e != k_]))]


def cfa_post(k_):
    def f(c):
        t = c.old
        W = {f_: wd(t, f_) for f_ in FN}
        skip = sum([wt(W, t._mem_addr_fields[I(e)]) for e in range(k_ + 1, 6)], wd(t, "bl"))
        return [("the channel bits: above the line offset and the fields after the channel", c.ret == (c.arg(0) / M_pow2(skip)) % M_pow2(wd(t, "ch")))]
    return f


def horner_goals(pr):
    """t = x*p + v with 0 <= v < p: v and x are the low and high parts of t; so each field can be read back at its place"""
    t, x, p, v, a = z3.Ints("t x p v a")
    return [("high part", Implies(And(p >= 1, 0 <= v, v < p, t == x * p + v), And(x == (x * p + v) / p))), ("low part", Implies(And(p >= 1, 0 <= v, v < p), (x * p + v) % p == v)), ("a field is below its size", Implies(p >= 1, And(0 <= a % p, a % p < p))), ("two addresses with the same fields are the same", Implies(And(p >= 1, a / p == x, a % p == v), a == x * p + v))]


def mc_units(pr):
    out = [Unit("mem_controller::ChannelFromAddr (channel token %d)" % k_, MC + "::ChannelFromAddr", setup=order_setup([None] * 6), requires=cfa_pre(k_), ensures=cfa_post(k_), models=MODELS) for k_ in range(1, 6)]
    out += [Unit("mem_controller::ChannelFromAddr (channel token 0, last %s)" % f_, MC + "::ChannelFromAddr", setup=order_setup([None] * 5 + [f_]), requires=cfa_pre(0), ensures=cfa_post(0), models=MODELS) for f_ in FN[1:]]
    out.append(Lemma("reading a field back", horner_goals))
    for perm in itertools.permutations(FN):
        out.append(Unit("mem_controller::AddressMapping (%s)" % "".join(perm), MC + "::AddressMapping", setup=order_setup(perm), requires=lambda c: known(c.this), ensures=tr_post(perm), models=MODELS))
    return out


SRCS = [SRC + x_ for x_ in ("configuration.cc", "common.cc", "dram_system.cc")]
MSRCS = [SIM + "/dram/mem_controller.cpp"]
MFLAGS = SIM_INC + DRAM_INC
from dramctl import harness, HN
PROPS = {"P13": {"groups": lambda: [{"name": "address mapping", "srcs": SRCS, "flags": FLAGS, "units": MAP}, {"name": "translation in the memory controller", "srcs": MSRCS, "flags": MFLAGS, "units": mc_units}], "harness": lambda: [harness("map", 8)],
    "assumptions": ["strings are opaque identities; a mapping string is twelve characters naming every field once (anything else aborts)", "field widths below 31 and addresses below 2^64 (shifts of 1 and sums do not overflow)", "the widths the memory controller computes with floating-point log2 agree with the memory's (constructor not under contract)"], "harness_note": HN}}
if __name__ == "__main__":
    f = sys.argv[1] if len(sys.argv) > 1 else ""
    pr = load(SRCS, FLAGS)
    for u in MAP:
        if f in u.name: show(run_unit(pr, u), len(sys.argv) > 2)
    pr = load(MSRCS, MFLAGS)
    for u in mc_units(pr)[:12]:
        if f in u.name: show(run_unit(pr, u), len(sys.argv) > 2)
