"""P: arbiters. Contracts of Arbiter, RoundRobinArbiter, MatrixArbiter."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "engine"))
from spec import *
from check import Harness

SRCS = [BOOK + "/arbiters/%s.cpp" % x for x in ("arbiter", "roundrobin_arb", "matrix_arb")]
FLAGS = BOOK_INC

i, j, k = z3.Ints("i j k")


def base(t):
    """representation invariant of the request table"""
    return [("size", And(t._size >= 1, t._request.len == t._size)),
            ("num_reqs counts", And(t._num_reqs >= 0, Implies(t._num_reqs == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t._size), z3.Not(t._request[i].valid))))))]


def rank(t, x): return z3.If(x >= t._pointer, x - t._pointer, x - t._pointer + t._size)


def beats(t, a, b):
    """request a is served before request b"""
    pa, pb = t._request[a].pri, t._request[b].pri
    return z3.Or(pa > pb, z3.And(pa == pb, rank(t, a) < rank(t, b)))


def rr(t):
    return base(t) + [("pointer", And(0 <= t._pointer, t._pointer < t._size)),
                      ("best", Implies(t._num_reqs > 0, And(0 <= t._best_input, t._best_input < t._size, t._request[t._best_input].valid, t._highest_pri == t._request[t._best_input].pri))),
                      ("best is unbeaten", Implies(t._num_reqs > 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t._size, t._request[i].valid, i != t._best_input), beats(t, t._best_input, i))))),
                      ("no best without requests", Implies(t._num_reqs == 0, t._best_input == -1))]


def req_added(c, n=0):
    t, o = c.this, c.old
    a, b, p = c.arg(0), c.arg(1), c.arg(2)
    return [("request recorded", And(t._request[a].valid, t._request[a].id == b, t._request[a].pri == p)),
            ("other requests untouched", z3.ForAll([i], z3.Implies(i != a, And(t._request[i].valid == o._request[i].valid, t._request[i].id == o._request[i].id, t._request[i].pri == o._request[i].pri)))),
            ("request count", t._num_reqs == o._num_reqs + 1), ("size kept", And(t._size == o._size, t._request.len == o._request.len))]


def add_req(c): return [("new request", And(0 <= c.arg(0), c.arg(0) < c.this._size, z3.Not(c.this._request[c.arg(0)].valid)))]


def ptrs(eng, st, c):
    st.store["arg:id"] = z3.Int("id0")
    st.store["arg:pri"] = z3.Int("pri0")
    return [PtrTo(Path("arg:id")), PtrTo(Path("arg:pri"))]


def nullptrs(eng, st, c): return [I(0), I(0)]


def winner(c, valid_sel):
    t, o = c.this, c.old
    return valid_sel


def rr_arb(c):
    t, o = c.this, c.old
    r = c.ret
    l = [("no winner iff no request", (r == -1) == (o._num_reqs == 0)),
         ("winner requested", Implies(o._num_reqs > 0, And(0 <= r, r < o._size, o._request[r].valid))),
         ("winner has the top priority and comes first in round-robin order", Implies(o._num_reqs > 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o._size, o._request[i].valid, i != r), beats(o, r, i))))),
         ("winner remembered", t._selected == r)]
    if "arg:id" in c.post.store:
        l += [("id of winner reported", Implies(r != -1, And(c.post.store["arg:id"] == o._request[r].id, c.post.store["arg:pri"] == o._request[r].pri)))]
    l += [("requests unchanged", z3.ForAll([i], And(t._request[i].valid == o._request[i].valid, t._request[i].pri == o._request[i].pri)))]
    return l


def rr_upd(c):
    t, o = c.this, c.old
    return [("winner becomes last in round-robin order", Implies(o._selected > -1, t._pointer == z3.If(o._selected + 1 == o._size, I(0), o._selected + 1))),
            ("no winner, no rotation", Implies(o._selected <= -1, t._pointer == o._pointer))]


def clr(c):
    t, o = c.this, c.old
    return [("no request left", And(t._num_reqs == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t._size), z3.Not(t._request[i].valid)))))]


def clr_inv(L):
    out = []
    t = L.this()
    for n, e, v in L.counters(): out.append(("cleared below %s" % n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v), z3.Not(t._request[i].valid)))))
    return out


ORD, ORD2 = z3.Function("ord", z3.IntSort(), z3.IntSort()), None


def mx(t, order=None):
    """matrix: order is a ghost rank per requester; lower rank is served first"""
    o = order or (lambda x: ORD(x))
    n = t._size
    return base(t) + [("matrix shape", And(t._matrix.len == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), t._matrix[i].len == n)))),
                      ("ranks are distinct", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), o(i) != o(j)))),
                      ("matrix is the order of the ranks", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n), (t._matrix[i][j] != 0) == (o(i) < o(j)))))]


def mxr(t):
    return [("last request", Implies(t._num_reqs > 0, And(0 <= t._last_req, t._last_req < t._size, t._request[t._last_req].valid))),
            ("no last request", Implies(t._num_reqs == 0, t._last_req == -1)),
            ("single request", Implies(t._num_reqs == 1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t._size, t._request[i].valid), i == t._last_req))))]


def mbeats(t, a, b):
    pa, pb = t._request[a].pri, t._request[b].pri
    return z3.Or(pa > pb, z3.And(pa == pb, ORD(a) < ORD(b)))


W = z3.Int("w_first")


def mx_exists(t):
    """a nonempty finite set has a first element in a total order (the induction is not redone by the solver)"""
    some = z3.Exists([i], z3.And(0 <= i, i < t._size, t._request[i].valid))
    return [("first element exists", Implies(some, And(0 <= W, W < t._size, t._request[W].valid, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t._size, t._request[i].valid, i != W), mbeats(t, W, i))))))]


def mx_invs(L):
    t = L.this()
    out = []
    cs = L.counters()
    ints = L.ints()
    for n, e, v in cs:
        out.append(("winner not passed by %s" % n, v <= W))
        out.append(("selected none %s" % n, t._selected == -1))
        for nb, vb in L.bools():
            for n2, x in ints:
                if n2 == n: continue
                out.append(("%s: nobody below %s beats %s" % (nb, n, n2), z3.Implies(vb, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v, t._request[i].valid, i != x), z3.Not(mbeats(t, i, x)))))))
                out.append(("not %s: %s is not the winner" % (nb, n2), z3.Implies(z3.Not(vb), x != W)))
    return out


def mx_arb(c):
    t, o = c.this, c.old
    r = c.ret
    return [("no winner iff no request", (r == -1) == (o._num_reqs == 0)),
            ("winner requested", Implies(o._num_reqs > 0, And(0 <= r, r < o._size, o._request[r].valid))),
            ("winner has the top priority and is least recently served", Implies(o._num_reqs > 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o._size, o._request[i].valid, i != r), mbeats(o, r, i))))),
            ("winner remembered", t._selected == r),
            ("requests unchanged", z3.ForAll([i], And(t._request[i].valid == o._request[i].valid, t._request[i].pri == o._request[i].pri)))] + \
        ([("id of winner reported", Implies(r != -1, And(c.post.store["arg:id"] == o._request[r].id, c.post.store["arg:pri"] == o._request[r].pri)))] if "arg:id" in c.post.store else [])


BIG = z3.Int("above_all_ranks")


def mx_upd_pre(c): return mx(c.this) + [("an upper bound of the ranks exists", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.this._size), ORD(i) < BIG))), ("sel", And(c.this._selected >= -1, c.this._selected < c.this._size))]


def mx_upd(c):
    o2 = lambda x: z3.If(x == c.old._selected, BIG, ORD(x))
    return mx(c.this, o2)[len(base(c.this)):] + [("size kept", c.this._size == c.old._size)]


def mx_upd_invs(L):
    out = []
    t, o = L.this(), L.old_this
    s = t._selected
    for n, e, v in L.counters():
        out.append(("row and column of the winner up to %s" % n, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < t._size, 0 <= j, j < t._size),
            z3.If(z3.And(i == s, i != j, e <= j, j < v), t._matrix[i][j] == 0,
                  z3.If(z3.And(j == s, i != j, e <= i, i < v), t._matrix[i][j] != 0, t._matrix[i][j] == o._matrix[i][j]))))))
    out.append(("shape", And(t._matrix.len == o._matrix.len, z3.ForAll([i], t._matrix[i].len == o._matrix[i].len))))
    return out


def mx_ctor(c):
    t = c.this
    return mx(t, lambda x: -x) + mxr(t)


def mx_ctor_invs(L):
    out = []
    t = L.this()
    cs = L.counters()
    out.append(("shape", t._matrix.len == t._size))
    out.append(("nothing requested", And(t._num_reqs == 0, t._last_req == -1, t._request.len == t._size)))
    for n, e, v in cs:
        out.append(("rows below %s done" % n, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < v, 0 <= j, j < t._size), (t._matrix[i][j] != 0) == (j < i)))))
        out.append(("rows below %s sized" % n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v), t._matrix[i].len == t._size))))
        out.append(("rows from %s empty" % n, z3.ForAll([i], z3.Implies(z3.And(v <= i, i < t._size), t._matrix[i].len == 0))))
        for n2, x in L.ints():
            if n2 == n or n2 in L.params(): continue
            out.append(("rows below %s done (%s)" % (n2, n), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < x, 0 <= j, j < t._size), (t._matrix[i][j] != 0) == (j < i)))))
            out.append(("rows below %s sized (%s)" % (n2, n), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x), t._matrix[i].len == t._size))))
            out.append(("row %s sized (%s)" % (n2, n), t._matrix[x].len == t._size))
            out.append(("rows after %s empty (%s)" % (n2, n), z3.ForAll([i], z3.Implies(z3.And(x < i, i < t._size), t._matrix[i].len == 0))))
            out.append(("row %s below %s" % (n2, n), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t._size), (t._matrix[x][j] != 0) == (j < v)))))
    return out


def arb_ctor_invs(L):
    t = L.this()
    return [("cleared below %s" % n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v), z3.Not(t._request[i].valid)))) for n, e, v in L.counters()]


def ctor_pre(c): return [("size", c.arg(2) >= 1)]


UNITS = [
    Unit("rr.AddRequest", "RoundRobinArbiter::AddRequest", requires=lambda c: rr(c.this) + add_req(c), ensures=lambda c: rr(c.this) + req_added(c) + [("pointer kept", c.this._pointer == c.old._pointer)]),
    Unit("rr.Arbitrate", "RoundRobinArbiter::Arbitrate", setup=ptrs, requires=lambda c: rr(c.this), ensures=lambda c: rr(c.this) + rr_arb(c)),
    Unit("rr.Arbitrate(null)", "RoundRobinArbiter::Arbitrate", setup=nullptrs, requires=lambda c: rr(c.this), ensures=lambda c: rr(c.this) + rr_arb(c)),
    Unit("rr.UpdateState", "RoundRobinArbiter::UpdateState", requires=lambda c: rr(c.this)[:2] + rr(c.this)[2:3] + [("sel", c.this._selected < c.this._size)], ensures=rr_upd),
    Unit("rr.Clear", "RoundRobinArbiter::Clear", requires=lambda c: rr(c.this), ensures=lambda c: rr(c.this) + clr(c), invs=clr_inv),
    Unit("rr.ctor", "RoundRobinArbiter::RoundRobinArbiter", requires=ctor_pre, ensures=lambda c: rr(c.this) + [("size set", c.this._size == c.arg(2)), ("no request", c.this._num_reqs == 0)], invs=arb_ctor_invs),
    Unit("matrix.ctor", "MatrixArbiter::MatrixArbiter", requires=ctor_pre, ensures=lambda c: mx_ctor(c) + [("size set", c.this._size == c.arg(2)), ("no request", c.this._num_reqs == 0)], invs=lambda L: arb_ctor_invs(L) + mx_ctor_invs(L)),
    Unit("matrix.AddRequest", "MatrixArbiter::AddRequest", requires=lambda c: mx(c.this) + mxr(c.this) + add_req(c), ensures=lambda c: mx(c.this) + mxr(c.this) + req_added(c)),
    Unit("matrix.Arbitrate", "MatrixArbiter::Arbitrate", setup=ptrs, requires=lambda c: mx(c.this) + mxr(c.this) + mx_exists(c.this), ensures=lambda c: mx(c.this) + mxr(c.this) + mx_arb(c), invs=mx_invs),
    Unit("matrix.Arbitrate(null)", "MatrixArbiter::Arbitrate", setup=nullptrs, requires=lambda c: mx(c.this) + mxr(c.this) + mx_exists(c.this), ensures=lambda c: mx(c.this) + mxr(c.this) + mx_arb(c), invs=mx_invs),
    Unit("matrix.UpdateState", "MatrixArbiter::UpdateState", requires=mx_upd_pre, ensures=mx_upd, invs=mx_upd_invs),
    Unit("matrix.Clear", "MatrixArbiter::Clear", requires=lambda c: mx(c.this) + mxr(c.this), ensures=lambda c: mx(c.this) + mxr(c.this) + clr(c), invs=clr_inv),
]


PROPS = {"P08": {
    "groups": [{"srcs": SRCS, "flags": FLAGS, "units": UNITS}],
    "harness": [Harness("arbiters", "arbiters.cpp", [BOOK + "/" + x for x in ("arbiters/arbiter.cpp", "arbiters/roundrobin_arb.cpp", "arbiters/matrix_arb.cpp", "arbiters/tree_arb.cpp", "module.cpp")], BOOK_INC, quick=12)],
    "assumptions": ["existence of a first element of a finite nonempty total order and of an upper bound of finitely many integers (textbook lemmas, supplied as ghost witnesses)",
                    "TreeArbiter is exercised by the bounded harness only"],
}}

if __name__ == "__main__":
    p = load(SRCS, FLAGS)
    for r in run_units(p, UNITS, 1 if len(sys.argv) > 1 else 8): show(r, len(sys.argv) > 1)
