"""Program database: loads the clang-AST JSON emitted by radext for the translation units of /repo."""
import json, os, subprocess, hashlib, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = REPO + "/rad-sim/sim"
BOOK = SIM + "/noc/booksim"
DRAM = SIM + "/dram/DRAMsim3"


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ("k", "n", "a", "to", "w", "s", "c", "ret", "ps", "raw")

    def __init__(self, k, n=None, a=None, to=None, w=None, s=None, c=False):
        self.k, self.n, self.a, self.to, self.w, self.s, self.c = k, n, a, to, w, s, c
        self.ret = None
        self.ps = None

    def __repr__(self):
        if self.k == "b": return self.n
        if self.k == "p": return "%r*" % self.to
        if self.k == "r": return "%r&" % self.to
        if self.k == "c": return self.n + ("<%s>" % ",".join(map(repr, self.a)) if self.a else "")
        if self.k == "arr": return "%r[%s]" % (self.to, self.n)
        return "%s:%s" % (self.k, self.n)

    @property
    def isint(self):
        return (self.k == "b" and self.w is not None) or self.k == "e"

    @property
    def isbool(self):
        return self.k == "b" and self.n == "bool"

    @property
    def isfloat(self):
        return self.k == "b" and self.n in ("double", "float", "long double")

    @property
    def isvoid(self):
        return self.k == "b" and self.n == "void"

    def strip(self):
        return self.to if self.k == "r" else self


class TU:
    def __init__(self, data, src):
        self.src = src
        self.jt = data["types"]
        self.tc = {}
        self.records = data["records"]
        self.enums = data["enums"]
        self.vars = data["vars"]
        self.funcs = data["funcs"]
        for f in self.funcs:
            f["tu"] = self

    def ty(self, i):
        if i in self.tc: return self.tc[i]
        j = self.jt[i]
        t = Ty(j["k"])
        self.tc[i] = t
        t.c = bool(j.get("c"))
        if j["k"] == "b":
            t.n = j["n"]; t.w = j.get("w"); t.s = j.get("s")
        elif j["k"] == "e":
            t.n = j["n"]; t.w = j.get("w", 32); t.s = j.get("s", True)
        elif j["k"] in ("p", "r"):
            t.to = self.ty(j["to"])
        elif j["k"] == "c":
            t.n = j["n"]
            if "a" in j: t.a = [x["i"] if isinstance(x, dict) and "i" in x else (None if isinstance(x, dict) else self.ty(x)) for x in j["a"]]
        elif j["k"] == "arr":
            t.to = self.ty(j["to"]); t.n = j.get("n")
        elif j["k"] == "fn":
            t.ret = self.ty(j["ret"]); t.ps = [self.ty(x) for x in j["ps"]]
        else:
            t.n = j.get("s")
        return t


def typekey(t):
    return repr(t)


class Program:
    """Union of TUs."""

    def __init__(self):
        self.tus = []
        self.fq = {}
        self.rec = {}
        self.vars = {}
        self.enums = {}

    def add(self, tu):
        self.tus.append(tu)
        for f in tu.funcs:
            l = self.fq.setdefault(f["q"], [])
            sig = (repr(tu.ty(f["cls"])) if "cls" in f else "", tuple(repr(tu.ty(p["t"])) for p in f["ps"]), bool(f.get("const")), repr(f.get("ta") and [tu.ty(x) if not isinstance(x, dict) else x for x in f["ta"]]))
            if any(g["sig"] == sig for g in l): continue
            f["sig"] = sig
            l.append(f)
        for k, r in tu.records.items():
            if k not in self.rec:
                r["tu"] = tu
                self.rec[k] = r
        for k, v in tu.vars.items():
            if k not in self.vars or ("init" not in self.vars[k] and "init" in v):
                v["tu"] = tu
                self.vars[k] = v
        self.enums.update(tu.enums)

    def enum(self, const):
        for e, d in self.enums.items():
            if const in d: return d[const]
        raise Unsupported("enum constant %s not found" % const)

    def find(self, q, nparams=None, params=None, cls=None):
        l = self.fq.get(q)
        if not l: raise Unsupported("function %s not found in the current source" % q)
        if nparams is not None: l = [f for f in l if len(f["ps"]) == nparams]
        if params is not None: l = [f for f in l if list(f["sig"][1]) == list(params)]
        if cls is not None: l = [f for f in l if f["sig"][0] == cls]
        if len(l) != 1: raise Unsupported("function %s: %d candidates: %s" % (q, len(l), [f["sig"] for f in l]))
        return l[0]


BOOK_INC = ["-I" + BOOK] + ["-I%s/%s" % (BOOK, d) for d in ("arbiters", "allocators", "routers", "networks", "power")]
DRAM_INC = ["-I%s/src" % DRAM, "-I%s" % DRAM, "-I%s/ext/headers" % DRAM, "-I%s/ext/fmt/include" % DRAM]
SIM_INC = ["-I" + SIM, "-I" + SIM + "/noc", "-I" + SIM + "/dram"] + BOOK_INC + DRAM_INC


def ensure_radext():
    exe = VERIF + "/build/radext"
    src = VERIF + "/engine/radext.cpp"
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(VERIF + "/build", exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        subprocess.check_call(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                               "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so"])
        os.rename(tmp, exe)
    return exe


def load_tu(src, flags, roots=None, workdir=None):
    """Extract one translation unit from the current source; nothing is cached between runs."""
    exe = ensure_radext()
    import tempfile
    fd, out = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        r = subprocess.run([exe, out, src, roots or (REPO + "/"), "--", "-std=c++17", "-w"] + flags, capture_output=True, text=True)
        if r.returncode != 0 or os.path.getsize(out) == 0:
            raise Unsupported("extraction of %s failed: %s" % (src, r.stderr[-2000:]))
        with open(out) as f: return TU(json.load(f), src)
    finally:
        os.unlink(out)


def load(srcs, flags):
    p = Program()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for tu in ex.map(lambda s: load_tu(s, flags), srcs): p.add(tu)
    return p
