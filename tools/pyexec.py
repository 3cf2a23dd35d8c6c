"""Executor side of the P23 monitor: runs programs against the Python extension and reports what it observes.

stdin: one program per "GO"-terminated block of lines, each line an instruction; the result of line k is register k.
stdout: one line per instruction, then "END". Started by the monitor's worker; reads the extension from $PYEXT.
"""
import ctypes, inspect, os, random, struct, sys, threading
ctypes.CDLL(None).prctl(1, 9)  # die with the worker
sys.path.insert(0, os.environ["PYEXT"])
import numpy as np
import symb_anafis as sa
OUT = os.fdopen(os.dup(1), "w"); os.dup2(2, 1)
LOG = os.open(os.environ.get("PYLOG", "/dev/null"), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
PANICS = []
def note(s):
    b = s.encode("utf8", "replace")[:2000]; os.ftruncate(LOG, 0); os.pwrite(LOG, b, 0)

def hx(s): return s.encode("utf8", "surrogatepass").hex() or "-"
def bits(x): return "nan" if x != x else struct.pack(">d", x).hex()
def enc(v, short=False):
    t = type(v)
    if v is None: return "N"
    if t is bool: return "b%d" % v
    if t is int: return "i%d" % v
    if isinstance(v, float): return "f" + bits(float(v))
    if t is str: return "s" + hx(v)
    if t is sa.Expr:
        if short: return "e" + hx(str(v))
        return "e%s,%s,%s,%s,%d,%d,%d%d%d%d" % (hx(str(v)), hx(repr(v)), hx(v.to_latex()), hx(v.to_unicode()), v.node_count(), v.max_depth(), v.is_symbol(), v.is_number(), v.is_zero(), v.is_one())
    if t is sa.Symbol: return "y" + hx(v.name() or "")
    if t is sa.Dual: return "d%s,%s" % (bits(v.val), bits(v.eps))
    if t is sa.PyExprView:
        k = [v.is_number, v.is_symbol, v.is_sum, v.is_product, v.is_div, v.is_pow, v.is_function, v.is_derivative]
        ch = list(v.children)
        same = len(v) == len(ch) and all(str(v[i]) == str(ch[i]) and str(v[i - len(ch)]) == str(ch[i]) for i in range(len(ch)))
        return "v%s,%s,%s,%s,%s,%s,%s,%d" % (v.kind, "".join("01"[b] for b in k), "N" if v.value is None else bits(v.value), "N" if v.name is None else hx(v.name), "|".join(hx(str(c)) for c in ch), "N" if v.derivative_var is None else hx(v.derivative_var), v.derivative_order, same)
    if t in (list, tuple): return "[" + ";".join(enc(x, short) for x in v) + "]"
    if t in (set, frozenset): return "{" + ";".join(sorted(enc(x, short) for x in v)) + "}"
    if isinstance(v, np.ndarray): return "a%s:%s" % ("x".join(map(str, v.shape)), ",".join(bits(x) for x in v.ravel().tolist()))
    return "o" + t.__name__

class CbError(Exception): pass
def callback(tok, regs):
    """A postfix program over the argument list: a<i> argument, f<bits> number, + - * / ^ sin cos exp; or raise / none / num / str."""
    if tok == ["raise"]:
        def f(a): raise CbError("callback failed")
    elif tok == ["none"]:
        def f(a): return None
    elif tok == ["num"]:
        def f(a): return 2.5
    elif tok == ["int"]:
        def f(a): return 3
    elif tok == ["sym"]:
        def f(a): return sa.symb("x")
    elif tok == ["badarity"]:
        def f(a, b): return a
    else:
        def f(a):
            st = []
            for t in tok:
                if t[0] == "a": st.append(a[int(t[1:])])
                elif t[0] == "f" and len(t) == 17: st.append(struct.unpack(">d", bytes.fromhex(t[1:]))[0])
                elif t in ("sin", "cos", "exp"): st.append(getattr(sa.Expr(st.pop()), t)())
                else:
                    y = st.pop(); x = st.pop()
                    st.append(x + y if t == "+" else x - y if t == "-" else x * y if t == "*" else x / y if t == "/" else x ** y)
            return st[0]
    return f

def value(it, regs):
    t = next(it); c, rest = t[0], t[1:]
    if t == "N": return None
    if t == "T": return True
    if t == "F": return False
    if c == "r": return regs[int(rest)]
    if c == "f": return struct.unpack(">d", bytes.fromhex(rest))[0]
    if c == "i": return int(rest)
    if c == "n": return np.float64(struct.unpack(">d", bytes.fromhex(rest))[0])
    if c == "m": return np.int64(rest)
    if c == "s": return bytes.fromhex(rest).decode("utf8", "surrogatepass") if rest != "-" else ""
    if c == "l": return [value(it, regs) for _ in range(int(rest))]
    if c == "t": return tuple(value(it, regs) for _ in range(int(rest)))
    if c == "d": return {value(it, regs): value(it, regs) for _ in range(int(rest))}
    if c == "a": return np.array([value(it, regs) for _ in range(int(rest))], dtype=np.float64)
    if c == "A":
        v = [value(it, regs) for _ in range(int(rest))]; b = np.zeros(2 * len(v)); b[::2] = v; return b[::2]
    if c == "c":
        n = int(rest); return callback([next(it) for _ in range(n)], regs)
    raise ValueError(t)

BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "^": lambda a, b: a ** b}
def step(line, regs):
    it = iter(line.split()); op = next(it)
    if op == "new": cls = getattr(sa, next(it)); return cls(*rest(it, regs))
    if op == "call": f = getattr(sa, next(it)); return f(*rest(it, regs))
    if op == "static": c = getattr(sa, next(it)); f = getattr(c, next(it)); return f(*rest(it, regs))
    if op == "meth":
        o = value(it, regs); f = getattr(o, next(it)); return f(*rest(it, regs))
    if op == "attr": o = value(it, regs); return getattr(o, next(it))
    if op == "bin": o = BIN[next(it)]; a = value(it, regs); b = value(it, regs); return o(a, b)
    if op == "neg": return -value(it, regs)
    if op == "float": return float(value(it, regs))
    if op == "val": return value(it, regs)
    if op == "item": o = value(it, regs); return o[value(it, regs)]
    raise ValueError(op)
def rest(it, regs):
    out = []
    while True:
        try: out.append(value(it, regs))
        except (StopIteration, RuntimeError): return out

def guarded(f):
    """-> (value or None, response text)"""
    try: v = f()
    except Exception as e: return None, "EXC %s %s" % (type(e).__name__, hx(str(e)))
    except BaseException as e: return None, "PANIC %s" % hx("%s: %s" % (type(e).__name__, e))
    return v, None

def run_step(line, regs):
    v, r = guarded(lambda: step(line, regs))
    if r is None:
        e, r2 = guarded(lambda: enc(v))
        r = r2 or "OK " + e
    return v, r

def pairs(regs, which):
    """Equality and hashing over registers holding expressions or symbols: symmetric, consistent, as many distinct as reported."""
    items = [(i, regs[i]) for i in which]
    if not all(type(v) in (sa.Expr, sa.Symbol) for _, v in items): return "BAD " + hx("a register is no expression")
    bad, row = [], []
    for i, a in items:
        for j, b in items:
            e = a == b
            if type(e) is not bool: bad.append("%d==%d is no bool" % (i, j))
            if e != (b == a): bad.append("%s == %s is %s, the other way round %s" % (a, b, e, not e))
            if e == (a != b): bad.append("%s: == and != agree for %s" % (a, b))
            if e and hash(a) != hash(b): bad.append("%s == %s but their hashes differ" % (a, b))
            if e and {a: 1}.get(b) != 1: bad.append("%s is not found in a dict under %s" % (b, a))
            if j <= i: row.append("1" if e else "0")
        if a == None or a == "x" or a == object(): bad.append("%s equals an alien object" % a)
    return "OK " + "".join(row) if not bad else "BAD " + hx("; ".join(bad[:4]))

def threads(n, lo, hi, lines, regs, want):
    """Re-run instructions lo..hi in n threads at once, sharing the registers before lo."""
    bar = threading.Barrier(n); res = [None] * n
    def work(k):
        mine = list(regs[:lo]) + [None] * (len(regs) - lo); got = []
        bar.wait()
        for i in range(lo, hi):
            mine[i], r = run_step(lines[i], mine); got.append(r)
        res[k] = got
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    for g in res:
        if g is None: return "BAD " + hx("a thread died")
        for i in range(lo, hi):
            if g[i - lo] != want[i]: return "BAD " + hx("%s: in a thread %s, first %s" % (lines[i], g[i - lo][:200], want[i][:200]))
    return "OK b1"

# ---- hostile arguments ----
class Evil:
    """Answers every protocol with an error."""
    def __float__(self): raise RuntimeError("no float")
    def __index__(self): raise RuntimeError("no index")
    def __len__(self): raise RuntimeError("no len")
    def __iter__(self): raise RuntimeError("no iter")
    def __getitem__(self, i): raise RuntimeError("no item")
    def __eq__(self, o): raise RuntimeError("no eq")
    def __hash__(self): raise RuntimeError("no hash")
    def __str__(self): raise RuntimeError("no str")
    __array__ = __fspath__ = __len__
class Floaty:
    def __float__(self): return 1.5
class Str(str): pass
def zoo(r):
    k = r.randrange(44)
    if k < 10: return r.choice([0, 1, -1, 2, 3, -2, 7, 10**9, 2**31, 2**31 - 1, -2**31, -2**31 - 1, 2**32, 2**53 + 1, 2**63, -2**63, 2**64, 10**30, 10**400, -10**400])
    if k < 16: return r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 2.5, 1e300, -1e300, 5e-324, float("nan"), float("inf"), float("-inf"), 1e16, 0.1])
    if k < 22: return r.choice(["x", "y", "", " ", "x+y", "sin(x)", "f(x)", "1/0", "x^", "((", "∂_x", "α", "\0", "\ud800", "x" * 300, "e", "pi", "sin", "1e999", "🦀", "_", "$1", "x y", "not a formula ;;"])
    if k < 25: return r.choice([None, True, False, ..., 1j, b"x", bytearray(b"x"), object(), Evil(), Floaty(), Str("x"), int, sa, len, lambda *a: 1 / 0, lambda a: a, range(3), iter([1.0])])
    if k < 28: return [zoo(r) for _ in range(r.randrange(4))] if r.random() < .7 else r.choice([[], [[]], [[[]]], [[], []], [[1.0], [2.0]], ["x", "y"], [["x"], ["y"]], [("x", 1.0)], [["x", 1.0]]])
    if k < 29: return r.choice([{}, {"x": 1.0}, {"x": None}, {1: 2}, set(), {"x"}, (), ("x",), ("x", 1.0)])
    if k < 33: return r.choice([lambda: np.array([1.0, 2.0]), lambda: np.array([]), lambda: np.array(1.0), lambda: np.array([[1.0, 2.0], [3.0, 4.0]]), lambda: np.array([1, 2]), lambda: np.array([1.0, 2.0, 3.0, 4.0])[::2], lambda: np.array([1.0, 2.0])[::-1], lambda: np.array(["x"]), lambda: np.array([None]), lambda: np.zeros(5, dtype=np.float32), lambda: np.zeros((0, 3)), lambda: np.frombuffer(b"\0" * 17, dtype=np.uint8)[1:].view(np.float64), lambda: np.broadcast_to(np.array(1.0), (4,)), lambda: np.array([1.0, 2.0], dtype=">f8"), lambda: np.ma.array([1.0], mask=[1])])()
    return r.choice(OBJ)()
def objects():
    x = sa.symb("x")
    f = lambda a: a[0] ** 2
    def ctx(): return sa.Context().with_function("f", 1, f, [lambda a: 2 * a[0]])
    return [lambda: x, lambda: sa.symb("y"), lambda: sa.Symbol.anon(), lambda: sa.Symbol.anon() + 1, lambda: sa.Expr(2), lambda: sa.Expr(float("nan")), lambda: x.sin() + 1, lambda: sa.parse("x^2*y/(x+1)"), lambda: sa.parse("∂^2_f(x,y)/∂_x^2"),
            lambda: sa.parse("f(x)", None, ["f"]), lambda: sa.parse("x^2+2*x+1"), lambda: sa.parse("x^y^2"), lambda: sa.Expr(0), lambda: (x + 1).view(), lambda: sa.Dual(1.5, 1.0), lambda: sa.Dual(float("nan"), 0.0),
            ctx, sa.Context, sa.Diff, sa.Simplify, lambda: sa.Diff().with_context(ctx()), lambda: sa.Diff().max_depth(0), lambda: sa.Simplify().max_nodes(0), lambda: sa.CompiledEvaluator(sa.parse("x*y+1"), ["x", "y"]), lambda: sa.CompiledEvaluator(sa.parse("f(x)", None, ["f"]), ["x"], ctx()), lambda: sa.CompiledEvaluator(sa.Expr(5))]
OBJ = objects()
FUNCS = [n for n in sa.__all__ if callable(getattr(sa, n)) and not isinstance(getattr(sa, n), type)]
TYPES = [getattr(sa, n) for n in sa.__all__ if isinstance(getattr(sa, n), type)]
DUNDER = ["__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__pow__", "__rpow__", "__neg__", "__eq__", "__ne__", "__lt__", "__hash__", "__float__", "__str__", "__repr__", "__len__", "__getitem__", "__bool__", "__int__", "__iter__", "__contains__", "__copy__", "__deepcopy__", "__reduce__", "__call__", "__abs__", "__dir__"]
def say(v):
    try: return repr(v)[:80]
    except Exception: return "<%s>" % type(v).__name__
def sane():
    """Some known results, to see that nothing was damaged."""
    x = sa.symb("x"); s = str((x + 1) * x)
    return (s, sa.diff("x^3", "x"), sa.simplify("x+x+x"), sa.CompiledEvaluator(sa.parse("x^2+1"), ["x"]).evaluate([3.0]), sa.CompiledEvaluator(sa.parse("x*2"), ["x"]).eval_batch([[1.0, 2.0, 3.0, 4.0, 5.0]]), str(sa.parse("sin(x)").diff("x")), sa.Dual(2.0, 1.0).sin().eps)
HEAVY = {"max_depth"}
def hostile(seed, count):
    r = random.Random(seed); before = sane(); done = 0; kinds = set()
    for _ in range(count):
        m = r.randrange(10)
        if m < 4:
            name = r.choice(FUNCS); f = getattr(sa, name); what = name
        elif m < 5:
            f = r.choice(TYPES); what = f.__name__
        else:
            o = r.choice(OBJ)(); names = [n for n in dir(type(o)) if not n.startswith("__")] + DUNDER
            n = r.choice(names); what = "%s(%s).%s" % (type(o).__name__, say(o), n)
            try: f = getattr(o, n)
            except Exception: continue
            if not callable(f): done += 1; continue
        na = r.choice([0, 1, 1, 1, 2, 2, 3, 4])
        if r.random() < .6 and m < 4:
            try: na = len(inspect.signature(f).parameters)
            except Exception: pass
        args = [zoo(r) for _ in range(na)]
        # half of the calls: arguments of the right shape with one spoilt
        if m < 4 and r.random() < .5: args = shaped(what, r, args)
        copies = [(a, a.copy()) for a in args if isinstance(a, np.ndarray)]
        note("%s(%s)" % (what, ", ".join(map(say, args))))
        try:
            v = f(*args)
            say(v)
            kinds.add((what.split("(")[0], "ok"))
        except Exception as e: kinds.add((what.split("(")[0], type(e).__name__))
        except BaseException as e: return "PANIC %s" % hx("%s(%s): %s: %s" % (what, ", ".join(map(say, args)), type(e).__name__, e))
        for a, c in copies:
            if a.tobytes() != c.tobytes(): return "BAD " + hx("%s(%s) modified an array passed in" % (what, ", ".join(map(say, args))))
        done += 1
    if sane() != before: return "BAD " + hx("known results changed after hostile calls: %s, before %s" % (sane(), before))
    return "OK i%d i%d" % (done, len(kinds))
def shaped(name, r, args):
    e = lambda: r.choice([sa.parse("x*y+1"), sa.parse("sin(x)^2"), sa.Expr(3), sa.symb("x") + 1])
    t = {"diff": ["x^2", "x", ["x"], ["f"]], "simplify": ["x+x", ["x"], ["f"]], "parse": ["x+x", ["x"], ["f"]], "gradient": [e(), ["x", "y"]], "hessian": [e(), ["x", "y"]], "jacobian": [[e(), e()], ["x", "y"]],
         "gradient_str": ["x*y", ["x", "y"]], "hessian_str": ["x*y", ["x", "y"]], "jacobian_str": [["x*y", "x"], ["x", "y"]], "evaluate": [e(), [("x", 1.0)]], "evaluate_str": ["x+y", [("x", 1.0)]],
         "uncertainty_propagation": ["x*y", ["x", "y"], [0.1, 0.2]], "relative_uncertainty": [e(), ["x", "y"], [0.1, 0.2]], "eval_f64": [[e(), e()], [["x", "y"], ["x", "y"]], [[[1.0, 2.0], np.array([1.0, 2.0])], [[3.0], [4.0]]]],
         "evaluate_parallel": [[e(), "x+y"], [["x", "y"], ["x"]], [[[1.0, None], np.array([1.0, 2.0])], [[3.0]]]], "count_nodes": [e()], "collect_variables": [e()]}.get(name)
    if t is None: return args
    def spoil(v, d=0):
        if isinstance(v, list) and v and r.random() < .7:
            i = r.randrange(len(v)); c = list(v)
            k = r.randrange(6)
            if k == 0: del c[i]
            elif k == 1: c.append(zoo(r))
            else: c[i] = spoil(c[i])
            return c
        return zoo(r)
    i = r.randrange(len(t)); t = list(t); t[i] = spoil(t[i]); return t

def main():
    names = set(sa.__all__)
    while True:
        lines = []
        while True:
            l = sys.stdin.readline()
            if not l: return
            l = l.rstrip("\n")
            if l == "GO": break
            lines.append(l)
        regs, want = [], []
        for i, l in enumerate(lines):
            note(l); v = None
            w = l.split(" ")
            if w[0] == "pairs":
                r, x = guarded(lambda: pairs(regs, [int(k) for k in w[1:]])); resp = x or r
            elif w[0] == "threads":
                r, x = guarded(lambda: threads(int(w[1]), int(w[2]), int(w[3]), lines, regs, want)); resp = x or r
            elif w[0] == "check":
                resp = "OK b1"
                for k, v2 in enumerate(regs):
                    if want[k].startswith("OK ") and (type(v2) in (sa.Expr, sa.Symbol, sa.Dual, list, np.ndarray)) and lines[k].split(" ")[0] not in ("pairs", "threads"):
                        g, x = guarded(lambda: enc(v2))
                        if x or "OK " + g != want[k]: resp = "BAD " + hx("the value of %s changed: %s, now %s" % (lines[k], want[k][:300], x or g[:300])); break
            elif w[0] == "hostile":
                r, x = guarded(lambda: hostile(int(w[1]), int(w[2]))); resp = x or r
            else: v, resp = run_step(l, regs)
            regs.append(v); want.append(resp); OUT.write(resp + "\n")
        OUT.write("END\n"); OUT.flush()
main()
