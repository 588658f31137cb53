"""Translation of expressions to QF_BV and the SMT query interface (z3)."""
import time, os, random
import z3
from z3 import z3core as zc
from expr import *
import expr as X

class Stats:
    queries = 0; sat = 0; unsat = 0; unknown = 0; time = 0.0; folded = 0; witness = 0; maxtime = 0.0
    falsified = 0; spurious = 0

CTX = z3.main_ctx()
C = CTX.ref()
_keep = []

def _k(a):
    zc.Z3_inc_ref(C, a); _keep.append(a); return a

_sorts = {}
def sort(w):
    s = _sorts.get(w)
    if s is None:
        s = zc.Z3_mk_bv_sort(C, w); zc.Z3_inc_ref(C, zc.Z3_sort_to_ast(C, s)); _sorts[w] = s
    return s

_consts = {}
def const(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    a = _consts.get(k)
    if a is None: a = _consts[k] = _k(zc.Z3_mk_numeral(C, str(v), sort(w)))
    return a

TRUE = _k(zc.Z3_mk_true(C)); FALSE = _k(zc.Z3_mk_false(C))

def width(lo, hi):
    if lo >= 0: return max(1, hi.bit_length())
    return max(hi.bit_length() if hi > 0 else 0, (-lo - 1).bit_length()) + 1

def W(x): return width(x.lo, x.hi)

def _extract(a, hi, lo): return _k(zc.Z3_mk_extract(C, hi, lo, a))
def _ext(a, w0, w, sgn):
    if w == w0: return a
    if w < w0: return _extract(a, w - 1, 0)
    return _k(zc.Z3_mk_sign_ext(C, w - w0, a) if sgn else zc.Z3_mk_zero_ext(C, w - w0, a))
def _and(l):
    if not l: return TRUE
    if len(l) == 1: return l[0]
    arr = (zc.Ast * len(l))(*l)
    return _k(zc.Z3_mk_and(C, len(l), arr))
def _not(a): return _k(zc.Z3_mk_not(C, a))
def _ite(c, a, b): return _k(zc.Z3_mk_ite(C, c, a, b))
def _eq(a, b): return _k(zc.Z3_mk_eq(C, a, b))

_bv = {}      # node -> bv ast of width W(node)
_bl = {}      # node -> bool ast
_qr = {}      # (node, m) -> (quotient ast of shifted, width, remainder ast, k)
side = []     # background constraints (variable ranges, inverse definitions)
_varast = {}

BOOLOPS = ('eq0', 'lt0', 'not', 'land')

def bvw(x, w):
    """ast of width w (value mod 2^w, exact if it fits)"""
    if isinstance(x, int): return const(x, w)
    return _ext(_bv[x] if x in _bv else tobv(x), W(x), w, x.lo < 0)

def boolw(x):
    if isinstance(x, int): return TRUE if x else FALSE
    r = _bl.get(x)
    if r is not None: return r
    _translate(x)
    r = _bl.get(x)
    if r is None:
        r = _bl[x] = _eq(_bv[x], const(1, W(x)))
    return r

def tobv(x):
    r = _bv.get(x)
    if r is not None: return r
    _translate(x)
    r = _bv.get(x)
    if r is None:
        r = _bv[x] = _ite(_bl[x], const(1, 1), const(0, 1))
    return r

def _done(x): return x in _bv or x in _bl

def _translate(root):
    stack = [root]
    while stack:
        x = stack[-1]
        if _done(x): stack.pop(); continue
        td = [d for d in deps(x) if not _done(d)]
        if td: stack.extend(td); continue
        stack.pop()
        _one(x)

def _divmod(x, m):
    k = (x, m)
    r = _qr.get(k)
    if r is not None: return r
    sh = 0
    lo, hi = x.lo, x.hi
    if lo < 0: sh = (-lo + m - 1) // m
    elif lo >= m: sh = -(lo // m)
    lo += sh * m; hi += sh * m
    w = max(1, hi.bit_length())
    y = bvw(x, w) if sh == 0 else _k(zc.Z3_mk_bvadd(C, bvw(x, w), const(sh * m, w)))
    nq = (hi // m).bit_length()
    if nq > 40 and w > 90:
        q = _k(zc.Z3_mk_bvudiv(C, y, const(m, w))); rm = _k(zc.Z3_mk_bvurem(C, y, const(m, w)))
        wr = max(1, (m - 1).bit_length())
        r = (_ext(q, w, max(nq, 1), False), max(nq, 1), _ext(rm, w, wr, False), sh)
        _qr[k] = r
        return r
    bits = []
    cur = hi
    for i in range(nq - 1, -1, -1):
        t = m << i
        if cur < t:
            bits.append(FALSE); continue
        ge = _not(_k(zc.Z3_mk_bvult(C, y, const(t, w))))
        s = _k(zc.Z3_mk_bvsub(C, y, const(t, w)))
        y = _ite(ge, s, y)
        bits.append(ge)
        cur = min(cur, t - 1) if cur - t < t else max(t - 1, cur - t)
        nw = max(1, cur.bit_length())
        if nw < w: y = _extract(y, nw - 1, 0); w = nw
    wr = max(1, (m - 1).bit_length())
    y = _ext(y, w, wr, False)
    q = None
    for b in bits:
        bb = _ite(b, const(1, 1), const(0, 1))
        q = bb if q is None else _k(zc.Z3_mk_concat(C, q, bb))
    if q is None: q = const(0, 1); nq = 1
    r = (q, nq, y, sh)
    _qr[k] = r
    return r

def _mux(bits, vals, w, memo):
    """bits: msb first list of Bool asts; vals: list length 2^len(bits)"""
    key = (len(bits), tuple(vals))
    r = memo.get(key)
    if r is not None: return r
    if all(v == vals[0] for v in vals): r = const(vals[0], w)
    else:
        h = len(vals) // 2
        r = _ite(bits[0], _mux(bits[1:], vals[h:], w, memo), _mux(bits[1:], vals[:h], w, memo))
    memo[key] = r
    return r

def _one(x):
    op = x.op; A = x.args
    if op == 'var':
        w = W(x)
        a = _k(zc.Z3_mk_const(C, zc.Z3_mk_string_symbol(C, A[0]), sort(w)))
        _bv[x] = a; _varast[A[0]] = (a, x)
        full = (0, (1 << w) - 1) if x.lo >= 0 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if (x.lo, x.hi) != full:
            if x.lo >= 0:
                if x.lo > 0: side.append((x, _not(_k(zc.Z3_mk_bvult(C, a, const(x.lo, w))))))
                if x.hi < full[1]: side.append((x, _k(zc.Z3_mk_bvule(C, a, const(x.hi, w)))))
            else:
                side.append((x, _k(zc.Z3_mk_bvsge(C, a, const(x.lo, w)))))
                side.append((x, _k(zc.Z3_mk_bvsle(C, a, const(x.hi, w)))))
        return
    if op == 'lin':
        w = W(x); acc = None
        pos = []; ngs = []
        for t, c in A[1]:
            (pos if c > 0 else ngs).append((t, abs(c)))
        def term(t, c):
            b = bvw(t, w)
            if c == 1: return b
            if c & (c - 1) == 0:
                s = c.bit_length() - 1
                return const(0, w) if s >= w else _k(zc.Z3_mk_bvshl(C, b, const(s, w)))
            return _k(zc.Z3_mk_bvmul(C, b, const(c, w)))
        for t, c in pos:
            v = term(t, c); acc = v if acc is None else _k(zc.Z3_mk_bvadd(C, acc, v))
        if A[0] or acc is None:
            v = const(A[0], w); acc = v if acc is None else _k(zc.Z3_mk_bvadd(C, acc, v))
        for t, c in ngs: acc = _k(zc.Z3_mk_bvsub(C, acc, term(t, c)))
        _bv[x] = acc; return
    if op == 'mul':
        w = W(x)
        _bv[x] = _k(zc.Z3_mk_bvmul(C, bvw(A[0], w), bvw(A[1], w))); return
    if op == 'mod':
        y, m = A
        w = W(x)
        if m & (m - 1) == 0: _bv[x] = bvw(y, w); return
        _bv[x] = _ext(_divmod(y, m)[2], max(1, (m - 1).bit_length()), w, False); return
    if op == 'limb':
        y, i = A
        w = W(x); wy = W(y); a = tobv(y); s = 64 * i
        if s >= wy: s = wy - 1
        h = min(wy - 1, s + 63)
        a = _extract(a, h, s)
        a = _ext(a, h - s + 1, 64, y.lo < 0)
        _bv[x] = a if w == 64 else _extract(a, w - 1, 0) if w < 64 else _ext(a, 64, w, False)
        return
    if op == 'div':
        y, m = A
        w = W(x)
        if m & (m - 1) == 0:
            s = m.bit_length() - 1; wy = W(y)
            a = tobv(y)
            if s >= wy: s = wy - 1      # only possible for signed operands
            a = _extract(a, wy - 1, s)
            _bv[x] = _ext(a, wy - s, w, y.lo < 0); return
        q, wq, r, sh = _divmod(y, m)
        if sh: _bv[x] = _k(zc.Z3_mk_bvsub(C, _ext(q, wq, w, False) if wq <= w else _extract(q, w - 1, 0), const(sh, w)))
        else: _bv[x] = _ext(q, wq, w, False)
        return
    if op == 'eq0':
        d = A[0]
        if d.op == 'lin' and len(d.args[1]) <= 2:
            l = 0; r = -d.args[0]
            ls = [(t, c) for t, c in d.args[1] if c > 0]; rs = [(t, -c) for t, c in d.args[1] if c < 0]
            L = mklin(0, dict(ls)); R = mklin(-d.args[0], dict(rs))
            if isinstance(L, E) and L is not d and not (isinstance(R, E) and R is d):
                lo = min(rng(L)[0], rng(R)[0]); hi = max(rng(L)[1], rng(R)[1])
                w = width(lo, hi)
                for z in (L, R):
                    if isinstance(z, E) and not _done(z): _translate(z)
                _bl[x] = _eq(bvw(L, w), bvw(R, w)); return
        if isbool(d): _bl[x] = _not(boolw(d)); return
        _bl[x] = _eq(tobv(d), const(0, W(d))); return
    if op == 'lt0':
        d = A[0]
        if d.op == 'lin' and len(d.args[1]) == 1 and d.args[1][0][1] == 1:
            t = d.args[1][0][0]; c = -d.args[0]
            if t.lo >= 0 and c >= 0:
                w = max(W(t), c.bit_length())
                _bl[x] = _k(zc.Z3_mk_bvult(C, bvw(t, w), const(c, w))); return
        if d.op == 'lin' and len(d.args[1]) == 2 and d.args[0] == 0:
            (t, c), (u, k) = d.args[1]
            if c == 1 and k == -1 and t.lo >= 0 and u.lo >= 0:
                w = max(W(t), W(u))
                _bl[x] = _k(zc.Z3_mk_bvult(C, bvw(t, w), bvw(u, w))); return
        w = W(d); a = tobv(d)
        _bl[x] = _eq(_extract(a, w - 1, w - 1), const(1, 1)); return
    if op == 'not': _bl[x] = _not(boolw(A[0])); return
    if op == 'land': _bl[x] = _and([boolw(A[0]), boolw(A[1])]); return
    if op == 'ite':
        c = boolw(A[0])
        if x.lo >= 0 and x.hi <= 1:
            _bl[x] = _ite(c, boolw(A[1]), boolw(A[2])); return
        w = W(x)
        _bv[x] = _ite(c, bvw(A[1], w), bvw(A[2], w)); return
    if op in ('and', 'or', 'xor'):
        w = W(x)
        w2 = max(w, width(*rng(A[0])), width(*rng(A[1])))
        f = {'and': zc.Z3_mk_bvand, 'or': zc.Z3_mk_bvor, 'xor': zc.Z3_mk_bvxor}[op]
        _bv[x] = _ext(_k(f(C, bvw(A[0], w2), bvw(A[1], w2))), w2, w, False); return
    if op == 'tab':
        t, vals = A; w = W(x)
        wt = W(t); a = tobv(t)
        bits = [_eq(_extract(a, i, i), const(1, 1)) for i in range(wt - 1, -1, -1)]
        v = list(vals) + [vals[-1]] * ((1 << wt) - len(vals))
        _bv[x] = _mux(bits, v, w, {}); return
    if op == 'inv':
        t, p = A; w = W(x)
        a = _k(zc.Z3_mk_const(C, zc.Z3_mk_string_symbol(C, 'inv!%d' % x.uid), sort(w)))
        _bv[x] = a
        side.append((x, _k(zc.Z3_mk_bvule(C, a, const(p - 1, w)))))
        y = tobv(t)
        w2 = 2 * w
        prod = _k(zc.Z3_mk_bvurem(C, _k(zc.Z3_mk_bvmul(C, _ext(a, w, w2, False), _ext(y, W(t), w2, False))), const(p, w2)))
        z = _eq(y, const(0, W(t)))
        side.append((x, _ite(z, _eq(a, const(0, w)), _eq(prod, const(1, w2))))); return
    if op == 'pow':      # opaque: models using it are re-validated by evaluation
        w = W(x)
        _bv[x] = _k(zc.Z3_mk_const(C, zc.Z3_mk_string_symbol(C, 'pow!%d' % x.uid), sort(w)))
        side.append((x, _k(zc.Z3_mk_bvule(C, _bv[x], const(A[2] - 1, w))))); return
    if op in ('udiv', 'umod'):
        w = max(width(*rng(A[0])), width(*rng(A[1])))
        f = zc.Z3_mk_bvudiv if op == 'udiv' else zc.Z3_mk_bvurem
        _bv[x] = _ext(_k(f(C, bvw(A[0], w), bvw(A[1], w))), w, W(x), False); return
    raise Exception('translate ' + op)

LOG = os.environ.get('VP_QLOG')

def solve(conds, timeout_ms=60000, want_model=True):
    """conds: list of boolean exprs; returns ('unsat',None) ('sat',model) ('unknown',None)"""
    cs = []
    for c in conds:
        if isinstance(c, int):
            if not c: Stats.folded += 1; return 'unsat', None
        else: cs.append(c)
    if not cs:
        return 'sat', {}
    t0 = time.time()
    asts = [boolw(c) for c in cs]
    vs, n = cone_vars(cs)
    # background constraints whose owner is in the cone
    seen = set(); st = list(cs); need = []
    if any(o.op != 'var' for o, a in side):
        while st:
            e = st.pop()
            if e in seen: continue
            seen.add(e); st.extend(deps(e))
        need = [a for o, a in side if o in seen]
    else:
        names = set(vs)
        need = [a for o, a in side if o.args[0] in names]
    s = z3.SolverFor('QF_BV')
    s.set('timeout', int(timeout_ms))
    for a in asts + need: zc.Z3_solver_assert(C, s.solver, a)
    t1 = time.time()
    r = s.check()
    dt = time.time() - t0
    Stats.queries += 1; Stats.time += dt; Stats.maxtime = max(Stats.maxtime, dt)
    if LOG: print('  [q] %s nodes=%d build=%.2f total=%.2f' % (r, n, t1 - t0, dt), flush=True)
    if r == z3.unsat: Stats.unsat += 1; return 'unsat', None
    if r == z3.sat:
        Stats.sat += 1
        m = s.model(); out = {}
        for nme, v in vs.items():
            a = _varast[nme][0]
            val = m.eval(z3.BitVecRef(a, CTX), model_completion=True).as_long()
            if v.lo < 0 and val >= 1 << (W(v) - 1): val -= 1 << W(v)
            out[nme] = val
        memo = {}
        if not all(evaluate(c, out, memo) for c in cs):
            Stats.spurious += 1; return 'unknown', None
        return 'sat', out
    Stats.unknown += 1
    return 'unknown', None

def randmodel(vars_, rnd):
    m = {}
    for n, v in vars_.items():
        r = rnd.random()
        if r < .15: m[n] = v.lo
        elif r < .25: m[n] = v.hi
        elif r < .35: m[n] = min(v.hi, v.lo + rnd.randrange(4))
        elif r < .42: m[n] = max(v.lo, v.hi - rnd.randrange(4))
        else: m[n] = rnd.randint(v.lo, v.hi)
    return m
