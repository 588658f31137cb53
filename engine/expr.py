"""Hash-consed symbolic integer expressions with exact ranges.

Every symbolic value is a mathematical integer with an interval [lo,hi];
booleans are integers in [0,1].  Machine wrap-around is made explicit with
`mod 2^w`, dropped whenever the interval shows it cannot happen.  Python ints
are constants and never wrapped in a node."""
import math

class E:
    __slots__ = ('op', 'args', 'lo', 'hi', 'uid', 'pm', 'z', 'fv')
    def __init__(s, op, args, lo, hi, uid):
        s.op = op; s.args = args; s.lo = lo; s.hi = hi; s.uid = uid
        s.pm = None; s.z = None
        # finite-index variable this node is a table of (names starting with @)
        s.fv = s if op == 'var' and args[0][0] == '@' else args[0].fv if op == 'tab' else None
    def __repr__(s): return pp(s, 4)
    def __bool__(s): raise TypeError('symbolic value used as concrete bool')

def pp(e, d):
    if isinstance(e, int): return str(e) if abs(e) < 10**12 else hex(e)
    if e.op == 'var': return e.args[0]
    if d == 0: return '#%d' % e.uid
    if e.op == 'lin':
        return '(' + ' + '.join(('%d*' % c if c != 1 else '') + pp(t, d-1) for t, c in e.args[1]) + (' + %s' % pp(e.args[0],1) if e.args[0] else '') + ')'
    if e.op == 'tab': return 'tab(%s)' % pp(e.args[0], d-1)
    return '%s(%s)' % (e.op, ','.join(pp(a, d-1) if isinstance(a, (int, E)) else str(a) for a in e.args))

_tab = {}
_n = [0]
BIG = 1 << 24          # moduli above this get polynomial normal forms
PMLIM = 400            # monomials per normal form

def reset():
    _tab.clear()

def mk(op, args, lo, hi):
    if lo == hi: return lo
    k = (op, args)
    e = _tab.get(k)
    if e is None:
        if op != 'tab' and op != 'var':
            e = _collapse(op, args)
            if e is not None: _tab[k] = e; return e
        _n[0] += 1
        e = E(op, args, lo, hi, _n[0])
        _tab[k] = e
    return e

def _vals(e):
    return e.args[1] if e.op == 'tab' else range(e.hi + 1)

def _collapse(op, args):
    """a node all of whose arguments are functions of one finite-index
    variable is itself the function of that variable given by its table"""
    if op == 'lin':
        v = args[1][0][0].fv
        if v is None: return None
        for t, c in args[1]:
            if t.fv is not v: return None
        r = [args[0]] * (v.hi + 1)
        for t, c in args[1]: r = [a + c * b for a, b in zip(r, _vals(t))]
        return tab(v, tuple(r))
    v = None
    for a in args:
        if a.__class__ is E:
            if a.fv is None: return None
            if v is None: v = a.fv
            elif a.fv is not v: return None
    if v is None: return None
    A = [(_vals(a) if a.__class__ is E else a) for a in args]
    n = v.hi + 1
    B = lambda i: A[i] if args[i].__class__ is E else (args[i],) * n
    if op == 'mul': r = [x * y for x, y in zip(B(0), B(1))]
    elif op == 'mod': m = args[1]; r = [x % m for x in A[0]]
    elif op == 'div': m = args[1]; r = [x // m for x in A[0]]
    elif op == 'limb': r = [(x >> (64 * args[1])) & ((1 << 64) - 1) for x in A[0]]
    elif op == 'eq0': r = [1 if x == 0 else 0 for x in A[0]]
    elif op == 'lt0': r = [1 if x < 0 else 0 for x in A[0]]
    elif op == 'not': r = [1 - x for x in A[0]]
    elif op == 'land' or op == 'and': r = [x & y for x, y in zip(B(0), B(1))]
    elif op == 'or': r = [x | y for x, y in zip(B(0), B(1))]
    elif op == 'xor': r = [x ^ y for x, y in zip(B(0), B(1))]
    elif op == 'ite': r = [y if x else z for x, y, z in zip(B(0), B(1), B(2))]
    elif op == 'inv':
        p = args[1]; r = []
        for x in A[0]:
            try: r.append(pow(x % p, -1, p) if x % p else 0)
            except ValueError: return None
    elif op == 'pow': r = [pow(x, args[1], args[2]) for x in A[0]]
    elif op == 'udiv': r = [x // y if y else 0 for x, y in zip(B(0), B(1))]
    elif op == 'umod': r = [x % y if y else 0 for x, y in zip(B(0), B(1))]
    else: return None
    return tab(v, tuple(r))

def var(name, lo, hi):
    return mk('var', (name,), lo, hi)

def rng(x):
    if isinstance(x, int): return x, x
    return x.lo, x.hi

# ---------------------------------------------------------------- linear sums
def _parts(x):
    if isinstance(x, int): return x, ()
    if x.op == 'lin' and len(x.args[1]) <= 24: return x.args
    return 0, ((x, 1),)

def mklin(c0, d):
    """d: dict node->coef (zeros allowed)."""
    ts = [(t, c) for t, c in d.items() if c]
    if not ts: return c0
    if len(ts) > 1:
        n = 0
        for t, c in ts:
            if t.op == 'ite' and isinstance(t.args[1], int) and isinstance(t.args[2], int) or isbool(t): n += 1
        if n > 1:
            # constants selected by one condition: one 0/1 term per condition
            acc = {}; cnt = {}
            for t, c in ts:
                if t.op == 'ite' and isinstance(t.args[1], int) and isinstance(t.args[2], int): b = t.args[0]
                elif isbool(t): b = t.args[0] if t.op == 'not' else t
                else: continue
                cnt[b] = cnt.get(b, 0) + 1
            if any(v > 1 for v in cnt.values()):
                for t, c in ts:
                    if t.op == 'ite' and isinstance(t.args[1], int) and isinstance(t.args[2], int) and cnt[t.args[0]] > 1:
                        b = t.args[0]; c0 += c * t.args[2]; k = c * (t.args[1] - t.args[2])
                    elif t.op == 'not' and cnt.get(t.args[0], 0) > 1: b = t.args[0]; c0 += c; k = -c
                    else: b = t; k = c
                    acc[b] = acc.get(b, 0) + k
                return mklin(c0, acc)
        ts = _recompose(ts)
        if not ts: return c0
        # a recomposed term may itself be a sum
        if any((not isinstance(t, E)) or (t.op == 'lin' and len(t.args[1]) <= 24) for t, c in ts):
            r = c0; acc = {}
            for t, c in ts:
                k, p = _parts(t)
                r += k * c
                for u, v in p: acc[u] = acc.get(u, 0) + v * c
            return mklin(r, acc)
    if len(ts) == 1:
        t, c = ts[0]
        if c == 1 and c0 == 0: return t
        if t.op == 'ite' and isinstance(t.args[1], int) and isinstance(t.args[2], int):
            return ite(t.args[0], c0 + c * t.args[1], c0 + c * t.args[2])
        if t.op == 'lin' and c == -1 or t.op == 'lin' and c0:
            pass
    elif len(ts) <= 8:
        t0 = ts[0][0]
        if t0.op == 'ite':
            cc = t0.args[0]
            if all(t.op == 'ite' and t.args[0] is cc for t, c in ts):
                return ite(cc, lincomb([(t.args[1], c) for t, c in ts] + [(c0, 1)]), lincomb([(t.args[2], c) for t, c in ts] + [(c0, 1)]))
    ts.sort(key=lambda z: z[0].uid)
    lo = hi = c0
    for t, c in ts:
        if c > 0: lo += c * t.lo; hi += c * t.hi
        else: lo += c * t.hi; hi += c * t.lo
    return mk('lin', (c0, tuple(ts)), lo, hi)

def _recompose(ts):
    """c*mod(Y,k) + c*k*div(Y,k)  ->  c*Y   (limb reassembly)."""
    if sum(1 for t, c in ts if t.op == 'mul' and (t.args[0].op == 'limb' or t.args[1].op == 'limb' or t.args[0].op == 'div' or t.args[1].op == 'div')) > 1:
        groups = {}
        for t, c in ts:
            if t.op == 'mul':
                for y, l in (t.args, (t.args[1], t.args[0])):
                    if l.op == 'limb' or l.op == 'div': groups.setdefault(y, []).append((l, c, t))
        done = set()
        for y, g in groups.items():
            g = [z for z in g if z[2] not in done]
            if len(g) < 2: continue
            inner = mklin(0, {l: c for l, c, t in g})
            k = 0 if isinstance(inner, int) else len(inner.args[1]) if inner.op == 'lin' else 1
            if k < len(g):
                done.update(t for l, c, t in g)
                rest = {t: c for t, c in ts if t not in done}
                k0, p = _parts(mul(y, inner))
                r = {t: c for t, c in rest.items()}
                for u, v in p: r[u] = r.get(u, 0) + v
                ts = [(t, c) for t, c in r.items() if c]
        if len(ts) < 2: return ts
    if not any(t.op == 'mod' or t.op == 'limb' for t, c in ts): return ts
    again = True
    d = dict(ts)
    if any(t.op == 'limb' for t, c in ts):
        for t, c in ts:
            if t.op != 'limb' or t not in d: continue
            V, i = t.args
            if i:
                b = limb(V, i - 1)
                if isinstance(b, E) and b in d and d[b] << 64 == d[t]: continue   # not the start of a run
            n = 1; cc = c
            while True:
                b = limb(V, i + n)
                if isinstance(b, int) or d.get(b) != cc << 64: break
                cc <<= 64; n += 1
            top = fdiv(V, 1 << (64 * (i + n)))
            if isinstance(top, E) and d.get(top) == cc << 64:
                for j in range(n): del d[limb(V, i + j)]
                del d[top]
                w = fdiv(V, 1 << (64 * i))
            elif n == 1: continue
            else:
                for j in range(n): del d[limb(V, i + j)]
                w = mod(fdiv(V, 1 << (64 * i)), 1 << (64 * n))
            k0, p = _parts(w)
            if k0: d[w] = d.get(w, 0) + c
            else:
                for e_, v in p: d[e_] = d.get(e_, 0) + v * c
    while again:
        again = False
        for t, c in list(d.items()):
            if not isinstance(t, E) or t.op != 'mod' or not c: continue
            Y, k = t.args
            q = fdiv(Y, k)
            if isinstance(q, int) or q not in d:
                # the next limb may be truncated and have constants pulled out:
                # mod(Y,k) + k*mod(q+n,k2) = mod(Y+n*k, k*k2)
                if isinstance(q, int) or k & (k - 1): continue
                ck = c * k
                hit = None
                for u, v in d.items():
                    if v == ck and u is not t and (u.op == 'mod' and u.args[1] & (u.args[1] - 1) == 0 or u.op == 'limb'):
                        um = u if u.op == 'mod' else expand(u)
                        if um.op != 'mod': continue
                        n = sub(um.args[0], q)
                        if isinstance(n, int) or cost(n) < cost(um.args[0]): hit = u, n, um.args[1]; break
                if hit is None: continue
                u, n, m2 = hit
                del d[t]; del d[u]
                w = mod(add(Y, scale(n, k)), k * m2)
                k0, p = _parts(w)
                if k0 != 0: d[w] = d.get(w, 0) + c
                else:
                    for e_, v in p: d[e_] = d.get(e_, 0) + v * c
                again = True
                break
            if d[q] == c * k:
                del d[t]; del d[q]
                k0, p = _parts(Y)
                if k0 != 0:
                    # keep Y atomic if it has a constant part
                    d[Y] = d.get(Y, 0) + c
                else:
                    for u, v in p: d[u] = d.get(u, 0) + v * c
                again = True
                break
    return [(t, c) for t, c in d.items() if c]

def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int): return a + b
        if a == 0: return b
    elif isinstance(b, int) and b == 0: return a
    c1, p1 = _parts(a); c2, p2 = _parts(b)
    d = dict(p1)
    for t, c in p2: d[t] = d.get(t, 0) + c
    return mklin(c1 + c2, d)

def scale(a, k):
    if isinstance(a, int): return a * k
    if k == 1: return a
    if k == 0: return 0
    c, p = _parts(a)
    return mklin(c * k, {t: v * k for t, v in p})

def sub(a, b): return add(a, scale(b, -1))
def neg(a): return scale(a, -1)

def lincomb(items):
    r = 0; d = {}
    for x, k in items:
        c, p = _parts(x)
        r += c * k
        for t, v in p: d[t] = d.get(t, 0) + v * k
    return mklin(r, d)

def mul(a, b):
    if isinstance(a, int): return scale(b, a)
    if isinstance(b, int): return scale(a, b)
    if a.op == 'ite' and isinstance(a.args[1], int) and isinstance(a.args[2], int) and (a.args[1] == 0 or a.args[2] == 0):
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == 'ite' and isinstance(b.args[1], int) and isinstance(b.args[2], int) and (b.args[1] == 0 or b.args[2] == 0):
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    if isbool(a) : return ite(a, b, 0)
    if isbool(b) : return ite(b, a, 0)
    # pull out common scale of single-term sums
    if a.op == 'lin' and a.args[0] == 0 and len(a.args[1]) == 1:
        t, c = a.args[1][0]; return scale(mul(t, b), c)
    if b.op == 'lin' and b.args[0] == 0 and len(b.args[1]) == 1:
        t, c = b.args[1][0]; return scale(mul(a, t), c)
    if a.uid > b.uid: a, b = b, a
    v = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
    lo = min(v); hi = max(v)
    if a is b and lo < 0: lo = 0
    return mk('mul', (a, b), lo, hi)

# ------------------------------------------------- polynomial normal form mod m
def _strip_atom(t, m):
    """t mod m as a smaller expression, or None if t is an atom mod m."""
    op = t.op
    if op == 'mod' and t.args[1] % m == 0: return t.args[0]
    return None

def polymod(x, m):
    """dict{sorted tuple of atom nodes (by uid): coef} mod m, or None if too big."""
    if isinstance(x, int): return {(): x % m} if x % m else {}
    pm = x.pm
    if pm is None: pm = x.pm = {}
    if m in pm: return pm[m]
    stack = [x]
    while stack:
        e = stack[-1]
        if e.pm is None: e.pm = {}
        if m in e.pm: stack.pop(); continue
        op = e.op
        deps = ()
        if op == 'lin': deps = [t for t, c in e.args[1]]
        elif op == 'mul': deps = e.args
        elif op == 'mod' and e.args[1] % m == 0: deps = (e.args[0],)
        elif op == 'div' and _exact(e, m): deps = (e.args[0],)
        elif op == 'limb' and e.args[1] == 0 and e.args[0].lo >= 0 and m & 1 and m >= BIG: deps = (e.args[0],)
        elif op == 'mod' and _limbmod(e) and m & 1 and m >= BIG: deps = (e.args[0],)
        todo = [d for d in deps if not (d.pm is not None and m in d.pm)]
        if todo: stack.extend(todo); continue
        stack.pop()
        if op == 'lin':
            r = {}
            if e.args[0] % m: r[()] = e.args[0] % m
            for t, c in e.args[1]:
                p = t.pm[m]
                if p is None: r = None; break
                for k, v in p.items():
                    w = (r.get(k, 0) + v * c) % m
                    if w: r[k] = w
                    else: r.pop(k, None)
                if len(r) > PMLIM: r = None; break
        elif op == 'mul':
            p, q = e.args[0].pm[m], e.args[1].pm[m]
            if p is None or q is None or len(p) * len(q) > 4 * PMLIM: r = None
            else:
                r = {}
                for k1, v1 in p.items():
                    for k2, v2 in q.items():
                        k = tuple(sorted(k1 + k2, key=lambda z: z.uid)) if k1 and k2 else (k1 or k2)
                        if k1 and k2 and _inv_used[0]: k = _cancel(k, m)
                        w = (r.get(k, 0) + v1 * v2) % m
                        if w: r[k] = w
                        else: r.pop(k, None)
                if len(r) > PMLIM: r = None
        elif deps:
            if op == 'mod' and e.args[1] % m == 0: r = deps[0].pm[m]
            elif op == 'limb' or op == 'mod':
                # low limbs = value - higher limbs
                V = e.args[0]; r = V.pm[m]
                if r is None: r = {(e,): 1}
                else:
                    r = dict(r)
                    for i in range(1 if op == 'limb' else (e.args[1].bit_length() - 1) // 64, (V.hi.bit_length() + 63) // 64):
                        u = limb(V, i)
                        if isinstance(u, int): k, u = (), None
                        else: k = (u,)
                        if u is None: continue
                        w = (r.get(k, 0) - (1 << (64 * i))) % m
                        if w: r[k] = w
                        else: r.pop(k, None)
            else:
                p = deps[0].pm[m]
                if p is None: r = None
                else:
                    iv = pow(e.args[1], -1, m)
                    r = {k: v * iv % m for k, v in p.items()}
        else:
            r = {(e,): 1}
            if op == 'div' and e.hi < 1 << 64 and e.args[0].lo >= 0 and m & 1:
                k = e.args[1].bit_length() - 1
                if k % 64 == 0 and e.args[1] == 1 << k:
                    u = limb(e.args[0], k // 64)
                    if isinstance(u, E) and u.op == 'limb': r = {(u,): 1}
        if r is None: r = {(e,): 1} if op in ('lin', 'mul') and False else None
        e.pm[m] = r
    return x.pm[m]

def _limbmod(e):
    k = e.args[1].bit_length() - 1
    return k % 64 == 0 and e.args[1] == 1 << k and e.args[0].lo >= 0 and e.args[0].hi < 1 << (k + 640)

_inv_used = [0]
def _cancel(k, m):
    """drop pairs x * inv(x) with x known to be nonzero mod the prime m"""
    for u in k:
        if u.op == 'inv' and u.args[1] == m and u.args[0] in k and u.args[0].lo > 0 and u.args[0].hi < m:
            l = list(k); l.remove(u); l.remove(u.args[0])
            return _cancel(tuple(l), m)
    return k

def clear_inv(P, m):
    """P == 0 mod the prime m as a condition without the inverses of sums"""
    p = polymod(P, m)
    if p is None: return None
    best = None
    for k in p:
        for u in k:
            if u.op == 'inv' and u.args[1] == m and (best is None or u.uid > best.uid): best = u
    if best is None: return None
    s = best.args[0]
    deg = max(k.count(best) for k in p)
    if deg > 6: return None
    zero = {}; out = 0
    for k, v in p.items():
        n = k.count(best)
        l = tuple(u for u in k if u is not best)
        if n == 0: zero[l] = (zero.get(l, 0) + v) % m
        t = v
        for u in l: t = mul(t, u)
        for _ in range(deg - n): t = mul(t, s)
        out = add(out, t)
    y = mod(out, m)
    return ite(eq(s, 0), eq(mod(_from_poly(zero, m), m), 0), eq(y, 0))

def _exact(e, m):
    X, k = e.args
    if math.gcd(k, m) != 1: return False
    r = mod(X, k)
    return isinstance(r, int) and r == 0

def _from_poly(p, m):
    d = {}; c0 = 0
    for k, v in p.items():
        if not k: c0 = v; continue
        t = k[0]
        for u in k[1:]: t = mul(t, u)
        if isinstance(t, int): c0 += v * t; continue
        if v > m // 2: v -= m
        kk, parts = _parts(t)
        c0 += kk * v
        for u, w in parts: d[u] = d.get(u, 0) + v * w
    return mklin(c0, d)

def limb(V, i):
    """64-bit limb i of V (two's complement for negative V), kept as one node so that runs of
    limbs reassemble into V whatever happened to the individual expressions"""
    if isinstance(V, int): return (V >> (64 * i)) & ((1 << 64) - 1)
    if V.lo >= 0:
        if V.hi >> (64 * i) == 0: return 0
        if i == 0 and V.hi < 1 << 64:
            if V.op == 'div':
                k = V.args[1].bit_length() - 1
                if V.args[1] == 1 << k and k % 64 == 0: return limb(V.args[0], k // 64)
            return V
    if i and V.op == 'ite' and isinstance(V.args[1], int) and V.args[1] == 0 and isinstance(V.args[2], E) and V.args[0].op == 'lt0':
        l = literal(V.args[0])
        if l is not None and l[0] is V.args[2] and l[0].lo >= 0 and 0 <= l[2] < 1 << (64 * i): return limb(V.args[2], i)
    return mk('limb', (V, i), 0, min((1 << 64) - 1, V.hi >> (64 * i)) if V.lo >= 0 else (1 << 64) - 1)

def expand(t):
    return mod(fdiv(t.args[0], 1 << (64 * t.args[1])), 1 << 64)

def cost(x):
    if isinstance(x, int): return 0
    if x.op == 'lin': return len(x.args[1]) + 0.1 + (x.args[0] != 0) * .1
    return 1

LIMB_ = 1 << 64
def mod(x, m):
    """floor modulus by a positive constant"""
    if isinstance(x, int): return x % m
    if m == 1: return 0
    if x.lo >= 0 and x.hi < m: return x
    if x.lo // m == x.hi // m: return sub(x, m * (x.lo // m))
    op = x.op
    if op == 'mod' and x.args[1] % m == 0: return mod(x.args[0], m)
    if op == 'limb' and m & (m - 1) == 0: return mod(fdiv(x.args[0], 1 << (64 * x.args[1])), m)
    if op == 'ite':
        if isinstance(x.args[1], int) or isinstance(x.args[2], int):
            return ite(x.args[0], mod(x.args[1], m), mod(x.args[2], m))
        if m >= 1 << 64 and m & (m - 1) == 0:
            A, B = _unmod(x.args[1], m), _unmod(x.args[2], m)
            y = ite(x.args[0], A, B)
            if isinstance(y, int) or y.op != 'ite': return mod(y, m)
    if op == 'lin' or op == 'mul' or op == 'div':
        if op == 'lin':
            c0, ts = x.args
            g = m
            for t, c in ts: g = math.gcd(g, c)
            if g > 1 and g != m:
                # mod(g*y + c0, m): common factor with modulus
                r = c0 % g
                inner = mklin((c0 - r) // g, {t: c // g for t, c in ts})
                return add(scale(mod(inner, m // g), g), r)
            if g == m: return c0 % m
        big = m >= BIG
        if big and m & (m - 1):
            _moduli.add(m)
            p = polymod(x, m)
            if p is not None:
                if not p: return 0
                y = _from_poly(p, m)
                if isinstance(y, int): return y % m
                if y.lo >= 0 and y.hi < m: return y
                if y is not x and y.op == 'mod' and y.args[1] % m == 0: return y
                lo = 0
                if y.op == 'lin' and y.args[0] == 0 and len(y.args[1]) == 1:
                    u, c = y.args[1][0]
                    if isprime(m) and _nonzero(u, m): lo = 1
                elif y.op == 'mul' and isprime(m) and _nonzero(y, m): lo = 1
                return mk('mod', (y, m), lo, m - 1)
        if op == 'lin':
            # reduce coefficients, strip nested mods when it pays
            c0, ts = x.args
            nd = {}; ch = False; n0 = c0 % m
            strip = {}
            s0 = c0
            for t, c in ts:
                r = c % m
                if r > m // 2: r -= m
                if r != c: ch = True
                nd[t] = r
                if t.op == 'mod' and t.args[1] % m == 0:
                    work = [(t.args[0], c)]
                    for _ in range(12):
                        nw = []
                        for e_, ce in work:
                            k, p = _parts(e_)
                            s0 += k * ce
                            for u, v in p:
                                if u.op == 'mod' and u.args[1] % m == 0: nw.append((u.args[0], v * ce % m))
                                elif u.op == 'limb' and (1 << 64) % m == 0: nw.append((fdiv(u.args[0], 1 << (64 * u.args[1])), v * ce % m))
                                elif u.op == 'mul' and m & (m - 1) == 0 and any(w.op == 'mod' and w.args[1] % m == 0 or w.op == 'limb' and LIMB_ % m == 0 for w in u.args):
                                    nw.append((mul(*[w.args[0] if w.op == 'mod' and w.args[1] % m == 0 else fdiv(w.args[0], 1 << (64 * w.args[1])) if w.op == 'limb' and LIMB_ % m == 0 else w for w in u.args]), v * ce % m))
                                else: strip[u] = strip.get(u, 0) + v * ce
                        work = nw
                        if not work: break
                    for e_, ce in work:
                        k, p = _parts(e_)
                        s0 += k * ce
                        for u, v in p: strip[u] = strip.get(u, 0) + v * ce
                elif t.op == 'limb' and (1 << 64) % m == 0:
                    k, p = _parts(fdiv(t.args[0], 1 << (64 * t.args[1])))
                    s0 += k * c
                    for u, v in p: strip[u] = strip.get(u, 0) + v * c
                elif t.op == 'mul' and m & (m - 1) == 0 and any(u.op == 'mod' and u.args[1] % m == 0 or u.op == 'limb' and LIMB_ % m == 0 for u in t.args):
                    a, b = t.args
                    if a.op == 'mod' and a.args[1] % m == 0: a = a.args[0]
                    elif a.op == 'limb' and LIMB_ % m == 0: a = fdiv(a.args[0], 1 << (64 * a.args[1]))
                    if b.op == 'mod' and b.args[1] % m == 0: b = b.args[0]
                    elif b.op == 'limb' and LIMB_ % m == 0: b = fdiv(b.args[0], 1 << (64 * b.args[1]))
                    k, p = _parts(mul(a, b))
                    s0 += k * c
                    for u, v in p: strip[u] = strip.get(u, 0) + v * c
                else:
                    strip[t] = strip.get(t, 0) + c
            sd = {}
            for t, c in strip.items():
                r = c % m
                if r > m // 2: r -= m
                if r: sd[t] = r
            if len(sd) < len([1 for c in nd.values() if c]):
                return mod(mklin(s0 % m, sd), m)
            if ch:
                y = mklin(n0, nd)
                if isinstance(y, int): return y % m
                if cost(y) < cost(x) or (y.hi - y.lo) < (x.hi - x.lo):
                    if y is not x: return mod(y, m)
    return mk('mod', (x, m), 0, m - 1)

def _nonzero(u, m):
    if u.op == 'mul': return _nonzero(u.args[0], m) and _nonzero(u.args[1], m)
    return (u.lo > 0 or u.hi < 0) and u.hi < m and u.lo > -m

def _unmod(x, m):
    """an expression congruent to x modulo m with outer residues removed"""
    if isinstance(x, int): return x
    if x.op == 'mod' and x.args[1] % m == 0: return x.args[0]
    if x.op == 'lin' and any(t.op == 'mod' and t.args[1] % m == 0 for t, c in x.args[1]):
        return lincomb([(t.args[0] if t.op == 'mod' and t.args[1] % m == 0 else t, c) for t, c in x.args[1]] + [(x.args[0], 1)])
    return x

def fdiv(x, m):
    """floor division by a positive constant"""
    if isinstance(x, int): return x // m
    if m == 1: return x
    a, b = x.lo // m, x.hi // m
    if a == b: return a
    op = x.op
    if op == 'div': return fdiv(x.args[0], x.args[1] * m)
    if op == 'limb': return fdiv(expand(x), m)
    if op == 'ite' and (isinstance(x.args[1], int) or isinstance(x.args[2], int)):
        return ite(x.args[0], fdiv(x.args[1], m), fdiv(x.args[2], m))
    if op == 'ite' and m == 2 and x.hi >= BIG:
        y = ite(x.args[0], fdiv(x.args[1], m), fdiv(x.args[2], m))
        if isinstance(y, E) and y.op == 'mod': return y
    if op == 'lin':
        c0, ts = x.args
        q0 = 0; q = {}; r = {}
        r0 = c0 % m; q0 = c0 // m
        for t, c in ts:
            if c % m == 0: q[t] = c // m
            else: r[t] = c
        if q or q0:
            rest = mklin(r0, r)
            return add(mklin(q0, q), fdiv(rest, m))
    if op == 'mod' and x.args[1] % m == 0:
        # (y mod (k*m)) / m = (y/m) mod k
        return mod(fdiv(x.args[0], m), x.args[1] // m)
    e = mk('div', (x, m), a, b)
    return e

_moduli = set()

def residue(v):
    """same integer, as a normal form modulo a registered modulus when v is an exact
    (Montgomery style) quotient lying in [0,p)"""
    if isinstance(v, E) and v.op == 'div' and v.lo >= 0:
        for p in _moduli:
            if v.hi < p <= 4 * v.hi and _exact(v, p):
                return mod(scale(v, p + 1), p)
    return v

# -------------------------------------------------------------------- booleans
def isbool(x):
    return isinstance(x, E) and x.lo >= 0 and x.hi <= 1

def not_(c):
    if isinstance(c, int): return 1 - (1 if c else 0)
    if c.op == 'not': return c.args[0]
    return mk('not', (c,), 0, 1)

def literal(e):
    """(t, lo, hi) with e <=> lo <= t <= hi, or None"""
    op = e.op
    if op == 'lt0':
        d = e.args[0]
        if d.op == 'lin':
            c0, ts = d.args
            if len(ts) == 1 and ts[0][1] == 1: return ts[0][0], ts[0][0].lo, -c0 - 1
            if len(ts) > 1 and ts[0][1] > 0:
                t = mk('lin', (0, ts), d.lo - c0, d.hi - c0)
                return t, t.lo, -c0 - 1
            return None
        return d, d.lo, -1
    if op == 'eq0':
        d = e.args[0]
        if d.op == 'lin':
            c0, ts = d.args
            if len(ts) == 1 and ts[0][1] in (1, -1):
                v = -c0 * ts[0][1]
                return ts[0][0], v, v
            if len(ts) > 1 and ts[0][1] > 0:
                t = mk('lin', (0, ts), d.lo - c0, d.hi - c0)
                return t, -c0, -c0
            return None
        return d, 0, 0
    if op == 'not':
        l = literal(e.args[0])
        if l is None: return None
        t, lo, hi = l
        if lo <= t.lo: return t, hi + 1, t.hi
        if hi >= t.hi: return t, t.lo, lo - 1
        return None
    return None

def land(a, b):
    if isinstance(a, int): return b if a else 0
    if isinstance(b, int): return a if b else 0
    if a is b: return a
    la = literal(a)
    if la is not None:
        lb = literal(b)
        if lb is not None and lb[0] is la[0]:
            lo = max(la[1], lb[1]); hi = min(la[2], lb[2])
            if lo > hi: return 0
            if (lo, hi) == (la[1], la[2]): return a
            if (lo, hi) == (lb[1], lb[2]): return b
            if lo == hi: return eq(la[0], lo)
    if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a): return 0
    for p, q in ((a, b), (b, a)):
        if q.op == 'not' and q.args[0].op == 'land':
            u, v = q.args[0].args
            if u is p: return land(p, not_(v))
            if v is p: return land(p, not_(u))
    ra = _bits0(a)
    if ra is not None:
        rb = _bits0(b)
        if rb is not None:
            z = _join0(ra, rb)
            if z is not None: return z
        elif b.op == 'land':
            for p, q in (b.args, (b.args[1], b.args[0])):
                rp = _bits0(p)
                z = _join0(ra, rp) if rp is not None else None
                if z is not None: return land(z, q)
    elif a.op == 'land':
        rb = _bits0(b)
        if rb is not None:
            for p, q in (a.args, (a.args[1], a.args[0])):
                rp = _bits0(p)
                z = _join0(rb, rp) if rp is not None else None
                if z is not None: return land(z, q)
    if a.uid > b.uid: a, b = b, a
    return mk('land', (a, b), 0, 1)

def _bits0(c):
    """(V, lo, hi): c says that bits lo..hi-1 of V >= 0 are zero (hi None: all above lo)"""
    if c.op == 'eq0':
        d = c.args[0]
        if d.op == 'limb' and d.args[0].lo >= 0: return d.args[0], 64 * d.args[1], 64 * d.args[1] + 64
        if d.op == 'mod' and d.args[1] & (d.args[1] - 1) == 0:
            V = d.args[0]; k = d.args[1].bit_length() - 1; s = 0
            if V.op == 'div' and V.args[1] & (V.args[1] - 1) == 0: s = V.args[1].bit_length() - 1; V = V.args[0]
            if V.lo >= 0: return V, s, s + k
        return None
    if c.op == 'lt0':
        l = literal(c)
        if l is not None and l[0].lo >= 0 and l[1] <= l[0].lo and (l[2] + 1) & l[2] == 0 and l[2] > 0: return l[0], (l[2] + 1).bit_length() - 1, None
    return None

def _join0(a, b):
    if a[0] is not b[0]: return None
    V = a[0]
    if b[1] < a[1]: a, b = b, a
    if a[2] is None: return None
    if a[2] < b[1]: return None
    hi = None if b[2] is None else max(a[2], b[2])
    if hi is not None and V.hi >> hi == 0: hi = None
    if hi is None: return eq(V, 0) if a[1] == 0 else lt(V, 1 << a[1])
    if a[1] == 0: return eq(mod(V, 1 << hi), 0)
    return eq(mod(fdiv(V, 1 << a[1]), 1 << (hi - a[1])), 0)

def lor(a, b): return not_(land(not_(a), not_(b)))

def eq0(d):
    if isinstance(d, int): return 1 if d == 0 else 0
    if d.lo > 0 or d.hi < 0: return 0
    op = d.op
    if op == 'lin':
        c0, ts = d.args
        if len(ts) == 1:
            t, c = ts[0]
            if c0 % c: return 0
            v = -c0 // c
            return eqc(t, v)
        g = 0
        for t, c in ts: g = math.gcd(g, c)
        if c0 % g: return 0
        if ts[0][1] < 0: g = -g
        if g != 1: return eq0(mklin(c0 // g, {t: c // g for t, c in ts}))
        # |d| < m:  d == 0  <=>  d = 0 mod m   (canonical form for residues of a big modulus)
        for t, c in ts:
            if t.op == 'mod' and t.args[1] >= BIG and t.args[1] & (t.args[1] - 1) and -t.args[1] < d.lo and d.hi < t.args[1]:
                if len(ts) == 2 and all(u.op != 'mod' or u.args[1] != t.args[1] for u, k in ts if u is not t) and not any(u.op == 'var' for u, k in ts): break
                z = mod(d, t.args[1])
                return eqc(z, 0)
        # big-modulus identities:  mod(X,m) - mod(Y,m) == 0
        if len(ts) == 2 and c0 == 0:
            (t, c), (u, k) = ts
            if c == 1 and k == -1 and t.op == 'mod' and u.op == 'mod' and t.args[1] == u.args[1]:
                m = t.args[1]
                if m >= BIG:
                    z = mod(sub(t.args[0], u.args[0]), m)
                    if isinstance(z, int): return 1 if z == 0 else 0
            if c == 1 and k == -1:
                if t.op == 'ite' and (t.args[1] is u or t.args[2] is u): 
                    return lor(land(t.args[0], eq(t.args[1], u)), land(not_(t.args[0]), eq(t.args[2], u)))
                if u.op == 'ite' and (u.args[1] is t or u.args[2] is t):
                    return lor(land(u.args[0], eq(u.args[1], t)), land(not_(u.args[0]), eq(u.args[2], t)))
        return mk('eq0', (d,), 0, 1)
    return eqc(d, 0)

def eqc(t, v):
    """t == v for a non-linear node t and constant v"""
    if isinstance(t, int): return 1 if t == v else 0
    if v < t.lo or v > t.hi: return 0
    op = t.op
    if t.fv is not None: return tab(t.fv, tuple(1 if z == v else 0 for z in _vals(t)))
    if op == 'ite':
        a, b = t.args[1], t.args[2]
        ra = eq(a, v); rb = eq(b, v)
        if isinstance(ra, int) or isinstance(rb, int):
            return ite(t.args[0], ra, rb)
    if t.lo >= 0 and t.hi <= 1: return t if v == 1 else not_(t)
    if op == 'tab':
        vs = t.args[1]
        n = sum(1 for z in vs if z == v)
        if n == 0: return 0
        if n == 1:
            i = vs.index(v); return eq(t.args[0], i)
    if op == 'mul' and v == 0: return lor(eq(t.args[0], 0), eq(t.args[1], 0))
    if op == 'mod' and v == 0 and t.args[1] >= BIG and _inv_used[0] and isprime(t.args[1]):
        z = clear_inv(t.args[0], t.args[1])
        if z is not None: return z
    if op == 'inv' and v == 0: return eq(t.args[0], 0)
    if op == 'mod' and v == 0 and t.args[1] >= BIG and t.args[0].op == 'mul' and isprime(t.args[1]):
        a, b = t.args[0].args; m = t.args[1]
        return lor(eq(mod(a, m), 0), eq(mod(b, m), 0))
    if op == 'mod' and v == 0 and t.args[1] >= BIG and t.args[0].op == 'lin' and t.args[0].args[0] == 0 and len(t.args[0].args[1]) == 1 and isprime(t.args[1]):
        u, c = t.args[0].args[1][0]
        return eq(mod(u, t.args[1]), 0)
    if op == 'mod' and v == 0 and t.args[1] >= BIG and t.args[0].op == 'lin' and isprime(t.args[1]):
        # scale so that the first coefficient is 1
        m = t.args[1]; c0, ts = t.args[0].args
        k = ts[0][1] % m
        if k != 1 and k:
            z = mod(scale(t.args[0], pow(k, -1, m)), m)
            if z is not t: return eqc(z, 0) if isinstance(z, int) or not (z.op == 'mod' and z.args[0].op == 'lin' and z.args[0].args[1][0][1] % m != 1) else mk('eq0', (z,), 0, 1)
    return mk('eq0', (add(t, -v) if v else t,), 0, 1)

_pr = {}
def isprime(n):
    r = _pr.get(n)
    if r is None:
        r = n > 1 and all(n % q for q in (2, 3, 5, 7, 11, 13)[:6] if q < n)
        if r and n > 13:
            d = n - 1; s = 0
            while d % 2 == 0: d //= 2; s += 1
            for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
                if a % n == 0: continue
                x = pow(a, d, n)
                if x in (1, n - 1): continue
                for _ in range(s - 1):
                    x = x * x % n
                    if x == n - 1: break
                else: r = False; break
        _pr[n] = r
    return r

def eq(a, b):
    if a is b: return 1
    return eq0(sub(a, b))

def ne(a, b): return not_(eq(a, b))

def lt0(d):
    if isinstance(d, int): return 1 if d < 0 else 0
    if d.hi < 0: return 1
    if d.lo >= 0: return 0
    if d.op == 'lin':
        c0, ts = d.args
        if len(ts) == 1:
            t, c = ts[0]
            if t.op == 'ite' and (isinstance(t.args[1], int) or isinstance(t.args[2], int)):
                return ite(t.args[0], lt0(add(c0, scale(t.args[1], c))), lt0(add(c0, scale(t.args[2], c))))
            if t.lo >= 0 and t.hi <= 1:
                v0 = lt0(c0); v1 = lt0(c0 + c)
                return ite(t, v1, v0)
            # c*t + c0 < 0
            if c > 1:   # t < -c0/c  <=> t < ceil(-c0/c)
                return lt0(mklin(-((-c0 + c - 1) // c), {t: 1}))
            if c < -1:  # t > c0/|c| <=> t > floor(c0/|c|)
                return lt0(mklin(c0 // -c, {t: -1}))
            # boundary cases become equalities
            if c == 1 and t.lo == -c0 - 1: return eq(t, t.lo)
            if c == -1 and t.hi == c0 + 1: return eq(t, t.hi)
            if c == 1 and t.hi == -c0: return not_(eq(t, t.hi))
            if c == -1 and t.lo == c0: return not_(eq(t, t.lo))
            if c == -1:  # normalise t > c0 to not(t <= c0) = not(t - c0 - 1 < 0)
                return not_(lt0(mklin(-c0 - 1, {t: 1})))
        elif ts[0][1] < 0:
            return not_(lt0(mklin(-c0 - 1, {t: -c for t, c in ts})))
    elif d.op == 'ite':
        a = lt0(d.args[1]); b = lt0(d.args[2])
        if isinstance(a, int) or isinstance(b, int): return ite(d.args[0], a, b)
    return mk('lt0', (d,), 0, 1)

def lt(a, b): return lt0(sub(a, b))
def le(a, b): return lt0(add(sub(a, b), -1))

def ite(c, a, b):
    if isinstance(c, int): return a if c else b
    if a is b: return a
    if isinstance(a, int) and isinstance(b, int):
        if a == b: return a
        if a == 1 and b == 0: return c
        if a == 0 and b == 1: return not_(c)
    if c.op == 'not': c, a, b = c.args[0], b, a
    if isinstance(a, E) and isinstance(b, E) and a.op == 'limb' and b.op == 'limb':
        j = max(a.args[1], b.args[1])
        return limb(ite(c, scale(a.args[0], 1 << (64 * (j - a.args[1]))), scale(b.args[0], 1 << (64 * (j - b.args[1])))), j)
    # boolean forms
    la, ha = rng(a); lb, hb = rng(b)
    if la >= 0 and ha <= 1 and lb >= 0 and hb <= 1:
        if a is c or (isinstance(a, int) and a == 1): return lor(c, b)
        if b is c or (isinstance(b, int) and b == 0): return land(c, a)
        if isinstance(a, int) and a == 0: return land(not_(c), b)
        if isinstance(b, int) and b == 1: return lor(not_(c), a)
    if isinstance(a, E) and a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if isinstance(b, E) and b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if c.op == 'lt0' or c.op == 'eq0':
        # nested conditions on the same quantity
        l = None
        if isinstance(b, E) and b.op == 'ite':
            l = literal(c); l2 = literal(b.args[0])
            if l is not None and l2 is not None and l2[0] is l[0]:
                lo_, hi_ = (l[2] + 1, l[0].hi) if l[1] <= l[0].lo else (l[0].lo, l[1] - 1) if l[2] >= l[0].hi else (None, None)
                if lo_ is not None:
                    if l2[1] <= lo_ and hi_ <= l2[2]: return ite(c, a, b.args[1])
                    if l2[2] < lo_ or l2[1] > hi_: return ite(c, a, b.args[2])
        if isinstance(a, E) and a.op == 'ite':
            l = literal(c); l2 = literal(a.args[0])
            if l is not None and l2 is not None and l2[0] is l[0]:
                if l2[1] <= l[1] and l[2] <= l2[2]: return ite(c, a.args[1], b)
                if l2[2] < l[1] or l2[1] > l[2]: return ite(c, a.args[2], b)
    if not _subst_busy[0] and c.op == 'lt0' and c.args[0].op == 'var':
        if isinstance(a, E) and a.op not in ('var', 'lin', 'limb'):
            z = subst(a, c, 1, 40)
            if z is not None: a = z
        if isinstance(b, E) and b.op not in ('var', 'lin', 'limb'):
            z = subst(b, c, 0, 40)
            if z is not None: b = z
        if a is b: return a
        la, ha = rng(a); lb, hb = rng(b)
    # conditional-subtract patterns:  x<m ? x : x-m   with 0<=x<2m   ->  x mod m
    if c.op == 'lt0' and isinstance(c.args[0], E):
        d = sub(a, b)
        if isinstance(d, int) and d != 0:
            x = None
            if d > 0:          # cond ? b+d : b      -> with cond b<0..: (b mod d)
                m = d
                if isinstance(b, E) and b.lo >= -m and b.hi < m and c is lt0(b): return mod(b, m)
                # x<m ? x : x-m
                if isinstance(a, E) and a.lo >= 0 and a.hi < 2 * m and c is lt0(add(a, -m)): return mod(a, m)
                # x<=m ? x : x-m   ->  (x mod m) + m*[x==m]
                if isinstance(a, E) and a.lo >= 0 and a.hi < 2 * m and m >= BIG and c is lt0(add(a, -m - 1)): return add(mod(a, m), scale(eq(a, m), m))
            else:
                # the same with the negated condition
                m = -d; n = not_(c)
                if isinstance(a, E) and a.lo >= -m and a.hi < m and n is lt0(a): return mod(a, m)
                if isinstance(b, E) and b.lo >= 0 and b.hi < 2 * m and n is lt0(add(b, -m)): return mod(b, m)
                if isinstance(b, E) and b.lo >= 0 and b.hi < 2 * m and m >= BIG and n is lt0(add(b, -m - 1)): return add(mod(b, m), scale(eq(b, m), m))
    if isinstance(d0 := a, E) and c.op == 'eq0':
        # x==0 ? 0 : (m - x)   ->  (-x) mod m
        pass
    h = _halve(c, a, b)
    if h is not None: return h
    if c.op == 'eq0' and isinstance(a, int):
        # x==v ? k : f  where f evaluates consistently at x==v  (only for linear f / negation mod m)
        t = c.args[0]
        s = sub(b, scale(t, -1))       # b + t constant ?
        if isinstance(s, int) and a == 0 and t.lo >= 0 and s > t.hi: return mod(neg(t), s)
        s = sub(b, t)
        if isinstance(s, int) and a == s: return b
        # x==v ? 0 : mul(...)x ...  (zero-flag representations): b vanishes when t does
        if a == 0 and vanishes(b, t): return b
        if b.op == 'ite' if isinstance(b, E) else False: pass
    if c.op == 'land' and isinstance(b, int) and b == 0 and isinstance(a, E):
        for p, q in (c.args, (c.args[1], c.args[0])):
            if ite(p, a, 0) is a: return ite(q, a, 0)
    if c.op == 'lt0':
        D = c.args[0]
        if isinstance(b, E) and b.op == 'mod':
            Y = b.args[0]; k = sub(Y, D)
            if isinstance(k, int) and k >= 0 and Y.hi < b.args[1]: return ite(c, a, Y)
        if isinstance(a, E) and a.op == 'mod':
            Y = a.args[0]; k = sub(Y, D)
            if isinstance(k, int) and Y.lo >= 0 and k - 1 < a.args[1]: return ite(c, Y, b)
            # Y in [lo, -1+k] with negative part only: mod shifts by M
            if isinstance(k, int) and Y.lo >= -a.args[1] and k - 1 < 0: return ite(c, add(Y, a.args[1]), b)
        l = literal(c)
        if l is not None and isinstance(a, int) and a == 0 and isinstance(b, E):
            t, l1, l2 = l
            if t.lo >= 0 and l2 >= 0 and vanishes(b, fdiv(t, l2 + 1)): return b
        if l is not None and isinstance(b, E) and b.op == 'mod' and a is l[0] and l[0].lo >= 0 and b.args[0] is l[0] and l[2] < b.args[1]: return b
    elif c.op == 'eq0':
        if isinstance(a, E) and isinstance(b, E) and b.op == 'lin':
            for u, m in b.args[1]:
                if u is c and m >= BIG and eq(a, m) is c and b is add(mod(a, m), scale(c, m)): return b
        l = literal(c)
        if l is not None and isinstance(a, E) and l[0].op != 'var':
            z = subst(a, l[0], l[1], 40)
            if isinstance(z, int): return ite(c, z, b)
        if l is not None and isinstance(a, int) and a == l[1] and a >= BIG and isinstance(b, E) and b.op == 'lin' and b is add(mod(l[0], a), scale(c, a)): return b
        if l is not None and isinstance(a, int) and a == 0 and b is l[0] and b.lo >= 0 and b.hi == l[1]: return mod(b, l[1])
        if l is not None and isinstance(b, E):
            z = subst(b, l[0], l[1])
            if z is not None and (z is a or (isinstance(z, int) and isinstance(a, int) and a == z)): return b
    if isinstance(a, E) and a.op == 'limb':
        if isinstance(b, E): pass
        elif b == 0: return limb(ite(c, a.args[0], 0), a.args[1])
    elif isinstance(a, int) and a == 0 and isinstance(b, E) and b.op == 'limb': return limb(ite(c, 0, b.args[0]), b.args[1])
    if c.op == 'lt0':
        D = c.args[0]
        if isinstance(b, E) and (b is D or b.op == D.op == 'lin' or b.op == 'lin' and len(b.args[1]) == 1 or D.op == 'lin' and len(D.args[1]) == 1):
            k = sub(b, D)
            if isinstance(k, int): lb = max(lb, k)
            k = add(b, D)
            if isinstance(k, int): hb = min(hb, k)
        if isinstance(a, E) and (a is D or a.op == D.op == 'lin' or a.op == 'lin' and len(a.args[1]) == 1 or D.op == 'lin' and len(D.args[1]) == 1):
            k = sub(a, D)
            if isinstance(k, int): ha = min(ha, k - 1)
            k = add(a, D)
            if isinstance(k, int): la = max(la, k + 1)
        if la > ha: return b
        if lb > hb: return a
    lo = la if la < lb else lb
    hi = ha if ha > hb else hb
    return mk('ite', (c, a, b), lo, hi)

def _halve(c, a, b):
    """X even ? X/2 : (X+m)/2  with 0 <= X < m, m odd   ->  X * 2^-1 mod m"""
    X = None
    if c.op == 'mod' and c.args[1] == 2 and isinstance(a, E) and isinstance(b, E):
        X = c.args[0]
        if X.lo >= 0 and b is fdiv(X, 2):
            h = sub(a, fdiv(add(X, 1), 2))
            if isinstance(h, int) and 2 * h + 1 >= BIG and X.hi < 2 * h + 1: return mod(scale(X, h + 1), 2 * h + 1)
        return None
    for y, k in ((a, 0), (b, 0)):
        if isinstance(y, E) and y.op == 'div' and y.args[1] == 2: 
            pass
        else: return None
    A, B = a.args[0], b.args[0]
    m = sub(B, A)
    if not isinstance(m, int) or m % 2 == 0: return None
    if m < 0: A, B, m = B, A, -m; c = not_(c)
    if m < BIG or A.lo < 0 or A.hi >= m: return None
    par = mod(A, 2)
    if c is eq(par, 0) or c is not_(par) and isbool(par): return mod(scale(A, (m + 1) // 2), m)
    return None

_subst_busy = [0]
def subst(e, t, v, cap=150):
    """e[t := v] if e is small, else None"""
    if _subst_busy[0]: return None
    memo = {}; cnt = [0]
    def go(x):
        if isinstance(x, int): return x
        if x is t: return v
        r = memo.get(x)
        if r is not None: return r
        cnt[0] += 1
        if cnt[0] > cap: raise OverflowError
        op = x.op; A = x.args
        if op == 'var': r = x
        elif op == 'lin': r = lincomb([(go(u), c) for u, c in A[1]] + [(A[0], 1)])
        elif op == 'mul': r = mul(go(A[0]), go(A[1]))
        elif op == 'mod': r = mod(go(A[0]), A[1])
        elif op == 'div': r = fdiv(go(A[0]), A[1])
        elif op == 'eq0': r = eq0(go(A[0]))
        elif op == 'lt0': r = lt0(go(A[0]))
        elif op == 'not': r = not_(go(A[0]))
        elif op == 'land': r = land(go(A[0]), go(A[1]))
        elif op == 'ite':
            cc = go(A[0])
            r = (go(A[1]) if cc else go(A[2])) if isinstance(cc, int) else ite(cc, go(A[1]), go(A[2]))
        elif op == 'tab': 
            i = go(A[0]); r = tab(i, A[1]) if not isinstance(i, int) or 0 <= i < len(A[1]) else 0
        elif op == 'inv': r = inv(go(A[0]), A[1])
        elif op == 'limb': r = limb(go(A[0]), A[1])
        else: r = x
        memo[x] = r
        return r
    _subst_busy[0] = 1
    try: return go(e)
    except OverflowError: return None
    finally: _subst_busy[0] = 0

def vanishes(b, t):
    """b == 0 whenever t == 0 (syntactic, sound)"""
    if b is t: return True
    if isinstance(b, int): return b == 0
    op = b.op
    if op == 'mul': return vanishes(b.args[0], t) or vanishes(b.args[1], t)
    if op == 'mod':
        if vanishes(b.args[0], t): return True
        if t.op == 'mod' and t.args[1] == b.args[1]:
            p = polymod(b.args[0], b.args[1]); q = polymod(t.args[0], t.args[1])
            if p is not None and q is not None and len(q) == 1 and () not in q:
                k = next(iter(q))
                return all(_divides(k, kk) for kk in p)
        if t.op != 'mod' and b.args[1] >= BIG:
            p = polymod(b.args[0], b.args[1])
            if p: return all(t in k for k in p)
        return False
    if op == 'lin': return b.args[0] == 0 and all(vanishes(u, t) for u, c in b.args[1])
    if op == 'div': return vanishes(b.args[0], t)
    if op == 'limb':
        if b.args[0] is t: return True
        return b.args[0].lo >= 0 and t.op == 'div' and t.args[0] is b.args[0] and t.args[1] <= 1 << (64 * b.args[1])
    return False

def _divides(k, kk):
    kk = list(kk)
    for a in k:
        if a in kk: kk.remove(a)
        else: return False
    return True

# -------------------------------------------------------------------- bitwise
def and_(a, b):
    if isinstance(a, int):
        if isinstance(b, int): return a & b
        a, b = b, a
    if isinstance(b, int):
        if b == 0: return 0
        if b & (b + 1) == 0: return mod(a, b + 1)
        h = (1 << max(a.hi.bit_length(), 1)) - 1
        if b & h == h: return a
        b &= h
        if b == 0: return 0
        tz = (b & -b).bit_length() - 1
        if tz:
            return scale(and_(fdiv(a, 1 << tz), b >> tz), 1 << tz)
        if b & (b + 1) == 0: return mod(a, b + 1)
        return mk('and', (a, b), 0, min(a.hi, b))
    if a is b: return a
    if isbool(a) and isbool(b): return land(a, b)
    if isbool(a): return land(a, mod(b, 2))
    if isbool(b): return land(b, mod(a, 2))
    if a.uid > b.uid: a, b = b, a
    return mk('and', (a, b), 0, min(a.hi, b.hi))

def or_(a, b):
    if isinstance(a, int):
        if isinstance(b, int): return a | b
        a, b = b, a
    if isinstance(b, int):
        if b == 0: return a
    elif a is b: return a
    elif isbool(a) and isbool(b): return lor(a, b)
    # disjoint bit ranges -> addition
    if _disjoint(a, b) or _disjoint(b, a): return add(a, b)
    if isinstance(b, E) and a.uid > b.uid: a, b = b, a
    n = max(rng(a)[1].bit_length(), rng(b)[1].bit_length())
    return mk('or', (a, b), max(rng(a)[0], rng(b)[0]), (1 << n) - 1)

def tz(x):
    """guaranteed number of trailing zero bits"""
    if isinstance(x, int): return (x & -x).bit_length() - 1 if x else 1 << 30
    if x.op == 'lin':
        r = tz(x.args[0])
        for t, c in x.args[1]: r = min(r, tz(c) + tz(t))
        return r
    if x.op == 'ite': return min(tz(x.args[1]), tz(x.args[2]))
    return 0

def _disjoint(lo, hi):
    return rng(lo)[1] < (1 << min(tz(hi), 4096)) and rng(lo)[0] >= 0

def xor_(a, b):
    if isinstance(a, int):
        if isinstance(b, int): return a ^ b
        a, b = b, a
    if isinstance(b, int):
        if b == 0: return a
        if isbool(a) and b == 1: return not_(a)
        n = a.hi.bit_length()
        if b >= (1 << n):
            lowm = b & ((1 << n) - 1)
            return add(xor_(a, lowm), b - lowm)
        if b == (1 << n) - 1: return sub(b, a)
    elif a is b: return 0
    if isinstance(b, E) and a.uid > b.uid: a, b = b, a
    n = max(rng(a)[1].bit_length(), rng(b)[1].bit_length())
    return mk('xor', (a, b), 0, (1 << n) - 1)

def shl_exact(a, s):
    if isinstance(s, int): return scale(a, 1 << s)
    assert s.hi <= 4096
    p = tab(s, tuple(1 << i for i in range(s.hi + 1)))
    return mul(a, p)

def lshr(a, s):
    if isinstance(s, int): return fdiv(a, 1 << s)
    r = 0
    for i in range(max(s.lo, 0), s.hi + 1):
        r = ite(eq(s, i), fdiv(a, 1 << i), r)
    return r

def tab(x, vals):
    if isinstance(x, int): return vals[x]
    if x.lo < 0 or x.hi >= len(vals): raise ValueError('tab range %r' % (x,))
    vals = (vals[x.lo],) * x.lo + tuple(vals[x.lo:x.hi + 1])   # entries below lo are unreachable
    sub_ = vals[x.lo:]
    if all(v == sub_[0] for v in sub_): return sub_[0]
    if x.op == 'ite' and isinstance(x.args[1], int) and isinstance(x.args[2], int):
        return ite(x.args[0], vals[x.args[1]], vals[x.args[2]])
    if all(v == i for i, v in enumerate(vals)): return x
    if x.op == 'tab':
        return tab(x.args[0], tuple(vals[i] for i in x.args[1]))
    if isbool(x): return ite(x, vals[1], vals[0])
    return mk('tab', (x, vals), min(sub_), max(sub_))

def inv(x, p):
    """modular inverse for prime p, 0 for x = 0 mod p"""
    x = mod(x, p)
    if isinstance(x, int): return pow(x, -1, p) if x else 0
    if p <= 4096:
        return tab(x, (0,) + tuple(pow(i, -1, p) for i in range(1, p)))
    if x.op == 'inv' and x.args[1] == p: return x.args[0]
    _inv_used[0] = 1
    if x.op == 'mod' and p >= BIG:
        q = polymod(x, p)
        if q is not None and len(q) == 1:
            (k, v), = q.items()
            t = pow(v, -1, p)
            for u in k: t = mul(t, inv(u, p))
            return mod(t, p)
    return mk('inv', (x, p), 1 if x.lo > 0 else 0, p - 1)

def udiv(a, b):
    """floor division of non-negatives, symbolic divisor (b != 0 assumed)"""
    if isinstance(b, int): return fdiv(a, b)
    return mk('udiv', (a, b), 0, rng(a)[1])

def umod(a, b):
    if isinstance(b, int): return mod(a, b)
    return mk('umod', (a, b), 0, min(rng(a)[1], b.hi - 1 if b.hi > 0 else 0))

def min_(a, b): return ite(lt(a, b), a, b)
def max_(a, b): return ite(lt(a, b), b, a)
def abs_(a): return ite(lt(a, 0), neg(a), a)

def signed(x, w):
    """unsigned w-bit value -> signed integer"""
    h = 1 << (w - 1)
    if isinstance(x, int): return x - (1 << w) if x >= h else x
    if x.hi < h: return x
    if x.lo >= h: return add(x, -(1 << w))
    # mod(y,2^w) with y already in signed range
    if x.op == 'mod' and x.args[1] == (1 << w):
        y = x.args[0]
        if y.lo >= -h and y.hi < h: return y
    if x.op == 'ite':
        if isinstance(x.args[1], int) or isinstance(x.args[2], int):
            return ite(x.args[0], signed(x.args[1], w), signed(x.args[2], w))
    return ite(lt(x, h), x, add(x, -(1 << w)))

def wrap(x, w): return mod(x, 1 << w)

# ----------------------------------------------------------------- evaluation
def deps(e):
    op = e.op
    if op == 'var': return ()
    if op == 'lin': return [t for t, c in e.args[1]]
    if op == 'tab': return (e.args[0],)
    return [a for a in e.args if isinstance(a, E)]

def evaluate(e, model, memo):
    """value of e; model: name -> int (missing -> lo)"""
    if isinstance(e, int): return e
    r = memo.get(e)
    if r is not None: return r
    stack = [e]
    while stack:
        x = stack[-1]
        if x in memo: stack.pop(); continue
        op = x.op
        if op == 'ite':
            c = x.args[0]
            if c not in memo: stack.append(c); continue
            a = x.args[1] if memo[c] else x.args[2]
            if isinstance(a, int): memo[x] = a; stack.pop(); continue
            if a in memo: memo[x] = memo[a]; stack.pop(); continue
            stack.append(a); continue
        td = [d for d in deps(x) if d not in memo]
        if td: stack.extend(td); continue
        stack.pop()
        g = lambda a: a if isinstance(a, int) else memo[a]
        A = x.args
        if op == 'var': v = model.get(A[0], x.lo if x.lo > 0 or x.hi < 0 else 0)
        elif op == 'lin':
            v = A[0]
            for t, c in A[1]: v += c * memo[t]
        elif op == 'mul': v = memo[A[0]] * memo[A[1]]
        elif op == 'mod': v = memo[A[0]] % A[1]
        elif op == 'div': v = memo[A[0]] // A[1]
        elif op == 'limb': v = (memo[A[0]] >> (64 * A[1])) & ((1 << 64) - 1)
        elif op == 'eq0': v = 1 if memo[A[0]] == 0 else 0
        elif op == 'lt0': v = 1 if memo[A[0]] < 0 else 0
        elif op == 'not': v = 1 - memo[A[0]]
        elif op == 'land': v = memo[A[0]] & memo[A[1]]
        elif op == 'and': v = g(A[0]) & g(A[1])
        elif op == 'or': v = g(A[0]) | g(A[1])
        elif op == 'xor': v = g(A[0]) ^ g(A[1])
        elif op == 'tab': v = A[1][memo[A[0]]]
        elif op == 'inv': z = memo[A[0]] % A[1]; v = pow(z, -1, A[1]) if z else 0
        elif op == 'pow': v = pow(memo[A[0]], A[1], A[2])
        elif op == 'udiv': b = g(A[1]); v = g(A[0]) // b if b else 0
        elif op == 'umod': b = g(A[1]); v = g(A[0]) % b if b else 0
        else: raise Exception('eval ' + op)
        memo[x] = v
    return memo[e]

def cone_vars(es):
    seen = set(); out = {}
    st = [e for e in es if isinstance(e, E)]
    while st:
        e = st.pop()
        if e in seen: continue
        seen.add(e)
        if e.op == 'var': out[e.args[0]] = e
        st.extend(deps(e))
    return out, len(seen)
