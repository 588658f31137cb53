"""Symbolic executor for dumped LLVM IR (see irdump.cpp).

Values in registers/memory: int | E (symbolic) | Ptr | Fn | float | list
(aggregates) | UNDEF | Z (an mpz value occupying a 16 byte cell)."""
import json, sys, random, time
from expr import *
import expr as X
import solver as S

sys.setrecursionlimit(20000)

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return '&%s+%s' % (s.obj, s.off)

class Fn:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return '@' + s.name

class Z:
    """mpz_t contents: exact integer value"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v

class MU:
    """memory content defined only when g holds (value v); resolved at loads"""
    __slots__ = ('g', 'v')
    def __init__(s, g, v): s.g = g; s.v = v

class _U:
    def __repr__(s): return 'UNDEF'
UNDEF = _U()

class PathEnd(Exception):
    """this path stops here (exit, abort, infeasible)"""

class Fork(Exception):
    def __init__(s, cond): s.cond = cond

class VErr(Exception):
    """memory/UB error on the current path"""
    def __init__(s, kind, msg): s.kind = kind; s.msg = msg; Exception.__init__(s, kind + ': ' + msg)

class Unsupported(Exception): pass

class Obj:
    __slots__ = ('size', 'cells', 'base', 'kind', 'owner', 'ro', 'name', 'fg')
    def __init__(s, size, base, kind, owner, name):
        s.size = size; s.base = base; s.kind = kind; s.owner = owner; s.name = name
        s.cells = {}; s.ro = False; s.fg = None

class Frame:
    __slots__ = ('fn', 'bi', 'ip', 'regs', 'dst', 'allocas', 'va', 'nd')
    def copy(s):
        f = Frame(); f.fn = s.fn; f.bi = s.bi; f.ip = s.ip; f.regs = s.regs[:]; f.dst = s.dst
        f.allocas = s.allocas[:]; f.va = s.va; f.nd = s.nd
        return f

class Model:
    __slots__ = ('d', 'memo')
    def __init__(s, d): s.d = d; s.memo = {}
    def ev(s, e): return evaluate(e, s.d, s.memo)

class State:
    __slots__ = ('frames', 'mem', 'pc', 'known', 'models', 'token', 'nlive', 'files', 'ctr', 'flags', 'fmods')
    def fork(s):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem)
        n.pc = s.pc[:]; n.known = dict(s.known); n.models = s.models[:]
        n.nlive = s.nlive; n.files = dict(s.files); n.ctr = dict(s.ctr); n.flags = dict(s.flags)
        s.token = object(); n.token = object()
        return n

_oid = [100]

MASK = {w: (1 << w) - 1 for w in range(1, 257)}

class Func: pass

class Interp:
    def __init__(self, mods, opts=None):
        self.o = dict(timeout=60000, maxstates=4000, maxsteps=400_000_000, branch_timeout=30000, seed=1)
        if opts: self.o.update(opts)
        self.funcs = {}
        self.gl = {}
        self.raw = {}
        self.intr = {}
        self.violations = []
        self.undecided = []
        self.covers = {}
        self.asserts = 0; self.assert_proved = 0; self.assert_concrete = 0
        self.assumes = 0
        self.steps = 0
        self.paths = 0; self.ended = {}
        self.forks = 0; self.lazy = 0; self.merges = 0; self.nomerge = 0
        self.used = {}
        self.ginit = []
        self.vars = {}; self.consts_ = {}; self.args = []; self.fixed = None
        self.why = {}
        self.deadline = None
        self.rnd = random.Random(self.o['seed'])
        for m in mods: self.addmod(m)
        import models
        models.install(self)

    # ------------------------------------------------------------ module load
    def addmod(self, m):
        al = m.get('aliases', {})
        self.aliases = al
        for n, g in m['globals'].items():
            if n in self.gl and not g[2]: continue
            _oid[0] += 1
            self.gl[n] = _oid[0]
            self.ginit.append((n, _oid[0], g))
        self.raw.update(m['funcs'])

    def gptr(self, name):
        o = self.gl.get(name)
        if o is None: raise Unsupported('global ' + name)
        return Ptr(o, 0)

    def const(self, o):
        k = o[0]
        if k == 1: return int(o[1])
        if k == 2: return self.gptr(o[1])
        if k == 3: return Fn(o[1])
        if k == 4:
            return UNDEF
        if k == 5: return float(o[1])
        if k == 6: return [self.const(x) for x in o[1]]
        if k == 7:
            b = self.const(o[1])
            if isinstance(b, Ptr): return Ptr(b.obj, b.off + o[2])
            return (b + o[2]) & MASK[64]
        if k == 8: return self.const(o[1])
        raise Unsupported('const %r' % (o,))

    def newstate(self):
        st = State()
        st.frames = []; st.mem = {}; st.pc = []; st.known = {}; st.models = [Model({})]
        st.token = object(); st.nlive = 0; st.files = {}; st.ctr = {}; st.flags = {}
        for n, oid, g in self.ginit:
            ob = Obj(g[0], 'Z', 'global', st.token, n)
            st.mem[oid] = ob
            bs = None
            for off, size, kind, val in g[3]:
                if kind == 's':
                    b = val.encode('latin1')
                    for i, c in enumerate(b): ob.cells[off + i] = (1, c)
                else:
                    v = self.const(val)
                    if v is not UNDEF: ob.cells[off] = (size, v)
            # compact all-byte objects into base
            if ob.cells and all(s == 1 for s, v in ob.cells.values()):
                b = bytearray(g[0])
                for i, (s, v) in ob.cells.items(): b[i] = v
                ob.base = bytes(b); ob.cells = {}
            if g[1]: ob.ro = True
        import models
        models.init_state(self, st)
        return st

    # ------------------------------------------------------------- memory
    def alloc(self, st, size, kind, name, zero=False):
        _oid[0] += 1
        i = _oid[0]
        st.mem[i] = Obj(size, 'Z' if zero else None, kind, st.token, name)
        return Ptr(i, 0)

    def wobj(self, st, oid):
        ob = st.mem[oid]
        if ob.owner is not st.token:
            n = Obj(ob.size, ob.base, ob.kind, st.token, ob.name)
            n.cells = dict(ob.cells); n.ro = ob.ro; n.fg = ob.fg
            st.mem[oid] = n
            return n
        return ob

    def chk(self, st, p, size, write=False):
        """validate access; returns list of concrete offsets or single int"""
        if p.__class__ is not Ptr:
            if p.__class__ is int:
                raise VErr('null-deref' if p < 4096 else 'wild-pointer', 'access of %d bytes at %#x' % (size, p))
            if p is UNDEF: raise VErr('uninit', 'dereference of uninitialised pointer')
            raise VErr('wild-pointer', 'access through %r' % (p,))
        ob = st.mem.get(p.obj)
        if ob is None: raise VErr('use-after-free', 'access of %d bytes in dead object #%d' % (size, p.obj))
        off = p.off
        if off.__class__ is int:
            if off < 0 or off + size > ob.size:
                raise VErr('out-of-bounds', 'offset %d size %d in %s object %s of %d bytes' % (off, size, ob.kind, ob.name, ob.size))
        if write and ob.ro: raise VErr('write-to-const', str(ob.name))
        return ob

    def offsets(self, st, off, size, ob):
        """symbolic offset -> concrete candidates (assumes in-bounds after check)"""
        inb = land(le(0, off), le(off, ob.size - size))
        if not (inb.__class__ is int and inb):
            t, f = self.feasible(st, inb)
            if f:
                self.candidate(st, not_(inb), 'out-of-bounds', 'symbolic offset, size %d in %s object %s of %d bytes' % (size, ob.kind, ob.name, ob.size))
                self.constrain(st, inb)
        lo, hi = max(off.lo, 0), min(off.hi, ob.size - size)
        if off.fv is not None:
            return sorted(set(o for o in X._vals(off)[off.fv.lo:] if lo <= o <= hi))
        step = 1; base = lo
        if off.op == 'lin':
            g = 0
            for t, c in off.args[1]: g = math_gcd(g, c)
            step = abs(g); base = off.args[0] % step
            lo = lo + ((base - lo) % step)
        c = list(range(lo, hi + 1, step))
        if len(c) > 2048: raise Unsupported('symbolic offset with %d candidates' % len(c))
        return c

    def load(self, st, p, size):
        if p.__class__ is Ptr:
            ob = st.mem.get(p.obj)
            if ob is not None:
                c = ob.cells.get(p.off) if p.off.__class__ is int else None
                if c is not None and c[0] == size:
                    v = c[1]
                    if v.__class__ is MU: v = self.resolve(st, v)
                    while v.__class__ is E and v.op == 'ite':
                        k = st.known.get(v.args[0])
                        if k is None: break
                        v = v.args[1] if k else v.args[2]
                    if v.__class__ is E and v.op == 'limb':
                        w = v.args[0]
                        while w.__class__ is E and w.op == 'ite':
                            k = st.known.get(w.args[0])
                            if k is None: break
                            w = w.args[1] if k else w.args[2]
                        if w is not v.args[0]: v = X.limb(w, v.args[1])
                    return v
        ob = self.chk(st, p, size)
        off = p.off
        if off.__class__ is not int:
            cand = self.offsets(st, off, size, ob)
            r = None
            for o in cand:
                v = self.load(st, Ptr(p.obj, o), size)
                if r is None: r = v
                else: r = self.mergeval(eq(off, o), v, r)
            return r
        return self.load_slow(st, ob, p.obj, off, size)

    def resolve(self, st, v):
        return v.v if self.decide(st, v.g) else UNDEF

    def cover_cell(self, ob, pos):
        cells = ob.cells
        c = cells.get(pos)
        if c is not None: return pos, c
        for d in range(1, 16):
            c = cells.get(pos - d)
            if c is not None:
                if c[0] > d: return pos - d, c
                # an earlier, larger cell cannot overlap this one
                if d >= 1 and c[0] + (pos - d) <= pos and c[0] < 16:
                    # cells never overlap, so anything before it ends before it
                    return None, None
        return None, None

    def byte(self, st, ob, oid, pos):
        s, c = self.cover_cell(ob, pos)
        if c is None:
            b = ob.base
            if b is None: return UNDEF
            if b == 'Z': return 0
            return b[pos]
        size, v = c
        if v.__class__ is MU and size > 1:
            b = self.byteof(v.v, pos - s)
            return UNDEF if b.__class__ is tuple else MU(v.g, b)
        if size == 1: return v
        return self.byteof(v, pos - s)

    def byteof(self, v, k):
        if v.__class__ is int: return (v >> (8 * k)) & 255
        if v.__class__ is E: return mod(fdiv(v, 1 << (8 * k)), 256)
        if v is UNDEF: return UNDEF
        return (v, k)

    def load_slow(self, st, ob, oid, off, size):
        s, c = self.cover_cell(ob, off)
        if c is not None and c[1].__class__ is Z:
            import models
            return models.mpz_field(self, st, oid, s, off - s, size)
        if c is None and size <= 8 and ob.base.__class__ is bytes and not ob.cells:
            return int.from_bytes(ob.base[off:off + size], 'little')
        if c is not None and c[1].__class__ is MU and c[1].v.__class__ is Z:
            if self.decide(st, c[1].g):
                self.wobj(st, oid).cells[s] = (16, c[1].v)
                return self.load_slow(st, st.mem[oid], oid, off, size)
            return UNDEF
        bs = [self.byte(st, ob, oid, off + i) for i in range(size)]
        bs = [self.resolve(st, b) if b.__class__ is MU else b for b in bs]
        return self.join_bytes(bs)

    def join_bytes(self, bs):
        if all(b.__class__ is int for b in bs): return int.from_bytes(bytes(bs), 'little')
        if any(b is UNDEF for b in bs): return UNDEF
        if any(b.__class__ is tuple for b in bs):
            v = bs[0][0] if bs[0].__class__ is tuple else None
            if len(bs) == 8 and v is not None and all(b.__class__ is tuple and b[0] is v and b[1] == i for i, b in enumerate(bs)): return v
            raise Unsupported('partial pointer load %r' % (bs,))
        return lincomb([(b, 1 << (8 * i)) for i, b in enumerate(bs)])

    def store(self, st, p, size, v):
        if p.__class__ is Ptr and p.off.__class__ is int:
            ob = st.mem.get(p.obj)
            if ob is not None:
                off = p.off
                c = ob.cells.get(off)
                if c is not None and c[0] == size and not ob.ro:
                    if ob.owner is not st.token: ob = self.wobj(st, p.obj)
                    ob.cells[off] = (size, v)
                    return
        ob = self.chk(st, p, size, True)
        off = p.off
        if off.__class__ is not int:
            cand = self.offsets(st, off, size, ob)
            for o in cand:
                q = Ptr(p.obj, o)
                old = self.load(st, q, size)
                g = eq(off, o)
                if g.__class__ is int and not g: continue
                self.store(st, q, size, self.mergeval(g, v, old if old is not UNDEF else 0))
            return
        ob = self.wobj(st, p.obj)
        self.clear_range(st, ob, p.obj, off, size)
        ob.cells[off] = (size, v)

    def clear_range(self, st, ob, oid, off, size):
        cells = ob.cells
        if not cells: return
        # left straddler
        s, c = self.cover_cell(ob, off)
        if c is not None and s < off: self.split(st, ob, oid, s)
        end = off + size
        s, c = self.cover_cell(ob, end - 1)
        if c is not None and s + c[0] > end: self.split(st, ob, oid, s)
        if size <= 32 or size < len(cells):
            for i in range(off, end):
                if i in cells: del cells[i]
        else:
            for i in [k for k in cells if off <= k < end]: del cells[i]

    def split(self, st, ob, oid, s):
        size, v = ob.cells[s]
        if v.__class__ is MU and v.v.__class__ is Z:
            if self.decide(st, v.g): v = v.v; ob.cells[s] = (16, v)
            else: v = UNDEF
        if v.__class__ is Z:
            import models
            models.mpz_rawify(self, st, oid, s)
            return
        bs = [self.byte(st, ob, oid, s + i) for i in range(size)]
        del ob.cells[s]
        for i, b in enumerate(bs): ob.cells[s + i] = (1, b)

    def memset(self, st, p, val, n):
        if n == 0: return
        self.chk(st, p, n, True)
        if p.off.__class__ is not int: raise Unsupported('memset sym offset')
        ob = self.wobj(st, p.obj)
        if val.__class__ is int and val == 0 and n >= 16:
            if p.off == 0 and n == ob.size:
                ob.cells = {}; ob.base = 'Z'; return
            self.clear_range(st, ob, p.obj, p.off, n)
            i = p.off; e = p.off + n
            if ob.base == 'Z': return
            while e - i >= 8: ob.cells[i] = (8, 0); i += 8
            while i < e: ob.cells[i] = (1, 0); i += 1
            return
        self.clear_range(st, ob, p.obj, p.off, n)
        if val.__class__ is int or val.__class__ is E:
            v = mod(val, 256)
            for i in range(n): ob.cells[p.off + i] = (1, v)
        else:
            for i in range(n): ob.cells[p.off + i] = (1, UNDEF)

    def memcpy(self, st, d, s, n):
        if n == 0: return
        so = self.chk(st, s, n)
        self.chk(st, d, n, True)
        if s.off.__class__ is not int or d.off.__class__ is not int:
            bs = [self.load(st, Ptr(s.obj, add(s.off, i)), 1) for i in range(n)]
            for i, b in enumerate(bs): self.store(st, Ptr(d.obj, add(d.off, i)), 1, b)
            return
        a = s.off; e = a + n
        # split straddlers
        sp, c = self.cover_cell(so, a)
        if c is not None and sp < a:
            so = self.wobj(st, s.obj); self.split(st, so, s.obj, sp)
        sp, c = self.cover_cell(so, e - 1)
        if c is not None and sp + c[0] > e:
            so = self.wobj(st, s.obj); self.split(st, so, s.obj, sp)
        if n < len(so.cells): items = [(k, so.cells[k]) for k in range(a, e) if k in so.cells]
        else: items = sorted((k, v) for k, v in so.cells.items() if a <= k < e) if False else [(k, v) for k, v in so.cells.items() if a <= k < e]
        base = so.base
        do = self.wobj(st, d.obj)
        self.clear_range(st, do, d.obj, d.off, n)
        if base is not None and not (base == 'Z' and do.base == 'Z') or (base is None and do.base is not None):
            cov = set()
            for k, (sz, v) in items: cov.update(range(k, k + sz))
            for k in range(a, e):
                if k not in cov:
                    v = UNDEF if base is None else 0 if base == 'Z' else base[k]
                    do.cells[d.off + k - a] = (1, v)
        for k, v in items: do.cells[d.off + k - a] = v
        if n >= 16 and n % 8 == 0 and n <= 512 and len(items) == n // 8 and any(v[1].__class__ is E and (v[1].op == 'div' or v[1].op == 'limb') for k, v in items):
            cs = [do.cells.get(d.off + i) for i in range(0, n, 8)]
            if all(c is not None and c[0] == 8 and (c[1].__class__ is E or c[1].__class__ is int) for c in cs):
                v = lincomb([(c[1], 1 << (64 * i)) for i, c in enumerate(cs)])
                w = X.residue(v)
                if w is not v:
                    for i in range(n // 8): do.cells[d.off + 8 * i] = (8, X.limb(w, i))

    def cstr(self, st, p, maxn=100000):
        """bytes of a C string (list of int/E) up to NUL; forks on symbolic NUL"""
        out = []
        i = 0
        if p.__class__ is not Ptr: self.chk(st, p, 1)
        while True:
            b = self.load(st, Ptr(p.obj, add(p.off, i)), 1)
            if b is UNDEF: raise VErr('uninit', 'uninitialised string byte')
            if b.__class__ is int:
                if b == 0: return out
            else:
                if self.decide(st, eq(b, 0)): return out
            out.append(b); i += 1
            if i > maxn: raise Unsupported('long string')

    def pystr(self, st, p):
        b = self.cstr(st, p)
        if any(x.__class__ is not int for x in b): raise Unsupported('symbolic string as name')
        return bytes(b).decode('latin1')

    # ------------------------------------------------------------- solving
    def feasible(self, st, c):
        """(can be true, can be false) under the path condition"""
        if c.__class__ is int: return (bool(c), not c)
        k = st.known.get(c)
        if k is not None: return (k, not k)
        if c.op == 'not':
            a, b = self.feasible(st, c.args[0]); return b, a
        t = f = False
        for m in st.models:
            if m.ev(c): t = True
            else: f = True
            if t and f: S.Stats.witness += 1; return True, True
        if c.fv is not None:
            # a table over a finite-index variable: intersect with the tables of the path condition
            al = [1] * (c.fv.hi + 1); pure = True
            for x in st.pc:
                if x.fv is c.fv: al = [a & b for a, b in zip(al, X._vals(x))]
                else: pure = False
            lo = c.fv.lo
            if not t and not any(a and b for a, b in zip(al[lo:], X._vals(c)[lo:])):
                st.known[c] = False; return False, True
            if not f and not any(a and not b for a, b in zip(al[lo:], X._vals(c)[lo:])):
                st.known[c] = True; return True, False
            if pure: return True, True
        if hard(c):
            # deciding this query is expensive: follow both branches; infeasible
            # ones are discharged where they would matter (errors, assertions)
            self.lazy += 1
            return True, True
        if not t:
            r, mo = S.solve(st.pc + [c], self.o['branch_timeout'])
            if r == 'sat': st.models = st.models + [Model(mo)]; t = True
            elif r == 'unknown': t = True; self.note('branch-unknown')
        if not f:
            r, mo = S.solve(st.pc + [not_(c)], self.o['branch_timeout'])
            if r == 'sat': st.models = st.models + [Model(mo)]; f = True
            elif r == 'unknown': f = True; self.note('branch-unknown')
        if t and not f: st.known[c] = True
        if f and not t: st.known[c] = False
        if not t and not f: raise PathEnd('infeasible')
        return t, f

    def note(self, k): self.ended[k] = self.ended.get(k, 0) + 1

    def decide(self, st, c):
        """concrete truth value; raises Fork when both are possible"""
        if c.__class__ is int: return bool(c)
        t, f = self.feasible(st, c)
        if t and f: raise Fork(c)
        return t

    def constrain(self, st, c):
        if c.__class__ is int:
            if not c: raise PathEnd('infeasible')
            return
        if c.op == 'eq0':
            b = X._bits0(c)
            if b is not None:
                z = c
                for x in st.pc:
                    if x.op == 'eq0' or x.op == 'lt0':
                        bx = X._bits0(x)
                        if bx is not None and bx[0] is b[0]:
                            z = X.land(z, x)
                            if z.__class__ is int: break
                if z.__class__ is int:
                    if not z: raise PathEnd('infeasible')
                elif z is not c and z.op != 'land': st.pc.append(c); st.known[c] = True; c = z
        st.pc.append(c)
        st.known[c] = True
        if c.op == 'land':
            for a in c.args: st.known[a] = True
        if c.op == 'not': st.known[c.args[0]] = False
        ms = [m for m in st.models if m.ev(c)]
        if not ms and c.fv is not None:
            v = c.fv; al = [1] * (v.hi + 1)
            for x in st.pc:
                if x.fv is v: al = [a & b for a, b in zip(al, X._vals(x))]
            ks = [k for k in range(v.lo, v.hi + 1) if al[k]]
            if not ks: raise PathEnd('infeasible')
            base = st.models[0].d if st.models else {}
            for k in ks[:3]:
                m = Model(dict(base, **{v.args[0]: k}))
                if all(m.ev(x) for x in st.pc): ms.append(m); break
        if not ms:
            # try random models before the solver
            for _ in range(40):
                m = Model(S.randmodel(self.vars, self.rnd))
                if all(m.ev(x) for x in st.pc): ms.append(m); break
        if not ms and not hard(c):
            r, mo = S.solve(st.pc, self.o['timeout'])
            if r == 'unsat': raise PathEnd('infeasible')
            if r == 'sat': ms = [Model(mo)]
        st.models = ms

    def concretize(self, st, x, lim=70000):
        """pin a symbolic value, forking over its possible values"""
        if x.__class__ is int: return x
        if x is UNDEF: raise VErr('uninit', 'use of uninitialised value')
        if x.__class__ is not E: return x
        for m in st.models:
            v = m.ev(x); break
        else:
            r, mo = S.solve(st.pc, self.o['timeout'])
            if r != 'sat': raise PathEnd('infeasible')
            st.models = [Model(mo)]; v = st.models[0].ev(x)
        self.decide(st, eq(x, v))   # raises Fork unless forced
        return v

    def candidate(self, st, cond, kind, msg):
        """record a violation candidate: path condition and cond hold"""
        key = (kind, msg, tuple(f.fn.name for f in st.frames[-6:]))
        n = self.why.get(key, 0); self.why[key] = n + 1
        if n >= 2: return
        mo = None
        for m in st.models:
            if cond.__class__ is int or m.ev(cond): mo = m.d; break
        if mo is None:
            r, mo = S.solve(st.pc + [cond], self.o['timeout'])
            if r == 'unsat': self.why[key] = n; return
            if r == 'unknown':
                self.undecided.append((kind, msg)); return
        full = {}
        mm = Model(mo)
        for nme, v in self.vars.items(): full[nme] = mm.ev(v)
        self.violations.append(dict(kind=kind, msg=msg, model=full, stack=[f.fn.name for f in st.frames]))

    def vassert(self, st, c, msg):
        self.asserts += 1
        if c is UNDEF: raise VErr('uninit', 'assertion on uninitialised value: ' + msg)
        if c.__class__ is Ptr: c = 1
        c = ne(c, 0) if not isbool(c) or c.__class__ is int else c
        if c.__class__ is int:
            self.assert_concrete += 1
            if not c:
                self.candidate(st, 1, 'assert', msg)
            return
        k = st.known.get(c)
        if k: self.assert_proved += 1; return
        bad = None
        for m in st.models:
            if not m.ev(c): bad = m; break
        if bad is None:
            # cheap falsification attempts before the solver
            for _ in range(24):
                m = Model(S.randmodel(self.vars, self.rnd))
                if all(m.ev(x) for x in st.pc):
                    if len(st.models) < 24: st.models = st.models + [m]
                    if not m.ev(c): bad = m; S.Stats.falsified += 1; break
        if bad is None:
            r, mo = S.solve(st.pc + [not_(c)], self.o['timeout'])
            if r == 'unsat':
                self.assert_proved += 1
                st.known[c] = True
                return
            if r == 'unknown':
                self.undecided.append(('assert', msg)); return
            bad = Model(mo)
        st2m = st.models
        st.models = [bad]
        self.candidate(st, not_(c), 'assert', msg)
        st.models = [m for m in st2m if m is not bad]
        # continue on the states where it holds
        self.constrain(st, c)

    # ------------------------------------------------------------- merging
    def mergeval(self, g, a, b):
        """g ? a : b, or NoMerge"""
        if a is b: return a
        ca = a.__class__; cb = b.__class__
        if (ca is int or ca is E) and (cb is int or cb is E): return ite(g, a, b)
        if ca is Ptr and cb is Ptr:
            if a.obj == b.obj:
                if a.off.__class__ is int and b.off.__class__ is int and a.off == b.off: return a
                o = ite(g, a.off, b.off)
                return Ptr(a.obj, o)
            raise NoMerge('ptr')
        if ca is Fn and cb is Fn and a.name == b.name: return a
        if ca is Z and cb is Z:
            if a.v is b.v: return a
            return Z(ite(g, a.v, b.v))
        if a is UNDEF: return b.v if cb is MU else b
        if b is UNDEF: return a.v if ca is MU else a
        if ca is list and cb is list and len(a) == len(b): return [self.mergeval(g, x, y) for x, y in zip(a, b)]
        if ca is tuple and cb is tuple and a[1] == b[1] and a[0] is b[0]: return a
        if ca is float and cb is float and a == b: return a
        raise NoMerge('kind')

    def mergemem(self, g, a, b):
        if a is b: return a
        ca = a.__class__; cb = b.__class__
        if ca is MU or cb is MU or a is UNDEF or b is UNDEF:
            if ca is tuple or cb is tuple: return UNDEF
            ga, va = (a.g, a.v) if ca is MU else (0, None) if a is UNDEF else (1, a)
            gb, vb = (b.g, b.v) if cb is MU else (0, None) if b is UNDEF else (1, b)
            if va is None: return MU(land(not_(g), gb), vb)
            if vb is None: return MU(land(g, ga), va)
            d = ite(g, ga, gb)
            v = self.mergeval(g, va, vb)
            return v if d.__class__ is int and d else MU(d, v)
        return self.mergeval(g, a, b)

    def merge(self, a, b, npc):
        """merge states a and b that share path-condition prefix npc; returns state or None"""
        if len(a.frames) != len(b.frames): return None
        if a.files != b.files or a.ctr != b.ctr or a.flags != b.flags: self.nomerge += 1; return None
        ga = 1
        for c in a.pc[npc:]: ga = land(ga, c)
        gb = 1
        for c in b.pc[npc:]: gb = land(gb, c)
        if ga.__class__ is int and ga: return None
        try:
            newregs = []
            n = len(a.frames)
            for i in range(n):
                fa, fb = a.frames[i], b.frames[i]
                if fa.fn is not fb.fn or fa.bi != fb.bi or fa.ip != fb.ip or fa.nd != fb.nd: return None
                ra, rb = fa.regs, fb.regs
                live = self.live_at(fa)
                pend = a.frames[i + 1].dst if i < n - 1 else -1
                nr = ra[:]
                for j in range(len(ra)):
                    x = ra[j]; y = rb[j]
                    if x is y: continue
                    if j not in live or j == pend:
                        nr[j] = None; continue
                    if x.__class__ is int and y.__class__ is int and x == y: continue
                    nr[j] = self.mergeval(ga, x, y)
                newregs.append(nr)
            ma, mb = a.mem, b.mem
            changes = {}
            self.valueify(a, b)
            for k, oa in list(ma.items()):
                ob = mb.get(k)
                if ob is oa: continue
                if ob is None:
                    if k in self._basemem(a, b): raise NoMerge('freed')
                    continue
                changes[k] = self.mergeobj(ga, a, b, k, oa, ob)
            for k, ob in mb.items():
                if k not in ma:
                    if k <= self._mark: raise NoMerge('freed')
                    changes[k] = ob
            nl = a.nlive if a.nlive is b.nlive or (a.nlive.__class__ is int and a.nlive == b.nlive) else ite(ga, a.nlive, b.nlive)
        except NoMerge as e:
            self.nomerge += 1
            k = 'nomerge:' + str(e); self.ended[k] = self.ended.get(k, 0) + 1
            return None
        for i, nr in enumerate(newregs): a.frames[i].regs = nr
        a.mem.update(changes)
        a.nlive = nl
        d = lor(ga, gb)
        a.pc = a.pc[:npc]
        a.known = {k: v for k, v in a.known.items() if b.known.get(k) is v}
        if not (d.__class__ is int):
            # complementary guards give a tautology
            if not (ga.__class__ is E and gb.__class__ is E and not_(ga) is gb):
                a.pc.append(d)
        a.models = a.models + [m for m in b.models if m not in a.models]
        if len(a.models) > 48: a.models = self.rnd.sample(a.models, 48)
        self.merges += 1
        return a

    def valueify(self, a, b):
        """where one side holds an mpz as a value and the other as raw limbs, use the value"""
        import models
        for k, oa in list(a.mem.items()):
            ob = b.mem.get(k)
            if ob is oa or ob is None: continue
            for x, y, sy in ((oa, ob, b), (ob, oa, a)):
                for q, c in x.cells.items():
                    if isz(c[1]):
                        d = y.cells.get(q)
                        if d is not None and not isz(d[1]):
                            v = models.raw_value(self, sy, k, q)
                            if v is not None:
                                n = self.wobj(sy, k)
                                self.clear_range(sy, n, k, q, 16)
                                n.cells[q] = (16, Z(v))

    _mark = 0
    def _basemem(self, a, b): return _Below(self._mark)

    def mergeobj(self, g, sa, sb, k, oa, ob):
        if oa.size != ob.size: raise NoMerge('size')
        n = Obj(oa.size, oa.base, oa.kind, sa.token, oa.name)
        n.ro = oa.ro
        ca, cb = oa.cells, ob.cells
        if oa.base is not ob.base and oa.base != ob.base:
            # normalise differing defaults by explicit bytes
            na = dict(ca); nb = dict(cb)
            if oa.size > 8192: raise NoMerge('base')
            for cells, o in ((na, oa), (nb, ob)):
                cov = set()
                for q, (z, v) in cells.items(): cov.update(range(q, q + z))
                for q in range(o.size):
                    if q not in cov:
                        cells[q] = (1, UNDEF if o.base is None else 0 if o.base == 'Z' else o.base[q])
            ca, cb = na, nb
            n.base = None
        cells = self.limbruns(g, ca, cb)
        for q, c in ca.items():
            if q in cells: continue
            d = cb.get(q)
            if d is c: cells[q] = c; continue
            if d is not None and d[0] == c[0]:
                if d[1] is c[1]: cells[q] = c
                else: cells[q] = (c[0], self.mergemem(g, c[1], d[1]))
                continue
            # layouts differ
            if isz(c[1]) or (d is not None and isz(d[1])):
                if d is None and ob.base is None:
                    # initialised on one side only: undefined afterwards unless base zero
                    cells[q] = (c[0], MU(g, c[1])); continue
                raise NoMerge('mpz-layout')
            y = self.wide(ob, cb, q, c[0])
            if y is not None:
                try: cells[q] = (c[0], self.mergemem(g, c[1], y[0]))
                except NoMerge: raise
                continue
            tmpa = Obj(oa.size, oa.base if n.base is not None or oa.base is None else oa.base, oa.kind, None, None); tmpa.cells = ca
            tmpb = Obj(ob.size, ob.base, ob.kind, None, None); tmpb.cells = cb
            for i in range(q, q + c[0]):
                if i in cells: continue
                x = self.byte(None, tmpa, k, i); y = self.byte(None, tmpb, k, i)
                cells[i] = (1, self.mergemem(g, x, y))
        done = set()
        for q, (z, v) in cells.items(): done.update(range(q, q + z))
        for q, d in cb.items():
            if q in done: continue
            y = self.wide(oa, ca, q, d[0])
            if y is not None and not isz(d[1]) and not any(q + i in done for i in range(d[0])):
                for i in range(d[0]): cells.pop(q + i, None); done.add(q + i)
                cells[q] = (d[0], self.mergemem(g, y[0], d[1])); continue
            s, c = self.cover_cell(oa, q)
            if c is not None:
                continue   # handled bytewise above (ca covers it)
            if isz(d[1]):
                cells[q] = (d[0], MU(not_(g), d[1])); continue
            for i in range(q, q + d[0]):
                if i in cells: continue
                x = self.byte(None, oa, k, i)
                y = d[1] if d[0] == 1 else self.byte(None, ob, k, i)
                cells[i] = (1, self.mergemem(g, x, y))
        self.limbnorm(cells, g)
        n.cells = cells
        return n

    def limbruns(self, g, ca, cb):
        """runs of limbs differing between the two states whose selection g ? A : B has a normal form
        as one integer (typically the conditional subtraction of a modulus): keep its limbs"""
        out = {}
        if len(ca) < 2 or len(cb) < 2: return out
        qs = []
        for q, c in ca.items():
            if c[0] != 8: continue
            d = cb.get(q)
            if d is None or d[0] != 8 or d[1] is c[1]: continue
            x, y = c[1].__class__, d[1].__class__
            if (x is E or x is int) and (y is E or y is int) and (x is E or y is E): qs.append(q)
        if len(qs) < 2: return out
        qs.sort(); i = 0
        while i < len(qs):
            j = i
            while j + 1 < len(qs) and qs[j + 1] == qs[j] + 8: j += 1
            if 1 <= j - i <= 40:
                A = X.residue(lincomb([(ca[qs[k]][1], 1 << (64 * (k - i))) for k in range(i, j + 1)]))
                B = X.residue(lincomb([(cb[qs[k]][1], 1 << (64 * (k - i))) for k in range(i, j + 1)]))
                v = X.ite(g, A, B)
                if v.__class__ is int or v.op == 'var' or v.op == 'mod' and v.args[1] & (v.args[1] - 1):
                    for k in range(i, j + 1): out[qs[k]] = (8, X.limb(v, k - i))
            i = j + 1
        return out

    def limbnorm(self, cells, g):
        """runs of merged limbs that are the limbs of one residue: store that residue's limbs
        (an identity rewrite: the recomposed value is the same integer)"""
        run = []
        gg = g.args[0] if g.__class__ is E and g.op == 'not' else g
        qs = sorted(q for q, c in cells.items() if c[0] == 8 and c[1].__class__ is E and (c[1].op == 'ite' and c[1].args[0] is gg or c[1].op == 'limb' and c[1].args[0].op == 'ite' and c[1].args[0].args[0] is gg))
        i = 0
        while i < len(qs):
            j = i
            while j + 1 < len(qs) and qs[j + 1] == qs[j] + 8: j += 1
            if 1 <= j - i <= 40:
                v = lincomb([(cells[qs[k]][1], 1 << (64 * (k - i))) for k in range(i, j + 1)])
                if v.__class__ is int or v.op == 'var' or v.op == 'mod' and v.args[1] & (v.args[1] - 1) or v.op == 'lin' and len(v.args[1]) == 2:
                    for k in range(i, j + 1):
                        cells[qs[k]] = (8, X.limb(v, k - i))
            i = j + 1

    def wide(self, ob, cells, q, n):
        """[value] of the n bytes at q when they can be read as one unit, else None"""
        if not any(i in cells for i in range(q, q + n)):
            tmp = Obj(ob.size, None, ob.kind, None, None); tmp.cells = cells
            s, c = self.cover_cell(tmp, q)
            if c is not None: return None
            if ob.base is None: return [UNDEF]
            if ob.base == 'Z': return [0]
            return [int.from_bytes(ob.base[q:q + n], 'little')]
        i = q; bs = []
        while i < q + n:
            c = cells.get(i)
            if c is None or c[0] != 1 or not (c[1].__class__ is int or c[1].__class__ is E): return None
            bs.append(c[1]); i += 1
        return [self.join_bytes(bs)]

    # ------------------------------------------------------------- liveness
    def live_at(self, fr):
        fn = fr.fn
        k = (fr.bi, fr.ip)
        r = fn.livecache.get(k)
        if r is None:
            live = set(self.live_out(fn)[fr.bi])
            ops = fn.uses[fr.bi]
            for (d, us) in reversed(ops[fr.ip:]):
                live.discard(d)
                live.update(us)
            live.update(fn.constidx)
            r = fn.livecache[k] = live
        return r

    def live_out(self, fn):
        if fn.liveout is not None: return fn.liveout
        nb = len(fn.uses)
        lin = [set() for _ in range(nb)]; lout = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in range(nb - 1, -1, -1):
                o = set()
                for s in fn.succ[b]:
                    o |= lin[s]
                    for (d, inc) in fn.phis[s]:
                        o.discard(d)
                for s in fn.succ[b]:
                    for (d, inc) in fn.phis[s]:
                        if b in inc: o.add(inc[b])
                i = set(o)
                for (d, us) in reversed(fn.uses[b]):
                    i.discard(d); i.update(us)
                if i != lin[b] or o != lout[b]:
                    lin[b] = i; lout[b] = o; ch = True
        fn.liveout = lout
        return lout

    # ------------------------------------------------------------- compile
    def getfn(self, name):
        f = self.funcs.get(name)
        if f is None:
            r = self.raw.get(name)
            if r is None:
                a = self.aliases.get(name)
                if a is not None and a[0] == 3: return self.getfn(a[1])
                return None
            import compile_ir
            f = compile_ir.compile_fn(self, name, r)
            self.funcs[name] = f
        return f

    def push(self, st, fn, args, dst, nd, va=None):
        fr = Frame()
        fr.fn = fn; fr.bi = 0; fr.ip = 0; fr.dst = dst; fr.nd = nd
        regs = fn.template[:]
        regs[:len(args)] = args
        fr.regs = regs; fr.allocas = []; fr.va = va
        st.frames.append(fr)
        if len(st.frames) > 400: raise VErr('stack-overflow', 'recursion depth')
        u = self.used
        u[fn.name] = u.get(fn.name, 0) + 1

    # ------------------------------------------------------------- run loop
    def run(self, st, sd, sb):
        """run until frame depth sd is about to execute block sb (sb>=0), or
        until frame sd has returned (sb<0).  Returns list of states there."""
        frames = st.frames
        while True:
            if len(frames) < sd or not frames:
                return [st]
            fr = frames[-1]
            regs = fr.regs
            if fr.ip == 0 and sb == fr.bi and len(frames) == sd and sb >= 0:
                return [st]
            code = fr.fn.code[fr.bi]
            ip = fr.ip
            try:
                while True:
                    r = code[ip](st, regs)
                    ip += 1
                    if r is not None: break
            except Fork as f:
                fr.ip = ip
                self.steps += 1
                sts = self.branch_fork(st, f.cond)
                return self.cont(sts, sd, sb)
            except PathEnd as e:
                self.note(str(e)); self.paths += 1
                return []
            except VErr as e:
                fr.ip = ip
                if not st.flags.get('allow_err'): self.candidate(st, 1, e.kind, e.msg)
                self.note(e.kind); self.paths += 1
                return []
            self.steps += ip - fr.ip
            if self.steps > self.o['maxsteps'] or (self.deadline and time.time() > self.deadline): raise Unsupported('budget exhausted (steps=%d)' % self.steps)
            k = r[0]
            if k == 0:        # jump
                fr.bi = r[1]; fr.ip = 0
                continue
            if k == 1:        # call
                fr.ip = ip
                try: self.push(st, r[1], r[2], r[3], r[4], r[5])
                except VErr as e:
                    self.candidate(st, 1, e.kind, e.msg); self.note(e.kind); return []
                continue
            if k == 2:        # ret
                v = r[1]
                for a in fr.allocas:
                    st.mem.pop(a, None)
                frames.pop()
                if not frames:
                    self.paths += 1
                    self.note('return')
                    return [st]
                cf = frames[-1]
                if fr.dst >= 0: cf.regs[fr.dst] = v
                if fr.nd >= 0: self.jump(st, cf, fr.nd)
                continue
            if k == 3:        # symbolic branch: cond, tblock, fblock
                fr.ip = ip - 1
                c = r[1]
                try:
                    t, f = self.feasible(st, c)
                except PathEnd as e:
                    self.note(str(e)); return []
                if t and f:
                    sts = self.branch_br(st, c, r[2], r[3])
                    return self.cont(sts, sd, sb)
                try: self.jump(st, fr, r[2] if t else r[3])
                except VErr as e:
                    self.candidate(st, 1, e.kind, e.msg); self.note(e.kind); return []
                continue

    def jump(self, st, fr, tb):
        ph = fr.fn.phis[tb]
        if ph:
            regs = fr.regs; b = fr.bi
            vals = [regs[inc[b]] for d, inc in ph]
            for (d, inc), v in zip(ph, vals): regs[d] = v
        fr.bi = tb; fr.ip = 0

    def cont(self, sts, sd, sb):
        """continue states (all at one inner join) to the outer stop, merging there"""
        out = []
        if len(sts) > 1:
            mark = self._mark
        for s in sts:
            out += self.run(s, sd, sb)
        if len(sts) > 1 and len(out) > 1:
            out = self.mergeall(out)
        return out

    def mergeall(self, sts):
        """pairwise merging of states stopped at the same point"""
        if len(sts) < 2: return sts
        if len(sts) > self.o['maxstates']: raise Unsupported('too many states (%d)' % len(sts))
        res = []
        for s in sts:
            done = False
            for i, r in enumerate(res):
                # common pc prefix
                n = 0
                for x, y in zip(r.pc, s.pc):
                    if x is not y: break
                    n += 1
                m = self.merge(r, s, n)
                if m is not None: res[i] = m; done = True; break
            if not done: res.append(s)
        return res

    def branch_br(self, st, c, tb, fb):
        self.forks += 1
        mark = self._mark
        fr = st.frames[-1]
        D = len(st.frames); J = fr.fn.ipdom[fr.bi]
        npc = len(st.pc)
        self._mark = _oid[0]
        mymark = self._mark
        a = st; b = st.fork()
        out = []
        for s, cc, blk in ((a, c, tb), (b, not_(c), fb)):
            try:
                self.constrain(s, cc)
                self.jump(s, s.frames[-1], blk)
            except PathEnd as e: self.note(str(e)); continue
            if J < 0: out += self.run(s, D, -1)
            else: out += self.run(s, D, J)
        self._mark = mymark
        if len(out) > 1: out = self.mergeall(out)
        self._mark = mark
        return out

    def branch_fork(self, st, c):
        self.forks += 1
        mark = self._mark
        fr = st.frames[-1]
        D = len(st.frames); J = fr.fn.ipdom[fr.bi]
        self._mark = _oid[0]
        mymark = self._mark
        a = st; b = st.fork()
        out = []
        for s, cc in ((a, c), (b, not_(c))):
            try: self.constrain(s, cc)
            except PathEnd as e: self.note(str(e)); continue
            out += self.run(s, D, J if J >= 0 else -1)
        self._mark = mymark
        if len(out) > 1: out = self.mergeall(out)
        self._mark = mark
        return out

    def call_main(self, name, args=()):
        st = self.newstate()
        fn = self.getfn(name)
        if fn is None: raise Unsupported('no function ' + name)
        self.push(st, fn, list(args), -1, -1)
        return self.run(st, 0, -1)

class NoMerge(Exception): pass

_hard = {}
def hard(c):
    """query contains wide non-linear arithmetic"""
    r = _hard.get(c)
    if r is not None: return r
    st = [c]; seen = set(); r = False
    while st:
        e = st.pop()
        if e in seen: continue
        seen.add(e)
        if e.op in ('mod', 'div') and e.args[1] & (e.args[1] - 1) and (e.args[0].hi - e.args[0].lo) // e.args[1] > (1 << 20): r = True; break
        if e.op == 'lin' and e.hi - e.lo > (1 << 80) and any(abs(k) & (abs(k) - 1) and abs(k) > 1 << 24 for t, k in e.args[1]): r = True; break
        if e.op == 'mul' and e.hi - e.lo > (1 << 48) or e.op in ('inv', 'pow') and e.hi > (1 << 24): r = True; break
        if _hard.get(e): r = True; break
        st.extend(X.deps(e))
    _hard[c] = r
    return r

def isz(v): return v.__class__ is Z or (v.__class__ is MU and v.v.__class__ is Z)

class _Below:
    __slots__ = ('m',)
    def __init__(s, m): s.m = m
    def __contains__(s, k): return k <= s.m

from math import gcd as math_gcd
