"""Compile dumped IR functions into lists of Python closures."""
from expr import *
import expr as X
from interp import MU, Ptr, Fn, Z, UNDEF, Fork, VErr, Unsupported, Func, PathEnd, NoMerge, MASK, E

IGN = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.donothing', 'llvm.experimental', 'llvm.stackrestore', 'llvm.va_end')

def uninit(msg): raise VErr('uninit', msg)

def num(x): return x.__class__ is int or x.__class__ is E

# ---------------------------------------------------------------- arithmetic
def b_add(a, b, w):
    if a.__class__ is Ptr or b.__class__ is Ptr:
        if b.__class__ is Ptr: a, b = b, a
        if a.__class__ is Ptr and num(b): return Ptr(a.obj, add(a.off, signed(b, 64)))
        raise Unsupported('pointer add')
    return mod(add(a, b), 1 << w)

def b_sub(a, b, w):
    if a.__class__ is Ptr:
        if b.__class__ is Ptr:
            if a.obj != b.obj: raise VErr('pointer-diff', 'different objects')
            return mod(sub(a.off, b.off), 1 << w)
        if num(b): return Ptr(a.obj, sub(a.off, signed(b, 64)))
    if b.__class__ is Ptr: raise Unsupported('int - pointer')
    return mod(sub(a, b), 1 << w)

def b_mul(a, b, w):
    if a.__class__ is E and b.__class__ is int and b > (1 << (w - 1)): b -= 1 << w   # smaller magnitude constant
    return mod(mul(a, b), 1 << w)

def b_and(a, b, w):
    if a.__class__ is Ptr and b.__class__ is int:
        if b == MASK[w]: return a
        if b < 16 and a.off.__class__ is int: return a.off & b     # objects are 16-byte aligned
        if (b | 15) == MASK[w] and a.off.__class__ is int: return Ptr(a.obj, a.off & (b | ~MASK[w]))
    return and_(a, b)
def b_or(a, b, w): return or_(a, b)
def b_xor(a, b, w): return xor_(a, b)

def shiftamt(s, w):
    if s.__class__ is E and s.hi >= w:
        s = ite(lt(s, w), s, w - 1) if False else s
    return s
def b_shl(a, s, w):
    if s.__class__ is int:
        if s >= w: return UNDEF
        return mod(scale(a, 1 << s), 1 << w)
    if s.hi >= w: s = mod(s, 1 << (w - 1).bit_length())
    return mod(shl_exact(a, s), 1 << w)
def b_lshr(a, s, w):
    if s.__class__ is int:
        if s >= w: return UNDEF
        return fdiv(a, 1 << s)
    if s.hi >= w: s = mod(s, 1 << (w - 1).bit_length())
    return lshr(a, s)
def b_ashr(a, s, w):
    if s.__class__ is int and s >= w: return UNDEF
    if s.__class__ is E and s.hi >= w: s = mod(s, 1 << (w - 1).bit_length())
    return mod(lshr(signed(a, w), s), 1 << w)

def mk_div(I, opn):
    def f(st, a, b, w):
        if b.__class__ is int:
            if b == 0: raise VErr('div-by-zero', 'division by zero')
        else:
            t, fe = I.feasible(st, eq(b, 0))
            if t:
                I.candidate(st, eq(b, 0), 'div-by-zero', 'division by zero'); I.constrain(st, ne(b, 0))
        if opn == 'udiv': return udiv(a, b)
        if opn == 'urem': return umod(a, b)
        sa, sb = signed(a, w), signed(b, w)
        if sa.__class__ is int and sb.__class__ is int:
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            return (q if opn == 'sdiv' else sa - q * sb) & MASK[w]
        A, B = abs_(sa), abs_(sb)
        q = udiv(A, B)
        ngq = xor_(lt(sa, 0), lt(sb, 0))
        if opn == 'sdiv': return mod(ite(ngq, neg(q), q), 1 << w)
        r = umod(A, B)
        return mod(ite(lt(sa, 0), neg(r), r), 1 << w)
    return f

BIN = {'add': b_add, 'sub': b_sub, 'mul': b_mul, 'and': b_and, 'or': b_or, 'xor': b_xor, 'shl': b_shl, 'lshr': b_lshr, 'ashr': b_ashr}
FBIN = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': lambda a, b: a / b if b else float('inf')}

def icmp(pred, w, a, b):
    ca = a.__class__; cb = b.__class__
    if ca is int and cb is int:
        if pred == 'eq': return 1 if a == b else 0
        if pred == 'ne': return 1 if a != b else 0
        if pred[0] == 's':
            h = 1 << (w - 1)
            if a >= h: a -= h << 1
            if b >= h: b -= h << 1
        p = pred[1:]
        if p == 'lt': return 1 if a < b else 0
        if p == 'le': return 1 if a <= b else 0
        if p == 'gt': return 1 if a > b else 0
        return 1 if a >= b else 0
    if a is UNDEF or b is UNDEF: return UNDEF
    if num(a) and num(b):
        if pred == 'eq': return eq(a, b)
        if pred == 'ne': return ne(a, b)
        if pred[0] == 's': a, b = signed(a, w), signed(b, w)
        p = pred[1:]
        if p == 'lt': return lt(a, b)
        if p == 'le': return le(a, b)
        if p == 'gt': return lt(b, a)
        return le(b, a)
    if ca is Fn or cb is Fn:
        r = ca is Fn and cb is Fn and a.name == b.name
        if pred == 'eq': return int(r)
        if pred == 'ne': return int(not r)
        raise Unsupported('fn compare')
    if ca is Ptr and cb is Ptr:
        if a.obj == b.obj:
            if pred == 'eq': return eq(a.off, b.off)
            if pred == 'ne': return ne(a.off, b.off)
            p = pred[1:]
            if p == 'lt': return lt(a.off, b.off)
            if p == 'le': return le(a.off, b.off)
            if p == 'gt': return lt(b.off, a.off)
            return le(b.off, a.off)
        if pred == 'eq': return 0
        if pred == 'ne': return 1
        raise Unsupported('relational compare of unrelated pointers')
    if (ca is Ptr and cb is int) or (ca is int and cb is Ptr):
        if pred == 'eq': return 0
        if pred == 'ne': return 1
        pf = ca is Ptr
        other = b if pf else a
        if other == 0 and pred[0] == 'u':
            g = pred[1:]
            if not pf: g = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[g]
            return 1 if g in ('gt', 'ge') else 0
    raise Unsupported('icmp %s %r %r' % (pred, a, b))

def compile_fn(I, name, raw):
    F = Func()
    F.name = name; F.file = raw['file']
    n = raw['n']
    tmpl = [None] * n
    consts = {}
    def reg(o):
        if o[0] == 0: return o[1]
        k = repr(o)
        r = consts.get(k)
        if r is None:
            v = const(I, o)
            r = consts[k] = len(tmpl); tmpl.append(v)
        return r
    nb = len(raw['blocks'])
    F.nargs = raw['nargs']; F.va = raw['va']; F.byval = raw['byval']
    F.ipdom = raw['ipdom']; F.livecache = {}; F.liveout = None
    F.phis = [[] for _ in range(nb)]
    F.code = []; F.uses = []; F.succ = []
    for bi, blk in enumerate(raw['blocks']):
        for ins in blk:
            if ins[0] == 'phi': F.phis[bi].append((ins[1], {b: reg(o) for b, o in ins[2]}))
    for bi, blk in enumerate(raw['blocks']):
        code = []; uses = []; succ = []
        for ins in blk:
            op = ins[0]
            if op == 'phi': continue
            c, us = comp(I, F, bi, ins, reg, succ)
            if c is None: continue
            code.append(c); uses.append((ins[1], us))
        F.code.append(code); F.uses.append(uses); F.succ.append(succ)
    F.template = tmpl
    F.constidx = set(range(n, len(tmpl)))
    return F

def const(I, o):
    k = o[0]
    if k == 9:
        a = const(I, o[2]); b = const(I, o[3]); w = o[4]
        return (b_add if o[1] == 'add' else b_sub)(a, b, w)
    if k == 7: 
        b = const(I, o[1])
        return Ptr(b.obj, b.off + o[2]) if isinstance(b, Ptr) else (b + o[2]) & MASK[64]
    if k == 8:
        v = const(I, o[1]); return v & MASK[o[2]] if isinstance(v, int) else v
    if k == 99: raise Unsupported('constant ' + str(o[1]))
    return I.const(o)

def mkjump(F, bi, tb):
    ph = F.phis[tb]
    ret = (0, tb)
    if not ph: return lambda st, regs: ret
    prs = [(d, inc[bi]) for d, inc in ph]
    if len(prs) == 1:
        d, s = prs[0]
        def j(st, regs):
            regs[d] = regs[s]
            return ret
        return j
    ds = [d for d, s in prs]; ss = [s for d, s in prs]
    def j(st, regs):
        vs = [regs[s] for s in ss]
        for d, v in zip(ds, vs): regs[d] = v
        return ret
    return j

def comp(I, F, bi, ins, reg, succ):
    op = ins[0]; d = ins[1]
    if op == 'load':
        size, kind, w = ins[2], ins[3], ins[4]; p = reg(ins[5])
        load = I.load
        if kind == 'a': raise Unsupported('aggregate load in ' + F.name)
        def f(st, regs):
            q = regs[p]
            try:
                ob = st.mem[q.obj]
                c = ob.cells[q.off]
                if c[0] == size:
                    v = c[1]
                    if v.__class__ is not Z and v.__class__ is not MU and (v.__class__ is not E or v.op != 'ite' and v.op != 'limb'):
                        if w < 8 and v.__class__ is not int: v = mod(v, 1 << w) if v.__class__ is E else v
                        regs[d] = v; return
            except (KeyError, AttributeError, TypeError): pass
            try: v = load(st, q, size)
            except NoMerge:
                v = load(st, Ptr(q.obj, I.concretize(st, q.off)), size)
            if w < 8 and v is not UNDEF: v = mod(v, 1 << w)
            if kind == 'd' and v.__class__ is not float and v is not UNDEF:
                if v.__class__ is int:
                    import struct
                    v = struct.unpack('<d', v.to_bytes(8, 'little'))[0]
                else: raise Unsupported('float load')
            regs[d] = v
        return f, [p]
    if op == 'store':
        size, kind = ins[2], ins[3]; v = reg(ins[5]); p = reg(ins[6])
        store = I.store
        if kind == 'a': raise Unsupported('aggregate store in ' + F.name)
        def f(st, regs):
            q = regs[p]; x = regs[v]
            try:
                ob = st.mem[q.obj]
                c = ob.cells[q.off]
                if c[0] == size and ob.owner is st.token and not ob.ro:
                    ob.cells[q.off] = (size, x); return
            except (KeyError, AttributeError, TypeError): pass
            try: store(st, q, size, x)
            except NoMerge:
                store(st, Ptr(q.obj, I.concretize(st, q.off)), size, x)
        return f, [v, p]
    if op == 'alloca':
        es = ins[2]; c = reg(ins[3])
        nm = '%s:%d' % (F.name, d)
        def f(st, regs):
            n = regs[c]
            if n.__class__ is not int: n = I.concretize(st, n)
            q = I.alloc(st, es * n, 'stack', nm)
            st.frames[-1].allocas.append(q.obj)
            regs[d] = q
        return f, [c]
    if op == 'gep':
        base = reg(ins[2]); co = ins[3]; idx = [(reg(o), s, w) for o, s, w in ins[4]]
        if not idx:
            def f(st, regs):
                b = regs[base]
                if b.__class__ is Ptr:
                    o = b.off
                    regs[d] = Ptr(b.obj, o + co if o.__class__ is int else add(o, co))
                elif b.__class__ is int: regs[d] = (b + co) & MASK[64]
                elif b is UNDEF: regs[d] = UNDEF
                else: raise Unsupported('gep base %r' % (b,))
            return f, [base]
        def f(st, regs):
            b = regs[base]
            off = co
            for r, s, w in idx:
                v = regs[r]
                if v.__class__ is int:
                    if v >> (w - 1): v -= 1 << w
                    off = off + v * s if off.__class__ is int else add(off, v * s)
                elif v is UNDEF: uninit('uninitialised index')
                elif v.__class__ is E: off = add(off, scale(signed(v, w), s))
                else: raise Unsupported('gep index %r' % (v,))
            if b.__class__ is Ptr: regs[d] = Ptr(b.obj, add(b.off, off))
            elif b.__class__ is int and off.__class__ is int: regs[d] = (b + off) & MASK[64]
            elif b is UNDEF: regs[d] = UNDEF
            else: raise Unsupported('gep base %r' % (b,))
        return f, [base] + [r for r, s, w in idx]
    if op == 'br':
        c = reg(ins[2]); t, e = ins[3], ins[4]
        succ += [t, e]
        jt, je = mkjump(F, bi, t), mkjump(F, bi, e)
        def f(st, regs):
            v = regs[c]
            if v.__class__ is int: return jt(st, regs) if v else je(st, regs)
            if v is UNDEF: uninit('branch on uninitialised value')
            return (3, v, t, e)
        return f, [c]
    if op == 'jmp':
        succ.append(ins[2])
        return mkjump(F, bi, ins[2]), []
    if op == 'switch':
        w = ins[2]; c = reg(ins[3]); dflt = ins[4]
        cases = {}
        for o, b in ins[5]: cases[int(o[1])] = b
        succ += sorted(set(list(cases.values()) + [dflt]))
        js = {b: mkjump(F, bi, b) for b in succ}
        def f(st, regs):
            v = regs[c]
            if v is UNDEF: uninit('switch on uninitialised value')
            if v.__class__ is int: return js[cases.get(v, dflt)](st, regs)
            for k in cases:
                if I.decide(st, eq(v, k)): return js[cases[k]](st, regs)
            return js[dflt](st, regs)
        return f, [c]
    if op == 'ret':
        if ins[2] is None: return (lambda st, regs: (2, None)), []
        v = reg(ins[2])
        return (lambda st, regs: (2, regs[v])), [v]
    if op == 'unreachable':
        def f(st, regs): raise VErr('unreachable', 'unreachable executed')
        return f, []
    if op == 'call': return comp_call(I, F, bi, ins, reg, succ)
    if op == 'icmp':
        pred, w, kind = ins[2], ins[3], ins[4]; a = reg(ins[5]); b = reg(ins[6])
        if pred == 'eq':
            def f(st, regs):
                x = regs[a]; y = regs[b]
                if x.__class__ is int and y.__class__ is int: regs[d] = 1 if x == y else 0
                else: regs[d] = icmp('eq', w, x, y)
            return f, [a, b]
        def f(st, regs): regs[d] = icmp(pred, w, regs[a], regs[b])
        return f, [a, b]
    if op == 'fcmp':
        pred = ins[2]; a = reg(ins[3]); b = reg(ins[4])
        def f(st, regs):
            x = regs[a]; y = regs[b]
            p = pred[1:]
            regs[d] = int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
        return f, [a, b]
    if op == 'select':
        c, a, b = reg(ins[2]), reg(ins[3]), reg(ins[4])
        def f(st, regs):
            v = regs[c]
            if v.__class__ is int: regs[d] = regs[a] if v else regs[b]; return
            if v is UNDEF: regs[d] = UNDEF; return
            x = regs[a]; y = regs[b]
            try: regs[d] = I.mergeval(v, x, y)
            except NoMerge: regs[d] = x if I.decide(st, v) else y
        return f, [c, a, b]
    if op == 'bin':
        opn, w = ins[2], ins[3]; a, b = reg(ins[4]), reg(ins[5])
        m = MASK[w]
        if opn in ('udiv', 'urem', 'sdiv', 'srem'):
            g = mk_div(I, opn)
            def f(st, regs):
                x = regs[a]; y = regs[b]
                if x is UNDEF or y is UNDEF: regs[d] = UNDEF; return
                if x.__class__ is Ptr or y.__class__ is Ptr: raise Unsupported('ptr div')
                regs[d] = g(st, x, y, w)
            return f, [a, b]
        if opn in FBIN:
            g = FBIN[opn]
            def f(st, regs):
                x = regs[a]; y = regs[b]
                regs[d] = UNDEF if x is UNDEF or y is UNDEF else g(x, y)
            return f, [a, b]
        g = BIN.get(opn)
        if g is None: raise Unsupported('bin ' + opn)
        if opn == 'add':
            def f(st, regs):
                x = regs[a]; y = regs[b]
                if x.__class__ is int and y.__class__ is int: regs[d] = (x + y) & m; return
                if x is UNDEF or y is UNDEF: regs[d] = UNDEF; return
                regs[d] = b_add(x, y, w)
            return f, [a, b]
        def f(st, regs):
            x = regs[a]; y = regs[b]
            if x is UNDEF or y is UNDEF: regs[d] = UNDEF; return
            regs[d] = g(x, y, w)
        return f, [a, b]
    if op == 'cast':
        opn, w0, w1 = ins[2], ins[3], ins[4]; a = reg(ins[5])
        if opn in ('zext', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc'):
            def f(st, regs): regs[d] = regs[a]
            if opn == 'ptrtoint' and w1 < 64: raise Unsupported('ptrtoint narrow')
            return f, [a]
        if opn == 'sext':
            ext = MASK[w1] ^ MASK[w0]; hb = 1 << (w0 - 1)
            def f(st, regs):
                x = regs[a]
                if x.__class__ is int: regs[d] = x | ext if x & hb else x
                elif x is UNDEF: regs[d] = UNDEF
                else: regs[d] = mod(signed(x, w0), 1 << w1)
            return f, [a]
        if opn == 'trunc':
            m = MASK[w1]
            def f(st, regs):
                x = regs[a]
                if x.__class__ is int: regs[d] = x & m
                elif x is UNDEF: regs[d] = UNDEF
                elif x.__class__ is Ptr: raise Unsupported('trunc pointer')
                else: regs[d] = mod(x, 1 << w1)
            return f, [a]
        if opn in ('sitofp', 'uitofp'):
            def f(st, regs):
                x = regs[a]
                x = I.concretize(st, x)
                regs[d] = float(signed(x, w0) if opn == 'sitofp' else x)
            return f, [a]
        if opn in ('fptosi', 'fptoui'):
            def f(st, regs): regs[d] = int(regs[a]) & MASK[w1]
            return f, [a]
        raise Unsupported('cast ' + opn)
    if op == 'extractvalue':
        a = reg(ins[2]); path = ins[3]
        def f(st, regs):
            v = regs[a]
            for i in path: v = v[i]
            regs[d] = v
        return f, [a]
    if op == 'insertvalue':
        a = reg(ins[2]); v = reg(ins[3]); path = ins[4]
        def f(st, regs):
            x = regs[a]
            if len(path) != 1: raise Unsupported('nested insertvalue')
            i = path[0]
            x = list(x) if isinstance(x, list) else []
            while len(x) <= i: x.append(UNDEF)
            x[i] = regs[v]
            regs[d] = x
        return f, [a, v]
    if op == 'freeze':
        a = reg(ins[2])
        def f(st, regs): regs[d] = regs[a]
        return f, [a]
    if op == 'fneg':
        a = reg(ins[2])
        def f(st, regs): regs[d] = -regs[a]
        return f, [a]
    def f(st, regs): raise Unsupported('instruction %s in %s' % (ins[:3], F.name))
    return f, []

def comp_call(I, F, bi, ins, reg, succ):
    d, callee, args, rk, rw, kinds, nd = ins[1], ins[2], ins[3], ins[4], ins[5], ins[6], ins[7]
    if nd >= 0: succ.append(nd)
    if callee[0] == 3:
        nm = callee[1]
        if nm.startswith(IGN): return None, None
        if nm.startswith('llvm.va_start'):
            a = reg(args[0])
            def f(st, regs):
                fr = st.frames[-1]
                va = fr.va or []
                area = I.alloc(st, 8 * max(1, len(va)), 'stack', 'varargs')
                fr.allocas.append(area.obj)
                for i, v in enumerate(va): I.store(st, Ptr(area.obj, 8 * i), 8, v)
                q = regs[a]
                I.store(st, q, 4, 48); I.store(st, Ptr(q.obj, q.off + 4), 4, 304)
                I.store(st, Ptr(q.obj, q.off + 8), 8, area)
            return f, [a]
    rs = [reg(a) for a in args]
    bv = [k[2] for k in kinds]
    anyb = any(bv)
    def mkargs(st, regs):
        vs = [regs[r] for r in rs]
        if anyb:
            for i, n in enumerate(bv):
                if n:
                    q = I.alloc(st, n, 'stack', 'byval'); I.memcpy(st, q, vs[i], n); vs[i] = q
        return vs
    # float varargs come through the fp area: place them in order with ints (the model's va_list is flat)
    if callee[0] == 3:
        nm = callee[1]
        h = I.intr.get(nm)
        if h is None and nm.startswith('llvm.'):
            for pre, g in I.llvmintr.items():
                if nm.startswith(pre): h = g; break
        if h is not None:
            if nd >= 0:
                def f(st, regs):
                    r = h(I, st, mkargs(st, regs))
                    if d >= 0: regs[d] = r
                    fr = st.frames[-1]
                    I.jump(st, fr, nd)
                    return (0, nd)
                return f, rs
            if d >= 0:
                def f(st, regs): regs[d] = h(I, st, [regs[r] for r in rs])
            else:
                def f(st, regs): h(I, st, [regs[r] for r in rs])
            return f, rs
        if nm not in I.raw and nm not in I.aliases:
            def f(st, regs): raise Unsupported('external function ' + nm)
            return f, rs
        cell = []
        na = [None]
        def f(st, regs):
            if not cell: cell.append(I.getfn(nm))
            fn = cell[0]
            vs = mkargs(st, regs)
            if fn.va: return (1, fn, vs[:fn.nargs], d, nd, vs[fn.nargs:])
            if len(vs) < fn.nargs: raise VErr('bad-call', 'too few arguments to ' + nm)
            return (1, fn, vs[:fn.nargs], d, nd, None)
        return f, rs
    c = reg(callee)
    def f(st, regs):
        v = regs[c]
        if v.__class__ is not Fn:
            if v is UNDEF: uninit('call through uninitialised pointer')
            if v.__class__ is int: raise VErr('null-call', 'call through null function pointer' if v == 0 else 'call to integer')
            if v.__class__ is Ptr: raise VErr('bad-call', 'call through data pointer')
            raise Unsupported('indirect call %r' % (v,))
        h = I.intr.get(v.name)
        if h is not None:
            r = h(I, st, mkargs(st, regs))
            if d >= 0: regs[d] = r
            return
        fn = I.getfn(v.name)
        if fn is None: raise Unsupported('external function ' + v.name)
        vs = mkargs(st, regs)
        if fn.va: return (1, fn, vs[:fn.nargs], d, nd, vs[fn.nargs:])
        while len(vs) < fn.nargs: vs.append(UNDEF)
        return (1, fn, vs[:fn.nargs], d, nd, None)
    return f, [c] + rs
