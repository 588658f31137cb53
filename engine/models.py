"""Models of GMP (exact integers), libc and the harness intrinsics."""
import math
from expr import *
import expr as X
import solver as S
from interp import MU, Ptr, Fn, Z, UNDEF, Fork, VErr, PathEnd, Unsupported, NoMerge, MASK, E, Model, _oid

ALL1 = (1 << 64) - 1
LIMB = 1 << 64

# ------------------------------------------------------------------ mpz cells
def zget(I, st, p):
    if p.__class__ is Ptr:
        ob = st.mem.get(p.obj)
        if ob is not None:
            c = ob.cells.get(p.off) if p.off.__class__ is int else None
            if c is not None and c[1].__class__ is Z: return c[1].v
    ob = I.chk(st, p, 16)
    if p.off.__class__ is not int:
        I.concretize(st, p.off)
        return zget(I, st, Ptr(p.obj, I.concretize(st, p.off)))
    s, c = I.cover_cell(ob, p.off)
    if c is not None and c[1].__class__ is MU and c[1].v.__class__ is Z and s == p.off:
        v = I.resolve(st, c[1])
        if v is UNDEF: raise VErr('uninit', 'use of an uninitialised mpz')
        return v.v
    if c is not None and c[1].__class__ is Z: raise VErr('bad-mpz', 'misaligned mpz access')
    size = I.load(st, Ptr(p.obj, p.off + 4), 4)
    d = I.load(st, Ptr(p.obj, p.off + 8), 8)
    if size is UNDEF or d is UNDEF: raise VErr('uninit', 'use of an uninitialised mpz')
    size = signed(size, 32)
    if d.__class__ is not Ptr:
        if size.__class__ is int and size == 0: return 0
        raise VErr('bad-mpz', 'mpz with bad limb pointer %r' % (d,))
    if size.__class__ is E and size.lo < 0: size = I.concretize(st, size)
    if size.__class__ is E: return lincomb([(ite(lt(i, size), rdlimb(I, st, d, i), 0), 1 << (64 * i)) for i in range(size.hi)])
    n = abs(size)
    v = lincomb([(rdlimb(I, st, d, i), 1 << (64 * i)) for i in range(n)])
    return v if size >= 0 else neg(v)

def raw_value(I, st, oid, off):
    """value of an owned raw-mode mpz at (oid,off), or None"""
    c = st.mem[oid].cells
    a, z, d = c.get(off), c.get(off + 4), c.get(off + 8)
    if a is None or z is None or d is None or a[0] != 4 or z[0] != 4 or d[1].__class__ is not Ptr: return None
    ob = st.mem.get(d[1].obj)
    if ob is None or ob.name != 'limbs' or d[1].off != 0: return None
    try: return zget(I, st, Ptr(oid, off))
    except (Fork, VErr): return None

def rdlimb(I, st, d, i):
    v = I.load(st, Ptr(d.obj, add(d.off, 8 * i)), 8)
    if v is UNDEF: raise VErr('uninit', 'uninitialised limb')
    if v.__class__ is Ptr: raise VErr('bad-mpz', 'pointer used as limb')
    return v

def limbs(I, st, d, n): return lincomb([(rdlimb(I, st, d, i), 1 << (64 * i)) for i in range(n)])

def setlimbs(I, st, d, n, v):
    if n: I.chk(st, Ptr(d.obj, d.off), 8 * n, True) if d.__class__ is Ptr else I.chk(st, d, 8 * n)
    for i in range(n):
        I.store(st, Ptr(d.obj, add(d.off, 8 * i)), 8, X.limb(v, i))

def nlimbs(v):
    """symbolic limb count of |v|"""
    a = abs_(v)
    if a.__class__ is int: return (a.bit_length() + 63) // 64
    return nwords(a, 64)

def nwords(a, w):
    """number of w-bit words of a >= 0 as a chain of ites"""
    if a.__class__ is int: return (a.bit_length() + w - 1) // w
    m = (a.hi.bit_length() + w - 1) // w
    r = m
    for i in range(m - 1, -1, -1): r = ite(lt(a, 1 << (w * i)), i, r)
    return r

def zset(I, st, p, v):
    if p.__class__ is Ptr:
        ob = st.mem.get(p.obj)
        if ob is not None:
            c = ob.cells.get(p.off) if p.off.__class__ is int else None
            if c is not None and c[1].__class__ is Z:
                if ob.owner is not st.token: ob = I.wobj(st, p.obj)
                ob.cells[p.off] = (16, Z(v)); return
    I.chk(st, p, 16, True)
    if p.off.__class__ is not int: return zset(I, st, Ptr(p.obj, I.concretize(st, p.off)), v)
    c = ob.cells.get(p.off)
    if c is not None and c[1].__class__ is MU and c[1].v.__class__ is Z:
        if I.resolve(st, c[1]) is UNDEF: raise VErr('uninit', 'store to an uninitialised mpz')
        I.wobj(st, p.obj).cells[p.off] = (16, Z(v)); return
    al = I.load(st, Ptr(p.obj, p.off), 4)
    d = I.load(st, Ptr(p.obj, p.off + 8), 8)
    if al is UNDEF or d is UNDEF: raise VErr('uninit', 'store to an uninitialised mpz')
    al = I.concretize(st, al)
    n = nlimbs(v)
    need = rng(n)[1]
    if need > al:
        lo = st.mem.get(d.obj) if d.__class__ is Ptr and d.off == 0 else None
        if lo is not None and lo.name == 'limbs':
            # GMP-owned limb array: grow, i.e. back to value mode
            st.mem.pop(d.obj); ob = I.wobj(st, p.obj)
            I.clear_range(st, ob, p.obj, p.off, 16)
            I.store(st, p, 16, Z(v)); return
        if I.decide(st, lt(al, n)): raise VErr('bad-mpz', 'mpz needs reallocation of memory it does not own')
    # limbs above the size are unspecified in GMP
    for i in range(min(need, al)):
        x = X.limb(abs_(v), i)
        if n.__class__ is E and n.lo <= i:
            q = Ptr(d.obj, add(d.off, 8 * i))
            st.ctr['junk'] = k = st.ctr.get('junk', 0) + 1
            x = ite(lt(i, n), x, 0xdeadbeef00000000 + k)
        I.store(st, Ptr(d.obj, add(d.off, 8 * i)), 8, x)
    sz = ite(lt(v, 0), neg(n), n)
    I.store(st, Ptr(p.obj, p.off + 4), 4, mod(sz, 1 << 32))

def zinit(I, st, p, v=0):
    I.chk(st, p, 16, True)
    st.nlive = add(st.nlive, 1)
    I.store(st, p, 16, Z(v))

def mpz_field(I, st, oid, s, k, size):
    """direct read of a field of a value-mode mpz"""
    v = st.mem[oid].cells[s][1].v
    if k == 4 and size == 4:
        n = nlimbs(v)
        return mod(ite(lt(v, 0), neg(n), n), 1 << 32)
    mpz_rawify(I, st, oid, s)
    return I.load(st, Ptr(oid, s + k), size)

def mpz_rawify(I, st, oid, s, minalloc=0):
    """turn a value cell into explicit {alloc,size,d} fields with a limb array"""
    v = st.mem[oid].cells[s][1].v
    n = nlimbs(v)
    hi = max(rng(n)[1], minalloc, 1)
    ob = I.wobj(st, oid)
    del ob.cells[s]
    a = I.alloc(st, 8 * hi, 'heap', 'limbs')
    setlimbs(I, st, a, hi, abs_(v))
    ob.cells[s] = (4, hi)
    ob.cells[s + 4] = (4, mod(ite(lt(v, 0), neg(n), n), 1 << 32))
    ob.cells[s + 8] = (8, a)

def zclear(I, st, p):
    ob = I.chk(st, p, 16, True)
    if p.off.__class__ is not int: p = Ptr(p.obj, I.concretize(st, p.off))
    c = ob.cells.get(p.off)
    if c is not None and c[1].__class__ is MU and c[0] == 16:
        if I.resolve(st, c[1]) is not UNDEF: c = (16, c[1].v)
    if c is None or (c[1].__class__ is not Z and c[0] == 16):
        raise VErr('uninit', 'clear of an uninitialised mpz')
    if c[1].__class__ is not Z:
        d = I.load(st, Ptr(p.obj, p.off + 8), 8)
        if d is UNDEF: raise VErr('uninit', 'clear of an uninitialised mpz')
        if d.__class__ is Ptr: st.mem.pop(d.obj, None)
    st.nlive = sub(st.nlive, 1)
    ob = I.wobj(st, p.obj)
    I.clear_range(st, ob, p.obj, p.off, 16) if c[1].__class__ is not Z else None
    ob.cells[p.off] = (16, UNDEF)

def _rel(I, st, p):   # remove a cell with UNDEF 16 so byte-level access works
    pass

# ---------------------------------------------------------- generic functions
TABLIM = 1 << 13
def fn1(I, st, x, f):
    """apply a Python function to a (possibly symbolic) integer"""
    if x.__class__ is int: return f(x)
    lo, hi = x.lo, x.hi
    if hi - lo < TABLIM:
        y = add(x, -lo)
        return tab(y, tuple(f(i + lo) for i in range(hi - lo + 1)))
    if x.op == 'tab':
        return tab(x.args[0], tuple(f(v) for v in x.args[1]))
    if x.op == 'ite':
        return ite(x.args[0], fn1(I, st, x.args[1], f), fn1(I, st, x.args[2], f))
    return f(I.concretize(st, x))

def conc2(I, st, a, b):
    return I.concretize(st, a), I.concretize(st, b)

def tdiv_q(I, st, a, b):
    if b.__class__ is not int:
        if a.__class__ is int or True:
            if rng(b)[0] > 0 or rng(b)[1] < 0: pass
            nonzero(I, st, b)
        A, B = abs_(a), abs_(b)
        q = udiv(A, B)
        return ite(xor_(lt(a, 0), lt(b, 0)), neg(q), q)
    if b == 0: raise VErr('div-by-zero', 'mpz division by zero')
    if a.__class__ is int:
        q = abs(a) // abs(b)
        return -q if (a < 0) != (b < 0) else q
    if a.lo >= 0: q = fdiv(a, abs(b))
    else: q = ite(lt(a, 0), neg(fdiv(neg(a), abs(b))), fdiv(a, abs(b)))
    return neg(q) if b < 0 else q

def nonzero(I, st, b):
    if b.__class__ is int:
        if b == 0: raise VErr('div-by-zero', 'mpz division by zero')
        return
    t, f = I.feasible(st, eq(b, 0))
    if t:
        if not f: raise VErr('div-by-zero', 'mpz division by zero')
        I.candidate(st, eq(b, 0), 'div-by-zero', 'mpz division by zero'); I.constrain(st, ne(b, 0))

def fdiv_q(I, st, a, b):
    if b.__class__ is not int:
        b2 = I.concretize(st, b) if rng(b)[1] - rng(b)[0] < 64 else None
        if b2 is not None: b = b2
        else:
            nonzero(I, st, b)
            if rng(b)[0] >= 0 and rng(a)[0] >= 0: return udiv(a, b)
            raise Unsupported('fdiv with symbolic divisor')
    if b == 0: raise VErr('div-by-zero', 'mpz division by zero')
    if b < 0: return fdiv(neg(a), -b)
    return fdiv(a, b)

def zmod(I, st, a, m):
    """non-negative remainder"""
    if m.__class__ is not int:
        nonzero(I, st, m)
        if rng(a)[0] >= 0: return umod(a, abs_(m))
        A = abs_(a); M = abs_(m)
        r = umod(A, M)
        return ite(lt(a, 0), ite(eq(r, 0), 0, sub(M, r)), r)
    if m == 0: raise VErr('div-by-zero', 'mpz modulo zero')
    return mod(a, abs(m))

def powm(I, st, b, e, m):
    m = I.concretize(st, m)
    if m == 0: raise VErr('div-by-zero', 'powm modulo zero')
    m = abs(m)
    if e.__class__ is E:
        if b.__class__ is int:
            if rng(e)[0] < 0: e = I.concretize(st, e)
            else:
                r = 1 % m; s = b % m
                if e.hi - e.lo < TABLIM: return fn1(I, st, e, lambda x: pow(b, x, m))
                for i in range(e.hi.bit_length()):
                    bit = mod(fdiv(e, 1 << i), 2)
                    r = mod(mul(r, ite(bit, s, 1)), m); s = s * s % m
                return r
        else:
            b = mod(b, m)
            if b.__class__ is E and rng(e)[0] >= 0:
                r = 1 % m; s = b
                for i in range(e.hi.bit_length()):
                    bit = mod(fdiv(e, 1 << i), 2)
                    r = ite(bit, mod(mul(r, s), m), r); s = mod(mul(s, s), m) if m > 4096 else fn1(I, st, s, lambda x: x * x % m)
                return r
            e = I.concretize(st, e)
    if e < 0:
        b = invmod(I, st, b, m)[1]; e = -e
    b = mod(b, m)
    if b.__class__ is int: return pow(b, e, m)
    if m <= TABLIM: return fn1(I, st, b, lambda x: pow(x, e, m))
    if e > 64:
        k = ('powm', b, e, m)
        return mk('pow', (b, e, m), 0, m - 1)
    r = 1; s = b
    while e:
        if e & 1: r = mod(mul(r, s), m)
        e >>= 1
        if e: s = mod(mul(s, s), m)
    return r

def invmod(I, st, a, m):
    """(exists, inverse)"""
    m = abs(I.concretize(st, m))
    a = mod(a, m)
    if a.__class__ is int:
        if m == 1: return 1, 0
        if math.gcd(a, m) != 1: return 0, 0
        return 1, pow(a, -1, m)
    if m <= TABLIM:
        ok = fn1(I, st, a, lambda x: 1 if math.gcd(x, m) == 1 else 0)
        return ok, fn1(I, st, a, lambda x: pow(x, -1, m) if math.gcd(x, m) == 1 else 0)
    if isprime(m): return ne(a, 0), inv(a, m)
    raise Unsupported('inverse modulo large composite')

def legendre(a, p):
    # Jacobi/Kronecker for odd positive p
    a %= p; r = 1
    n = p
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5): r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3: r = -r
        a %= n
    return r if n == 1 else 0

def isqrt(n): return math.isqrt(n)

def bitlen(x):
    a = abs_(x)
    if a.__class__ is int: return max(1, a.bit_length())
    r = 1
    for i in range(1, a.hi.bit_length()): r = add(r, le(1 << i, a))
    return r

def nextprime(n):
    n = max(n + 1, 2)
    while not isprime(n): n += 1
    return n

def u64(x): return mod(x, LIMB)
def s64(x): return signed(x, 64)

# ------------------------------------------------------------------- strings
def put_bytes(I, st, p, bs):
    for i, b in enumerate(bs): I.store(st, Ptr(p.obj, add(p.off, i)), 1, b)

def zdigits(I, st, v, base):
    """list of char codes for the value; forks on the number of digits"""
    base = base or 10
    if v.__class__ is int:
        s = ''
        n = abs(v)
        if base == 10: s = str(n)
        else:
            while n: s = '0123456789abcdefghijklmnopqrstuvwxyz'[n % base] + s; n //= base
            s = s or '0'
        return [ord(c) for c in (('-' if v < 0 else '') + s)]
    out = []
    if v.lo < 0:
        if I.decide(st, lt(v, 0)):
            out = [45]; v = neg(v)
            v = ite(lt(v, 0), 0, v)
    k = 1
    while v.hi >= base ** k:
        if I.decide(st, lt(v, base ** k)): break
        k += 1
    for i in range(k - 1, -1, -1):
        d = mod(fdiv(v, base ** i), base)
        out.append(add(d, 48) if base <= 10 else ite(lt(d, 10), add(d, 48), add(d, 87)))
    return out

def parse_int(I, st, bs, base):
    """GMP mpz_set_str semantics; returns value or None"""
    # whitespace is ignored anywhere
    def isws(c): return lor(eq(c, 32), land(le(9, c), le(c, 13)))
    cs = []
    for c in bs:
        if I.decide(st, isws(c)): continue
        cs.append(c)
    neg_ = False
    if cs and I.decide(st, eq(cs[0], 45)): neg_ = True; cs = cs[1:]
    if not cs: return None
    if base == 0:
        base = 10
        if I.decide(st, eq(cs[0], 48)):
            base = 8
            if len(cs) > 1:
                if I.decide(st, lor(eq(cs[1], 120), eq(cs[1], 88))): base = 16; cs = cs[2:]
                elif I.decide(st, lor(eq(cs[1], 98), eq(cs[1], 66))): base = 2; cs = cs[2:]
    if not cs: return None
    v = 0
    for c in cs:
        if I.decide(st, land(le(48, c), le(c, 57))): d = sub(c, 48)
        elif base > 10 and I.decide(st, land(le(97, c), le(c, 122))): d = sub(c, 87)
        elif base > 10 and I.decide(st, land(le(65, c), le(c, 90))): d = sub(c, 55)
        else: return None
        if not I.decide(st, lt(d, base)): return None
        if d.__class__ is E: d = ite(lt(d, 0), 0, ite(lt(d, base), d, 0))
        v = add(scale(v, base), d)
    return neg(v) if neg_ else v

def va_next(I, st, va):
    area = I.load(st, Ptr(va.obj, va.off + 8), 8)
    v = I.load(st, area, 8)
    I.store(st, Ptr(va.obj, va.off + 8), 8, Ptr(area.obj, area.off + 8))
    return v

def symset(I, st, p, val, n):
    """memset with symbolic start/length over 8-byte cells; False if not applicable"""
    ob = st.mem.get(p.obj)
    if ob is None: return False
    end = add(p.off, n)
    lo, hi = rng(p.off)[0], rng(end)[1]
    for x in (p.off, n):
        if x.__class__ is int:
            if x % 8: return False
        else:
            if tz(x) < 3 and not constleaves8(x): return False
    if lo < 0 or hi > ob.size:
        # n == 0 with any start is harmless
        bad = land(ne(n, 0), lor(lt(p.off, 0), lt(ob.size, end)))
        if I.decide(st, bad): raise VErr('out-of-bounds', 'memset out of bounds')
        lo = max(lo, 0); hi = min(hi, ob.size)
    if lo % 8: return False
    w8 = int.from_bytes(bytes([val & 255]) * 8, 'little')
    vals = []
    for q in range(lo, hi, 8):
        c = land(le(p.off, q), lt(q, end))
        cell = ob.cells.get(q)
        old = cell[1] if cell is not None and cell[0] == 8 else I.load(st, Ptr(p.obj, q), 8)
        vals.append((q, I.mergemem(c, w8, old) if c.__class__ is E else (w8 if c else old)))
    for q, v in vals: I.store(st, Ptr(p.obj, q), 8, v)
    return True

def constleaves8(x):
    if x.__class__ is int: return x % 8 == 0
    if x.op == 'ite': return constleaves8(x.args[1]) and constleaves8(x.args[2])
    if x.op == 'lin': return x.args[0] % 8 == 0 and all(c % 8 == 0 or constleaves8(t) for t, c in x.args[1])
    return False

def vafmt(I, st, fp, va):
    area = I.load(st, Ptr(va.obj, va.off + 8), 8)
    try: return fmt(I, st, fp, lambda: va_next(I, st, va))
    except Fork:
        I.store(st, Ptr(va.obj, va.off + 8), 8, area); raise

def fmt(I, st, fp, nxt):
    """expand a printf format; nxt() yields the next argument; returns char list"""
    f = I.cstr(st, fp)
    if any(c.__class__ is not int for c in f): raise Unsupported('symbolic format')
    f = bytes(f).decode('latin1')
    out = []; i = 0
    while i < len(f):
        c = f[i]
        if c != '%': out.append(ord(c)); i += 1; continue
        j = i + 1
        while j < len(f) and f[j] in '0123456789.-+ #': j += 1
        spec = f[i + 1:j]
        ln = ''
        while j < len(f) and f[j] in 'lhzZ': ln += f[j]; j += 1
        cv = f[j] if j < len(f) else ''
        j += 1
        if cv == '%': s = [37]
        elif 'Z' in ln:
            s = zdigits(I, st, zget(I, st, nxt()), 16 if cv in 'xX' else 10)
        elif cv in 'di':
            w = 64 if ('l' in ln or 'z' in ln) else 32
            s = zdigits(I, st, signed(mod(nxt(), 1 << w), w), 10)
        elif cv in 'ux':
            w = 64 if ('l' in ln or 'z' in ln) else 32
            s = zdigits(I, st, mod(nxt(), 1 << w), 16 if cv == 'x' else 10)
        elif cv == 's': s = I.cstr(st, nxt())
        elif cv == 'c': s = [mod(nxt(), 256)]
        elif cv == 'p': nxt(); s = [ord(x) for x in '0x1']
        elif cv in 'fgeE': nxt(); s = [ord('0')]
        else: raise Unsupported('format %' + spec + ln + cv)
        if any(x in spec for x in '+ #'): raise Unsupported('format %' + spec + ln + cv)
        wd = ''.join(x for x in spec if x.isdigit() or x == '.')
        if wd and '.' not in wd:
            n = int(wd)
            zero = wd.startswith('0') and '-' not in spec
            while len(s) < n: s = s + [32] if '-' in spec else [s[0]] + [48] + s[1:] if zero and s[0].__class__ is int and s[0] == 45 else [48 if zero else 32] + s
        elif '.' in wd:
            n = int(wd.split('.')[1] or 0)
            if cv == 's': s = s[:n]
            else:
                while len(s) < n: s = [48] + s
        out += s
        i = j
    return out

def argiter(args):
    it = iter(args)
    return lambda: next(it)

# --------------------------------------------------------------------- files
# st.files: handle name -> (kind, content tuple, pos)
def fwrite_(I, st, h, bs):
    k = fkey(h)
    f = st.files.get(k)
    if f is None: raise VErr('bad-file', 'write to closed stream')
    if f[0] == 'mem': st.files[k] = (f[0], f[1] + tuple(bs), f[2])

def fkey(h):
    if h.__class__ is Ptr: return h.obj
    if h.__class__ is int: raise VErr('null-deref', 'NULL FILE pointer')
    raise VErr('bad-file', 'bad FILE pointer')

def exitpath(I, st, what):
    if st.flags.get('allow_exit'): raise PathEnd(what)
    I.candidate(st, 1, what, '%s called from %s' % (what, st.frames[-1].fn.name))
    raise PathEnd(what)

def init_state(I, st):
    for n in ('stdin', 'stdout', 'stderr'):
        g = I.gl.get(n)
        o = I.alloc(st, 216, 'file', n, True)
        st.files[o.obj] = ('std', (), 0)
        if g is not None: I.store(st, Ptr(g, 0), 8, o)

def install(I):
    intr = I.intr
    I.llvmintr = {}
    def reg(*names):
        def deco(f):
            for n in names: intr[n] = f
            return f
        return deco
    def Zn(*names):
        return reg(*['__gmpz_' + n for n in names])
    g = lambda st, p: zget(I, st, p)
    s = lambda st, p, v: zset(I, st, p, v)

    # ---- lifecycle
    @Zn('init')
    def _(I, st, a): zinit(I, st, a[0])
    @Zn('init2')
    def _(I, st, a): zinit(I, st, a[0])
    @Zn('init_set')
    def _(I, st, a): zinit(I, st, a[0], g(st, a[1]))
    @Zn('init_set_ui')
    def _(I, st, a): zinit(I, st, a[0], a[1])
    @Zn('init_set_si')
    def _(I, st, a): zinit(I, st, a[0], s64(a[1]))
    @Zn('init_set_str')
    def _(I, st, a):
        v = parse_int(I, st, I.cstr(st, a[1]), signed(a[2], 32))
        zinit(I, st, a[0], v if v is not None else 0)
        return 0 if v is not None else MASK[32]
    @Zn('inits')
    def _(I, st, a):
        for p in a:
            if p.__class__ is Ptr: zinit(I, st, p)
    @Zn('clears')
    def _(I, st, a):
        for p in a:
            if p.__class__ is Ptr: zclear(I, st, p)
    @Zn('clear')
    def _(I, st, a): zclear(I, st, a[0])
    @Zn('realloc', 'realloc2')
    def _(I, st, a):
        p = a[0]
        c = st.mem[p.obj].cells.get(p.off)
        n = I.concretize(st, a[1])
        if c is not None and c[1].__class__ is Z: mpz_rawify(I, st, p.obj, p.off, n)
        return I.load(st, Ptr(p.obj, p.off + 8), 8)
    # ---- assignment
    def israw(st, p):
        if p.__class__ is not Ptr or p.off.__class__ is not int: return False
        ob = st.mem.get(p.obj)
        c = ob.cells.get(p.off) if ob is not None else None
        return c is not None and c[0] == 4 and ob.cells.get(p.off + 8, (0, 0))[1].__class__ is Ptr
    @Zn('set')
    def _(I, st, a):
        if israw(st, a[0]) and israw(st, a[1]):
            # GMP copies exactly |size| limbs, normalised or not
            sz = I.load(st, Ptr(a[1].obj, a[1].off + 4), 4); al = I.load(st, a[0], 4)
            if sz.__class__ is int and al.__class__ is int and abs(signed(sz, 32)) <= signed(al, 32):
                sd = I.load(st, Ptr(a[1].obj, a[1].off + 8), 8); dd = I.load(st, Ptr(a[0].obj, a[0].off + 8), 8)
                I.memcpy(st, dd, sd, 8 * abs(signed(sz, 32)))
                I.store(st, Ptr(a[0].obj, a[0].off + 4), 4, sz); return
        s(st, a[0], g(st, a[1]))
    @Zn('set_ui')
    def _(I, st, a): ck(a[1]); s(st, a[0], a[1])
    @Zn('set_si')
    def _(I, st, a): ck(a[1]); s(st, a[0], s64(a[1]))
    def ck(x):
        if x is UNDEF: raise VErr('uninit', 'uninitialised integer passed to GMP')
        if x.__class__ is Ptr: raise VErr('bad-mpz', 'pointer passed as integer')
    @Zn('swap')
    def _(I, st, a):
        x, y = g(st, a[0]), g(st, a[1]); s(st, a[0], y); s(st, a[1], x)
    @Zn('set_str')
    def _(I, st, a):
        v = parse_int(I, st, I.cstr(st, a[1]), signed(a[2], 32))
        if v is None: return MASK[32]
        s(st, a[0], v); return 0
    # ---- arithmetic
    def ar(n, f):
        def h(I, st, a): s(st, a[0], f(g(st, a[1]), g(st, a[2])))
        intr['__gmpz_' + n] = h
    ar('add', add); ar('sub', sub); ar('mul', mul)
    def arui(n, f):
        def h(I, st, a): ck(a[2]); s(st, a[0], f(g(st, a[1]), a[2]))
        intr['__gmpz_' + n] = h
    arui('add_ui', add); arui('sub_ui', sub); arui('mul_ui', mul)
    @Zn('mul_si')
    def _(I, st, a): ck(a[2]); s(st, a[0], mul(g(st, a[1]), s64(a[2])))
    @Zn('ui_sub')
    def _(I, st, a): s(st, a[0], sub(a[1], g(st, a[2])))
    @Zn('addmul')
    def _(I, st, a): s(st, a[0], add(g(st, a[0]), mul(g(st, a[1]), g(st, a[2]))))
    @Zn('submul')
    def _(I, st, a): s(st, a[0], sub(g(st, a[0]), mul(g(st, a[1]), g(st, a[2]))))
    @Zn('neg')
    def _(I, st, a): s(st, a[0], neg(g(st, a[1])))
    @Zn('abs')
    def _(I, st, a): s(st, a[0], abs_(g(st, a[1])))
    @Zn('mul_2exp')
    def _(I, st, a):
        n = I.concretize(st, a[2])
        if n > 1 << 20: raise Unsupported('huge shift')
        s(st, a[0], scale(g(st, a[1]), 1 << n))
    @Zn('tdiv_q_2exp')
    def _(I, st, a): s(st, a[0], tdiv_q(I, st, g(st, a[1]), 1 << I.concretize(st, a[2])))
    @Zn('fdiv_q_2exp')
    def _(I, st, a): s(st, a[0], fdiv(g(st, a[1]), 1 << I.concretize(st, a[2])))
    @Zn('fdiv_r_2exp')
    def _(I, st, a): s(st, a[0], mod(g(st, a[1]), 1 << I.concretize(st, a[2])))
    @Zn('tdiv_q')
    def _(I, st, a): s(st, a[0], tdiv_q(I, st, g(st, a[1]), g(st, a[2])))
    @Zn('tdiv_r')
    def _(I, st, a):
        x, y = g(st, a[1]), g(st, a[2])
        s(st, a[0], sub(x, mul(tdiv_q(I, st, x, y), y)))
    @Zn('tdiv_q_ui')
    def _(I, st, a):
        x, y = g(st, a[1]), a[2]
        q = tdiv_q(I, st, x, y); s(st, a[0], q)
        return abs_(sub(x, mul(q, y)))
    @Zn('tdiv_qr')
    def _(I, st, a):
        x, y = g(st, a[2]), g(st, a[3])
        q = tdiv_q(I, st, x, y); s(st, a[0], q); s(st, a[1], sub(x, mul(q, y)))
    @Zn('fdiv_q')
    def _(I, st, a): s(st, a[0], fdiv_q(I, st, g(st, a[1]), g(st, a[2])))
    @Zn('fdiv_r')
    def _(I, st, a):
        x, y = g(st, a[1]), g(st, a[2])
        s(st, a[0], sub(x, mul(fdiv_q(I, st, x, y), y)))
    @Zn('fdiv_qr')
    def _(I, st, a):
        x, y = g(st, a[2]), g(st, a[3])
        q = fdiv_q(I, st, x, y); r = sub(x, mul(q, y)) if y.__class__ is not int or y < 0 else mod(x, y)
        s(st, a[0], q); s(st, a[1], r)
    @Zn('fdiv_ui')
    def _(I, st, a): return zmod(I, st, g(st, a[0]), a[1])
    @Zn('fdiv_r_ui')
    def _(I, st, a):
        r = zmod(I, st, g(st, a[1]), a[2]); s(st, a[0], r); return r
    @Zn('fdiv_q_ui')
    def _(I, st, a):
        x = g(st, a[1]); s(st, a[0], fdiv_q(I, st, x, a[2])); return zmod(I, st, x, a[2])
    @Zn('tdiv_ui')
    def _(I, st, a): return zmod(I, st, abs_(g(st, a[0])), a[1])
    @Zn('mod')
    def _(I, st, a): s(st, a[0], zmod(I, st, g(st, a[1]), g(st, a[2])))
    @Zn('divexact')
    def _(I, st, a): s(st, a[0], divexact(st, g(st, a[1]), g(st, a[2])))
    @Zn('divexact_ui')
    def _(I, st, a): s(st, a[0], divexact(st, g(st, a[1]), a[2]))
    def divexact(st, x, y):
        q = tdiv_q(I, st, x, y)
        r = ne(sub(x, mul(q, y)), 0)
        if not (r.__class__ is int and r == 0):
            if I.decide(st, r): raise VErr('inexact-divexact', 'mpz_divexact with non-divisible operands')
        return q
    @Zn('pow_ui')
    def _(I, st, a):
        b = g(st, a[1]); e = I.concretize(st, a[2]); r = 1
        if b.__class__ is int: r = b ** e
        else:
            for i in range(e): r = mul(r, b)
        s(st, a[0], r)
    @Zn('ui_pow_ui')
    def _(I, st, a): s(st, a[0], I.concretize(st, a[1]) ** I.concretize(st, a[2]))
    @Zn('powm')
    def _(I, st, a): s(st, a[0], powm(I, st, g(st, a[1]), g(st, a[2]), g(st, a[3])))
    @Zn('powm_ui')
    def _(I, st, a): s(st, a[0], powm(I, st, g(st, a[1]), a[2], g(st, a[3])))
    @Zn('invert')
    def _(I, st, a):
        ok, v = invmod(I, st, g(st, a[1]), g(st, a[2]))
        if ok.__class__ is int:
            if ok: s(st, a[0], v)
            return ok
        if I.decide(st, ok): s(st, a[0], v); return 1
        return 0
    @Zn('gcd')
    def _(I, st, a):
        x, y = g(st, a[1]), g(st, a[2])
        if x.__class__ is int: x, y = y, x
        y = I.concretize(st, y)
        if x.__class__ is E and y and abs(y) < TABLIM: x = mod(x, abs(y))
        s(st, a[0], fn1(I, st, x, lambda v: math.gcd(v, y)))
    @Zn('lcm')
    def _(I, st, a):
        x, y = conc2(I, st, g(st, a[1]), g(st, a[2])); s(st, a[0], math.lcm(x, y))
    @Zn('sqrt')
    def _(I, st, a):
        x = g(st, a[1])
        if rng(x)[0] < 0:
            if I.decide(st, lt(x, 0)): raise VErr('gmp-sqrt-negative', 'mpz_sqrt of a negative number')
        s(st, a[0], fn1(I, st, x if x.__class__ is int or x.lo >= 0 else ite(lt(x, 0), 0, x), isqrt))
    @Zn('perfect_square_p')
    def _(I, st, a): return fn1(I, st, g(st, a[0]), lambda v: int(v >= 0 and isqrt(v) ** 2 == v))
    @Zn('fac_ui')
    def _(I, st, a): s(st, a[0], math.factorial(I.concretize(st, a[1])))
    @Zn('nextprime')
    def _(I, st, a): s(st, a[0], fn1(I, st, g(st, a[1]), nextprime))
    @Zn('probab_prime_p')
    def _(I, st, a): return fn1(I, st, g(st, a[0]), lambda v: 2 if isprime(abs(v)) and abs(v) < 10**12 else (1 if isprime(abs(v)) else 0))
    @Zn('perfect_power_p')
    def _(I, st, a):
        def pp(v):
            v = abs(v)
            if v <= 1: return 1
            for k in range(2, v.bit_length() + 1):
                r = round(v ** (1.0 / k))
                for q in (r - 1, r, r + 1):
                    if q > 1 and q ** k == v: return 1
            return 0
        return fn1(I, st, g(st, a[0]), pp)
    @Zn('legendre', 'jacobi', 'kronecker')
    def _(I, st, a):
        p = I.concretize(st, g(st, a[1]))
        if p <= 0 or p % 2 == 0: raise Unsupported('legendre modulus')
        x = mod(g(st, a[0]), p)
        if x.__class__ is E and x.hi - x.lo >= TABLIM:
            raise Unsupported('legendre of large symbolic value')
        return mod(fn1(I, st, x, lambda v: legendre(v, p)), 1 << 32)
    @Zn('divisible_p')
    def _(I, st, a):
        y = g(st, a[1])
        if y.__class__ is int and y == 0: return eq(g(st, a[0]), 0)
        return eq(zmod(I, st, g(st, a[0]), y), 0)
    @Zn('divisible_ui_p')
    def _(I, st, a): return eq(zmod(I, st, g(st, a[0]), a[1]), 0)
    # ---- comparison
    def sgn3(c1, c2): return ite(c1, MASK[32], ite(c2, 1, 0))
    @Zn('cmp')
    def _(I, st, a):
        d = sub(g(st, a[0]), g(st, a[1])); return sgn3(lt(d, 0), lt(0, d))
    @Zn('cmp_ui')
    def _(I, st, a):
        d = sub(g(st, a[0]), a[1]); return sgn3(lt(d, 0), lt(0, d))
    @Zn('cmp_si')
    def _(I, st, a):
        d = sub(g(st, a[0]), s64(a[1])); return sgn3(lt(d, 0), lt(0, d))
    @Zn('cmpabs')
    def _(I, st, a):
        d = sub(abs_(g(st, a[0])), abs_(g(st, a[1]))); return sgn3(lt(d, 0), lt(0, d))
    @Zn('cmpabs_ui')
    def _(I, st, a):
        d = sub(abs_(g(st, a[0])), a[1]); return sgn3(lt(d, 0), lt(0, d))
    @reg('vp_mpz_sgn')
    def _(I, st, a):
        d = g(st, a[0]); return sgn3(lt(d, 0), lt(0, d))
    @reg('vp_mpz_odd_p')
    def _(I, st, a): return mod(g(st, a[0]), 2)
    @reg('vp_mpz_even_p')
    def _(I, st, a): return sub(1, mod(g(st, a[0]), 2))
    @Zn('fits_ulong_p')
    def _(I, st, a):
        v = g(st, a[0]); return land(le(0, v), lt(v, LIMB))
    @Zn('fits_slong_p')
    def _(I, st, a):
        v = g(st, a[0]); return land(le(-(1 << 63), v), lt(v, 1 << 63))
    @Zn('fits_sint_p')
    def _(I, st, a):
        v = g(st, a[0]); return land(le(-(1 << 31), v), lt(v, 1 << 31))
    @Zn('get_ui')
    def _(I, st, a): return u64(abs_(g(st, a[0])))
    @Zn('get_si')
    def _(I, st, a):
        v = g(st, a[0])
        if v.__class__ is int:
            m = abs(v) & (ALL1 >> 1)
            return (m if v >= 0 else -m) & ALL1
        m = mod(abs_(v), 1 << 63)
        return u64(ite(lt(v, 0), neg(m), m))
    @Zn('get_d')
    def _(I, st, a): return float(I.concretize(st, g(st, a[0])))
    @Zn('size')
    def _(I, st, a): return nlimbs(g(st, a[0]))
    @Zn('sizeinbase')
    def _(I, st, a):
        b = I.concretize(st, a[1]); v = g(st, a[0])
        if b == 2: return bitlen(v)
        if v.__class__ is E: 
            r = 1; k = 1; x = abs_(v)
            while b ** k <= x.hi: r = add(r, le(b ** k, x)); k += 1
            return r
        n = 0; x = abs(v)
        while x: x //= b; n += 1
        return max(n, 1)
    @Zn('tstbit')
    def _(I, st, a):
        i = I.concretize(st, a[1])
        return mod(fdiv(g(st, a[0]), 1 << i), 2)
    @Zn('setbit')
    def _(I, st, a):
        i = I.concretize(st, a[1]); v = g(st, a[0])
        s(st, a[0], ite(mod(fdiv(v, 1 << i), 2), v, add(v, 1 << i)))
    @Zn('clrbit')
    def _(I, st, a):
        i = I.concretize(st, a[1]); v = g(st, a[0])
        s(st, a[0], ite(mod(fdiv(v, 1 << i), 2), sub(v, 1 << i), v))
    @Zn('popcount')
    def _(I, st, a):
        v = g(st, a[0])
        if v.__class__ is int: return bin(v).count('1') if v >= 0 else ALL1
        r = 0
        for i in range(v.hi.bit_length()): r = add(r, mod(fdiv(v, 1 << i), 2))
        return r if v.lo >= 0 else ite(lt(v, 0), ALL1, r)
    @Zn('scan1')
    def _(I, st, a):
        v = g(st, a[0]); i = I.concretize(st, a[1])
        while True:
            if rng(v) == (0, 0): return ALL1
            if I.decide(st, mod(fdiv(v, 1 << i), 2)): return i
            i += 1
            if i > rng(v)[1].bit_length() + 2: return ALL1
    @Zn('scan0')
    def _(I, st, a):
        v = g(st, a[0]); i = I.concretize(st, a[1])
        while I.decide(st, mod(fdiv(v, 1 << i), 2)): i += 1
        return i
    @Zn('and')
    def _(I, st, a): s(st, a[0], and_(g(st, a[1]), g(st, a[2])))
    @Zn('ior')
    def _(I, st, a): s(st, a[0], or_(g(st, a[1]), g(st, a[2])))
    @Zn('xor')
    def _(I, st, a): s(st, a[0], xor_(g(st, a[1]), g(st, a[2])))
    @Zn('getlimbn')
    def _(I, st, a): return mod(fdiv(abs_(g(st, a[0])), 1 << (64 * I.concretize(st, a[1]))), LIMB)
    # ---- import/export
    @Zn('import')
    def _(I, st, a):
        z, count, order, size, endian, nails, p = a
        count = I.concretize(st, count); order = signed(order, 32); size = I.concretize(st, size); endian = signed(endian, 32)
        if nails != 0: raise Unsupported('nails')
        if count * size: I.chk(st, p, count * size)
        v = []
        for w in range(count):
            pos = (count - 1 - w) if order == 1 else w
            for b in range(size):
                bp = (size - 1 - b) if endian == 1 else b
                q = Ptr(p.obj, add(p.off, w * size + b)) if size == 1 or endian == 1 else None
                if endian != 1 and size in (8,):
                    if b == 0:
                        x = I.load(st, Ptr(p.obj, add(p.off, w * size)), size)
                        if x is UNDEF: raise VErr('uninit', 'mpz_import of uninitialised memory')
                        v.append((x, 1 << (8 * pos * size)))
                    continue
                x = I.load(st, q if q is not None else Ptr(p.obj, add(p.off, w * size + b)), 1)
                if x is UNDEF: raise VErr('uninit', 'mpz_import of uninitialised memory')
                v.append((x, 1 << (8 * (pos * size + bp))))
        s(st, z, lincomb(v))
    @Zn('export')
    def _(I, st, a):
        p, cp, order, size, endian, nails, z = a
        order = signed(order, 32); size = I.concretize(st, size); endian = signed(endian, 32)
        v = abs_(g(st, z))
        w = 8 * size
        n = nwords(v, w)
        if n.__class__ is E and order != 1 and p.__class__ is Ptr:
            if n.hi * size > st.mem[p.obj].size - rng(p.off)[1] and I.decide(st, lt((st.mem[p.obj].size - rng(p.off)[1]) // size, n)):
                raise VErr('out-of-bounds', 'mpz_export overflows its buffer')
            mx = min(n.hi, (st.mem[p.obj].size - rng(p.off)[1]) // size)
            olds = []
            for i in range(mx):
                cell = st.mem[p.obj].cells.get(add(p.off, i * size)) if p.off.__class__ is int else None
                olds.append(cell[1] if cell is not None and cell[0] == size else I.load(st, Ptr(p.obj, add(p.off, i * size)), size))
            for i in range(mx):
                x = mod(fdiv(v, 1 << (w * i)), 1 << w) if w != 64 else X.limb(v, i)
                I.store(st, Ptr(p.obj, add(p.off, i * size)), size, I.mergemem(lt(i, n), x, olds[i]))
            if cp.__class__ is Ptr: I.store(st, cp, 8, n)
            return p
        if n.__class__ is E: n = I.concretize(st, n)
        if p.__class__ is int and p == 0: raise Unsupported('mpz_export NULL')
        if n: I.chk(st, p, n * size, True)
        for i in range(n):
            pos = (n - 1 - i) if order == 1 else i
            x = mod(fdiv(v, 1 << (w * pos)), 1 << w) if w != 64 else X.limb(v, pos)
            if size == 1 or endian != 1: I.store(st, Ptr(p.obj, add(p.off, i * size)), size, x)
            else:
                for b in range(size): I.store(st, Ptr(p.obj, add(p.off, i * size + b)), 1, mod(fdiv(x, 1 << (8 * (size - 1 - b))), 256))
        if cp.__class__ is Ptr: I.store(st, cp, 8, n)
        return p
    # ---- output
    @Zn('out_str')
    def _(I, st, a):
        f = a[0]
        if f.__class__ is int: raise Unsupported('out_str to NULL')
        k = fkey(f)
        if st.files.get(k, ('std',))[0] == 'std':
            return fn1(I, st, g(st, a[2]), lambda v: len(zdigits(I, st, v, signed(a[1], 32)))) if rng(g(st, a[2]))[1] < TABLIM else 1
        ds = zdigits(I, st, g(st, a[2]), signed(a[1], 32))
        fwrite_(I, st, f, ds); return len(ds)
    @Zn('out_raw')
    def _(I, st, a): raise Unsupported('mpz_out_raw')
    @Zn('get_str')
    def _(I, st, a):
        ds = zdigits(I, st, g(st, a[2]), signed(a[1], 32))
        p = a[0]
        if p.__class__ is int and p == 0:
            p = I.alloc(st, len(ds) + 1, 'heap', 'mpz_get_str'); st.nlive = add(st.nlive, 1)
        put_bytes(I, st, p, ds + [0]); return p
    # random
    @Zn('urandomm')
    def _(I, st, a):
        m = I.concretize(st, g(st, a[2]))
        s(st, a[0], newvar(I, st, 'urandomm', 0, m - 1))
    @reg('__gmp_randinit_default', '__gmp_randseed_ui', '__gmp_randclear', '__gmp_randinit_mt')
    def _(I, st, a): return 0
    @reg('__gmp_set_memory_functions')
    def _(I, st, a): return 0
    @reg('__gmp_get_memory_functions')
    def _(I, st, a):
        for p, n in zip(a, ('malloc', 'realloc', 'free')):
            if p.__class__ is Ptr: I.store(st, p, 8, Fn('vp_gmp_' + n))

    # ---------------------------------------------------------------- mpn
    def N(*names): return reg(*['__gmpn_' + n for n in names])
    def cn(st, n): return I.concretize(st, n)
    L = lambda st, p, n: limbs(I, st, p, n)
    def W(st, p, n, v): setlimbs(I, st, p, n, v)
    def carry(v, n): return fdiv(v, 1 << (64 * n))
    @N('add_n')
    def _(I, st, a):
        n = cn(st, a[3]); v = add(L(st, a[1], n), L(st, a[2], n)); W(st, a[0], n, v); return carry(v, n)
    @N('sub_n')
    def _(I, st, a):
        n = cn(st, a[3]); v = sub(L(st, a[1], n), L(st, a[2], n)); W(st, a[0], n, v); return lt(v, 0)
    @N('add_1')
    def _(I, st, a):
        n = cn(st, a[2]); v = add(L(st, a[1], n), a[3]); W(st, a[0], n, v); return carry(v, n)
    @N('sub_1')
    def _(I, st, a):
        n = cn(st, a[2]); v = sub(L(st, a[1], n), a[3]); W(st, a[0], n, v); return lt(v, 0)
    @N('mul_1')
    def _(I, st, a):
        n = cn(st, a[2]); v = mul(L(st, a[1], n), a[3]); W(st, a[0], n, v); return carry(v, n)
    @N('addmul_1')
    def _(I, st, a):
        n = cn(st, a[2]); v = add(L(st, a[0], n), mul(L(st, a[1], n), a[3])); W(st, a[0], n, v); return carry(v, n)
    @N('submul_1')
    def _(I, st, a):
        n = cn(st, a[2]); v = sub(L(st, a[0], n), mul(L(st, a[1], n), a[3])); W(st, a[0], n, v); return neg(carry(v, n))
    @N('mul_n')
    def _(I, st, a):
        n = cn(st, a[3])
        if overlap(a[0], 2 * n, a[1], n) or overlap(a[0], 2 * n, a[2], n): raise VErr('mpn-overlap', 'mpn_mul_n operand overlap')
        v = mul(L(st, a[1], n), L(st, a[2], n)); W(st, a[0], 2 * n, v)
    @N('sqr')
    def _(I, st, a):
        n = cn(st, a[2]); x = L(st, a[1], n); W(st, a[0], 2 * n, mul(x, x))
    @N('mul')
    def _(I, st, a):
        n, m = cn(st, a[2]), cn(st, a[4])
        v = mul(L(st, a[1], n), L(st, a[3], m)); W(st, a[0], n + m, v); return carry(v, n + m - 1)
    def overlap(p, n, q, m):
        return p.obj == q.obj and p.off.__class__ is int and q.off.__class__ is int and p.off < q.off + 8 * m and q.off < p.off + 8 * n
    @N('tdiv_qr')
    def _(I, st, a):
        qp, rp, qxn, np_, nn, dp, dn = a
        nn, dn = cn(st, nn), cn(st, dn)
        D = L(st, dp, dn); v = L(st, np_, nn)
        top = fdiv(D, 1 << (64 * (dn - 1)))
        if top.__class__ is int and top == 0: raise VErr('mpn-div', 'mpn_tdiv_qr divisor not normalised')
        D = I.concretize(st, D)
        W(st, qp, nn - dn + 1, fdiv(v, D)); W(st, rp, dn, mod(v, D))
    @N('cmp')
    def _(I, st, a):
        n = cn(st, a[2]); d = sub(L(st, a[0], n), L(st, a[1], n)); return sgn3(lt(d, 0), lt(0, d))
    @N('zero_p')
    def _(I, st, a):
        n = cn(st, a[1]); return eq(L(st, a[0], n), 0)
    @N('zero')
    def _(I, st, a):
        n = cn(st, a[1]); W(st, a[0], n, 0)
    @N('copyi', 'copyd')
    def _(I, st, a):
        n = cn(st, a[2]); I.memcpy(st, a[0], a[1], 8 * n)
    @N('lshift')
    def _(I, st, a):
        n = cn(st, a[2]); k = cn(st, a[3]); v = scale(L(st, a[1], n), 1 << k); W(st, a[0], n, v); return carry(v, n)
    @N('rshift')
    def _(I, st, a):
        n = cn(st, a[2]); k = cn(st, a[3]); x = L(st, a[1], n); W(st, a[0], n, fdiv(x, 1 << k))
        return scale(mod(x, 1 << k), 1 << (64 - k))
    @N('neg')
    def _(I, st, a):
        n = cn(st, a[2]); x = L(st, a[1], n); W(st, a[0], n, mod(neg(x), 1 << (64 * n))); return ne(x, 0)

    # ---------------------------------------------------------------- printf
    @reg('printf', '__gmp_printf', 'puts', 'putchar', 'perror', 'vprintf', '__gmp_vprintf')
    def _(I, st, a): return 1
    @reg('fprintf', '__gmp_fprintf')
    def _(I, st, a):
        k = fkey(a[0])
        if st.files.get(k, ('std',))[0] == 'std': return 1
        bs = fmt(I, st, a[1], argiter(a[2:]))
        fwrite_(I, st, a[0], bs); return len(bs)
    @reg('vfprintf', '__gmp_vfprintf')
    def _(I, st, a):
        k = fkey(a[0])
        if st.files.get(k, ('std',))[0] == 'std': return 1
        bs = vafmt(I, st, a[1], a[2])
        fwrite_(I, st, a[0], bs); return len(bs)
    def snp(I, st, p, n, bs):
        n = I.concretize(st, n)
        if n:
            w = bs[:n - 1] + [0]
            put_bytes(I, st, p, w)
        return len(bs)
    @reg('snprintf', '__gmp_snprintf')
    def _(I, st, a): return snp(I, st, a[0], a[1], fmt(I, st, a[2], argiter(a[3:])))
    @reg('vsnprintf', '__gmp_vsnprintf')
    def _(I, st, a):
        return snp(I, st, a[0], a[1], vafmt(I, st, a[2], a[3]))
    @reg('sprintf', '__gmp_sprintf')
    def _(I, st, a):
        bs = fmt(I, st, a[1], argiter(a[2:])); put_bytes(I, st, a[0], bs + [0]); return len(bs)
    @reg('fputc', 'putc', '_IO_putc')
    def _(I, st, a): fwrite_(I, st, a[1], [mod(a[0], 256)]); return mod(a[0], 256)
    @reg('fputs')
    def _(I, st, a): fwrite_(I, st, a[1], I.cstr(st, a[0])); return 1
    @reg('fwrite')
    def _(I, st, a):
        n = I.concretize(st, a[1]) * I.concretize(st, a[2])
        fwrite_(I, st, a[3], [I.load(st, Ptr(a[0].obj, add(a[0].off, i)), 1) for i in range(n)]); return a[2]
    @reg('fflush', 'setbuf', 'setvbuf')
    def _(I, st, a): return 0
    @reg('fopen')
    def _(I, st, a):
        nm = I.pystr(st, a[0])
        if nm == '/dev/urandom': c = None
        else:
            c = I.vfiles.get(nm)
            if c is None: return 0
        o = I.alloc(st, 216, 'file', nm, True)
        st.files[o.obj] = ('rand', (), 0) if nm == '/dev/urandom' else ('in', tuple(c), 0)
        st.nlive = add(st.nlive, 1)
        return o
    I.vfiles = {}
    @reg('vp_file')
    def _(I, st, a):
        n = I.concretize(st, a[2]); I.vfiles[I.pystr(st, a[0])] = [I.load(st, Ptr(a[1].obj, add(a[1].off, i)), 1) for i in range(n)]; return 0
    @reg('fclose')
    def _(I, st, a):
        k = fkey(a[0])
        if k not in st.files: raise VErr('double-fclose', 'fclose of closed stream')
        del st.files[k]; st.mem.pop(k, None); st.nlive = sub(st.nlive, 1); return 0
    @reg('fread')
    def _(I, st, a):
        k = fkey(a[3]); f = st.files.get(k)
        sz = I.concretize(st, a[1]); n = I.concretize(st, a[2])
        if f is None: raise VErr('bad-file', 'fread of closed stream')
        I.chk(st, a[0], sz * n, True)
        if f[0] == 'rand':
            for i in range(sz * n): I.store(st, Ptr(a[0].obj, add(a[0].off, i)), 1, newvar(I, st, 'urandom', 0, 255))
            return n
        data = f[1][f[2]:f[2] + sz * n]
        for i, b in enumerate(data): I.store(st, Ptr(a[0].obj, add(a[0].off, i)), 1, b)
        st.files[k] = (f[0], f[1], f[2] + len(data))
        return len(data) // sz if sz else 0
    @reg('fgetc', 'getc', '_IO_getc')
    def _(I, st, a):
        k = fkey(a[0]); f = st.files.get(k)
        if f[0] != 'in' or f[2] >= len(f[1]): return MASK[32]
        st.files[k] = (f[0], f[1], f[2] + 1); return f[1][f[2]]
    @reg('feof')
    def _(I, st, a):
        f = st.files.get(fkey(a[0])); return int(f[0] == 'in' and f[2] >= len(f[1]))

    # ---------------------------------------------------------------- libc
    @reg('malloc', 'vp_gmp_malloc')
    def _(I, st, a):
        n = I.concretize(st, a[0])
        if n > 1 << 30: raise VErr('huge-malloc', 'malloc(%d)' % n)
        st.nlive = add(st.nlive, 1)
        return I.alloc(st, n, 'heap', st.frames[-1].fn.name)
    @reg('calloc')
    def _(I, st, a):
        n = I.concretize(st, a[0]) * I.concretize(st, a[1])
        st.nlive = add(st.nlive, 1)
        return I.alloc(st, n, 'heap', st.frames[-1].fn.name, True)
    @reg('free', 'vp_gmp_free')
    def _(I, st, a):
        p = a[0]
        if p.__class__ is int and p == 0: return
        if p is UNDEF: raise VErr('uninit', 'free of uninitialised pointer')
        if p.__class__ is not Ptr: raise VErr('bad-free', 'free of %r' % (p,))
        ob = st.mem.get(p.obj)
        if ob is None: raise VErr('double-free', 'object #%d' % p.obj)
        if ob.kind != 'heap' or p.off.__class__ is not int or p.off != 0: raise VErr('bad-free', 'free of %s object %s at offset %s' % (ob.kind, ob.name, p.off))
        del st.mem[p.obj]
        st.nlive = sub(st.nlive, 1)
    @reg('realloc', 'vp_gmp_realloc')
    def _(I, st, a):
        p = a[0]; n = I.concretize(st, a[-1])
        if p.__class__ is int and p == 0:
            st.nlive = add(st.nlive, 1); return I.alloc(st, n, 'heap', st.frames[-1].fn.name)
        if p.__class__ is not Ptr: raise VErr('bad-free', 'realloc of %r' % (p,))
        ob = st.mem.get(p.obj)
        if ob is None: raise VErr('double-free', 'realloc of dead object')
        if ob.kind != 'heap' or p.off != 0: raise VErr('bad-free', 'realloc of non-heap')
        q = I.alloc(st, n, 'heap', ob.name)
        I.memcpy(st, q, p, min(n, ob.size))
        del st.mem[p.obj]
        return q
    def mc(I, st, a):
        n = a[2]
        if n.__class__ is not int: n = I.concretize(st, n)
        if n: I.memcpy(st, a[0], a[1], n)
        return a[0]
    for nm in ('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk'): intr[nm] = mc
    def ms(I, st, a):
        n = a[2]
        if a[0].__class__ is Ptr and (n.__class__ is E or a[0].off.__class__ is E) and a[1].__class__ is int:
            if symset(I, st, a[0], a[1], n): return a[0]
        if n.__class__ is not int: n = I.concretize(st, n)
        if n and a[0].off.__class__ is E: a = [Ptr(a[0].obj, I.concretize(st, a[0].off))] + list(a[1:])
        if n: I.memset(st, a[0], a[1], n)
        return a[0]
    intr['memset'] = ms; intr['__memset_chk'] = ms
    I.llvmintr['llvm.memcpy'] = mc; I.llvmintr['llvm.memmove'] = mc; I.llvmintr['llvm.memset'] = ms
    def vacopy(I, st, a): I.memcpy(st, a[0], a[1], 24)
    I.llvmintr['llvm.va_copy'] = vacopy
    I.llvmintr['llvm.stacksave'] = lambda I, st, a: 0
    I.llvmintr['llvm.expect'] = lambda I, st, a: a[0]
    I.llvmintr['llvm.smax.i32'] = lambda I, st, a: mod(max_(signed(a[0], 32), signed(a[1], 32)), 1 << 32)
    I.llvmintr['llvm.smin.i32'] = lambda I, st, a: mod(min_(signed(a[0], 32), signed(a[1], 32)), 1 << 32)
    I.llvmintr['llvm.umax'] = lambda I, st, a: max_(a[0], a[1])
    I.llvmintr['llvm.umin'] = lambda I, st, a: min_(a[0], a[1])
    I.llvmintr['llvm.abs.i32'] = lambda I, st, a: mod(abs_(signed(a[0], 32)), 1 << 32)
    I.llvmintr['llvm.abs.i64'] = lambda I, st, a: mod(abs_(signed(a[0], 64)), 1 << 64)
    I.llvmintr['llvm.trap'] = lambda I, st, a: exitpath(I, st, 'trap')
    @reg('memcmp', 'bcmp')
    def _(I, st, a):
        n = I.concretize(st, a[2]); r = 0
        if n: I.chk(st, a[0], n); I.chk(st, a[1], n)
        for i in range(n - 1, -1, -1):
            x = I.load(st, Ptr(a[0].obj, add(a[0].off, i)), 1); y = I.load(st, Ptr(a[1].obj, add(a[1].off, i)), 1)
            if x is UNDEF or y is UNDEF: raise VErr('uninit', 'memcmp of uninitialised memory')
            d = sub(x, y)
            r = ite(eq(d, 0), r, sgn3(lt(d, 0), 1))
        return r
    @reg('strlen')
    def _(I, st, a): return len(I.cstr(st, a[0]))
    @reg('strnlen')
    def _(I, st, a):
        n = I.concretize(st, a[1]); return min(n, len(I.cstr(st, a[0])))
    def strcmp_(I, st, x, y, n=None):
        i = 0
        while n is None or i < n:
            p = I.load(st, Ptr(x.obj, add(x.off, i)), 1) if x.__class__ is Ptr else I.chk(st, x, 1)
            q = I.load(st, Ptr(y.obj, add(y.off, i)), 1) if y.__class__ is Ptr else I.chk(st, y, 1)
            if p is UNDEF or q is UNDEF: raise VErr('uninit', 'strcmp of uninitialised memory')
            if not I.decide(st, eq(p, q)): return sgn3(lt(p, q), 1)
            if I.decide(st, eq(p, 0)): return 0
            i += 1
        return 0
    @reg('strcmp')
    def _(I, st, a): return strcmp_(I, st, a[0], a[1])
    @reg('strncmp')
    def _(I, st, a): return strcmp_(I, st, a[0], a[1], I.concretize(st, a[2]))
    @reg('strcpy')
    def _(I, st, a): put_bytes(I, st, a[0], I.cstr(st, a[1]) + [0]); return a[0]
    @reg('strncpy')
    def _(I, st, a):
        n = I.concretize(st, a[2]); b = []
        for i in range(n):
            c = I.load(st, Ptr(a[1].obj, add(a[1].off, i)), 1)
            if I.decide(st, eq(c, 0)): break
            b.append(c)
        put_bytes(I, st, a[0], b + [0] * (n - len(b))); return a[0]
    @reg('strdup')
    def _(I, st, a):
        b = I.cstr(st, a[0]); p = I.alloc(st, len(b) + 1, 'heap', 'strdup'); st.nlive = add(st.nlive, 1)
        put_bytes(I, st, p, b + [0]); return p
    @reg('strchr')
    def _(I, st, a):
        i = 0; c = mod(a[1], 256)
        while True:
            x = I.load(st, Ptr(a[0].obj, add(a[0].off, i)), 1)
            if I.decide(st, eq(x, c)): return Ptr(a[0].obj, add(a[0].off, i))
            if I.decide(st, eq(x, 0)): return 0
            i += 1
    @reg('strcspn', 'strspn')
    def _(I, st, a): raise Unsupported('strcspn')
    CT = None
    @reg('__ctype_b_loc')
    def _(I, st, a):
        return ctype(I, st)
    def ctype(I, st):
        k = st.flags.get('ctype')
        if k is None:
            import string
            t = I.alloc(st, 2 * 384, 'global', 'ctype', True)
            for c in range(128):
                ch = chr(c); m = 0
                if ch.isupper(): m |= 1 << 8
                if ch.islower(): m |= 1 << 9
                if ch.isalpha(): m |= 1 << 10
                if ch.isdigit(): m |= 1 << 11
                if ch in string.hexdigits: m |= 1 << 12
                if ch in ' \t\n\r\v\f': m |= 1 << 13
                if 32 <= c < 127: m |= 1 << 14
                if 32 < c < 127: m |= 1 << 15
                if ch in ' \t': m |= 1
                if c < 32 or c == 127: m |= 2
                if 32 < c < 127 and not ch.isalnum(): m |= 4
                if ch.isalnum() and c < 128: m |= 8
                I.store(st, Ptr(t.obj, 2 * (128 + c)), 2, m)
            pp = I.alloc(st, 8, 'global', 'ctypep')
            I.store(st, pp, 8, Ptr(t.obj, 256))
            st.flags['ctype'] = k = pp.obj
        return Ptr(k, 0)
    @reg('tolower')
    def _(I, st, a): return ite(land(le(65, a[0]), le(a[0], 90)), add(a[0], 32), a[0])
    @reg('toupper')
    def _(I, st, a): return ite(land(le(97, a[0]), le(a[0], 122)), sub(a[0], 32), a[0])
    @reg('isspace')
    def _(I, st, a): return lor(eq(a[0], 32), land(le(9, a[0]), le(a[0], 13)))
    @reg('isdigit')
    def _(I, st, a): return land(le(48, a[0]), le(a[0], 57))
    @reg('isalpha')
    def _(I, st, a): return lor(land(le(65, a[0]), le(a[0], 90)), land(le(97, a[0]), le(a[0], 122)))
    @reg('atoi')
    def _(I, st, a):
        bs = I.cstr(st, a[0])
        if any(b.__class__ is not int for b in bs): raise Unsupported('atoi symbolic')
        import re
        m = re.match(r'\s*([+-]?\d+)', bytes(bs).decode('latin1'))
        return (int(m.group(1)) if m else 0) & MASK[32]
    @reg('strtol', 'strtoul')
    def _(I, st, a): raise Unsupported('strtol')
    @reg('exit', '_exit')
    def _(I, st, a): exitpath(I, st, 'exit')
    @reg('abort')
    def _(I, st, a): exitpath(I, st, 'abort')
    @reg('__assert_fail')
    def _(I, st, a): exitpath(I, st, 'assertion-failure')
    @reg('time', 'clock')
    def _(I, st, a): return 1000
    @reg('gettimeofday')
    def _(I, st, a):
        if a[0].__class__ is Ptr: I.store(st, a[0], 8, 1000); I.store(st, Ptr(a[0].obj, add(a[0].off, 8)), 8, 0)
        return 0
    @reg('getenv')
    def _(I, st, a): return 0
    @reg('qsort')
    def _(I, st, a): raise Unsupported('qsort')

    # --------------------------------------------------------------- harness
    @reg('vp_sym')
    def _(I, st, a):
        return mod(newvar(I, st, I.pystr(st, a[0]), s64(a[1]), s64(a[2])), LIMB)
    @reg('vp_sym_z')
    def _(I, st, a):
        lo = g(st, a[2]); hi = g(st, a[3])
        s(st, a[0], newvar(I, st, I.pystr(st, a[1]), lo, hi))
    @reg('vp_sym_bytes')
    def _(I, st, a):
        nm = I.pystr(st, a[1]); n = I.concretize(st, a[2])
        for i in range(n): I.store(st, Ptr(a[0].obj, add(a[0].off, i)), 1, newvar(I, st, nm, 0, 255))
    @reg('vp_assume')
    def _(I, st, a):
        c = a[0]
        if c is UNDEF: raise VErr('uninit', 'assume of uninitialised value')
        c = ne(c, 0)
        I.assumes += 1
        I.constrain(st, c)
    @reg('vp_assert')
    def _(I, st, a): I.vassert(st, a[0], I.pystr(st, a[1]))
    @reg('vp_assert_z')
    def _(I, st, a): I.vassert(st, eq(g(st, a[0]), g(st, a[1])), I.pystr(st, a[2]))
    @reg('vp_cover')
    def _(I, st, a):
        n = I.pystr(st, a[0]); 
        if not st.models:
            r, mo = S.solve(st.pc, I.o['timeout'])
            if r != 'sat': raise PathEnd('infeasible')
            st.models = [Model(mo)]
        I.covers[n] = I.covers.get(n, 0) + 1
    @reg('vp_fork')
    def _(I, st, a): return I.concretize(st, a[0])
    @reg('vp_live')
    def _(I, st, a): return u64(st.nlive)
    @reg('vp_arg')
    def _(I, st, a): return I.args[I.concretize(st, a[0])] & ALL1
    @reg('vp_allow_exit')
    def _(I, st, a): st.flags['allow_exit'] = bool(a[0])
    @reg('vp_is_sym')
    def _(I, st, a): return 1
    @reg('vp_debug')
    def _(I, st, a): print('DEBUG', I.pystr(st, a[0]), a[1], flush=True)
    @reg('vp_debug_z')
    def _(I, st, a): print('DEBUG', I.pystr(st, a[0]), g(st, a[1]), flush=True)
    @reg('vp_memfile')
    def _(I, st, a):
        o = I.alloc(st, 216, 'file', 'memfile', True); st.files[o.obj] = ('mem', (), 0); return o
    @reg('vp_memfile_get')
    def _(I, st, a):
        f = st.files[fkey(a[0])][1]; n = I.concretize(st, a[2])
        put_bytes(I, st, a[1], list(f[:n - 1]) + [0]); return len(f)
    @reg('vp_virtual_file')
    def _(I, st, a):
        I.vfiles[I.pystr(st, a[0])] = I.cstr(st, a[1])

def newvar(I, st, label, lo, hi):
    k = st.ctr.get(label, 0)
    st.ctr[label] = k + 1
    nm = '%s#%d' % (label, k)
    if I.fixed is not None: return I.fixed.get(nm, lo)
    v = var(nm, lo, hi)
    if v.__class__ is E: 
        if v.lo != lo or v.hi != hi: raise Unsupported('symbol %s redeclared with another range' % nm)
        I.vars[nm] = v
    else: I.consts_[nm] = v
    return v
