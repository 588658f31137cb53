"""Which harness instances decide which property, and within which bounds."""
COMMON_ASSUMPTIONS = [
    'GMP is modelled by its documented integer semantics (the library is compiled against a header whose functions are intrinsics of the executor); mpn_* work on 64-bit limbs',
    'memory allocation does not fail; libc string/format functions behave as documented',
    'clang 18 lowers the C sources to LLVM IR faithfully (x86-64, 64-bit limbs); only that target is covered',
]
SPECS = {}
def I(h, *args, **k): return dict(h=h, args=list(args), **k)

FP_OPS = ['SETTO', 'ADD', 'SUB', 'MUL', 'SQUARE', 'NEG', 'DOUBLE', 'HALVE', 'INVERT', 'DIV', 'MULZ', 'MULSI', 'SET01', 'POW', 'SETSI', 'CMP', 'INV2']
IMPL = ['naive', 'mont', 'fast', 'faster']
PR = {14: '2^65+131', 0: 3, 3: 59, 8: '2^64-59', 9: '2^128-159', 10: '2^160+7', 12: '512-bit'}
# (prime, implementation, op) the solver does not close within the quick budget
C01_HARD = {(14, 1, 2), (14, 1, 10), (14, 1, 12), (14, 1, 13), (10, 1, 8), (10, 1, 9), (10, 1, 10), (10, 1, 11), (10, 1, 13), (10, 1, 14), (10, 1, 16),
            (9, 2, 7), (9, 3, 7), (12, 2, 1), (12, 2, 7), (12, 3, 1), (12, 3, 7)}
def c01():
    out = []
    for impl in range(4):
        for pr in ((3, 8, 10, 12) if impl == 0 else (14, 9, 10, 12)):
            for op in range(len(FP_OPS)):
                hard = (pr, impl, op) in C01_HARD or (impl == 1 and pr in (9, 12) and op not in (14, 15))
                if hard and (pr, impl, op) != (9, 1, 3): tier = 'thorough'
                else: tier = 'quick'
                out.append(I('fp', pr, impl, op, t=(200 if pr == 12 else 40) if tier == 'quick' else 60, tier=tier, what='%s p=%s %s' % (IMPL[impl], PR.get(pr), FP_OPS[op])))
    return out
SPECS['C01'] = dict(bounds='', instances=c01())
TOY = [0,1,2,3,4,5,6,7,8,9,10,12,13,14,15,16,17,18,19,20]
def typ(p): return 'aaaaaAAddddeeefgggAAA'[p]
def pairI(p, m, q=0, **k):
  if p == 20 and (m == 2 or q): k['tier'] = 'thorough'
  return I('pair', p, m, q, t=240, cost={'f': 60, 'g': 100}.get(typ(p), 100 if p == 20 else 10) + 10 * m, **k)
SPECS['C10'] = dict(bounds='', instances=[pairI(p, 0) for p in TOY] + [pairI(p, 4) for p in TOY if typ(p) in 'ade'] + [pairI(p, 5) for p in TOY if typ(p) in 'df'] + [pairI(p, 5, tier='thorough') for p in (15, 16, 17)])
SPECS['C11'] = dict(bounds='', instances=[pairI(p, 1) for p in TOY])
SPECS['C12'] = dict(bounds='', instances=[pairI(p, 3) for p in TOY] + [pairI(p, 2) for p in TOY if typ(p) not in 'fg'] + [pairI(p, 2, tier='thorough') for p in (15, 16, 17)])
SPECS['C13'] = dict(bounds='', instances=[pairI(p, m, q) for p in TOY if typ(p) != 'f' for m in (0, 1) for q in (1, 2, 3) if (typ(p), q) not in (('d', 3),)] + [pairI(12, 6, 3)] +
  [pairI(p, 3, q, tier='thorough') for p in TOY if typ(p) != 'f' for q in (1, 2, 3) if (typ(p), q) not in (('d', 3),)])
SPECS['C08'] = dict(bounds='', instances=[I('curve', c, m, f, t=120) for c in range(7) for m in range(4) for f in (0, 4)] + [I('curve', c, 5, f, lo, t=120) for c in range(7) for f in (0, 4) for lo in ((-30, -5, 40) if not f else (-12,))] + [I('curve', c, 6, f, t=120) for c in range(7) for f in (0, 4)])
SPECS['C09'] = dict(bounds='', instances=[I('pow', g, m, c, t=120) for g in range(6) for m in range(5) for c in ((0, 1, 2, 3) if m < 2 else (0,)) if not (m == 4 and g == 3)])
EXT = ['fi', 'fq', 'polymod3', 'polymod6', 'polymod4', 'polymod5', 'polymod2', 'fq/polymod3', 'polymod3/fq', 'polymod6/fq', 'fq/polymod5']
EXT += ['polymod3', 'polymod2', 'polymod5', 'polymod4', 'polymod6', 'fq/polymod3', 'polymod3/fq']
SPECS['C06'] = dict(bounds='', instances=[I('ext', t, pr, 0, op, t=100, what='%s op %d' % (EXT[t], op)) for t in range(11) for pr in (10,) for op in (0, 1, 2, 3, 4, 5, 9) if (t, op) not in ((3, 5), (9, 5), (10, 5))] +
  [I('ext', t, pr, impl, op, t=200, what='%s inversion, every element' % EXT[t]) for t, pr in ((0, 0), (0, 1), (0, 23), (1, 15), (1, 2), (1, 0), (11, 0), (11, 15), (12, 0), (12, 1), (13, 0), (14, 0), (15, 0), (16, 0), (17, 0)) for impl in (0, 4) for op in (10, 11)])
SPECS['C03'] = dict(bounds='', instances=[I('bytes', 0, pr, impl, m, t=60, tier='thorough' if impl == 1 and (pr, m) in ((9, 0), (10, 2), (10, 4), (12, 4)) else 'quick') for impl in range(4) for pr in ((3, 8, 10, 12) if impl == 0 else (14, 9, 10, 12)) for m in range(5)] + [I('bytes', 1, t, 10, 0, l, t=60) for t in range(11) for l in (0, 1)] + [I('bytes', 4, d, 0, f, t=60) for d in (1, 2, 3, 4) for f in (0, 4)] +
  [I('bytes', 2, c, f, m, t=60) for c in range(7) for f in (0, 4) for m in (0, 1)] + [I('bytes', 3, t, 0, t=100) for t in TOY if t != 15])
SPECS['C04'] = dict(bounds='', instances=[I('bytes', 2, c, f, m, t=60) for c in range(7) for f in (0, 4) for m in (2, 3, 4, 5)] + [I('bytes', 3, t, 1, t=100) for t in TOY if t < 15])
SQF = [(-1, pr, f) for pr in (0, 1, 2, 3, 4, 17, 19, 24) for f in (0, 1, 2)] + [(t, pr, f) for t, pr in ((0, 0), (0, 1), (0, 23), (1, 15), (1, 2), (1, 17), (1, 0), (1, 1), (11, 0), (11, 15), (12, 0), (12, 1), (14, 0), (13, 0)) for f in (0, 4)] + [(16, 0, 0), (17, 0, 0)]
SPECS['C18'] = dict(bounds='', instances=[I('roots', t, pr, f, m, t=120, tier='thorough' if t > 15 and m else 'quick') for t, pr, f in SQF for m in (0, 1, 2)] + [I('curve', c, 4, 0, t=60) for c in (0, 2, 4, 6)])
# x -> x^2 + 1 runs into a cycle without any point on these tiny curves
TOYLOOP = {(4, 1), (19, 1), (9, 1), (13, 1), (15, 1), (15, 3)}
SPECS['C15'] = dict(bounds='', instances=[I('hash', 0, n, pr, 0, t=60, tier='quick' if n < 2 and (n, pr) != (1, 10) else 'thorough') for pr in (14, 9, 10) for n in (0, 1, 2, 9, 20, 21, 40)] + [I('hash', 0, n, pr, 1, t=60) for pr in (0, 3, 4, 8, 13) for n in (0, 1, 2, 5, 8, 9, 33)] +
  [I('hash', 1, n, t, x, lo, lo + w - 1, 1, t=100) for t in TOY for n, x in ((1, 0), (3, 2), (6, 3)) for w in (8 if t == 10 else {'f': 4, 'g': 4, 'd': 16}.get(typ(t), 64),) for lo in (0, 256 - w) if not (typ(t) in 'fg' and n == 6) and (t, n) not in TOYLOOP])
SPECS['C16'] = dict(bounds='', instances=[I('rnd', 0, pr, impl, t=60, tier='thorough' if impl == 1 and pr in (10, 12) else 'quick') for impl in range(4) for pr in ((3, 8, 10, 12) if impl == 0 else (14, 9, 10, 12))] + [I('rnd', 1, t, g, t=60) for t in TOY for g in (0, 1)] + [I('rnd', 4, t, 0, {'f': 8, 'g': 6, 'd': 0, 'e': 0}.get(typ(t), 64), t=60) for t in TOY] +
  [I('rnd', 2, n, l, t=60) for n, l in ((3, 7), (3, 200), (3, 256), (4, 300), (4, 65535), (5, 1000), (6, 70000), (1, 300), (0, 5), (7, 1 << 24))] + [I('rnd', 3, n, t=30) for n in (0, 1, 7, 8, 63, 64, 65, 160)])
SPECS['C17'] = dict(bounds='', instances=[I('dlog', t, g, m, s, t=100) for t in (0, 1, 2, 3, 5, 7, 8, 12) for g in (0, 1) for m, ss in ((0, (0,)), (1, (0, 1, 2))) for s in ss])
SPECS['C05'] = dict(bounds='', instances=[I('str', 0, pr, impl, d, t=60) for impl in range(4) for pr, dm in ((3, 2), (26, 3)) for d in range(1, dm + 1)] +
  [I('str', 1, pr, impl, b, s, x, t=60) for impl, pr in ((0, 3), (1, 10), (2, 9), (3, 9), (0, 12)) for b in (0, 10, 16, 36) for s, x in ((0, 0), (1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (4, 0), (4, 2), (5, 1), (5, 3), (6, 30))] +
  [I('str', 2, t, 3, impl, x, d, t=60) for t, m in ((0, 2), (1, 2), (2, 3), (3, 6), (7, 6), (8, 6)) for impl in (0, 1) for x in (0, m - 1) for d in (1, 2)] +
  [I('str', 3, c, f, 0, i, j, t=60) for c in (0, 2, 6, 4) for f in (0, 1) for i in (0, 1) for j in (0, 1) if not (c == 4 and i + j or c == 0 and j)] + [I('str', 3, c, f, 1, t=60) for c in (0, 2) for f in (0, 1)] + [I('str', 3, c, f, 2, t=60) for c in range(7) for f in (0, 1)] + [I('str', 3, c, 0, 3, x, t=60) for c in (0, 1, 2, 6) for x in range(8)] +
  [I('str', 4, k, d, t=60) for k in range(10) for d in (0, 1)])
SPECS['C07'] = dict(bounds='', instances=[I('poly', 0, p, impl, nf, ng, op, t=60) for p, impl, sz in ((3, 0, ((0, 2), (2, 0), (3, 3), (2, 4), (4, 1))), (3, 1, ((3, 2),)), (5, 0, ((2, 2), (1, 3))), (7, 0, ((2, 1),))) for nf, ng in sz for op in (0, 1, 2)] +
  [I('poly', 0, p, impl, nf, 1, op, t=60) for p, impl, nf in ((3, 0, 1), (3, 0, 3), (5, 0, 2), (3, 1, 2), (5, 2, 2)) for op in range(3, 11)] + [I('poly', 1, p, impl, n, t=60) for p, impl, n in ((3, 0, 0), (3, 0, 1), (3, 0, 4), (5, 1, 2), (7, 0, 2))] +
  [I('poly', 2, p, 0, d, t=100) for p, dm in ((3, 5), (5, 3), (7, 2)) for d in range(1, dm + 1)] + [I('poly', 3, p, 0, d, t=100) for p, dm in ((3, 4), (5, 3), (7, 2), (13, 2)) for d in range(1, dm + 1)] +
  [I('poly', 4, 0, lo, lim, hi, a, t=60) for lo, hi in ((1, 100), (900, 1100), (65000, 65100)) for lim, a in ((0, 0), (0, 1), (0, 2), (5, 0), (13, 0))])
PARLEN = [53, 25, 34, 67, 53, 105, 122, 49, 20, 68]
SPECS['C14'] = dict(bounds='', instances=[I('par', t, x, m, t=60) for t in (1, 2, 7, 8) for x in range(PARLEN[t]) for m in (0, 1)] + [I('par', t, x, 0, t=60) for t in (0, 3, 4, 5, 6, 9) for x in range(-1, PARLEN[t], 3 if t < 5 else 5)] + [I('par', t, PARLEN[t] - d, 1, t=60) for t in (0, 3, 4, 5, 6, 9) for d in (2, 6, 17, 30)])
SPECS['C20'] = dict(bounds='', instances=[I('zring', 0, g, bits, sg, op, t=60) for g in (0, 1) for bits in (30, 130) for sg in range(4) for op in range(13) if not (g == 1 and op == 8) and op != 9] + [I('zring', 0, g, bits, sg, 9, d, t=60) for g in (0, 1) for bits in (30, 130) for sg in (0, 1) for d in (1, -1, 2, 3, -7, 1000003)] + [I('zring', 1, 0, t=60)] + [I('zring', 2, g, b, s, t=60) for g in (0, 1) for b in (0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 128, 160) for s in (0, 1)] +
  [I('zring', 3, 1, na, nb, op, t=60) for na in range(4) for nb in range(4) for op in range(6) if op < 3 or nb == 1])
SPECS['C22'] = dict(bounds='', instances=
  [I('tern', 0, m, t, op, {7: 8, 97: 9, 128: 10, 127: 11}.get(m, s) if op == 7 else s, t=60) for m, t, s in ((3, 2, 0), (5, 4, 1), (7, 2, 2), (63, 26, 3), (64, 3, 4), (97, 12, 5), (128, 6, 6), (127, 8, 7)) for op in range(13) if not (op == 12 and m > 7)] +
  [I('tern', 1, 3, 2, kind, op, ia, ib, z, t=60) for kind, ii in ((2, ((0, 0), (1, 1), (0, 1))), (3, ((0, 1), (1, 2), (2, 2))), (6, ((0, 5), (1, 2), (3, 4), (5, 1)))) for ia, ib in ii for z in (0, 1) for op in range(12) if op != 7 or kind == 2] + [I('tern', 1, 5, 4, kind, 7, ia, ib, z, t=100) for kind, ii in ((3, ((0, 1), (1, 2), (2, 0))), (6, ((0, 5), (1, 2), (3, 4), (5, 1)))) for ia, ib in ii for z in (0, 1)] +
  [I('tern', 2, 3, 2, n, op, t=100) for n in (14,) for op in range(8)] + [I('tern', 2, 5, 4, 31, op, t=100) for op in range(8)] + [I('tern', 2, 5, 4, 217, op, t=100, tier='thorough') for op in range(8)])
SPECS['C10']['instances'] += [I('tern', 3, 0, 0, p, mo, n, x, t=150, what='type I') for p, n, x in ((0, 6, 0), (0, 6, 1), (1, 0, 0), (2, 5, 0), (2, 5, 1), (3, 0, 0), (4, 0, 0)) for mo in (0, 3) if mo == 0 or p in (1, 3, 4)] + [I('tern', 3, 0, 0, p, mo, n, 0, t=500, tier='thorough', what='type I') for p, n in ((0, 0), (2, 12), (5, 5)) for mo in (0, 3)]
SPECS['C11']['instances'] += [I('tern', 3, 0, 0, p, 1, n, 0, t=150, what='type I') for p, n in ((1, 0), (2, 4))]
SPECS['C12']['instances'] += [I('tern', 3, 0, 0, p, 2, n, 0, t=150, what='type I') for p, n in ((1, 0), (3, 0))]
SPECS['C16']['instances'] += [I('tern', 4, 3, 2, 0, t=60), I('tern', 4, 5, 4, 0, t=60)] + [I('tern', 4, 5, 4, p, g, t=60, what='type I') for p, g in ((1, 0), (2, 0), (2, 1))] + [I('tern', 4, 5, 4, 1, 1, t=300, tier='thorough', what='type I')] + [I('tern', 4, 5, 4, 3, g, t=300, tier='thorough', what='type I') for g in (0, 1)]
SPECS['C23'] = dict(bounds='', instances=[I('gen', 0, p, f, t=60) for p in (5, 7, 13, 31) for f in (0, 4)] + [I('gen', 1, p, f, z, t=60) for p in (5, 7, 11, 13) for f in (0, 4) for z in (0, 1)] + [I('gen', 2, b, k, t=60) for b in (10, 160) for k in (1, 2, 3, 4, 6, 12)] +
  [I('gen', 3, k, lo, hi, b, s, t=60) for k, lo, hi in [(6, x, x + 49) for x in range(1, 1000, 50)] + [(10, x, x + 49) for x in range(1, 1000, 100)] + [(6, 3860, 3870), (6, 3985, 3990), (6, 8490, 8525), (10, 1400, 1405), (10, 3680, 3685), (10, 29705, 29709), (10, 35707, 35707)] for b in (4, 8, 20, 60, 200) for s in (0, 1, 2)])
SPECS['C24'] = dict(bounds='', instances=[I('gen', 4, lo, hi, s, 0, t=60) for lo, hi, s in ((2, 100, 0), (1000, 1100, 0), (3, 40, 1))] + [I('gen', 4, lo, lo + 6, 0, 1, t=60) for lo in (5, 30)] + [I('gen', m, r, qb, t=60) for m, l in ((5, ((4, 8), (8, 14), (8, 40), (14, 60))), (6, ((4, 12), (8, 20), (14, 60)))) for r, qb in l] + [I('gen', 7, 12, s, s, t=200, cost=100) for s in range(1, 9)] + [I('gen', 7, b, 1, 1, t=400, cost=200, tier='thorough') for b in (20, 40)])

SPECS['C19'] = dict(bounds='', instances=[I('grp', p, g, m, t=150 if p in (0, 1, 2, 3, 5, 7, 8, 12, 13, 14, 18, 19) else 300, tier='quick' if p in (0, 1, 2, 3, 5, 7, 8, 12, 13, 14, 18, 19) or p == 16 and (g, m) != (1, 1) and (g, m) != (1, 2) else 'thorough') for p in TOY for g in (0, 1, 2, 3) for m in range(4)])
