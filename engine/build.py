"""Compile /repo's library sources and a harness to IR and load it."""
import os, re, subprocess, sys, json, hashlib, tempfile, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = 'clang-18'
OPT = 'opt-18' if shutil.which('opt-18') else '/usr/bin/opt'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else '/usr/bin/llvm-link'
PASSES = 'sroa,early-cse,simplifycfg,dce'
HARN = os.path.join(os.path.dirname(HERE), 'harness')

def sources():
    """libpbc_la_SOURCES from Makefile.am (the library as it is built)"""
    s = open(os.path.join(REPO, 'Makefile.am')).read().replace('\\\n', ' ')
    m = re.findall(r'^libpbc_la_SOURCES\s*\+?=(.*)$', s, re.M)
    fs = []
    for x in m: fs += [f for f in x.split() if f.endswith('.c')]
    out = []
    for f in fs:
        if f not in out and os.path.exists(os.path.join(REPO, f)): out.append(f)
    return out

def run(cmd, **k):
    r = subprocess.run(cmd, capture_output=True, text=True, **k)
    if r.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return r

def cc(src, out, extra=()):
    run([CLANG, '-std=gnu99', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g1', '-w', '-Wno-error=incompatible-function-pointer-types', '-Wno-error=int-conversion', '-Wno-error=implicit-function-declaration', '-U_FORTIFY_SOURCE', '-DVP_SYMBOLIC',
         '-I' + os.path.join(HERE, 'inc'), '-I' + os.path.join(REPO, 'include'), '-I' + REPO, '-I' + HARN, *extra,
         '-c', '-emit-llvm', src, '-o', out])

def opt(inp, out): run([OPT, '-passes=' + PASSES, inp, '-o', out])

def irdump_bin(tmp):
    b = os.path.join(HERE, 'bin', 'irdump')
    src = os.path.join(HERE, 'irdump.cpp')
    if os.path.exists(b) and os.path.getmtime(b) >= os.path.getmtime(src): return b
    os.makedirs(os.path.dirname(b), exist_ok=True)
    t = b + '.%d' % os.getpid()
    run(['g++', '-O1', '-fno-rtti', '-std=c++17', '-I/usr/lib/llvm-18/include', src, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-o', t])
    os.replace(t, b)
    return b

def build(harnesses, tmp, extra_flags=()):
    """harnesses: {name: (path, [defines])}; returns {name: json path}; library IR shared"""
    srcs = sources()
    jobs = []
    for f in srcs: jobs.append((os.path.join(REPO, f), os.path.join(tmp, f.replace('/', '_') + '.bc'), extra_flags))
    for n, (p, defs) in harnesses.items(): jobs.append((p, os.path.join(tmp, 'h_' + n + '.bc'), list(extra_flags) + list(defs)))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: cc(*j), jobs))
    lib = os.path.join(tmp, 'lib.bc')
    run([LINK] + [j[1] for j in jobs[:len(srcs)]] + ['-o', lib])
    dump = irdump_bin(tmp)
    def fin(n):
        h = os.path.join(tmp, 'h_' + n + '.bc')
        l = os.path.join(tmp, 'l_' + n + '.bc'); o = os.path.join(tmp, 'o_' + n + '.bc'); j = os.path.join(tmp, n + '.json')
        run([LINK, lib, h, '-o', l]); opt(l, o); run([dump, o, j])
        return n, j
    with cf.ThreadPoolExecutor(8) as ex:
        return dict(ex.map(fin, harnesses))
