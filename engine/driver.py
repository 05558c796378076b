"""Build the verified program from /repo's current tree, run the harnesses, report, write evidence."""
import os, sys, time, json, subprocess, hashlib, re, tempfile, shutil, multiprocessing as mp, traceback, signal
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/libs/e_float/src'
sys.path.insert(0, HERE)
import irparse, terms, vexec, handlers, solver
from vexec import Engine, NeedCase, State

BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, '.build')
NCPU = min(8, os.cpu_count() or 4)

BASE = ['-std=c++14', '-fno-access-control', '-I' + SRC, '-I' + REPO + '/libs/math/include', '-I' + VERIF + '/spec', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
        '-w', '-fno-strict-aliasing']
IRF = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-discard-value-names', '-S', '-emit-llvm', '-DVF_VERIFIER',
       '-mllvm', '-two-entry-phi-node-folding-threshold=12', '-fno-builtin-memchr', '-ffp-contract=off']
NATF = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-ffunction-sections', '-fdata-sections', '-ffp-contract=off']

def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

class BuildError(Exception): pass

def backend_defs(b):
    return ['-DE_FLOAT_TYPE_' + b.split('/')[0]] + (['-DE_FLOAT_TEST_PI_ALGOS_TESTS'] if b.endswith('/pi') else ['-DE_FLOAT_TEST_REAL_IMAG_TESTS'])

def resolve(s):
    return s if s.startswith('/') else (VERIF + '/' + s if s.startswith('spec/') else SRC + '/' + s)

def compile_ir(args):
    src, defs, out = args
    if src.startswith('REPOIR:'): src = src[7:]
    noinl = ['-fno-inline-functions'] if '-DVF_NOINLINE' in defs else []
    rc, o = sh(['clang++-18'] + BASE + defs + IRF + noinl + [resolve(src), '-o', out])
    return (rc, src, o)

def build_unit(u, bdir):
    """IR module text of a verification unit"""
    defs = backend_defs(u['backend']) + u.get('defs', [])
    jobs = []; outs = []
    for i, s in enumerate(u['sources'] + u['harness']):
        out = '%s/%s_%d.ll' % (bdir, u['name'], i); outs.append(out)
        jobs.append((s, defs, out))
    with mp.Pool(NCPU) as p: res = p.map(compile_ir, jobs, 1)
    for rc, src, o in res:
        if rc: raise BuildError('compilation of %s failed:\n%s' % (src, o[-3000:]))
    linked = '%s/%s.ll' % (bdir, u['name'])
    nov = set(u.get('override', ()))
    cmd = ['llvm-link-18', '-S', '-o', linked + '.bc']
    cmd += [o for o, s in zip(outs, u['sources'] + u['harness']) if s not in nov]
    for o, s in zip(outs, u['sources'] + u['harness']):
        if s in nov: cmd += ['--override=' + o]
    rc, o = sh(cmd)
    if rc: raise BuildError('llvm-link failed:\n' + o[-3000:])
    api = ','.join(u['fns'] + list(u.get('keep', [])))
    rc, o = sh(['opt-18', '-S', '-passes=function(lowerinvoke),internalize,globaldce,function(simplifycfg,sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)', '--internalize-public-api-list=' + api,
                '-two-entry-phi-node-folding-threshold=12', linked + '.bc', '-o', linked])
    if rc: raise BuildError('opt failed:\n' + o[-3000:])
    return linked

# ------------------------------------------------------------------------------------------- tasks
_MOD = None; _UNIT = None
def reset_terms():
    terms.SYMS.clear(); terms._bool_memo.clear(); terms._div_memo.clear(); terms._rem_memo.clear(); solver._sym.clear(); solver._mono.clear(); solver._clo.clear()

def make_engine(u, mod):
    opts = dict(u.get('opts', {})); opts['prefix_handlers'] = handlers.PRE
    hs = dict(handlers.H)
    for m in u.get('handlers', []):
        mm = __import__(m); hs.update(mm.H); opts['prefix_handlers'] = mm.PRE + opts['prefix_handlers']
    e = Engine(mod, hs, opts)
    e.nd = {}; e.zt = []; e.cover_unknown = set(); e.cover_tries = {}
    e.redirect = dict(u.get('redirect', {}))
    if u.get('setup'): u['setup'](e)
    return e

def run_task(t):
    fn, cases, deadline = t
    reset_terms()
    e = make_engine(_UNIT, _MOD)
    e.cases = cases; e.deadline = deadline
    st0 = solver.STATS
    z0, zc0, c0, cc0 = st0.z3_time, st0.z3_calls, st0.cvc5_time, st0.cvc5_calls
    t0 = time.time()
    out = {'fn': fn, 'cases': cases}
    try:
        st = e.start(fn)
        e.explore(st)
    except NeedCase as n:
        out['need'] = (n.name, n.lo, n.hi); return out
    except Exception as ex:
        out['crash'] = traceback.format_exc()
        e.fails.append({'obligation': 'tool-limit', 'reason': 'verifier exception: %s' % ex, 'detail': out['crash'][-1500:], 'cases': cases, 'inputs': {}, 'stack': [], 'trail': []})
    if e.redirect: e.funcs = {k: v for k, v in e.funcs.items()}
    for f in e.fails: f['fn'] = fn
    out.update(fails=e.fails, nobl=e.nobl, discharged=e.discharged, obl=e.obl, funcs=e.funcs, paths=e.paths, ends=e.pathends, cover=e.cover, cunk=e.cover_unknown, steps=e.steps,
               wall=time.time() - t0, z3=(st0.z3_time - z0, st0.z3_calls - zc0), cvc5=(st0.cvc5_time - c0, st0.cvc5_calls - cc0), truncated=e.truncated, extern=e.extern_used)
    return out

def run_unit(u, linked, deadline, log=None, only=None, stop_after=3):
    """explore all harness functions of a unit; returns list of results"""
    global _MOD, _UNIT
    _MOD = irparse.parse_module(open(linked).read()); _UNIT = u
    for f in u['fns']:
        if f not in _MOD.funcs: raise BuildError('harness %s missing' % f)
    pool = mp.Pool(NCPU, maxtasksperchild=40)
    pend = []; results = []; nfail = {}
    def submit(fn, cases): pend.append(pool.apply_async(run_task, ((fn, cases, deadline),)))
    for f in u['fns']:
        if only and f not in only: continue
        submit(f, {})
    stopped = set()
    try:
        while pend:
            time.sleep(0.01)
            rest = []
            for r in pend:
                if not r.ready(): rest.append(r); continue
                o = r.get()
                if 'need' in o:
                    n, lo, hi = o['need']
                    if o['fn'] in stopped: continue
                    for v in range(lo, hi + 1):
                        c = dict(o['cases']); c[n] = v
                        if u.get('case_filter') and not u['case_filter'](o['fn'], c): continue
                        rest.append(pool.apply_async(run_task, ((o['fn'], c, deadline),)))
                else:
                    results.append(o)
                    if log: log(o)
                    if o['fails']:
                        nfail[o['fn']] = nfail.get(o['fn'], 0) + 1
                        if nfail[o['fn']] >= stop_after: stopped.add(o['fn'])
            pend = rest
            if sum(nfail.values()) >= stop_after and stopped:
                break
            if time.time() > deadline + 60: break
    finally:
        pool.terminate(); pool.join()
    return results, len(pend)

# ------------------------------------------------------------------------------------------- native replay
def compile_nat(args):
    src, defs, out, cc, plain = args
    rc, o = sh([cc] + BASE + defs + ([x for x in NATF if 'sanitize' not in x] if plain else NATF) + ['-c', resolve(src), '-o', out])
    return (rc, src, o)

def repo_sources(backend):
    """every library translation unit that the tests of this backend link"""
    own = {'EFX': 'efx', 'GMP': 'gmp', 'MPFR': 'mpfr'}[backend.split('/')[0]]
    out = []
    for d, ds, fs in os.walk(SRC):
        for f in sorted(fs):
            r = os.path.relpath(os.path.join(d, f), SRC)
            if not f.endswith('.cpp') or 'test' in r.split('/')[0]: continue
            if r.startswith('e_float/') and r.count('/') == 2 and r.split('/')[1] != own: continue
            out.append(r)
    return sorted(out)

def build_native(u, bdir, lib=True):
    """the same harness text compiled with the repository's own code (no contract stands in for anything)"""
    defs = backend_defs(u['backend']) + u.get('defs', []) + ['-DVF_NATIVE']
    srcs = [s for s in u['sources'] + u.get('native_sources', []) + u['harness'] if s not in u.get('native_skip', ())]
    rest = [s for s in repo_sources(u['backend']) if s not in srcs]
    tab = '%s/%s_tab.cpp' % (bdir, u['name'])
    with open(tab, 'w') as f:
        f.write('extern "C" { struct vf_entry { const char* name; void (*fn)(); };\n')
        for x in u['fns']: f.write('void %s();\n' % x)
        f.write('extern vf_entry vf_entries[]; vf_entry vf_entries[] = {' + ','.join('{"%s",&%s}' % (x, x) for x in u['fns']) + ',{0,0}}; }\n')
    jobs = []; outs = []
    for i, s in enumerate(srcs + rest + ['spec/vf_native.cpp', tab]):
        o = '%s/%s_n%d.o' % (bdir, u['name'], i); outs.append(o); jobs.append((s, defs, o, 'clang++-18', s in rest))
    with mp.Pool(NCPU) as p: res = p.map(compile_nat, jobs, 1)
    for rc, src, o in res:
        if rc: raise BuildError('native compilation of %s failed:\n%s' % (src, o[-2000:]))
    exe = '%s/%s.exe' % (bdir, u['name'])
    rc, o = sh(['clang++-18', '-fsanitize=address,undefined', '-Wl,--gc-sections', '-o', exe] + outs + ['-lmpfr', '-lgmp', '-ldl'])
    if rc: raise BuildError('native link failed:\n' + o[-2000:])
    return exe

NOTFOUND = (0, 2, 77, 126, 127)   # held, usage, precondition not met, could not be run
def native_run(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout[-4000:]
    except subprocess.TimeoutExpired:
        return 'timeout', 'timeout'

def replay_failures(prop, u, fails, bdir, rdir, secs):
    """try to obtain a failing input on the real code; returns (found, replayfile)"""
    os.makedirs(rdir, exist_ok=True)
    txt = []
    for n, f in enumerate(fails[:6]):
        txt.append('# obligation: %s\n# reason: %s\n# detail: %s\n# harness: %s  cases: %s\n# call stack: %s' % (f['obligation'], f['reason'], f['detail'], f['fn'], f['cases'], ' > '.join(f['stack'])))
    path = '%s/%s.txt' % (rdir, prop)
    found = False; natlog = ''; vals = None; hfn = fails[0]['fn']
    try:
        exe = build_native(u, bdir)
    except Exception as e:
        exe = None; natlog = 'native build: %s' % e
    if exe:
        t_end = time.time() + secs
        for f in fails[:6]:
            inp = dict(f['cases']); inp.update(f['inputs'])
            rf = '%s/replay_in.txt' % bdir
            open(rf, 'w').write(''.join('%s=%s\n' % kv for kv in inp.items()))
            rc, o = native_run(exe, [f['fn'], 'replay', rf], 60)
            if rc not in NOTFOUND:
                found = True; vals = inp; hfn = f['fn']; natlog = 'replayed on the real code: exit %s\n%s' % (rc, o); break
        if not found:
            # concrete search around the failing cases, in parallel
            jobs = []
            fns = []
            for f in fails:
                if f['fn'] not in [x['fn'] for x in fns]: fns.append(f)
            for f in fails:
                if f not in fns and len(fns) < NCPU: fns.append(f)
            per = max(5.0, t_end - time.time())
            procs = []
            for k in range(NCPU):
                f = fns[k % len(fns)]
                outf = '%s/search_%d.txt' % (bdir, k)
                hint = ['%s=%s' % kv for kv in {**f['inputs'], **f['cases']}.items()] if k % 4 != 3 else []
                lf = open('%s/search_%d.log' % (bdir, k), 'w')
                procs.append((subprocess.Popen([exe, f['fn'], 'search', '%.1f' % per, str(k + 1), outf] + hint, stdout=lf, stderr=subprocess.STDOUT), f, outf, lf.name))
            dl = time.time() + per + 30
            while procs and not found and time.time() < dl:
                time.sleep(0.1)
                for pr in list(procs):
                    rc = pr[0].poll()
                    if rc is None: continue
                    procs.remove(pr)
                    if rc not in NOTFOUND and os.path.exists(pr[2]):
                        vals = dict(l.rstrip('\n').split('=', 1) for l in open(pr[2]) if '=' in l)
                        rf = '%s/replay_in.txt' % bdir
                        open(rf, 'w').write(''.join('%s=%s\n' % kv for kv in vals.items()))
                        rc2, o2 = native_run(exe, [pr[1]['fn'], 'replay', rf], 60)
                        if rc2 not in NOTFOUND:
                            found = True; hfn = pr[1]['fn']; natlog = 'found by concrete search; replayed: exit %s\n%s' % (rc2, o2); break
            for pr in procs: pr[0].kill()
            if not found: natlog += '\nno failing input found by replaying solver models and %.0f s of concrete search' % per
    with open(path, 'w') as f:
        f.write('\n'.join(txt) + '\n')
        f.write('\n'.join('# ' + l for l in natlog.splitlines()) + '\n')
        f.write('# replay harness: %s (unit %s)\n' % (hfn, u['name']))
        if vals:
            for kv in vals.items(): f.write('%s=%s\n' % kv)
    return found, path
