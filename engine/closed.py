"""Obligations without free variables (constants, tables, functions with a finite table domain): the real library, compiled natively
from the current tree, is evaluated on every element of the stated finite domain and compared with exact GMP/MPFR oracles."""
import os, re, subprocess, multiprocessing as mp
import driver
from driver import sh, BASE, NCPU, backend_defs, repo_sources, resolve, VERIF

def _cc(a):
    src, defs, out, opt = a
    rc, o = sh(['clang++-18'] + BASE + defs + ['-w', opt, '-ffunction-sections', '-c', src if src.startswith('/') else resolve(src), '-o', out])
    return rc, src, o

def build(bdir, backend, prog):
    d = os.path.join(bdir, 'closed-' + prog.replace('/', '_') + backend); os.makedirs(d, exist_ok=True)
    defs = backend_defs(backend); jobs = []; outs = []
    own = [f for f in (os.path.join(VERIF, 'closed', prog + x + '.cpp') for x in ('', '_oracle')) if os.path.exists(f)]
    for i, s in enumerate(repo_sources(backend) + own):
        o = '%s/%d.o' % (d, i); outs.append(o); jobs.append((s, defs, o, '-O1' if 'tables/' not in s else '-O0'))
    jobs.sort(key=lambda j: 0 if 'tables/' in j[0] else 1)
    with mp.Pool(NCPU) as p: res = p.map(_cc, jobs, 1)
    for rc, src, o in res:
        if rc: raise driver.BuildError('native compilation of %s failed:\n%s' % (src, o[-2000:]))
    exe = d + '/prog'
    rc, o = sh(['clang++-18', '-Wl,--gc-sections', '-o', exe] + outs + ['-lmpfr', '-lgmp'])
    if rc: raise driver.BuildError('native link failed:\n' + o[-2000:])
    return exe

def program(prog, backend='EFX', *args):
    def run(bdir, tier, seed):
        name = '-'.join([prog.replace('/', '-')] + ([backend.lower()] if backend != 'EFX' else []) + list(args))
        try: exe = build(bdir, backend, prog)
        except driver.BuildError as ex: return {'name': name, 'count': 1, 'bad': ['verification-conditions: the obligations could not be generated from the current tree\n' + str(ex)], 'input': False}
        try:
            p = subprocess.run([exe, tier, str(seed)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300 if tier == 'quick' else 3000)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or ''), 'timeout'
        bad = [l[4:] for l in out.split('\n') if l.startswith('BAD ')]
        m = re.search(r'COUNT (\d+) BAD (\d+)', out)
        if not m: bad.append('the evaluation ended with %s before all obligations were decided: %s' % (rc, out[-300:]))
        n = int(m.group(1)) if m else len(bad)
        return {'name': name, 'count': n, 'bad': bad, 'input': True}
    return run
