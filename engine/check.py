"""Check of one property: python3-vt check.py PROPERTY --tier quick|thorough
Exit 0: every obligation of every harness discharged.  Exit 1: VIOLATION line.  Any other exit is an error of the check."""
import os, sys, re, time, json, shutil, argparse, traceback, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import driver, props
from driver import VERIF

def known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): out.append(l[len('finding: '):])
    return out

TRUST = ['clang 18 front end and the opt passes listed in engine/driver.py (the IR they emit is the verified text)',
         'engine/irparse.py and engine/vexec.py (LLVM IR semantics, path exploration, interval and polynomial rewriting)',
         'engine/handlers.py (models of LLVM intrinsics, operator new/delete, memcpy, strlen)',
         'z3 4.x/5.x and cvc5 (answers "unsat" are believed)']

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); a = ap.parse_args()
    pid = a.prop; P = props.PROPS[pid]; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 560 if tier == 'quick' else 3 * 3600
    search = 100 if tier == 'quick' else 600
    bdir = os.path.join(driver.BUILD, '%s-%d' % (pid, os.getpid())); os.makedirs(bdir, exist_ok=True)
    rdir = os.path.join(VERIF, 'replay')
    ev = {'units': {}, 'functions_under_contract': {}, 'obligations': 0, 'discharged': 0, 'by_backend': {}, 'solver_seconds': {'z3': 0.0, 'cvc5': 0.0}, 'solver_calls': {'z3': 0, 'cvc5': 0},
          'tasks': 0, 'paths': 0, 'contract_clauses': {}, 'reached': [], 'not_shown_reachable': [], 'closed_terms': {}, 'havocked_externals': []}
    violations = []
    kf = known(pid)
    try:
        for un, fns in (P['units'] + (P.get('units_thorough', []) if tier == 'thorough' else [])):
            u = props.UNITS[un]; fns = fns or u['fns']
            bd = os.path.join(bdir, un); os.makedirs(bd, exist_ok=True)
            fails = []; built = True
            try:
                linked = driver.build_unit(u, bd)
                res, left = driver.run_unit(u, linked, t0 + budget, None, fns)
            except driver.BuildError as ex:
                built = False; res = []; left = 0
                fails.append({'fn': fns[0], 'obligation': 'verification-conditions', 'reason': 'the obligations could not be generated from the current tree', 'detail': str(ex)[-1500:], 'cases': {}, 'inputs': {}, 'stack': []})
            U = ev['units'].setdefault(un, {'harnesses': {}, 'backend': u['backend']})
            reached = set(); unk = set()
            for o in res:
                h = U['harnesses'].setdefault(o['fn'], {'cases': 0, 'paths': 0, 'obligations': 0, 'failed': 0})
                h['cases'] += 1; h['paths'] += o['paths']; h['obligations'] += o['nobl']; h['failed'] += len(o['fails'])
                ev['tasks'] += 1; ev['paths'] += o['paths']; ev['obligations'] += o['nobl']
                for k, v in o['discharged'].items(): ev['by_backend'][k] = ev['by_backend'].get(k, 0) + v; ev['discharged'] += v
                for k in ('z3', 'cvc5'):
                    ev['solver_seconds'][k] = round(ev['solver_seconds'][k] + o[k][0], 3); ev['solver_calls'][k] += o[k][1]
                for k, v in o['obl'].items():
                    ev['contract_clauses'][k] = ev['contract_clauses'].get(k, 0) + v[0]
                for k, v in o['funcs'].items(): ev['functions_under_contract'][k] = ev['functions_under_contract'].get(k, 0) + v
                reached |= set(o['cover']); unk |= set(o['cunk'])
                for x in o['extern']:
                    if x not in ev['havocked_externals']: ev['havocked_externals'].append(x)
                fails += [dict(f, fn=f.get('fn', o['fn'])) for f in o['fails']]
                if o['truncated'] and not o['fails']:
                    fails.append({'fn': o['fn'], 'obligation': 'tool-limit', 'reason': 'exploration not completed in the time budget', 'detail': '', 'cases': o['cases'], 'inputs': {}, 'stack': []})
            for f in fns:
                if built and f not in U['harnesses'] and not fails:
                    fails.append({'fn': f, 'obligation': 'tool-limit', 'reason': 'no result for this harness', 'detail': '', 'cases': {}, 'inputs': {}, 'stack': []})
            if left and not fails:
                fails.append({'fn': fns[0], 'obligation': 'tool-limit', 'reason': '%d tasks not completed in the time budget' % left, 'detail': '', 'cases': {}, 'inputs': {}, 'stack': []})
            ev['reached'] += sorted('%s: %s' % (un, x) for x in reached); ev['not_shown_reachable'] += sorted('%s: %s' % (un, x) for x in unk - reached)
            if fails:
                u2 = dict(u); u2['fns'] = [f for f in u['fns']]
                fails.sort(key=lambda f: f['obligation'] in ('tool-limit', 'verification-conditions'))
                found, path = driver.replay_failures('%s-%s' % (pid, un), u2, fails, bd, rdir, search)
                violations.append((path, found, un, fails))
                break
        if not violations:
            for c in P.get('closed', []):
                r = c(bdir, tier, seed)     # {'name', 'ok', 'count', 'detail', 'text'}
                ev['closed_terms'][r['name']] = r['count']
                listed = [b for b in r['bad'] if ('property=%s %s' % (pid, b)) in kf]
                if listed: r['bad'] = [b for b in r['bad'] if b not in listed]; r['count'] -= len(listed); ev.setdefault('known_findings', []).extend(listed)
                ev['obligations'] += r['count']; ev['discharged'] += r['count'] - len(r['bad'])
                ev['by_backend']['evaluation of closed terms on the real code'] = ev['by_backend'].get('evaluation of closed terms on the real code', 0) + r['count'] - len(r['bad'])
                if r['bad']:
                    os.makedirs(rdir, exist_ok=True); path = '%s/%s-%s.txt' % (rdir, pid, r['name'])
                    open(path, 'w').write('# closed-term obligations that evaluate to false on the real code\n' + '\n'.join(r['bad'][:200]) + '\n')
                    violations.append((path, r.get('input', True), r['name'], []))
                    break
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    raw = ev['functions_under_contract']; ev['functions_under_contract'] = {}
    names = [k for k in raw if re.search(r'N3efx|N3gmp|N4mpfr|N2ef|e_float|ef_complex', k)]
    if names:
        dem = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
        for k, d in zip(names, dem):
            if re.match(r'(h_|vf_|put\(|view\(|inv\(|write\(|log_\(|two\(|bool same|std::__|__gnu)', d): continue
            ev['functions_under_contract'][d] = raw[k]
    ev['checker_cmd'] = 'python3-vt /verif/engine/check.py %s --tier %s' % (pid, tier)
    ev['trusted_base'] = TRUST + P.get('trusted', [])
    ev['explanation'] = P.get('explanation', 'contract harnesses in /verif/spec verified function by function over the LLVM IR of /repo, all inputs, no bound on values; finite case splits are enumerated completely')
    if P.get('level', 'proof') != 'proof':
        ev['evaluations'] = ev['obligations']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'), 'coverage': ev, 'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(violations)},
              open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in kf: print('KNOWN-FINDING: ' + k)
    print('%s: %d obligations, %d discharged (%s), %d paths, %.0f s' % (pid, ev['obligations'], ev['discharged'], ', '.join('%s %d' % kv for kv in ev['by_backend'].items()), ev['paths'], time.time() - t0))
    for path, found, un, fails in violations:
        for f in fails[:5]: print('  failed obligation: %s: %s (%s) in %s, cases %s' % (f['obligation'], f['reason'], str(f['detail'])[:200], f.get('fn'), f['cases']))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
    sys.stdout.flush()
    return 1 if violations else 0

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
