"""development: python dev.py UNIT [fn...]"""
import sys, time, os, driver, props
u = props.UNITS[sys.argv[1]]; only = sys.argv[2:] or None
bd = '/tmp/w/' + u['name']; os.makedirs(bd, exist_ok=True)
t = time.time(); l = driver.build_unit(u, bd); print('build', time.time() - t)
agg = {}
def log(o):
    if 'crash' in o: print('CRASH', o['crash'])
    for f in o['fails']: print('FAIL', o['fn'], f['cases'], f['obligation'], '|', f['reason'], '|', f['detail'], '|', f['stack'][-3:], dict(list(f['inputs'].items())[:40]))
    a = agg.setdefault(o['fn'], [0, 0, 0, 0, 0, 0.0, 0]); a[0] += 1; a[1] += o['nobl']; a[2] += len(o['fails']); a[3] += o['paths']; a[4] += o['steps']; a[5] = max(a[5], o['wall']); a[6] += o['z3'][0]
    if o['wall'] > 30: print('slow', o['fn'], o['cases'], round(o['wall'], 1), o['paths'], o['steps'], o['z3'])
t = time.time()
r, left = driver.run_unit(u, l, time.time() + 3000, log, only, stop_after=int(os.environ.get('STOP', 3)))
for k, a in agg.items(): print(k, 'tasks %d obl %d fails %d paths %d steps %d maxwall %.1f z3 %.1f' % tuple(a))
ext = {}
print('left', left, 'wall %.1f' % (time.time() - t))
dis = {}
for o in r:
    for k, v in o['discharged'].items(): dis[k] = dis.get(k, 0) + v
print(dis)
