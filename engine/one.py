import sys, time, driver, props, solver, traceback, ast, cProfile
u = props.UNITS[sys.argv[1]]; fn = sys.argv[2]; cases = ast.literal_eval(sys.argv[3])
l = '/tmp/w/%s/%s.ll' % (u['name'], u['name'])
driver._MOD = driver.irparse.parse_module(open(l).read()); driver._UNIT = u
oc = solver.check
def chk(conds, g, b, **kw):
    t = time.time(); r = oc(conds, g, b, **kw); dt = time.time() - t
    if dt > float(__import__("os").environ.get("TH","0.3")): print('%.1fs %s nl=%s full=%s' % (dt, r[0], kw.get('nl'), kw.get('full')), str(g)[:300], [f.name + ':' + str(f.lineno) for f in traceback.extract_stack()[-5:-1]], flush=True)
    return r
solver.check = chk
t = time.time(); o = driver.run_task((fn, cases, time.time() + 3000))
print('wall', time.time() - t, 'paths', o['paths'], 'z3', o['z3'], o['ends'])
for f in o['fails']: print('FAIL', f['obligation'], f['reason'], f['detail'], str(f['inputs'])[:300])
if '-c' in sys.argv: print(o['cover'], o['obl'])
