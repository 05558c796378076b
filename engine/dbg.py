import sys, driver, props, solver, ast, terms
u = props.UNITS[sys.argv[1]]; fn = sys.argv[2]; cases = ast.literal_eval(sys.argv[3])
l = '/tmp/w/%s/%s.ll' % (u['name'], u['name'])
driver._MOD = driver.irparse.parse_module(open(l).read()); driver._UNIT = u
import vexec
cnt=[0]
def prove(self, st, c):
    r = op(self, st, c) if self_decide(st, c) else None
    return r
oc = solver.check
def chk(conds, g, b, **kw):
    if kw.get('timeout',0) >= 10000:
        print('GOAL', g)
        for s in terms.SYMS:
            if s.df: print(s.name, s.df[0], s.df[1:3] if s.df[0]=='div' else s.df[1], s.lo, s.hi, b.get(s.id))
        print('PC'); 
        for c in conds: print('  ', c)
        sys.exit()
    return oc(conds, g, b, **kw)
solver.check = chk
driver.run_task((fn, cases, 1e12))
