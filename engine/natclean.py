"""development: run the concrete search of every harness of a unit on the unchanged tree (must find nothing).  python3-vt natclean.py SECONDS UNIT..."""
import sys, os, subprocess, driver, props
secs = float(sys.argv[1])
for un in sys.argv[2:]:
    u = props.UNITS[un]; bd = '/tmp/w/' + un; os.makedirs(bd, exist_ok=True)
    exe = driver.build_native(u, bd)
    jobs = [(f, s) for f in u['fns'] for s in (1, 2)]; run = []
    while jobs or run:
        while jobs and len(run) < driver.NCPU:
            f, s = jobs.pop(0); o = '%s/nc_%s_%d.txt' % (bd, f, s)
            if os.path.exists(o): os.remove(o)
            run.append((f, o, subprocess.Popen([exe, f, 'search', str(secs), str(s), o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
        f, o, p = run.pop(0); out, _ = p.communicate()
        if p.returncode not in (0,):
            print(un, f, 'exit', p.returncode, out[-600:].replace('\n', ' | '))
            if os.path.exists(o): print('   ', open(o).read()[:600].replace('\n', ' '))
    print(un, 'done', flush=True)
