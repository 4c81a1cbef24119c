import sys, os, re, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check
txt = open(sys.argv[1]).read()
prop = re.search(r'^property: (\S+)', txt, re.M).group(1)
name = re.search(r'^job: (\S+)', txt, re.M).group(1)
job = next(j for j in check.J.JOBS if j['name'] == name)
d = tempfile.mkdtemp(prefix='vp-replay-')
try:
    exe, err = check.native_build(prop, job, d)
    if not exe:
        sys.exit(err)
    f = os.path.join(d, 'in')
    open(f, 'w').write(txt.split('--- inputs\n')[1])
    rc, out = check.native_run(exe, ['replay', f], 60)
    print(out)
    print('exit', rc)
finally:
    shutil.rmtree(d, ignore_errors=True)
