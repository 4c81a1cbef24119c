# The contract harnesses (jobs) and the properties they belong to.
TRUSTED = [
    'CBMC 6.11.0 (goto-cc front end, symbolic execution, SAT encoding) and its SAT solvers',
    'x86-64 LP64 memory model of CBMC; gcc is assumed to compile the same C semantics',
    'lib/gen.py: extraction that drops bit-field widths and redirects calls to contracts (stubs)',
]
CAD = '--sat-solver cadical'
PROPS = {}
JOBS = []
def prop(id, level='proof', **kw):
    PROPS[id] = dict(kw, level=level)
def job(**kw):
    kw['props'] = set(kw['props'].split())
    kw.setdefault('solver', CAD)
    JOBS.append(kw)

import os, importlib, glob
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), 'j_*.py'))):
    exec(compile(open(f).read(), f, 'exec'), globals())
