# Runs tools/edge_pre/edge_pre.py: plots are replaced (they need a display library which the old sympy can't handle).
import sys, runpy, logging
import numpy
for n, t in (('complex', complex), ('float', float), ('int', int), ('bool', bool), ('object', object)):
    if n not in numpy.__dict__: setattr(numpy, n, t)
import sympy, sympy.plotting, importlib
class Nop:
    def __getattr__(self, n): return lambda *a, **k: Nop()
nop = lambda *a, **k: Nop()
for m in (sympy, sympy.plotting):
    for n in ('plot', 'plot3d', 'plot3d_parametric_surface'):
        if hasattr(m, n): setattr(m, n, nop)
root = sys.argv[1]
sys.path.insert(0, root)
for m in ('io.Matrices', 'sc.grid.Line', 'sc.grid.Quad', 'sc.grid.Tria', 'sc.grid.Hex', 'dg.basis.Line', 'dg.basis.Quad', 'dg.basis.Tria'):
    m = importlib.import_module('edge_pre.' + m)
    for n in ('sparsity', 'plot'):
        if hasattr(m, n): setattr(m, n, nop)
sys.argv = ['edge_pre.py', '-x', sys.argv[2]]
runpy.run_path(root + '/edge_pre.py', run_name='__main__')
