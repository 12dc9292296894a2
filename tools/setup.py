"""Nothing is built ahead of a check; verify that what it needs is there."""
import importlib
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
for m in ('jax', 'numpy', 'scipy', 'sympy'):
    importlib.import_module(m)
print('ok')
