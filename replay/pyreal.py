"""Import the Python modules of /repo from their current source, with stand-ins for the compiled modules they need."""
import importlib, os, sys, types
SRC = os.environ.get('VERIF_REPO', '/repo') + '/src/triumvirate'
VENV = '/opt/venv/lib/python3.12/site-packages'


def pkg(**stubs):
    """-> import function; stubs: compiled modules by short name, as dictionaries of names"""
    if VENV not in sys.path:
        sys.path.append(VENV)           # astropy, tqdm, mpi4py
    for k in [k for k in sys.modules if k == 'triumvirate' or k.startswith('triumvirate.')]:
        del sys.modules[k]
    p = types.ModuleType('triumvirate')
    p.__path__ = [SRC]
    sys.modules['triumvirate'] = p
    for n, d in stubs.items():
        m = types.ModuleType('triumvirate.' + n)
        m.__dict__.update(d)
        sys.modules['triumvirate.' + n] = m
    sys.dont_write_bytecode = True
    return lambda n: importlib.import_module('triumvirate.' + n)
