"""import z3 (installed only in the tooling venv) into the code's own interpreter"""
import importlib.util, sys
P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    try:
        import z3
        return z3
    except ImportError:
        pass
    spec = importlib.util.spec_from_file_location('z3', P + '/__init__.py', submodule_search_locations=[P])
    m = importlib.util.module_from_spec(spec)
    sys.modules['z3'] = m
    spec.loader.exec_module(m)
    return m
