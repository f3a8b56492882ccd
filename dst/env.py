"""Process set-up shared by all checks: which tree is tested, which optional
dependency is stubbed and which ambient sources of nondeterminism are pinned.

Must be imported before numpy, pandas or seismostats.
"""
import importlib.machinery
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
           'NUMEXPR_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['TZ'] = 'UTC'
for _k in list(os.environ):
    if _k.lower().endswith('_proxy') or _k in ('REQUESTS_CA_BUNDLE',
                                               'CURL_CA_BUNDLE'):
        del os.environ[_k]
os.environ['NETRC'] = '/dev/null'
sys.dont_write_bytecode = True


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the source, so that a stale cached byte code of a
    tree that was edited within one second is never used."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'seismostats' and not name.startswith('seismostats.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            name, [REPO] if path is None else path, target)
        if spec is not None and isinstance(
                spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _FreshLoader(spec.loader.name, spec.loader.path)
        return spec


def _compile_once(jinja2):
    """Templates are compiled once per process and setting (the code which
    jinja2 generates is a function of them); rendering is not cached."""
    real = jinja2.Environment.compile
    known = {}

    def compile_(self, source, name=None, filename=None, raw=False,
                 defer_init=False):
        auto = self.autoescape
        key = (source, name, filename, raw, defer_init,
               auto(name) if callable(auto) else auto, tuple(sorted(
            (k, repr(v)) for k, v in self.__dict__.items()
            if isinstance(v, (str, bool, int, type(None))))), tuple(
                sorted([*self.filters, *self.tests, *self.globals,
                        *self.extensions, *self.policies])))
        if not isinstance(source, str):
            return real(self, source, name, filename, raw, defer_init)
        if key not in known:
            known[key] = real(self, source, name, filename, raw, defer_init)
        return known[key]

    jinja2.Environment.compile = compile_


def setup():
    """Import the code under test from REPO. The optional dependency
    openquake is stubbed out (its import takes a numba compilation of more
    than a minute in a fresh copy and nothing here uses it)."""
    if 'seismostats' in sys.modules:
        return sys.modules['seismostats']
    sys.modules['openquake'] = None
    sys.meta_path.insert(0, _Finder)
    import warnings
    warnings.simplefilter('ignore')
    import cartopy, jinja2, matplotlib.pyplot, numpy, pandas  # noqa
    import requests, scipy.optimize, scipy.stats, shapely  # noqa
    _compile_once(jinja2)
    from . import sched
    with sched.patched_locks():
        import seismostats
        import seismostats.analysis  # noqa
        import seismostats.catalogs.client  # noqa
        import seismostats.io.parser  # noqa
    assert seismostats.__file__.startswith(REPO + '/'), seismostats.__file__
    return seismostats
