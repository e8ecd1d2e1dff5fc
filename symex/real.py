"""The real, uninstrumented code: /repo/src with the real BTrees, persistent,
zope.interface and ZODB, and okascore compiled from the current okascore.c."""
import importlib
import importlib.util
import os
import subprocess
import sys
import tempfile
import types

SITE = '/opt/venv/lib/python3.12/site-packages'
REPO = os.environ.get('VERIF_REPO', '/repo')
_ready = False
_so = None


def build_okascore(outdir):
    """(path of the .so or None, compiler output)"""
    import sysconfig
    src = os.path.join(REPO, 'src/zope/index/text/okascore.c')
    if not os.path.exists(src):
        return None, 'no okascore.c'
    so = os.path.join(outdir, 'okascore.so')
    inc = include_dir()
    r = subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-I', inc, src, '-o', so], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return so, ''


class Score:
    """okascore.score as the harnesses see it, in a copy of the module that
    keeps a ledger of references"""

    def __init__(self, so):
        import ctypes
        self.lib = ctypes.PyDLL(so)
        self.lib.vp_end.restype = ctypes.c_char_p
        self.lib.vp_end.argtypes = [ctypes.py_object]
        spec = importlib.util.spec_from_file_location('okascore', so)
        self.m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.m)

    def call(self, *args, fail=None):
        self.lib.vp_begin(fail or 0)
        try:
            r, x = self.m.score(*args), None
        except Exception as e:
            r, x = None, e
        return r, x, self.lib.vp_end(r).decode()

    def calls(self):
        return self.lib.vp_count()


def ledger_so(outdir):
    src = os.path.join(REPO, 'src/zope/index/text/okascore.c')
    so = os.path.join(outdir, 'okaledger.so')
    r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-I', include_dir(), '-include',
                        os.path.join(os.path.dirname(os.path.abspath(__file__)), 'okashim.h'), src, '-o', so],
                       capture_output=True, text=True)
    return (None, r.stderr) if r.returncode else (so, '')


_score = None


def score():
    global _score
    if _score is None:
        so = os.path.join(os.environ['VERIF_WORK'], 'okaledger.so')
        if not os.path.exists(so):
            from .core import Unsupported
            raise Unsupported('okascore.c does not compile with the ledger')
        _score = Score(so)
    return _score


def include_dir():
    for d in ('/usr/include/python3.12', '/usr/local/include/python3.12'):
        if os.path.exists(os.path.join(d, 'Python.h')):
            return d
    raise RuntimeError('no Python.h')


def setup(so=None):
    global _ready, _so
    if _ready:
        return
    _ready = True
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    z = sys.modules['zope'] = types.ModuleType('zope')
    z.__path__ = [os.path.join(SITE, 'zope'), os.path.join(REPO, 'src/zope')]
    import zope.interface     # noqa
    _so = so
    if so:
        name = 'zope.index.text.okascore'
        spec = importlib.util.spec_from_file_location(name, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        sys.modules[name] = m
    else:
        sys.modules['zope.index.text.okascore'] = None


def load(name):
    setup(_so)
    return importlib.import_module(name)


class Session:
    def __init__(self, root, concurrent=False):
        setup()
        if concurrent:
            from ZODB.DemoStorage import DemoStorage
            self.storage = DemoStorage()    # in memory, resolves conflicts
        else:
            from ZODB.MappingStorage import MappingStorage
            self.storage = MappingStorage()
        self._open()
        self.root = root
        self.conn.root()['root'] = root
        self.tm.commit()

    def _open(self):
        import transaction
        import ZODB
        self.db = ZODB.DB(self.storage)
        self.tm = transaction.TransactionManager()
        self.conn = self.db.open(self.tm)

    def commit(self):
        self.tm.commit()

    def abort(self):
        self.tm.abort()

    def reload(self):
        self.tm.abort()
        self._open()
        self.root = self.conn.root()['root']
        return self.root

    def fork(self):
        import transaction
        self.two = [transaction.TransactionManager() for i in range(2)]
        return [self.db.open(tm).root()['root'] for tm in self.two]

    def join(self):
        import logging
        from ZODB.POSException import ConflictError
        logging.getLogger('ZODB.ConflictResolution').disabled = True
        self.two[0].commit()
        try:
            self.two[1].commit()
        except ConflictError:
            self.two[1].abort()
            return False
        return True

    def close(self):
        pass


_harness = {}


def harness(path, name):
    if path not in _harness:
        m = types.ModuleType(name)
        m.__file__ = path
        sys.modules[name] = m
        with open(path, encoding='utf-8') as f:
            exec(compile(f.read(), path, 'exec'), m.__dict__)
        _harness[path] = m
    return _harness[path]
