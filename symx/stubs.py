"""Stand-ins for third-party modules that are not installed in this sandbox."""
import builtins
import contextlib
import types


class StubModule(types.ModuleType):
    __path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        m = StubModule(f'{self.__name__}.{n}')
        setattr(self, n, m)
        return m

    def __call__(self, *a, **k):
        raise RuntimeError(f'{self.__name__} is not installed')


@contextlib.contextmanager
def missing_modules():
    real = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        try:
            return real(name, globals, locals, fromlist, level)
        except ImportError:
            if level or name.startswith('metcalcpy'):
                raise
            parts = name.split('.')
            root = StubModule(parts[0])
            m = root
            for p in parts[1:]:
                m = getattr(m, p)
            return m if fromlist else root
    builtins.__import__ = imp
    try:
        yield
    finally:
        builtins.__import__ = real
