"""Stand-ins for libraries that are not installed here and that modules under test only name at import (torch, ray, scikit-learn)."""
import importlib.util
import sys
import types


class _Any:
    """A class usable as a base, an annotation or a decorator; nothing of it is ever run."""
    def __init__(self, *a, **k):
        pass

    def __class_getitem__(cls, item):
        return cls


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Any


def install():
    for top, names in (('torch', ['torch', 'torch.nn', 'torch.nn.functional', 'torch.utils', 'torch.utils.data']),
                       ('ray', ['ray', 'ray.air']), ('sklearn', ['sklearn', 'sklearn.model_selection'])):
        if top in sys.modules or importlib.util.find_spec(top) is not None:
            continue
        for name in names:
            mod = sys.modules[name] = _Module(name)
            mod.__path__ = []
            head, _, last = name.rpartition('.')
            if head:
                setattr(sys.modules[head], last, mod)
