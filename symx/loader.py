"""Imports the code under test (and the harnesses) through the transformation."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from symx import hooks, transform

SITE = '/opt/venv/lib/python3.12/site-packages'


class Loader(importlib.abc.Loader):
    def __init__(self, path, source_root):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        module.__dict__['_sx_'] = hooks
        code = transform.transform(src, self.path)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # {top-level package name: directory containing it}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.util.spec_from_file_location(fullname, init, loader=Loader(init, root),
                                                          submodule_search_locations=[base])
            return spec
        f = base + '.py'
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, root))
        return None


def install(repo, verif):
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.meta_path.insert(0, Finder({'weatherlink': repo, 'checks': verif, 'vlib': verif}))
    import six
    from symx import models
    for f, name in ((six.iteritems, 'items'), (six.itervalues, 'values'), (six.iterkeys, 'keys')):
        models.ALWAYS[id(f)] = (f, (lambda nm: lambda d, **k: iter_dict(d, nm))(name))


def iter_dict(d, name):
    if type(d) is hooks.SymUnion:
        d = hooks.force(d)
    return hooks.call(getattr(d, name))
