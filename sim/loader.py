"""Import of the code under test.

pyphs is always compiled from the sources of the repository's working tree:
byte code left in __pycache__ is neither read nor written.  Two seams live
here because import is where they exist:

* ``cached=True`` sends every code object through marshal, which is what
  loading from a warm byte code cache does (string constants are then no longer
  shared between modules);
* ``order=seed`` makes the iteration order of every set built by pyphs code
  arbitrary (a seeded permutation), as hash randomisation does on interpreters
  whose sets are not insertion ordered; hash() and id() called by pyphs are
  permuted too.
"""
import ast
import gc
import importlib.machinery
import marshal
import os
import random
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')

_state = {'cached': False, 'order': None, 'rng': None, 'shuffled': 0,
          'collect': (), 'keep': False}
# code objects kept for the processes forked later
_codes = {}


# -- set order -------------------------------------------------------------

def _perm(obj):
    """Called around everything pyphs iterates over."""
    if type(obj) in (set, frozenset) and len(obj) > 1:
        rng = _state['rng']
        if rng is not None:
            _state['shuffled'] += 1
            if _state['shuffled'] in _state['collect']:
                gc.collect()
            lst = list(obj)
            rng.shuffle(lst)
            return lst
    return obj


def _pop(obj, *args, **kwargs):
    """Called in place of obj.pop() in pyphs."""
    if type(obj) is set and len(obj) > 1 and not args and not kwargs:
        e = _perm(obj)[0] if _state['rng'] is not None else obj.pop()
        obj.discard(e)
        return e
    return obj.pop(*args, **kwargs)


def _hash(obj):
    return hash((_state['order'], hash(obj)))


def _id(obj):
    # as unique as the true one, in another order
    return int(format(id(obj) & (1 << 64) - 1, '064b')[::-1], 2) ^ \
        hash((_state['order'], 'id')) & (1 << 62) - 1


class _Transform(ast.NodeTransformer):
    CALLS = ('list', 'tuple', 'enumerate', 'zip', 'map', 'iter', 'filter',
             'sum', 'dict')
    METHODS = ('join', 'extend', 'union', 'update', 'from_iterable')

    def _wrap(self, node):
        new = ast.Call(func=ast.Name(id='__verif_perm__', ctx=ast.Load()),
                       args=[node], keywords=[])
        return ast.copy_location(new, node)

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self._wrap(node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self._wrap(node.iter)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'pop' and \
                not node.args and not node.keywords:
            return ast.copy_location(ast.Call(
                func=ast.Name(id='__verif_pop__', ctx=ast.Load()),
                args=[f.value], keywords=[]), node)
        hit = (isinstance(f, ast.Name) and f.id in self.CALLS) or \
            (isinstance(f, ast.Attribute) and f.attr in self.METHODS)
        if hit:
            node.args = [a if isinstance(a, ast.Starred) else self._wrap(a)
                         for a in node.args]
        return node

    def visit_Starred(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = self._wrap(node.value)
        return node


class _Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        key = (path, _state['order'] is not None)
        code = _codes.get(key)
        if code is None:
            data = self.get_data(path)
            tree = ast.parse(data, path)
            if key[1]:
                tree = ast.fix_missing_locations(_Transform().visit(tree))
            code = compile(tree, path, 'exec', dont_inherit=True)
            if _state['keep']:
                _codes[key] = code
        if _state['cached']:
            code = marshal.loads(marshal.dumps(code))
        return code

    def exec_module(self, module):
        if _state['order'] is not None:
            d = module.__dict__
            d['__verif_perm__'], d['__verif_pop__'] = _perm, _pop
            d['hash'], d['id'] = _hash, _id
        super().exec_module(module)


class _Finder:

    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != 'pyphs' and not fullname.startswith('pyphs.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, [REPO] if path is None else path)
        if spec is None or not isinstance(
                spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = _Loader(fullname, spec.origin)
        spec.cached = None
        return spec


def install(cached=False, order=None):
    _state['cached'] = cached
    _state['order'] = order
    _state['rng'] = None if order is None else random.Random('order:%s' % order)
    if _Finder not in sys.meta_path:
        sys.meta_path.insert(0, _Finder)
    sys.dont_write_bytecode = True


def shuffles():
    return _state['shuffled']


def load_pyphs(cached=False, order=None, verbose=0):
    """Import pyphs (it must not be imported yet) and set its verbosity."""
    assert 'pyphs' not in sys.modules
    install(cached, order)
    import pyphs
    import pyphs.config
    set_verbose(verbose)
    return pyphs


def set_verbose(v):
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'pyphs' and hasattr(mod, 'VERBOSE'):
            mod.VERBOSE = v


def preload():
    """Everything pyphs needs except pyphs."""
    import warnings
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    import numpy
    numpy.seterr(all='ignore')
    import h5py                                         # noqa
    import sympy                                        # noqa
    import sympy.printing                               # noqa
    import networkx                                     # noqa
    import scipy.signal                                 # noqa
    import scipy.io.wavfile                             # noqa
    import matplotlib.pyplot                            # noqa
    import progressbar                                  # noqa
