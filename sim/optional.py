"""Optional components behind a simulated import system.

Everything the import machinery looks for passes through a finder that decides
whether a component can be loaded.  Third party components are loaded only
once, in the parent process; when a simulated process imports one for the
first time it gets that copy.
"""

import errno
import importlib
import importlib.machinery
import sys

from . import kernel, seams

COMPONENTS = ('cblas', 'cvxpy', 'picos')
KINDS = ('missing', 'broken', 'partial', 'oserror', 'memory', 'incompatible',
         'interrupt')

_finder = [None]


def component(name):
    top = name.split('.')[0]
    if top in ('cvxpy', 'picos'):
        return top
    if top == 'pydsm' and 'cblas' in name.rsplit('.', 1)[-1]:
        return 'cblas'
    return None


def error(kind, comp, name):
    if kind == 'missing':
        return ModuleNotFoundError("No module named '%s'" % name, name=name)
    if kind == 'broken':
        return ImportError('lib%s.so.3: cannot open shared object file: No '
                           'such file or directory' % comp, name=name)
    if kind == 'partial':
        return ImportError("cannot import name 'core' from partially "
                           "initialized module '%s'" % name, name=name)
    if kind == 'oserror':
        return OSError(errno.EIO, 'Input/output error', name)
    if kind == 'memory':
        return kernel.SimMemoryError('importing '+name)
    if kind == 'incompatible':
        return AttributeError("module 'numpy' has no attribute 'int' (%s)"
                              % comp)
    return kernel.SimInterrupt('while importing '+name)


class Copy(object):
    """Loader that hands over what the parent process has loaded."""

    def __init__(self, finder, comp):
        self.finder, self.comp = finder, comp

    def create_module(self, spec):
        return self.finder.saved[self.comp][spec.name]

    def exec_module(self, module):
        f = self.finder
        if f.late.get(self.comp):
            e = f.late.pop(self.comp)
            raise e
        f.loaded.add(self.comp)
        for n, m in f.saved[self.comp].items():
            sys.modules[n] = m


class Traced(importlib.machinery.SourceFileLoader):
    """Loader of the sources of the package: their lines are events."""

    def get_code(self, name):
        c = super().get_code(name)
        kernel.watch(c)
        return c

    def exec_module(self, module):
        super().exec_module(module)
        seams.patch_hashes([module.__name__])


class Finder(object):

    def __init__(self):
        self.state = {}          # component -> [kind, times or None]
        self.late = {}
        self.saved = {}
        self.loaded = set()      # components that have been loaded
        self.asked = []          # first imports of components
        self.raised = []         # injected errors

    def hide(self):
        """Forget the copies of third party components."""
        for c in ('cvxpy', 'picos'):
            self.saved[c] = {}
            for n in [n for n in sys.modules
                      if n == c or n.startswith(c+'.')]:
                self.saved[c][n] = sys.modules.pop(n)

    def loaded_real(self):
        """Components that are in the process now."""
        return set(component(n) for n in sys.modules if component(n))

    def find_spec(self, name, path=None, target=None):
        comp = component(name)
        if comp is None:
            if name.split('.')[0] != 'pydsm':
                return None
            spec = importlib.machinery.PathFinder.find_spec(name, path)
            if spec is not None and type(
                    spec.loader) is importlib.machinery.SourceFileLoader:
                spec.loader = Traced(spec.loader.name, spec.loader.path)
            return spec
        self.asked.append(comp)
        st = self.state.get(comp)
        if st:
            kind = st[0]
            if st[1] is not None:
                st[1] -= 1
                if st[1] <= 0:
                    del self.state[comp]
            k = kernel.K
            if k is not None:
                k.fault('import_'+kind)
                k.emit('import', comp, kind)
            e = error(kind, comp, name)
            self.raised.append(e)
            if kind == 'partial' and comp != 'cblas':
                self.late[comp] = e
            else:
                raise e
        if comp == 'cblas':
            return importlib.machinery.PathFinder.find_spec(name, path)
        if name not in self.saved[comp]:
            return None
        return importlib.machinery.ModuleSpec(name, Copy(self, comp),
                                              is_package=True)


def install(root):
    """A process with no package and no component loaded yet."""
    kernel.monitor(root)
    f = Finder()
    f.hide()
    for n in [n for n in sys.modules
              if n == 'pydsm' or n.startswith('pydsm.')]:
        raise RuntimeError('the package is loaded already')
    sys.meta_path.insert(0, f)
    _finder[0] = f
    return f


MODULES = ('pydsm', 'pydsm.delsig', 'pydsm.NTFdesign', 'pydsm.cvxpy_tdr',
           'pydsm.NTFdesign.minmax', 'pydsm.NTFdesign.weighting',
           'pydsm.NTFdesign.filter_based', 'pydsm.NTFdesign.legacy',
           'pydsm.NTFdesign.psychoacoustic', 'pydsm.iso226',
           'pydsm.audio_weightings', 'pydsm.simulation', 'pydsm.ft',
           'pydsm.ir', 'pydsm.relab', 'pydsm.utilities')


def start(order=(0,)):
    """What a user's program does first."""
    for i in order:
        importlib.import_module(MODULES[i % len(MODULES)])
    return ('imported',)
