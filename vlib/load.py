"""Loads the code under test from /repo's current working tree, with the environment it was
written for (PyTorch 1.0 API) and, for symbolic runs, symbolic-aware `math`, `ode`, `pygame`,
`random` stand-ins.  Every Repo() is a fresh copy of all modules (no state survives a path)."""
import builtins
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
_CODE = {}
PKG_ROOTS = {
    'lcp_physics': 'lcp_physics',
    'inference': 'experiments/inference',
    'encoder': 'experiments/breakout/encoder',
    'run_breakout': 'experiments/breakout/run_breakout',
    'learn_params': 'experiments/breakout/learn_params',
    'demo': 'demos/demo',
    'fixed_joint_demo': 'demos/fixed_joint_demo',
    'grad_demo': 'demos/grad_demo',
}


class Repo:
    """fresh import universe for the repository"""

    def __init__(self, shims, bi=None):
        self.mods = {}
        self.shims = shims
        self.bi = dict(vars(builtins))
        self.bi.update(bi or {})
        self.bi['__import__'] = self._import

    # attribute access:  R.bodies, R.world, ...
    SHORT = {k: 'lcp_physics.physics.' + k for k in
             ('bodies', 'constraints', 'contacts', 'engines', 'forces', 'utils', 'world')}
    SHORT.update({'lcp': 'lcp_physics.lcp.lcp', 'lcputil': 'lcp_physics.lcp.util',
                  'pdipm': 'lcp_physics.lcp.solvers.pdipm'})

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return self.load(self.SHORT.get(k, k))

    def find(self, name):
        top, _, rest = name.partition('.')
        if top not in PKG_ROOTS:
            return None
        base = os.path.join(REPO, PKG_ROOTS[top], *(rest.split('.') if rest else []))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return (f if os.path.exists(f) else None, True, base)
        if os.path.exists(base + '.py'):
            return (base + '.py', False, None)
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent, _, last = name.rpartition('.')
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        loc = self.find(name)
        if loc is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        path, ispkg, base = loc
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.bi
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [base]
        self.mods[name] = m
        if path:
            code = _CODE.get(path)
            if code is None:
                with open(path, 'rb') as f:
                    code = compile(f.read(), path, 'exec', dont_inherit=True)
                _CODE[path] = code
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if parent:
            setattr(self.mods[parent], last, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if name in self.shims:
            if fromlist or '.' not in name:
                return self.shims[name]
            if top in self.shims:
                return self.shims[top]
        if top in self.shims and '.' in name:
            # sub-module of a shimmed package
            obj = self.shims[top]
            if not fromlist:
                return obj
            for p in name.split('.')[1:]:
                obj = getattr(obj, p)
            return obj
        if self.find(top) is None:
            return builtins.__import__(name, globals if not level else None, locals, fromlist, 0)
        m = self.load(name)
        if not fromlist:
            return self.mods[top]
        for f in fromlist:
            if f == '*' or hasattr(m, f):
                continue
            sub = name + '.' + f
            if self.find(sub) is not None:
                self.load(sub)
        return m


# ----------------------------------------------------------------------------------------------
# record which functions of /repo ran
# ----------------------------------------------------------------------------------------------
FUNCS = set()
_TOOL = 3


def trace_functions():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, 'verif')
    except ValueError:
        return
    root = os.path.realpath(REPO) + os.sep

    def start(code, off):
        f = code.co_filename
        if f.startswith(root) and code.co_flags & 1:
            FUNCS.add('%s:%s' % (f[len(root):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(_TOOL, mon.events.PY_START, start)
    mon.set_events(_TOOL, mon.events.PY_START)
