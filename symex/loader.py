"""Loads the code under test from /repo's current source into a symbolic
environment: `torch`, `numpy`, `math`, `pandas` resolve to the symbolic
stand-ins, a few builtins to symbolic-aware versions.  The source text is
compiled afresh on every run; nothing of it is cached."""
import sys
import os
import types
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import builtins as _bi

REPO = os.environ.get("NIDN_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
CHECKS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks")
PURE = ("dotmap", "toml")


class _Permissive(types.ModuleType):
    """stub for libraries whose effects (plots, logs) are out of scope"""
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()


class _Any:
    def __call__(self, *a, **k):
        return _Any()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __setitem__(self, k, v):
        pass

    def __getitem__(self, k):
        return _Any()

    def __mro_entries__(self, bases):
        return (object,)


class _Logger:
    """records levels/messages, prints nothing"""
    def __init__(self):
        self.records = []
        self._core = types.SimpleNamespace(min_level=10, handlers={})

    def _log(self, lvl):
        def f(msg=None, *a, **k):
            self.records.append((lvl, msg))
        return f

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("remove", "add", "configure", "level", "enable", "disable"):
            return lambda *a, **k: 0
        return self._log(n)


def _tqdm(it=None, *a, **k):
    class T:
        def __init__(s):
            s.it = it

        def __iter__(s):
            return iter(s.it)

        def __getattr__(s, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return lambda *a, **k: None

        def __enter__(s):
            return s

        def __exit__(s, *a):
            return False
    return T()


_shim_imports = {}


def _stub_modules():
    from . import symtorch, symnp, sympandas
    m = _shim_imports
    m["torch"] = symtorch
    m["torch.nn"] = symtorch.nn
    m["torch.nn.functional"] = symtorch.F
    m["torch.nn.init"] = symtorch.nn.init
    m["torch.optim"] = symtorch.optim
    m["torch.optim.lr_scheduler"] = symtorch.optim.lr_scheduler
    m["torch.fft"] = symtorch.fft
    m["torch.linalg"] = symtorch.linalg
    m["torch.cuda"] = symtorch.cuda
    m["torch.backends"] = symtorch.backends
    m["torch.random"] = symtorch.random
    m["torch.utils"] = symtorch.utils
    symtorch.autograd = types.ModuleType("torch.autograd")

    class Function:
        @classmethod
        def apply(cls, *a, **k):
            c = types.SimpleNamespace(save_for_backward=lambda *a: None, saved_tensors=(), mark_dirty=lambda *a: None)
            return cls.forward(c, *a, **k)
    symtorch.autograd.Function = Function
    m["torch.autograd"] = symtorch.autograd
    m["numpy"] = symnp.module
    m["numpy.linalg"] = symnp.module.linalg
    m["numpy.random"] = symnp._OV["random"]
    m["math"] = symnp.mathmod
    m["pandas"] = sympandas.module
    lg = types.ModuleType("loguru")
    lg.logger = _Logger()
    m["loguru"] = lg
    tq = types.ModuleType("tqdm")
    tq.tqdm = _tqdm
    tq.trange = lambda n, *a, **k: _tqdm(range(n))
    m["tqdm"] = tq
    m["tqdm.auto"] = tq
    rnd = types.ModuleType("random")
    rnd.SEED_HOOK = [None]
    rnd.seed = lambda s=None: rnd.SEED_HOOK[0](s) if rnd.SEED_HOOK[0] else None

    def nornd(name):
        def f(*a, **k):
            from .engine import Unsupported
            raise Unsupported("random.%s" % name)
        return f
    for n in ("random", "uniform", "randint", "choice", "shuffle", "gauss", "normalvariate", "sample"):
        setattr(rnd, n, nornd(n))
    m["random"] = rnd


PERMISSIVE = ("matplotlib", "mpl_toolkits", "scipy", "PIL", "IPython", "seaborn")


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if name.startswith(("numpy._core.", "numpy.core.")):
            return _bi.__import__(name, globals, locals, fromlist, level)   # numpy's own methods
        if top in _shim_imports:
            if name in _shim_imports:
                return _shim_imports[name] if fromlist else _shim_imports[top]
            from .engine import Unsupported
            # sub-module we do not model
            raise Unsupported("import of %s" % name)
        if top in PERMISSIVE:
            full = sys.modules.get("_permissive_" + name)
            if full is None:
                full = _Permissive(name)
                sys.modules["_permissive_" + name] = full
            if fromlist:
                return full
            t = sys.modules.get("_permissive_" + top)
            if t is None:
                t = _Permissive(top)
                sys.modules["_permissive_" + top] = t
            return t
    return _bi.__import__(name, globals, locals, fromlist, level)


def sym_builtins():
    from . import builtins_shim as B
    d = dict(vars(_bi))
    d.update(B.INJECT)
    d["__import__"] = _import
    return d


LOADED = []
MONITOR = {}


class SymLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        return compile(src, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        module.__dict__["__builtins__"] = sym_builtins()
        LOADED.append(module.__file__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package name -> directory

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top in PURE:
            base = os.path.join(SITE, *fullname.split("."))
            return self._spec(fullname, base, importlib.machinery.SourceFileLoader)
        if top in self.roots:
            base = os.path.join(self.roots[top], *fullname.split("."))
            return self._spec(fullname, base, SymLoader)
        if "." not in fullname and os.path.exists(os.path.join(CHECKS, fullname + ".py")):
            return self._spec(fullname, os.path.join(CHECKS, fullname), SymLoader)
        return None

    def _spec(self, fullname, base, L):
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(
                    fullname, init, loader=L(fullname, init), submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=L(fullname, f))
        return None


FUNCS = set()


def _monitor():
    """record which functions of the code under test get executed"""
    mon = sys.monitoring
    mon.use_tool_id(3, "symex")

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + "/") and not code.co_name.startswith("<"):
            FUNCS.add("%s:%s" % (fn[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


_installed = False


def install(monitor=True):
    global _installed
    if _installed:
        return
    _installed = True
    os.environ.setdefault("TORCH_DEVICE", "cpu")
    sys.dont_write_bytecode = True
    _stub_modules()
    sys.meta_path.insert(0, Finder({"nidn": REPO}))
    if monitor:
        _monitor()


def load_harness(path):
    """load a harness file with the same symbolic environment"""
    name = "harness_" + os.path.basename(path)[:-3]
    spec = importlib.util.spec_from_file_location(name, path, loader=SymLoader(name, path))
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod
