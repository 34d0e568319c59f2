"""Fresh copies of the code under test.

Every simulated process executes its own copy of the package (own module
globals, own class objects).  Source is read from /repo's working tree once per
worker; compiled code is cached, execution of the module bodies is not.
"""
import importlib.abc
import importlib.machinery
import os
import sys
import warnings

REPO = os.environ.get("DST_REPO", "/repo")
PACKAGE = "gcodeutils"
TOOLS = {
    "gcode_mod": "gcodeutils.gcode_mod",
    "gcode_stretch": "gcodeutils.gcode_stretch",
    "gcode_optimize_arcs": "gcodeutils.gcode_optimize_arcs",
    "gcode_tempcal": "gcodeutils.gcode_tempcal",
    "gcoder": "gcodeutils.gcoder",          # python -m gcodeutils.gcoder: prints a report
}
PLUGINS = {
    "stretch_plugin": "cura_plugins/stretch_plugin.py",
    "tempcal_plugin": "cura_plugins/tempcal_plugin.py",
}

HOSTS = ("skeinforge_host", "pause_host")            # programs using the package as a library

_code = {}


def _compile(path):
    code = _code.get(path)
    if code is None:
        with open(path, "rb") as f:
            source = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(source, path, "exec", dont_inherit=True)
        _code[path] = code
    return code


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_compile(self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PACKAGE and not fullname.startswith(PACKAGE + "."):
            return None
        rel = os.path.join(REPO, *fullname.split("."))
        key = (fullname,)
        entry = _specs.get(key)
        if entry is None:
            if _isfile(os.path.join(rel, "__init__.py")):
                entry = (os.path.join(rel, "__init__.py"), True)
            elif _isfile(rel + ".py"):
                entry = (rel + ".py", False)
            else:
                return None
            _specs[key] = entry
        filename, is_pkg = entry
        spec = importlib.machinery.ModuleSpec(fullname, _Loader(filename), origin=filename, is_package=is_pkg)
        if is_pkg:
            spec.submodule_search_locations = [rel]
        spec.has_location = True
        return spec


_specs = {}
_real_stat = os.stat


def _isfile(path):
    import stat
    try:
        return stat.S_ISREG(_real_stat(path).st_mode)
    except OSError:
        return False


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    sys.dont_write_bytecode = True


def preload():
    """Compile everything while the real file system is in place."""
    install()
    base = os.path.join(REPO, PACKAGE)
    for root, dirs, names in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "__pycache__"))
        for name in sorted(names):
            if name.endswith(".py"):
                try:
                    _compile(os.path.join(root, name))
                except SyntaxError:
                    pass
    for rel in PLUGINS.values():
        try:
            _compile(os.path.join(REPO, rel))
        except (OSError, SyntaxError):
            pass


def plugin_code(name):
    return _compile(os.path.join(REPO, PLUGINS[name]))


def is_ours(name):
    return name == PACKAGE or name.startswith(PACKAGE + ".")


def take_modules():
    """Remove the package from sys.modules and return what was there."""
    taken = {}
    for name in [n for n in sys.modules if is_ours(n)]:
        taken[name] = sys.modules.pop(name)
    return taken


def put_modules(modules):
    take_modules()
    sys.modules.update(modules)


PREFIX = os.path.join(REPO, PACKAGE) + os.sep
PLUGIN_PREFIX = os.path.join(REPO, "cura_plugins") + os.sep


def code_is_ours(code):
    return code.co_filename.startswith(PREFIX) or code.co_filename.startswith(PLUGIN_PREFIX)


class Lib(object):
    """A fresh copy of the library, for host-session properties."""

    def __init__(self):
        import importlib
        saved = take_modules()
        try:
            self.gcoder = importlib.import_module("gcodeutils.gcoder")
            self.translate = importlib.import_module("gcodeutils.filter.translate")
            self.relative = importlib.import_module("gcodeutils.filter.relative_extrusion")
            self.arcs = importlib.import_module("gcodeutils.filter.arc_optimizer")
            self.filter = importlib.import_module("gcodeutils.filter.filter")
            self.stretch = importlib.import_module("gcodeutils.stretch.stretch")
            self.iterator = importlib.import_module("gcodeutils.visit.iterator")
            self.pause = importlib.import_module("gcodeutils.visit.pause_at_layer")
            self.visitor = importlib.import_module("gcodeutils.visit.visitor")
            self.tempcal = importlib.import_module("gcodeutils.gcode_tempcal")
            self.mods = dict((n, m) for n, m in sys.modules.items() if is_ours(n))
        finally:
            put_modules(saved)
