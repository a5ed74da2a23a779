"""Concrete harness: real libff components in this process, and the real ff program."""

import argparse
import os
import shutil
import subprocess
import sys
import tempfile
import threading

from contracts.common import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = sys.executable
_state = {}


def scratch(prefix="t"):
    base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix=prefix + "-", dir=base)


class Log:
    def __init__(self):
        self.lines = []
        self.debug_categories = []

    def set_debug(self, c):
        pass

    def _add(self, *a, **k):
        self.lines.append(a)
    warning = hint = info = debug = debug_proc = exception = _add

    def error(self, message, exitcode):
        self.lines.append(("error", message))
        if exitcode is not None:
            raise SystemExit(exitcode)


class Shared:
    def __init__(self, v=0):
        self.value = v

    def get_lock(self):
        return threading.Lock()


DEFAULTS = dict(tests=[], exclude=[], output=["file"], directories=["."], hide=False, ignore=False,
    ignore_files=[], one_file_system=False, case="smart", si=False, follow_symlinks=False,
    absolute_path=False, jobs=2, cache=None, debug=["none"], profile=None, json=None, depth=None,
    limit=None, count=None, exec=None, exec_batch=None, action=None, help=None,
    no_parent_ignore=False, sort=None, reverse=False, halt="never", all=False, color="never",
    sep=None, newline="\n", separator=None, fail=False, verbose=False, breadth_first=False,
    no_text=False, null=False)


def context(**args):
    """A Context with the real registry and no processes, shared memory or cache."""
    os.environ["FF_PLUGIN_DIRS"] = os.path.join(HERE, "plugins")
    from libff.context import Context
    from libff.registry import Registry
    from libff.cache import NullCache
    ctx = Context()
    ctx.args = argparse.Namespace(**{**DEFAULTS, **args})
    ctx.global_lock = threading.Lock()
    ctx.logger = Log()
    ctx.cache_hits, ctx.cache_misses = Shared(), Shared()
    ctx.exitcode_object = Shared()
    ctx.process_succeeded, ctx.process_failed = Shared(), Shared()
    ctx._has_result = Shared()
    ctx.cache = NullCache(ctx)
    ctx.registry = Registry(ctx)
    return ctx


class FakeEntry:
    """An entry whose plugin attributes are given."""

    def __init__(self, vt=None, **attrs):
        self.vt = vt or {}
        self.attrs = attrs
        for k, v in attrs.items():
            setattr(self, k, v)
        if "abspath" not in attrs:
            self.abspath = "/x"
        if "path" not in attrs:
            self.path = "x"
        if "name" not in attrs:
            self.name = "x"

    def is_dir(self):
        return self.attrs.get("type") == "directory"

    def is_file(self):
        return self.attrs.get("type", "file") == "file"

    def get_attribute(self, name):
        return self.attrs[name]


def matcher(tokens, **args):
    from libff.filter import Matcher
    return Matcher(context(**args), list(tokens))


def excluder(tokens, **args):
    from libff.filter import Excluder
    return Excluder(context(**args), list(tokens))


def programs():
    """How many times the program was run so far."""
    return _state.get("programs", 0)


def patient(value):
    """Whether the processes of the program wait longer for one another."""
    _state["patient"] = value


def find(code, cwd, timeout=60):
    """Run a program that uses libff.find.Find; returns (exit status, stdout, stderr)."""
    return ff([], cwd, timeout=timeout, program=["-c", "from libff.find import Find\n" + code])


def ff(argv, cwd, env=None, timeout=60, stdin=None, home=None, text=True, optimize=False,
        program=("-m", "ff")):
    """Run the real program; returns (exit status, stdout, stderr)."""
    _state["programs"] = _state.get("programs", 0) + 1
    if _state.get("patient"):
        # On a busy machine the processes may give up waiting for one another, see DESIGN.md (C26).
        code = "import libff\nlibff.TIMEOUT = 0.3\n"
        if program[0] == "-c":
            program = ["-c", code + program[1]]
        else:
            program = ["-c", code + f"import runpy\nrunpy.run_module({program[1]!r}, run_name='__main__', "
                "alter_sys=True)"]
    if home is None:
        home = _state.get("home")
        if home is None or not os.path.isdir(home):
            home = _state["home"] = scratch("home")
            os.makedirs(os.path.join(home, ".cache"))
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "TMPDIR")}
    e.update(HOME=home, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
    e.update(env or {})
    p = subprocess.Popen([PYTHON, "-B"] + (["-O"] if optimize else []) + list(program) + argv,
        cwd=cwd, env=e,
        stdin=subprocess.DEVNULL if stdin is None else stdin, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", "", ""
    if text:
        out, err = out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "surrogateescape")
    return p.returncode, out, err


def tree(root, spec):
    """Create files and directories: {"a/b": "content" | None (directory) | ("link", target)}"""
    for path, content in spec.items():
        full = os.path.join(root, path)
        if content is None:
            os.makedirs(full, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if isinstance(content, (tuple, list)):
            os.symlink(content[1], full)
        else:
            with open(full, "wb") as f:
                f.write(content.encode("utf-8", "surrogateescape") if isinstance(content, str)
                        else content)


def remove(path):
    shutil.rmtree(path, ignore_errors=True)


def cleanup():
    if _state.get("home"):
        remove(_state.pop("home"))
