"""Interface descriptions of the installed third-party libraries (names, classes, signatures).

Only the libraries are described; nothing of the analysed repository is imported."""
import json
import os
import subprocess

_PROBE = r'''
import sys, json, importlib, inspect, io
real = sys.stdout
sys.stdout = io.StringIO()
def find(dotted):
    parts = dotted.split(".")
    obj, k = None, 0
    try:
        obj = importlib.import_module(parts[0]); k = 1
    except BaseException as e:
        return {"import_failed": str(e)}
    while k < len(parts):
        try:
            obj = getattr(obj, parts[k])
        except AttributeError:
            try:
                obj = importlib.import_module(".".join(parts[:k + 1]))
            except BaseException:
                return {"exists": False}
        k += 1
    d = {"exists": True, "isclass": inspect.isclass(obj), "ismodule": inspect.ismodule(obj),
         "callable": callable(obj)}
    if inspect.isclass(obj) or inspect.ismodule(obj):
        d["members"] = dir(obj)
        d["dynamic"] = hasattr(obj, "__getattr__") and not inspect.ismodule(obj)
    if callable(obj):
        try:
            s = inspect.signature(obj)
            d["sig"] = [[p.name, p.kind.name, p.default is not inspect._empty] for p in s.parameters.values()]
        except BaseException:
            d["sig"] = None
    return d
for line in sys.stdin:
    q = line.strip()
    if not q:
        break
    try:
        r = find(q)
    except BaseException as e:
        r = {"import_failed": str(e)}
    real.write(json.dumps(r) + "\n"); real.flush()
'''


class ExtLib:
    def __init__(self):
        self.cache = {}
        self.proc = None
        self.dead = False

    def _start(self):
        py = "/opt/venv/bin/python"
        if not os.path.exists(py):
            self.dead = True
            return
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        env.pop("PYTHONPATH", None)
        try:
            self.proc = subprocess.Popen([py, "-c", _PROBE], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                         stderr=subprocess.DEVNULL, text=True, env=env, cwd="/")
        except OSError:
            self.dead = True

    def info(self, dotted):
        """dict, or None when the library cannot be described here"""
        if dotted in self.cache:
            return self.cache[dotted]
        if self.proc is None and not self.dead:
            self._start()
        r = None
        if not self.dead:
            try:
                self.proc.stdin.write(dotted + "\n")
                self.proc.stdin.flush()
                line = self.proc.stdout.readline()
                r = json.loads(line) if line else None
                if not line:
                    self.dead = True
            except (OSError, ValueError):
                self.dead = True
        if r is not None and "import_failed" in r:
            r = None
        self.cache[dotted] = r
        return r

    def close(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=5)
            except Exception:
                self.proc.kill()
            self.proc = None


LIB = ExtLib()
