"""Parsing of the analysed package."""
import ast
import hashlib
import os


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (vanished anchor, parse error)."""


class Module(object):
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        for parent in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(parent):
                ch._parent = parent
        for n in ast.walk(self.tree):
            n._mod = self


class Project(object):
    def __init__(self, repo):
        self.repo = repo
        self.root = os.path.join(repo, "src", "jwkest")
        self.modules = {}
        if not os.path.isdir(self.root):
            raise AnalysisBroken("package directory %s is missing" % self.root)
        for dp, dn, fn in sorted(os.walk(self.root)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, os.path.join(repo, "src"))
                parts = rel[:-3].split(os.sep)
                if parts[-1] == "__init__":
                    parts.pop()
                with open(p, "rb") as fh:
                    src = fh.read().decode("utf-8")
                self.modules[".".join(parts)] = Module(".".join(parts), p, src)
        self.scripts = {}
        sd = os.path.join(repo, "script")
        if os.path.isdir(sd):
            for f in sorted(os.listdir(sd)):
                if f.endswith(".py"):
                    p = os.path.join(sd, f)
                    with open(p, "rb") as fh:
                        src = fh.read().decode("utf-8")
                    self.scripts["script." + f[:-3]] = Module(
                        "script." + f[:-3], p, src)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].src.encode() + b"\0")
        return h.hexdigest()

    def rel(self, path):
        return os.path.relpath(path, self.repo)

    def where(self, node):
        m = getattr(node, "_mod", None)
        if m is None:
            return "?"
        fn = enclosing_function(node)
        return "%s:%d (%s)" % (self.rel(m.path), getattr(node, "lineno", 0),
                               fn or "<module>")


def enclosing_function(node):
    names = []
    n = node
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.append(n.name)
        elif isinstance(n, ast.Lambda):
            names.append("<lambda>")
        n = getattr(n, "_parent", None)
    return ".".join(reversed(names))


def functions(mod):
    """(qualname, node, class name or None) for every def in the module."""
    out = []

    def rec(node, prefix, cls):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((prefix + ch.name, ch, cls))
                rec(ch, prefix + ch.name + ".", None)
            elif isinstance(ch, ast.ClassDef):
                rec(ch, prefix + ch.name + ".", prefix + ch.name)
            else:
                rec(ch, prefix, cls)
    rec(mod.tree, "", None)
    return out
