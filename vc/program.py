"""The program under verification: syntax trees of the files of /repo, read on every run."""
from __future__ import annotations
import ast
import os

from .core import *


class ClassInfo:
    def __init__(self, name, module, node, prog):
        self.name, self.module, self.node, self.prog = name, module, node, prog
        self.methods = {}
        self.attrs = {}
        self.anns = []
        self.decos = set()
        for d in node.decorator_list:
            self.decos.add(dotted(d.func if isinstance(d, ast.Call) else d))
        self.is_dataclass = any(d.endswith("dataclass") for d in self.decos)
        self.bases = [dotted(b.value if isinstance(b, ast.Subscript) else b) for b in node.bases]
        self.statics, self.classmethods, self.props = set(), set(), set()
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                nm = self.mangle(st.name)
                self.methods[nm] = st
                ds = {dotted(d.func if isinstance(d, ast.Call) else d) for d in st.decorator_list}
                if "staticmethod" in ds:
                    self.statics.add(nm)
                if "classmethod" in ds:
                    self.classmethods.add(nm)
                if "property" in ds:
                    self.props.add(nm)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.attrs[st.targets[0].id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.anns.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
        self.is_enum = any(b in ("enum.Enum", "Enum", "enum.IntEnum") for b in self.bases)
        self.enum_members = None

    def mangle(self, nm):
        if nm.startswith("__") and not nm.endswith("__"):
            return f"_{self.name.lstrip('_')}{nm}"
        return nm

    def init_annotations(self):
        """annotations of self.x in the methods"""
        out = {}
        for m in self.methods.values():
            for n in ast.walk(m):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) \
                        and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                    out.setdefault(self.mangle(n.target.attr), n.annotation)
        # fields without annotation that a constructor sets to a new object of a repository class, or to a number
        for mn in ("__init__", "_init"):
            m = self.methods.get(mn)
            for n in ast.walk(m) if m is not None else ():
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                        and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self":
                    nm = self.mangle(n.targets[0].attr)
                    if nm in out:
                        continue
                    if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                        r = self.prog.resolve(self.module, n.value.func.id)
                        if r and r[0] == "class":
                            out[nm] = n.value.func
                    elif isinstance(n.value, ast.Constant) and type(n.value.value) in (int, float, bool):
                        out[nm] = ast.Name(id=type(n.value.value).__name__, ctx=ast.Load())
                    elif isinstance(n.value, ast.Name):
                        for a in m.args.args + m.args.kwonlyargs:
                            if a.arg == n.value.id and a.annotation is not None:
                                out[nm] = a.annotation
        return out


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return dotted(e.value) + "." + e.attr
    if isinstance(e, ast.Call):
        return dotted(e.func) + "()"
    if isinstance(e, ast.Subscript):
        return dotted(e.value)
    return "?"


def number_nodes(tree):
    """name calls, loops and comprehensions by their order inside their function: adding a line elsewhere changes no name"""
    kinds = (ast.Call, ast.For, ast.AsyncFor, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)

    def mark(fn, prefix):
        for k, n in enumerate(n for n in ast.walk(fn) if isinstance(n, kinds)):
            n.pos = (prefix + fn.name, k)
    for st in tree.body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            mark(st, "")
        elif isinstance(st, ast.ClassDef):
            for m in st.body:
                if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    mark(m, st.name + ".")


def node_pos(n):
    return getattr(n, "pos", None) or (n.lineno, n.col_offset)


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        number_nodes(self.tree)
        self.names = {}      # name -> ('class',node)|('func',node)|('import',module,attr)|('expr',node)
        for st in self.tree.body:
            self._stmt(st)

    def _stmt(self, st):
        if isinstance(st, ast.ClassDef):
            self.names[st.name] = ("class", st)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.names[st.name] = ("func", st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.names[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.names[a.asname or a.name] = ("import", st.module or "", a.name)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            self.names[st.targets[0].id] = ("expr", st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.names[st.target.id] = ("expr", st.value)
        elif isinstance(st, ast.Try):
            for s in st.body:
                self._stmt(s)
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._stmt(s)


class Program:
    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.classes = {}    # (module, name) -> ClassInfo

    def module(self, name):
        if name not in self.modules:
            p = os.path.join(self.root, *name.split("."))
            path = p + ".py" if os.path.isfile(p + ".py") else os.path.join(p, "__init__.py")
            if not os.path.isfile(path):
                self.modules[name] = None
            else:
                self.modules[name] = Module(name, path)
        return self.modules[name]

    def cls(self, module, name):
        if (module, name) not in self.classes:
            m = self.module(module)
            if m is None or name not in m.names:
                raise Unsupported(f"class {module}.{name} not found")
            e = m.names[name]
            if e[0] == "import":
                return self.cls(e[1], e[2])
            if e[0] != "class":
                raise Unsupported(f"{module}.{name} is not a class")
            self.classes[(module, name)] = ClassInfo(name, module, e[1], self)
        return self.classes[(module, name)]

    def resolve(self, module, name):
        """-> ('class', ClassInfo) | ('func', node, module) | ('lib', dotted) | ('expr', node, module) | None"""
        m = self.module(module)
        if m is None or name not in m.names:
            return None
        e = m.names[name]
        if e[0] == "class":
            return ("class", self.cls(module, name))
        if e[0] == "func":
            return ("func", e[1], module)
        if e[0] == "module":
            if e[1].split(".")[0] == "scaled":
                return ("repomod", e[1])
            return ("lib", e[1])
        if e[0] == "expr":
            return ("expr", e[1], module)
        mod, attr = e[1], e[2]
        if mod.split(".")[0] == "scaled" and self.module(mod) is not None:
            r = self.resolve(mod, attr)
            if r is None and self.module(mod + "." + attr) is not None:
                return ("repomod", mod + "." + attr)
            return r
        return ("lib", f"{mod}.{attr}")

    def mro(self, ci):
        out = [ci]
        for b in ci.bases:
            r = self.resolve(ci.module, b.split(".")[0]) if "." not in b else None
            if r and r[0] == "class":
                for c in self.mro(r[1]):
                    if c not in out:
                        out.append(c)
        return out

    def lib_bases(self, ci):
        out = []
        for c in self.mro(ci):
            for b in c.bases:
                head = b.split(".")[0]
                r = self.resolve(c.module, head)
                if r and r[0] == "lib":
                    out.append(r[1] + b[len(head):])
                elif r is None:
                    out.append(b)
        return out

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c, c.methods[name]
        return None

    def enum_members(self, ci):
        if ci.enum_members is None:
            ms = {}
            auto = 0
            for st in ci.node.body:
                if isinstance(st, ast.Assign):
                    v = st.value
                    if isinstance(v, ast.Constant):
                        val = v.value
                    elif isinstance(v, ast.Call) and dotted(v.func) in ("enum.auto", "auto"):
                        auto += 1
                        val = auto
                    else:
                        raise Unsupported(f"enum value in {ci.name}")
                    ms[st.targets[0].id] = EnumV(ci.name, st.targets[0].id, val)
            # aliases: equal values are the same member
            byval = {}
            for k in list(ms):
                key = (type(ms[k].value), ms[k].value)
                if key in byval:
                    ms[k] = byval[key]
                else:
                    byval[key] = ms[k]
            ci.enum_members = ms
        return ci.enum_members
