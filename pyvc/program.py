"""Mechanical extraction: parses the current /repo source; every verified body is the AST of that file."""
import ast, hashlib, os

REPO = os.environ.get("PYVC_REPO", "/repo")
SRC = os.path.join(REPO, "salabim", "salabim.py")


class ClassInfo:
    def __init__(self, node):
        self.name = node.name
        self.bases = [b.id for b in node.bases if isinstance(b, ast.Name)]
        self.methods, self.props, self.setters, self.attrs, self.static = {}, {}, {}, {}, set()
        for n in node.body:
            if isinstance(n, (ast.FunctionDef,)):
                decs = n.decorator_list
                if any(isinstance(d, ast.Name) and d.id == "property" for d in decs):
                    self.props[n.name] = n
                elif any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in decs):
                    self.setters[n.name] = n
                else:
                    self.methods[n.name] = n
                    if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in decs):
                        self.static.add(n.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.attrs[n.targets[0].id] = n.value


class Program:
    def __init__(self, path=None):
        self.path = path or SRC
        self.src = open(self.path, encoding="utf-8").read()
        self.tree = ast.parse(self.src)
        self.classes, self.funcs, self.consts = {}, {}, {}
        for n in self.tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, ast.ClassDef):
            self.classes[n.name] = ClassInfo(n)
        elif isinstance(n, ast.FunctionDef):
            self.funcs[n.name] = n
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.consts[n.targets[0].id] = n.value

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in self.classes and c not in out:
                out.append(c)
                todo.extend(self.classes[c].bases)
        return out

    def issub(self, a, b):
        return b in self.mro(a) or a == b

    def find(self, cls, name):
        for c in self.mro(cls):
            if name in self.classes[c].methods:
                return c, self.classes[c].methods[name]
        return None, None

    def find_prop(self, cls, name):
        for c in self.mro(cls):
            if name in self.classes[c].props:
                return c, self.classes[c].props[name]
        return None, None

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if name in self.classes[c].setters:
                return c, self.classes[c].setters[name]
        return None, None

    def node(self, qual):
        if "." in qual:
            c, f = qual.split(".", 1)
            if f.endswith("@set"):
                return self.find_setter(c, f[:-4])[1]
            n = self.find(c, f)[1]
            return n if n is not None else self.find_prop(c, f)[1]
        return self.funcs.get(qual)

    def sha(self, qual):
        n = self.node(qual)
        return hashlib.sha256(ast.dump(n).encode()).hexdigest()[:12] if n is not None else None
