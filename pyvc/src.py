"""Reads the current source of the repository: modules, classes, functions, as Python ASTs (nothing is executed)."""
import ast, os

class ClassInfo:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.bases, self.methods, self.attrs, self.props, self.setters = [], {}, {}, set(), {}
        self.kinds = {}
        self.abstract = set()
    def __repr__(self): return "<class %s>" % self.name

class ModInfo:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.text = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.text, path)
        self.names = {}          # global name -> ("class",ClassInfo) ("func",node) ("import",mod,name|None) ("expr",node)

class Repo:
    """All modules below <root>/src/satisfy."""
    def __init__(self, root):
        self.root = os.path.join(root, "src", "satisfy")
        self.mods = {}
        for d, _, fs in os.walk(self.root):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    name = "satisfy" if rel == "__init__" else "satisfy." + (rel[:-9] if rel.endswith(".__init__") else rel)
                    try:
                        self.mods[name] = ModInfo(name, p)
                    except SyntaxError as e:
                        raise
        self.classes = {}
        for m in self.mods.values(): self._scan(m)
        self._subs = None

    def _scan(self, m):
        pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
        for node in m.tree.body:
            if isinstance(node, (ast.FunctionDef,)):
                m.names[node.name] = ("func", node)
            elif isinstance(node, ast.ClassDef):
                c = ClassInfo(node.name, m, node)
                c.bases = node.bases
                for s in node.body:
                    if isinstance(s, ast.FunctionDef):
                        decs = [ast.unparse(d) for d in s.decorator_list]
                        if any(d.endswith(".setter") for d in decs):
                            c.setters[s.name] = s; continue
                        c.methods[s.name] = s
                        if "property" in decs: c.props.add(s.name)
                        if "classmethod" in decs: c.kinds[s.name] = "classmethod"
                        if "staticmethod" in decs: c.kinds[s.name] = "staticmethod"
                        if any("abstractmethod" in d for d in decs): c.abstract.add(s.name)
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        c.attrs[s.targets[0].id] = s.value
                m.names[node.name] = ("class", c)
                self.classes[node.name] = c
            elif isinstance(node, ast.Import):
                for a in node.names:
                    m.names[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ""
                if node.level:
                    p = pkg.split(".")
                    p = p[:len(p) - (node.level - 1)]
                    base = ".".join(p + ([node.module] if node.module else []))
                for a in node.names:
                    m.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name): m.names[t.id] = ("expr", node.value)

    def lookup(self, modname, name, depth=0):
        m = self.mods.get(modname)
        if m is None or depth > 10: return None
        e = m.names.get(name)
        if e is None: return None
        if e[0] == "from":
            if e[1] in self.mods:
                r = self.lookup(e[1], e[2], depth + 1)
                if r is not None: return r
                if e[1] + "." + e[2] in self.mods: return ("mod", e[1] + "." + e[2], e[1])
                return None
            return ("ext", e[1], e[2])
        return e + (modname,)

    def base_names(self, c):
        out = []
        for b in c.bases:
            out.append(b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "?")
        return out
    def mro(self, cname):
        """linear for single inheritance (all this repository uses)"""
        out = []
        c = self.classes.get(cname)
        while c is not None:
            out.append(c)
            nxt = None
            for b in self.base_names(c):
                if b in self.classes: nxt = self.classes[b]; break
            c = nxt
        return out
    def is_sub(self, a, b):
        return any(c.name == b for c in self.mro(a))
    def subclasses(self, b):
        return [n for n in sorted(self.classes) if self.is_sub(n, b)]
    def find(self, cname, attr):
        """(ClassInfo, kind) of the first class in the MRO that defines attr"""
        for c in self.mro(cname):
            if attr in c.methods: return c, "method"
            if attr in c.attrs: return c, "attr"
        return None, None
    def is_abstract(self, cname):
        done = set()
        for c in self.mro(cname):
            for n, f in c.methods.items():
                if n not in done:
                    done.add(n)
                    if n in c.abstract: return True
        return False
    def is_enum(self, cname):
        return any("Enum" in b for b in self.base_names(self.classes[cname]))
