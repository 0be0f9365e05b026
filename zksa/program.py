"""The analysed program: modules, classes, method resolution and name resolution of /repo's source."""

import ast
import hashlib
import os

REPO = os.environ.get("ZKSA_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable source)."""


class Fn:
    def __init__(self, name, node, module, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.defaults = None  # of functions defined in functions: values
        self.local = False
        self.bare = False  # without its decorators

    @property
    def qual(self):
        return (self.cls.qual + "." if self.cls else self.module.name + ".") + self.name

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<fn %s>" % self.qual

    @property
    def abstract(self):
        return any("abstractmethod" in d for d in self.decorators)


class Cls:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}  # class-level assignments
        self.bases = []  # Cls or external names
        self.fields = []  # attrs fields, in order: (name, default node or None)
        self.is_attrs = False
        self.is_tuple = False
        self.frame = None  # of classes defined in functions

    @property
    def qual(self):
        return self.module.name + "." + self.name

    def __repr__(self):
        return "<class %s>" % self.qual

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        with open(path) as f:
            self.source = f.read()
        try:
            self.tree = ast.parse(self.source, path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (path, e))
        self.names = {}
        self.digest = hashlib.sha256(self.source.encode()).hexdigest()


# names that star imports of libraries bring in
STAR = {
    "petlib.pack": ["encode", "decode", "register_coders", "default", "make_encoder", "ext_hook"],
}


class Program:
    def __init__(self, repo=None):
        repo = repo or REPO
        self.repo = repo
        self.modules = {}
        root = os.path.join(repo, "zksk")
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, repo)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    self.modules[name] = Module(name, path, rel)
        if not self.modules:
            raise AnalysisBroken("no source found under %s" % root)
        self.classes = {}
        self.functions = {}
        for m in self.modules.values():
            self._index(m, m.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(b, c.module)
                c.bases.append(r[1] if r and r[0] == "cls" else ast.unparse(b))
        for m in self.modules.values():
            self._patches(m, m.tree.body, {})
        for c in list(self.classes.values()):
            for d in c.node.decorator_list:
                r = self.resolve_expr(d, c.module)
                if r and r[0] == "fn" and r[1].node.args.args:
                    self._patches(r[1].module, r[1].node.body, {r[1].node.args.args[0].arg: ("cls", c)})
                elif not c.is_attrs and not ast.unparse(d).split("(")[0].startswith(("functools.total_ordering", "total_ordering", "final", "typing.final")):
                    c.bases.append("?decorated")

    def _patches(self, m, body, env):
        """Attributes of classes that statements other than the class set: those of a module, or of a decorator."""
        def named(e):
            if isinstance(e, ast.Name) and e.id in env:
                return env[e.id]
            return self.resolve_expr(e, m)

        def put(c, name, e):
            r = named(e)
            c.attrs.pop(name, None)
            c.methods.pop(name, None)
            if r and r[0] == "fn":
                c.methods[name] = r[1]
            elif c.module is m and not any(isinstance(x, ast.Name) and x.id in env for x in ast.walk(e)):
                c.attrs[name] = e
            else:
                c.attrs[name] = ast.parse("__patched_%s__" % name, mode="eval").body

        def loose(st):
            for x in ast.walk(st):
                if isinstance(x, (ast.Name, ast.Attribute)):
                    r = named(x)
                    if r and r[0] == "cls" and isinstance(getattr(x, "ctx", None), ast.Load):
                        changed(x, r[1], st)

        def changed(x, c, st):
            if any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.value is x for y in ast.walk(st)) or any(
                isinstance(y, ast.Name) and y.id in ("setattr", "delattr") for y in ast.walk(st)) or isinstance(st, (ast.For, ast.While, ast.With)):
                if "?patched" not in c.bases:
                    c.bases.append("?patched")

        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if env:
                    f = Fn(st.name, st, m)
                    env[st.name] = ("fn", f)
                continue
            if isinstance(st, (ast.ClassDef, ast.Import, ast.ImportFrom, ast.Return)):
                continue
            if isinstance(st, (ast.If, ast.Try)):
                for part in [st.body, st.orelse] + [h.body for h in getattr(st, "handlers", [])] + [getattr(st, "finalbody", [])]:
                    self._patches(m, part, env)
                continue
            if isinstance(st, ast.Assign):
                pairs = []
                for g in st.targets:
                    if isinstance(g, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(g.elts) == len(st.value.elts):
                        pairs += list(zip(g.elts, st.value.elts))
                    else:
                        pairs.append((g, st.value))
                ok = True
                for g, e in pairs:
                    if isinstance(g, ast.Attribute):
                        r = named(g.value)
                        if r and r[0] == "cls":
                            put(r[1], g.attr, e)
                    elif not isinstance(g, ast.Name):
                        ok = False
                if ok:
                    continue
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == "setattr" \
                    and len(st.value.args) == 3 and isinstance(st.value.args[1], ast.Constant) and isinstance(st.value.args[1].value, str):
                r = named(st.value.args[0])
                if r and r[0] == "cls":
                    put(r[1], st.value.args[1].value, st.value.args[2])
                continue
            elif isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, (ast.Tuple, ast.List)) and not st.orelse:
                rs = [named(e) for e in st.iter.elts]
                if all(r and r[0] in ("cls", "fn") for r in rs):
                    for r in rs:
                        self._patches(m, st.body, {**env, st.target.id: r})
                    continue
            loose(st)

    def _index(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(st.name, st, m)
                m.names[st.name] = ("fn", f)
                self.functions[f.qual] = f
            elif isinstance(st, ast.ClassDef):
                c = self.make_class(st, m, st.name)
                m.names[st.name] = ("cls", c)
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ""
                if st.level:
                    parts = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    mod = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == "*":
                        for n in STAR.get(mod, []):
                            m.names[n] = ("ext", mod + "." + n)
                        if mod in self.modules or mod.startswith("zksk"):
                            m.names.setdefault("*", ("star", []))[1].append(mod)
                    else:
                        m.names[a.asname or a.name] = ("from", mod, a.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names[a.asname] = ("mod", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("assign", st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.names[e.id] = ("assignitem", st.value, i)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.names[st.target.id] = ("assign", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._index(m, st.body)
                for h in getattr(st, "handlers", []):
                    self._index(m, h.body)
                self._index(m, st.orelse)

    def make_class(self, st, m, name):
        c = Cls(name, st, m)
        self.classes[c.qual] = c
        for d in st.decorator_list:
            t = ast.unparse(d)
            if t.startswith(("attr.s", "attr.attrs", "attr.define", "attr.mutable", "attr.frozen", "define", "frozen", "dataclass", "attrs.", "dataclasses.dataclass")):
                c.is_attrs = True
        if any(ast.unparse(b).split(".")[-1] == "NamedTuple" for b in st.bases):
            c.is_attrs = True
            c.is_tuple = True
        for s in st.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(s.name, s, m, c)
                if s.name in c.methods and any(d.endswith((".setter", ".deleter")) for d in f.decorators):
                    continue
                c.methods[s.name] = f
                self.functions[f.qual] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                        c.methods.pop(t.id, None)
                        if c.is_attrs and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("attr.ib", "attr.field", "attr.attrib", "field", "attrs.field"):
                            c.fields.append((t.id, s.value))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    c.attrs[s.target.id] = s.value
                if c.is_attrs and "ClassVar" not in ast.unparse(s.annotation):
                    c.fields.append((s.target.id, s.value))
        return c

    def local_class(self, st, m, name):
        return self.make_class(st, m, name)

    def resolve(self, name, m, depth=0):
        """Resolve a global name of a module: ('fn', Fn), ('cls', Cls), ('ext', dotted), ('mod', dotted),
        ('assign', node, module) or None."""
        r = m.names.get(name)
        if r is None:
            if "*" in m.names:
                for mod in m.names["*"][1]:
                    if mod in self.modules and depth < 10:
                        r2 = self.resolve(name, self.modules[mod], depth + 1)
                        if r2 is not None:
                            return r2
            return None
        if r[0] == "from":
            _, mod, n = r
            if mod in self.modules:
                sub = mod + "." + n
                r2 = self.resolve(n, self.modules[mod], depth + 1) if depth < 10 else None
                if r2 is None and sub in self.modules:
                    return ("mod", sub)
                return r2
            if mod + "." + n in self.modules:
                return ("mod", mod + "." + n)
            return ("ext", mod + "." + n)
        if r[0] == "assign":
            # alias of a function or class
            if isinstance(r[1], ast.Name) and r[1].id != name:
                a = self.resolve(r[1].id, m, depth + 1) if depth < 10 else None
                if a is not None:
                    return a
            return ("assign", r[1], m, name)
        if r[0] == "assignitem":
            return ("assignitem", r[1], r[2], m, name)
        return r

    def resolve_expr(self, e, m):
        if isinstance(e, ast.Name):
            return self.resolve(e.id, m)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, m)
            if b and b[0] == "mod":
                if b[1] in self.modules:
                    return self.resolve(e.attr, self.modules[b[1]])
                return ("ext", b[1] + "." + e.attr)
            if b and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    # ---- classes

    def cls(self, name):
        """Class by bare name (unique in the program)."""
        r = [c for c in self.classes.values() if c.name == name]
        if len(r) != 1:
            raise AnalysisBroken("anchor class %s: %d definitions found" % (name, len(r)))
        return r[0]

    def has_cls(self, name):
        return len([c for c in self.classes.values() if c.name == name]) == 1

    def fn(self, name):
        r = [f for f in self.functions.values() if f.cls is None and f.name == name]
        if len(r) != 1:
            raise AnalysisBroken("anchor function %s: %d definitions found" % (name, len(r)))
        return r[0]

    def mro(self, c):
        """C3 linearization over program classes."""
        r = c.__dict__.get("_mro")
        if r is None:
            r = c._mro = self._linearize(c)
        return r

    def _linearize(self, c):
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            return out

        bases = [b for b in c.bases if isinstance(b, Cls)]
        return [c] + merge([self.mro(b) for b in bases] + [bases])

    def lookup(self, c, name, after=None):
        """Method or class attribute of a class: Fn, ('attr', node, Cls), or None."""
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1 :] if after in mro else []
        for k in mro:
            if name in k.methods:
                return k.methods[name]
            if name in k.attrs and name not in [f for f, _ in k.fields]:
                return ("attr", k.attrs[name], k)
        return None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]

    def is_sub(self, k, c):
        return c in self.mro(k)

    def implementations(self, c, name):
        """Distinct implementations a call on an object of class c (or a subclass) can reach."""
        out = []
        for k in self.subclasses(c):
            f = self.lookup(k, name)
            if f is not None and f not in out:
                out.append(f)
        return out

    def ext_bases(self, c):
        return [b for k in self.mro(c) for b in k.bases if not isinstance(b, Cls)]

    def assigned_fields(self, c):
        """Names of fields that methods of the class assign on self."""
        out = set()
        for k in self.mro(c):
            for f in k.methods.values():
                if not f.node.args.args:
                    continue
                me = f.node.args.args[0].arg
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.add(n.attr)
        return out

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].digest.encode())
        return h.hexdigest()

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken("no module %s" % name)
        return self.modules[name]

    def cls_init_fields(self, c):
        """Fields every instance has after construction (unconditional assignments of constructors)."""
        out = set()
        for k in self.mro(c):
            out |= {n for n, _ in k.fields}
            init = k.methods.get("__init__")
            if isinstance(init, Fn):
                for st in init.node.body:
                    for x in ast.walk(st) if isinstance(st, (ast.Assign, ast.AnnAssign)) else ():
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            out.add(x.attr)
        return out
