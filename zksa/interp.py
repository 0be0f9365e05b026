"""
Gated value-flow analysis.

Every function is evaluated once over value terms: branches are joined into conditional values (no
path enumeration), loops become binders (maps, sums, quantifiers, recurrences), calls to program
functions are replaced by their summary for the given arguments, calls on unknown objects stay
uninterpreted and are recorded as events with the condition under which they happen.
"""

import ast
import builtins

from . import terms as t
from .terms import (T, C, NONE, TRUE, FALSE, ZERO, ONE, INF, UNDEF, raw, sym, ite, NOT, AND, OR, lam,
                    inst, subst, truth, eq, lt, isnone, item, length, seqmap, seqfmap, seqflat, cat,
                    seqslice, exists, member, seqsum, dput, dget, din, dupd, dputall, dkeys, setof,
                    fresh_var, is_bool, is_const, atom, add, sub, mul, mod, power, neg)
from .program import Fn, Cls, AnalysisBroken
from . import pyfold

BUILTIN_NAMES = set(dir(builtins))


class State:
    __slots__ = ("s", "pc", "q")

    def __init__(self, s=None, pc=TRUE, q=()):
        self.s = s if s is not None else {}
        self.pc = pc
        self.q = q

    def copy(self):
        return State(dict(self.s), self.pc, self.q)


class Obj:
    def __init__(self, kind, cls=None, lazy=None, **kw):
        self.kind = kind
        self.cls = cls
        self.lazy = lazy
        self.depth = 0
        self.default = kw.get("default")
        self.alg = kw.get("alg")
        self.node = kw.get("node")
        self.external = kw.get("external", False)
        self.domain = None


class Event:
    def __init__(self, kind, guard, quants, recv, name, args, kw, res, node, fn, tries, seq, rargs=()):
        self.kind = kind
        self.guard = guard
        self.quants = quants
        self.recv = recv
        self.name = name
        self.args = args
        self.kw = kw
        self.res = res
        self.node = node
        self.fn = fn
        self.tries = tries
        self.seq = seq
        self.rargs = rargs

    @property
    def where(self):
        return "%s:%d (%s)" % (self.fn.module.rel if self.fn else "?", getattr(self.node, "lineno", 0),
                               self.fn.qual if self.fn else "?")

    def map(self, f):
        g = lambda x: f(x) if isinstance(x, T) else x
        self.guard = f(self.guard)
        self.recv = g(self.recv)
        self.args = [g(a) if isinstance(a, T) else a for a in self.args]
        self.rargs = [g(a) if isinstance(a, T) else a for a in self.rargs]
        self.kw = {k: g(v) for k, v in self.kw.items()}
        self.res = g(self.res)
        self.quants = [(v, f(n)) for v, n in self.quants]

    def __repr__(self):
        return "<%s %s.%s(%s) if %s quants=%s at %s>" % (self.kind, self.recv, self.name,
            ", ".join(map(str, self.args)), self.guard, self.quants, self.where)


class Frame:
    def __init__(self, fid, fn, module, cls=None, me=None, parent=None):
        self.fid = fid
        self.fn = fn
        self.module = module
        self.cls = cls
        self.me = me
        self.parent = parent
        self.returns = []
        self.captured = False
        self.globals = set()
        self.nonlocals = {}
        self.subject = None


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.continues = []


class TryCtx:
    def __init__(self, depth, names):
        self.depth = depth
        self.names = names
        self.caught = []
        self.opaque = False
        self.binds = False


# methods of unknown objects that neither change anything nor depend on anything but their arguments
PURE = {
    "get_secret_vars", "get_bases", "get_proof_id", "recompute_commitment", "order", "generator",
    "num_bits", "is_bit_set", "is_odd", "export", "hex", "int", "hash_to_point", "gen1", "gen2",
    "hashG1", "one", "inf", "from_bytes", "encode", "decode", "format", "startswith", "endswith", "nid",
    "prehash_statement", "is_prime", "binary", "test", "parameters", "groups", "issubset", "get_prover_cls",
    "get_verifier_cls",
}

CRYPTO_RANDOM = {"bn.random", "secrets", "SystemRandom", "urandom"}


NOTIMPL = raw("extf", "builtins.NotImplemented")


def has_leaf(v, x):
    if v is x:
        return True
    return v.op == "ite" and (has_leaf(v.a[1], x) or has_leaf(v.a[2], x))


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.st = State()
        self.pcstack = []
        self.loops = []
        self.loopctx = []
        self.frames = []
        self.events = []
        self.objs = {}
        self.next_obj = 1
        self.next_frame = 1
        self.fns = {}
        self.next_fn = 1
        self.tries = []
        self.handling = []
        self.facts = []  # bounds of loop counters
        self.occ = {}
        self.uid = 0
        self.mus = {}
        self.modcache = {}
        self.depth = 0
        self.notes = []
        self.sorts = {}
        self.analysed = set()
        self.calls = 0
        self.steps = 0
        self.inline_hook = None
        self.folds = {}
        self.gt = None  # target group of pairings of abstract points
        self.same_order = {}
        self.force = None
        self.starting = True
        try:
            self.start()
        finally:
            self.starting = False

    # ------------------------------------------------------------------ infrastructure

    def note(self, msg, node=None):
        f = self.frames[-1].fn if self.frames else None
        m = "%s at %s:%s" % (msg, f.module.rel if f is not None else "?", getattr(node, "lineno", "?"))
        if m not in self.notes:
            self.notes.append(m)

    def unk(self, why, *deps, node=None):
        self.note("not modelled: " + why, node)
        self.uid += 1
        return raw("unk", why, self.uid, *[self.reify(d) for d in deps if isinstance(d, T)])

    def total(self):
        return AND(*self.pcstack, self.st.pc, *self.facts)

    def dead(self):
        return self.st.pc is FALSE

    def new_obj(self, kind, cls=None, **kw):
        k = self.next_obj
        self.next_obj += 1
        self.objs[k] = Obj(kind, cls, **kw)
        return raw("ref", k)

    def obj(self, v):
        return self.objs[v.a[0]] if v.op == "ref" else None

    def event(self, kind, recv, name, args, kw, res, node):
        e = Event(kind, self.total(), list(self.loops), recv, name, list(args), dict(kw or {}), res, node,
                  self.frames[-1].fn if self.frames else None,
                  [c for c in self.tries], len(self.events),
                  [self.reify(a) if isinstance(a, T) else a for a in args])
        e.stack = [f.fn for f in self.frames]
        self.events.append(e)
        for c in self.tries:
            if kind in ("mcall", "ext"):
                c.opaque = True
        return e

    # ------------------------------------------------------------------ store

    def default_loc(self, loc):
        if loc[0] == "fo":
            return self.opaque_field(loc[1], loc[2])
        if loc[0] == "#o":
            return loc[1]
        if loc[0] == "f":
            o = self.objs.get(loc[1])
            if o is not None and o.lazy is not None:
                return raw("attr", sym(o.lazy), loc[2])
        return UNDEF

    def get_loc(self, loc):
        v = self.st.s.get(loc)
        if v is None:
            return self.default_loc(loc)
        return v

    def set_loc(self, loc, v):
        self.st.s[loc] = v

    def opaque_field(self, base, name):
        return raw("attr", base, name)

    def apply_q(self, base, name, v):
        """Take quantified writes (for x in S: x.name = ...) into account when reading base.name."""
        for (qname, S, l, guard) in self.st.q:
            if qname != name:
                continue
            if base.op == "ref":
                o = self.obj(base)
                if o is not None and not o.external and not any(x.op == "ref" for x in t.subterms(S)):
                    continue
            c = AND(guard, member(base, S))
            v = ite(c, inst(l, t.idx(S, base)), v)
        return v

    def read_field(self, base, name):
        """Stored value of a field, UNDEF if there is none."""
        if base.op == "ref":
            o = self.obj(base)
            v = self.st.s.get(("f", base.a[0], name))
            if v is None:
                if o.lazy is not None:
                    v = raw("attr", sym(o.lazy), name)
                    if name not in self.prog.assigned_fields(o.cls):
                        return UNDEF
                else:
                    return UNDEF
            else:
                for i in base.a[1:]:
                    v = inst(v, i) if v.op == "lam" else (v if v is UNDEF else raw("ap", v, i))
            if len(base.a) == 1 and (o.external or o.lazy) and self.st.q and ("fq", base.a[0], name) not in self.st.s:
                v = self.apply_q(base, name, v)
            return v
        loc = ("fo", base, name)
        v = self.st.s.get(loc)
        if v is not None:
            return v
        v = self.opaque_field(base, name)
        return self.apply_q(base, name, v)

    def write_field(self, base, name, v):
        if base.op == "ref":
            k = base.a[0]
            ix = base.a[1:]
            loc = ("f", k, name)
            if not ix:
                self.set_loc(loc, v)
                if self.st.q:
                    self.set_loc(("fq", k, name), ONE)
            elif len(ix) == 1:
                old = self.st.s.get(loc, UNDEF)
                j = fresh_var("j")
                oldj = inst(old, j) if old.op == "lam" else (UNDEF if old is UNDEF else raw("ap", old, j))
                self.set_loc(loc, lam(j, ite(eq(j, ix[0]), v, oldj)))
            else:
                self.set_loc(loc, self.unk("write to a doubly indexed object", v))
            return
        self.set_loc(("fo", base, name), v)

    def content(self, v):
        if v.op == "ref":
            c = self.st.s.get(("#", v.a[0]))
            if c is None:
                return raw("unk", "content", v)
            for i in v.a[1:]:
                c = inst(c, i) if c.op == "lam" else raw("ap", c, i)
            return c
        c = self.st.s.get(("#o", v))
        if c is not None:
            return c
        if v.op in ("L", "D"):
            return v.a[-1]
        if v.op == "c" and v.a[0] == "str":
            return v
        if v.op == "idict" and v.a[0].op == "ref" and self.obj(v.a[0]).kind == "inst":
            return self.fields_dict(v.a[0])
        return self.apply_q(v, "#", v) if self.st.q else v

    def field_names(self, b):
        """Names of the fields an object may have, in the order of their definition."""
        o = self.obj(b)
        names = [k[2] for k in self.st.s if k[0] == "f" and k[1] == b.a[0] and not k[2].startswith("$")]
        if o.lazy is not None:
            names += sorted(set(self.prog.assigned_fields(o.cls)) - set(names))
        return names

    def fields_dict(self, b):
        """The fields of an object as a dictionary."""
        from .externs import has_attr
        d = t.DEMPTY
        lazy = self.obj(b).lazy is not None
        for n in self.field_names(b):
            v = self.under(self.read_field(b, n))
            if v is UNDEF:
                continue
            if any(l is UNDEF for _, l in t.leaves(v)):
                c = t.lift(lambda l: C(l is not UNDEF), v)
                d = ite(c, dput(d, C(n), self.drop_undef(v)), d)
            elif lazy and v.op == "attr":
                d = ite(truth(has_attr(self, b, n)), dput(d, C(n), v), d)
            else:
                d = dput(d, C(n), v)
        return d

    def set_fields(self, b, d, node):
        """b.__dict__ = d"""
        if d.op == "idict" and d.a[0].op != "ref" and b.op == "newof" and b.a[0] is d.a[0]:
            return
        c = self.content(d)
        if b.op != "ref":
            self.note("assignment to __dict__ of an unknown object", node)
            return
        names = []
        for _, l in t.leaves(c):
            ks = t._lit_keys(l)
            if ks is None or any(k.op != "c" for k in ks):
                self.note("assignment of an unknown mapping to __dict__", node)
                return
            names += [k.a[1] for k in ks if k.a[1] not in names]
        for n in self.field_names(b):
            self.write_field(b, n, UNDEF)
        for n in names:
            self.write_field(b, n, t.lift(lambda l: dget(l, C(n)) if din(C(n), l) is TRUE else UNDEF, c))

    def set_content(self, v, c):
        if v.op == "ref":
            ix = v.a[1:]
            loc = ("#", v.a[0])
            if not ix:
                self.set_loc(loc, c)
            else:
                old = self.st.s.get(loc, UNDEF)
                j = fresh_var("j")
                oldj = inst(old, j) if old.op == "lam" else raw("ap", old, j)
                if len(ix) == 1:
                    self.set_loc(loc, lam(j, ite(eq(j, ix[0]), c, oldj)))
                else:
                    self.set_loc(loc, self.unk("write to a doubly indexed container", c))
        else:
            self.set_loc(("#o", v), c)

    def new_list(self, seq, kind="list"):
        r = self.new_obj(kind)
        self.set_loc(("#", r.a[0]), seq)
        return r

    def new_dict(self, d=None, **kw):
        r = self.new_obj("dict", **kw)
        self.set_loc(("#", r.a[0]), d if d is not None else t.DEMPTY)
        return r

    # ------------------------------------------------------------------ joins

    def join(self, c, a, b):
        if a.pc is FALSE:
            return b
        if b.pc is FALSE:
            return a
        s = {}
        for k in a.s:
            if k in b.s:
                x, y = a.s[k], b.s[k]
                s[k] = x if x is y else self.merge_val(c, x, y)
            else:
                s[k] = self.merge_val(c, a.s[k], self.default_loc(k)) if k[0] != "fq" else ONE
        for k in b.s:
            if k not in a.s:
                s[k] = self.merge_val(c, self.default_loc(k), b.s[k]) if k[0] != "fq" else ONE
        q = a.q
        if a.q is not b.q and a.q != b.q:
            n = 0
            while n < len(a.q) and n < len(b.q) and a.q[n] == b.q[n]:
                n += 1
            q = a.q[:n] + tuple((x[0], x[1], x[2], AND(x[3], c)) for x in a.q[n:]) + tuple(
                (x[0], x[1], x[2], AND(x[3], NOT(c))) for x in b.q[n:])
        return State(s, OR(a.pc, b.pc), q)

    def merge_val(self, c, x, y):
        if x is y:
            return x
        if x.op == "lam" and y.op == "lam":
            j = fresh_var("j")
            return lam(j, self.merge_val(c, inst(x, j), inst(y, j)))
        if x is UNDEF or y is UNDEF:
            k = y if x is UNDEF else x
            if k.op == "lam":
                return k
        return ite(c, x, y)

    def under(self, v):
        """Simplify a conditional value under the current path condition."""
        if v.op != "ite":
            return v
        pc = self.total()
        if pc is TRUE:
            return v
        if t.nodes(v, 40) > 40:
            return t.constrain(v, pc)
        memo = {}

        def go(x, pc):
            if x.op != "ite":
                return x
            key = (x, pc)
            r = memo.get(key)
            if r is not None:
                return r
            p = raw("ite", x.a[0], TRUE, FALSE)
            a = AND(pc, p)
            b = AND(pc, NOT(p))
            if a is FALSE:
                r = go(x.a[2], pc)
            elif b is FALSE:
                r = go(x.a[1], pc)
            else:
                u, w = go(x.a[1], a), go(x.a[2], b)
                r = x if (u is x.a[1] and w is x.a[2]) else ite(p, u, w)
            memo[key] = r
            return r

        return go(v, pc)

    def branch(self, c, f, g):
        """Evaluate f where c holds and g elsewhere; join."""
        c = self.under(c) if c.op == "ite" else c
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        tot = self.total()
        if AND(tot, c) is FALSE:
            return g()
        if AND(tot, NOT(c)) is FALSE:
            return f()
        st0 = self.st
        s1 = st0.copy()
        s1.pc = AND(st0.pc, c)
        self.st = s1
        v1 = f()
        e1 = self.st
        s2 = st0.copy()
        s2.pc = AND(st0.pc, NOT(c))
        self.st = s2
        v2 = g()
        e2 = self.st
        self.st = self.join(c, e1, e2)
        if e1.pc is FALSE:
            return v2
        if e2.pc is FALSE:
            return v1
        if v1 is None or v2 is None:
            return NONE
        return ite(c, v1, v2)

    def truth(self, v, n=None):
        """Truth value; containers by content, objects by their own methods."""
        if is_bool(v):
            return truth(v)
        if not any(l.op in ("ref", "it", "idict") for _, l in t.leaves(v)):
            return truth(v)

        def f(x):
            if is_bool(x):
                return truth(x)
            if x.op == "it":
                return TRUE
            if x.op == "idict":
                return truth(dkeys(self.content(x)))
            if x.op != "ref":
                return truth(x)
            o = self.obj(x)
            if o.kind in ("list", "set", "tuple"):
                c = self.content(x)
                return truth(c) if c.op in t.SEQ or c.op == "c" else NOT(t.eq0(length(c)))
            if o.kind == "dict":
                c = self.content(x)
                if c.op == "dput":
                    return TRUE
                return NOT(t.eq0(length(dkeys(c))))
            if o.kind == "inst":
                if o.lazy is not None and not o.cls.methods:
                    return truth(x)
                r = self.user_op(x, "__bool__", [], n)
                if r is not None:
                    return self.truth(r, n)
                r = self.user_op(x, "__len__", [], n)
                if r is not None:
                    return NOT(t.eq0(r))
            return TRUE

        return self.on_leaves(v, f)

    def check(self, cond, name, n, msg=()):
        """An operation that raises where the condition holds: followed where this is certain, or somebody catches it."""
        if self.dead() or cond is FALSE:
            return
        tot = self.total()
        if AND(tot, cond) is FALSE:
            return
        if AND(tot, NOT(cond)) is FALSE:
            self.raise_(name, n, msg)
        elif any(self.exc_matches(name, h) for c in self.tries for h in c.names):
            self.branch(cond, lambda: (self.raise_(name, n, msg), NONE)[1], lambda: NONE)

    def on_leaves(self, v, f):
        v = self.under(v)
        if v.op == "ite" and not is_bool(v):
            few = t.few_leaves(v)
            if few is not None:
                # a large diagram over few values
                def go(k):
                    if k == len(few) - 1:
                        return f(few[k])
                    return self.branch(t.where(v, few[k]), lambda: f(few[k]), lambda: go(k + 1))

                return go(0)
            at = v.a[0]
            p = raw("ite", at, TRUE, FALSE)
            return self.branch(p, lambda: self.on_leaves(t.restrict(v, at, True), f),
                               lambda: self.on_leaves(t.restrict(v, at, False), f))
        return f(v)

    # ------------------------------------------------------------------ reification

    def reify(self, v, depth=0, seen=()):
        """Pure term for a value: containers by content, program objects by class and fields."""
        if not isinstance(v, T):
            return v
        memo = getattr(self, "_rm", None)
        m = {}
        for x in t.subterms(v):
            if x.op == "ref":
                m[x] = None
        if not m:
            return v
        for x in m:
            m[x] = self.reify_ref(x, depth, seen)
        m = {a: b for a, b in m.items() if a is not b}
        return subst(v, m) if m else v

    def reify_ref(self, x, depth, seen):
        if any(isinstance(y, T) and y.op == "bv" for y in x.a):
            # index bound by an enclosing binder: content can still be instantiated
            pass
        if x.a[0] in seen or depth > 8:
            return raw("cyc", x.a[0])
        o = self.objs[x.a[0]]
        seen = seen + (x.a[0],)
        if o.kind in ("list", "set", "tuple"):
            return raw("L", self.reify(self.drop_undef(self.content(x)), depth + 1, seen))
        if o.kind == "dict":
            return raw("D", self.reify(self.drop_undef(self.content(x)), depth + 1, seen))
        if o.kind == "hash":
            return raw("hash", o.alg, self.reify(self.content(x), depth + 1, seen))
        if o.kind == "inst":
            if o.cls.name == "Secret" or o.external:
                return x
            fields = []
            for k in sorted((k for k in self.st.s if k[0] == "f" and k[1] == x.a[0]), key=lambda k: str(k[2])):
                val = self.st.s[k]
                for i in x.a[1:]:
                    val = inst(val, i) if val.op == "lam" else raw("ap", val, i)
                fields += [C(k[2]), self.reify(val, depth + 1, seen)]
            return raw("obj", o.cls.name, x, *fields) if False else raw("obj", o.cls.name, x.a[0], *fields)
        return x

    # ------------------------------------------------------------------ names

    def lookup(self, name, node):
        fr = self.frames[-1]
        f = fr
        if name not in fr.globals:
            while f is not None:
                v = self.st.s.get(("v", f.fid, name))
                if v is not None:
                    if v is UNDEF:
                        return UNDEF
                    if v.op == "ite":
                        v = self.under(v)
                        if any(l is UNDEF for _, l in t.leaves(v)):
                            v = self.drop_undef(v)
                    return v
                f = f.parent
        g = self.st.s.get(("g", fr.module.name, name))
        if g is not None:
            return g
        r = self.prog.resolve(name, fr.module)
        if r is None:
            if name in BUILTIN_NAMES:
                return raw("extf", "builtins." + name)
            if name in ("__name__", "__file__"):
                return C(name)
            self.event("nameerror", None, name, [], {}, None, node)
            return raw("unk", "undefined name", name)
        return self.from_resolved(r, node)

    def drop_undef(self, v):
        if v.op != "ite":
            return v
        a, b = self.drop_undef(v.a[1]), self.drop_undef(v.a[2])
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return t._node(v.a[0], a, b)

    def from_resolved(self, r, node):
        kind = r[0]
        if kind == "fn":
            return self.fnval(r[1])
        if kind == "cls":
            return raw("cls", r[1].qual)
        if kind == "ext":
            return raw("extf", r[1])
        if kind == "mod":
            return raw("mod", r[1]) if r[1] in self.prog.modules else raw("extf", r[1])
        if kind in ("assign", "assignitem"):
            module = r[-2]
            name = r[-1]
            key = (module.name, name)
            if key not in self.modcache:
                self.modcache[key] = raw("unk", "recursive global", name)
                v = self.eval_global(r[1], module, "%s.%s" % (module.name, name))
                if kind == "assignitem":
                    v = self.item(v, C(r[2]), node)
                self.modcache[key] = v
            return self.modcache[key]
        return self.unk("name", node=node)

    def eval_global(self, node, module, name, f=None):
        """Value of a module-level or class-level assignment; mutable containers are opaque (their
        content at call time is unknown)."""
        if f is None and isinstance(node, ast.Call) and ast.unparse(node.func).split(".")[-1] == "count" and not self.starting:
            return sym("counter:" + name)
        if f is None and mutable(node) and not self.starting:
            return sym("global:" + name)
        fr = Frame(0, None, module)
        fr.fid = self.next_frame
        self.next_frame += 1
        fake = Fn("<global %s>" % name, ast.parse("def f(): pass").body[0], module)
        fr.fn = fake
        self.frames.append(fr)
        st = self.st
        keep = self.pcstack, self.loops, self.tries
        ev = len(self.events)
        self.pcstack, self.loops, self.tries = [], [], []
        pc = st.pc
        st.pc = TRUE
        try:
            v = self.eval(node) if f is None else f()
        finally:
            self.frames.pop()
            self.pcstack, self.loops, self.tries = keep
            self.st.pc = pc
            del self.events[ev:]
        if v.op == "ref":
            self.objs[v.a[0]].external = True
            self.objs[v.a[0]].glob = True
        return v

    def fnval(self, fn, parent=None, me=None):
        key = ("fn", fn, parent.fid if parent else None)
        for k, x in self.fns.items():
            if x[0] is fn and x[1] is parent:
                return raw("fn", k)
        k = self.next_fn
        self.next_fn += 1
        self.fns[k] = (fn, parent)
        return raw("fn", k)

    # ------------------------------------------------------------------ attribute access

    def point_in(self, b):
        """A declared point a linear combination is made of."""
        for c, m in t.monomials(b):
            for x in m:
                if x in t.POINTS and x.op == "sym" or x.op in ("h2p", "gen"):
                    return x
                if x.op == "pair" and self.gt is not None:
                    return x
        return None

    def getattr(self, base, name, node=None):
        return self.on_leaves(base, lambda b: self.getattr1(b, name, node))

    def opaque_methods(self):
        from .externs import OPAQUE_METHODS
        return OPAQUE_METHODS

    def clsval(self, c):
        return raw("cls", c.qual)

    def cls_of(self, v):
        """Program class of a value, if known exactly."""
        if v.op == "ref":
            o = self.obj(v)
            return o.cls if o.kind == "inst" else None
        return None

    def getattr1(self, b, name, node):
        prog = self.prog
        if name == "group":
            if b.op in ("poly", "sum", "ite"):
                p = self.point_in(b)
                if p is not None and p is not b:
                    return self.getattr(p, "group", node)
            if b.op in ("h2p", "gen"):
                return b.a[0]
            if b.op == "pair" and self.gt is not None:
                return self.gt
        if b.op == "ref":
            o = self.obj(b)
            if o.kind == "inst":
                if name == "__class__":
                    return self.clsval(o.cls)
                if name == "__dict__":
                    return raw("idict", b)
                m = prog.lookup(o.cls, name)
                if isinstance(m, Fn) and any(d in ("property", "cached_property", "functools.cached_property", "abc.abstractproperty") for d in m.decorators):
                    if any("cached" in d for d in m.decorators):
                        cv = self.read_field(b, "$cached:" + name)
                        if cv is not UNDEF:
                            return cv
                        v = self.call_fn(m, [b], {}, node, me=b)
                        self.write_field(b, "$cached:" + name, v)
                        return v
                    return self.call_fn(m, [b], {}, node, me=b)
                v = self.read_field(b, name)
                if v is not UNDEF:
                    if v.op == "ite" and any(l is UNDEF for _, l in t.leaves(v)):
                        v = self.drop_undef(self.under(v))
                        if v is UNDEF:
                            pass
                        else:
                            return v
                    elif v.op == "ite":
                        return self.under(v)
                    else:
                        return v
                if isinstance(m, Fn):
                    if "staticmethod" in m.decorators:
                        return self.fnval(m)
                    if "classmethod" in m.decorators:
                        return raw("bound", self.clsval(o.cls), self.fnval(m))
                    if m.abstract and o.lazy is not None:
                        return raw("bm", b, name)
                    return raw("bound", b, self.fnval(m))
                if m is not None:
                    return self.bound_attr(b, m)
                if o.lazy is not None:
                    return raw("attr", sym(o.lazy), name)
                self.event("attrerror", b, name, [], {}, None, node)
                ga = prog.lookup(o.cls, "__getattr__")
                if isinstance(ga, Fn):
                    return self.call_fn(ga, [b, C(name)], {}, node, me=b)
                if all(str(x).split(".")[-1] in ("object", "ABC") for x in prog.ext_bases(o.cls)) and not self.dead():
                    self.raise_("AttributeError", node, [C(name)])
                return raw("unk", "no attribute", name, b)
            return raw("bm", b, name)
        if b.op == "lit":
            r = self.tuple_field(b, name)
            if r is not None:
                return r
        if b.op == "cls":
            c = prog.classes[b.a[0]]
            if c.is_tuple and name == "_make":
                return raw("ntm", b, name, c.qual)
            if c.is_tuple and name == "_fields":
                return raw("lit", *[C(n) for k in reversed(prog.mro(c)) for n, _ in k.fields])
            if name == "__name__":
                return C(c.name)
            if name == "__qualname__":
                return C(c.name)
            if name == "__module__":
                return C(c.module.name)
            if name == "__new__":
                return raw("bm", b, "__new__")
            m = prog.lookup(c, name)
            if isinstance(m, Fn):
                if "classmethod" in m.decorators:
                    return raw("bound", b, self.fnval(m))
                return self.fnval(m)
            if m is not None:
                return self.class_attr(m)
            return raw("bm", b, name)
        if b.op == "mod" and isinstance(b.a[0], str):
            r = prog.resolve(name, prog.modules[b.a[0]])
            if r is None and b.a[0] + "." + name in prog.modules:
                return raw("mod", b.a[0] + "." + name)
            if r is None:
                self.event("nameerror", None, b.a[0] + "." + name, [], {}, None, node)
                return raw("unk", "undefined name", name)
            return self.from_resolved(r, node)
        if b.op == "extf":
            return raw("extf", b.a[0] + "." + name)
        if b.op == "super" and name == "__new__":
            return raw("extf", "builtins.object.__new__")
        if b.op == "super":
            c = prog.classes[b.a[0]]
            after = prog.classes[b.a[1]]
            m = prog.lookup(c, name, after)
            if isinstance(m, Fn):
                if any("property" in d for d in m.decorators):
                    return self.call_fn(m, [b.a[2]], {}, node, me=b.a[2])
                return raw("bound", b.a[2], self.fnval(m))
            if m is not None:
                return self.bound_attr(b.a[2], m)
            return raw("bm", b, name)
        if b.op == "fn" and name in ("__name__", "__qualname__"):
            return C(self.fns[b.a[0]][0].name)
        if b.op == "bound" and name == "__func__":
            return b.a[1]
        if b.op == "rand" and b.a[0].a[1].startswith("uuid.") and name in ("hex", "bytes", "int", "urn"):
            return raw("conv", C(name), b)
        if b.op == "clsof" and name == "__name__":
            return raw("clsname", b.a[0])
        if name == "__class__":
            return raw("clsof", b)
        if b is NONE:
            self.raise_("AttributeError", node, [C(name)])
            return raw("unk", "attribute of None", name)
        # opaque value
        if name in PURE or name in self.opaque_methods():
            if ("fo", b, name) not in self.st.s:
                return raw("bm", b, name)
        s = self.sort_of(b)
        if s is not None:
            impl = prog.implementations(s, name)
            fns = [f for f in impl if isinstance(f, Fn)]
            if len(fns) == 1 and len(impl) == 1 and not fns[0].abstract:
                if any("property" in d for d in fns[0].decorators):
                    return self.call_fn(fns[0], [b], {}, node, me=b)
                return raw("bound", b, self.fnval(fns[0]))
            if fns and not any("property" in d for d in fns[0].decorators):
                return raw("bm", b, name)
        v = self.read_field(b, name)
        return v

    def start(self):
        """Containers and decorated functions that exist from the import on."""
        for m in list(self.prog.modules.values()):
            touched = None
            for name, r in list(m.names.items()):
                if r[0] == "assign" and mutable(r[1]):
                    if touched is None:
                        touched = touched_names(m.tree)
                    if name not in touched:
                        self.from_resolved(("assign", r[1], m, name), r[1])
        for c in list(self.prog.classes.values()):
            if c.frame is None and not c.is_attrs:
                for name, node in c.attrs.items():
                    if mutable(node):
                        self.class_attr((name, node, c))
        fns = list(self.prog.functions.values())
        for fn in fns:
            if fn.node.args.defaults or fn.node.args.kw_defaults:
                a = fn.node.args
                pos = a.posonlyargs + a.args
                for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                    if d is not None and mutable(d):
                        self.modcache[(fn.qual, p.arg)] = self.eval_global(d, fn.module, "default:%s:%s" % (fn.qual, p.arg))
        for fn in fns:
            ds = [d for d in getattr(fn.node, "decorator_list", []) if not transparent(ast.unparse(d))]
            if ds and not fn.local:
                self.decorated(fn, ds)

    def class_attr(self, m):
        _, node, c = m
        key = (c.qual, ast.dump(node))
        if key not in self.modcache:
            def f():
                for x in ast.walk(node):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and ("v", self.frames[-1].fid, x.id) not in self.st.s:
                        if x.id in c.methods:
                            self.st.s[("v", self.frames[-1].fid, x.id)] = self.fnval(c.methods[x.id])
                        elif x.id in c.attrs and c.attrs[x.id] is not node:
                            self.st.s[("v", self.frames[-1].fid, x.id)] = self.class_attr((x.id, c.attrs[x.id], c))
                return self.eval(node)

            self.modcache[key] = self.eval_global(node, c.module, c.qual + ":" + ast.unparse(node)[:40], None if mutable(node) and not self.starting else f)
        return self.modcache[key]

    def bound_attr(self, b, m):
        """A class attribute read through an instance: functions become methods."""
        v = self.class_attr(m)
        return raw("bound", b, v) if v.op == "fn" and not self.is_static(v) else v

    def is_static(self, v):
        return "staticmethod" in self.fns[v.a[0]][0].decorators

    def sort_of(self, v):
        s = self.sorts.get(v)
        if s is not None:
            return s
        if v.op == "item":
            s = self.sorts.get(("elem", v.a[0]))
            if s is not None:
                return s
        if v.op == "copy":
            return self.sort_of(v.a[0])
        return None

    def setattr(self, base, name, v, node=None):
        def f(b):
            if b.op in ("cls", "mod", "extf"):
                self.event("globalwrite", b, name, [v], {}, None, node)
                self.modcache[(b, name)] = v
                return NONE
            if b.op == "ref" and self.obj(b).kind == "inst":
                m = self.prog.lookup(self.obj(b).cls, name)
                # property with setter
                for k in self.prog.mro(self.obj(b).cls):
                    for s in k.node.body:
                        if isinstance(s, ast.FunctionDef) and s.name == name and any(
                            ast.unparse(d) == name + ".setter" for d in s.decorator_list):
                            self.call_fn(Fn(name, s, k.module, k), [b, v], {}, node, me=b)
                            return NONE
            if b.op == "ref" and getattr(self.obj(b), "glob", False):
                self.event("globalwrite", b, name, [v], {}, None, node)
            if name == "__dict__" and (b.op == "newof" or b.op == "ref" and self.obj(b).kind == "inst"):
                self.set_fields(b, v, node)
                return NONE
            self.event("setattr", b, name, [v], {}, None, node)
            self.write_field(b, name, v)
            return NONE

        self.on_leaves(base, f)

    # ------------------------------------------------------------------ calls

    def call(self, f, args, kw, node=None):
        def go(g):
            r = self.call1(g, args, kw, node)
            if g.op == "extf":
                self.one_shot = r if g.a[0] in ITERATORS else None
            elif g.op == "fn":
                fn = self.fns[g.a[0]][0]
                self.one_shot = r if not isinstance(fn.node, ast.Lambda) and _is_generator(fn.node) else None
            elif g.op == "bound" and g.a[1].op == "fn":
                fn = self.fns[g.a[1].a[0]][0]
                self.one_shot = r if not isinstance(fn.node, ast.Lambda) and _is_generator(fn.node) else None
            else:
                self.one_shot = None
            return r

        return self.on_leaves(f, go)

    def eval_kept(self, n):
        """Value of an expression that is kept: an iterator can be run through only once."""
        v = self.eval(n)
        if isinstance(n, ast.GeneratorExp) or isinstance(n, ast.Call) and self.one_shot is not None and v is self.one_shot:
            return self.iterator(v)
        return v

    def iterator(self, v):
        if v.op == "ref" or v.op not in t.SEQ:
            return v
        r = self.new_obj("iter")
        self.set_loc(("#", r.a[0]), v)
        return r

    one_shot = None

    def call1(self, f, args, kw, node):
        from .externs import call_ext, call_builtin_method

        self.calls += 1
        if f.op == "fn":
            fn, parent = self.fns[f.a[0]]
            return self.call_fn(fn, args, kw, node, parent=parent)
        if f.op == "bound":
            fn, parent = self.fns[f.a[1].a[0]]
            return self.call_fn(fn, [f.a[0]] + list(args), kw, node, me=f.a[0], parent=parent)
        if f.op == "cls":
            return self.instantiate(self.prog.classes[f.a[0]], args, kw, node)
        if f.op == "clsof":
            return self.unk("instantiation of an unknown class", f, node=node)
        if f.op == "extf":
            return call_ext(self, f.a[0], args, kw, node)
        if f.op == "bm":
            return call_builtin_method(self, f.a[0], f.a[1], args, kw, node)
        if f.op == "ntm":
            from .externs import ntm
            return ntm(self, f, args, kw, node)
        if f.op == "partial":
            return self.call(f.a[0], list(f.a[1:]) + list(args), kw, node)
        if f.op == "partialkw":
            d = {k.a[0]: k.a[1] for k in f.a[1].a}
            d.update(kw)
            return self.call(f.a[0], list(f.a[2:]) + list(args), d, node)
        if f.op == "opgetter":
            kind, ks, x = f.a[0], f.a[1:], args[0]
            if kind == "itemgetter":
                r = [self.item(x, k, node) for k in ks]
            elif kind == "attrgetter" and all(k.op == "c" for k in ks):
                r = []
                for k in ks:
                    y = x
                    for part in k.a[1].split("."):
                        y = self.getattr(y, part, node)
                    r.append(y)
            elif kind == "methodcaller" and ks[0].op == "c":
                return self.call(self.getattr(x, ks[0].a[1], node), list(ks[1:]), kw, node)
            else:
                return self.unk("operator." + kind, x, node=node)
            return r[0] if len(r) == 1 else raw("lit", *r)
        if f.op == "ref" and self.obj(f).kind == "inst":
            m = self.prog.lookup(self.obj(f).cls, "__call__")
            if isinstance(m, Fn):
                return self.call_fn(m, [f] + list(args), kw, node, me=f)
        if f.op == "attr":
            # method of an unknown object
            return call_builtin_method(self, f.a[0], f.a[1], args, kw, node)
        if f.op == "c":
            self.event("callnone", f, "call", [], {}, None, node)
            return raw("unk", "call of a constant", f)
        self.event("mcall", f, "__call__", [a for a in args if isinstance(a, T)], {}, None, node)
        return raw("call", "opaque", self.reify(f), *[self.reify(a) for a in args if isinstance(a, T)])

    def call_method(self, obj, name, *args, **kw):
        """Call a method of a value (for use by the rules)."""
        f = self.getattr(obj, name)
        return self.call(f, list(args), dict(kw))

    def occurrence(self, key):
        n = self.occ.get(key, 0)
        self.occ[key] = n + 1
        return n

    def opaque_call(self, recv, name, args, kw, node, pure=False):
        args = [a for a in args]
        rargs = []
        for a in args:
            if isinstance(a, tuple):
                rargs.append(raw("star", self.reify(a[1])))
            else:
                rargs.append(self.reify(a))
        rk = []
        for k in sorted(kw, key=str):
            if k == "**":
                rk.append(raw("starstar", self.reify(kw[k])))
            else:
                rk.append(raw("kw", k, self.reify(kw[k])))
        rrecv = self.reify(recv)
        if pure:
            res = t.build("mcall", rrecv, name, *(rargs + rk))
        else:
            n = self.occurrence((name,))
            vs = [v for v, _ in self.loops]
            res = t.build("mcall", rrecv, name, *(rargs + rk + [C("#%d" % n)] + [v for v in vs]))
        self.event("mcall", recv, name, [a if isinstance(a, T) else a[1] for a in args], kw, res, node)
        return res

    def bind(self, fn, args, kw, node, parent=None):
        """Bind arguments to parameters; returns {name: T}."""
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        pos = []
        for x in args:
            if isinstance(x, tuple) and x[0] == "*":
                c = x[1]
                if c.op == "lit":
                    pos += list(c.a)
                else:
                    pos.append(x)
            else:
                pos.append(x)
        rest = []
        i = 0
        while pos:
            x = pos.pop(0)
            if isinstance(x, tuple):
                # opaque star argument
                n = 0
                while i < len(params):
                    out[params[i]] = item(x[1], C(n))
                    i += 1
                    n += 1
                rest.append(seqslice(x[1], C(n), NONE) if n else x[1])
            elif i < len(params):
                out[params[i]] = x
                i += 1
            else:
                rest.append(raw("lit", x))
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        star = None
        for k, v in kw.items():
            if k == "**":
                star = v
                continue
            if k in params or k in kwonly:
                out[k] = v
            else:
                extra[k] = v
        if star is not None:
            keys = t._lit_keys(star)
            if keys is not None and all(k.op == "c" for k in keys):
                for k in keys:
                    if k.a[1] in params + kwonly:
                        out[k.a[1]] = dget(star, k)
                    else:
                        extra[k.a[1]] = dget(star, k)
                star = None
        defaults = {}
        for p, d in zip(params[len(params) - len(a.defaults):], a.defaults):
            defaults[p] = d
        for p, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[p] = d
        missing = []
        for p in params + kwonly:
            if p not in out:
                if p in defaults:
                    d = defaults[p]
                    out[p] = ("default", d)
                else:
                    missing.append(p)
        if a.vararg:
            out[a.vararg.arg] = cat(*rest) if rest else raw("lit")
        elif rest and any(length(r) is not ZERO for r in rest):
            if not any(isinstance(r, T) and not t.is_int(length(r)) for r in rest):
                missing.append("too many arguments")
        if a.kwarg:
            d = t.DEMPTY if star is None else star
            for k, v in extra.items():
                d = dput(d, C(k), v)
            out[a.kwarg.arg] = d
            out["$kwarg"] = a.kwarg.arg
        elif extra:
            missing.append("unexpected " + ", ".join(sorted(extra)))
        return out, missing

    def too_deep(self, fn, me, args):
        """Recursion which does not follow the structure of known objects."""
        fs = [f for f in self.frames if f.fn is fn]
        if len(fs) <= 3:
            return False
        if len(fs) > 16:
            return len(fs) > 60 or not self.smaller(fs, args)
        if self.smaller(fs, args):
            return False
        x = me if me is not None else args[0] if args else None
        return not (isinstance(x, T) and x.op == "ref") or any(f.subject is x for f in fs)

    def smaller(self, fs, args):
        """Arguments of known content which no call of the function still running had."""
        key = self.arg_key(args)
        if not any(k is not None and k[0] == "known" for k in key):
            return False
        return not any(f.argkey == key for f in fs)

    def arg_key(self, args):
        out = []
        for a in args:
            if not isinstance(a, T):
                out.append(None)
            elif a.op == "c" or a.op == "lit":
                out.append(("known", a))
            elif a.op == "ref" and not a.a[1:] and self.obj(a).kind in ("list", "dict", "set", "iter"):
                c = self.content(a)
                out.append(("known" if c.op in ("lit", "dempty", "dput", "setof") else "?", c))
            else:
                out.append(("?", a))
        return tuple(out)

    def call_fn(self, fn, args, kw, node=None, me=None, parent=None):
        if self.dead():
            return NONE
        if parent is None and fn.cls is not None:
            parent = getattr(fn.cls, "frame", None)
        if self.inline_hook is not None:
            r = self.inline_hook(self, fn, args, kw, node)
            if r is not None:
                return r
        if fn.decorators and not fn.local and not fn.bare:
            ds = [d for d in fn.node.decorator_list if not transparent(ast.unparse(d))]
            if ds:
                return self.call(self.decorated(fn, ds), args, kw, node)
        if me is None and fn.bare and fn.cls is not None and args and "staticmethod" not in fn.decorators:
            me = args[0] if isinstance(args[0], T) else None
        if self.depth > 150 or self.too_deep(fn, me, args):
            return self.unk("recursion of %s" % fn.qual, *[a for a in args if isinstance(a, T)], node=node)
        self.analysed.add(fn.qual)
        bound, missing = self.bind(fn, args, kw, node, parent)
        if missing:
            self.event("typeerror", None, fn.name, [], {"missing": C(", ".join(missing))}, None, node)
            self.st.pc = FALSE
            return NONE
        fr = Frame(self.next_frame, fn, fn.module, fn.cls, me, parent)
        fr.subject = me if me is not None else args[0] if args else None
        fr.argkey = self.arg_key(args)
        ev0 = len(self.events)
        self.next_frame += 1
        outer = self.st.pc
        self.pcstack.append(outer)
        self.st.pc = TRUE
        self.frames.append(fr)
        self.depth += 1
        kwname = bound.pop("$kwarg", None)
        for k, v in bound.items():
            if isinstance(v, tuple):
                d = v[1]
                if fn.defaults is not None and k in fn.defaults:
                    v = fn.defaults[k]
                elif isinstance(d, ast.Constant):
                    v = C(d.value)
                else:
                    # evaluated once, at definition
                    key = (fn.qual, k)
                    if key not in self.modcache:
                        self.modcache[key] = self.eval_global(d, fn.module, "default:%s:%s" % (fn.qual, k))
                    v = self.modcache[key]
            if k == kwname:
                v = self.new_dict(v)
            self.st.s[("v", fr.fid, k)] = v
        is_gen = not isinstance(fn.node, ast.Lambda) and _is_generator(fn.node)
        if is_gen:
            self.st.s[("v", fr.fid, "$yield")] = raw("lit")
        lc = self.loopctx
        self.loopctx = []
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body)
                self.ret(v)
            else:
                self.exec_block(fn.node.body)
                if not self.dead():
                    self.ret(NONE)
        finally:
            self.frames.pop()
            self.loopctx = lc
            self.depth -= 1
            self.pcstack.pop()
        # join the returns
        rets = [r for r in fr.returns if r[0] is not FALSE]
        if not rets:
            self.st = self.st.copy()
            self.st.pc = FALSE
            return NONE
        val, st = rets[-1][1], rets[-1][2]
        for pc, v, s in reversed(rets[:-1]):
            st = self.join(pc, s, st)
            val = ite(pc, v, val)
        live = OR(*[r[0] for r in rets])
        self.st = st
        if is_gen:
            val = self.st.s[("v", fr.fid, "$yield")]
        self.st.pc = AND(outer, live)
        if not fr.captured:
            fid = fr.fid
            pop = self.st.s.pop
            for k in _local_names(fn.node):
                pop(("v", fid, k), None)
            for k in bound:
                pop(("v", fid, k), None)
        if any(cached(d) for d in fn.decorators):
            self.event("cached", me, fn.name, [val], {}, val, node)
            if not is_bool(val) and (len(self.events) > ev0 + 1 or any(x.op in ("ref", "rand") for x in t.subterms(val))):
                val = raw("cached", fn.qual, val)
        return self.under(val)

    def decorated(self, fn, ds):
        """What the decorators make of a function of a module or class."""
        key = "decorated:" + fn.qual
        if key not in self.modcache:
            bare = Fn(fn.name, fn.node, fn.module, fn.cls)
            bare.bare = True
            self.modcache[key] = self.unk("decorators of " + fn.qual)
            self.modcache[key] = self.eval_global(ds, fn.module, fn.qual, lambda: self.decorate(self.fnval(bare), ds))
        return self.modcache[key]

    def decorate(self, v, ds):
        for d in reversed(ds):
            v = self.call(self.eval(d), [v], {}, d)
        return v

    def ret(self, v):
        self.frames[-1].returns.append((self.st.pc, v, self.st))
        self.st = self.st.copy()
        self.st.pc = FALSE

    def instantiate(self, c, args, kw, node):
        new = self.prog.lookup(c, "__new__")
        if isinstance(new, Fn):
            r = self.call_fn(new, [raw("cls", c.qual)] + list(args), kw, node)
            if r.op != "ref" or self.obj(r).kind != "inst" or c not in self.prog.mro(self.obj(r).cls):
                return r if r.op != "ite" else self.unk("__new__ of " + c.name, node=node)
        else:
            r = self.new_obj("inst", c, node=node)
        init = self.prog.lookup(c, "__init__")
        if isinstance(init, Fn):
            self.call_fn(init, [r] + list(args), kw, node, me=r)
        else:
            fields = []
            for k in reversed(self.prog.mro(c)):
                fields += k.fields
            if fields:
                pos = []
                for x in args:
                    if isinstance(x, tuple):
                        if x[1].op == "lit":
                            pos += list(x[1].a)
                        else:
                            # opaque sequence unpacked over the remaining fields
                            pos += [item(x[1], C(j)) for j in range(len(fields) - len(pos))]
                            self.event("spread", r, c.name, [x[1]], {}, None, node)
                    else:
                        pos.append(x)
                for i, (n, d) in enumerate(fields):
                    name = n.lstrip("_")
                    if i < len(pos):
                        v = pos[i]
                    elif name in kw:
                        v = kw[name]
                    else:
                        v = None
                        if isinstance(d, ast.Call):
                            for k in d.keywords:
                                if k.arg == "default":
                                    v = self.eval_global(k.value, c.module, c.qual + "." + n)
                                elif k.arg in ("factory", "default_factory"):
                                    fac = self.eval_global(k.value, c.module, c.qual + "." + n)
                                    v = self.call(fac, [], {}, node)
                        elif d is not None:
                            v = self.eval_global(d, c.module, c.qual + "." + n)
                        if v is None:
                            self.event("typeerror", None, c.name, [], {"missing": C(n)}, None, node)
                            self.st.pc = FALSE
                            return r
                    if isinstance(d, ast.Call) and any(k.arg == "converter" for k in d.keywords):
                        conv = self.eval_global([k.value for k in d.keywords if k.arg == "converter"][0], c.module, c.qual + "." + n)
                        v = self.call(conv, [v], {}, node)
                    self.write_field(r, n, v)
                unknown = [k for k in kw if k != "**" and k not in [n.lstrip("_") for n, _ in fields]]
                if unknown or len(pos) > len(fields):
                    self.event("typeerror", None, c.name, [], {"missing": C("unexpected arguments")}, None, node)
                    self.st.pc = FALSE
                post = self.prog.lookup(c, "__attrs_post_init__") or self.prog.lookup(c, "__post_init__")
                if isinstance(post, Fn):
                    self.call_fn(post, [r], {}, node, me=r)
            elif self.prog.ext_bases(c) and any("Exception" in b or "Error" in b for b in self.prog.ext_bases(c)):
                self.write_field(r, "args", raw("lit", *[self.reify(a) for a in args if isinstance(a, T)]))
        if c.is_tuple:
            return raw("lit", *[self.read_field(r, n) for k in reversed(self.prog.mro(c)) for n, _ in k.fields])
        return r

    def tuple_field(self, b, name):
        """Attribute of a named tuple; these are plain tuples here."""
        for c in self.prog.classes.values():
            if c.is_tuple:
                fields = [n for k in reversed(self.prog.mro(c)) for n, _ in k.fields]
                if len(fields) == len(b.a):
                    if name in fields:
                        return b.a[fields.index(name)]
                    if name == "_fields":
                        return raw("lit", *[C(n) for n in fields])
                    m = self.prog.lookup(c, name)
                    if isinstance(m, Fn):
                        if any("property" in d for d in m.decorators):
                            return self.call_fn(m, [b], {}, None, me=b)
                        return raw("bound", b, self.fnval(m))
                    if name in ("_replace", "_asdict"):
                        return raw("ntm", b, name, c.qual)
        return None

    def lazy(self, cname, name=None, **fields):
        """A symbolic instance of a class: its fields are unknown until written."""
        c = self.prog.cls(cname)
        r = self.new_obj("inst", c, lazy=name or cname.lower(), external=True)
        for k, v in fields.items():
            self.write_field(r, k, v)
        return r

    # ------------------------------------------------------------------ statements

    def exec_block(self, body):
        for st in body:
            if self.dead():
                return
            self.exec(st)

    def exec(self, n):
        self.steps += 1
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            self.unk("statement " + type(n).__name__, node=n)
            return
        m(n)

    def x_Pass(self, n):
        pass

    def x_Expr(self, n):
        self.eval(n.value)

    def x_Import(self, n):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            v = raw("mod", full) if full in self.prog.modules else raw("extf", full)
            self.st.s[("v", self.frames[-1].fid, nm)] = v

    def x_ImportFrom(self, n):
        m = self.frames[-1].module
        for a in n.names:
            if n.module in self.prog.modules:
                r = self.prog.resolve(a.name, self.prog.modules[n.module])
                v = self.from_resolved(r, n) if r else raw("mod", n.module + "." + a.name)
            else:
                v = raw("extf", (n.module or "") + "." + a.name)
            self.st.s[("v", self.frames[-1].fid, a.asname or a.name)] = v

    def x_Global(self, n):
        self.frames[-1].globals.update(n.names)

    def x_Nonlocal(self, n):
        for name in n.names:
            f = self.frames[-1].parent
            while f is not None and ("v", f.fid, name) not in self.st.s:
                f = f.parent
            if f is not None:
                self.frames[-1].nonlocals[name] = f

    def x_FunctionDef(self, n):
        fr = self.frames[-1]
        fr.captured = True
        f = fr.parent
        while f is not None:
            f.captured = True
            f = f.parent
        fn = Fn(n.name, n, fr.module, fr.cls)
        fn.local = True
        fn.defaults = self.eval_defaults(n.args)
        v = self.fnval(fn, fr)
        v = self.decorate(v, [d for d in n.decorator_list if not transparent(ast.unparse(d))])
        self.assign(ast.Name(n.name, ast.Store()), v, n)

    x_AsyncFunctionDef = x_FunctionDef

    def eval_defaults(self, a):
        out = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = self.eval(d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = self.eval(d)
        return out

    def x_ClassDef(self, n):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            f.captured = True
            f = f.parent
        self.uid += 1
        c = self.prog.local_class(n, fr.module, "%s#%d" % (n.name, self.uid))
        c.frame = fr
        for i, b in enumerate(n.bases):
            v = self.eval(b)
            c.bases.append(self.prog.classes[v.a[0]] if v.op == "cls" else v.a[0] if v.op == "extf" else ast.unparse(b))
        self.assign(ast.Name(n.name, ast.Store()), raw("cls", c.qual), n)

    def x_Return(self, n):
        v = self.eval_kept(n.value) if n.value is not None else NONE
        if not self.dead():
            self.ret(v)

    def x_Delete(self, n):
        for x in n.targets:
            if isinstance(x, ast.Name):
                self.st.s[("v", self.frames[-1].fid, x.id)] = UNDEF
            elif isinstance(x, ast.Subscript):
                b = self.eval(x.value)
                if isinstance(x.slice, ast.Slice):
                    self.set_slice(b, x.slice, None, n)
                    continue
                k = self.eval(x.slice)
                from .externs import method1
                self.on_leaves(b, lambda b: method1(self, b, "pop", [k], {}, n))
            elif isinstance(x, ast.Attribute):
                b = self.eval(x.value)
                from .externs import b_delattr
                b_delattr(self, [b, C(x.attr)], {}, n)

    def x_Assert(self, n):
        # not relied upon: assertions can be switched off
        c = self.truth(self.eval(n.test))
        self.event("assert", None, "assert", [c], {}, None, n)

    def x_Assign(self, n):
        v = self.eval_kept(n.value)
        for x in n.targets:
            self.assign(x, v, n)

    def x_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.eval_kept(n.value), n)

    def x_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            old = self.lookup(n.target.id, n)
        elif isinstance(n.target, ast.Attribute):
            base = self.eval(n.target.value)
            old = self.getattr(base, n.target.attr, n)
        else:
            base = self.eval(n.target.value)
            key = self.eval(n.target.slice)
            old = self.item(base, key, n)
        val = self.eval(n.value)
        new = self.on_leaves(old, lambda x: self.inplace(n.op, x, val, n))
        if isinstance(n.target, ast.Name):
            self.assign(n.target, new, n)
        elif isinstance(n.target, ast.Attribute):
            self.setattr(base, n.target.attr, new, n)
        else:
            self.setitem(base, key, new, n)

    def inplace(self, op, x, val, n):
        """x op= val: containers are changed in place, other values replaced."""
        if x.op == "ref":
            o = self.obj(x)
            if o.kind == "inst":
                r = self.user_op(x, "__i%s__" % self.OPS.get(type(op), "?"), [val], n)
                if r is not None:
                    return r
            elif o.kind == "list" and isinstance(op, ast.Add):
                self.set_content(x, cat(self.content(x), self.seq(val, n)))
                return x
            elif o.kind in ("list", "set", "dict"):
                r = self.binop(op, x, val, n)
                if r.op == "ref" and r is not x and self.obj(r).kind == o.kind:
                    self.set_content(x, self.content(r))
                    return x
                if r.op == "unk":
                    self.set_content(x, r)
                    return x
                return r
        return self.binop(op, x, val, n)

    def assign(self, x, v, n):
        if isinstance(x, ast.Name):
            fr = self.frames[-1]
            if x.id in fr.globals:
                self.event("globalwrite", None, x.id, [v], {}, None, n)
                self.st.s[("g", fr.module.name, x.id)] = v
            elif x.id in fr.nonlocals:
                self.st.s[("v", fr.nonlocals[x.id].fid, x.id)] = v
            else:
                self.st.s[("v", fr.fid, x.id)] = v
        elif isinstance(x, ast.Attribute):
            self.setattr(self.eval(x.value), x.attr, v, n)
        elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
            self.set_slice(self.eval(x.value), x.slice, self.seq(v, n), n)
        elif isinstance(x, ast.Subscript):
            b = self.eval(x.value)
            k = self.eval(x.slice)
            self.setitem(b, k, v, n)
        elif isinstance(x, (ast.Tuple, ast.List)):
            self.unpack(x.elts, v, n)
        elif isinstance(x, ast.Starred):
            self.assign(x.value, self.new_list(self.seq(v, n)), n)
        else:
            self.unk("assignment target", v, node=n)

    def set_slice(self, b, sl, new, n):
        """b[lo:hi:step] = new; deletion with new = None"""
        lo, hi, step = [self.eval(z) if z is not None else NONE for z in (sl.lower, sl.upper, sl.step)]

        def f(x):
            c = self.under(self.content(x))
            if x.op == "ref" and self.obj(x).kind == "list" and step in (NONE, ONE):
                if c.op == "lit" and all(z is NONE or t.is_int(z) for z in (lo, hi)):
                    a, z, _ = slice(*[None if y is NONE else y.a[1] for y in (lo, hi)]).indices(len(c.a))
                    self.set_content(x, cat(raw("lit", *c.a[:a]), new if new is not None else raw("lit"), raw("lit", *c.a[max(a, z):])))
                    return NONE
                if lo in (NONE, ZERO) and hi is NONE:
                    self.set_content(x, new if new is not None else raw("lit"))
                    return NONE
            if x.op == "ref" and c.op == "lit" and new is None and all(z is NONE or t.is_int(z) for z in (lo, hi, step)):
                l = list(c.a)
                del l[slice(*[None if y is NONE else y.a[1] for y in (lo, hi, step)])]
                self.set_content(x, raw("lit", *l))
                return NONE
            self.set_content(x, self.unk("slice assignment", c, node=n))
            return NONE

        self.on_leaves(b, f)

    def unpack(self, elts, v, n):
        s = self.under(self.seq(v, n))
        if s.op == "ite" and any(l.op == "lit" and len(l.a) != len(elts) for _, l in t.leaves(s)):
            self.on_leaves(s, lambda x: (self.unpack(elts, x, n), NONE)[1])
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if s.op == "lit" and (len(s.a) < len(elts) - 1 if star else len(s.a) != len(elts)):
            self.check(TRUE, "ValueError", n)
            return
        if not star and s.op in t.SEQ and s.op != "lit":
            self.check(NOT(eq(length(s), C(len(elts)))), "ValueError", n)
            if self.dead():
                return
        if star:
            k = star[0]
            for i in range(k):
                self.assign(elts[i], item(s, C(i)), n)
            tail = len(elts) - k - 1
            end = C(-tail) if tail else NONE
            self.assign(elts[k].value, self.new_list(seqslice(s, C(k), end)), n)
            for j in range(tail):
                self.assign(elts[k + 1 + j], item(s, sub(length(s), C(tail - j))), n)
            return
        for i, e in enumerate(elts):
            self.assign(e, item(s, C(i)), n)

    def x_If(self, n):
        c = self.truth(self.eval(n.test))
        if self.dead():
            return
        self.branch(c, lambda: self.exec_block(n.body), lambda: self.exec_block(n.orelse))

    def x_With(self, n):
        self.with_(n, list(n.items))

    x_AsyncWith = x_With

    def with_(self, n, items):
        if not items:
            self.exec_block(n.body)
            return
        i, rest = items[0], items[1:]
        inner = lambda: self.with_(n, rest)
        # a generator based context manager: its body runs around the block
        if isinstance(i.context_expr, ast.Call):
            f = self.eval(i.context_expr.func)
            fn = self.manager_fn(f)
            if fn is not None:
                def block(v):
                    if i.optional_vars is not None:
                        self.assign(i.optional_vars, v, n)
                    inner()
                self.run_manager(f, fn, i.context_expr, block, n)
                return
        v = self.eval(i.context_expr)
        self.event("with", v, "with", [], {}, None, n)
        if v.op == "suppress":
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, n)
            ctx = TryCtx(len(self.pcstack), list(v.a))
            self.tries.append(ctx)
            self.st = self.st.copy()
            st0 = self.st.copy()
            inner()
            self.tries.remove(ctx)
            end = self.st
            for pc, s, name, val in ctx.caught:
                s = s.copy()
                s.pc = AND(st0.pc, pc) if pc is not s.pc else pc
                end = self.join(s.pc, s, end)
            self.st = end
            return
        c = self.cls_of(v) if v.op == "ref" else None
        if c is not None and isinstance(self.prog.lookup(c, "__enter__"), Fn):
            x = self.user_op(v, "__enter__", [], n)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, x, n)
            ctx = TryCtx(len(self.pcstack), [None])
            ctx.binds = True
            self.tries.append(ctx)
            st0 = self.st.copy()

            def guarded():
                inner()
                self.tries.remove(ctx)

            self.protected(guarded, lambda: self.user_op(v, "__exit__", [NONE, NONE, NONE], n), n)
            end = self.st
            for pc, s, name, val in ctx.caught:
                s = s.copy()
                s.pc = AND(st0.pc, pc) if pc is not s.pc else pc
                if s.pc is FALSE:
                    continue
                hpc = s.pc
                self.st = s
                ty = self.clsval(self.cls_of(val)) if self.cls_of(val) is not None else raw("extf", "builtins." + name)
                r = self.user_op(v, "__exit__", [ty, val, raw("sym", "traceback")], n)
                if not self.dead():
                    self.branch(self.truth(r), lambda: NONE, lambda: (self.raise_(name, n, (), val), NONE)[1])
                end = self.join(hpc, self.st, end)
            self.st = end
            return
        if i.optional_vars is not None:
            self.assign(i.optional_vars, v, n)
        inner()

    def manager_fn(self, f):
        x = f.a[1] if f.op == "bound" else f
        if x.op != "fn":
            return None
        fn = self.fns[x.a[0]][0]
        if any(d.split(".")[-1] == "contextmanager" for d in fn.decorators):
            return fn
        return None

    def run_manager(self, f, fn, call, block, n):
        """`with manager(...)`: the generator's statements around the block, which runs at its yield."""
        fr = self.frames[-1]
        yields = [x for x in _own(fn.node) if isinstance(x, (ast.Yield, ast.YieldFrom))]
        if len(yields) != 1 or isinstance(yields[0], ast.YieldFrom):
            self.note("not modelled: context manager with several yields", n)
            self.unk("context manager", node=n)
            block(self.unk("context manager", node=n))
            return
        state = {"ret": False}

        def at_yield(v):
            # the block belongs to the frame of the `with` statement
            top = self.frames
            lc = self.loopctx
            self.frames = top[: top.index(fr) + 1]
            self.loopctx = []
            outer = LoopCtx()
            self.loopctx = [outer]
            marks = len(fr.returns)
            depth = len(self.pcstack)
            block(v)
            self.frames = top
            self.loopctx = lc
            if len(fr.returns) > marks or outer.breaks or outer.continues:
                state["ret"] = True
            state["exits"] = (fr.returns[marks:], outer)
            del fr.returns[marks:]
            return NONE

        keep = self.yield_hook
        self.yield_hook = (fn, at_yield)
        args = [self.eval(a) for a in call.args]
        kw = {k.arg: self.eval(k.value) for k in call.keywords if k.arg}
        pre = self.st.pc
        self.call(f, args, kw, n)
        self.yield_hook = keep
        if state.get("ret"):
            rets, lo = state["exits"]
            for pc, v, st in rets:
                st = st.copy()
                for k in [k for k in self.st.s]:
                    pass
                self.note("not modelled: leaving a managed block early", n)
                fr.returns.append((AND(pre, pc), v, st))
            for src, dst in ((lo.breaks, "breaks"), (lo.continues, "continues")):
                for pc, st in src:
                    if self.loopctx:
                        getattr(self.loopctx[-1], dst).append((AND(pre, pc), st))

    yield_hook = None

    # ---- match

    def x_Match(self, n):
        v = self.eval(n.subject)

        def go(k):
            if k == len(n.cases) or self.dead():
                return NONE
            c = n.cases[k]

            def run():
                if c.guard is None:
                    self.exec_block(c.body)
                    return NONE
                g = self.truth(self.eval(c.guard))
                return self.branch(g, lambda: (self.exec_block(c.body), NONE)[1], lambda: go(k + 1))

            return self.match(c.pattern, v, n, run, lambda: go(k + 1))

        go(0)

    def match(self, p, v, n, yes, no):
        """Run `yes` with the names of the pattern bound where the value matches, `no` elsewhere."""
        if isinstance(p, ast.MatchValue):
            return self.branch(self.compare(ast.Eq(), v, self.eval(p.value), n), yes, no)
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.compare(ast.Is(), v, C(p.value), n), yes, no)
        if isinstance(p, ast.MatchAs):
            def bind():
                if p.name is not None:
                    self.assign(ast.Name(p.name, ast.Store()), v, n)
                return yes()
            return bind() if p.pattern is None else self.match(p.pattern, v, n, bind, no)
        if isinstance(p, ast.MatchOr):
            def alt(k):
                return no() if k == len(p.patterns) else self.match(p.patterns[k], v, n, yes, lambda: alt(k + 1))
            return alt(0)
        if isinstance(p, ast.MatchSequence):
            def f(v):
                if not (v.op in t.SEQ or v.op == "ref" and self.obj(v).kind in ("list", "tuple")):
                    if v.op in ("c", "ref", "poly", "mod") or v in t.NUMS or v in t.POINTS:
                        return no()
                    self.unk("sequence pattern", v, node=n)
                s = self.content(v) if v.op == "ref" else v
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                k = len(p.patterns) - len(star)
                ok = NOT(lt(length(s), C(k))) if star else eq(length(s), C(k))

                def parts():
                    todo = []
                    for i, q in enumerate(p.patterns):
                        if isinstance(q, ast.MatchStar):
                            tail = len(p.patterns) - i - 1
                            if q.name is not None:
                                self.assign(ast.Name(q.name, ast.Store()), self.new_list(seqslice(s, C(i), C(-tail) if tail else NONE)), n)
                        elif star and i > star[0]:
                            todo.append((q, item(s, sub(length(s), C(len(p.patterns) - i)))))
                        else:
                            todo.append((q, item(s, C(i))))
                    return self.match_all(todo, n, yes, no)

                return self.branch(ok, parts, no)

            return self.on_leaves(v, f)
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls)
            from .externs import b_isinstance
            ok = truth(b_isinstance(self, [v, c], {}, n))

            def fields():
                todo = []
                names = []
                if p.patterns:
                    if c.op == "cls":
                        k = self.prog.classes[c.a[0]]
                        m = self.prog.lookup(k, "__match_args__")
                        if m is not None and not isinstance(m, Fn):
                            names = [x.a[1] for x in self.seq(self.class_attr(m), n).a]
                        else:
                            names = [f for q in reversed(self.prog.mro(k)) for f, _ in q.fields]
                    elif c.op == "extf" and len(p.patterns) == 1:
                        todo.append((p.patterns[0], v))
                    for q, name in zip(p.patterns, names):
                        todo.append((q, self.getattr(v, name, n)))
                    if len(todo) < len(p.patterns):
                        self.unk("class pattern", v, node=n)
                for name, q in zip(p.kwd_attrs, p.kwd_patterns):
                    todo.append((q, self.getattr(v, name, n)))
                return self.match_all(todo, n, yes, no)

            return self.branch(ok, fields, no)
        if isinstance(p, ast.MatchMapping):
            def f(v):
                c = self.content(v)
                keys = [self.eval(k) for k in p.keys]
                ok = AND(*[din(k, c) for k in keys])
                if p.rest:
                    self.unk("rest of a mapping pattern", v, node=n)
                return self.branch(ok, lambda: self.match_all([(q, dget(c, k)) for k, q in zip(keys, p.patterns)], n, yes, no), no)
            return self.on_leaves(v, f)
        self.unk("pattern", v, node=n)
        return no()

    def match_all(self, todo, n, yes, no):
        if not todo:
            return yes()
        p, v = todo[0]
        return self.match(p, v, n, lambda: self.match_all(todo[1:], n, yes, no), no)

    # ---- exceptions

    def exc_name(self, e):
        """Name of the exception class raised by an expression node."""
        if e is None:
            return "reraise"
        f = e.func if isinstance(e, ast.Call) else e
        if isinstance(f, (ast.Name, ast.Attribute)):
            return ast.unparse(f).split(".")[-1]
        return "?"

    def new_exc(self, name, args=()):
        """A library exception object."""
        r = self.new_obj("exc")
        self.obj(r).alg = name
        self.write_field(r, "args", raw("lit", *args))
        return r

    def x_Raise(self, n):
        if n.exc is None:
            if self.handling:
                self.reraise(self.handling[-1], n)
            else:
                self.raise_("reraise", n)
            return
        mark = len(self.events)
        v = self.eval(n.exc)
        if n.cause is not None:
            self.eval(n.cause)
        if self.dead():
            return
        msg = None
        if isinstance(n.exc, ast.Call) and v.op != "ref":
            msg = [x for x in self.events[-1].args] if len(self.events) > mark and self.events[-1].kind == "ext" else []

        def go(v):
            if v.op == "cls" and self.exception_class(v):
                v = self.instantiate(self.prog.classes[v.a[0]], [], {}, n)
                if self.dead():
                    return NONE
            if v.op == "extf":
                last = v.a[0].split(".")[-1]
                if v.a[0].startswith("builtins."):
                    v = self.new_exc(last)
                else:
                    self.raise_(last, n, ())
                    return NONE
            if v.op == "ref" and self.obj(v).kind == "exc":
                a = self.read_field(v, "args")
                self.raise_(self.obj(v).alg, n, list(a.a) if a.op == "lit" else [a], v)
            elif v.op == "ref" and self.cls_of(v) is not None:
                a = self.read_field(v, "args")
                self.raise_(self.cls_of(v).name.split("#")[0], n, list(a.a) if a.op == "lit" else [], v)
            elif v.op == "cls":
                self.raise_(self.prog.classes[v.a[0]].name.split("#")[0], n, ())
            elif v.op == "unk" and v.a[0] == "undefined name":
                self.raise_("NameError", n, ())
            elif v.op == "excval":
                h = next((h for h in self.handling if "handled %d" % id(h) == v.a[0]), None)
                if h is not None:
                    self.reraise(h, n)
                else:
                    self.raise_(v.a[0].split(".")[-1], n, msg or ())
            elif v is NONE or v.op == "c":
                self.raise_("TypeError", n, ())
            else:
                self.raise_(self.exc_name(n.exc), n, msg or [])
            return NONE

        self.on_leaves(v, go)
        self.st = self.st.copy()
        self.st.pc = FALSE

    def exception_class(self, v):
        return True

    def reraise(self, what, n):
        base = self.st
        for other, (gate, val) in what.items():
            self.st = base.copy()
            self.st.pc = AND(base.pc, gate)
            if self.st.pc is not FALSE:
                self.raise_(other, n, (), val)
        self.st = base.copy()
        self.st.pc = FALSE

    def raise_(self, name, n, msg=(), val=None):
        if self.dead():
            return
        for c in reversed(self.tries):
            if any(self.exc_matches(name, h) for h in c.names):
                rel = AND(*self.pcstack[c.depth + 1 :], self.st.pc) if len(self.pcstack) > c.depth else self.st.pc
                if len(self.pcstack) > c.depth:
                    rel = AND(*self.pcstack[c.depth :][1:], self.st.pc)
                    first = self.pcstack[c.depth]
                    rel = AND(first, rel)
                if val is None and c.binds:
                    val = self.new_exc(name, [m for m in msg if isinstance(m, T)])
                c.caught.append((rel, self.st, name, val))
                self.event("caught", None, name, list(msg), {}, None, n)
                self.st = self.st.copy()
                self.st.pc = FALSE
                return
        self.event("raise", None, name, list(msg), {}, None, n)
        self.st = self.st.copy()
        self.st.pc = FALSE

    def exc_matches(self, name, handler):
        if handler in ("Exception", "BaseException", None):
            return True
        if name == handler:
            return True
        cs = [c for c in self.prog.classes.values() if c.name == name]
        for c in cs:
            if any(k.name == handler for k in self.prog.mro(c)):
                return True
            for b in self.prog.ext_bases(c):
                if self.exc_matches(b.split(".")[-1], handler):
                    return True
        e = getattr(builtins, name, None)
        h = getattr(builtins, handler, None)
        if isinstance(e, type) and isinstance(h, type) and issubclass(e, BaseException) and issubclass(h, BaseException):
            return issubclass(e, h)
        return False

    def handler_names(self, h):
        if h.type is None:
            return [None]
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(e).split(".")[-1] for e in es]

    def x_Try(self, n):
        if n.finalbody:
            self.protected(lambda: self.try_(n), lambda: self.exec_block(n.finalbody), n)
        else:
            self.try_(n)

    x_TryStar = x_Try

    def protected(self, run, final, n):
        """Run something, and `final` on every way out of it."""
        fr = self.frames[-1]
        rets, lc = len(fr.returns), self.loopctx[-1] if self.loopctx else None
        nb, nc = (len(lc.breaks), len(lc.continues)) if lc else (0, 0)
        tries = [(c, len(c.caught)) for c in self.tries]
        run()
        end = self.st
        if not self.dead():
            final()
            end = self.st
        new = fr.returns[rets:]
        del fr.returns[rets:]
        for pc, v, st in new:
            self.st = st.copy()
            self.st.pc = pc
            final()
            if not self.dead():
                fr.returns.append((self.st.pc, v, self.st))
        if lc:
            for l, k in ((lc.breaks, nb), (lc.continues, nc)):
                new = l[k:]
                del l[k:]
                for pc, st in new:
                    self.st = st.copy()
                    self.st.pc = pc
                    final()
                    if not self.dead():
                        l.append((self.st.pc, self.st))
        for c, k in tries:
            new = c.caught[k:]
            del c.caught[k:]
            for rel, st, name, val in new:
                self.st = st.copy()
                self.st.pc = rel
                if rel is not FALSE:
                    final()
                    if self.dead():
                        continue
                c.caught.append((rel, self.st, name, val))
        self.st = end

    def try_(self, n):
        fr = self.frames[-1]
        if not n.handlers:
            self.exec_block(n.body)
            if n.orelse and not self.dead():
                self.exec_block(n.orelse)
            return
        names = []
        for h in n.handlers:
            names += self.handler_names(h)
        saved = self.snapshot()
        st0 = self.st
        # dry run: can an unknown call raise?
        ctx = TryCtx(len(self.pcstack), names)
        self.tries.append(ctx)
        self.st = st0.copy()
        self.exec_block(n.body)
        self.tries.pop()
        opaque = ctx.opaque
        self.restore(saved)
        k = self.uid = self.uid + 1
        excs = []
        if opaque:
            vs = [v for v, _ in self.loops]
            excs = [atom("exc", k, i, *vs) for i, h in enumerate(n.handlers)]
        none = AND(*[NOT(e) for e in excs])
        ctx = TryCtx(len(self.pcstack), names)
        ctx.node = n
        ctx.binds = any(h.name for h in n.handlers)
        self.tries.append(ctx)
        self.st = st0.copy()
        self.st.pc = AND(st0.pc, none)
        self.exec_block(n.body)
        self.tries.pop()
        if not self.dead() and n.orelse:
            self.exec_block(n.orelse)
        end = self.st
        for i, h in enumerate(n.handlers):
            hn = self.handler_names(h)
            entry = None
            handled = {}
            bound = None
            if opaque:
                s = st0.copy()
                before = AND(*[NOT(e) for e in excs[:i]])
                s.pc = AND(st0.pc, before, excs[i])
                entry = s
                handled[str(hn[0] or "Exception")] = (excs[i], None)
                bound = raw("excval", "handled %d" % id(handled))
            for pc, s, name, val in ctx.caught:
                if any(self.exc_matches(name, x) for x in hn) and not any(
                    self.exc_matches(name, x) for h2 in n.handlers[:i] for x in self.handler_names(h2)):
                    s = s.copy()
                    s.pc = AND(st0.pc, pc) if pc is not s.pc else pc
                    old = handled.get(name, (FALSE, None))
                    handled[name] = (OR(old[0], s.pc), val if old[1] is None or val is None else ite(s.pc, val, old[1]))
                    if val is not None:
                        bound = val if bound is None else ite(s.pc, val, bound)
                    entry = s if entry is None else self.join(s.pc, s, entry)
            if entry is None or entry.pc is FALSE:
                continue
            hpc = entry.pc
            self.st = entry
            if h.name:
                self.st.s[("v", fr.fid, h.name)] = bound if bound is not None else raw("excval", "handled %d" % id(handled))
            self.handling.append(handled)
            self.exec_block(h.body)
            self.handling.pop()
            end = self.join(hpc, self.st, end)
        self.st = end

    def snapshot(self):
        fr = self.frames[-1] if self.frames else None
        return (len(self.events), [len(f.returns) for f in self.frames], self.next_obj, self.uid, dict(self.occ),
                [(len(c.breaks), len(c.continues)) for c in self.loopctx], self.st, [len(c.caught) for c in self.tries],
                self.next_frame, dict(self.modcache), list(self.notes))

    def restore(self, s):
        del self.events[s[0]:]
        for f, k in zip(self.frames, s[1]):
            del f.returns[k:]
        self.next_obj = s[2]
        self.uid = s[3]
        self.occ = dict(s[4])
        for c, (b, k) in zip(self.loopctx, s[5]):
            del c.breaks[b:]
            del c.continues[k:]
        self.st = s[6]
        for c, k in zip(self.tries, s[7]):
            del c.caught[k:]
        self.next_frame = s[8]
        self.modcache = dict(s[9])
        self.notes = list(s[10])

    # ---- loops

    def x_Break(self, n):
        self.loopctx[-1].breaks.append((self.st.pc, self.st))
        self.st = self.st.copy()
        self.st.pc = FALSE

    def x_Continue(self, n):
        self.loopctx[-1].continues.append((self.st.pc, self.st))
        self.st = self.st.copy()
        self.st.pc = FALSE

    def x_For(self, n):
        it = self.eval(n.iter)
        if self.dead():
            return

        def body(x):
            self.assign(n.target, x, n)
            self.exec_block(n.body)

        def run(it):
            if it.op == "ref" and self.obj(it).kind == "iter":
                broke = self.for_iter(it, body, n)
            else:
                broke = self.for_each(self.seq(it, n), body, n)
            self.loop_else(n, broke)
            return NONE

        self.on_leaves(it, run)

    def loop_else(self, n, broke):
        """`else` runs if there was no break"""
        if n.orelse and not self.dead():
            self.branch(broke, lambda: NONE, lambda: (self.exec_block(n.orelse), NONE)[1])

    def for_iter(self, it, body, n):
        """Loop over a one-shot iterator: what a break leaves behind can be read later."""
        c = self.under(self.content(it))
        if c.op == "lit" and any(isinstance(x, ast.Break) for b in n.body for x in ast.walk(b)):
            rest = [raw("lit", *c.a[k + 1:]) for k in range(len(c.a))]
            k = [0]

            def step(x):
                self.set_content(it, rest[k[0]])
                k[0] += 1
                body(x)

            r = self.for_each(c, step, n)
            return r
        s = self.seq(it, n)
        r = self.for_each(s, body, n)
        if r is not FALSE:
            self.set_content(it, self.unk("rest of an iterator", s, node=n))
        return r

    def leave(self, broken):
        """Join the states of breaks; the condition that there was one."""
        for pc, st in broken:
            self.st = self.join(pc, st, self.st)
        return OR(*[pc for pc, _ in broken]) if broken else FALSE

    def for_each(self, s, body, node):
        """Run body(element) for each element of a sequence; returns the condition of leaving by a break."""
        s = self.under(s)
        if s.op == "ite":
            r = self.on_leaves(s, lambda x: self.for_each(x, body, node))
            return r if is_bool(r) else FALSE
        if s.op == "setof" and t.setlist(s) is not None:
            s = t.setlist(s)
        if s.op == "lit":
            broken = []
            for x in s.a:
                if self.dead():
                    break
                self.region_once(lambda: body(x), broken)
            return self.leave(broken)
        if s.op == "cat":
            broke = FALSE
            for p in s.a:
                if self.dead():
                    break
                if broke is FALSE:
                    broke = self.for_each(p, body, node)
                else:
                    b0 = broke
                    broke = truth(self.branch(b0, lambda: TRUE, lambda: self.for_each(p, body, node)))
            return broke
        if s.op == "fmap":
            nn, lc, lb = s.a

            def b(v):
                self.branch(truth(inst(lc, v)), lambda: body(inst(lb, v)), lambda: NONE)

            return self.sym_loop(nn, b, node)
        if s.op == "flat":
            nn, l = s.a

            def outer(v):
                r = self.for_each(inst(l, v), body, node)
                if r is not FALSE and not self.dead():
                    self.branch(r, lambda: (self.x_Break(node), NONE)[1], lambda: NONE)

            return self.sym_loop(nn, outer, node)
        nn = length(s)
        return self.sym_loop(nn, lambda v: body(item(s, v)), node)

    def region_once(self, f, broken):
        """One unrolled iteration."""
        ctx = LoopCtx()
        self.loopctx.append(ctx)
        f()
        self.loopctx.pop()
        for pc, st in ctx.continues:
            self.st = self.join(pc, st, self.st)
        broken += ctx.breaks

    def sym_loop(self, n, body, node):
        if n.op == "ite":
            r = self.on_leaves(n, lambda m: self.sym_loop(m, body, node))
            return r if is_bool(r) else FALSE
        if n is ZERO:
            return FALSE
        if t.is_int(n) and n.a[1] <= t.UNROLL:
            broken = []
            for k in range(max(0, n.a[1])):
                if self.dead():
                    break
                self.region_once(lambda: body(C(k)), broken)
            return self.leave(broken)
        v = fresh_var()
        base = self.st
        P = base.pc
        snap = self.snapshot()
        obj0 = self.next_obj
        ph = {}  # loc -> placeholder
        fr = self.frames[-1]
        rmark = len(fr.returns)
        emark = len(self.events)
        for attempt in range(6):
            if attempt:
                self.restore(snap)
            st = base.copy()
            for loc, a in ph.items():
                st.s[loc] = a
            st.pc = TRUE
            self.st = st
            self.pcstack.append(P)
            self.loops.append((v, n))
            ctx = LoopCtx()
            self.loopctx.append(ctx)
            body(v)
            self.loopctx.pop()
            self.loops.pop()
            self.pcstack.pop()
            end = self.st
            for pc, s in ctx.continues:
                end = self.join(pc, s, end)
            ends = [end] + [s for _, s in ctx.breaks]
            new = []
            for e in ends:
                if e.pc is FALSE and e is end and not ctx.breaks:
                    pass
                for loc, val in e.s.items():
                    if loc in ph or loc in new or loc[0] == "fq":
                        continue
                    if loc[0] in ("f", "#") and loc[1] >= obj0:
                        continue
                    if loc in base.s:
                        if val is not base.s[loc]:
                            new.append(loc)
                    elif loc[0] in ("fo", "#o") and v.id not in loc[1].vars and not _has_new_ref(loc[1], obj0):
                        if val is not self.default_loc(loc):
                            new.append(loc)
                    elif loc[0] == "f" and loc[1] < obj0 and self.objs[loc[1]].lazy is not None:
                        if val is not self.default_loc(loc):
                            new.append(loc)
                    elif loc[0] == "f" and loc[1] < obj0 and attempt == 0:
                        pass
            if not new:
                break
            for loc in new:
                ph[loc] = raw("acc", str(loc[0]) + ":" + str(loc[-1] if loc[0] != "#o" else "c"), self.next_acc())
        newids = set(range(obj0, self.next_obj))

        def gen(x):
            """Objects allocated in the body become indexed by the loop variable."""
            if not newids or not isinstance(x, T):
                return x
            m = {}
            for y in t.subterms(x):
                if y.op == "ref" and y.a[0] in newids:
                    m[y] = raw("ref", y.a[0], v, *y.a[1:])
            return subst(x, m) if m else x

        accs = {a: loc for loc, a in ph.items()}
        upd = {loc: gen(end.s.get(loc, a)) for loc, a in ph.items()}
        B = OR(*[pc for pc, _ in ctx.breaks]) if ctx.breaks else FALSE
        B = gen(B)
        init = {loc: base.s.get(loc, self.default_loc(loc)) for loc in ph}
        if ctx.breaks:
            # a location keeps its value until the breaking iteration in the simple search idiom
            closed, final = {}, {}
            first = raw("first", n, lam(v, B))
            ex = exists(n, lam(v, B))
            for loc, a in ph.items():
                bv = None
                for pc, s in ctx.breaks:
                    x = gen(s.s.get(loc, a))
                    bv = x if bv is None else ite(gen(pc), x, bv)
                if upd[loc] is a and a not in t.subterms(bv) and not any(x in accs for x in t.subterms(B)):
                    closed[loc] = init[loc]
                    final[loc] = ite(ex, subst(bv, {v: first}), init[loc])
                elif loc[0] == "v" and a not in set(t.subterms(upd[loc])) and a not in set(t.subterms(bv)):
                    closed[loc] = self.unk("value of an earlier iteration", upd[loc], init[loc], node=node)
                    final[loc] = ite(ex, subst(bv, {v: first}), subst(upd[loc], {v: sub(n, ONE)}))
                    if any(x in accs for x in t.subterms(final[loc])):
                        final[loc] = self.unk("loop with break", upd[loc], init[loc], node=node)
                else:
                    closed[loc] = self.unk("loop with break", upd[loc], init[loc], node=node)
                    final[loc] = self.unk("loop with break", upd[loc], bv, init[loc], node=node)
        else:
            closed, final = self.solve(ph, init, upd, n, v, node)
        sub_acc = {ph[loc]: closed[loc] for loc in ph}

        def close(x):
            if not isinstance(x, T):
                return x
            x = gen(x)
            return subst(x, sub_acc) if sub_acc else x

        for e in self.events[emark:]:
            e.map(close)
        # the state after the loop
        res = base.copy()
        for loc in ph:
            res.s[loc] = close(final[loc]) if not ctx.breaks else final[loc]
        qnew = []
        live = end
        for e in ends:
            for loc, val in e.s.items():
                if loc in ph:
                    continue
                if loc[0] in ("f", "#") and loc[1] >= obj0:
                    if loc not in res.s or e is end:
                        res.s[loc] = lam(v, close(val))
                elif loc[0] in ("fo", "#o") and loc not in base.s and (v.id in loc[1].vars or _has_new_ref(loc[1], obj0)):
                    tm = close(loc[1])
                    S = seqmap(n, lam(v, tm))
                    name = loc[2] if loc[0] == "fo" else "#"
                    ent = (name, S, lam(v, close(val)), TRUE)
                    if ent not in qnew:
                        qnew.append(ent)
                elif loc[0] == "v" and loc not in base.s and loc[1] <= self.next_frame:
                    if isinstance(val, T) and e is end and val.op != "lam":
                        x = close(val)
                        res.s[loc] = subst(x, {v: sub(n, ONE)})
                elif loc[0] == "f" and loc not in base.s:
                    res.s[loc] = subst(close(val), {v: sub(n, ONE)})
                elif loc[0] == "fq":
                    res.s[loc] = val
        for k in newids:
            o = self.objs.get(k)
            if o is not None:
                o.depth += 1
                if o.depth == 1:
                    o.domain = n
        # inner quantified writes
        for ent in end.q[len(base.q):]:
            S = close(ent[1])
            if v.id in S.vars:
                # flatten
                jv = fresh_var()
                S2 = seqflat(n, lam(v, S))
                qnew.append((ent[0], S2, lam(jv, raw("unk", "nested write", close(ent[2]))), TRUE))
            else:
                qnew.append((ent[0], S, close(ent[2]) if v.id not in close(ent[2]).vars else subst(close(ent[2]), {v: sub(n, ONE)}), close(ent[3]) if v.id not in close(ent[3]).vars else TRUE))
        if qnew:
            for name, S, l, g in qnew:
                # exact writes to elements of S are overwritten
                for loc in list(res.s):
                    if loc[0] == "fo" and loc[2] == name:
                        m = member(loc[1], S)
                        if m is not FALSE:
                            res.s[loc] = ite(m, inst(l, t.idx(S, loc[1])), res.s[loc])
                    elif loc[0] == "f" and loc[2] == name and loc[1] < obj0 and name != "#":
                        o = self.objs[loc[1]]
                        if (o.external or any(x.op == "ref" for x in t.subterms(S))) and o.depth == 0:
                            r = raw("ref", loc[1])
                            m = member(r, S)
                            if m is not FALSE:
                                res.s[loc] = ite(m, inst(l, t.idx(S, r)), res.s[loc])
                                res.s[("fq", loc[1], name)] = ONE
            res.q = base.q + tuple(qnew)
        # control flow
        ok = OR(end.pc, *[pc for pc, _ in ctx.breaks])
        exitc = close(NOT(ok))
        rets = fr.returns[rmark:]
        del fr.returns[rmark:]
        for pc, val, s in rets:
            pcl = close(pc)
            val = close(val)
            g = exists(n, lam(v, pcl))
            if v.id in val.vars:
                val = subst(val, {v: raw("first", n, lam(v, pcl))})
            rst = res.copy()
            # contents changed before leaving: effects of the state at the return
            rst.pc = AND(P, g)
            fr.returns.append((AND(P, g), val, rst))
        live = NOT(exists(n, lam(v, exitc)))
        res.pc = AND(P, live)
        self.st = res
        if not ctx.breaks:
            return FALSE
        if any(x.op == "acc" for x in t.subterms(ex)):
            return truth(self.unk("condition of a break", node=node))
        return ex

    _acc_count = 0

    def next_acc(self):
        Interp._acc_count += 1
        return Interp._acc_count

    def solve(self, ph, init, upd, n, v, node):
        """Closed forms of loop-carried locations: value at iteration v, value after n iterations."""
        accs = {a: loc for loc, a in ph.items()}
        closed, final = {}, {}
        pending = list(ph)
        m = {}
        progress = True
        while pending and progress:
            progress = False
            for loc in list(pending):
                a = ph[loc]
                u = subst(upd[loc], m) if m else upd[loc]
                used = {x for x in t.subterms(u) if x.op == "acc" and x in accs}
                if used - {a}:
                    continue
                r = self.solve1(a, init[loc], u, n, v, loc)
                if r is None:
                    continue
                closed[loc], final[loc] = r
                m[a] = r[0]
                pending.remove(loc)
                progress = True
        if pending:
            pend = sorted(pending, key=lambda l: list(ph).index(l))
            ups = [subst(upd[l], m) if m else upd[l] for l in pend]
            L = lam(v, raw("lit", *ups))
            for l in reversed(pend):
                L = lam(ph[l], L)
            inits = raw("lit", *[init[l] for l in pend])
            m2 = {}
            for k, l in enumerate(pend):
                closed[l] = raw("foldat", v, k, inits, L)
                final[l] = raw("foldat", n, k, inits, L)
                m2[ph[l]] = closed[l]
            for l in closed:
                if l not in pend:
                    closed[l] = subst(closed[l], m2)
                    final[l] = subst(final[l], m2)
        return closed, final

    def solve1(self, a, init, u, n, v, loc):
        free = lambda x: a not in set(t.subterms(x))
        if u is a:
            return init, init
        # pointwise function (field of indexed objects)
        if u.op == "lam" or init.op == "lam":
            if u.op != "lam":
                return None
            j = fresh_var("j")
            uj = inst(u, j)
            own = raw("ap", a, j)
            hit = t.eq(j, v)
            if hit.op != "ite":
                return None
            at = hit.a[0]
            x, y = t.restrict(uj, at, True), t.restrict(uj, at, False)
            x = subst(x, {own: inst(init, j) if init.op == "lam" else UNDEF})
            if y is own and free(x):
                e = subst(x, {v: j})
                o = self.objs.get(loc[1]) if loc[0] in ("f", "#") else None
                full = o is not None and o.domain is n
                fin = lam(j, e if full else ite(lt(j, n), e, inst(init, j) if init.op == "lam" else UNDEF))
                cl = lam(j, ite(lt(j, v), e, inst(init, j) if init.op == "lam" else UNDEF))
                return cl, fin
            return None
        if free(u):
            # overwritten in every iteration
            if loc[0] == "v" or True:
                prev = subst(u, {v: sub(v, ONE)})
                fin = subst(u, {v: sub(n, ONE)})
                return ite(eq(v, ZERO), init, prev), ite(eq(n, ZERO), init, fin) if not t.nonneg(sub(n, ONE)) else fin
        if u.op == "slice" and u.a[0] is a and (u.a[1], u.a[2]) in ((ONE, NONE), (NONE, C(-1))):
            front = u.a[1] is ONE
            cl = seqslice(init, v, NONE) if front else seqslice(init, ZERO, sub(length(init), v))
            return cl, raw("lit") if length(init) is n else seqslice(init, n, NONE) if front else seqslice(init, ZERO, sub(length(init), n))
        lv = t.leaves(u) if not is_bool(u) else [(TRUE, u)]
        if not is_bool(u) and any(x.op == "dput" for _, x in lv) and all(self._dbase(x) is a for _, x in lv):
            # entries read in the iteration that writes them: as before the loop, when no two iterations share a key
            for k in {x.a[1] for _, x in lv if x.op == "dput" and x.a[0] is a}:
                if k.op == "item" and k.a[1] is v and k.a[0].op in ("keys", "setof") and free(k):
                    u = subst(u, {raw("item", a, k): t.dget(init, k), raw("in", k, a): din(k, init)})
            lv = t.leaves(u)
        if not is_bool(u) and any(not free(c) for c, _ in lv):
            return None
        if is_bool(u):
            ta = raw("truthy", a)
            if ta in t.atoms_of(u):
                x, y = t.restrict(u, ta, True), t.restrict(u, ta, False)
                if free(x) and free(y):
                    if y is FALSE:
                        k = lambda m: AND(truth(init), NOT(exists(m, lam(v, NOT(x)))))
                        w = fresh_var()
                        return k_at(k, v, x, self, init, "all"), k(n)
                    if x is TRUE:
                        k = lambda m: OR(truth(init), exists(m, lam(v, y)))
                        return k_at(k, v, y, self, init, "any"), k(n)
            return None
        # conditional constant overwrite: flag variables
        keep = [c for c, x in lv if x is a]
        others = [(c, x) for c, x in lv if x is not a]
        if keep and all(free(x) and x.op == "c" for _, x in others) and len(others) == 1:
            c, k = others[0]
            w = fresh_var()
            return (ite(exists(v, lam(w, subst(c, {v: w}))), k, init), ite(exists(n, lam(v, c)), k, init))
        # sequences
        parts = [self._suffix(a, x) for _, x in lv]
        if all(p is not None for p in parts):
            ss = None
            if len(lv) == 2 and raw("lit") in parts:
                k = parts.index(raw("lit"))
                c, p = lv[1 - k][0], parts[1 - k]
                if p.op == "lit" and len(p.a) == 1:
                    mk = lambda m: seqfmap(m, lam(v, c), lam(v, p.a[0]))
                    ss = mk
            if ss is None and all(p.op == "lit" and len(p.a) == 1 for p in parts):
                e = parts[-1].a[0]
                for (c, _), p in zip(lv[:-1], parts[:-1]):
                    e = ite(c, p.a[0], e)
                ss = lambda m: seqmap(m, lam(v, e))
            if ss is None:
                e = parts[-1]
                for (c, _), p in zip(lv[:-1], parts[:-1]):
                    e = ite(c, p, e)
                ss = lambda m: seqflat(m, lam(v, e))
            if init.op in t.SEQ or init.op in ("sym", "attr", "item", "mcall") or True:
                w = fresh_var()
                fin = cat(init, ss(n))
                return cat(init, self._upto(ss, v)), fin
        # element updates
        if all(x is a or (x.op == "supd" and x.a[0] is a and x.a[1] is v) for _, x in lv):
            e = None
            for c, x in lv:
                val = item(init, v) if x is a else x.a[2]
                e = val if e is None else ite(c, val, e)
            if free(e):
                if length(init) is n:
                    j = fresh_var("j")
                    return (seqmap(n, lam(j, ite(lt(j, v), subst(e, {v: j}), item(init, j)))), seqmap(n, lam(v, e)))
        # grouping into lists
        if all(x is a or (x.op == "gadd" and x.a[0] is a) for _, x in lv) and len([x for _, x in lv if x is not a]) == 1:
            (c, x), = [(c, x) for c, x in lv if x is not a]
            k, val = x.a[1], x.a[2]
            if free(k) and free(val):
                def gb(m):
                    if c is TRUE:
                        return raw("gby", m, init, lam(v, raw("lit", k, val)))
                    F = seqfmap(m, lam(v, c), lam(v, v))
                    j = fresh_var()
                    fj = item(F, j)
                    return raw("gby", length(F), init, lam(j, raw("lit", subst(k, {v: fj}), subst(val, {v: fj}))))
                w = fresh_var()
                pre = raw("gby", v, init, lam(w, subst(raw("lit", k, val), {v: w}))) if c is TRUE else raw("dictprefix", v, gb(n))
                return pre, gb(n)
        # dictionaries
        if all(self._dbase(x) is a for _, x in lv):
            r = self._solve_dict(a, init, lv, n, v)
            if r is not None:
                return r
        # scalars
        ds = []
        for c, x in lv:
            p = t._poly(x)
            if p.get((a,), 0) == 1:
                q = dict(p)
                del q[(a,)]
                d = t._mk_poly(q)
                if free(d):
                    ds.append(("add", d))
                    continue
            if x.op == "mod" and free(x.a[1]):
                p = t._poly(x.a[0])
                if p.get((a,), 0) == 1:
                    q = dict(p)
                    del q[(a,)]
                    d = t._mk_poly(q)
                    if free(d):
                        ds.append(("mod", d, x.a[1]))
                        continue
            if x is INF and False:
                continue
            ds.append(None)
        if all(ds):
            kinds = {d[0] for d in ds}
            if kinds == {"add"} or (kinds == {"mod"} and len({d[2] for d in ds}) == 1):
                e = ds[-1][1]
                for (c, _), d in zip(lv[:-1], ds[:-1]):
                    e = ite(c, d[1], e)
                if t._is_str(init) or any(t._is_str(x) for _, x in lv):
                    return None
                tot = lambda m: add(init, t.seqsum(m, lam(v, e)))
                f2 = add(init, self._sum_upto(e, v))
                fin = tot(n)
                if kinds == {"mod"}:
                    M = ds[0][2]
                    return mod(f2, M), mod(fin, M)
                return f2, fin
        if len(lv) == 1:
            x = lv[0][1]
            red = None
            if x.op == "mod" and free(x.a[1]):
                red = x.a[1]
                x = x.a[0]
            p = t._poly(x)
            if len(p) == 1:
                (mono, c), = p.items()
                if mono.count(a) == 1:
                    rest = list(mono)
                    rest.remove(a)
                    k = t._mk_poly({tuple(rest): c})
                    if free(k) and v.id not in k.vars:
                        cl, fi = mul(init, power(k, v)), mul(init, power(k, n))
                        return (mod(cl, red), mod(fi, red)) if red is not None else (cl, fi)
            if x.op == "pow" and False:
                return None
        # strings / digests: sequence of parts
        if len(lv) == 1 and lv[0][1].op == "strcat" and lv[0][1].a[0] is a and all(free(x) for x in lv[0][1].a[1:]):
            rest = t.strcat(*lv[0][1].a[1:])
            return (t.strcat(init, raw("joined", v, lam(fresh_var(), rest))), t.strcat(init, raw("joined", n, lam(v, rest))))
        return None

    def _upto(self, ss, v):
        w = fresh_var()
        # the same sequence with the first v elements: rename the bound variable
        s = ss(raw("upto", 0))
        return subst(s, {raw("upto", 0): v})

    def _sum_upto(self, e, v):
        w = fresh_var()
        return t.seqsum(v, lam(w, subst(e, {v: w})))

    def _suffix(self, a, x):
        """s if x = a ++ s."""
        if x is a:
            return raw("lit")
        if x.op == "cat" and x.a[0] is a:
            r = cat(*x.a[1:])
            if a in set(t.subterms(r)):
                return None
            return r
        return None

    def _dbase(self, x):
        while x.op in ("dput", "dupd", "dputall"):
            x = x.a[1] if x.op == "dputall" else x.a[0]
        return x

    def _solve_dict(self, a, init, lv, n, v):
        chains = []
        for c, x in lv:
            puts = []
            y = x
            while y is not a:
                if y.op == "dput":
                    puts.append((y.a[1], y.a[2]))
                    y = y.a[0]
                elif y.op == "dupd" and t._lit_keys(y.a[1]) is not None:
                    return None
                else:
                    return None
            puts.reverse()
            if any(a in set(t.subterms(k)) or a in set(t.subterms(val)) for k, val in puts):
                return None
            chains.append((c, puts))
        if len(chains) == 1:
            puts = chains[0][1]
            fin, cl = init, init
            if len(puts) != 1:
                return None
            k, val = puts[0]
            if din(k, init) is TRUE and val is dget(init, k):
                return init, init
            w = fresh_var()
            fin = dputall(n, init, lam(v, raw("lit", k, val)))
            return raw("dputall", v, init, lam(w, subst(raw("lit", k, val), {v: w}))), fin
        if len(chains) == 2 and any(not p for _, p in chains):
            c, puts = [x for x in chains if x[1]][0]
            if len(puts) != 1:
                return None
            k, val = puts[0]
            if din(k, init) is TRUE and val is dget(init, k):
                return init, init
            w = fresh_var()

            def build(m):
                F = seqfmap(m, lam(v, c), lam(v, v))
                j = fresh_var()
                fj = item(F, j)
                return dputall(length(F), init, lam(j, raw("lit", subst(k, {v: fj}), subst(val, {v: fj}))))

            return raw("dictprefix", v, build(n)), build(n)
        # every leaf puts the same key
        if all(len(p) == 1 for _, p in chains) and len({p[0][0] for _, p in chains}) == 1:
            k = chains[0][1][0][0]
            val = chains[-1][1][0][1]
            for c, p in chains[:-1]:
                val = ite(c, p[0][1], val)
            w = fresh_var()
            return (raw("dputall", v, init, lam(w, subst(raw("lit", k, val), {v: w}))),
                    dputall(n, init, lam(v, raw("lit", k, val))))
        return None

    def trip_count(self, a, u, stay, init, accs):
        """Number of iterations of a loop that goes on while `stay` holds, as far as the location decides that."""
        # the elements of a sequence, one after the other
        if u.op == "slice" and u.a[0] is a and (u.a[1], u.a[2]) in ((ONE, NONE), (NONE, C(-1))):
            if AND(stay, t.eq0(length(a))) is FALSE:
                return length(init)
            return None
        if u.op in ("ref", "lit", "slice", "cat", "map", "setof", "dput", "fmap", "flat", "supd", "strcat"):
            return None
        d = sub(u, a)
        if d is not ONE and d is not C(-1):
            return None
        step = d.a[1]
        for atm in t.atoms_of(stay):
            if atm.op not in ("lt", "eq0", "eq"):
                continue
            q = t._poly(atm.a[0] if atm.op != "eq" else sub(*atm.a))
            k = q.pop((a,), 0)
            if k not in (1, -1):
                continue
            rest = t._mk_poly(q)
            if any(x in accs for x in t.subterms(rest)):
                continue
            for off in (0, 1, -1):
                stop = add(t.scale(-k, rest), C(off))
                if subst(stay, {a: stop}) is FALSE and subst(stay, {a: sub(stop, d)}) is not FALSE:
                    return sub(stop, init) if step == 1 else sub(init, stop)
        return None

    def unroll(self, n, limit):
        """Run a while loop that is known to end after a few iterations; the condition of leaving it by a break."""
        snap = self.snapshot()
        base = self.st
        self.st = base.copy()
        outs, breaks = [], []
        sym = 0
        for k in range(500):
            c = self.truth(self.eval(n.test))
            c = self.under(c) if c.op == "ite" else c
            out = self.st.copy()
            out.pc = AND(out.pc, NOT(c))
            if AND(self.total(), NOT(c)) is not FALSE:
                outs.append(out)
            self.st.pc = AND(self.st.pc, c)
            if self.dead() or self.total() is FALSE:
                self.st.pc = FALSE
                break
            open_ = c is not TRUE and AND(self.total(), NOT(c)) is not FALSE or k and breaks
            sym += 1 if open_ else 0
            if sym > limit or k == 499 or t.has_unknown(c) or (self.force is None and c is not TRUE and c is not FALSE):
                self.restore(snap)
                self.st = base
                return None
            broken = []
            self.region_once(lambda: self.exec_block(n.body), broken)
            if self.force is None and any(t.has_unknown(pc) for pc, _ in broken):
                self.restore(snap)
                self.st = base
                return None
            breaks += broken
            if self.dead():
                break
        res = self.st
        for st in outs:
            res = self.join(st.pc, st, res)
        self.st = res
        for pc, st in breaks:
            st.pc = pc
        return self.leave(breaks)

    def x_While(self, n):
        broke = self.unroll(n, 12)
        if broke is not None:
            self.loop_else(n, broke)
            return
        # a counter that runs up to a bound makes it a for loop
        v = fresh_var()
        snap = self.snapshot()
        base = self.st
        P = base.pc
        ph = {}
        obj0 = self.next_obj
        cond = None
        for attempt in range(6):
            if attempt:
                self.restore(snap)
            st = base.copy()
            for loc, a in ph.items():
                st.s[loc] = a
            st.pc = TRUE
            self.st = st
            self.pcstack.append(P)
            self.loops.append((v, raw("unk", "while", 0)))
            ctx = LoopCtx()
            self.loopctx.append(ctx)
            cond = self.truth(self.eval(n.test))
            stop = self.st.copy()
            self.st.pc = AND(self.st.pc, cond)
            if not self.dead():
                self.exec_block(n.body)
            self.loopctx.pop()
            self.loops.pop()
            self.pcstack.pop()
            end = self.st
            for pc, s in ctx.continues:
                end = self.join(pc, s, end)
            new = []
            for e in [end] + [s for _, s in ctx.breaks]:
                for loc, val in e.s.items():
                    if loc in ph or loc in new or loc[0] == "fq":
                        continue
                    if loc[0] in ("f", "#") and loc[1] >= obj0:
                        continue
                    b = base.s.get(loc)
                    if b is None and loc[0] == "v":
                        continue
                    if b is None:
                        b = self.default_loc(loc)
                    if val is not b:
                        new.append(loc)
            if not new:
                break
            for loc in new:
                ph[loc] = raw("acc", "w:" + str(loc[-1]), self.next_acc())
        accs = {a: loc for loc, a in ph.items()}
        stay = cond
        if cond is TRUE and ctx.breaks:
            # `while True` that is left before anything changed
            early = [pc for pc, bs in ctx.breaks if all(bs.s.get(l) is a for l, a in ph.items())]
            if early:
                stay = NOT(OR(*early))
        for loc, a in ph.items():
            u = end.s.get(loc)
            if u is None:
                continue
            count = self.trip_count(a, u, stay, base.s.get(loc, self.default_loc(loc)), accs)
            if count is None:
                continue
            self.restore(snap)
            self.st = base

            def body(_v):
                self.facts.append(lt(_v, count))
                c = self.truth(self.eval(n.test))
                self.branch(c, lambda: (self.exec_block(n.body), NONE)[1], lambda: (self.x_Break(n), NONE)[1])
                self.facts.pop()

            broke = self.sym_loop(count, body, n)
            self.loop_else(n, broke)
            return
        # general loop: loop-carried values stay as fixpoint nodes
        self.uid += 1
        k = self.uid
        m = {a: raw("mu", k, i) for i, a in enumerate(ph.values())}
        defs = {}
        for i, (loc, a) in enumerate(ph.items()):
            defs[i] = (loc, base.s.get(loc, self.default_loc(loc)), subst(end.s.get(loc, a), m))
        self.mus[k] = defs
        f = lambda x: subst(x, m) if isinstance(x, T) else x
        for e in self.events[snap[0]:]:
            e.map(f)
        fr = self.frames[-1]
        for i in range(snap[1][-1], len(fr.returns)):
            pc, val, s = fr.returns[i]
            s = State({a: f(b) for a, b in s.s.items()}, f(s.pc), s.q)
            fr.returns[i] = (AND(P, f(pc)), f(val), s)
            s.pc = AND(P, f(pc))
        outs = []
        s = State({a: f(b) for a, b in stop.s.items()}, AND(P, f(stop.pc), NOT(f(cond))), stop.q)
        res = s
        for pc, bs in ctx.breaks:
            bs = State({a: f(b) for a, b in bs.s.items()}, AND(P, f(pc)), bs.q)
            res = self.join(bs.pc, bs, res)
        self.st = res
        if n.orelse and not self.dead():
            self.exec_block(n.orelse)

    # ------------------------------------------------------------------ expressions

    def eval(self, n):
        self.steps += 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unk("expression " + type(n).__name__, node=n)
        return m(n)

    def e_Constant(self, n):
        if n.value is Ellipsis:
            return raw("ellipsis")
        return C(n.value)

    def e_Name(self, n):
        v = self.lookup(n.id, n)
        if v is UNDEF:
            self.event("unbound", None, n.id, [], {}, None, n)
            return raw("unk", "unbound", n.id)
        return v

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr, n)

    def e_NamedExpr(self, n):
        v = self.eval_kept(n.value)
        self.assign(n.target, v, n)
        return v

    def e_Tuple(self, n):
        return self.elements(n.elts, n)

    def elements(self, elts, n):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                parts.append(self.seq(self.eval(e.value), n))
            else:
                parts.append(raw("lit", self.eval(e)))
        return cat(*parts) if parts else raw("lit")

    def e_List(self, n):
        return self.new_list(self.elements(n.elts, n))

    def e_Set(self, n):
        s = self.elements(n.elts, n)
        r = self.new_obj("set")
        self.set_loc(("#", r.a[0]), setof(s))
        return r

    def e_Dict(self, n):
        d = t.DEMPTY
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = dupd(d, self.dcontent(self.eval(v)))
            else:
                kk = self.eval(k)
                d = dput(d, kk, self.eval(v))
        return self.new_dict(d)

    def dcontent(self, v):
        return self.content(v)

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        return self.branch(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v, n)
            if isand:
                return self.branch(c, lambda: go(vals[1:]), lambda: v)
            return self.branch(c, lambda: v, lambda: go(vals[1:]))

        r = go(n.values)
        return r

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return NOT(self.truth(v, n))
        if isinstance(n.op, ast.USub):
            return self.on_leaves(v, lambda x: self.user_op(x, "__neg__", [], n) or neg(x))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.on_leaves(v, lambda x: self.user_op(x, "__invert__", [], n) or sub(neg(x), ONE))
        return self.unk("unary", v, node=n)

    def user_op(self, x, name, args, n):
        """Operator defined by a program class."""
        c = self.cls_of(x)
        if c is None:
            s = self.sort_of(x)
            if s is not None:
                m = self.prog.lookup(s, name)
                if isinstance(m, Fn):
                    return self.call_fn(m, [x] + args, {}, n, me=x)
            return None
        m = self.prog.lookup(c, name)
        if isinstance(m, Fn):
            return self.call_fn(m, [x] + args, {}, n, me=x)
        if m is not None:
            f = self.class_attr_fn(m)
            if f is not None:
                return self.call_fn(f, [x] + args, {}, n, me=x)
            v = self.class_attr(m)
            if v.op == "fn":
                return self.call(v, [x] + args, {}, n)
        return None

    def class_attr_fn(self, m):
        """Class-level alias of a method (__rmul__ = __mul__)."""
        _, node, c = m
        if isinstance(node, ast.Name) and node.id in c.methods:
            return c.methods[node.id]
        return None

    def reflected(self, name, a, b, n):
        """The operation when the left operand has declined."""
        r = self.user_op(b, "__r%s__" % name, [a], n)
        if r is None:
            return self.no_operator(a, b, n)
        return self.on_leaves(r, lambda v: self.no_operator(a, b, n) if v is NOTIMPL else v) if has_leaf(r, NOTIMPL) else r

    def no_operator(self, a, b, n):
        for x in (a, b):
            if x.op == "unk" or self.cls_of(x) is None and self.sort_of(x) is None and not t.is_int(x) and x.op not in ("c", "ref"):
                return self.unk("operand", a, b, node=n)
        if not self.dead():
            self.raise_("TypeError", n)
        return self.unk("operand", a, b, node=n)

    OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Mod: "mod", ast.Pow: "pow", ast.FloorDiv: "floordiv",
           ast.Div: "truediv", ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift",
           ast.MatMult: "matmul"}

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n):
        if (a is NONE or b is NONE) and a.op not in ("ref", "unk", "ite") and b.op not in ("ref", "unk", "ite"):
            self.raise_("TypeError", n)
            return self.unk("operand", a, b, node=n)
        return self.on_leaves(a, lambda x: self.on_leaves(b, lambda y: self.binop1(op, x, y, n)))

    def is_seqval(self, v):
        if v.op == "ref":
            return self.obj(v).kind in ("list", "set", "tuple")
        return v.op in t.SEQ

    def binop1(self, op, a, b, n):
        name = self.OPS.get(type(op), "?")
        r = self.user_op(a, "__%s__" % name, [b], n)
        if r is not None and not has_leaf(r, NOTIMPL):
            return r
        if r is not None:
            return self.on_leaves(r, lambda v: self.reflected(name, a, b, n) if v is NOTIMPL else v)
        r = self.user_op(b, "__r%s__" % name, [a], n)
        if r is not None and not has_leaf(r, NOTIMPL):
            return r
        if r is not None:
            return self.on_leaves(r, lambda v: self.no_operator(a, b, n) if v is NOTIMPL else v)
        if a.op == "unk" or b.op == "unk":
            return self.unk("operand", a, b, node=n)
        if a.op == "c" and b.op == "c" and name not in ("add", "sub", "mul") and not (a.a[0] in ("bool",) and b.a[0] == "bool"):
            r = self.fold(name, a, b, n)
            if r is not None:
                return r
        if a.op == "c" and b.op == "c" and (a.a[0] in ("str", "bytes", "float") or b.a[0] in ("str", "bytes", "float")):
            r = self.fold(name, a, b, n)
            if r is not None:
                return r
        if is_bool(a) and name in ("add", "sub", "mul", "pow"):
            a = ite(a, ONE, ZERO)
        if is_bool(b) and name in ("add", "sub", "mul", "pow"):
            b = ite(b, ONE, ZERO)
        if name in ("or", "and", "sub", "xor") and (self.is_set(a) or self.is_set(b)) and not is_bool(a):
            from .externs import set_op
            return set_op(self, name, a, b, n)
        if name == "mul" and (a.op == "c" and a.a[0] in ("str", "bytes") or b.op == "c" and b.a[0] in ("str", "bytes")):
            return self.unk("repeated text", a, b, node=n)
        if name == "add":
            if self.is_seqval(a) or self.is_seqval(b):
                s = cat(self.seq(a, n), self.seq(b, n))
                if a.op == "ref" or b.op == "ref":
                    return self.new_list(s)
                return s
            return add(a, b)
        if name == "sub":
            if self.is_seqval(a):
                return self.unk("set difference", a, b, node=n)
            return sub(a, b)
        if name == "mul":
            if self.is_seqval(a) or self.is_seqval(b):
                s, k = (a, b) if self.is_seqval(a) else (b, a)
                c = self.seq(s, n)
                if c.op == "lit" and len(c.a) == 1 and not t.is_int(k):
                    v = fresh_var()
                    r = seqmap(k, lam(v, c.a[0]))
                elif c.op == "lit" and t.is_int(k) and k.a[1] < t.UNROLL:
                    r = raw("lit", *(list(c.a) * k.a[1]))
                elif c.op == "lit" and not c.a:
                    r = c
                else:
                    return self.unk("repeated sequence", c, k, node=n)
                return self.new_list(r) if s.op == "ref" else r
            return mul(a, b)
        if name == "mod":
            if a.op in ("c", "fmt", "strcat") and (a.op != "c" or a.a[0] in ("str", "bytes")):
                args = self.seq(b, n).a if b.op in t.SEQ else (b,)
                if a.op == "c":
                    r = pyfold.const_call(self, lambda f, *xs: f % xs, [a] + list(args), {}, n)
                    if r is not None:
                        return r
                    if a.a[0] == "str":
                        kw = {}
                        if b.op == "ref" and self.obj(b).kind == "dict":
                            ks = t._lit_keys(self.content(b)) or []
                            kw = {k.a[1]: dget(self.content(b), k) for k in ks if k.op == "c"}
                        r = pyfold.percent_text(self, a.a[1], list(args), kw, n)
                        if r is not None:
                            return r
                return raw("fmt", a, *[self.reify(x) for x in args if isinstance(x, T)])
            return mod(a, b)
        if name == "pow":
            return power(a, b)
        if name == "lshift":
            return mul(a, power(C(2), b))
        if name in ("or",) and (a.op == "ref" and self.obj(a).kind == "dict"):
            return self.new_dict(dupd(self.content(a), self.content(b)))
        if name in ("or", "and") and is_bool(a) and is_bool(b):
            return OR(a, b) if name == "or" else AND(a, b)
        if a.op == "c" and b.op == "c":
            try:
                import operator as o
                f = {"floordiv": o.floordiv, "rshift": o.rshift, "and": o.and_, "or": o.or_, "xor": o.xor, "truediv": o.truediv}[name]
                return C(f(a.a[1], b.a[1]))
            except Exception:
                pass
        return t.build("binop", name, a, b)

    def fold(self, name, a, b, n):
        import operator as o
        f = {"add": o.add, "sub": o.sub, "mul": o.mul, "mod": o.mod, "pow": o.pow, "floordiv": o.floordiv, "truediv": o.truediv, "or": o.or_,
             "and": o.and_, "xor": o.xor, "lshift": o.lshift, "rshift": o.rshift}.get(name)
        x, y = a.a[1], b.a[1]
        if f is None or x is None or y is None:
            return None
        if name in ("pow", "lshift") and (not isinstance(y, int) or abs(y) > 4096 or name == "pow" and y < 0) or (
                name == "mul" and isinstance(x, (str, bytes, int)) and isinstance(y, (str, bytes, int)) and (type(x) in (str, bytes) or type(y) in (str, bytes))
                and max(z for z in (x, y, 0) if isinstance(z, int)) > 4096):
            return None
        try:
            return C(f(x, y))
        except ZeroDivisionError:
            self.check(TRUE, "ZeroDivisionError", n)
            return NONE
        except TypeError:
            self.check(TRUE, "TypeError", n)
            return NONE
        except Exception:
            return None

    def e_Compare(self, n):
        left = self.eval(n.left)
        res = TRUE
        # chained comparisons evaluate once each
        vals = [left] + [self.eval(c) for c in n.comparators]
        for i, op in enumerate(n.ops):
            res = AND(res, self.compare(op, vals[i], vals[i + 1], n))
        return res

    def compare(self, op, a, b, n):
        r = self.on_leaves(a, lambda x: self.on_leaves(b, lambda y: self.compare1(op, x, y, n)))
        return truth(r)

    def compare1(self, op, a, b, n):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.same(a, b, n)
            return r if isinstance(op, ast.Is) else NOT(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, n)
            return r if isinstance(op, ast.Eq) else NOT(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, n)
            return r if isinstance(op, ast.In) else NOT(r)
        if self.is_set(a) and self.is_set(b) or a.op == "keys" and b.op == "keys":
            from .externs import subset
            if isinstance(op, (ast.Lt, ast.LtE)):
                r = subset(self, a, b, n)
                return AND(r, NOT(subset(self, b, a, n))) if isinstance(op, ast.Lt) else r
            r = subset(self, b, a, n)
            return AND(r, NOT(subset(self, a, b, n))) if isinstance(op, ast.Gt) else r
        if isinstance(op, ast.Lt):
            return self.less(a, b, n)
        if isinstance(op, ast.Gt):
            return self.less(b, a, n)
        if isinstance(op, ast.GtE):
            return NOT(self.less(a, b, n))
        if isinstance(op, ast.LtE):
            return NOT(self.less(b, a, n))
        return self.unk("comparison", a, b, node=n)

    def is_set(self, x):
        return x.op == "ref" and self.obj(x).kind == "set" or x.op in ("keys", "setof")

    def less(self, a, b, n):
        for x, y, name in ((a, b, "__lt__"), (b, a, "__gt__")):
            if x.op == "ref" and self.obj(x).kind == "inst":
                r = self.user_op(x, name, [y], n)
                if r is not None:
                    if r is NOTIMPL:
                        continue
                    if has_leaf(r, NOTIMPL):
                        return self.unk("comparison", a, b, node=n)
                    return self.truth(r)
        if any(x.op == "ref" and self.obj(x).kind == "inst" for x in (a, b)) and not self.dead():
            self.raise_("TypeError", n)
            return self.unk("operand", a, b, node=n)
        r = pyfold.order(self, a, b, n)
        if r is not None:
            return r
        if is_bool(a):
            a = ite(a, ONE, ZERO)
        if is_bool(b):
            b = ite(b, ONE, ZERO)
        return lt(a, b)

    def same(self, a, b, n):
        if a is NONE or b is NONE:
            return isnone(b if a is NONE else a)
        if a is b:
            return TRUE
        if a.op in ("fn", "cls", "extf", "c") and b.op in ("fn", "cls", "extf", "c"):
            if a.op == "c" and b.op == "c":
                return C(a.a[1] is b.a[1] or (a.a == b.a and a.a[0] in ("bool",)))
            return FALSE
        if a.op == "ref" and b.op == "ref":
            if a.a[0] != b.a[0]:
                return FALSE
            return AND(*[eq(x, y) for x, y in zip(a.a[1:], b.a[1:])])
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            x, k = (b, a) if a in (TRUE, FALSE) else (a, b)
            if is_bool(x):
                return x if k is TRUE else NOT(x)
        for x, y in ((a, b), (b, a)):
            if x.op == "ref" and not self.obj(x).external and (y.op == "c" or y in t.NUMS or y in t.POINTS):
                return FALSE
        x, y = sorted((a, b), key=lambda z: z.id)
        return atom("is", x, y)

    def equal(self, a, b, n):
        if a is NONE or b is NONE:
            return isnone(b if a is NONE else a)
        # user-defined equality
        for x, y in ((a, b), (b, a)):
            c = self.cls_of(x)
            if c is not None:
                m = self.prog.lookup(c, "__eq__")
                if isinstance(m, Fn):
                    if c.name == "Secret" and y.op == "ref" and self.cls_of(y) is c:
                        nx, ny = (self.st.s.get(("f", z.a[0], "name")) for z in (x, y))
                        if x is y or nx is not ny or nx is None or nx.op != "c":
                            break  # the names decide: see the rule on equality of secrets
                    r = self.call_fn(m, [x, y], {}, n, me=x)
                    if not has_leaf(r, NOTIMPL):
                        return truth(r)
                    if x is b or self.cls_of(b) is None or not isinstance(self.prog.lookup(self.cls_of(b), "__eq__"), Fn):
                        return truth(self.on_leaves(r, lambda v: self.same(a, b, n) if v is NOTIMPL else truth(v)))

                    def other(v):
                        if v is not NOTIMPL:
                            return truth(v)
                        r2 = self.call_fn(self.prog.lookup(self.cls_of(b), "__eq__"), [b, a], {}, n, me=b)
                        return truth(self.on_leaves(r2, lambda w: self.same(a, b, n) if w is NOTIMPL else truth(w)))

                    return truth(self.on_leaves(r, other))
                break
        if a.op == "ref" and b.op == "ref" and a.a[0] == b.a[0] and len(a.a) == 1:
            return TRUE
        ra, rb = a, b
        if a.op == "lit" and b.op == "lit" and any(x.op == "ref" for x in a.a + b.a):
            if len(a.a) != len(b.a):
                return FALSE
            return AND(*[truth(self.on_leaves(x, lambda u: self.on_leaves(y, lambda w: truth(self.equal(u, w, n))))) for x, y in zip(a.a, b.a)])
        if a.op == "ref" or b.op == "ref" or a.op in ("L", "D") or b.op in ("L", "D"):
            oa = self.obj(a) if a.op == "ref" else None
            ob = self.obj(b) if b.op == "ref" else None
            if oa is not None and oa.kind == "inst" and ob is not None and ob.kind == "inst":
                if oa.cls is not ob.cls:
                    return FALSE
                if oa.cls.is_attrs:
                    r = TRUE
                    for k in reversed(self.prog.mro(oa.cls)):
                        for f, _ in k.fields:
                            r = AND(r, self.equal(self.read_field(a, f), self.read_field(b, f), n))
                    return r
                if a.a[0] != b.a[0] and not (oa.external and ob.external):
                    return FALSE
                return eq(a, b)
            kinds = {"list": "L", "dict": "D"}
            if oa is not None and ob is not None and oa.kind == ob.kind == "dict":
                ca, cb = self.content(a), self.content(b)
                ka, kb = t._lit_keys(ca), t._lit_keys(cb)
                if ka is not None and kb is not None and all(t._key_eq(x, y) is not None for x in ka for y in kb):
                    if len(ka) != len(kb):
                        return FALSE
                    r = TRUE
                    for k in ka:
                        if din(k, cb) is not TRUE:
                            return FALSE
                        r = AND(r, truth(self.equal(dget(ca, k), dget(cb, k), n)))
                    return r
            if oa is not None and ob is not None and oa.kind != ob.kind and {oa.kind, ob.kind} <= {"list", "dict", "set"}:
                return FALSE
            if self.is_set(a) and self.is_set(b):
                xa, xb = pyfold.set_of(self, a), pyfold.set_of(self, b)
                if xa is not None and xb is not None and xa.op == "lit" and xb.op == "lit":
                    from .externs import subset
                    return AND(subset(self, a, b, n), subset(self, b, a, n))
            if oa is not None and ob is not None and oa.kind == ob.kind == "list":
                ca, cb = self.content(a), self.content(b)
                if ca.op == "lit" and cb.op == "lit":
                    if len(ca.a) != len(cb.a):
                        return FALSE
                    return AND(*[truth(self.on_leaves(x, lambda u: self.on_leaves(y, lambda w: truth(self.equal(u, w, n))))) for x, y in zip(ca.a, cb.a)])
            if oa is not None and oa.kind in kinds:
                ra = self.reify(self.content(a))
            if ob is not None and ob.kind in kinds:
                rb = self.reify(self.content(b))
            if oa is not None and oa.kind == "dict" and ra is t.DEMPTY or ob is not None and ob.kind == "dict" and rb is t.DEMPTY:
                x = rb if ra is t.DEMPTY else ra
                if x is t.DEMPTY:
                    return TRUE
                if x.op in ("dput",):
                    return FALSE
                return eq0(length(dkeys(x))) if False else t.build("eq", x, t.DEMPTY)
            if oa is not None and oa.kind == "list" and ra is raw("lit") and rb.op in t.SEQ:
                return t.eq0(length(rb))
            if ob is not None and ob.kind == "list" and rb is raw("lit") and ra.op in t.SEQ:
                return t.eq0(length(ra))
        return eq(ra, rb)

    def contains(self, x, s, n):
        if s.op == "ref":
            o = self.obj(s)
            if o.kind == "inst":
                r = self.user_op(s, "__contains__", [x], n)
                if r is not None:
                    return truth(r)
            if o.kind == "dict":
                return din(x, self.content(s))
            return self.seq_member(x, self.content(s), n)
        c = self.content(s)
        if c.op in t.SEQ:
            return self.seq_member(x, c, n)
        if c.op == "c" and x.op == "c":
            try:
                return C(x.a[1] in c.a[1])
            except Exception:
                pass
        return member(x, c)

    def seq_member(self, x, c, n):
        if c.op == "lit":
            r = FALSE
            for y in c.a:
                r = OR(r, truth(self.equal(x, y, n)))
            return r
        if c.op == "map" and x is NONE:
            v = fresh_var()
            return exists(c.a[0], lam(v, isnone(inst(c.a[1], v))))
        return member(x, c)

    def e_Subscript(self, n):
        b = self.eval(n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(n.slice.lower) if n.slice.lower is not None else NONE
            hi = self.eval(n.slice.upper) if n.slice.upper is not None else NONE
            step = self.eval(n.slice.step) if n.slice.step is not None else NONE

            def f(x):
                s = self.content(x) if x.op == "ref" else self.content(x)
                if s.op == "c" and s.a[0] in ("str", "bytes") and all(z is NONE or t.is_int(z) for z in (lo, hi, step)) and step is not ZERO:
                    return C(s.a[1][slice(*[None if z is NONE else z.a[1] for z in (lo, hi, step)])])
                if step is not NONE and step is not ONE:
                    if s.op == "lit" and all(z is NONE or t.is_int(z) for z in (lo, hi, step)) and step is not ZERO:
                        r = raw("lit", *s.a[slice(*[None if z is NONE else z.a[1] for z in (lo, hi, step)])])
                        return self.new_list(r) if x.op == "ref" else r
                    if step is C(-1) and lo is NONE and hi is NONE:
                        v = fresh_var()
                        r = seqmap(length(s), lam(v, item(s, sub(sub(length(s), ONE), v))))
                        return self.new_list(r) if x.op == "ref" else r
                    return self.unk("slice with step", s, node=n)
                if s.op in ("digest", "hexdigest", "enc", "str", "repr", "utf8", "strcat", "h2n", "randbytes", "conv", "fmt", "hex") or s.op == "rand" and t.tokens(s):
                    return t.build("cut", s, lo, hi)
                r = seqslice(s, lo, hi)
                return self.new_list(r) if x.op == "ref" and self.obj(x).kind == "list" else r

            return self.on_leaves(b, f)
        k = self.eval(n.slice)
        return self.item(b, k, n)

    def item(self, b, k, n):
        def f(x):
            if x.op == "ref":
                o = self.obj(x)
                if o.kind == "inst":
                    r = self.user_op(x, "__getitem__", [k], n)
                    return r if r is not None else self.unk("subscript of an object", x, k, node=n)
                c = self.content(x)
                if o.kind == "dict":
                    if o.default is not None:
                        return self.default_item(x, o, c, k, n)
                    return self.on_leaves(k, lambda kk: self.dict_item(c, kk, n))
                return self.seq_item(c, k, n)
            c = self.content(x)
            if x.op == "idict":
                from .externs import b_getattr
                return self.on_leaves(k, lambda kk: b_getattr(self, [x.a[0], kk], {}, n))
            if c.op in ("dput", "dputall", "dempty", "dupd", "dwithout"):
                return self.dict_item(c, k, n)
            return self.seq_item(c, k, n)

        return self.on_leaves(b, f)

    def dict_item(self, c, k, n):
        p = din(k, c)
        if p is not TRUE:
            self.check(NOT(p), "KeyError", n, [k])
            if self.dead():
                return NONE
        return dget(c, k)

    def seq_item(self, c, k, n):
        if is_bool(k):
            k = ite(k, ONE, ZERO)
        if c.op == "lit" and t.is_int(k) and not -len(c.a) <= k.a[1] < len(c.a):
            self.check(TRUE, "IndexError", n)
            return NONE
        if c.op == "c" and c.a[0] in ("str", "bytes") and t.is_int(k):
            try:
                return C(c.a[1][k.a[1]])
            except IndexError:
                self.check(TRUE, "IndexError", n)
                return NONE
        if c.op == "lit" and k.op == "c" and k.a[0] == "str":
            self.check(TRUE, "TypeError", n)
            return NONE
        if c.op == "lit" and k.op == "ite" and not is_bool(k):
            return self.on_leaves(k, lambda i: self.seq_item(c, i, n))
        if c.op == "lit" and not t.is_int(k) and 0 < len(c.a) <= 16 and k.op != "idx" and self.selects(k):
            # among few alternatives
            r = c.a[-1]
            for i in range(len(c.a) - 2, -1, -1):
                r = ite(eq(k, C(i)), c.a[i], r)
            return r
        return item(c, k)

    def selects(self, k):
        return k.op == "mod" and t.is_int(k.a[1]) or k.op == "binop" and k.a[0] == "and"

    def default_item(self, x, o, c, k, n):
        if c.op in ("gby", "gadd", "acc"):
            return t.gget(c, k)
        p = din(k, c)
        if p is TRUE or o.default not in ("list", "dict", "set", "int", "str", "fn", "tuple"):
            return dget(c, k)

        def fresh():
            if o.default == "fn":
                d = self.call(o.factory, [], {}, n)
            else:
                from .externs import call_ext
                d = call_ext(self, "builtins." + o.default, [], {}, n)
            self.set_content(x, dput(self.content(x), k, d))
            return d

        return self.branch(p, lambda: dget(c, k), fresh)

    def setitem(self, b, k, v, n):
        def f(x):
            o = self.obj(x) if x.op == "ref" else None
            c = self.content(x)
            if o is not None and o.kind == "inst":
                r = self.user_op(x, "__setitem__", [k, v], n)
                return NONE
            if o is not None and o.kind == "list" or (o is None and c.op in t.SEQ):
                if c.op == "lit" and t.is_int(k) and -len(c.a) <= k.a[1] < len(c.a):
                    i = k.a[1] % len(c.a)
                    self.set_content(x, raw("lit", *(c.a[:i] + (v,) + c.a[i + 1 :])))
                elif c.op == "map" and t.is_int(k):
                    w = fresh_var()
                    self.set_content(x, seqmap(c.a[0], lam(w, ite(eq(w, k), v, inst(c.a[1], w)))))
                else:
                    self.set_content(x, raw("supd", c, k, v))
                return NONE
            if x.op == "idict":
                from .externs import b_setattr
                b_setattr(self, [x.a[0], k, v], {}, n)
                return NONE
            self.event("setitem", x, "setitem", [k, v], {}, None, n)
            self.set_content(x, self.dput_(c, k, v))
            return NONE

        self.on_leaves(b, f)

    def dput_(self, c, k, v):
        return dput(c, k, v)

    def e_Starred(self, n):
        return self.eval(n.value)

    def e_Lambda(self, n):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            f.captured = True
            f = f.parent
        fn = Fn("<lambda>", n, fr.module, fr.cls)
        fn.local = True
        fn.defaults = self.eval_defaults(n.args)
        return self.fnval(fn, fr)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                spec = self.eval(v.format_spec) if v.format_spec is not None else C("")
                if spec.op == "c":
                    parts.append((x, {115: "s", 114: "r", 97: "a"}.get(v.conversion, ""), spec.a[1]))
                else:
                    parts.append((raw("fmt", self.reify(x), self.reify(spec)), "", ""))
        return pyfold.join_text(self, parts, n)

    def e_FormattedValue(self, n):
        return self.eval(n.value)

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        if self.yield_hook is not None and self.frames[-1].fn.node is self.yield_hook[0].node:
            return self.yield_hook[1](v)
        loc = ("v", self.frames[-1].fid, "$yield")
        self.st.s[loc] = cat(self.st.s[loc], raw("lit", v))
        return NONE

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        s = self.seq(v, n)
        loc = ("v", self.frames[-1].fid, "$yield")
        self.st.s[loc] = cat(self.st.s[loc], s)
        return NONE

    def e_Await(self, n):
        return self.eval(n.value)

    # ---- comprehensions

    def e_ListComp(self, n):
        return self.new_list(self.comp(n.generators, lambda: raw("lit", self.eval(n.elt)), n))

    def e_GeneratorExp(self, n):
        return self.comp(n.generators, lambda: raw("lit", self.eval(n.elt)), n)

    def e_SetComp(self, n):
        s = self.comp(n.generators, lambda: raw("lit", self.eval(n.elt)), n)
        r = self.new_obj("set")
        self.set_loc(("#", r.a[0]), setof(s))
        return r

    def e_DictComp(self, n):
        fr = self.frames[-1]
        self.uid += 1
        loc = ("v", fr.fid, "$dc%d" % self.uid)
        self.st.s[loc] = t.DEMPTY

        def put():
            k = self.eval(n.key)
            v = self.eval(n.value)
            self.st.s[loc] = dput(self.st.s[loc], k, v)

        self.run_gens(n.generators, put, n)
        d = self.st.s.pop(loc, t.DEMPTY)
        return self.new_dict(d)

    def known_long(self, e, n):
        """Is this expression, which has no effects, a sequence of known elements and more than n of them?"""
        if not all(isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Slice, ast.Constant, ast.Load, ast.UnaryOp, ast.USub)) for x in ast.walk(e)):
            return False
        s = self.under(self.eval(e))
        s = self.under(self.content(s)) if s.op == "ref" and self.obj(s).kind in ("list", "set") else s
        return s.op == "lit" and len(s.a) > n

    def comp(self, gens, elt, n):
        fr = self.frames[-1]
        self.uid += 1
        if len(gens) == 1 and gens[0].ifs and self.known_long(gens[0].iter, 12):
            # Elements with their conditions, instead of as many lists as there are ways to choose them.
            pc0, found = self.st.pc, []

            def keep():
                c = t.constrain(self.st.pc, pc0)
                found.append((c, elt()))

            self.run_gens(gens, keep, n)
            open_ = [c for c, _ in found if c is not TRUE]
            if any(x.op != "lit" or len(x.a) != 1 for _, x in found) or len(open_) <= 8:
                r = raw("lit")
                for c, x in found:
                    r = cat(r, ite(c, x, raw("lit")))
                return r
            v, w = fresh_var(), fresh_var()
            cs, xs = raw("lit", *[c for c, _ in found]), raw("lit", *[x.a[0] for _, x in found])
            return seqfmap(C(len(found)), lam(v, truth(item(cs, v))), lam(w, item(xs, w)))
        loc = ("v", fr.fid, "$lc%d" % self.uid)
        self.st.s[loc] = raw("lit")

        def put():
            x = elt()
            self.st.s[loc] = cat(self.st.s[loc], x)

        self.run_gens(gens, put, n)
        return self.st.s.pop(loc, raw("lit"))

    def run_gens(self, gens, put, n):
        fr = self.frames[-1]
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        saved = {k: self.st.s.get(("v", fr.fid, k)) for k in names}
        for k in names:
            self.st.s.pop(("v", fr.fid, k), None)
        self.loopctx.append(LoopCtx())

        def go(i):
            if i == len(gens):
                put()
                return
            g = gens[i]
            it = self.eval(g.iter)

            def body(x):
                self.assign(g.target, x, n)

                def conds(j):
                    if j == len(g.ifs):
                        go(i + 1)
                        return NONE
                    c = self.truth(self.eval(g.ifs[j]))
                    return self.branch(c, lambda: conds(j + 1), lambda: NONE)

                conds(0)

            self.on_leaves(it, lambda v: (self.for_each(self.seq(v, n), body, n), NONE)[1])

        go(0)
        self.loopctx.pop()
        for k in names:
            self.st.s.pop(("v", fr.fid, k), None)
            if saved[k] is not None:
                self.st.s[("v", fr.fid, k)] = saved[k]

    # ---- sequences of values

    def seq(self, v, n=None):
        """Sequence of the elements of an iterable value."""

        def f(v):
            if v.op == "ref":
                o = self.obj(v)
                c = self.content(v)
                if o.kind == "dict":
                    return dkeys(c)
                if o.kind == "iter":
                    self.set_content(v, raw("lit"))
                    return c
                if o.kind == "inst":
                    r = self.user_op(v, "__iter__", [], n)
                    if r is not None:
                        if r is v or r.op == "ref" and self.obj(r).kind == "inst" and isinstance(self.prog.lookup(self.obj(r).cls, "__next__"), Fn):
                            return self.drain(r, n)
                        return self.seq(r, n)
                    if isinstance(self.prog.lookup(o.cls, "__getitem__"), Fn):
                        return self.unk("iteration by subscripts", v, node=n)
                return c
            if v.op in t.SEQ:
                return v
            c = self.content(v)
            if c.op in ("dput", "dputall", "dupd", "dempty", "dwithout"):
                return dkeys(c)
            if c.op == "c" and c.a[0] in ("str", "bytes"):
                return raw("lit", *[C(x) for x in c.a[1]])
            if c.op == "L":
                return c.a[0]
            s = self.sorts.get(("dict", v))
            if s:
                return dkeys(c)
            return c

        v = self.under(v)
        if v.op == "ite" and not is_bool(v):
            if any(l.op == "ref" and self.obj(l).kind in ("iter", "inst") for _, l in t.leaves(v)):
                return self.on_leaves(v, f)
            return t.lift(f, v)
        return f(v)

    def drain(self, v, n):
        """The elements an object with a __next__ method delivers."""
        out = []
        for k in range(100):
            ctx = TryCtx(len(self.pcstack), ["StopIteration"])
            self.tries.append(ctx)
            st = self.st
            x = self.user_op(v, "__next__", [], n)
            self.tries.pop()
            if x is None:
                break
            caught = [c for c in ctx.caught if c[0] is not FALSE]
            if not caught:
                if self.dead():
                    return NONE
                out.append(x)
                continue
            if self.dead() and len(caught) == 1:
                rel, s, _, _ = caught[0]
                self.st = s.copy()
                self.st.pc = st.pc
                return raw("lit", *out)
            break
        return self.unk("elements of an iterator", v, node=n)

    # ---- calls

    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.prog.resolve("super", self.frames[-1].module) is None:
            fr = self.frames[-1]
            while fr is not None and fr.cls is None:
                fr = fr.parent
            f = fr
            while f is not None and f.me is None and f.parent is not None:
                f = f.parent
            me = f.me if f else None
            if n.args:
                me = self.eval(n.args[1])
                c0 = self.eval(n.args[0])
                after = self.prog.classes[c0.a[0]]
            else:
                after = fr.cls
            if me is None:
                return self.unk("super", node=n)
            c = self.cls_of(me)
            if c is None and me.op == "cls":
                c = self.prog.classes[me.a[0]]
            if c is None:
                c = self.sort_of(me) or after
            return raw("super", c.qual, after.qual, me)
        # defaultdict(list)[k].append(v)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add") and len(n.args) == 1:
            g = self.group_append(n)
            if g is not None:
                return g
        f = self.eval(n.func)
        if f.op == "extf" and f.a[0] in ("builtins.any", "builtins.all", "builtins.next") and n.args and not n.keywords:
            r = self.short_circuit(f.a[0][9:], n)
            if r is not None:
                return r
        ev = self.eval_kept if f.op in ("fn", "bound", "cls", "partial", "ite") else self.eval
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.seq(self.eval(a.value), n)
                if s.op == "lit":
                    args += list(s.a)
                else:
                    args.append(("*", s))
            else:
                args.append(ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.dcontent(self.eval(k.value))
                keys = t._lit_keys(d)
                if keys is not None and all(x.op == "c" for x in keys):
                    for x in keys:
                        kw[x.a[1]] = dget(d, x)
                else:
                    kw["**"] = d
            else:
                kw[k.arg] = ev(k.value)
        if self.dead():
            return NONE
        return self.call(f, args, kw, n)

    thunks = {}

    def short_circuit(self, name, n):
        """any, all and next on a generator whose elements do something: no element after the deciding one is computed."""
        g = n.args[0]
        if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id == "map" and len(g.args) == 2 and not g.keywords \
                and not any(isinstance(a, ast.Starred) for a in g.args) and self.lookup("map", g) is raw("extf", "builtins.map"):
            k = ("gen", g)
            if k not in self.thunks:
                x = ast.Call(g.args[0], [ast.Name("\0x", ast.Load())], [])
                c = ast.comprehension(ast.Name("\0x", ast.Store()), g.args[1], [], 0)
                self.thunks[k] = ast.fix_missing_locations(ast.copy_location(ast.GeneratorExp(x, [c]), g))
            g = self.thunks[k]
        if not isinstance(g, ast.GeneratorExp) or any(isinstance(x, ast.NamedExpr) for x in ast.walk(g)) or len(n.args) > 2:
            return None
        snap = self.snapshot()
        self.st = self.st.copy()
        long = False
        if any(c.ifs for c in g.generators):
            # As many lists as there are ways to choose elements, which the loop does not build.
            long = self.known_long(g.generators[0].iter, 8)
        r = None if long else self.eval(g)
        old, new = snap[6], self.st
        same = not long and len(self.events) == snap[0] and new.pc is old.pc and new.q == old.q and all(new.s.get(k) is v for k, v in old.s.items())
        same = same and [len(c.caught) for c in self.tries] == snap[7]
        self.restore(snap)
        if same:
            return None
        fr = self.frames[-1]
        k = (name, g, len(n.args))
        if k not in self.thunks:
            if name == "next":
                last = ast.Return(ast.Name("\0d", ast.Load())) if len(n.args) == 2 else ast.Raise(ast.Name("StopIteration", ast.Load()), None)
                body = [ast.Return(g.elt)]
            else:
                last = ast.Return(ast.Constant(name == "all"))
                test = ast.UnaryOp(ast.Not(), g.elt) if name == "all" else g.elt
                body = [ast.If(test, [ast.Return(ast.Constant(name == "any"))], [])]
            for c in reversed(g.generators):
                for i in reversed(c.ifs):
                    body = [ast.If(i, body, [])]
                body = [ast.For(c.target, c.iter, body, [])]
            a = ast.arguments([], [ast.arg("\0d")] if name == "next" and len(n.args) == 2 else [], None, [], [], None, [])
            d = ast.FunctionDef("<%s>" % name, a, body + [last], [])
            for x in ast.walk(d):
                if not hasattr(x, "lineno") and "lineno" in x._attributes:
                    ast.copy_location(x, g)
            self.thunks[k] = d
        fn = Fn("<%s>" % name, self.thunks[k], fr.module, fr.cls)
        fn.local = True
        fn.defaults = {}
        f = fr
        while f is not None:
            f.captured = True
            f = f.parent
        return self.call(self.fnval(fn, fr), [self.eval(n.args[1])] if len(n.args) == 2 else [], {}, n)

    def group_append(self, n):
        """d[k].append(x) for a dictionary of lists, d.setdefault(k, []).append(x)."""
        v = n.func.value
        if isinstance(v, ast.Subscript) and not isinstance(v.slice, ast.Slice):
            if not isinstance(v.value, (ast.Name, ast.Attribute)):
                return None
            base = self.eval(v.value)
            if base.op != "ref" or self.obj(base).kind != "dict" or self.obj(base).default is None:
                return None
            k = self.eval(v.slice)
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "setdefault" and len(v.args) == 2 \
                and isinstance(v.args[1], ast.List) and not v.args[1].elts:
            base = self.eval(v.func.value)
            if base.op != "ref" or self.obj(base).kind != "dict":
                return None
            k = self.eval(v.args[0])
        else:
            return None
        c = self.content(base)
        if c.op in ("dempty", "dput") and t._lit_keys(c) is not None and all(t._key_eq(k, y) is not None for y in t._lit_keys(c)):
            return None
        x = self.eval(n.args[0])
        self.set_content(base, raw("gadd", c, k, x))
        self.obj(base).default = self.obj(base).default or "list"
        return NONE


def mutable(node):
    return isinstance(node, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(node, ast.Call) and ast.unparse(node.func).split(".")[-1] in
        ("dict", "list", "set", "defaultdict", "OrderedDict", "WeakKeyDictionary", "WeakValueDictionary", "Counter", "deque", "count", "iter", "cycle"))


def touched_names(tree):
    """Global names that statements of a module other than their definition may change while it is imported."""
    out = set()
    count = {}
    for st in tree.body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            continue
        plain = isinstance(st, (ast.Assign, ast.AnnAssign)) and all(
            isinstance(x, ast.Name) for x in (st.targets if isinstance(st, ast.Assign) else [st.target]))
        for x in ast.walk(st):
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Store):
                    count[x.id] = count.get(x.id, 0) + 1
                elif not plain:
                    out.add(x.id)
    return out | {k for k, v in count.items() if v > 1}


def cached(d):
    return d.split("(")[0] in ("functools.lru_cache", "lru_cache", "functools.cache", "cache")


def transparent(d):
    """Decorators that are dealt with where the function is used."""
    return cached(d) or d.split("(")[0].split(".")[-1] in (
        "property", "staticmethod", "classmethod", "abstractmethod", "setter", "getter", "deleter", "cached_property", "contextmanager",
        "abstractproperty", "override", "final", "overload", "no_type_check", "abstractclassmethod", "abstractstaticmethod")


ITERATORS = {"builtins.iter", "builtins.zip", "builtins.map", "builtins.filter", "builtins.enumerate", "builtins.reversed",
             "itertools.chain", "itertools.chain.from_iterable", "itertools.starmap", "itertools.islice", "itertools.accumulate",
             "itertools.takewhile", "itertools.dropwhile", "itertools.product", "itertools.combinations", "itertools.permutations",
             "itertools.zip_longest", "itertools.compress", "itertools.filterfalse", "itertools.pairwise", "itertools.repeat",
             "itertools.count", "itertools.cycle", "itertools.groupby"}


def k_at(k, v, x, interp, init, kind):
    w = fresh_var()
    y = subst(x, {v: w})
    if kind == "all":
        return AND(truth(init), NOT(exists(v, lam(w, NOT(y)))))
    return OR(truth(init), exists(v, lam(w, y)))


def _has_new_ref(x, obj0):
    return any(y.op == "ref" and y.a[0] >= obj0 for y in t.subterms(x))


def _is_generator(node):
    r = getattr(node, "_zksa_gen", None)
    if r is None:
        r = node._zksa_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own(node))
    return r


def _own(node):
    """Nodes of a function without those of functions and classes defined in it."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(x))


def _local_names(node):
    """Names a function can bind."""
    r = getattr(node, "_zksa_names", None)
    if r is None:
        r = {"$yield"}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                r.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                r.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                r.add(x.name)
            elif isinstance(x, ast.alias):
                r.add(x.asname or x.name)
            elif isinstance(x, ast.arg):
                r.add(x.arg)
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                r.add(x.name)
        node._zksa_names = r
    return r
