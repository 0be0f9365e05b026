"""Failures surface: names exist, handlers do not swallow rejections, wrong inputs are refused (C20)."""

import builtins
import itertools
import re
import symtable

from .common import *
from .skeletons import *
from .protocol import MODES, REFUSED, ORDERS, adversary_of, adv, raised
from ..program import Cls

MODULE_NAMES = {"__name__", "__file__", "__doc__", "__package__", "__path__", "__builtins__", "__spec__", "__loader__", "__class__"}


# ---------------------------------------------------------------------------------------------
# names


def undefined_names(prog, m):
    """(name, scope) of the global names which a module uses and nothing defines."""
    top = symtable.symtable(m.source, m.path, "exec")
    defined = set(MODULE_NAMES)
    scopes = [top]
    allscopes = []
    while scopes:
        s = scopes.pop()
        allscopes.append(s)
        scopes += s.get_children()
    for y in top.get_symbols():
        if y.is_assigned() or y.is_imported() or y.is_namespace():
            defined.add(y.get_name())
    for s in allscopes:
        for y in s.get_symbols():
            if s is not top and y.is_declared_global() and y.is_assigned():
                defined.add(y.get_name())
    stars = [x for st in ast.walk(m.tree) if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names) for x in [st.module]]
    out = []
    for s in allscopes:
        for y in s.get_symbols():
            n = y.get_name()
            if not y.is_referenced() or n in defined or hasattr(builtins, n):
                continue
            if s is top and (y.is_assigned() or y.is_imported()):
                continue
            if s is not top and not y.is_global():
                continue
            if prog.resolve(n, m) is not None:
                continue
            if any(x not in prog.modules for x in stars) and not from_known_star(n, stars):
                continue
            out.append((n, s))
    return out


def from_known_star(n, stars):
    """The star imports are all of libraries whose names are known, and the name is not among them."""
    from ..program import STAR

    return all(x in STAR for x in stars) and n[:1].isupper()


@rule("C20", "every name that is used exists")
def names_exist(ck):
    prog = program()
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        bad = undefined_names(prog, m)
        for n, s in bad:
            lines = [x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == n]
            ck.bad("%s: name %s in %s exists" % (m.name, n, s.get_name()), "it is not defined, imported or built in",
                   "%s:%s" % (m.rel, ",".join(map(str, lines))))
        if not bad:
            ck.ok("%s: all global names exist" % m.name)
        miss = []
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom) and not x.level and x.module in prog.modules:
                for a in x.names:
                    if a.name != "*" and x.module + "." + a.name not in prog.modules and prog.resolve(a.name, prog.modules[x.module]) is None:
                        miss.append(("%s from %s" % (a.name, x.module), x.lineno))
            elif isinstance(x, ast.Attribute) and isinstance(x.value, (ast.Name, ast.Attribute)):
                try:
                    b = prog.resolve_expr(x.value, m)
                except RecursionError:
                    continue
                if b and b[0] == "mod" and b[1] in prog.modules and not shadowed(m, x.value):
                    if prog.resolve(x.attr, prog.modules[b[1]]) is None and b[1] + "." + x.attr not in prog.modules:
                        miss.append(("%s.%s" % (b[1], x.attr), x.lineno))
        for n, l in miss:
            ck.bad("%s: %s exists" % (m.name, n), "", "%s:%d" % (m.rel, l))
        if not miss:
            ck.ok("%s: everything taken from other modules exists" % m.name)


def shadowed(m, e):
    """The name is also a local variable somewhere."""
    while isinstance(e, ast.Attribute):
        e = e.value
    return any(isinstance(x, ast.arg) and x.arg == e.id or isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store)
               for x in ast.walk(m.tree))


def exception_class(prog, e, m):
    """True / False: the expression names an exception class / something else; None: cannot tell. And its name."""
    r = prog.resolve_expr(e, m)
    if r is None:
        if isinstance(e, ast.Name):
            b = getattr(builtins, e.id, None)
            if b is None:
                return None, e.id
            return isinstance(b, type) and issubclass(b, BaseException), e.id
        return None, ast.unparse(e)
    if r[0] == "cls":
        for b in prog.ext_bases(r[1]):
            x = getattr(builtins, str(b).split(".")[-1], None)
            if isinstance(x, type) and issubclass(x, BaseException):
                return True, r[1].name
        return False if not [b for b in prog.ext_bases(r[1]) if str(b) not in ("object",)] else None, r[1].name
    if r[0] == "fn":
        return None, r[1].name
    return None, ast.unparse(e)


def local_names(f):
    return {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
        {x.arg for x in ast.walk(f) if isinstance(x, ast.arg)} | {h.name for h in ast.walk(f) if isinstance(h, ast.ExceptHandler)}


@rule("C20", "what is raised is an exception, and what should be raised is")
def raises_are_exceptions(ck):
    prog = program()
    for f in sorted(prog.functions.values(), key=lambda f: f.qual):
        loc = local_names(f.node)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Raise) and x.exc is not None:
                e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                what = "%s: raise %s" % (f.qual, ast.unparse(e))
                where = "%s:%d" % (f.module.rel, x.lineno)
                if isinstance(e, ast.Name) and e.id in loc:
                    continue
                if isinstance(e, ast.Constant):
                    ck.bad(what + ": is an exception", "a constant", where)
                    continue
                k, n = exception_class(prog, e, f.module)
                if k is False:
                    ck.bad(what + ": is an exception", "%s is not an exception class" % n, where)
                elif k:
                    ck.ok(what + ": is an exception")
            elif isinstance(x, ast.Expr):
                y = x.value
                e = y.func if isinstance(y, ast.Call) else y
                if isinstance(e, (ast.Name, ast.Attribute)) and not (isinstance(e, ast.Name) and e.id in loc):
                    k, n = exception_class(prog, e, f.module)
                    if k and n != "Warning":
                        ck.bad("%s: %s is raised" % (f.qual, n), "it is only created", "%s:%d" % (f.module.rel, x.lineno))
            elif isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and f.cls is not None and STEPS.match(f.name):
                e = x.value.func
                if isinstance(e, (ast.Name, ast.Attribute)) and not (isinstance(e, ast.Name) and e.id in loc):
                    k, n = exception_class(prog, e, f.module)
                    if k:
                        ck.bad("%s: %s is raised" % (f.qual, n), "it is returned, which is true", "%s:%d" % (f.module.rel, x.lineno))
            elif isinstance(x, ast.Assert) and isinstance(x.test, ast.Tuple) and x.test.elts:
                ck.bad("%s: assertion" % f.qual, "a tuple is always true", "%s:%d" % (f.module.rel, x.lineno))


# ---------------------------------------------------------------------------------------------
# handlers


class Raises:
    """Exceptions that calls can raise explicitly: closure over the calls by name."""

    def __init__(self, prog):
        self.prog = prog
        self.by_name = {}
        for f in prog.functions.values():
            self.by_name.setdefault(f.name, []).append(f)
        self.memo = {}

    def targets(self, e, m):
        """Program functions a call or attribute access can reach."""
        if isinstance(e, ast.Name):
            r = self.prog.resolve(e.id, m)
            if r is None:
                return []
            if r[0] == "fn":
                return [r[1]]
            if r[0] == "cls":
                return [x for x in (self.prog.lookup(r[1], n) for n in ("__init__", "__new__", "__attrs_post_init__")) if isinstance(x, Fn)]
            if r[0] == "assign":
                return self.by_name.get("__call__", [])
            return []
        if isinstance(e, ast.Attribute):
            r = self.prog.resolve_expr(e, m)
            if r is not None and r[0] == "fn":
                return [r[1]]
            if r is not None and r[0] == "cls":
                return [x for x in (self.prog.lookup(r[1], n) for n in ("__init__", "__new__")) if isinstance(x, Fn)]
            if r is not None and r[0] in ("ext", "mod"):
                return []
            return self.by_name.get(e.attr, [])
        return []

    def calls(self, node, m):
        out = []
        for x in walk_code(node):
            if isinstance(x, ast.Call):
                out += self.targets(x.func, m)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                out += [f for f in self.by_name.get(x.attr, []) if "property" in f.decorators]
        return out

    def own(self, node, m):
        out = set()
        for x in walk_code(node):
            if isinstance(x, ast.Raise) and x.exc is not None:
                k, n = exception_class(self.prog, x.exc.func if isinstance(x.exc, ast.Call) else x.exc, m)
                if k:
                    out.add((n, "%s:%d" % (m.rel, x.lineno)))
        return out

    def of(self, nodes, m):
        """Exceptions of a statement list, with the places that raise them."""
        seen, todo, out = set(), [], set()
        for n in nodes:
            out |= self.own(n, m)
            todo += self.calls(n, m)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            for st in f.node.body:
                out |= self.own(st, f.module)
                todo += self.calls(st, f.module)
        return out


def walk_code(node):
    """Nodes of a statement, without those of functions defined in it."""
    yield node
    for c in ast.iter_child_nodes(node):
        if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            yield from walk_code(c)


def always_raises(body):
    if not body:
        return False
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.If) and always_raises(st.body) and always_raises(st.orelse):
            return True
        if isinstance(st, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(st, ast.With) and always_raises(st.body):
            return True
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in walk_code(st)):
            return False
    return False


STEPS = re.compile(r"^(full_)?validate|^check_(statement|responses)|^recompute_commitment$|^verify|^pre_verification|^process_precommitment$|^send_challenge$")


def steps(rs, body, m):
    """Steps of a verification that the code can reach."""
    seen, todo, out = set(), [f for n in body for f in rs.calls(n, m)], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if STEPS.match(f.name) and f.cls is not None:
            out.add(f.qual)
        todo += [x for st in f.node.body for x in rs.calls(st, f.module)]
    return out


def rejects(body):
    """Every way through ends by raising or by returning something false."""
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.Return):
            return isinstance(st.value, ast.Constant) and not st.value.value
        if isinstance(st, ast.If) and rejects(st.body) and rejects(st.orelse):
            return True
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in walk_code(st)):
            return False
    return False


PROVING = {"get_prover", "_try_get_subprover", "precommit", "_precommit", "commit", "internal_commit", "compute_response", "prove", "get_nizk_proof",
           "simulate", "simulate_proof", "simulate_precommit", "prepare_simulate_proof", "setup_simulations", "construct_stmt"}
MISSING_VALUES = {"ValueError", "IncompleteValuesError"}


def only_provers(try_body, m, rs):
    """The protected code only asks for provers."""
    fs = [f for n in try_body for f in rs.calls(n, m)]
    return fs and all(f.name == "get_prover" for f in fs)


@rule("C20", "no handler swallows a rejection or specification error")
def handlers(ck):
    prog = program()
    rs = Raises(prog)
    sc = ck.scn()
    n = 0
    for f in sorted(prog.functions.values(), key=lambda f: f.qual):
        for x in walk_code(f.node):
            found = []  # (handler, names, body, lineno)
            if isinstance(x, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                done = []
                for h in x.handlers:
                    found.append((h, handler_types(prog, h.type, f.module), x.body, h.lineno, always_raises(h.body), list(done)))
                    done += handler_types(prog, h.type, f.module)
                if x.finalbody and any(isinstance(y, (ast.Return, ast.Break, ast.Continue)) for st in x.finalbody for y in walk_code(st)):
                    found.append((x, [None], x.body + [s for h in x.handlers for s in h.body] + x.orelse, x.finalbody[0].lineno, False, []))
            elif isinstance(x, ast.With):
                for it in x.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call):
                        r = prog.resolve_expr(c.func, f.module)
                        if r and r[0] == "ext" and r[1] == "contextlib.suppress":
                            types = [t_ for a in c.args for t_ in handler_types(prog, a, f.module)]
                            found.append((x, types, x.body, x.lineno, False, []))
            for h, types, body, line, reraises, before in found:
                n += 1
                what = "%s: handler of %s lets the library's exceptions through" % (f.qual, ", ".join(str(y or "everything") for y in types))
                if reraises:
                    ck.ok(what, "raises again")
                    continue
                caught = {(e, w) for e, w in rs.of(body, f.module) if any(sc.I.exc_matches(e, y) for y in types)
                          and not any(sc.I.exc_matches(e, y) for y in before)}
                if caught and {e for e, _ in caught} <= MISSING_VALUES and set(types) <= MISSING_VALUES and only_provers(body, f.module, rs):
                    ck.ok(what, "missing values in the search for a clause that can be proven")
                elif caught:
                    e, w = sorted(caught)[0]
                    ck.bad(what, "%s raised at %s and %d others end here" % (e, w, len(caught) - 1), "%s:%d" % (f.module.rel, line))
                else:
                    ck.ok(what, "nothing the protected code raises is handled")
                part = steps(rs, body, f.module)
                if part and f.name not in PROVING:
                    what = "%s: a failure of a verification step (%s) ends the verification" % (f.qual, ", ".join(str(y or "everything") for y in types))
                    if isinstance(x, ast.Try) and h is not x and rejects(h.body):
                        ck.ok(what)
                    else:
                        ck.bad(what, "it goes on after a failure in %s" % sorted(part)[0], "%s:%d" % (f.module.rel, line))
    ck.ok("handlers examined: %d in %d functions" % (n, len(prog.functions)))


def handler_types(prog, e, m):
    if e is None:
        return [None]
    if isinstance(e, ast.Tuple):
        return [y for x in e.elts for y in handler_types(prog, x, m)]
    r = prog.resolve_expr(e, m)
    if r and r[0] == "assign" and isinstance(r[1], ast.Tuple):
        return [y for x in r[1].elts for y in handler_types(prog, x, r[2])]
    k, n = exception_class(prog, e, m)
    return [n.split(".")[-1]]


def library_exceptions(prog):
    return {c.name for c in prog.classes.values() if exception_class(prog, ast.Name(id=c.name, ctx=ast.Load()), c.module)[0]} | {"ValueError", "TypeError"}


# not how the library refuses
ODD = ("AttributeError", "NameError", "KeyError", "IndexError", "UnboundLocalError")


@rule("C20", "a rejection while verifying is not handled and passed over")
def surfaced(ck):
    prog = program()
    lib = library_exceptions(prog)

    def verdict(what, R, loc, refusal=False):
        sc = R.sc
        bad = None
        if refusal:
            es = [e for e in sc.events(kind="raise") if e.name in ODD]
            ck.add(REFUTED, what + ": with its own exception", "%s raised at %s" % (es[0].name, es[0].where), loc) if es else ck.ok(what + ": with its own exception")
        for e in sc.events(kind="caught"):
            if e.name in lib and AND(e.guard, sc.pc) is not FALSE:
                bad = e
        if bad is not None:
            ck.bad(what, "%s raised at %s is handled and passed over" % (bad.name, bad.where), loc)
        else:
            ck.ok(what)
        rets = [x for c, x in t.leaves(sc.r(R.ret)) if AND(c, sc.pc) is not FALSE] if hasattr(R, "ret") else []
        odd = [x for x in rets if x is NONE]
        if odd:
            ck.bad(what + ": verification returns whether it accepts", "it returns nothing", loc)

    for mode in MODES:
        loc = ck.at(*{"nizk": ("Verifier.verify_nizk", "ComposableProofStmt.verify"), "sigma": ("Verifier.verify", "Verifier.send_challenge")}[mode])
        for name in names(ck):
            with ck.part(name):
                verdict("%s: rejections of %s reach the caller" % (name, mode), adv(ck, name, mode), loc)
        for name, f in list(REFUSED.items()) + list(ORDERS.items()):
            with ck.part(name):
                verdict("%s: refusal of %s reaches the caller" % (name, mode), adversary_of(ck, f, mode), loc, True)
    for name, f in list(REFUSED.items()) + list(ORDERS.items()):
        with ck.part(name):
            for k in (0, 1):
                sc = ck.scn()
                sc.I.force = k
                s = Side(World(sc), True)
                s.count = 0
                sc.m(f(s).obj, "prove")
                R = Run()
                R.sc = sc
                verdict("%s: refusal when proving reaches the caller (choice %d)" % (name, k), R, ck.at("AndProver.internal_commit", "OrProver.internal_commit"), True)


# ---------------------------------------------------------------------------------------------
# wrong inputs


def refused(ck, what, f, loc, unless=None, names_=None):
    """Interpreting f fails (unless a condition holds)."""
    sc = ck.scn()
    r = f(sc)
    what += " refused"
    # points and numbers are no objects of the program's classes
    for at in t._all_atoms(sc.pc):
        if at.op == "isinst" and at.a[0].op == "sym":
            sc.I.st.pc = t.restrict(sc.pc, at, False)
    if sc.pc is FALSE:
        es = sc.events(kind="raise")
        if names_ and es and es[-1].name not in names_:
            return ck.bad(what, "with %s" % es[-1].name, loc)
        return ck.ok(what)
    if unless is not None and implies(sc.pc, unless):
        return ck.ok(what)
    if t.has_unknown(sc.pc) or isinstance(r, T) and t.has_unknown(sc.r(r)) and sc.pc is not TRUE:
        return ck.dunno(what, short(sc.pc))
    return ck.bad(what, "gives %s%s" % (short(sc.r(r), 120) if isinstance(r, T) else "a result", "" if sc.pc is TRUE else " when %s" % short(sc.pc, 120)), loc)


def accepted(ck, what, f, loc):
    sc = ck.scn()
    f(sc)
    what += " not refused"
    if sc.pc is TRUE:
        return ck.ok(what)
    if t.has_unknown(sc.pc):
        return ck.dunno(what, short(sc.pc))
    return ck.bad(what, "fails%s" % raised(sc), loc)


def some_expr(sc, n=1, tag="x"):
    return sc.term(*[(sc.secret("%s%d" % (tag, i)), sc.point("g%s%d" % (tag, i))) for i in range(n)])


WRONG = {
    "a point": lambda sc: sc.point("p"),
    "a number": lambda sc: sc.num("n"),
    "a constant": lambda sc: C(5),
    "None": lambda sc: NONE,
    "a string": lambda sc: C("x"),
    "a list": lambda sc: sc.list(),
    "a secret": lambda sc: sc.secret("q"),
    "a statement": lambda sc: sc.dlrep(sc.point("y"), (sc.secret("q"), sc.point("p"))),
    "an expression": lambda sc: some_expr(sc),
}


@rule("C20", "wrong parts of expressions are refused")
def expressions(ck):
    loc = ck.at("Expression.__init__", "Expression.__add__")
    for n, mk in WRONG.items():
        if n != "a secret":
            refused(ck, "Expression of %s in place of a secret" % n, lambda sc: sc.new("Expression", mk(sc), sc.point("g")), loc)
        if n != "an expression":
            for k in (1, 2, 3):
                refused(ck, "sum of an expression with %d terms and %s" % (k, n), lambda sc: sc.I.binop(ast.Add(), some_expr(sc, k), mk(sc), None), loc)
    loc = ck.at("wsum_secrets")
    for a, b in itertools.product(range(0, 6), repeat=2):
        f = lambda sc: sc.call(sc.F("zksk.expr", "wsum_secrets"), sc.list(*[sc.secret("s%d" % i) for i in range(a)]),
                               sc.list(*[sc.point("g%d" % i) for i in range(b)]))
        if a != b:
            refused(ck, "weighted sum of %d secrets and %d bases" % (a, b), f, loc)
        elif a:
            accepted(ck, "weighted sum of %d secrets and %d bases" % (a, b), f, loc)


@rule("C20", "wrong parts of representations are refused")
def representations(ck):
    loc = ck.at("DLRep.__init__")
    for n, mk in WRONG.items():
        if n not in ("an expression",):
            refused(ck, "representation by %s" % n, lambda sc: sc.new("DLRep", sc.point("y"), mk(sc)), loc)
    other = eq(sym("Grp"), sym("Grp2"))
    for n in (2, 3, 4, 5):
        for odd in range(n):
            for how in ("operator", "wsum_secrets"):
                def f(sc):
                    ss = [sc.secret("s%d" % i) for i in range(n)]
                    gs = [sc.point("g%d" % i, "Grp2" if i == odd else "Grp") for i in range(n)]
                    e = sc.term(*zip(ss, gs)) if how == "operator" else sc.call(sc.F("zksk.expr", "wsum_secrets"), sc.list(*ss), sc.list(*gs))
                    return sc.new("DLRep", sc.point("y"), e)
                refused(ck, "representation with %d bases, number %d of another group (%s)" % (n, odd, how), f, loc, unless=other)
        accepted(ck, "representation with %d bases of one group" % n, lambda sc: sc.new("DLRep", sc.point("y"), some_expr(sc, n)), loc)
        def f(sc):
            gs = [sc.point("g%d" % i, "Grp2" if i == 1 else "Grp") for i in range(n)]
            return sc.new("DLRep", sc.point("y"), sc.term(*[(sc.secret("s"), g) for g in gs]))
        refused(ck, "representation with one secret, %d bases of two groups" % n, f, loc, unless=other)
    for kind in (("G1", "G2"), ("G1", "GT"), ("G2", "GT")):
        for order in (0, 1):
            def f(sc):
                bp = sc.new("BilinearGroupPair", raw("call", "bplib.bp.BpGroup", C("#a")))
                gs = [sc.m(sc.get(bp, k), "generator") for k in kind[::-1 if order else 1]]
                return sc.new("DLRep", gs[0], sc.term(*zip([sc.secret("s0"), sc.secret("s1")], gs)))
            refused(ck, "representation with bases of %s and %s" % kind[::-1 if order else 1], f, loc)


@rule("C20", "wrong parts of compositions are refused")
def compositions(ck):
    for cls in ("AndProofStmt", "OrProofStmt"):
        loc = ck.at(cls + ".__init__")
        leaf = lambda sc, i: sc.dlrep(sc.point("y%d" % i), (sc.secret("x%d" % i), sc.point("g")))
        for n in range(6):
            f = lambda sc: sc.new(cls, *[leaf(sc, i) for i in range(n)])
            (refused if n < 2 else accepted)(ck, "%s of %d statements" % (cls, n), f, loc)
        loc = ck.at(cls + ".__init__", cls + ".get_verifier", cls + ".get_prover", cls + ".get_proof_id")
        for bad, mk in ((x, WRONG[x]) for x in ("None", "a secret", "an expression")):
            for n, pos in ((2, 0), (2, 1), (3, 0), (3, 2), (4, 1)):
                for use in ("get_verifier", "prehash_statement", "prove"):
                    def f(sc):
                        sc.I.force = n - 1 if pos == 0 else 0
                        return sc.m(sc.new(cls, *[mk(sc) if i == pos else leaf(sc, i) for i in range(n)]), use)
                    if cls == "AndProofStmt" or use != "prove":
                        refused(ck, "%s of %d parts, part %d being %s: %s" % (cls, n, pos, bad, use), f, loc)
    loc = ck.at("DLNotEqual.__init__")
    for a, b in itertools.product(range(0, 5), repeat=2):
        for kind in ("list", "tuple"):
            def f(sc):
                mk = (lambda xs: sc.list(*xs)) if kind == "list" else (lambda xs: raw("lit", *xs))
                return sc.new("DLNotEqual", mk([sc.point("a%d" % i) for i in range(a)]), mk([sc.point("b%d" % i) for i in range(b)]), sc.secret("x"))
            (refused if (a, b) != (2, 2) else accepted)(ck, "inequality of %ss of %d and %d points" % (kind, a, b), f, loc)


@rule("C20", "weighted sums of different lengths are refused")
def weighted(ck):
    for kind, grp in (("G1", "G1Group"), ("G2", "G2Group"), ("GT", "GTGroup")):
        loc = ck.at(grp + ".wsum")
        for a, b in itertools.product(range(0, 5), repeat=2):
            def f(sc):
                bp = sc.new("BilinearGroupPair", raw("call", "bplib.bp.BpGroup", C("#a")))
                g = sc.get(bp, kind)
                p = sc.m(g, "generator")
                return sc.m(g, "wsum", sc.list(*[sc.num("w%d" % i) for i in range(a)]), sc.list(*[p] * b))
            (refused if a != b else accepted)(ck, "%s: weighted sum of %d weights and %d points" % (kind, a, b), f, loc)


@rule("C20", "values that are missing are reported")
def missing(ck):
    for n in (2, 3, 4):
        for k in range(n):
            for late in (False, True):
                sc = ck.scn()
                s = Side(World(sc), True)
                xs = [s.dlu("U%d" % i, ("u%d" % i, "g")) if i == k else s.dl(("x%d" % i, "g")) for i in range(n)]
                o = s.all(*xs).obj
                d = sc.dict()
                for i in range(n):
                    if late and i != k:
                        sc.I.setitem(d, s.s("x%d" % i), s.w.v("x%d" % i), None)
                sc.m(o, "get_prover", d)
                what = "prover of a conjunction of %d, secret of part %d unknown%s, refused" % (n, k, ", others given" if late else "")
                if sc.pc is FALSE:
                    ck.ok(what)
                elif t.has_unknown(sc.pc):
                    ck.dunno(what, short(sc.pc))
                else:
                    ck.bad(what, "when %s" % short(sc.pc), ck.at("AndProofStmt.get_prover"))
    # proving without values fails
    for name in names(ck, pick=lambda n: "schnorr" not in n and "range" not in n and "[" not in n and "bit" not in n):
        with ck.part(name):
            sc = ck.scn()
            sc.I.force = 0
            w = World(sc)
            o = build(sc, w, name, False)
            sc.m(o.obj, "prove")
            what = "%s: proving without any values fails" % name
            if sc.pc is FALSE:
                ck.ok(what)
            elif t.has_unknown(sc.pc):
                # the call of a method of None
                ck.ok(what) if no_prover(sc) else ck.dunno(what, short(sc.pc))
            elif no_prover(sc):
                ck.ok(what)
            else:
                ck.bad(what, "it ends normally", ck.at("ComposableProofStmt.prove"))


def no_prover(sc):
    return any(e.kind in ("attrerror", "mcall") and (e.recv is NONE) for e in sc.I.events)


@rule("C20", "a proof of something else is refused by the documented exception")
def other_statement(ck):
    for name in names(ck, heavy=False, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            for what, h in (("another hash", lambda d: sym("other")), ("no hash", lambda d: NONE), ("an empty hash", lambda d: C(b""))):
                sc = ck.scn()
                w = World(sc)
                o = SKELETONS[name][0](Side(w, False))
                v = sc.m(o.obj, "get_verifier")
                sc.m(v, "process_precommitment", o.pre())
                digest = sc.r(sc.m(sc.m(o.obj, "prehash_statement"), "digest"))
                x = h(digest)
                assume(sc, NOT(eq(x, digest)))
                mark = len(sc.I.events)
                sc.m(o.obj, "check_statement", x)
                title = "%s: %s refused" % (name, what)
                kinds = {e.name for e in sc.I.events[mark:] if e.kind == "raise"}
                if t.has_unknown(sc.pc):
                    ck.dunno(title, short(sc.pc))
                elif sc.pc is not FALSE:
                    ck.bad(title, "accepted when %s" % short(sc.pc), ck.at("ComposableProofStmt.check_statement"))
                elif "StatementMismatch" not in str(kinds):
                    ck.bad(title, "raises %s" % ", ".join(sorted(map(str, kinds))), ck.at("ComposableProofStmt.check_statement"))
                else:
                    ck.ok(title)


# ---------------------------------------------------------------------------------------------
# unfinished specifications


@rule("C20", "statements whose specification is incomplete are refused")
def incomplete(ck):
    from . import userprims as u

    def leaf(sc, n="x"):
        return sc.dlrep(sc.point("y" + n), (sc.secret(n, sc.num(n + "_v")), sc.point("g")))

    def made(sc, kind):
        u.use(sc)
        x = sc.secret("q", sc.num("q_v"))
        if kind == "no secrets":
            return sc.new("NoSecrets", sc.list(sc.point("g")))
        if kind == "no bases":
            return sc.new("NoBases", sc.list(x))
        if kind == "no classes":
            return sc.new("NoClasses", sc.point("y"), sc.point("g"), x)
        return sc.new("Unsimulatable", sc.point("y"), sc.point("g"), x)

    loc = ck.at("ComposableProofStmt.get_secret_vars", "ComposableProofStmt.get_bases")
    spec = ("StatementSpecError", "TypeError", "ValueError", "NotImplementedError")
    refused(ck, "secrets of a statement which defines none", lambda sc: sc.m(made(sc, "no secrets"), "get_secret_vars"), loc, names_=spec)
    refused(ck, "bases of a statement which defines none", lambda sc: sc.m(made(sc, "no bases"), "get_bases"), loc, names_=spec)
    for kind in ("no secrets", "no bases"):
        refused(ck, "identity of a statement with %s" % kind, lambda sc: sc.m(made(sc, kind), "get_proof_id"), loc)
        for cls in ("AndProofStmt", "OrProofStmt"):
            for order in (0, 1):
                def f(sc, what):
                    xs = [leaf(sc), made(sc, kind)]
                    return sc.m(sc.new(cls, *(xs[::-1] if order else xs)), what)
                for what in ("get_secret_vars", "get_bases"):
                    if (what == "get_bases") == (kind == "no bases"):
                        refused(ck, "%s of %s %s a statement with %s" % (what, cls, "starting with" if order else "with", kind), lambda sc: f(sc, what), loc)
                refused(ck, "identity of %s %s a statement with %s" % (cls, "starting with" if order else "with", kind), lambda sc: f(sc, "prehash_statement"), loc)
    loc = ck.at("ComposableProofStmt.get_prover_cls", "ComposableProofStmt.get_verifier_cls")
    for m_ in ("get_prover_cls", "get_verifier_cls", "get_prover", "get_verifier", "prove"):
        refused(ck, "%s of a statement without prover and verifier" % m_, lambda sc: sc.m(made(sc, "no classes"), m_), loc, names_=spec)
    # no simulation of precommitments
    loc = ck.at("ExtendedProofStmt.simulate_precommit")
    refused(ck, "simulation of a primitive which cannot simulate its precommitment", lambda sc: sc.m(made(sc, "unsim"), "simulate"), loc, names_=spec)
    for n in (2, 3, 4):
        for i in range(n):
            for how in ("simulate", "prove"):
                def f(sc):
                    sc.I.force = (i + 1) % n
                    xs = [made(sc, "unsim") if j == i else leaf(sc, "x%d" % j) for j in range(n)]
                    o = sc.new("OrProofStmt", *xs)
                    return sc.m(o, how)
                refused(ck, "%s: disjunction of %d with clause %d, not simulatable, to be simulated" % (how, n, i), f, loc)
            refused(ck, "simulation of a conjunction of %d with part %d not simulatable" % (n, i),
                    lambda sc: sc.m(sc.new("AndProofStmt", *[made(sc, "unsim") if j == i else leaf(sc, "x%d" % j) for j in range(n)]), "simulate"), loc)

    # order of the steps
    def ext(sc, kind):
        s = Side(World(sc), True)
        s.count = 0
        if kind == "inequality":
            return s.neq("x", "g", "h", "Y", True).obj
        if kind == "range":
            return s.range2(2, bits=2).obj
        if kind == "signature":
            return s.bbs(["m0"]).obj
        if kind == "user's primitive":
            return u.committed(s, "x").obj
        if kind == "conjunction":
            return s.all(s.dl(("x", "g")), s.neq("x", "g", "h", "Y", True)).obj
        return s.any(s.neq("x", "g", "h", "Y", True), s.dl(("z", "g"))).obj

    loc = ck.at("ExtendedProofStmt.get_proof_id", "ExtendedProver.internal_commit")
    for kind in ("inequality", "range", "signature", "user's primitive", "conjunction", "disjunction"):
        refused(ck, "identity of %s before its precommitment is known" % kind, lambda sc: sc.m(ext(sc, kind), "prehash_statement"), loc)

        def commit(sc, what):
            sc.I.force = 0
            return sc.m(sc.m(ext(sc, kind), "get_prover"), what)
        refused(ck, "commitment of %s before its precommitment" % kind, lambda sc: commit(sc, "commit"), loc)
        if kind not in ("conjunction", "disjunction"):
            refused(ck, "internal commitment of %s before its precommitment" % kind, lambda sc: commit(sc, "internal_commit"), loc, names_=spec)

        def verify(sc):
            v = sc.m(ext(sc, kind), "get_verifier")
            sc.m(v, "send_challenge", raw("lit", sym("sh"), sym("com")))
            return sc.m(v, "verify", sym("resp"))
        refused(ck, "verification of %s without its precommitment" % kind, verify, loc)
    # signatures
    loc = ck.at("BBSPlusSignatureStmt.precommit", "UserCommitment.verify_blinding")

    def unsigned(sc):
        s = Side(World(sc), True)
        s.count = 0
        return s.bbs(["m0"], known=False).obj
    refused(ck, "precommitment of a signature proof without a signature", lambda sc: sc.m(unsigned(sc), "precommit"), loc)
