"""Scenario building blocks shared by the rules."""

from ..core import *


def linear(sc, S="S", B="B"):
    """An expression x_0 G_0 + ... + x_{n-1} G_{n-1} of arbitrary length over symbolic sequences."""
    I = sc.I
    S, B = sym(S), sym(B)
    sc.sort(S, "Secret")
    t.POINTS.add(B)
    t.LEN_EQ[raw("len", S)] = raw("len", B)
    s = I.lazy("Secret", "s?")
    b = sym("b?")
    e = sc.new("Expression", s, b)
    I.st.s.pop(("f", s.a[0], "value"), None)
    n = raw("len", B)
    done = 0
    for loc, val in list(I.st.s.items()):
        if loc[0] != "f" or loc[1] != e.a[0]:
            continue
        c = I.content(val) if val.op == "ref" else val
        if c.op == "lit" and len(c.a) == 1:
            v = fresh_var()
            seq = seqmap(n, lam(v, subst(I.reify(c.a[0]), {s: item(S, v), b: item(B, v)})))
            done += 1
            I.st.s[loc] = I.new_list(seq) if val.op == "ref" else seq
        elif any(x is s or x is b for x in t.subterms(I.reify(val))):
            raise AnalysisBroken("shape of Expression")
    if not done:
        raise AnalysisBroken("shape of Expression")
    return e, S, B, n


def dlrep_n(sc, lhs=None):
    """DLRep over an expression of arbitrary length."""
    e, S, B, n = linear(sc)
    lhs = lhs or sc.point("lhs")
    d = sc.new("DLRep", lhs, e)
    return d, lhs, S, B, n


def secret_value(S, i, vals):
    """Value of a secret: the given one, else the one it carries."""
    x = item(S, i)
    return ite(din(x, vals), dget(vals, x), raw("attr", x, "value"))


def parts(sc, name="P", cls="ComposableProofStmt"):
    """A sequence of arbitrarily many arbitrary statements."""
    P = sym(name)
    sc.sort(P, cls)
    return P


def compose(sc, cname, P):
    return sc.I.call(sc.K(cname), [("*", P)], {})


def instances(v):
    """(condition, object) of the non-None leaves of a value."""
    return [(c, x) for c, x in t.leaves(v) if x is not NONE]


def assume(sc, cond):
    sc.I.st.pc = AND(sc.I.st.pc, cond)


def prover_of(sc, stmt, vals=None):
    """The prover of a statement, under the condition that there is one."""
    p = sc.m(stmt, "get_prover", *([vals] if vals is not None else []))
    ls = instances(p)
    if not ls:
        return None, FALSE
    if len(ls) == 1:
        c, x = ls[0]
        assume(sc, c)
        return x, c
    raise AnalysisBroken("more than one kind of prover")


def raises(sc):
    """Exceptions raised so far, (condition, name)."""
    return [(e.guard, e.name, e.where) for e in sc.events(kind="raise")]


def each(ck, what, seq, n, pred, where="", under=TRUE):
    """seq has length n and its i-th element satisfies pred(i, element); pred returns True or a complaint."""
    seq = content(seq)
    if t.has_unknown(seq):
        return ck.dunno(what, short(seq))
    ln = length(seq)
    if ln is not n and not implies(under, eq(ln, n)):
        d = model.differ(ln, n)
        if d is not False:
            return (ck.bad if d else ck.dunno)(what, "length %s instead of %s" % (short(ln), short(n)), where)
    i = fresh_var()
    x = item(seq, i)
    bad = []
    for c, leaf in t.leaves(x):
        if AND(c, under) is FALSE:
            continue
        r = pred(i, leaf) if pred.__code__.co_argcount == 2 else pred(i, leaf, c)
        if r is not True:
            bad.append("%s (%s)" % (short(leaf), r))
    if bad:
        if t.has_unknown(x):
            return ck.dunno(what, bad[0])
        return ck.bad(what, "element i is %s" % "; ".join(bad), where)
    return ck.ok(what, "element i: %s" % short(x, 150))


def content(x):
    return x.a[-1] if x.op in ("L", "D") else x


def opaque(x, name, recv=None, args=None):
    """Complaint unless x is the result of calling `name` (on recv, with args) up to copies."""
    x = strip_occ(x)
    if not is_call(x, name):
        return "not a result of %s" % name
    if recv is not None:
        r = recv(x.a[0]) if callable(recv) else (x.a[0] is recv or "called on %s" % short(x.a[0], 120))
        if r is not True:
            return r
    if args is not None:
        got = call_args(x)
        for k, a in enumerate(args):
            if a is None:
                continue
            if k >= len(got):
                return "argument %d missing" % k
            if callable(a):
                r = a(got[k])
                if r is not True:
                    return r
            elif got[k] is not a:
                return "argument %d is %s" % (k, short(got[k], 120))
    return True


def from_(name, recv):
    """Receiver that itself is the result of calling `name` on recv."""
    return lambda x: opaque(x, name, recv)


def at(P):
    """Element i of P up to copies."""
    return lambda i: item(P, i)


def find_calls(x, name):
    return [y for y in t.subterms(x) if is_call(y, name)]


def part_prover(P, i):
    return from_("get_prover", item(P, i))


def part_verifier(P, i):
    return from_("get_verifier", item(P, i))


def events_on(sc, name, since=0):
    return [e for e in sc.I.events[since:] if e.kind == "mcall" and e.name == name]


def covers(ck, what, sc, acc, name, n, recv, args=None, since=0, swallow=True, where=""):
    """
    Whenever acc holds, `name` was called for every i < n on an object satisfying recv(i, receiver),
    outside of any handler that could swallow its exception.
    """
    es = events_on(sc, name, since)
    why = "no call of %s" % name
    for e in es:
        rc = strip_occ(sc.r(e.recv)) if isinstance(e.recv, T) else None
        if rc is None:
            continue
        for i, cover, g in iterations(e, n):
            r = recv(i, strip_occ(subst(rc, cover)))
            if r is not True:
                why = r
                continue
            if args is not None:
                r = args(i, [strip_occ(subst(a, cover)) for a in e.rargs], e)
                if r is not True:
                    why = r
                    continue
            if any(getattr(c, "swallow", False) for c in e.tries):
                why = "its exceptions are suppressed at %s" % e.where
                continue
            if not implies(AND(acc, lt(i, n)), subst(g, cover)):
                if t.has_unknown(g) or t.has_unknown(acc):
                    why = None
                    continue
                why = "only called if %s (at %s)" % (short(g), e.where)
                continue
            return ck.ok(what, e.where)
    if why is None:
        return ck.dunno(what)
    return ck.bad(what, why, where)


def iterations(e, n):
    """Ways the quantified variables of an event range over 0..n-1: (index, substitution, guard)."""
    qs = e.quants
    if not qs:
        if t.is_int(n) and n.a[1] == 1:
            yield ZERO, {}, e.guard
        return
    v, m = qs[-1]
    i = fresh_var()
    if m is n:
        yield i, {v: i}, subst(e.guard, {v: i})
    elif m.op == "poly":
        d = sub(n, m)
        if t.is_int(d):
            yield i, {v: i}, subst(e.guard, {v: i})
