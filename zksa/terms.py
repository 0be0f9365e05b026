"""
Hash-consed value terms with canonical forms.

Conditions are kept as ordered decision diagrams over atoms, conditional values as decision diagrams
with value leaves, arithmetic as polynomials over atoms, sequences as index maps, and loops as
binders.  Two program fragments that compute the same value in different styles (comprehension or
loop, early return or nesting, helper or inline code, reordered sums) get the same term.
"""

import sys

sys.setrecursionlimit(20000)

UNROLL = 160  # sequences of at most this known length are treated element by element


class T:
    __slots__ = ("op", "a", "id", "h", "vars", "_key")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def raw(op, *a):
    key = (op,) + tuple((x.id if isinstance(x, T) else (type(x).__name__, x)) for x in a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _count[0] += 1
        t.id = _count[0]
        h = 0
        vs = frozenset()
        for x in a:
            if isinstance(x, T):
                if x.h > h:
                    h = x.h
                if x.vars:
                    vs = vs | x.vars if vs else x.vars
        if op == "lam":
            h = max(h, a[0])
        if op == "var":
            vs = frozenset((t.id,))
        t.h = h
        t.vars = vs
        t._key = None
        _table[key] = t
    return t


def C(v):
    return raw("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)
UNDEF = raw("undef")
INF = raw("inf")  # neutral element of an additive group


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.a[1]


def is_int(t):
    return t.op == "c" and t.a[0] == "int"


_vc = [0]


def fresh_var(hint="i"):
    _vc[0] += 1
    return raw("var", hint, _vc[0])


def sym(name):
    return raw("sym", name)


# ---------------------------------------------------------------------------------------------
# substitution and binders


def subst(t, m, memo=None):
    """Replace subterms (keys of m) and rebuild in canonical form."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not any(isinstance(x, T) for x in t.a):
        r = t
    elif t.op == "lam":
        v = fresh_var()
        body = subst(t.a[1], {raw("bv", t.a[0]): v})
        body2 = subst(body, m)
        r = t if body2 is body else lam(v, body2)
    elif t.op == "ite":
        c = subst(t.a[0], m, memo)
        a = subst(t.a[1], m, memo)
        b = subst(t.a[2], m, memo)
        r = t if (c is t.a[0] and a is t.a[1] and b is t.a[2]) else ite(truth(c), a, b)
    else:
        new = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
        if all(x is y for x, y in zip(new, t.a)):
            r = t
        else:
            r = build(t.op, *new)
    memo[t] = r
    return r


def lam(v, body):
    lvl = body.h + 1
    b = subst(body, {v: raw("bv", lvl)})
    # rebuilding may change the height
    n = 0
    while b.h + 1 != lvl and n < 4:
        lvl2 = b.h + 1
        if b.h >= lvl:
            b = subst(subst(b, {raw("bv", lvl): v}), {v: raw("bv", lvl2)})
        else:
            b = subst(b, {raw("bv", lvl): raw("bv", lvl2)})
        lvl = lvl2
        n += 1
    return raw("lam", lvl, b)


def inst(l, t):
    return subst(l.a[1], {raw("bv", l.a[0]): t})


def lam_const(l):
    """True if the body does not use the variable."""
    return not occurs(raw("bv", l.a[0]), l.a[1])


def occurs(x, t, seen=None):
    if x is t:
        return True
    if seen is None:
        seen = set()
    if t in seen:
        return False
    seen.add(t)
    return any(isinstance(y, T) and occurs(x, y, seen) for y in t.a)


def subterms(t, seen=None):
    """All distinct subterms."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                stack.append(y)


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


def has_unknown(t):
    return any(x.op in ("unk", "mu", "foldat", "fold") for x in subterms(t))


# ---------------------------------------------------------------------------------------------
# decision diagrams

_ite_memo = {}


def _top(t):
    return t.a[0] if t.op == "ite" else None


def _cof(t, atom, val):
    if t.op == "ite" and t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    return t


_restrict_memo = {}


def restrict(t, atom, val):
    """Value of a decision diagram given the value of an atom."""
    if t.op != "ite":
        return t
    key = (t, atom, val)
    r = _restrict_memo.get(key)
    if r is None:
        if t.a[0] is atom:
            r = restrict(t.a[1] if val else t.a[2], atom, val)
        else:
            a = restrict(t.a[1], atom, val)
            b = restrict(t.a[2], atom, val)
            r = t if (a is t.a[1] and b is t.a[2]) else _node(t.a[0], a, b)
        _restrict_memo[key] = r
    return r


_lin_memo = {}


def _lin(p):
    """Non-constant part and constant of a polynomial."""
    r = _lin_memo.get(p)
    if r is None:
        d = _poly(p)
        k = d.pop((), 0)
        r = _lin_memo[p] = (_mk_poly(d), k)
    return r


_atoms_memo = {}


def _all_atoms(t):
    """All atoms of a decision diagram (memoized)."""
    r = _atoms_memo.get(t)
    if r is None:
        if t.op != "ite":
            r = frozenset()
        else:
            r = _all_atoms(t.a[1]) | _all_atoms(t.a[2]) | {t.a[0]}
        _atoms_memo[t] = r
    return r


def _implied(atom, val, others=()):
    """Atoms (among others) whose value follows from the value of an atom."""
    out = []
    if atom.op in ("lt", "eq0"):
        p, k = _lin(atom.a[0])
        for o in others:
            if o is atom or o.op not in ("lt", "eq0"):
                continue
            p2, k2 = _lin_memo.get(o.a[0]) or _lin(o.a[0])
            if p2 is not p:
                continue
            if atom.op == "lt" and val:  # p < -k
                if o.op == "lt" and k2 <= k:
                    out.append((o, True))
                elif o.op == "eq0" and k2 <= k:  # p == -k2 >= -k
                    out.append((o, False))
            elif atom.op == "lt":  # p >= -k
                if o.op == "lt" and k2 >= k:
                    out.append((o, False))
                elif o.op == "eq0" and k2 > k:
                    out.append((o, False))
            elif atom.op == "eq0" and val:  # p == -k
                if o.op == "lt":
                    out.append((o, k2 < k))
                else:
                    out.append((o, False))
    elif atom.op == "eq" and val:
        # equal to one constant, so not to another one
        x, y = atom.a
        if x.op == "c" or y.op == "c":
            z, k = (y, x) if x.op == "c" else (x, y)
            for o in others:
                if o is not atom and o.op == "eq" and z in o.a:
                    w = o.a[1] if o.a[0] is z else o.a[0]
                    if w.op == "c":
                        out.append((o, False))
                elif o.op == "isnone" and o.a[0] is z:
                    out.append((o, False))
    elif atom.op == "isnone" and val:
        for o in others:
            if o.op == "truthy" and o.a[0] is atom.a[0]:
                out.append((o, False))
    elif atom.op == "truthy" and val:
        for o in others:
            if o.op == "isnone" and o.a[0] is atom.a[0]:
                out.append((o, False))
    return out


def _node(atom, a, b):
    for at, v in _implied(atom, True, _all_atoms(a)):
        a = restrict(a, at, v)
    for at, v in _implied(atom, False, _all_atoms(b)):
        b = restrict(b, at, v)
    if a is b:
        return a
    if atom.op == "eq0" and atom.a[0].op == "len" and atom.a[0].a[0].op == "keys":
        # nothing is what an empty dictionary holds, or adds
        d = atom.a[0].a[0].a[0]
        if b is d and a is DEMPTY or b.op == "dupd" and b.a[1] is d and b.a[0] is a:
            return b
    return raw("ite", atom, a, b)


def ite(c, a, b):
    """Conditional value in canonical form; c is a condition (decision diagram over True/False)."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op != "ite":
        c = raw("ite", c, TRUE, FALSE)
    tops = [x.a[0] for x in (c, a, b) if x.op == "ite"]
    atom = min(tops, key=lambda x: x.id)
    r = _node(
        atom,
        ite(_cof(c, atom, True), _cof(a, atom, True), _cof(b, atom, True)),
        ite(_cof(c, atom, False), _cof(a, atom, False), _cof(b, atom, False)),
    )
    _ite_memo[key] = r
    return r


def nodes(v, limit):
    """Number of nodes of a decision diagram, counted up to a limit."""
    seen, todo = set(), [v]
    while todo and len(seen) <= limit:
        x = todo.pop()
        if x.op == "ite" and x not in seen:
            seen.add(x)
            todo.extend(x.a[1:])
    return len(seen)


def _given(x, atom, val):
    """A decision diagram where an atom, and what follows from it, is known."""
    x = restrict(x, atom, val)
    for at, v in _implied(atom, val, _all_atoms(x)):
        x = restrict(x, at, v)
    return x


def constrain(v, c):
    """Simplify a decision diagram which matters only where c holds."""
    memo = {}

    def go(v, c):
        if v.op != "ite" or c is TRUE or c is FALSE:
            return v
        key = (v, c)
        r = memo.get(key)
        if r is not None:
            return r
        atom = min(v.a[0], c.a[0], key=lambda x: x.id)
        c1, c0 = _given(c, atom, True), _given(c, atom, False)
        if c1 is FALSE:
            r = go(_given(v, atom, False), c0)
        elif c0 is FALSE:
            r = go(_given(v, atom, True), c1)
        elif atom is not v.a[0] and atom not in _all_atoms(v):
            r = go(v, OR(c1, c0))
        else:
            a, b = go(_given(v, atom, True), c1), go(_given(v, atom, False), c0)
            r = a if a is b else _node(atom, a, b)
        memo[key] = r
        return r

    return go(v, c)


def few_leaves(v):
    """The values of a decision diagram which is large in comparison with their number."""
    seen, leaves, todo = set(), [], [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op != "ite":
            leaves.append(x)
        else:
            todo.extend(x.a[1:])
    return leaves if len(seen) > 3 * len(leaves) + 2 else None


def where(v, leaf, memo=None):
    """Condition under which a decision diagram has a value."""
    memo = {} if memo is None else memo
    if v.op != "ite":
        return C(v is leaf)
    r = memo.get(v)
    if r is None:
        r = memo[v] = _node(v.a[0], where(v.a[1], leaf, memo), where(v.a[2], leaf, memo))
    return r


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ite(c, r, FALSE) if c is not TRUE else r
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ite(c, TRUE, r)
    return r


def implies(a, b):
    return OR(NOT(a), b) is TRUE


def is_bool(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op == "ite":
        return is_bool(t.a[1]) and is_bool(t.a[2])
    return t.op in BOOL_ATOMS


BOOL_ATOMS = {"eq", "eq0", "lt", "isnone", "truthy", "exists", "in", "isinst", "hasattr", "exc", "is", "cond"}


def atom(op, *a):
    return raw("ite", raw(op, *a), TRUE, FALSE)


def atoms_of(t):
    """Atoms tested at the top of a decision diagram."""
    out = []
    seen = set()

    def go(x):
        if x in seen or x.op != "ite":
            return
        seen.add(x)
        if x.a[0] not in out:
            out.append(x.a[0])
        go(x.a[1])
        go(x.a[2])

    go(t)
    return out


def leaves(t):
    """(condition, leaf) pairs of a conditional value."""
    out = {}

    def go(x, c):
        if x.op == "ite" and not is_bool(x):
            at = raw("ite", x.a[0], TRUE, FALSE)
            go(x.a[1], AND(c, at))
            go(x.a[2], AND(c, NOT(at)))
        else:
            out[x] = OR(out.get(x, FALSE), c)

    go(t, TRUE)
    return [(c, x) for x, c in out.items()]


def literals(c):
    """Literals (atom, value) that hold in every model of the condition."""
    out = []
    for at in atoms_of(c):
        p = raw("ite", at, TRUE, FALSE)
        if AND(c, NOT(p)) is FALSE:
            out.append((at, True))
        elif AND(c, p) is FALSE:
            out.append((at, False))
    return out


LIFT_LIMIT = 400


def lift(f, *args):
    """Apply f to the leaves of conditional arguments."""
    tops = [x.a[0] for x in args if isinstance(x, T) and x.op == "ite" and not is_bool(x)]
    if not tops:
        return f(*args)
    at = min(tops, key=lambda x: x.id)

    def cof(x, v):
        if isinstance(x, T) and x.op == "ite" and not is_bool(x):
            r = restrict(x, at, v)
            for at2, v2 in _implied(at, v, _all_atoms(r)):
                r = restrict(r, at2, v2)
            return r
        return x

    p = raw("ite", at, TRUE, FALSE)
    return ite(p, lift(f, *[cof(x, True) for x in args]), lift(f, *[cof(x, False) for x in args]))


# ---------------------------------------------------------------------------------------------
# arithmetic

# a polynomial is a dict {monomial: int}, a monomial a tuple of atoms sorted by id


def _poly(t):
    if t.op == "poly":
        return dict(t.a[0:])if False else {m: c for m, c in _unpoly(t)}
    if t.op == "c" and t.a[0] in ("int", "bool"):
        return {(): int(t.a[1])} if t.a[1] else {}
    if t is INF:
        return {}
    return {(t,): 1}


def _unpoly(t):
    # stored flat: coef, k, atom...; kept flat so that substitution sees the atoms
    i = 0
    a = t.a
    while i < len(a):
        c = a[i]
        k = a[i + 1]
        yield tuple(a[i + 2 : i + 2 + k]), c
        i += 2 + k


def _mk_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return C(c)
        if len(m) == 1 and c == 1:
            return m[0]
    flat = []
    for m in sorted(p, key=lambda m: (len(m) == 0, tuple(x.id for x in m))):
        flat += [p[m], len(m)] + list(m)
    return raw("poly", *flat)


def monomials(t):
    """[(coefficient, atoms)] of a term."""
    return [(c, m) for m, c in _poly(t).items()]


def add(*ts):
    def f(*ts):
        if any(x.op == "unk" for x in ts):
            return raw("unk", "arith", *[x for x in ts if isinstance(x, T)])
        if any(_is_str(x) for x in ts):
            return strcat(*ts)
        p = {}
        allinf = all(x is INF for x in ts)
        if allinf:
            return INF
        for x in ts:
            for m, c in _poly(x).items():
                p[m] = p.get(m, 0) + c
        r = _mk_poly(p)
        if r is ZERO and any(x is INF for x in ts):
            return INF
        return r

    return lift(f, *ts)


def _is_str(x):
    return (x.op == "c" and x.a[0] in ("str", "bytes")) or x.op in ("strcat", "str", "bytescat", "fmt")


def strcat(*ts):
    out = []
    for x in ts:
        if x.op == "strcat":
            out += x.a
        elif x.op == "c" and x.a[1] in ("", b""):
            continue
        else:
            out.append(x)
    if not out:
        return ts[0]
    if len(out) == 1:
        return out[0]
    if all(x.op == "c" for x in out):
        try:
            v = out[0].a[1]
            for x in out[1:]:
                v = v + x.a[1]
            return C(v)
        except TypeError:
            pass
    return raw("strcat", *out)


def scale(k, t):
    return lift(lambda x: INF if x is INF else _mk_poly({m: c * k for m, c in _poly(x).items()}), t)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    out = []
    pows = {}
    for x in m1 + m2:
        if x.op == "pow":
            pows.setdefault(x.a[0], []).append(x.a[1])
        else:
            out.append(x)
    extra = 1
    for b, es in pows.items():
        if len(es) == 1:
            out.append(raw("pow", b, es[0]))
        else:
            p = power(b, add(*es))
            if is_int(p):
                extra *= p.a[1]
            elif p.op == "poly":
                ms = list(_unpoly(p))
                if len(ms) == 1:
                    extra *= ms[0][1]
                    out += list(ms[0][0])
                else:
                    out += [raw("pow", b, e) for e in es]
            else:
                out.append(p)
    return tuple(sorted(out, key=lambda x: x.id)), extra


def mul(a, b):
    def f(a, b):
        if a.op == "unk" or b.op == "unk":
            return raw("unk", "arith", a, b)
        if a is INF or b is INF:
            return INF
        p = {}
        for m1, c1 in _poly(a).items():
            for m2, c2 in _poly(b).items():
                m, k = _mulmono(m1, m2)
                p[m] = p.get(m, 0) + c1 * c2 * k
        return _mk_poly(p)

    return lift(f, a, b)


def power(b, e):
    def f(b, e):
        if is_int(b) and is_int(e) and 0 <= e.a[1] <= 4096:
            return C(b.a[1] ** e.a[1])
        if is_int(e) and 0 <= e.a[1] <= 3:
            r = ONE
            for _ in range(e.a[1]):
                r = mul(r, b)
            return r
        if e.op == "poly" and is_int(b):
            # 2**(n+1) = 2 * 2**n
            k = 0
            rest = {}
            for m, c in _poly(e).items():
                if m == ():
                    k = c
                else:
                    rest[m] = c
            if k > 0:
                return mul(C(b.a[1] ** k), raw("pow", b, _mk_poly(rest)))
        return raw("pow", b, e)

    return lift(f, b, e)


def mod(a, m):
    def f(a, m):
        if is_int(a) and is_int(m) and m.a[1] != 0:
            return C(a.a[1] % m.a[1])
        # expand inner reductions by the same modulus
        p = {}
        for mono, c in _poly(a).items():
            q = {(): c}
            for x in mono:
                fx = _poly(x.a[0]) if (x.op == "mod" and x.a[1] is m) else {(x,): 1}
                q2 = {}
                for m1, c1 in q.items():
                    for m2, c2 in fx.items():
                        mm, k = _mulmono(m1, m2)
                        q2[mm] = q2.get(mm, 0) + c1 * c2 * k
                q = q2
            for mm, cc in q.items():
                # a multiple of the modulus vanishes
                if m in mm:
                    continue
                p[mm] = p.get(mm, 0) + cc
        if is_int(m) and m.a[1] > 0:
            M = m.a[1]
            p = {k: (v % M if v % M <= M // 2 else v % M - M) for k, v in p.items()}
        x = _mk_poly(p)
        if is_int(x) and is_int(m) and m.a[1]:
            return C(x.a[1] % m.a[1])
        if x is ZERO:
            return ZERO
        return raw("mod", x, m)

    return lift(f, a, m)


def strip_mod(t, m=None):
    """Drop reductions (by m, or by anything): for use where values act modulo the order."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "lam":
                v = fresh_var()
                r = lam(v, go(inst(x, v)))
            elif x.op == "mod" and (m is None or m(x.a[1])):
                r = go(x.a[0])
            elif any(isinstance(y, T) for y in x.a):
                new = tuple(go(y) if isinstance(y, T) else y for y in x.a)
                r = x if all(p is q for p, q in zip(new, x.a)) else rebuild(x, new)
            else:
                r = x
            memo[x] = r
        return r

    return go(t)


def rebuild(x, new):
    if x.op == "ite":
        return ite(truth(new[0]), new[1], new[2])
    return build(x.op, *new)


# ---- comparison

NUMERIC = {"poly", "mod", "len", "pow", "sum", "numbits", "idx", "ord", "rand"}


def _numeric(t):
    return is_int(t) or t.op in NUMERIC or t in NUMS or t in POINTS or t is INF or t.op in ("var", "bv")


def _hexlen(x):
    """Length of a piece of a hexadecimal digest (0 if it is something else)."""
    if x.op == "cut" and x.a[0].op == "hexdigest":
        lo = 0 if x.a[1] is NONE else x.a[1].a[1] if is_int(x.a[1]) else None
        hi = x.a[2].a[1] if is_int(x.a[2]) else None
        if lo is not None and hi is not None and 0 <= lo <= hi <= 128:
            return hi - lo
    return 0


TOKENS = ("token_hex", "token_bytes", "token_urlsafe", "urandom", "randbytes", "uuid4", "uuid1")
INJECTIVE = {"str", "repr", "hex", "utf8", "fmt", "conv", "strcat", "digest", "hexdigest", "cut", "struct", "lit"}
TOKEN_OPS = INJECTIVE | {"addr", "rand", "tick"}


def address(x):
    """What identifies an object while it is alive."""
    return raw("addr", C("#%d" % x.a[0]), *x.a[1:]) if x.op == "ref" else raw("addr", x)


def tokens(x):
    """The values nobody else has (addresses of objects, long random texts) that a text was made from without losing them."""
    if x.op == "addr":
        return {x} if x.a[0].op == "c" else set()
    if x.op == "tick":
        return {x}
    if x.op == "rand":
        what = x.a[0].a[1].split(".")[-1]
        if what in TOKENS and (what.startswith("uuid") or is_int(x.a[1]) and x.a[1].a[1] >= 8):
            return {x}
        return set()
    if x.op == "cut":
        if x.a[0].op in ("hexdigest", "digest", "conv", "str", "rand"):
            lo = 0 if x.a[1] is NONE else x.a[1].a[1] if is_int(x.a[1]) else None
            hi = x.a[2].a[1] if is_int(x.a[2]) else 32 if x.a[2] is NONE else None
            if lo is not None and hi is not None and (0 <= lo and hi - lo >= 16 or hi - lo >= 8 and x.a[0].op == "digest"):
                return tokens(x.a[0])
        return set()
    if x.op == "fmt" and not (len(x.a) == 3 and x.a[1].op == "c" and x.a[1].a[0] == "str" and "." not in x.a[1].a[1]):
        return set()
    if x.op in INJECTIVE:
        out = set()
        for y in x.a:
            if isinstance(y, T) and y.op in TOKEN_OPS:
                out |= tokens(y)
        return out
    return set()


def token_eq(a, b):
    """Equality of generated names, None when it is not known."""
    ta, tb = tokens(a), tokens(b)
    if not ta and not tb:
        return None
    if not ta or not tb:
        return FALSE if (b if ta else a).op == "c" else None
    if a.op == b.op == "addr":
        if a.a[0] is not b.a[0] or len(a.a) != len(b.a):
            return FALSE  # of two objects
        return AND(*[eq(x, y) for x, y in zip(a.a[1:], b.a[1:])])
    if a.op == b.op == "tick":
        if a.a[1] is b.a[1] and len(a.a) == len(b.a):
            return AND(*[eq(x, y) for x, y in zip(a.a[2:], b.a[2:])])
        return FALSE if a.a[0] is b.a[0] else None
    if a.op == b.op == "rand":
        if a.a[:3] == b.a[:3] and len(a.a) == len(b.a):
            return AND(*[eq(x, y) for x, y in zip(a.a[3:], b.a[3:])])
        return FALSE
    if a.op == b.op and len(a.a) == len(b.a):
        diff = [(x, y) for x, y in zip(a.a, b.a) if x is not y]
        if len(diff) == 1 and all(isinstance(z, T) and tokens(z) for z in diff[0]):
            return eq(*diff[0])
    if not ta & tb:
        return FALSE
    return None


def eq(a, b):
    def f(a, b):
        if a is b:
            return TRUE
        if a.op in TOKEN_OPS or b.op in TOKEN_OPS:
            r = token_eq(a, b)
            if r is not None:
                return r
        if a is NONE:
            return isnone(b)
        if b is NONE:
            return isnone(a)
        if a.op == "c" and b.op == "c":
            try:
                return C(bool(a.a[1] == b.a[1]))
            except Exception:
                return atom("eq", a, b)
        if is_bool(a) and is_bool(b):
            return ite(a, b, NOT(b))
        if a is TRUE or b is TRUE or a is FALSE or b is FALSE:
            x, k = (b, a) if (a is TRUE or a is FALSE) else (a, b)
            t = truth(x)
            return t if k is TRUE else NOT(t)
        if a.op == "pyhash" and b.op == "pyhash":
            return eq(a.a[0], b.a[0])
        if a.op == "addr" and b.op == "addr":
            return eq(a.a[0], b.a[0])
        if a.op == "ref" and b.op == "ref" and len(a.a) == 1 and len(b.a) == 1:
            return FALSE
        if a.op == "cls" and b.op == "cls":
            return FALSE
        if a.op == "struct" and b.op == "struct" and a.a[0] is b.a[0] and len(a.a) == len(b.a):
            return AND(*[eq(x, y) for x, y in zip(a.a[1:], b.a[1:])])
        if a.op == "cut" and b.op == "cut" and a.a[1:] == b.a[1:] and _hexlen(a) >= 16 and a.a[0].a[0] == b.a[0].a[0]:
            return eq(a.a[0].a[1], b.a[0].a[1])
        if a.op == "digest" and b.op == "digest" or a.op == "hexdigest" and b.op == "hexdigest":
            # collision resistance
            if a.a[0] == b.a[0] and a.a[1].op == "lit" and b.a[1].op == "lit" and len(a.a[1].a) == len(b.a[1].a) == 1:
                return eq(a.a[1].a[0], b.a[1].a[0])
        if _is_str(a) and a.op == "c" and _hexlen(b) >= 16 or _is_str(b) and b.op == "c" and _hexlen(a) >= 16:
            # a name chosen by the user is not one generated from a hash
            return FALSE
        if a.op == "dput" and b is DEMPTY or b.op == "dput" and a is DEMPTY:
            return FALSE
        if a.op == "L" and b.op == "L" and len(a.a) == len(b.a) == 1:
            return eq(a.a[0], b.a[0])
        if a.op == "lit" and b.op == "lit":
            if len(a.a) != len(b.a):
                return FALSE
            return AND(*[eq(x, y) for x, y in zip(a.a, b.a)])
        if _numeric(a) or _numeric(b):
            if (a.op == "c" and not is_int(a)) or (b.op == "c" and not is_int(b)):
                return atom("eq", *sorted((a, b), key=lambda x: x.id))
            d = sub(a, b)
            return eq0(d)
        x, y = sorted((a, b), key=lambda x: x.id)
        return atom("eq", x, y)

    return lift(f, a, b)


def _canon_sign(p):
    ms = sorted(p, key=lambda m: (len(m) == 0, tuple(x.id for x in m)))
    if ms and p[ms[0]] < 0:
        return {m: -c for m, c in p.items()}, True
    return p, False


def nonneg(t):
    if is_int(t):
        return t.a[1] >= 0
    if t.op in ("var", "bv", "len", "numbits", "pow", "ord", "idx"):
        return True
    if t.op == "mod":
        return nonneg(t.a[1])
    if t.op == "rand":
        return upper(t) is not None
    if t.op == "poly":
        return all(c >= 0 and all(nonneg(x) for x in m) for m, c in _unpoly(t))
    return False


def upper(t):
    """A bound b with 0 <= t < b, if known."""
    if t.op == "mod" and nonneg(t.a[1]):
        return t.a[1]
    if t.op == "rand" and t.a[0].a[1] in ("bn.random", "secrets.randbelow", "system.randbelow", "random.randbelow", "pseudo.randbelow"):
        return t.a[1]
    return None


def eq0(d):
    def f(d):
        if is_int(d):
            return C(d.a[1] == 0)
        if d is INF:
            return TRUE
        p, _ = _canon_sign(_poly(d))
        d = _mk_poly(p)
        items = list(p.items())
        if len(items) == 2 and sorted(c for _, c in items) == [-1, 1] and all(len(m) == 1 for m, _ in items):
            if not any(_numeric(m[0]) for m, _ in items):
                x, y = sorted((items[0][0][0], items[1][0][0]), key=lambda x: x.id)
                return atom("eq", x, y)
        if nonneg(d) and p.get((), 0) > 0:
            return FALSE
        return atom("eq0", d)

    return lift(f, d)


def lt(a, b):
    def f(a, b):
        return lt0(sub(a, b))

    return lift(f, a, b)


def lt0(d):
    def f(d):
        if is_int(d):
            return C(d.a[1] < 0)
        if d is INF:
            return FALSE
        p0 = _poly(d)
        for m, c in p0.items():
            if len(m) == 1 and c == 1:
                b = upper(m[0])
                if b is not None:
                    rest = add(sub(d, m[0]), b)
                    if is_int(rest) and rest.a[1] <= 0:
                        return TRUE
        p, flipped = _canon_sign(p0)
        if flipped:
            # integers: q > 0 is not (q - 1 < 0)
            return NOT(lt0(sub(_mk_poly(p), ONE)))
        if nonneg(d):
            return FALSE
        if p.get((), 0) == -1:
            q = dict(p)
            q[()] = 0
            q = _mk_poly(q)
            return OR(lt0(q), eq0(q))
        return atom("lt", _mk_poly(p))

    return lift(f, d)


NOT_NONE = {"ref", "lit", "map", "fmap", "flat", "cat", "slice", "poly", "mod", "len", "pow", "sum", "str", "strcat",
            "sha", "enc", "fn", "cls", "bound", "L", "D", "obj", "rand", "inf", "digest", "dict", "dput", "dputall",
            "dempty", "dwithout", "secval", "numbits", "copy", "range", "setof", "pair"}


def isnone(t):
    def f(t):
        if t is NONE:
            return TRUE
        if t.op == "c" or t.op in NOT_NONE or is_bool(t) or t in NUMS or t in POINTS:
            return FALSE
        if t.op == "call" and isinstance(t.a[0], str) and t.a[0].split(".")[-1][:1].isupper():
            return FALSE  # an instance of a class
        return atom("isnone", t)

    return lift(f, t)


def truth(t):
    """Truth value of a value."""
    if is_bool(t):
        return t if t.op in ("c", "ite") else raw("ite", t, TRUE, FALSE)

    def f(t):
        if is_bool(t):
            return t if t.op in ("c", "ite") else raw("ite", t, TRUE, FALSE)
        if t.op == "c":
            return C(bool(t.a[1]))
        if t.op in SEQ:
            return NOT(eq0(length(t)))
        if t.op in ("len", "poly"):
            return NOT(eq0(t))
        if t.op in ("fn", "cls", "bound", "copy", "obj", "mod_"):
            return TRUE
        if t.op == "L" and t.a[0].op != "c":
            return NOT(eq0(length(t.a[0])))
        if t.op == "D":
            return TRUE if t.a[0].op == "dput" else NOT(eq0(length(dkeys(t.a[0]))))
        return atom("truthy", t)

    return lift(f, t)


# ---------------------------------------------------------------------------------------------
# sequences

SEQ = {"lit", "map", "fmap", "flat", "cat", "slice", "supd", "setof", "range", "sorted"}

LEN_EQ = {}  # facts: length of a term -> canonical length


def length(s):
    def f(s):
        if s.op == "lit":
            return C(len(s.a))
        if s.op == "setof" and setlist(s) is not None:
            return C(len(s.a[0].a))
        if s.op == "map":
            return s.a[0]
        if s.op == "cat":
            return add(*[length(x) for x in s.a])
        if s.op == "slice":
            return raw("len", s)
        if s.op == "supd":
            return length(s.a[0])
        if s.op == "c" and s.a[0] in ("str", "bytes"):
            return C(len(s.a[1]))
        r = raw("len", s)
        return LEN_EQ.get(r, r)

    return lift(f, s)


def minlen(ns):
    out = []
    for n in ns:
        for x in n.a if n.op == "minlen" else (n,):
            if x not in out:
                out.append(x)
    if len(out) == 1:
        return out[0]
    if all(is_int(x) for x in out):
        return C(min(x.a[1] for x in out))
    return raw("minlen", *sorted(out, key=lambda x: x.id))


def item(s, i):
    def f(s, i):
        if s.op == "lit" and is_int(i):
            k = i.a[1]
            if -len(s.a) <= k < len(s.a):
                return s.a[k]
            return raw("unk", "index out of range", s)
        if s.op == "map":
            if is_int(i) and i.a[1] < 0:
                return inst(s.a[1], add(s.a[0], i))
            return inst(s.a[1], i)
        if s.op == "slice" and nonneg(i) and s.a[1] is not NONE:
            return item(s.a[0], add(s.a[1], i))
        if s.op == "slice" and nonneg(i) and s.a[1] is NONE:
            return item(s.a[0], i)
        if s.op == "cat":
            if is_int(i) and i.a[1] >= 0:
                off = 0
                for part in s.a:
                    n = length(part)
                    if not is_int(n):
                        return item(part, C(i.a[1] - off)) if i.a[1] - off == 0 and False else raw("item", s, i)
                    if i.a[1] < off + n.a[1]:
                        return item(part, C(i.a[1] - off))
                    off += n.a[1]
            elif not is_int(i):
                # past a literal prefix
                first = s.a[0]
                if first.op == "lit":
                    k = len(first.a)
                    d = sub(i, C(k))
                    if nonneg(d):
                        return item(cat(*s.a[1:]), d)
            return raw("item", s, i)
        if s.op == "supd":
            return ite(eq(s.a[1], i), s.a[2], item(s.a[0], i))
        if s.op == "fmap":
            # all elements but one
            v = fresh_var()
            c = inst(s.a[1], v)
            t = _skip_one(c, v)
            if t is not None:
                return ite(lt(i, t), inst(s.a[2], i), inst(s.a[2], add(i, ONE)))
        if i.op == "idx" and i.a[0] is s:
            return i.a[1]
        if s.op in ("dput", "dputall", "dempty", "dupd"):
            return dget(s, i)
        return raw("item", s, i)

    return lift(f, s, i)


def _skip_one(c, v):
    """t if the condition is v != t."""
    n = NOT(c)
    ats = atoms_of(n)
    if len(ats) == 1 and n is raw("ite", ats[0], TRUE, FALSE) and ats[0].op in ("eq0", "eq"):
        d = ats[0].a[0] if ats[0].op == "eq0" else sub(*ats[0].a)
        p = _poly(d)
        k = p.pop((v,), 0)
        if k in (1, -1):
            rest = scale(-k, _mk_poly(p))
            if v.id not in rest.vars:
                return rest
    return None


def seqmap(n, l):
    """[body(i) for i in range(n)]"""

    def f(n):
        if is_int(n) and 0 <= n.a[1] <= UNROLL:
            return raw("lit", *[inst(l, C(k)) for k in range(n.a[1])])
        body = l.a[1]
        if body.op == "ite" and not is_bool(body):
            at = body.a[0]
            bv = raw("bv", l.a[0])
            for at in atoms_of(body):
                if not occurs(bv, at):
                    v = fresh_var()
                    b = inst(l, v)
                    return ite(raw("ite", at, TRUE, FALSE), seqmap(n, lam(v, restrict(b, at, True))),
                               seqmap(n, lam(v, restrict(b, at, False))))
        # a map over a filtered sequence is a filtered sequence
        if n.op == "len" and n.a[0].op == "fmap":
            F = n.a[0]
            v = fresh_var()
            b = inst(l, v)
            w = fresh_var()
            b2 = subst(b, {raw("item", F, v): w})
            if v.id not in b2.vars:
                u = fresh_var()
                return seqfmap(F.a[0], F.a[1], lam(u, subst(b2, {w: inst(F.a[2], u)})))
        # eta
        v = raw("bv", l.a[0])
        if body.op == "item" and body.a[1] is v and not occurs(v, body.a[0]) and length(body.a[0]) is n:
            return body.a[0]
        return raw("map", n, l)

    return lift(f, n)


def seqfmap(n, lc, lb):
    if lc.a[1] is TRUE:
        return seqmap(n, lb)
    if lc.a[1] is FALSE:
        return raw("lit")
    if lam_const(lc):
        c = lc.a[1]
        return ite(c, seqmap(n, lb), raw("lit"))
    if is_int(n) and 0 <= n.a[1] <= 8:
        r = raw("lit")
        for k in range(n.a[1]):
            r = ite(inst(lc, C(k)), cat(r, raw("lit", inst(lb, C(k)))), r)
        return r
    return raw("fmap", n, lc, lb)


def seqflat(n, l):
    body = l.a[1]
    if body.op == "lit" and len(body.a) == 1:
        return seqmap(n, raw("lam", l.a[0], body.a[0]) if True else None)
    if is_int(n) and 0 <= n.a[1] <= UNROLL:
        return cat(*[inst(l, C(k)) for k in range(n.a[1])])
    return raw("flat", n, l)


def cat(*ss):
    def f(*ss):
        out = []
        for s in ss:
            if s.op == "cat":
                parts = list(s.a)
            else:
                parts = [s]
            for p in parts:
                if p.op == "lit":
                    if not p.a:
                        continue
                    if out and out[-1].op == "lit":
                        out[-1] = raw("lit", *(out[-1].a + p.a))
                        continue
                out.append(p)
        # [S[0]] + [S[i+1] for i < n] = [S[i] for i <= n]
        changed = True
        while changed:
            changed = False
            for k in range(len(out) - 1):
                a, b = out[k], out[k + 1]
                if a.op == "lit" and b.op in ("map", "slice"):
                    n = length(b)
                    v = fresh_var()
                    bi = item(b, v)
                    g = subst(bi, {v: sub(v, ONE)})
                    if subst(g, {v: ZERO}) is a.a[-1]:
                        nb = seqmap(add(n, ONE) if b.op == "map" else length_of_slice_plus(b), lam(v, g))
                        new = ([raw("lit", *a.a[:-1])] if len(a.a) > 1 else []) + [nb]
                        out[k : k + 2] = new
                        changed = True
                        break
        if not out:
            return raw("lit")
        if len(out) == 1:
            return out[0]
        return raw("cat", *out)

    return lift(f, *ss)


def length_of_slice_plus(s):
    return add(length(s), ONE)


def seqslice(s, a, b):
    def f(s, a, b):
        if a is ZERO:
            a = NONE
        if a is NONE and b is NONE:
            return s
        if s.op == "lit" and (a is NONE or is_int(a)) and (b is NONE or is_int(b)):
            return raw("lit", *s.a[(a.a[1] if a is not NONE else None) : (b.a[1] if b is not NONE else None)])
        if s.op == "acc" and (a, b) in ((ONE, NONE), (NONE, C(-1))):
            return raw("slice", s, a, b)
        n = length(s)
        if s.op == "cat" and is_int(a) and a.a[1] > 0 and b is NONE and s.a[0].op == "lit":
            k = len(s.a[0].a)
            if a.a[1] <= k:
                return cat(raw("lit", *s.a[0].a[a.a[1]:]), *s.a[1:])
        if s.op == "map" or s.op not in SEQ:
            st = ZERO if a is NONE else a
            neg_end = b is not NONE and is_int(b) and b.a[1] < 0
            if (is_int(st) and st.a[1] < 0) or (not nonneg(st)):
                return raw("slice", s, a, b)
            if b is NONE:
                m = sub(n, st)
            elif neg_end:
                m = sub(add(n, b), st)
            else:
                # assumes that the bound does not exceed the length (the analysis notes it)
                m = sub(b, st)
            if s.op == "map" or True:
                v = fresh_var()
                return seqmap(m, lam(v, item(s, add(v, st))))
        return raw("slice", s, a, b)

    return lift(f, s, a, b)


def exists(n, l):
    """Condition: some i < n satisfies the body."""
    body = l.a[1]
    if body is FALSE:
        return FALSE
    if is_int(n) and 0 <= n.a[1] <= UNROLL:
        return OR(*[truth(inst(l, C(k))) for k in range(n.a[1])])
    if n.op == "ite":
        return lift_bool(lambda m: exists(m, l), n)
    bv = raw("bv", l.a[0])
    if not occurs(bv, body):
        return AND(NOT(eq0(n)), body)
    v = fresh_var()
    b = inst(l, v)
    # conditions that do not depend on the element move out
    for at in atoms_of(b):
        if v.id not in at.vars:
            return ite(raw("ite", at, TRUE, FALSE), exists(n, lam(v, restrict(b, at, True))),
                       exists(n, lam(v, restrict(b, at, False))))
    # split a disjunction of literals
    ats = atoms_of(b)
    if len(ats) > 1:
        lits = []
        for at in ats:
            p = raw("ite", at, TRUE, FALSE)
            if implies(p, b):
                lits.append(p)
            elif implies(NOT(p), b):
                lits.append(NOT(p))
        if lits and OR(*lits) is b:
            return OR(*[exists(n, lam(v, x)) for x in lits])
    elem = _member(b, v, n)
    if elem is not None:
        return elem
    return atom("exists", n, lam(v, b))


def _member(b, v, n):
    """exists i. S[i] == x becomes a membership atom."""
    ats = atoms_of(b)
    if len(ats) == 1 and b is raw("ite", ats[0], TRUE, FALSE):
        at = ats[0]
        if at.op == "eq":
            for x, y in (at.a, at.a[::-1]):
                if x.op == "item" and x.a[1] is v and v.id not in x.a[0].vars and v.id not in y.vars and length(x.a[0]) is n:
                    return member(y, x.a[0])
    return None


def lift_bool(f, t):
    if t.op == "ite" and not is_bool(t):
        return ite(raw("ite", t.a[0], TRUE, FALSE), lift_bool(f, t.a[1]), lift_bool(f, t.a[2]))
    return f(t)


def member(x, s):
    def f(x, s):
        if s.op == "lit":
            return OR(*[eq(x, y) for y in s.a])
        if s.op == "setof":
            return member(x, s.a[0])
        if s.op in ("dempty",):
            return FALSE
        if s.op in ("dput", "dputall", "dupd"):
            return din(x, s)
        if s.op == "keys":
            return din(x, s.a[0])
        if s.op == "cat":
            return OR(*[member(x, y) for y in s.a])
        if s.op == "map":
            v = fresh_var()
            b = eq(x, inst(s.a[1], v))
            if x.op == "item" and s.a[1].a[1].op == "item" and x.a[0] is inst(s.a[1], v).a[0] and inst(s.a[1], v).a[1] is v and length(x.a[0]) is s.a[0]:
                return TRUE
            return exists(s.a[0], lam(v, b))
        if x.op == "item" and x.a[0] is s:
            return TRUE
        return atom("in", x, s)

    return lift(f, x, s)


# ---- sums


def seqsum(n, l):
    """sum of body(i) for i < n"""

    def f(n):
        if is_int(n) and 0 <= n.a[1] <= UNROLL:
            return add(ZERO, *[inst(l, C(k)) for k in range(n.a[1])])
        body = l.a[1]
        bv = raw("bv", l.a[0])
        if body is INF:
            return INF
        if body.op == "ite":
            for at in atoms_of(body):
                if not occurs(bv, at):
                    v = fresh_var()
                    b = inst(l, v)
                    return ite(raw("ite", at, TRUE, FALSE), seqsum(n, lam(v, restrict(b, at, True))),
                               seqsum(n, lam(v, restrict(b, at, False))))
            return raw("sum", n, l)
        v = fresh_var()
        b = inst(l, v)
        out = ZERO
        for m, c in _poly(b).items():
            free = tuple(x for x in m if v.id not in x.vars)
            dep = tuple(x for x in m if v.id in x.vars)
            k = _mk_poly({free: c})
            if not dep:
                out = add(out, mul(n, k))
            else:
                d = _mk_poly({dep: 1})
                out = add(out, mul(k, raw("sum", n, lam(v, d))))
        return out

    return lift(f, n)


# ---- dictionaries

DEMPTY = raw("dempty")


def dput(d, k, v):
    def f(d, k):
        if d.op == "dput" and d.a[1] is k:
            return dput(d.a[0], k, v)
        if v is dget(d, k) and din(k, d) is TRUE:
            return d
        return raw("dput", d, k, v)

    return lift(f, d, k)


def _key_eq(a, b):
    """True/False/None: whether two keys are equal."""
    e = eq(a, b)
    if e is TRUE:
        return True
    if e is FALSE:
        return False
    # distinct allocations are distinct keys
    if a.op == "ref" and b.op == "ref" and a.a[0] != b.a[0]:
        return False
    return None


def dget(d, k):
    def f(d, k):
        if d.op == "D":
            return dget(d.a[-1], k)
        if d.op == "dput":
            e = _key_eq(d.a[1], k)
            if e is True:
                return d.a[2]
            if e is False:
                return dget(d.a[0], k)
            return ite(eq(d.a[1], k), d.a[2], dget(d.a[0], k))
        if d.op == "dputall":
            n, base, l = d.a
            v = fresh_var()
            kv = inst(l, v)
            keyseq = seqmap(n, lam(v, kv.a[0]))
            val = subst(kv.a[1], {kv.a[0]: k}) if kv.a[0] is not v else kv.a[1]
            if v.id in val.vars:
                ix = idx(keyseq, k)
                val = subst(kv.a[1], {v: ix})
            return ite(member(k, keyseq), val, dget(base, k)) if base is not DEMPTY else val
        if d.op == "dupd":
            return ite(din(k, d.a[1]), dget(d.a[1], k), dget(d.a[0], k))
        if d.op == "dwithout":
            return dget(d.a[0], k)
        return raw("item", d, k)

    return lift(f, d, k)


def din(k, d):
    def f(k, d):
        if d.op == "D":
            return din(k, d.a[-1])
        if d is DEMPTY:
            return FALSE
        if d.op == "dput":
            e = _key_eq(d.a[1], k)
            if e is True:
                return TRUE
            if e is False:
                return din(k, d.a[0])
            return OR(eq(d.a[1], k), din(k, d.a[0]))
        if d.op == "dputall":
            v = fresh_var()
            kv = inst(d.a[2], v)
            return OR(member(k, seqmap(d.a[0], lam(v, kv.a[0]))), din(k, d.a[1]))
        if d.op == "dupd":
            return OR(din(k, d.a[1]), din(k, d.a[0]))
        if d.op == "dwithout":
            return AND(NOT(eq(d.a[1], k)), din(k, d.a[0]))
        if k.op == "item" and k.a[0].op == "keys" and k.a[0].a[0] is d:
            return TRUE
        return atom("in", k, d)

    return lift(f, k, d)


def dwithout(d, k):
    """d without a key"""
    def f(d, k):
        if d is DEMPTY:
            return d
        if d.op == "dput":
            e = _key_eq(d.a[1], k)
            if e is True:
                return dwithout(d.a[0], k)
            if e is False:
                return raw("dput", dwithout(d.a[0], k), d.a[1], d.a[2])
        if din(k, d) is FALSE:
            return d
        return raw("dwithout", d, k)

    return lift(f, d, k)


def dupd(d, e):
    def f(d, e):
        if e.op == "D":
            e = e.a[-1]
        if e is DEMPTY:
            return d
        if d is DEMPTY:
            return e
        if e.op == "dput":
            return dput(dupd(d, e.a[0]), e.a[1], e.a[2])
        if e.op == "dputall":
            b = dupd(d, e.a[1])
            return dputall(e.a[0], b, e.a[2])
        return raw("dupd", d, e)

    return lift(f, d, e)


def dputall(n, d, l):
    """put (key(i), value(i)) for all i < n; the body is a pair"""
    if is_int(n) and 0 <= n.a[1] <= UNROLL:
        for k in range(n.a[1]):
            kv = inst(l, C(k))
            d = dput(d, kv.a[0], kv.a[1])
        return d
    v = fresh_var()
    kv = inst(l, v)
    key, val = kv.a
    # rewriting every entry with its own value
    if key.op == "item" and key.a[0].op == "keys" and key.a[0].a[0] is d and key.a[1] is v and n is length(key.a[0]):
        if val is dget(d, key):
            return d
    # copying every entry of another dictionary
    if key.op == "item" and key.a[0].op == "keys" and key.a[1] is v and n is length(key.a[0]):
        e = key.a[0].a[0]
        if v.id not in e.vars and val is dget(e, key):
            return dupd(d, e)
    return raw("dputall", n, d, l)


def dkeys(d):
    def f(d):
        if d is DEMPTY:
            return raw("lit")
        if d.op in ("gadd", "gby"):
            g = _groups(d)
            return raw("keys", d) if g is None else raw("lit", *[k for k, _ in g])
        if d.op == "dput" and _lit_keys(d) is not None:
            return raw("lit", *_lit_keys(d))
        if d.op == "dwithout":
            ks = dkeys(d.a[0])
            v = fresh_var()
            if ks.op == "setof":
                ks = ks.a[0]
            if ks.op == "lit":
                r = raw("lit")
                for x in ks.a:
                    r = ite(eq(x, d.a[1]), r, cat(r, raw("lit", x)))
                return r
            return seqfmap(length(ks), lam(v, NOT(eq(item(ks, v), d.a[1]))), lam(v, item(ks, v)))
        if d.op == "dputall" and d.a[1] is DEMPTY:
            v = fresh_var()
            kv = inst(d.a[2], v)
            s = seqmap(d.a[0], lam(v, kv.a[0]))
            return setof(s)
        return raw("keys", d)

    return lift(f, d)


def _lit_keys(d):
    ks = []
    while d.op == "dput":
        ks.append(d.a[1])
        d = d.a[0]
    if d is not DEMPTY:
        return None
    ks.reverse()
    out = []
    for k in ks:
        if k in out:
            continue
        for o in out:
            if _key_eq(o, k) is not False:
                return None
        out.append(k)
    return out


def setof(s):
    if s.op == "setof":
        return s
    if s.op == "keys":
        return s
    if s.op == "lit":
        if len(s.a) < 2:
            return s
        out = []
        for x in s.a:
            es = [_key_eq(x, y) for y in out]
            if None in es:
                return raw("setof", s)
            if True not in es:
                out.append(x)
        s = raw("lit", *out)
        if len(out) < 2:
            return s
    return raw("setof", s)


# dictionaries of lists


def _groups(c):
    """[(key, [values])] when it is known which keys are equal."""
    adds = []
    while c.op in ("gadd", "gby"):
        if c.op == "gadd":
            adds.append((c.a[1], c.a[2]))
            c = c.a[0]
        else:
            return None
    if c is not DEMPTY:
        return None
    out = []
    for k, x in reversed(adds):
        for g in out:
            e = _key_eq(g[0], k)
            if e is None:
                return None
            if e:
                g[1].append(x)
                break
        else:
            out.append((k, [x]))
    return out


def gitems(c):
    g = _groups(c)
    if g is None:
        return raw("gitems", c)
    return raw("lit", *[raw("lit", k, raw("lit", *xs)) for k, xs in g])


def gvalues(c):
    g = _groups(c)
    if g is None:
        return raw("gvalues", c)
    return raw("lit", *[raw("lit", *xs) for k, xs in g])


def gget(c, k):
    g = _groups(c)
    if g is not None:
        es = [(_key_eq(k2, k), xs) for k2, xs in g]
        if all(e is not None for e, _ in es):
            for e, xs in es:
                if e:
                    return raw("lit", *xs)
            return raw("lit")
    return raw("gget", c, k)


SET_FLIP = [False]  # the other iteration order of sets


def setlist(s):
    """Elements of a set of known, distinct elements in an order that is not the one of insertion."""
    if s.op == "setof" and s.a[0].op == "lit":
        xs = s.a[0].a
        for i, x in enumerate(xs):
            for y in xs[:i]:
                if _key_eq(x, y) is not False:
                    return None
        return raw("lit", *(xs if SET_FLIP[0] else xs[::-1]))
    return None


def idx(s, k):
    def f(s, k):
        if s.op == "lit":
            for i, x in enumerate(s.a):
                if x is k:
                    return C(i)
        return raw("idx", s, k)

    return lift(f, s, k)


# ---- bilinear pairing


def pair(a, b):
    def f(a, b):
        if a is INF or b is INF:
            return INF
        p = {}
        for m1, c1 in _poly(a).items():
            for m2, c2 in _poly(b).items():
                if not m1 or not m2:
                    continue
                s1, p1 = _split_point(m1)
                s2, p2 = _split_point(m2)
                m, k = _mulmono(s1, s2)
                m = tuple(sorted(m + (raw("pair", p1, p2),), key=lambda x: x.id))
                p[m] = p.get(m, 0) + c1 * c2 * k
        return _mk_poly(p)

    return lift(f, a, b)


POINTS = set()  # atoms declared as points
NUMS = set()  # atoms declared as numbers


def _split_point(m):
    """Split a monomial into scalar factors and its point."""
    for i, x in enumerate(m):
        if is_point(x):
            return m[:i] + m[i + 1 :], x
    return m[:-1], m[-1]


def is_point(x):
    if x in POINTS:
        return True
    if x.op == "item" and x.a[0] in POINTS:
        return True
    if x.op == "sum":
        v = fresh_var()
        b = inst(x.a[1], v)
        return any(any(is_point(y) for y in m) for m, c in _poly(b).items())
    if x.op in ("pair", "h2p", "gen"):
        return True
    return False


# ---------------------------------------------------------------------------------------------

BUILDERS = {}


def build(op, *a):
    f = BUILDERS.get(op)
    if f is not None:
        return f(*a)
    if op == "poly":
        p = ZERO
        i = 0
        while i < len(a):
            c, k = a[i], a[i + 1]
            t = C(c)
            for x in a[i + 2 : i + 2 + k]:
                t = mul(t, x)
            p = add(p, t)
            i += 2 + k
        return p
    if op in BOOL_ATOMS:
        return lift(lambda *b: atom(op, *b), *a)
    if op in NOLIFT:
        return raw(op, *a)
    return lift(lambda *b: raw(op, *b), *a)


NOLIFT = {"obj", "L", "D", "lam", "mcallraw", "tuple2"}

BUILDERS.update(
    ite=lambda c, a, b: ite(truth(c), a, b),
    eq=eq, eq0=eq0, lt=lt0, isnone=isnone, truthy=truth, exists=exists,
    mod=mod, pow=power, len=length, minlen=lambda *n: minlen(n), item=item, map=seqmap, fmap=seqfmap,
    flat=seqflat, dwithout=dwithout, cat=cat, slice=seqslice, sum=seqsum, dput=dput, dupd=dupd, dputall=dputall,
    keys=dkeys, setof=setof, idx=idx, pair=pair, gitems=gitems, gvalues=gvalues, gget=gget, lit=lambda *a: raw("lit", *a), strcat=lambda *a: lift(strcat, *a),
)
BUILDERS["in"] = member


# ---------------------------------------------------------------------------------------------


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    op, a = t.op, t.a
    if depth > 60:
        return "..."
    s = lambda x: show(x, depth + 1)
    if op == "c":
        if isinstance(a[1], int) and not isinstance(a[1], bool) and a[1] == 2 ** 128:
            return "2^128"
        return repr(a[1])
    if op == "sym":
        return a[0]
    if op == "var":
        return "%s%d" % (a[0], a[1])
    if op == "bv":
        return "#%d" % a[0]
    if op == "lam":
        return "λ#%d.%s" % (a[0], s(a[1]))
    if op == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + s(a[0])
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "poly":
        out = []
        for m, c in _unpoly(t):
            x = "*".join(s(y) for y in m)
            out.append(str(c) if not m else x if c == 1 else "-" + x if c == -1 else "%d*%s" % (c, x))
        return "(" + " + ".join(out) + ")"
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "lit":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if op == "mcall":
        return "%s.%s(%s)" % (s(a[0]), a[1], ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[2:]))
    if op == "call":
        return "%s(%s)" % (a[0], ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[1:]))
    if op == "map":
        return "[%s for #<%s]" % (s(a[1]), s(a[0]))
    if op == "ref":
        return "@" + ".".join(s(x) if isinstance(x, T) else str(x) for x in a)
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else str(x) for x in a))
