"""Operations on constants and on sequences of known length, as Python defines them."""

import functools
import itertools

from . import terms as t
from .terms import T, C, NONE, TRUE, FALSE, ZERO, ONE, raw, item, length, NOT, AND, OR, ite, lt, eq, is_bool

SCALARS = (int, str, bytes, bool, float, type(None))


def value(I, x, depth=0):
    """The Python value of a constant term, or raises ValueError."""
    if x.op == "c":
        return x.a[1]
    if x is NONE:
        return None
    if depth > 6:
        raise ValueError
    if x.op == "lit":
        return tuple(value(I, y, depth + 1) for y in x.a)
    if x.op == "ref":
        o = I.obj(x)
        c = I.content(x)
        if o.kind == "list" and c.op == "lit":
            return [value(I, y, depth + 1) for y in c.a]
        if o.kind in ("tuple", "iter") and c.op == "lit":
            return tuple(value(I, y, depth + 1) for y in c.a)
        if o.kind == "set" and c.op in ("lit", "setof"):
            c = c.a[0] if c.op == "setof" else c
            if c.op == "lit":
                return {value(I, y, depth + 1) for y in c.a}
        if o.kind == "dict":
            ks = t._lit_keys(c)
            if ks is not None:
                return {value(I, k, depth + 1): value(I, t.dget(c, k), depth + 1) for k in ks}
    raise ValueError


def back(I, v):
    """Term of a Python value."""
    if isinstance(v, SCALARS):
        return C(v)
    if isinstance(v, tuple):
        return raw("lit", *[back(I, x) for x in v])
    if isinstance(v, list):
        return I.new_list(raw("lit", *[back(I, x) for x in v]))
    if isinstance(v, dict):
        d = t.DEMPTY
        for k, x in v.items():
            d = t.dput(d, back(I, k), back(I, x))
        return I.new_dict(d)
    raise ValueError


STR_METHODS = {n for n in dir(str) if not n.startswith("_")} - {"maketrans", "translate", "format_map"}
BYTES_METHODS = {n for n in dir(bytes) if not n.startswith("_")} - {"maketrans", "translate"}
INT_METHODS = {"bit_length", "to_bytes", "conjugate", "bit_count", "is_integer", "as_integer_ratio"}


def const_method(I, b, name, args, kw, node):
    """Method of a constant with constant arguments; None if that is not known."""
    if b.op != "c":
        return None
    v = b.a[1]
    if isinstance(v, str) and name in STR_METHODS or isinstance(v, bytes) and name in BYTES_METHODS or (
            isinstance(v, int) and not isinstance(v, bool) and name in INT_METHODS):
        if name in ("encode", "decode") and kw:
            return None
        try:
            a = [value(I, x) for x in args]
            k = {n: value(I, x) for n, x in kw.items()}
        except (ValueError, AttributeError):
            return None
        if name in ("ljust", "rjust", "zfill", "center", "to_bytes") and a and isinstance(a[0], int) and a[0] > 1 << 16:
            return None
        try:
            return back(I, getattr(v, name)(*a, **k))
        except Exception as e:
            I.check(TRUE, type(e).__name__, node)
            return NONE
    return None


def const_call(I, f, args, kw, node, errors=(TypeError, ValueError, ZeroDivisionError, OverflowError, IndexError)):
    """f(*args) for constants; None if the arguments are not constant."""
    try:
        a = [value(I, x) for x in args]
        k = {n: value(I, x) for n, x in kw.items()}
    except (ValueError, AttributeError):
        return None
    try:
        return back(I, f(*a, **k))
    except errors as e:
        I.check(TRUE, type(e).__name__, node)
        return NONE


def order(I, a, b, node):
    """a < b for numbers and for sequences of them; None if not decided here."""
    if a.op == "c" and b.op == "c" and type(a.a[1]) in (str, bytes) and type(b.a[1]) is type(a.a[1]):
        return C(a.a[1] < b.a[1])
    if a.op == "c" and b.op == "c" and isinstance(a.a[1], float) | isinstance(b.a[1], float):
        try:
            return C(a.a[1] < b.a[1])
        except TypeError:
            return None
    x, y = seq_of(I, a), seq_of(I, b)
    if x is None or y is None:
        return None
    if x.op != "lit" or y.op != "lit":
        return None
    r = C(len(x.a) < len(y.a))
    for u, v in reversed(list(zip(x.a, y.a))):
        e = t.truth(I.equal(u, v, node))
        l = order(I, u, v, node)
        l = lt(u, v) if l is None else l
        r = ite(e, r, t.truth(l))
    return r


def seq_of(I, x):
    if x.op in t.SEQ:
        return x
    if x.op == "ref" and I.obj(x).kind in ("list", "tuple"):
        return I.content(x)
    return None


def set_of(I, x):
    """The elements of a set without repetition where that is known."""
    if x.op == "ref" and I.obj(x).kind == "set":
        c = I.content(x)
        return c.a[0] if c.op == "setof" else c
    if x.op in ("keys", "setof"):
        return x.a[0] if x.op == "setof" else x
    return None


def sort(I, s, key, reverse, node):
    """Sorted elements when the order of all keys is known."""
    if s.op != "lit":
        return None
    ks = [I.call(key, [x], {}, node) if key is not None and key is not NONE else x for x in s.a]
    known = {}

    def less(i, j):
        a, b = ks[i], ks[j]
        r = I.on_leaves(a, lambda x: I.on_leaves(b, lambda y: I.less(x, y, node)))
        r = I.under(r) if r.op == "ite" else r
        if r is TRUE:
            return True
        if r is FALSE:
            return False
        raise ValueError

    def cmp(i, j):
        return -1 if less(i, j) else 1 if less(j, i) else 0

    try:
        ix = sorted(range(len(ks)), key=functools.cmp_to_key(cmp), reverse=reverse)
    except ValueError:
        return None
    return raw("lit", *[s.a[i] for i in ix])


# ---- itertools on sequences of known length


def lits(I, args, node):
    out = []
    for a in args:
        if not isinstance(a, T):
            return None
        if a.op in ("repeat", "count", "cycle"):
            out.append(a)
            continue
        s = I.under(I.seq(a, node))
        if s.op != "lit":
            return None
        out.append(s)
    return out


def endless(x, n):
    """The first n elements of an endless iterator."""
    if x.op == "repeat":
        return [x.a[0]] * n
    if x.op == "count":
        return [t.add(x.a[0], t.mul(C(k), x.a[1])) for k in range(n)]
    if x.op == "cycle":
        return [x.a[0].a[k % len(x.a[0].a)] for k in range(n)]
    return None


def iter_call(I, name, args, kw, node):
    """itertools functions with effects in order; None if the lengths are not known."""
    if name in ("product", "permutations", "combinations", "combinations_with_replacement", "zip_longest", "pairwise", "compress"):
        k = None
        if name in ("permutations", "combinations", "combinations_with_replacement") and len(args) == 2:
            if args[1].op != "c":
                return None
            k, args = args[1].a[1], args[:1]
        ss = lits(I, args, node)
        if ss is None or any(s.op != "lit" for s in ss):
            return None
        if name == "product":
            rep = kw.get("repeat", ONE)
            if rep.op != "c":
                return None
            rows = itertools.product(*[s.a for s in ss], repeat=rep.a[1])
        elif name == "zip_longest":
            rows = itertools.zip_longest(*[s.a for s in ss], fillvalue=kw.get("fillvalue", NONE))
        elif name == "pairwise":
            rows = zip(ss[0].a, ss[0].a[1:])
        elif name == "compress":
            out = raw("lit")
            for x, c in zip(ss[0].a, ss[1].a):
                out = ite(I.truth(c), t.cat(out, raw("lit", x)), out)
            return out
        else:
            f = getattr(itertools, name)
            rows = f(ss[0].a, k) if k is not None or name != "permutations" else f(ss[0].a)
        rows = list(itertools.islice(rows, 5000))
        return raw("lit", *[raw("lit", *r) for r in rows])
    if name == "accumulate":
        ss = lits(I, args[:1], node)
        if ss is None:
            return None
        out = []
        xs = list(ss[0].a)
        if "initial" in kw:
            xs = [kw["initial"]] + xs
        f = args[1] if len(args) > 1 else kw.get("func")
        import ast
        for x in xs:
            if not out:
                out.append(x)
            else:
                out.append(I.binop(ast.Add(), out[-1], x, node) if f is None or f is NONE else I.call(f, [out[-1], x], {}, node))
        return raw("lit", *out)
    if name in ("takewhile", "dropwhile", "filterfalse"):
        ss = lits(I, args[1:], node)
        if ss is None:
            return None
        out = raw("lit")
        on = TRUE
        for x in ss[0].a:
            if name == "filterfalse":
                c = I.truth(I.call(args[0], [x], {}, node))
                out = ite(c, out, t.cat(out, raw("lit", x)))
                continue
            c = I.branch(on, lambda: I.truth(I.call(args[0], [x], {}, node)), lambda: FALSE)
            on = AND(on, c)
            out = ite(on if name == "takewhile" else NOT(on), t.cat(out, raw("lit", x)), out)
        return out
    if name == "groupby":
        ss = lits(I, args[:1], node)
        if ss is None:
            return None
        key = args[1] if len(args) > 1 else kw.get("key")
        groups = []
        for x in ss[0].a:
            k = I.call(key, [x], {}, node) if key is not None and key is not NONE else x
            if groups:
                e = I.under(t.truth(I.equal(groups[-1][0], k, node)))
                if e is TRUE:
                    groups[-1][1].append(x)
                    continue
                if e is not FALSE:
                    return None
            groups.append((k, [x]))
        return raw("lit", *[raw("lit", k, raw("lit", *xs)) for k, xs in groups])
    if name == "cycle":
        ss = lits(I, args[:1], node)
        return None if ss is None else raw("cycle", ss[0])
    return None


# ---------------------------------------------------------------------------------------------
# text put together from pieces


def is_text(x):
    return x.op == "c" and x.a[0] == "str" or x.op in ("strcat", "str", "fmt", "hexdigest", "repr", "conv", "cut", "hex") or x.op == "mcall" and x.a[1] == "hex"


def join_text(I, parts, node):
    """Concatenation; the parts are constants or (value, conversion, format specification)."""
    from .externs import b_repr, b_str

    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(C(p))
            continue
        x, conv, spec = p
        try:
            y = {"s": str, "r": repr, "a": ascii}.get(conv, lambda z: z)(value(I, x))
            out.append(C(format(y, spec)))
            continue
        except (ValueError, TypeError, AttributeError):
            pass
        if conv == "a" or spec not in ("", "s"):
            out.append(raw("fmt", C(conv), C(spec), I.reify(x)))
            continue
        out.append((b_repr if conv == "r" else b_str)(I, [x], {}, node))
    return t.lift(lambda *xs: t.strcat(*xs), *out) if out else C("")


def format_text(I, template, args, kw, node):
    """template.format(*args, **kw) for a constant template."""
    import string

    parts = []
    k = 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(template):
            if lit:
                parts.append(lit)
            if name is None:
                continue
            if spec and "{" in spec:
                return None
            first, rest = name, []
            if not name.isidentifier() and not name.isdigit() and name:
                import _string

                first, rest = _string.formatter_field_name_split(name)
                first, rest = str(first), list(rest)
            if first == "":
                x = args[k]
                k += 1
            elif first.isdigit():
                x = args[int(first)]
            else:
                x = kw[first]
            for attr, key in rest:
                x = I.getattr(x, key, node) if attr else I.item(x, C(key), node)
            parts.append((x, conv or "", spec or ""))
    except (ValueError, KeyError, IndexError, AttributeError):
        return None
    return join_text(I, parts, node)


def percent_text(I, template, args, kw, node):
    """template % args for a constant template."""
    import re

    parts = []
    k = 0
    pos = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-+ #0]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", template):
        if m.start() > pos:
            parts.append(template[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, c = m.groups()
        if c == "%":
            parts.append("%")
            continue
        if name is not None:
            if name not in kw:
                return None
            x = kw[name]
        else:
            if k >= len(args):
                return None
            x = args[k]
            k += 1
        if flags or width or prec or c not in "srdixX":
            parts.append((x, "", "%" + m.group(0)))
        elif c in "xX":
            parts.append((x, "", c))
        else:
            parts.append((x, "r" if c == "r" else "s" if c == "s" else "", ""))
    if pos < len(template):
        if "%" in template[pos:]:
            return None
        parts.append(template[pos:])
    if k != len(args) and not kw:
        return None
    return join_text(I, parts, node)
