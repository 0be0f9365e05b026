"""Models of the builtins, of the standard library and of the petlib/bplib interface."""

import ast

from . import terms as t
from .terms import (T, C, NONE, TRUE, FALSE, ZERO, ONE, INF, UNDEF, raw, sym, ite, NOT, AND, OR, lam, inst,
                    subst, truth, eq, lt, isnone, item, length, seqmap, seqfmap, seqflat, cat, seqslice,
                    exists, member, seqsum, dput, dget, din, dupd, dkeys, setof, fresh_var, is_bool, atom,
                    add, sub, mul, mod, power, neg)
from .program import Fn
from . import pyfold


def plain(args):
    return all(isinstance(a, T) for a in args)


HASHES = {"sha256", "sha512", "sha1", "md5", "sha224", "sha384", "blake2b", "blake2s", "sha3_256", "sha3_512", "sha3_384"}

EXC = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else __import__("builtins"))
       if n.endswith("Error") or n in ("Exception", "BaseException", "StopIteration", "KeyboardInterrupt")}


def parts_of(I, x, node=None):
    """The sequence of byte strings that a byte string is the concatenation of."""

    def f(x):
        if x.op == "strcat":
            return cat(*[parts_of(I, y, node) for y in x.a])
        if x.op == "joinseq" and x.a[0].op == "c" and x.a[0].a[1] in (b"", ""):
            return x.a[1]
        if x.op == "c" and x.a[1] in (b"", ""):
            return raw("lit")
        if x.op == "unk":
            return raw("lit", x)
        return raw("lit", x)

    return t.lift(f, x)


def call_ext(I, name, args, kw, node):
    if name.startswith("builtins."):
        f = BUILTINS.get(name[9:])
        if f is not None:
            return f(I, args, kw, node)
        if name[9:] in EXC:
            return I.new_exc(name[9:], [a for a in args if isinstance(a, T)])
    last = name.split(".")[-1]
    for p, f in EXT.items():
        if name == p:
            return f(I, args, kw, node)
    if last in HASHES and (name.startswith("hashlib") or name == last):
        return mk_hash(I, last, args, node)
    if name == "hashlib.new":
        alg = args[0].a[1] if args[0].op == "c" else "?"
        return mk_hash(I, alg, args[1:], node)
    if name.startswith("itertools.") and name not in EXT:
        r = pyfold.iter_call(I, last, args, kw, node)
        if r is not None or I.dead():
            return r if r is not None else NONE
    if name.startswith("operator."):
        return call_operator(I, last, args, kw, node)
    if name.startswith("math."):
        if last in ("ceil", "floor", "trunc") and len(args) == 1 and args[0].op == "c" and isinstance(args[0].a[1], (int, float)):
            import math

            return C(getattr(math, last)(args[0].a[1]))
        return t.build("math", last, *[a for a in args if isinstance(a, T)])
    if name.startswith("typing."):
        return args[-1] if args else NONE
    if name.startswith("attr.") or name.startswith("attr_"):
        if last in ("evolve", "assoc"):
            return attr_evolve(I, args, kw, node)
        if last == "asdict":
            return raw("unk", "asdict", I.reify(args[0]))
    if is_random(name):
        return random_call(I, name, args, kw, node)
    if name.endswith((".G1Elem.inf", ".G2Elem.inf")):
        return INF
    if name.endswith(".GTElem.one"):
        return ONE
    if name in FUNCTIONAL or name.endswith("Bn.from_num"):
        return FUNCTIONAL[name](I, args, kw, node)
    # anything else: an unknown function
    rargs = [I.reify(a) if isinstance(a, T) else raw("star", I.reify(a[1])) for a in args]
    rk = [raw("kw", k, I.reify(kw[k])) for k in sorted(kw)]
    if name in PURE_EXT or last in PURE_NAMES:
        res = t.build("call", name, *(rargs + rk))
    else:
        n = I.occurrence(("ext", name))
        res = t.build("call", name, *(rargs + rk + [C("#%d" % n)] + [v for v, _ in I.loops]))
    I.event("ext", None, name, [a if isinstance(a, T) else a[1] for a in args], kw, res, node)
    return res


PURE_EXT = {"petlib.ec.EcGroup", "EcGroup", "bplib.bp.BpGroup", "BpGroup", "binascii.hexlify", "binascii.unhexlify"}
PURE_NAMES = {"EcGroup", "from_bytes", "calcsize"}


def is_random(name):
    parts = name.split(".")
    return parts[0] in ("random", "secrets", "numpy") or name in ("os.urandom", "time.time", "os.getpid") or parts[0] in ("time", "uuid")


SYSTEM = ("secrets.", "os.urandom")


def random_call(I, name, args, kw, node):
    last = name.split(".")[-1]
    if name in ("random.SystemRandom", "secrets.SystemRandom"):
        r = raw("rng", "system")
        return r
    if name == "random.Random":
        return raw("rng", "pseudo")
    if name.startswith("random.") and last == "seed":
        I.event("ext", None, name, [a for a in args if isinstance(a, T)], kw, NONE, node)
        return NONE
    strong = name.startswith("secrets.") or name == "os.urandom"
    src = "secrets" if strong else name.split(".")[0]
    return draw(I, src, last, args, kw, node)


def draw(I, src, what, args, kw, node):
    """A random draw: fresh per call site occurrence and per loop iteration."""
    if I.force is not None and what in ("randbelow", "randrange", "randint"):
        b = [I.reify(a) for a in args]
        lo, hi = (ZERO, b[0]) if len(b) == 1 else (b[0], add(b[1], ONE) if what == "randint" else b[1])
        size = sub(hi, lo)
        if t.is_int(size) and 0 < size.a[1] <= 64:
            # a choice among few alternatives is made by the scenario
            res = add(lo, C(I.force % size.a[1]))
            I.event("draw", None, src + ".choice", [raw("range", lo, hi)], {}, res, node)
            return res
    if I.force is not None and what in ("shuffle", "sample") and args:
        q = I.seq(args[0], node)
        if q.op == "lit" and q.a and (what == "shuffle" or len(args) == 2 and args[1] is C(len(q.a))):
            k = I.force % len(q.a)
            res = I.new_list(raw("lit", *(q.a[k:] + q.a[:k])))
            I.event("draw", None, src + ".choice", [q], {}, res, node)
            if what == "sample":
                return res
            if args[0].op == "ref":
                I.obj(args[0])
                I.set_content(args[0], raw("lit", *(q.a[k:] + q.a[:k])))
                return NONE
    vs = [v for v, _ in I.loops]
    n = I.occurrence(("rand",))
    if what in ("token_bytes", "urandom", "randbytes", "token_hex", "token_urlsafe"):
        size = args[0] if args else C(32)
        res = raw("rand", C("%s.%s" % (src, what)), I.reify(size), C(n), *vs)
    elif what in ("randbelow",):
        res = raw("rand", C("%s.%s" % (src, what)), I.reify(args[0]), C(n), *vs)
    elif what in ("randbits", "getrandbits"):
        res = raw("rand", C("%s.randbelow" % src), power(C(2), args[0]), C(n), *vs)
    elif what in ("randrange",):
        lo, hi = (ZERO, args[0]) if len(args) == 1 else (args[0], args[1])
        r = raw("rand", C("%s.randbelow" % src), sub(hi, lo), C(n), *vs)
        res = add(r, lo)
    elif what == "randint":
        lo, hi = args[0], args[1]
        r = raw("rand", C("%s.randbelow" % src), add(sub(hi, lo), ONE), C(n), *vs)
        res = add(r, lo)
    elif what == "choice":
        s = I.seq(args[0], node)
        ln = length(s)
        if I.force is not None and t.is_int(ln) and ln.a[1] > 0:
            r = C(I.force % ln.a[1])
        else:
            r = raw("rand", C("%s.choice" % src), ln, C(n), *vs)
        res = item(s, r)
        I.event("draw", None, src + ".choice", [s], {}, res, node)
        return res
    else:
        res = raw("rand", C("%s.%s" % (src, what)), raw("lit", *[I.reify(a) for a in args if isinstance(a, T)]), C(n), *vs)
    I.event("draw", None, "%s.%s" % (src, what), [a for a in args if isinstance(a, T)], {}, res, node)
    return res


def bn_random(I, bound, node):
    vs = [v for v, _ in I.loops]
    n = I.occurrence(("rand",))
    res = t.lift(lambda b: raw("rand", C("bn.random"), b, C(n), *vs), bound)
    I.event("draw", None, "bn.random", [bound], {}, res, node)
    return res


# ---------------------------------------------------------------------------------------------
# builtins


def b_len(I, args, kw, node):
    def f(x):
        if x.op == "ref":
            o = I.obj(x)
            if o.kind == "inst":
                r = I.user_op(x, "__len__", [], node)
                if r is not None:
                    return r
                return I.unk("len of an object", x, node=node)
            c = I.content(x)
            if o.kind == "dict":
                return length(dkeys(c))
            return length(c)
        c = I.content(x)
        if c.op in ("dput", "dputall", "dupd", "dempty", "dwithout"):
            return length(dkeys(c))
        return length(c)

    return I.on_leaves(args[0], f)


def b_range(I, args, kw, node):
    if len(args) == 1:
        lo, hi, st = ZERO, args[0], ONE
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], ONE
    else:
        lo, hi, st = args

    def f(lo, hi, st):
        v = fresh_var()
        if st is ONE:
            n = sub(hi, lo)
            if t.is_int(n) and n.a[1] < 0:
                n = ZERO
            return seqmap(n, lam(v, add(lo, v)))
        if t.is_int(st) and st.a[1] == -1:
            n = sub(lo, hi)
            return seqmap(n, lam(v, sub(lo, v)))
        if all(t.is_int(x) for x in (lo, hi, st)):
            return raw("lit", *[C(x) for x in range(lo.a[1], hi.a[1], st.a[1])])
        return raw("unk", "range with step", lo, hi, st)

    return t.lift(f, lo, hi, st)


def b_enumerate(I, args, kw, node):
    s = I.seq(args[0], node)
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)

    def f(s):
        if s.op == "lit":
            return raw("lit", *[raw("lit", add(start, C(i)), x) for i, x in enumerate(s.a)])
        v = fresh_var()
        return seqmap(length(s), lam(v, raw("lit", add(start, v), item(s, v))))

    return t.lift(f, s)


def b_zip(I, args, kw, node):
    if not plain(args):
        if len(args) == 1:
            return transposed(I, args[0][1], node)
        return I.unk("zip of unknown sequences", node=node)
    if len(args) > 1 and all(a is args[0] for a in args) and args[0].op == "ref" and I.obj(args[0]).kind == "iter":
        c = I.under(I.seq(args[0], node))
        k = len(args)
        if c.op == "lit":
            return raw("lit", *[raw("lit", *c.a[i:i + k]) for i in range(0, len(c.a) - k + 1, k)])
        return I.unk("grouped iterator", c, node=node)
    if any(a.op in ("repeat", "count", "cycle") for a in args):
        for a in args:
            if a.op == "count":
                now = counted(I, a)
                args = [now if x is a else x for x in args]
                counted(I, a, I.unk("counter", a))
        if any(a.op == "unk" for a in args):
            return I.unk("zip with a counter", *args, node=node)
        fin = [I.under(I.seq(a, node)) for a in args if a.op not in ("repeat", "count", "cycle")]
        if fin and all(f.op == "lit" for f in fin):
            n = min(len(f.a) for f in fin)
            args = [raw("lit", *pyfold.endless(a, n)) if a.op in ("repeat", "count", "cycle") else a for a in args]
            fin = iter(fin)
            args = [a if a.op == "lit" and len(a.a) == n and a in args else a for a in args]
        elif fin:
            n = t.minlen([length(f) for f in fin])
            v = fresh_var()
            args = [seqmap(n, lam(v, a.a[0])) if a.op == "repeat" else seqmap(n, lam(v, add(a.a[0], mul(v, a.a[1])))) if a.op == "count" else a for a in args]
    ss = [I.seq(a, node) for a in args if isinstance(a, T)]

    def f(*ss):
        if all(s.op == "lit" for s in ss):
            return raw("lit", *[raw("lit", *xs) for xs in zip(*[s.a for s in ss])])
        ns = [length(s) for s in ss]
        n = t.minlen(ns)
        if n.op == "minlen" and kw.get("strict") is not TRUE:
            I.event("zip", None, "zip", list(ss), {}, n, node)
        v = fresh_var()
        return seqmap(n, lam(v, raw("lit", *[item(s, v) for s in ss])))

    return t.lift(f, *ss)


def transposed(I, s, node):
    """zip(*s)"""
    def f(s):
        if s.op == "lit":
            return b_zip(I, list(s.a), {}, node)
        v = fresh_var()
        x = I.content(item(s, v)) if item(s, v).op == "ref" else item(s, v)
        if x.op == "lit":
            return raw("lit", *[seqmap(length(s), lam(v, y)) for y in x.a])
        return raw("unk", "zip(*)", I.reify(s))

    return t.lift(f, I.under(s))


def via_loop(I, s, fn, node):
    """[fn(x) for x in s] evaluated by the interpreter (fn may have effects)."""
    I.uid += 1
    loc = ("v", I.frames[-1].fid, "$m%d" % I.uid)
    I.st.s[loc] = raw("lit")

    def body(x):
        r = fn(x)
        I.st.s[loc] = cat(I.st.s[loc], r)

    I.for_each(s, body, node)
    return I.st.s.pop(loc, raw("lit"))


def b_map(I, args, kw, node):
    f = args[0]
    if len(args) == 2:
        return via_loop(I, I.seq(args[1], node), lambda x: raw("lit", I.call(f, [x], {}, node)), node)
    z = b_zip(I, args[1:], {}, node)
    k = len(args) - 1
    return via_loop(I, z, lambda x: raw("lit", I.call(f, [item(x, C(i)) for i in range(k)], {}, node)), node)


def b_filter(I, args, kw, node):
    f = args[0]
    return via_loop(I, I.seq(args[1], node), lambda x: ite(I.truth(x if f is NONE else I.call(f, [x], {}, node)), raw("lit", x), raw("lit")), node)


def quantify(I, s, node):
    """Condition: some element of the sequence is true."""
    s = I.under(s)

    def f(s):
        if s.op == "lit":
            return OR(*[I.truth(x) for x in s.a])
        if s.op == "cat":
            return OR(*[f(x) for x in s.a])
        if s.op == "setof":
            return f(s.a[0])
        v = fresh_var()
        if s.op == "fmap":
            return exists(s.a[0], lam(v, AND(truth(inst(s.a[1], v)), I.truth(inst(s.a[2], v)))))
        if s.op == "flat":
            return exists(s.a[0], lam(v, t.lift(f, inst(s.a[1], v))))
        return exists(length(s), lam(v, I.truth(item(s, v))))

    return t.lift(f, s)


def mapneg(I, s):
    def f(s):
        if s.op == "lit":
            return raw("lit", *[NOT(I.truth(x)) for x in s.a])
        if s.op == "cat":
            return cat(*[f(x) for x in s.a])
        v = fresh_var()
        if s.op == "setof":
            return f(s.a[0])
        if s.op == "fmap":
            return seqfmap(s.a[0], s.a[1], lam(v, NOT(I.truth(inst(s.a[2], v)))))
        if s.op == "flat":
            return seqflat(s.a[0], lam(v, t.lift(f, inst(s.a[1], v))))
        return seqmap(length(s), lam(v, NOT(I.truth(item(s, v)))))

    return t.lift(f, s)


def b_any(I, args, kw, node):
    return quantify(I, I.seq(args[0], node), node)


def b_all(I, args, kw, node):
    return NOT(quantify(I, mapneg(I, I.seq(args[0], node)), node))


def sum_seq(I, s, start, node):
    def f(s):
        if s.op == "lit":
            r = start
            for x in s.a:
                r = I.binop(ast.Add(), r, x, node)
            return r
        if s.op == "cat":
            r = start
            for x in s.a:
                r = add(r, sum_seq(I, x, ZERO, node))
            return r
        v = fresh_var()
        if s.op == "fmap":
            return add(start, seqsum(s.a[0], lam(v, ite(I.truth(inst(s.a[1], v)), inst(s.a[2], v), ZERO))))
        if s.op == "flat":
            return add(start, seqsum(s.a[0], lam(v, t.lift(f, inst(s.a[1], v)))))
        x = item(s, v)
        if x.op == "ref" and I.obj(x).kind == "inst" or (start.op == "ref"):
            acc = [start]
            return I.unk("sum of objects", s, node=node)
        if x.op == "ref" and I.obj(x).kind == "list":
            return I.unk("sum of lists", s, node=node)
        return add(start, seqsum(length(s), lam(v, x)))

    return t.lift(f, s)


def b_sum(I, args, kw, node):
    s = I.seq(args[0], node)
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    if start.op == "ref" and I.obj(start).kind == "list":
        v = fresh_var()
        r = via_loop(I, s, lambda x: I.seq(x, node), node)
        return I.new_list(cat(I.content(start), r))
    return sum_seq(I, s, start, node)


def minmax(I, args, kw, node, sign):
    if len(args) == 1:
        s = I.under(I.seq(args[0], node))
        if s.op == "setof" and t.setlist(s) is not None:
            s = t.setlist(s)
        if s.op != "lit":
            return t.build("max" if sign > 0 else "min", I.reify(s), *[raw("kw", k, I.reify(v)) for k, v in sorted(kw.items())])
        args = list(s.a)
    if not args:
        if "default" in kw:
            return kw["default"]
        I.check(TRUE, "ValueError", node)
        return NONE
    key = kw.get("key")
    val = (lambda x: x) if key is None or key is NONE else (lambda x: I.call(key, [x], {}, node))
    r = args[0]
    rk = val(r)
    for x in args[1:]:
        xk = val(x)
        c = I.on_leaves(rk, lambda u: I.on_leaves(xk, lambda w: I.less(u, w, node) if sign > 0 else I.less(w, u, node)))
        r, rk = ite(c, x, r), ite(c, xk, rk)
    return r


def subset(I, a, b, node):
    """Condition: every element of a is in b."""
    s = I.seq(a, node)
    s = s.a[0] if s.op == "setof" else s
    return NOT(quantify(I, via_loop(I, s, lambda x: raw("lit", NOT(truth(I.contains(x, b, node)))), node), node))


def set_op(I, name, a, b, node):
    """a | b, a & b, a - b, a ^ b for sets."""
    el = lambda x: (lambda c: c.a[0] if c.op == "setof" else c)(I.seq(x, node))
    r = I.new_obj("set")
    pick = lambda x, other, keep: via_loop(I, el(x), lambda y: (lambda m: ite(m if keep else NOT(m), raw("lit", y), raw("lit")))(truth(I.contains(y, other, node))), node)
    if name == "or":
        c = cat(el(a), el(b))
    elif name == "and":
        c = pick(a, b, True)
    elif name == "sub":
        c = pick(a, b, False)
    else:
        c = cat(pick(a, b, False), pick(b, a, False))
    I.set_loc(("#", r.a[0]), setof(c))
    return r


def classes_of(I, c, node):
    """Class values named by the second argument of isinstance."""
    if c.op == "lit":
        out = []
        for x in c.a:
            out += classes_of(I, x, node)
        return out
    if c.op == "ref" and I.obj(c).kind in ("list", "tuple"):
        return classes_of(I, I.content(c), node)
    return [c]


PYTYPES = {"builtins.int": ("int", "bool"), "builtins.bytes": ("bytes",), "builtins.str": ("str",), "builtins.bool": ("bool",),
           "builtins.float": ("float",)}


def text_type(x):
    """"str" or "bytes" for what is one of the two."""
    if x.op == "c":
        return x.a[0] if x.a[0] in ("str", "bytes") else None
    if x.op in ("digest", "enc", "utf8", "struct"):
        return "bytes"
    if x.op in ("hexdigest", "str", "repr", "fmt", "hex"):
        return "str"
    if x.op == "cut":
        return text_type(x.a[0])
    if x.op == "strcat":
        return next((text_type(y) for y in x.a if text_type(y)), None)
    if x.op == "conv":
        return "bytes" if x.a[0].a[1] in ("hexlify", "to_bytes", "bytes") else "str" if x.a[0].a[1] in ("hex", "decode", "urn") else None
    return None


def isinst(I, x, c, node):
    if c.op == "cls":
        k = I.prog.classes[c.a[0]]
        if x.op == "ref":
            o = I.obj(x)
            if o.kind == "inst":
                return C(k in I.prog.mro(o.cls))
            return FALSE
        s = I.sort_of(x)
        if s is not None:
            if k in I.prog.mro(s):
                return TRUE
            if k not in I.prog.subclasses(s) and not (set(I.prog.subclasses(s)) & set(I.prog.subclasses(k))):
                return FALSE
        if x.op == "c" or x.op in t.SEQ or x.op in ("poly", "mod", "inf", "digest", "enc", "rand") or x in t.NUMS or text_type(x):
            return FALSE
        return atom("isinst", x, raw("clsname", k.name))
    if c.op == "extf":
        n = c.a[0]
        last = n.split(".")[-1]
        if n in PYTYPES and x.op == "c":
            return C(x.a[0] in PYTYPES[n])
        if n in ("builtins.bytes", "builtins.str") and (x.op in ("ref", "poly", "mod", "rand", "cls", "inf") or x.op in t.SEQ):
            return FALSE
        if n in PYTYPES and text_type(x):
            return C(last == text_type(x))
        if n in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.set") :
            if x.op == "ref":
                return C(I.obj(x).kind == last)
            if x.op in t.SEQ:
                return C(last == "tuple")
            if x.op == "c":
                return FALSE
        if x in t.POINTS and n.startswith("builtins."):
            return FALSE
        if x in t.NUMS and n in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.set", "builtins.bytes", "builtins.str"):
            return FALSE
        if x.op == "ref" and I.obj(x).kind in ("list", "dict", "set", "hash"):
            return FALSE
        if x is NONE:
            return FALSE
        if x.op == "c" and x.a[0] in ("str", "bytes"):
            return FALSE
        return atom("isinst", x, raw("clsname", last))
    if c.op == "clsof":
        if x is c.a[0]:
            return TRUE
    return atom("isinst", I.reify(x), I.reify(c))


def b_isinstance(I, args, kw, node):
    cs = classes_of(I, args[1], node)
    return I.on_leaves(args[0], lambda x: OR(*[isinst(I, x, c, node) for c in cs]))


def b_issubclass(I, args, kw, node):
    cs = classes_of(I, args[1], node)
    if args[0].op == "cls" and all(c.op == "cls" for c in cs):
        m = I.prog.mro(I.prog.classes[args[0].a[0]])
        return C(any(I.prog.classes[c.a[0]] in m for c in cs))
    return atom("isinst", args[0], *cs)


def has_attr(I, x, name):
    def f(x):
        if x.op == "ref":
            o = I.obj(x)
            if o.kind == "inst":
                m = I.prog.lookup(o.cls, name)
                if m is not None:
                    return TRUE
                v = I.read_field(x, name)
                if v is UNDEF:
                    return FALSE
                if v.op == "ite":
                    return t.lift(lambda l: C(l is not UNDEF), v)
                if o.lazy is not None and v.op == "attr":
                    if name in I.prog.cls_init_fields(o.cls):
                        return TRUE
                    return atom("hasattr", x, C(name))
                return TRUE
            return C(hasattr({"list": [], "dict": {}, "set": set()}.get(o.kind, 0), name))
        if x.op in t.SEQ:
            return C(hasattr((), name))
        if x is NONE or x.op == "c":
            return C(hasattr(x.a[1], name))
        if x.op in ("cls",):
            return C(I.prog.lookup(I.prog.classes[x.a[0]], name) is not None)
        v = I.read_field(x, name)
        if v.op == "attr" and v.a[0] is x:
            return atom("hasattr", x, C(name))
        if v.op == "ite":
            at = atom("hasattr", x, C(name))
            return t.lift(lambda l: at if (l.op == "attr" and l.a[0] is x) else TRUE, v)
        return TRUE

    return I.on_leaves(x, f)


def b_hasattr(I, args, kw, node):
    if args[1].op != "c":
        return I.unk("hasattr", args[0], node=node)
    return has_attr(I, args[0], args[1].a[1])


def b_getattr(I, args, kw, node):
    if args[1].op != "c":
        n = args[1]
        if n.op == "ite":
            return I.on_leaves(n, lambda m: b_getattr(I, [args[0], m] + list(args[2:]), kw, node))
        return I.unk("getattr with a computed name", args[0], node=node)
    name = args[1].a[1]
    if len(args) == 2:
        return I.getattr(args[0], name, node)
    c = has_attr(I, args[0], name)
    return I.branch(truth(c), lambda: I.getattr(args[0], name, node), lambda: args[2])


def b_setattr(I, args, kw, node):
    if args[1].op == "ite":
        return I.on_leaves(args[1], lambda m: b_setattr(I, [args[0], m, args[2]], kw, node))
    if args[1].op != "c":
        I.event("setattr", args[0], "?", [args[2]], {}, None, node)
        I.note("setattr with a computed name", node)
        return NONE
    I.setattr(args[0], args[1].a[1], args[2], node)
    return NONE


def b_delattr(I, args, kw, node):
    I.event("delattr", args[0], str(args[1]), [], {}, None, node)
    if args[1].op == "c":
        def f(b):
            if b.op == "ref" and I.obj(b).kind == "inst":
                I.write_field(b, args[1].a[1], UNDEF)
            return NONE
        I.on_leaves(args[0], f)
    return NONE


def b_list(I, args, kw, node):
    if not args:
        return I.new_list(raw("lit"))
    return I.new_list(I.seq(args[0], node))


def b_tuple(I, args, kw, node):
    if not args:
        return raw("lit")
    return I.seq(args[0], node)


def b_set(I, args, kw, node):
    r = I.new_obj("set")
    s = setof(I.seq(args[0], node)) if args else raw("lit")
    I.set_loc(("#", r.a[0]), s)
    return r


def b_frozenset(I, args, kw, node):
    return b_set(I, args, kw, node)


def b_dict(I, args, kw, node):
    d = t.DEMPTY
    if args:
        x = args[0]
        c = I.content(x)
        if x.op == "ref" and I.obj(x).kind == "dict" or c.op in ("dput", "dputall", "dupd", "dempty", "dwithout") or I.sorts.get(("dict", x)):
            d = c
        elif x.op == "idict" and c is not x:
            d = c
        elif x.op == "idict":
            return x
        elif c.op in t.SEQ or (x.op == "ref"):
            d = dict_of_pairs(I, c, node)
        else:
            # an unknown mapping or sequence of pairs
            d = raw("dupd", t.DEMPTY, c) if False else c
    for k, v in kw.items():
        if k == "**":
            d = dupd(d, v)
        else:
            d = dput(d, C(k), v)
    return I.new_dict(d)


def dict_of_pairs(I, s, node):
    def f(s):
        if s.op == "lit":
            d = t.DEMPTY
            for x in s.a:
                y = I.seq(x, node)
                d = dput(d, item(y, ZERO), item(y, ONE))
            return d
        if s.op == "items":
            return s.a[0]
        if s.op == "cat":
            d = t.DEMPTY
            for x in s.a:
                d = dupd(d, f(x))
            return d
        v = fresh_var()
        if s.op == "fmap":
            w = fresh_var()
            x = I.seq(inst(s.a[2], w), node)
            F = t.seqfmap(s.a[0], s.a[1], lam(w, w))
            fj = item(F, v)
            return t.dputall(length(F), t.DEMPTY, lam(v, raw("lit", *[subst(item(x, k), {w: fj}) for k in (ZERO, ONE)])))
        x = I.seq(item(s, v), node)
        return t.dputall(length(s), t.DEMPTY, lam(v, raw("lit", item(x, ZERO), item(x, ONE))))

    return t.lift(f, s)


def b_sorted(I, args, kw, node):
    s = I.under(I.seq(args[0], node))
    rev = kw.get("reverse", FALSE)
    if s.op == "setof" and t.setlist(s) is not None:
        s = t.setlist(s)
    if s.op == "lit" and (rev is TRUE or rev is FALSE):
        r = pyfold.sort(I, s, kw.get("key"), rev is TRUE, node)
        if r is not None:
            return I.new_list(r)
    key = kw.get("key")
    ks = NONE
    if s.op == "lit" and (key is None or key is NONE or key.op == "extf" and key.a[0] in ("builtins.str", "builtins.repr")):
        # the order they came in does not matter
        s = raw("lit", *sorted(s.a, key=lambda x: I.reify(x).id))
    if key is not None:
        v = fresh_var()
        ks = raw("keyfn")
        try:
            ks = lam(v, I.reify(I.call(key, [v], {}, node)))
        except Exception:
            pass
    return I.new_list(raw("sorted", s, ks, I.reify(kw.get("reverse", FALSE))))


def b_reversed(I, args, kw, node):
    s = I.seq(args[0], node)

    def f(s):
        if s.op == "lit":
            return raw("lit", *s.a[::-1])
        v = fresh_var()
        n = length(s)
        return seqmap(n, lam(v, item(s, sub(sub(n, ONE), v))))

    return t.lift(f, s)


def b_str(I, args, kw, node):
    def f(x):
        if x.op == "ref" and I.obj(x).kind == "exc":
            a = I.read_field(x, "args")
            if a.op == "lit" and len(a.a) <= 1:
                return b_str(I, [a.a[0]], {}, node) if a.a else C("")
        try:
            return C(str(pyfold.value(I, x)))
        except (ValueError, AttributeError):
            pass
        if pyfold.is_text(x):
            return x
        return text(I, x, ("__str__", "__repr__"), node)

    if not args:
        return C("")
    return I.on_leaves(args[0], f)


def text(I, x, names, node):
    for n in names:
        r = I.user_op(x, n, [], node) if x.op == "ref" else None
        if r is not None:
            return r
    return raw("str", I.reify(x))


def b_repr(I, args, kw, node):
    return I.on_leaves(args[0], lambda x: text(I, x, ("__repr__",), node))


def b_int(I, args, kw, node):
    if not args:
        return ZERO

    def f(x):
        if len(args) == 2:
            r = pyfold.const_call(I, int, [x, args[1]], {}, node)
            if r is not None:
                return r
            if x.op == "hexdigest" and args[1] is C(16):
                return raw("h2n", raw("digest", *x.a))
            return raw("call", "int", I.reify(x), I.reify(args[1]))
        if is_bool(x):
            return ite(x, ONE, ZERO)
        if x.op == "c" and x.a[0] in ("int", "bool"):
            return C(int(x.a[1]))
        if x.op == "c" and x.a[0] == "str":
            try:
                return C(int(x.a[1]))
            except ValueError:
                I.check(TRUE, "ValueError", node)
                return NONE
        if x.op == "c" and x.a[0] == "float":
            return C(int(x.a[1]))
        if x.op in ("unk",):
            return x
        if x.op == "binop" and x.a[0] == "truediv":
            return t.build("call", "int", x)
        return x

    if is_bool(args[0]):
        return ite(I.truth(args[0]), ONE, ZERO)
    return I.on_leaves(args[0], f)


def b_bool(I, args, kw, node):
    return I.truth(args[0], node) if args else FALSE


def b_type(I, args, kw, node):
    def f(x):
        if x.op == "ref" and I.obj(x).kind == "inst":
            return I.clsval(I.obj(x).cls)
        if x.op == "ref" and I.obj(x).kind == "exc":
            return raw("extf", "builtins." + I.obj(x).alg)
        if x.op == "ref":
            return raw("extf", "builtins." + I.obj(x).kind)
        if x.op in t.SEQ:
            return raw("extf", "builtins.tuple")
        if is_bool(x):
            return raw("extf", "builtins.bool")
        if x is NONE:
            return raw("extf", "types.NoneType")
        if x.op == "c":
            return raw("extf", "builtins." + x.a[0])
        return raw("clsof", x)

    return I.on_leaves(args[0], f)


def b_print(I, args, kw, node):
    I.event("emit", None, "print", [a for a in args if isinstance(a, T)], {}, None, node)
    return NONE


def b_iter(I, args, kw, node):
    x = args[0]
    if x.op == "ref" and I.obj(x).kind == "iter":
        return x
    if x.op == "ref" and I.obj(x).kind == "inst":
        r = I.user_op(x, "__iter__", [], node)
        if r is not None and r.op == "ref":
            return r
    return I.seq(x, node)


def b_next(I, args, kw, node):
    x = args[0]
    if x.op == "sym" and str(x.a[0]).startswith("counter:"):
        # a counter that other calls have used before
        return raw("tick", C(x.a[0]), C(I.occurrence(("tick",))), *[v for v, _ in I.loops])
    if x.op == "count":
        now = counted(I, x)
        if now.op == "unk":
            return now
        counted(I, x, ONE)
        return now.a[0]
    if x.op in ("repeat", "cycle"):
        return x.a[0] if x.op == "repeat" else I.unk("next of a cycle", x, node=node)
    if x.op == "ite" and not is_bool(x):
        return I.on_leaves(x, lambda y: b_next(I, [y] + list(args[1:]), kw, node))
    if x.op == "ref" and I.obj(x).kind == "inst":
        from .interp import TryCtx
        if len(args) > 1:
            return I.unk("next with a default", x, node=node)
        r = I.user_op(x, "__next__", [], node)
        return r if r is not None else I.unk("next", x, node=node)
    if x.op == "ref" and I.obj(x).kind == "iter":
        def step(c):
            I.set_content(x, seqslice(c, ONE, NONE) if c.op != "fmap" else I.unk("rest of an iterator", c, node=node))
            if c.op == "fmap":
                return inst(c.a[2], raw("first", c.a[0], c.a[1]))
            return item(c, ZERO)

        def go(c):
            more = NOT(t.eq0(length(c))) if c.op != "fmap" else exists(c.a[0], c.a[1])

            def end():
                if len(args) > 1:
                    return args[1]
                I.check(TRUE, "StopIteration", node)
                return NONE

            if len(args) > 1 or more is FALSE or any(I.exc_matches("StopIteration", h) for c in I.tries for h in c.names):
                return I.branch(more, lambda: step(c), end)
            return step(c)

        return I.on_leaves(I.content(x), go)
    s = I.seq(x, node)
    if s.op == "lit" and not s.a and len(args) < 2:
        I.check(TRUE, "StopIteration", node)
        return NONE
    default = args[1] if len(args) > 1 else None

    def f(s):
        if s.op == "fmap":
            n, lc, lb = s.a
            first = raw("first", n, lc)
            v = inst(lb, first)
            if default is None:
                return v
            return ite(exists(n, lc), v, default)
        v = item(s, ZERO)
        if default is None:
            return v
        if s.op == "lit":
            return v if s.a else default
        return ite(NOT(t.eq0(length(s))), v, default)

    return t.lift(f, s)


def b_abs(I, args, kw, node):
    r = pyfold.const_call(I, abs, args, kw, node)
    if r is not None:
        return r
    return t.build("abs", args[0])


def b_pow(I, args, kw, node):
    if len(args) == 3:
        return mod(power(args[0], args[1]), args[2])
    return power(args[0], args[1])


def b_divmod(I, args, kw, node):
    r = pyfold.const_call(I, divmod, args, kw, node)
    if r is not None:
        return r
    return raw("lit", t.build("binop", "floordiv", args[0], args[1]), mod(args[0], args[1]))


def b_bytes(I, args, kw, node):
    if not args:
        return C(b"")
    if not (args[0].op == "c" and isinstance(args[0].a[1], int) and args[0].a[1] > 4096):
        r = pyfold.const_call(I, bytes, args, kw, node)
        if r is not None:
            return r
    if len(args) >= 2 or "encoding" in kw:
        return enc_utf8(args[0], args[1:], kw)
    x = args[0]
    if x.op in ("enc", "digest", "utf8") or (x.op == "c" and x.a[0] == "bytes"):
        return x
    return t.build("bytes", I.reify(x))


def x_hexlify(I, args, kw, node):
    if plain(args) and len(args) == 1 and args[0].op in t.TOKEN_OPS and t.tokens(args[0]):
        return raw("conv", C("hexlify"), args[0])
    return t.build("call", "binascii.hexlify", *[I.reify(a) for a in args])


def b_hash(I, args, kw, node):
    def f(x):
        r = I.user_op(x, "__hash__", [], node)
        if r is not None:
            return r
        return raw("pyhash", I.reify(x))

    return I.on_leaves(args[0], f)


def b_id(I, args, kw, node):
    return I.on_leaves(args[0], t.address)


def b_callable(I, args, kw, node):
    def f(x):
        if x.op in ("fn", "bound", "cls", "extf", "bm"):
            return TRUE
        if x.op == "c":
            return FALSE
        return atom("cond", C("callable"), I.reify(x))
    return I.on_leaves(args[0], f)


def b_vars(I, args, kw, node):
    return raw("idict", args[0])


def b_round(I, args, kw, node):
    r = pyfold.const_call(I, round, args, kw, node)
    if r is not None:
        return r
    return t.build("call", "round", *[a for a in args])


def b_object(I, args, kw, node):
    return I.new_list(raw("lit"))


def b_format(I, args, kw, node):
    r = pyfold.const_call(I, format, args, kw, node)
    if r is not None:
        return r
    if len(args) == 1 or len(args) == 2 and args[1].op == "c":
        return pyfold.join_text(I, [(args[0], "", args[1].a[1] if len(args) == 2 else "")], node)
    return raw("fmt", *[I.reify(a) for a in args if isinstance(a, T)])


def b_chr(I, args, kw, node):
    r = pyfold.const_call(I, chr, args, kw, node)
    if r is not None:
        return r
    return t.build("call", "chr", args[0])


def b_bytearray(I, args, kw, node):
    return b_bytes(I, args, kw, node)


BUILTINS = {n[2:]: f for n, f in list(globals().items()) if n.startswith("b_")}
BUILTINS["min"] = lambda I, a, k, n: minmax(I, a, k, n, -1)
BUILTINS["max"] = lambda I, a, k, n: minmax(I, a, k, n, 1)
BUILTINS["ascii"] = b_repr
def folded(name):
    import builtins
    f = getattr(builtins, name)

    def g(I, a, k, n):
        r = pyfold.const_call(I, f, a, k, n)
        if r is None and name == "hex" and a[0].op in t.TOKEN_OPS and t.tokens(a[0]):
            return raw("hex", a[0])
        return r if r is not None else t.build("call", name, *[I.reify(x) for x in a if isinstance(x, T)])

    return g


for _n in ("hex", "bin", "oct", "ord", "float"):
    BUILTINS[_n] = folded(_n)


# ---------------------------------------------------------------------------------------------
# library functions


def enc_utf8(x, args=(), kw=None):
    kw = kw or {}
    errors = kw.get("errors", args[1] if len(args) > 1 else None)
    lossy = errors is not None and not (errors.op == "c" and errors.a[1] in ("strict", "surrogatepass", "surrogateescape", "backslashreplace"))

    def f(x):
        if lossy:
            return raw("lossyenc", x, errors)
        if x.op == "c" and x.a[0] == "str":
            return C(x.a[1].encode())
        return raw("utf8", x)
    return t.lift(f, x)


def mk_hash(I, alg, args, node):
    r = I.new_obj("hash", alg=alg)
    s = raw("lit")
    if args:
        s = parts_of(I, I.reify(args[0]), node)
    I.set_loc(("#", r.a[0]), s)
    return r


def x_bn(I, args, kw, node):
    if not args:
        return ZERO
    return args[0]


def x_from_hex(I, args, kw, node):
    def f(x):
        if x.op == "hexdigest":
            return raw("h2n", raw("digest", *x.a))
        if x.op == "cut":
            return raw("h2n", x)
        if x.op == "mcall" and x.a[1] == "hex":
            return x.a[0]
        return raw("h2n", I.reify(x))
    return I.on_leaves(args[0], f)


def x_from_binary(I, args, kw, node):
    if plain(args) and args and args[0].op == "c" and (len(args) > 1 or "byteorder" in kw):
        r = pyfold.const_call(I, int.from_bytes, args, kw, node)
        if r is not None:
            return r
    return I.on_leaves(args[0], lambda x: raw("h2n", I.reify(x)))


def x_encode(I, args, kw, node):
    r = I.reify(args[0])
    return t.build("enc", r)


def x_decode(I, args, kw, node):
    def f(x):
        x = I.reify(x)
        if x.op == "enc":
            return decoded(I, x.a[0])
        return t.build("dec", x)
    return I.on_leaves(args[0], f)


def decoded(I, x):
    """Tuples come back as lists."""
    if x.op in ("L", "lit") and content_of(x) is not None:
        return I.new_list(raw("lit", *[decoded(I, y) for y in content_of(x)]))
    if x.op == "D":
        return I.new_dict(dict_content(I, x.a[0]))
    return x


def dict_content(I, d):
    if d.op == "dput":
        return raw("dput", dict_content(I, d.a[0]), d.a[1], decoded(I, d.a[2]))
    return d


def content_of(x):
    x = x.a[0] if x.op == "L" else x
    return x.a if x.op == "lit" else None


def x_packb(I, args, kw, node):
    b = kw.get("use_bin_type")
    if b is not None and b is not TRUE:
        # byte strings are packed as text
        return t.build("lossypack", I.reify(args[0]))
    return t.build("packb", I.reify(args[0]))


def x_unpackb(I, args, kw, node):
    def f(x):
        x = I.reify(x)
        if x.op == "packb":
            y = x.a[0]
            return y.a[0] if y.op == "L" else y
        return t.build("unpackb", x)
    return I.on_leaves(args[0], f)


def x_copy(I, args, kw, node):
    def f(x):
        if x.op == "ref":
            o = I.obj(x)
            if o.kind == "inst":
                m = I.prog.lookup(o.cls, "__copy__")
                if isinstance(m, Fn):
                    return I.call_fn(m, [x], {}, node, me=x)
                r = I.new_obj("inst", o.cls, lazy=None)
                copy_fields(I, x, r)
                return r
            r = I.new_obj(o.kind, default=o.default, alg=o.alg)
            I.set_loc(("#", r.a[0]), I.content(x))
            return r
        if x.op in t.SEQ or x.op == "c":
            return x
        return raw("copy", x)

    return I.on_leaves(args[0], f)


def copy_fields(I, src, dst):
    o = I.obj(src)
    names = {k[2] for k in I.st.s if k[0] == "f" and k[1] == src.a[0]}
    if o.lazy is not None:
        names |= set(I.prog.assigned_fields(o.cls))
        # an instance whose remaining fields are those of the original
    for n in sorted(names):
        v = I.read_field(src, n)
        if v is not UNDEF:
            I.write_field(dst, n, v)
    I.obj(dst).copy_of = src


def x_deepcopy(I, args, kw, node):
    memo = {}

    def deep(x):
        if x.op == "c" or x in t.NUMS or x in t.POINTS or is_bool(x):
            return x
        if x in memo:
            return memo[x]
        if x.op == "lit":
            return raw("lit", *[deep(y) for y in x.a])
        if x.op == "ref" and I.obj(x).kind in ("list", "dict"):
            o = I.obj(x)
            c = I.content(x)
            r = I.new_obj(o.kind, default=o.default)
            memo[x] = r
            if o.kind == "list" and c.op == "lit":
                I.set_loc(("#", r.a[0]), raw("lit", *[deep(y) for y in c.a]))
                return r
            ks = t._lit_keys(c) if o.kind == "dict" else None
            if ks is not None and all(k.op == "c" for k in ks):
                d = t.DEMPTY
                for k in ks:
                    d = t.dput(d, k, deep(t.dget(c, k)))
                I.set_loc(("#", r.a[0]), d)
                return r
        return raw("deepcopy", I.reify(x))

    return I.on_leaves(args[0], deep)


def x_reduce(I, args, kw, node):
    f = args[0]
    s = I.seq(args[1], node)
    if len(args) > 2:
        init = args[2]
    else:
        init = item(s, ZERO)
        s = seqslice(s, ONE, NONE)
    I.uid += 1
    loc = ("v", I.frames[-1].fid, "$r%d" % I.uid)
    I.st.s[loc] = init

    def body(x):
        I.st.s[loc] = I.call(f, [I.st.s[loc], x], {}, node)

    I.for_each(s, body, node)
    return I.st.s.pop(loc, NONE)


def x_partial(I, args, kw, node):
    if not plain(args):
        return I.unk("partial", node=node)
    if kw:
        return raw("partialkw", args[0], raw("kws", *[raw("kw", k, v) for k, v in sorted(kw.items())]), *args[1:])
    return raw("partial", *args)


def x_chain(I, args, kw, node):
    if not plain(args):
        return cat(*[I.seq(a, node) if isinstance(a, T) else via_loop(I, a[1], lambda x: I.seq(x, node), node) for a in args])
    return cat(*[I.seq(a, node) for a in args]) if args else raw("lit")


def x_chain_from(I, args, kw, node):
    return via_loop(I, I.seq(args[0], node), lambda x: I.seq(x, node), node)


def x_starmap(I, args, kw, node):
    f = args[0]

    def g(x):
        x = I.seq(x, node)
        if x.op == "lit":
            return raw("lit", I.call(f, list(x.a), {}, node))
        return raw("lit", I.call(f, [("*", x)], {}, node))

    return via_loop(I, I.seq(args[1], node), g, node)


def x_repeat(I, args, kw, node):
    if len(args) == 2:
        v = fresh_var()
        return seqmap(args[1], lam(v, args[0]))
    return raw("repeat", args[0])


def x_count(I, args, kw, node):
    return raw("count", args[0] if args else kw.get("start", ZERO), args[1] if len(args) > 1 else kw.get("step", ONE), C("#%d" % I.occurrence(("count",))),
               *[v for v, _ in I.loops])


def counted(I, x, used=None):
    """An endless counter where it has got to."""
    if not isinstance(x, T) or x.op != "count" or len(x.a) < 3:
        return x
    k = ("cnt", x)
    n = I.st.s.get(k, ZERO)
    if used is not None:
        I.set_loc(k, add(n, used) if n.op != "unk" else n)
    elif n.op == "unk":
        return n
    return x if n is ZERO else raw("count", add(x.a[0], mul(n, x.a[1])), x.a[1])


def x_islice(I, args, kw, node):
    x = args[0]
    bounds = args[1:]
    if x.op == "ite" and any(l.op in ("repeat", "count", "cycle") for _, l in t.leaves(x)):
        return I.on_leaves(x, lambda y: x_islice(I, [y] + list(bounds), kw, node))
    if x.op in ("repeat", "count") and len(bounds) == 1 and bounds[0] is not NONE and not t.is_int(bounds[0]):
        now = counted(I, x)
        if now.op == "unk":
            return now
        counted(I, x, bounds[0])
        v = fresh_var()
        return seqmap(bounds[0], lam(v, now.a[0] if now.op == "repeat" else add(now.a[0], mul(v, now.a[1]))))
    if x.op in ("repeat", "count", "cycle") and all(b is NONE or t.is_int(b) for b in bounds) and (bounds[0] if len(bounds) == 1 else bounds[1]) is not NONE:
        sl = slice(*[None if b is NONE else b.a[1] for b in bounds])
        now = counted(I, x)
        if now.op == "unk":
            return now
        counted(I, x, C(sl.stop))
        return raw("lit", *pyfold.endless(now, sl.stop)[sl])
    if x.op == "ref" and I.obj(x).kind == "iter" and all(b is NONE or t.is_int(b) for b in bounds):
        c = I.under(I.content(x))
        if c.op == "lit":
            sl = slice(*[None if b is NONE else b.a[1] for b in bounds])
            I.set_content(x, raw("lit", *c.a[sl.stop:]) if sl.stop is not None else raw("lit"))
            return raw("lit", *c.a[sl])
    s = I.seq(args[0], node)
    if s.op == "lit" and all(b is NONE or t.is_int(b) for b in bounds):
        return raw("lit", *s.a[slice(*[None if b is NONE else b.a[1] for b in bounds])])
    if len(args) == 2:
        return seqslice(s, NONE, args[1])
    return seqslice(s, args[1], args[2])


def x_defaultdict(I, args, kw, node):
    d = "?"
    if args and args[0].op == "extf":
        d = args[0].a[0].split(".")[-1]
    elif args:
        d = "fn"
    r = I.new_obj("dict", default=d)
    I.set_loc(("#", r.a[0]), t.DEMPTY)
    if d == "fn":
        I.obj(r).factory = args[0]
    return r


def x_ordereddict(I, args, kw, node):
    return b_dict(I, args, kw, node)


def x_warn(I, args, kw, node):
    I.event("emit", None, "warn", [a for a in args if isinstance(a, T)], {}, None, node)
    return NONE


def x_suppress(I, args, kw, node):
    out = []
    for a in args:
        out.append(a.a[0].split(".")[-1] if a.op == "extf" else I.prog.classes[a.a[0]].name if a.op == "cls" else "Exception")
    return raw("suppress", *out)


def x_register(I, args, kw, node):
    I.event("ext", None, "register_coders", [a for a in args if isinstance(a, T)], kw, NONE, node)
    return NONE


def x_struct(I, args, kw, node):
    return t.build("struct", *[I.reify(a) for a in args if isinstance(a, T)])


def x_hmac_cmp(I, args, kw, node):
    return I.equal(args[0], args[1], node)


def x_new(I, args, kw, node):
    return new_instance(I, args[0], node)


def new_instance(I, c, node):
    if c.op == "cls":
        return I.new_obj("inst", I.prog.classes[c.a[0]], node=node)
    if c.op == "clsof" and I.sort_of(c.a[0]) is None:
        return raw("newof", c.a[0])
    return I.unk("instance of an unknown class", c, node=node)


def attr_evolve(I, args, kw, node):
    x = args[0]
    if x.op == "ref" and I.obj(x).kind == "inst":
        r = I.new_obj("inst", I.obj(x).cls)
        copy_fields(I, x, r)
        for k, v in kw.items():
            I.write_field(r, k, v)
        return r
    return I.unk("evolve", x, node=node)


def attr_astuple(I, args, kw, node):
    x = args[0]
    if x.op == "ref" and I.obj(x).kind == "inst":
        vs = [I.read_field(x, n) for k in reversed(I.prog.mro(I.obj(x).cls)) for n, _ in k.fields]
        flat = set(kw) == {"recurse"} and kw["recurse"] is FALSE
        if flat or not kw and not any(v.op == "ref" and I.obj(v).kind == "inst" for v in vs):
            return raw("lit", *vs)
    return I.unk("astuple", x, node=node)


def x_namedtuple(I, args, kw, node):
    """A class made by collections.namedtuple."""
    try:
        name = pyfold.value(I, args[0])
        fields = pyfold.value(I, args[1] if len(args) > 1 else kw["field_names"])
        defaults = list(I.seq(kw["defaults"], node).a) if "defaults" in kw and kw["defaults"] is not NONE else []
    except (ValueError, KeyError, AttributeError):
        return I.unk("namedtuple", node=node)
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    defaults = [repr(d.a[1]) if d.op == "c" else None for d in defaults]
    if None in defaults or any(not isinstance(f, str) for f in fields):
        return I.unk("namedtuple", node=node)
    key = ("namedtuple", node, name, tuple(fields))
    if key not in I.thunks:
        d = [None] * (len(fields) - len(defaults)) + defaults
        src = "class %s(NamedTuple):\n" % name + "".join("    %s: object%s\n" % (f, "" if v is None else " = " + v) for f, v in zip(fields, d))
        I.uid += 1
        m = I.frames[-1].module if I.frames else next(iter(I.prog.modules.values()))
        c = I.prog.make_class(ast.parse(src).body[0], m, "%s#nt%d" % (name, len(I.thunks)))
        c.bases = ["typing.NamedTuple"]
        I.thunks[key] = c
    c = I.thunks[key]
    I.prog.classes[c.qual] = c
    return raw("cls", c.qual)


def ntm(I, f, args, kw, node):
    """Methods of named tuples."""
    b, name, qual = f.a
    fields = [n for k in reversed(I.prog.mro(I.prog.classes[qual])) for n, _ in k.fields]
    if name == "_make":
        s = I.seq(args[0], node)
        return s if s.op == "lit" else I.unk("_make", s, node=node)
    if name == "_asdict":
        d = t.DEMPTY
        for n, v in zip(fields, b.a):
            d = t.dput(d, C(n), v)
        return I.new_dict(d)
    return raw("lit", *[kw.get(n, v) for n, v in zip(fields, b.a)])


def x_token(I, args, kw, node):
    return draw(I, "secrets", "token_bytes", args, kw, node)


EXT = {
    "petlib.bn.Bn": x_bn, "petlib.bn.Bn.from_num": x_bn, "petlib.bn.Bn.from_decimal": b_int, "petlib.bn.Bn.from_hex": x_from_hex,
    "petlib.bn.Bn.from_binary": x_from_binary, "petlib.pack.encode": x_encode, "petlib.pack.decode": x_decode,
    "petlib.pack.register_coders": x_register, "msgpack.packb": x_packb, "msgpack.unpackb": x_unpackb, "msgpack.dumps": x_packb,
    "msgpack.loads": x_unpackb, "copy.copy": x_copy, "copy.deepcopy": x_deepcopy, "functools.reduce": x_reduce,
    "collections.namedtuple": x_namedtuple, "dataclasses.replace": attr_evolve, "attr.astuple": attr_astuple, "attrs.astuple": attr_astuple,
    "dataclasses.astuple": attr_astuple, "functools.wraps": lambda I, a, k, n: raw("extf", "zksa.same"), "zksa.same": lambda I, a, k, n: a[0],
    "functools.update_wrapper": lambda I, a, k, n: a[0], "functools.singledispatch": lambda I, a, k, n: I.unk("single dispatch", node=n),
    "functools.partial": x_partial, "itertools.chain": x_chain, "itertools.chain.from_iterable": x_chain_from,
    "itertools.starmap": x_starmap, "collections.Counter": lambda I, a, k, n: x_counter(I, a, k, n), "itertools.repeat": x_repeat, "itertools.count": x_count, "itertools.islice": x_islice,
    "collections.defaultdict": x_defaultdict, "collections.OrderedDict": x_ordereddict, "warnings.warn": x_warn,
    "contextlib.suppress": x_suppress, "struct.pack": x_struct, "hmac.compare_digest": x_hmac_cmp,
    "secrets.compare_digest": x_hmac_cmp, "int.from_bytes": x_from_binary, "builtins.int.from_bytes": x_from_binary,
    "builtins.object.__new__": x_new, "builtins.object.__hash__": b_id, "binascii.hexlify": x_hexlify,
    "binascii.b2a_hex": x_hexlify, "builtins.object.__eq__": lambda I, a, k, n: atom("is", *a[:2]) if a[0] is not a[1] else TRUE,
    "builtins.object.__setattr__": lambda I, a, k, n: b_setattr(I, a, k, n), "builtins.dict.fromkeys": lambda I, a, k, n: dict_fromkeys(I, a, n),
    "collections.deque": b_list, "builtins.bytes.join": lambda I, a, k, n: str_join(I, a[0], a[1], n),
    "builtins.str.join": lambda I, a, k, n: str_join(I, a[0], a[1], n),
    "builtins.bytes.fromhex": lambda I, a, k, n: t.build("call", "fromhex", I.reify(a[0])),
    "copy.replace": attr_evolve,
    "builtins.list.append": lambda I, a, k, n: call_builtin_method(I, a[0], "append", a[1:], k, n),
}
FUNCTIONAL = {}


def x_counter(I, args, kw, node):
    s = I.under(I.seq(args[0], node)) if args else raw("lit")
    if s.op != "lit":
        return I.unk("Counter", s, node=node)
    d = t.DEMPTY
    for x in s.a:
        d = dput(d, x, add(ite(din(x, d), dget(d, x), ZERO), ONE))
    return I.new_dict(d, default="int")



def dict_fromkeys(I, args, node):
    s = I.seq(args[0], node)
    v = args[1] if len(args) > 1 else NONE
    if s.op == "lit":
        d = t.DEMPTY
        for x in s.a:
            d = dput(d, x, v)
        return I.new_dict(d)
    w = fresh_var()
    return I.new_dict(t.dputall(length(s), t.DEMPTY, lam(w, raw("lit", item(s, w), v))))


AST_OPS = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "mod": ast.Mod, "pow": ast.Pow, "iadd": ast.Add, "floordiv": ast.FloorDiv,
           "and_": ast.BitAnd, "or_": ast.BitOr, "xor": ast.BitXor, "lshift": ast.LShift, "rshift": ast.RShift, "truediv": ast.Div}
AST_CMP = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "gt": ast.Gt, "le": ast.LtE, "ge": ast.GtE, "is_": ast.Is, "is_not": ast.IsNot}


def call_operator(I, name, args, kw, node):
    if name in AST_OPS:
        return I.binop(AST_OPS[name](), args[0], args[1], node)
    if name in AST_CMP:
        return I.compare(AST_CMP[name](), args[0], args[1], node)
    if name == "contains":
        return I.compare(ast.In(), args[1], args[0], node)
    if name == "neg":
        return I.on_leaves(args[0], lambda x: I.user_op(x, "__neg__", [], node) or neg(x))
    if name == "not_":
        return NOT(I.truth(args[0]))
    if name == "truth":
        return I.truth(args[0])
    if name == "getitem":
        return I.item(args[0], args[1], node)
    if name in ("itemgetter", "attrgetter", "methodcaller"):
        return raw("opgetter", name, *args)
    return I.unk("operator." + name, *[a for a in args if isinstance(a, T)], node=node)


# ---------------------------------------------------------------------------------------------
# methods

OPAQUE_METHODS = {
    "append", "extend", "insert", "pop", "remove", "clear", "update", "add", "discard", "setdefault", "get", "keys", "values",
    "items", "copy", "count", "index", "sort", "reverse", "join", "encode", "decode", "format", "digest", "hexdigest", "random",
    "mod_add", "mod_sub", "mod_mul", "mod_inverse", "mod_pow", "inverse", "pow", "wsum", "sum", "infinite", "pair", "order", "generator",
    "is_bit_set", "num_bits", "export", "hash_to_point", "one", "inf", "issubset", "issuperset", "union", "difference",
    "intersection", "startswith", "endswith", "split", "strip", "upper", "lower", "hex", "pt_add", "pt_mul", "pt_neg", "pt_eq", "pt_sub",
    "is_infinite", "is_odd", "is_prime", "binary", "int", "int_add", "int_mul", "int_sub", "int_neg", "bool", "bit_length", "to_bytes", "choice", "sample", "shuffle", "randrange", "randint", "getrandbits",
    "get_affine", "check_point", "check", "nid", "divmod", "test_bit", "bit",
}


def str_join(I, sep, s, node):
    s = I.seq(s, node)
    if s.op == "lit" and sep.op == "c":
        out = []
        for i, x in enumerate(s.a):
            if i and sep.a[1]:
                out.append(sep)
            out.append(I.reify(x))
        if not out:
            return C(b"" if sep.a[0] == "bytes" else "")
        return t.strcat(*out)
    return t.build("joinseq", sep, I.reify(s))


def kind_of(I, b):
    if b.op == "ref":
        return I.obj(b).kind
    if b.op == "idict":
        return "idict"
    c = I.content(b)
    if c.op in ("dput", "dputall", "dupd", "dempty", "dwithout") or I.sorts.get(("dict", b)):
        return "dict"
    if c.op in t.SEQ:
        return "seq"
    if t._is_str(c) or c.op in ("str", "enc", "utf8", "digest", "hexdigest", "cut", "joinseq", "conv"):
        return "str"
    if c.op == "rng":
        return "rng"
    if c.op == "cls":
        return "cls"
    return "?"


def call_builtin_method(I, b, name, args, kw, node):
    return I.on_leaves(b, lambda x: method1(I, x, name, args, kw, node))


def method1(I, b, name, args, kw, node):
    if name in ("hex", "decode", "to_bytes") and (b.op in t.TOKEN_OPS) and plain(args) and t.tokens(b) and not (b.op == "utf8" or b.op == "digest"):
        return raw("conv", C(name), b)
    k = kind_of(I, b)
    # user defined method of an object reached through an unknown function value
    if b.op == "ref" and k == "inst":
        m = I.prog.lookup(I.obj(b).cls, name)
        if isinstance(m, Fn) and m.abstract:
            return I.opaque_call(b, name, args, kw, node)
        I.event("attrerror", b, name, [], {}, None, node)
        if m is None and all(str(x).split(".")[-1] in ("object", "ABC") for x in I.prog.ext_bases(I.obj(b).cls)) and not I.dead():
            I.raise_("AttributeError", node, [C(name)])
        return raw("unk", "no method", name)
    if k == "cls":
        if name == "__new__":
            return new_instance(I, args[0] if args else b, node)
        m = I.prog.lookup(I.prog.classes[b.a[0]], name)
        I.event("ext", b, b.a[0] + "." + name, [a for a in args if isinstance(a, T)], kw, None, node)
        return raw("call", b.a[0] + "." + name, *[I.reify(a) for a in args if isinstance(a, T)])
    if b.op == "clsof" and name == "__new__":
        return new_instance(I, b, node)
    if b.op == "super":
        if name in ("__init__", "__attrs_post_init__", "__init_subclass__"):
            return NONE
        if name == "__hash__":
            return t.address(b.a[2])
        if name == "__new__":
            return new_instance(I, args[0], node)
        if name == "__eq__":
            return atom("is", b.a[2], args[0])
        if name == "__setattr__":
            return b_setattr(I, [b.a[2]] + list(args), kw, node)
        if name == "__getattribute__":
            return b_getattr(I, [b.a[2]] + list(args), kw, node)
    if k == "hash":
        return hash_method(I, b, name, args, kw, node)
    if k == "rng":
        return draw(I, "system" if b.a[0] == "system" else "random", name, args, kw, node)
    if k == "idict":
        if name == "update":
            return idict_update(I, b.a[0], args, kw, node)
        if name in ("get", "setdefault"):
            k, dflt = args[0], args[1] if len(args) > 1 else NONE
            v = I.on_leaves(k, lambda k: b_getattr(I, [b.a[0], k, dflt], {}, node))
            if name == "setdefault":
                b_setattr(I, [b.a[0], k, v], {}, node)
            return v
        if name == "pop":
            v = b_getattr(I, [b.a[0]] + list(args), {}, node)
            b_delattr(I, [b.a[0], args[0]], {}, node)
            return v
        if name == "copy" and I.content(b) is b:
            return b
        if name in ("keys", "values", "items", "copy") and I.content(b) is not b:
            return dict_method(I, b, name, args, kw, node)
        if name == "clear" and b.a[0].op == "ref":
            I.set_fields(b.a[0], I.new_dict(t.DEMPTY), node)
            return NONE
        return I.unk("__dict__." + name, node=node)
    if k in ("list", "set", "seq", "tuple"):
        r = seq_method(I, b, name, args, kw, node)
        if r is not None:
            return r
    if k == "dict":
        r = dict_method(I, b, name, args, kw, node)
        if r is not None:
            return r
    if k == "str" or (b.op == "fmt"):
        r = str_method(I, b, name, args, kw, node)
        if r is not None:
            return r
    if b.op == "c" and plain(args) and plain(kw.values()):
        r = pyfold.const_method(I, b, name, args, kw, node)
        if r is not None or I.dead():
            return r if r is not None else NONE
    f = METHODS.get(name)
    if f is not None:
        r = f(I, b, args, kw, node)
        if r is not None:
            return r
    # containers received from outside
    if k == "?" and name in ("append", "extend", "insert", "remove", "clear", "add", "discard", "pop", "sort", "reverse"):
        r = seq_method(I, b, name, args, kw, node)
        if r is not None:
            I.event("mutate", b, name, [a for a in args if isinstance(a, T)], kw, r, node)
            return r
    if k == "?" and name in ("update", "setdefault"):
        if I.sorts.get(("hash", b)):
            return hash_method(I, b, name, args, kw, node)
        r = dict_method(I, b, name, args, kw, node)
        if r is not None:
            I.event("mutate", b, name, [a for a in args if isinstance(a, T)], kw, r, node)
            return r
    if k == "?" and name in ("keys", "values", "items", "get"):
        r = dict_method(I, b, name, args, kw, node)
        if r is not None:
            return r
    if k == "?" and name in ("copy",):
        if I.sorts.get(("hash", b)) or b.op == "mcall" and b.a[1] == "prehash_statement":
            return hash_method(I, b, name, args, kw, node)
        return I.new_list(b)
    if k == "?" and name == "count" and len(args) == 1:
        return count(I.content(b), args[0], I, node)
    if k == "?" and name == "index" and len(args) == 1:
        return t.idx(I.content(b), args[0])
    if k == "?" and name in ("encode",) and all(isinstance(x, T) and x.op == "c" and x.a[0] == "str" for x in list(args) + list(kw.values())):
        return enc_utf8(b, args, kw)
    if k == "?" and name == "join":
        return str_join(I, b, args[0], node)
    from .interp import PURE
    s = I.sort_of(b)
    return I.opaque_call(b, name, args, kw, node, pure=name in PURE)


def count(s, x, I=None, node=None):
    if I is not None and s.op == "lit" and len(s.a) <= t.UNROLL:
        n = ZERO
        for y in s.a:
            e = TRUE if y is x else truth(I.equal(y, x, node))
            n = add(n, ite(e, ONE, ZERO))
        return n
    return t.build("count", s, x)


def without(I, c, x, node, strict=True):
    """Content of a list after removing the first element equal to x."""
    if c.op == "ite":
        return ite(c.a[0] if t.is_bool(c.a[0]) else raw("ite", c.a[0], TRUE, FALSE),
                   without(I, c.a[1], x, node, strict), without(I, c.a[2], x, node, strict))
    if c.op != "lit":
        return None
    out = None
    conds = [TRUE if y is x else truth(I.equal(y, x, node)) for y in c.a]
    if strict:
        missing = NOT(OR(*conds)) if conds else TRUE
        if missing is not FALSE and AND(I.total(), missing) is not FALSE:
            I.branch(missing, lambda: (I.raise_("ValueError", node), NONE)[1], lambda: NONE)
    out = c
    for k in range(len(c.a) - 1, -1, -1):
        out = ite(conds[k], raw("lit", *(c.a[:k] + c.a[k + 1:])), out)
    return out


def idict_update(I, obj, args, kw, node):
    src = args[0] if args else None
    if src is not None:
        if src.op == "idict" and src.a[0].op == "ref" and obj.op == "ref":
            copy_fields(I, src.a[0], obj)
        elif src.op == "idict":
            if obj.op == "newof" and obj.a[0] is src.a[0]:
                return NONE
            I.note("copy of unknown fields", node)
        else:
            c = I.content(src)
            keys = t._lit_keys(c)
            if keys is not None and all(k.op == "c" for k in keys):
                for k in keys:
                    I.setattr(obj, k.a[1], dget(c, k), node)
            else:
                I.note("update of fields from an unknown mapping", node)
    for k, v in kw.items():
        if k != "**":
            I.setattr(obj, k, v, node)
    return NONE


def hash_method(I, b, name, args, kw, node):
    alg = I.obj(b).alg if b.op == "ref" else raw("hashalg", b)
    if name == "update":
        if b.op == "ref":
            I.set_content(b, cat(I.content(b), parts_of(I, I.reify(args[0]), node)))
        else:
            c = I.content(b)
            base = c if c is not b else raw("lit", raw("hashbase", b))
            I.set_content(b, cat(base, parts_of(I, I.reify(args[0]), node)))
        return NONE
    c = I.reify(I.content(b)) if b.op == "ref" else I.content(b)
    if b.op != "ref" and c is b:
        c = raw("lit", raw("hashbase", b))
    if name in ("digest", "hexdigest"):
        return t.lift(lambda c: raw(name, alg, c), c)
    if name == "copy":
        r = I.new_obj("hash", alg=alg)
        I.set_loc(("#", r.a[0]), c)
        return r
    return I.unk("hash method " + name, b, node=node)


def seq_method(I, b, name, args, kw, node):
    c = I.content(b)
    isset = b.op == "ref" and I.obj(b).kind == "set"
    if name == "append" or name == "add":
        x = args[0]
        if isset:
            I.set_content(b, setof(cat(c.a[0] if c.op == "setof" else c, raw("lit", x))))
        else:
            I.set_content(b, cat(c, raw("lit", x)))
        return NONE
    if name == "extend" or (isset and name == "update"):
        s = I.seq(args[0], node)
        n = cat(c.a[0] if c.op == "setof" else c, s)
        I.set_content(b, setof(n) if isset else n)
        return NONE
    if name == "copy":
        r = I.new_obj("set" if isset else "list")
        I.set_loc(("#", r.a[0]), c)
        return r
    if name in ("appendleft", "extendleft", "popleft", "rotate") and c.op == "lit":
        if name == "appendleft":
            I.set_content(b, cat(raw("lit", args[0]), c))
            return NONE
        if name == "extendleft":
            for x in I.seq(args[0], node).a:
                I.set_content(b, cat(raw("lit", x), I.content(b)))
            return NONE
        if name == "popleft":
            return seq_method(I, b, "pop", [ZERO], {}, node)
        k = args[0].a[1] if args else 1
        if c.a:
            k %= len(c.a)
            I.set_content(b, raw("lit", *(c.a[len(c.a) - k:] + c.a[:len(c.a) - k])))
        return NONE
    if name == "insert" and c.op == "lit" and t.is_int(args[0]):
        l = list(c.a)
        l.insert(args[0].a[1], args[1])
        I.set_content(b, raw("lit", *l))
        return NONE
    if name == "insert":
        if args[0] is ZERO:
            I.set_content(b, cat(raw("lit", args[1]), c))
        else:
            I.set_content(b, cat(seqslice(c, NONE, args[0]), raw("lit", args[1]), seqslice(c, args[0], NONE)))
        return NONE
    if name == "popleft":
        return seq_method(I, b, "pop", [ZERO], {}, node)
    if name == "appendleft":
        I.set_content(b, cat(raw("lit", args[0]), c))
        return NONE
    if name == "pop":
        if isset and c.op == "setof":
            c = c.a[0]
        i = args[0] if args else ZERO if isset else C(-1)
        if c.op == "lit" and t.is_int(i) and not -len(c.a) <= i.a[1] < len(c.a):
            I.check(TRUE, "KeyError" if isset else "IndexError", node)
            return NONE
        if c.op == "lit" and c.a and t.is_int(i) and -len(c.a) <= i.a[1] < len(c.a):
            x = c.a[i.a[1]]
            l = list(c.a)
            del l[i.a[1]]
            I.set_content(b, raw("lit", *l))
            return x
        x = item(c, sub(length(c), ONE)) if i is C(-1) else item(c, i)
        I.set_content(b, seqslice(c, ONE, NONE) if i is ZERO else seqslice(c, NONE, C(-1)) if i is C(-1) else raw("popped", c, i))
        return x
    if name == "remove" or name == "discard":
        w = without(I, c, args[0], node, name == "remove")
        I.set_content(b, w if w is not None else raw("without", c, args[0]))
        return NONE
    if name == "clear":
        I.set_content(b, raw("lit"))
        return NONE
    if name == "reverse":
        I.set_content(b, b_reversed(I, [b], {}, node))
        return NONE
    if name == "sort":
        I.set_content(b, I.content(b_sorted(I, [b], kw, node)))
        return NONE
    if name == "count":
        return count(c, args[0], I, node)
    if name == "index":
        if c.op == "lit" and len(args) == 1:
            es = [TRUE if x is args[0] else truth(I.equal(x, args[0], node)) for x in c.a]
            I.check(NOT(OR(*es)), "ValueError", node)
            if I.dead():
                return NONE
            if es and es[-1] is not TRUE and OR(*es) is not TRUE:
                return t.idx(c, args[0])
            r = C(len(es) - 1)
            for k in range(len(es) - 2, -1, -1):
                r = ite(es[k], C(k), r)
            return r
        return t.idx(c, args[0])
    if name == "symmetric_difference":
        return set_op(I, "xor", b, args[0], node)
    if isset and name in ("intersection_update", "difference_update"):
        r = set_op(I, "and" if name[0] == "i" else "sub", b, args[0], node)
        I.set_content(b, I.content(r))
        return NONE
    if name in ("__contains__", "__getitem__", "__len__", "__iter__"):
        return dunder(I, b, name, args, node)
    if name in ("issubset", "__le__"):
        s2 = I.seq(args[0], node)
        v = fresh_var()
        return NOT(quantify(I, via_loop(I, c.a[0] if c.op == "setof" else c, lambda x: raw("lit", NOT(truth(I.contains(x, args[0], node)))), node), node))
    if name == "issuperset":
        return NOT(quantify(I, via_loop(I, I.seq(args[0], node), lambda x: raw("lit", NOT(truth(I.contains(x, b, node)))), node), node))
    if name == "union":
        r = I.new_obj("set")
        I.set_loc(("#", r.a[0]), setof(cat(c.a[0] if c.op == "setof" else c, *[I.seq(a, node) for a in args])))
        return r
    if name in ("difference", "intersection"):
        keep = name == "intersection"
        r = I.new_obj("set")
        src = c.a[0] if c.op == "setof" else c

        def f(x):
            m = truth(I.contains(x, args[0], node))
            return ite(m if keep else NOT(m), raw("lit", x), raw("lit"))

        I.set_loc(("#", r.a[0]), setof(via_loop(I, src, f, node)))
        return r
    if name == "isdisjoint":
        return NOT(quantify(I, via_loop(I, c.a[0] if c.op == "setof" else c, lambda x: raw("lit", truth(I.contains(x, args[0], node))), node), node))
    return None


def dunder(I, b, name, args, node):
    if name == "__contains__":
        return I.contains(args[0], b, node)
    if name == "__getitem__":
        return I.item(b, args[0], node)
    if name == "__len__":
        return b_len(I, [b], {}, node)
    return b_iter(I, [b], {}, node)


def dict_method(I, b, name, args, kw, node):
    c = I.content(b)
    o = I.obj(b) if b.op == "ref" else None
    if name in ("__contains__", "__getitem__", "__len__", "__iter__"):
        return dunder(I, b, name, args, node)
    if name == "popitem":
        ks = t._lit_keys(c)
        if ks:
            k = ks[0] if kw.get("last") is FALSE else ks[-1]
            r = raw("lit", k, dget(c, k))
            I.set_content(b, t.dwithout(c, k))
            return r
        if ks is not None:
            I.check(TRUE, "KeyError", node)
            return NONE
        return None
    if name == "__setitem__":
        I.setitem(b, args[0], args[1], node)
        return NONE
    if name == "move_to_end":
        v = dget(c, args[0])
        I.set_content(b, dput(t.dwithout(c, args[0]), args[0], v))
        return NONE
    if name == "most_common" or name == "elements":
        return None
    if name == "keys":
        return dkeys(c)
    if name == "values":
        if c.op in ("gby", "gadd"):
            return t.gvalues(c)
        ks = dkeys(c)
        if ks.op == "lit":
            return raw("lit", *[dget(c, k) for k in ks.a])
        if ks.op == "setof":
            ks = ks
        v = fresh_var()
        return seqmap(length(ks), lam(v, dget(c, item(ks, v))))
    if name == "items":
        if c.op in ("gby", "gadd"):
            return t.gitems(c)
        ks = dkeys(c)
        if ks.op == "lit":
            return raw("lit", *[raw("lit", k, dget(c, k)) for k in ks.a])
        v = fresh_var()
        return seqmap(length(ks), lam(v, raw("lit", item(ks, v), dget(c, item(ks, v)))))
    if name == "get":
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        return I.on_leaves(args[0], lambda k: ite(din(k, c), dget(c, k), d))
    if name == "update":
        new = c
        for a in args:
            if not isinstance(a, T):
                return I.unk("update", node=node)
            e = I.content(a)
            if a.op == "ref" and I.obj(a).kind == "dict" or e.op in ("dput", "dputall", "dupd", "dempty", "dwithout"):
                new = dupd(new, e)
            elif e.op in t.SEQ:
                new = dupd(new, dict_of_pairs(I, e, node))
            else:
                new = dupd(new, e)
        for k, v in kw.items():
            new = dupd(new, v) if k == "**" else dput(new, C(k), v)
        I.event("setitem", b, "update", [a for a in args if isinstance(a, T)], kw, None, node)
        I.set_content(b, new)
        return NONE
    if name == "setdefault":
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        p = din(k, c)
        v = ite(p, dget(c, k), d)
        I.event("setitem", b, "setdefault", [a for a in args if isinstance(a, T)], kw, None, node)
        I.set_content(b, ite(p, c, dput(c, k, d)))
        return I.under(v)
    if name == "copy":
        return I.new_dict(c, default=o.default if o else None)
    if name == "clear":
        I.set_content(b, t.DEMPTY)
        return NONE
    if name == "pop":
        def pop(k):
            c = I.content(b)
            p = din(k, c)
            if len(args) < 2 and p is not TRUE:
                I.check(NOT(p), "KeyError", node, [k])
                if I.dead():
                    return NONE
            v = dget(c, k)
            if len(args) > 1:
                v = ite(p, v, args[1])
            I.set_content(b, t.dwithout(c, k))
            return v

        return I.on_leaves(args[0], pop)
    return None


def str_method(I, b, name, args, kw, node):
    r = pyfold.const_method(I, b, name, args, kw, node) if plain(args) and plain(kw.values()) else None
    if r is not None or I.dead():
        return r if r is not None else NONE
    if name == "format":
        if b.op == "c" and plain(args) and plain(kw.values()):
            r = pyfold.format_text(I, b.a[1], args, kw, node)
            if r is not None:
                return r
        return raw("fmt", I.reify(b), *[I.reify(a) for a in args if isinstance(a, T)], *[I.reify(v) for v in kw.values()])
    if name == "encode":
        return enc_utf8(b, args, kw)
    if name == "join":
        return str_join(I, b, args[0], node)
    if name == "hex" and b.op == "digest":
        return raw("hexdigest", *b.a)
    if name == "decode" and b.op == "utf8":
        return b.a[0]
    return t.build("call", "str." + name, I.reify(b), *[I.reify(a) for a in args if isinstance(a, T)])


# ---- big numbers, points, groups


def m_bin(f):
    return lambda I, b, args, kw, node: f(b, *args) if len(args) >= 1 and plain(args) else None


def m_wsum(I, b, args, kw, node):
    ws, gs = I.seq(args[0], node), I.seq(args[1], node)
    lw, lg = (x.a[-1] if x.op in ("L", "D") else x for x in (ws, gs))
    if lw.op == "lit" and lg.op == "lit" and len(lw.a) != len(lg.a):
        I.raise_("AssertionError", node)
        return NONE

    def f(ws, gs):
        n1, n2 = length(ws), length(gs)
        if ws.op == "lit" and gs.op == "lit":
            r = INF
            for w, g in zip(ws.a, gs.a):
                r = add(r, mul(w, g))
            return r
        n = n1 if n1 is n2 else t.minlen([n1, n2])
        if n.op == "minlen":
            # the library refuses lists of different lengths
            n = n1 if t.is_int(n2) is False and gs.op == "map" and False else n
            I.event("zip", None, "wsum", [ws, gs], {}, n, node)
        v = fresh_var()
        return seqsum(n, lam(v, mul(item(ws, v), item(gs, v))))

    return t.lift(f, ws, gs)


def m_sum(I, b, args, kw, node):
    return sum_seq(I, I.seq(args[0], node), INF, node)


def m_random(I, b, args, kw, node):
    if args:
        return None
    return bn_random(I, b, node)


def m_mod_inverse(I, b, args, kw, node):
    m = args[0] if args else kw.get("m")
    # scalars of points: modulo another number than a group order it is no inverse
    return t.lift(lambda x, m: power(x, C(-1)) if m.op == "ord" else raw("minv", x, m), b, m)


def m_pow(I, b, args, kw, node):
    if len(args) == 2:
        return mod(power(b, args[0]), args[1])
    return power(b, args[0])


def m_infinite(I, b, args, kw, node):
    return INF


def m_pair(I, b, args, kw, node):
    if len(args) == 2:
        return t.pair(args[0], args[1])
    return t.pair(b, args[0])


def m_order(I, b, args, kw, node):
    return t.lift(lambda x: raw("ord", I.same_order.get(x, x)), b)


def m_generator(I, b, args, kw, node):
    return t.lift(lambda x: raw("gen", x), b)


def m_numbits(I, b, args, kw, node):
    return t.lift(lambda x: C(x.a[1].bit_length()) if t.is_int(x) else raw("numbits", x), b)


def m_bitset(I, b, args, kw, node):
    def f(x, i):
        if t.is_int(x) and t.is_int(i) and i.a[1] >= 0:
            return C(bool(x.a[1] >> i.a[1] & 1))
        return atom("cond", C("bit"), x, i)

    return t.lift(f, b, args[0])


def m_isinf(I, b, args, kw, node):
    return eq(b, INF)


METHODS = {
    "mod_add": lambda I, b, a, k, n: mod(add(b, a[0]), a[1]),
    "mod_sub": lambda I, b, a, k, n: mod(sub(b, a[0]), a[1]),
    "mod_mul": lambda I, b, a, k, n: mod(mul(b, a[0]), a[1]),
    "mod_pow": lambda I, b, a, k, n: mod(power(b, a[0]), a[1]),
    "int_add": m_bin(add), "int_sub": m_bin(sub), "int_mul": m_bin(mul),
    "int_neg": lambda I, b, a, k, n: neg(b),
    "pt_add": m_bin(add), "pt_sub": m_bin(sub), "pt_mul": m_bin(mul), "pt_eq": m_bin(eq),
    "pt_neg": lambda I, b, a, k, n: neg(b),
    "is_infinite": m_isinf,
    "mod_inverse": m_mod_inverse, "inverse": m_mod_inverse, "pow": m_pow, "random": m_random, "wsum": m_wsum, "sum": m_sum,
    "inf": m_infinite, "one": lambda I, b, a, k, n: ONE if len(a) == 1 else None, "exp": m_pow, "isinf": m_isinf,
    "inv": lambda I, b, a, k, n: power(b, C(-1)) if not a else None,
    "infinite": m_infinite, "pair": m_pair, "order": m_order, "generator": m_generator, "num_bits": m_numbits,
    "bit_length": m_numbits, "is_bit_set": m_bitset, "test_bit": m_bitset,
    "hash_to_point": lambda I, b, a, k, n: t.build("h2p", b, I.reify(a[0])),
    "binary": lambda I, b, a, k, n: t.build("binary", b),
    "int": lambda I, b, a, k, n: b,
    "export": lambda I, b, a, k, n: t.build("mcall", b, "export", *[I.reify(x) for x in a]),
    "encode": lambda I, b, a, k, n: enc_utf8(b, a, k) if all(isinstance(x, T) and x.op == "c" and x.a[0] == "str" for x in list(a) + list(k.values())) else None,
    "digest": lambda I, b, a, k, n: hash_method(I, b, "digest", a, k, n),
    "hexdigest": lambda I, b, a, k, n: hash_method(I, b, "hexdigest", a, k, n),
}
