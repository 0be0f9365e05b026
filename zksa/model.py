"""
Random interpretation of value terms.

Canonical forms prove two terms equal.  When they do not coincide, the terms are compared under
random finite interpretations (uninterpreted functions become hash functions of their interpreted
arguments, group elements and scalars integers, sequences short tuples) in the manner of global value
numbering by random interpretation: a difference found this way is a real difference between the
value flows, so that a mere difference in notation never becomes an alarm.
"""

import hashlib

from . import terms as t
from .terms import T

Q = (1 << 127) - 1  # the order of every group, a prime


class Cannot(Exception):
    pass


class G:
    """Value of an uninterpreted term."""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return "G%r" % (self.k,)


class Dct:
    __slots__ = ("items", "base")

    def __init__(self, items, base=None):
        self.items = items  # list of (key, keyval, val)
        self.base = base


def key(v):
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, int):
        return ("i", v)
    if v is None:
        return ("n",)
    if isinstance(v, (str, bytes)):
        return ("s", v)
    if isinstance(v, tuple):
        return ("t",) + tuple(key(x) for x in v)
    if isinstance(v, G):
        return v.k
    if isinstance(v, Dct):
        return ("d", tuple((k, key(x)) for k, _, x in sorted(v.items, key=lambda e: repr(e[0]))), key(v.base))
    raise Cannot(type(v).__name__)


_free = {}


def free_bvs(x):
    r = _free.get(x)
    if r is None:
        s = set()
        if x.op == "bv":
            s.add(x.a[0])
        elif x.op == "lam":
            s |= free_bvs(x.a[1])
            s.discard(x.a[0])
        else:
            for y in x.a:
                if isinstance(y, T):
                    s |= free_bvs(y)
        r = _free[x] = frozenset(s)
    return r


class Model:
    def __init__(self, seed, orders_vary=False):
        self.seed = str(seed)
        self.memo = {}
        self.hm = {}
        self.vary = orders_vary
        self.vars = {}
        self.steps = 0

    def h(self, *k):
        r = self.hm.get(k)
        if r is None:
            r = int.from_bytes(hashlib.sha256((self.seed + repr(k)).encode()).digest()[:16], "big")
            self.hm[k] = r
        return r

    # ---- conversions

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, G):
            return self.h("num", v.k) % Q
        if v is None:
            return 0
        return self.h("num", key(v)) % Q

    def boolean(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if v is None:
            return False
        if isinstance(v, (tuple, str, bytes)):
            return len(v) > 0
        if isinstance(v, Dct):
            return bool(v.items) or (v.base is not None and self.boolean(v.base))
        return self.h("bool", v.k) % 3 > 0

    def size(self, v):
        return 1 + self.h("len", key(v)) % 3

    def seq(self, v, n=None):
        if isinstance(v, tuple):
            return v
        if isinstance(v, Dct):
            return tuple(e[1] for e in v.items)
        if isinstance(v, (str, bytes)):
            return tuple(v)
        if isinstance(v, G):
            n = self.size(v) if n is None else n
            return tuple(self.at(v, i) for i in range(n))
        raise Cannot("sequence")

    def at(self, v, i):
        k = key(v)
        if isinstance(i, int) and not isinstance(i, bool) and i >= 1 and self.h("alias", k, i) % 4 == 0:
            i -= 1
        return G(("at", k, key(i)))

    def get(self, d, k):
        if isinstance(d, Dct):
            kk = key(k)
            for a, _, x in reversed(d.items):
                if a == kk:
                    return x
            if d.base is not None:
                return self.get(d.base, k)
            return G(("missing", key(d), kk))
        if isinstance(d, (tuple, str, bytes)):
            if isinstance(k, int) and -len(d) <= k < len(d):
                return d[k]
            return G(("range", key(d), key(k)))
        return self.at(d, k)

    def has(self, k, d):
        if isinstance(d, Dct):
            kk = key(k)
            if any(a == kk for a, _, _ in d.items):
                return True
            return self.has(k, d.base) if d.base is not None else False
        if isinstance(d, tuple):
            kk = key(k)
            return any(key(x) == kk for x in d)
        if isinstance(d, G) and isinstance(k, G) and k.k[0] == "at" and k.k[1] == d.k:
            return True
        return self.h("in", key(k), key(d)) % 2 == 0

    def same(self, a, b):
        if isinstance(a, (int, G)) and isinstance(b, int) or isinstance(a, int) and isinstance(b, G):
            if isinstance(a, bool) or isinstance(b, bool):
                return key(a) == key(b)
            return (self.num(a) - self.num(b)) % Q == 0
        return key(a) == key(b)

    # ---- evaluation

    def ev(self, x, env=None):
        env = env or {}
        fb = free_bvs(x)
        mk = (x, tuple(sorted((b, key(env[b])) for b in fb if b in env))) if fb else x
        if mk in self.memo:
            return self.memo[mk]
        self.steps += 1
        if self.steps > 400000:
            raise Cannot("too large")
        r = self.ev1(x, env)
        self.memo[mk] = r
        return r

    def app(self, l, v, env):
        e = dict(env)
        e[l.a[0]] = v
        return self.ev(l.a[1], e)

    def count(self, n, env):
        k = self.num(self.ev(n, env))
        if k > 64:
            raise Cannot("long sequence")
        return max(0, k)

    def ev1(self, x, env):
        op, a = x.op, x.a
        ev = lambda y: self.ev(y, env)
        if op == "c":
            return a[1]
        if op == "bv":
            if a[0] in env:
                return env[a[0]]
            raise Cannot("unbound")
        if op == "var":
            return self.vars.setdefault(x, self.h("var", a[0], a[1]) % 2)
        if op in ("unk", "mu", "acc", "ap", "dictprefix", "upto"):
            raise Cannot(op)
        if op == "undef":
            return G(("undef",))
        if op == "inf":
            return 0
        if op == "ite":
            return ev(a[1]) if self.boolean(ev(a[0])) else ev(a[2])
        if op == "poly":
            s = 0
            for m, c in t._unpoly(x):
                p = c
                for y in m:
                    p *= self.num(ev(y))
                s += p
            return s
        if op == "pair":
            return self.num(ev(a[0])) * self.num(ev(a[1]))
        if op == "mod":
            m = self.num(ev(a[1]))
            v = self.num(ev(a[0]))
            return v % m if m else v
        if op == "pow":
            b, e = self.num(ev(a[0])), self.num(ev(a[1]))
            if 0 <= e <= 4096:
                return b ** e
            return pow(b, e, Q)
        if op == "ord":
            if self.vary:
                return 3 + self.h("ord", key(ev(a[0]))) % 2
            return Q
        if op in ("L", "D"):
            v = ev(a[-1])
            return v
        if op == "lit":
            return tuple(ev(y) for y in a)
        if op == "map":
            return tuple(self.app(a[1], i, env) for i in range(self.count(a[0], env)))
        if op == "fmap":
            return tuple(self.app(a[2], i, env) for i in range(self.count(a[0], env))
                         if self.boolean(self.app(a[1], i, env)))
        if op == "flat":
            return tuple(y for i in range(self.count(a[0], env)) for y in self.seq(self.app(a[1], i, env)))
        if op == "cat":
            return tuple(y for s in a for y in self.seq(self.evseq(s, env)))
        if op == "slice":
            s = self.evseq(a[0], env)
            lo, hi = ev(a[1]), ev(a[2])
            return self.seq(s)[lo if lo is None else self.num(lo): hi if hi is None else self.num(hi)]
        if op == "supd":
            s = list(self.evseq(a[0], env))
            i = self.num(ev(a[1]))
            if -len(s) <= i < len(s):
                s[i] = ev(a[2])
            return tuple(s)
        if op == "len":
            v = self.evseq(a[0], env)
            if isinstance(v, G):
                return self.size(v)
            return len(v.items) if isinstance(v, Dct) else len(v)
        if op == "minlen":
            return min(self.num(ev(y)) for y in a)
        if op == "item":
            b = ev(a[0])
            return self.get(b, ev(a[1]))
        if op == "sum":
            s = 0
            for i in range(self.count(a[0], env)):
                s += self.num(self.app(a[1], i, env))
            return s
        if op == "exists":
            return any(self.boolean(self.app(a[1], i, env)) for i in range(self.count(a[0], env)))
        if op == "first":
            n = self.count(a[0], env)
            for i in range(n):
                if self.boolean(self.app(a[1], i, env)):
                    return i
            return n
        if op == "idx":
            s = self.seq(self.evseq(a[0], env))
            k = key(ev(a[1]))
            for i, y in enumerate(s):
                if key(y) == k:
                    return i
            return len(s)
        if op == "setof":
            out, ks = [], set()
            for y in self.seq(self.evseq(a[0], env)):
                if key(y) not in ks:
                    ks.add(key(y))
                    out.append(y)
            return tuple(out)
        if op == "dempty":
            return Dct([])
        if op in ("dput", "dputall", "dupd", "gadd", "gby"):
            return self.dct(op, a, env)
        if op in ("gitems", "gvalues"):
            d = ev(a[0])
            if not isinstance(d, Dct):
                raise Cannot(op)
            return tuple((e[1], e[2]) if op == "gitems" else e[2] for e in d.items)
        if op == "gget":
            d = ev(a[0])
            k = ev(a[1])
            return self.get(d, k) if self.has(k, d) else ()
        if op == "keys":
            d = ev(a[0])
            if isinstance(d, Dct) and d.base is None:
                return tuple(e[1] for e in d.items)
            return self.seq(d) if isinstance(d, G) else self._fail(op)
        if op == "in":
            return self.has(ev(a[0]), ev(a[1]))
        if op == "eq":
            return self.same(ev(a[0]), ev(a[1]))
        if op == "eq0":
            v = self.num(ev(a[0]))
            return v % Q == 0
        if op == "lt":
            return self.num(ev(a[0])) < 0
        if op == "isnone":
            v = ev(a[0])
            if v is None:
                return True
            if isinstance(v, G):
                return self.h("none", v.k) % 4 == 0
            return False
        if op == "truthy":
            return self.boolean(ev(a[0]))
        if op == "rand":
            args = tuple(key(ev(y)) if isinstance(y, T) else y for y in a)
            b = ev(a[1]) if isinstance(a[1], T) else None
            r = self.h("rand", args)
            if isinstance(b, int) and b > 0:
                return r % b
            return r % Q
        if op == "foldat":
            n = self.count(a[0], env)
            k = a[1]
            vals = list(self.ev(a[2], env))
            l = a[3]
            for i in range(n):
                e = dict(env)
                y = l
                for v in vals:
                    e[y.a[0]] = v
                    y = y.a[1]
                e[y.a[0]] = i
                vals = list(self.ev(y.a[1], e))
            return vals[k]
        if op == "strcat":
            out = []
            for y in a:
                v = ev(y)
                if isinstance(v, G) and v.k[0] == "strcat":
                    out.extend(v.k[1:])
                else:
                    out.append(key(v))
            return G(("strcat",) + tuple(out))
        if op == "repeat":
            pass
        if op == "sorted":
            if len(a) == 1:
                return tuple(sorted(self.seq(self.evseq(a[0], env)), key=lambda v: repr(key(v))))
        if op == "abs":
            return abs(self.num(ev(a[0])))
        if op in ("max", "min"):
            vs = [self.num(ev(y)) for y in a if isinstance(y, T)]
            if vs:
                return max(vs) if op == "max" else min(vs)
        if op in ("isinst", "hasattr", "is", "exc", "cond"):
            k = tuple(key(ev(y)) if isinstance(y, T) else y for y in a)
            return self.h("b", op, k) % 2 == 0
        if op == "lam":
            # uninterpreted binder: sample it
            return tuple(self.app(x, i, env) for i in range(2))
        args = []
        for y in a:
            args.append(key(ev(y)) if isinstance(y, T) else y)
        return G((op,) + tuple(args))

    def evseq(self, s, env):
        return self.ev(s, env)

    def _fail(self, op):
        raise Cannot(op)

    def dct(self, op, a, env):
        ev = lambda y: self.ev(y, env)

        def put(d, k, v):
            kk = key(k)
            items = [e for e in d.items]
            for i, e in enumerate(items):
                if e[0] == kk:
                    items[i] = (kk, e[1], v)
                    break
            else:
                items.append((kk, k, v))
            return Dct(items, d.base)

        def app(d, k, v):
            old = self.get(d, k) if self.has(k, d) else ()
            return put(d, k, tuple(self.seq(old)) + (v,))

        def base(v):
            return v if isinstance(v, Dct) else Dct([], v)

        if op == "dput":
            return put(base(ev(a[0])), ev(a[1]), ev(a[2]))
        if op == "gadd":
            return app(base(ev(a[0])), ev(a[1]), ev(a[2]))
        if op == "dupd":
            d, e = base(ev(a[0])), ev(a[1])
            if not isinstance(e, Dct) or e.base is not None:
                e0 = e if isinstance(e, G) else e.base
                extra = e.items if isinstance(e, Dct) else []
                for i, k in enumerate(self.seq(e0)):
                    d = put(d, k, self.get(e0, k))
                e = Dct(extra)
            for _, k, v in e.items:
                d = put(d, k, v)
            return d
        d = base(ev(a[1]))
        n = self.count(a[0], env)
        for i in range(n):
            kv = self.app(a[2], i, env)
            d = (put if op == "dputall" else app)(d, kv[0], kv[1])
        return d


# ---------------------------------------------------------------------------------------------


def free(x):
    """Terms that stand for an arbitrary value of their own."""
    part = False
    while x.op == "item" and t.is_int(x.a[1]):
        x, part = x.a[0], True
    # two different points can have some bytes of their encodings in common
    return x.op == "sym" or part and any(y.op == "mcall" and y.a[1] == "export" for y in t.subterms(x))


def coincidences(*xs):
    """Coincidences of inputs the terms depend on: (term, value to give it) under which a test in them holds."""
    out, seen = [], set()
    for x in xs:
        for y in t.subterms(x):
            if y in seen or free_bvs(y):
                continue
            seen.add(y)
            if y.op == "eq":
                u, v = y.a
                if free(u) and free(v):
                    out.append((u, v))
                elif free(u) and v.op in ("c", "inf") or free(v) and u.op in ("c", "inf"):
                    out.append((u, v) if free(u) else (v, u))
            elif y.op == "eq0":
                e = y.a[0]
                if free(e):
                    out.append((e, t.C(0)))
                    continue
                if e.op != "poly":
                    continue
                for m, c in t._unpoly(e):
                    if len(m) == 1 and c in (1, -1) and free(m[0]):
                        rest = t.sub(m[0], e) if c == 1 else t.add(m[0], e)
                        if m[0] not in set(t.subterms(rest)):
                            out.append((m[0], rest))
                            break
            if len(out) > 80:
                return out
    return out


def differ(a, b, trials=24, vary=False, modq=False):
    """
    True: an interpretation separates the terms; False: none of those tried does; None: the terms
    contain something that has no interpretation.
    """
    ok = 0
    special = None
    for s in range(trials * 2):
        m = Model(s, vary)
        if s >= trials:
            # interpretations in which tests that hold for few inputs do hold
            if special is None:
                special = coincidences(a, b)
            if not special or ok < trials // 2:
                break
            k = s - trials
            pick = [special[k]] if k < len(special) and k < trials // 2 else special if k == trials // 2 else [e for e in special if e[0].op == "item"] if k == trials // 2 + 1 else [e for i, e in enumerate(special) if m.h("pick", i) % 3 == 0]
            try:
                for u, v in pick:
                    if u not in m.memo:
                        m.memo[u] = m.ev(v)
            except (Cannot, RecursionError, OverflowError, MemoryError):
                continue
        try:
            x, y = m.ev(a), m.ev(b)
        except (Cannot, RecursionError, OverflowError, MemoryError):
            continue
        ok += s < trials
        if not m.same(x, y):
            if modq and isinstance(x, int) and isinstance(y, int) and (x - y) % Q == 0:
                continue
            if modq and _samemod(m, x, y):
                continue
            # state carried round a loop without a closed form: only agreement counts
            return None if any(x.op == "foldat" for y in (a, b) for x in t.subterms(y)) else True
    if ok < trials // 2:
        return None
    return False


def _samemod(m, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_samemod(m, p, q) for p, q in zip(x, y))
    if isinstance(x, (int, G)) and isinstance(y, (int, G)) and not (isinstance(x, G) and isinstance(y, G)):
        return (m.num(x) - m.num(y)) % Q == 0
    return key(x) == key(y)
