"""
Self-test of the interpreter: functions in the style of possible rewritings of the library, analysed with constants and with
unknown numbers, against what Python computes for them. Nothing registered in MANIFEST.json uses this file.

usage: idioms.py [pattern]
"""

import hashlib
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

SOURCE = r'''
import abc
import attr
import binascii
import hashlib
import os
import secrets
import struct
import uuid
import collections
import contextlib
import copy
import functools
import itertools
import operator
from collections import defaultdict, namedtuple, OrderedDict, Counter, deque
from dataclasses import dataclass, field, replace
from functools import reduce, partial
from itertools import chain, islice, accumulate, count, repeat, zip_longest, starmap, takewhile, product


def t_loop(a, b):
    out = []
    for i in range(3):
        out.append(a + i * b)
    return out

def t_while(a, b):
    i, out = 0, []
    while i < 4:
        out += [a * i]
        i += 1
    return out, i

def t_while_true(a, b):
    i = 0
    while True:
        if i >= 3:
            break
        i += 1
    else:
        i = 100
    return i + a

def t_while_pop(a, b):
    todo = [a, b, 3]
    out = []
    while todo:
        out.append(todo.pop())
    return out

def t_pop0(a, b):
    todo = [a, b, 3]
    first = todo.pop(0)
    return first, todo

def t_for_else(a, b):
    for x in [a, b]:
        if x == 1000:
            break
    else:
        return "none"
    return "found"

def t_for_break(a, b):
    last = None
    for i, x in enumerate([1, 2, 3, 4]):
        if x > 2:
            last = i
            break
    return last

def t_for_continue(a, b):
    out = []
    for x in [1, 2, 3, 4]:
        if x % 2:
            continue
        out.append(x + a)
    return out

def t_nested(a, b):
    out = []
    for i in range(2):
        for j in range(i, 3):
            if j == 2:
                break
            out.append((i, j, a))
    return out

def t_comp(a, b):
    return [x * a for x in [1, 2, 3] if x != 2], {x: a for x in (1, 2)}, (lambda y: y + b)(a)

def t_comp2(a, b):
    return [x + y for x in [a, b] for y in [1, 2]]

def t_comp_nested(a, b):
    return [[x, y] for x, y in zip([a, b], [b, a])]

def t_dictcomp_filter(a, b):
    d = {"x": a, "y": None, "z": b}
    return {k: v for k, v in d.items() if v is not None}

def t_zip(a, b):
    return list(zip([1, 2, 3], [a, b, a]))

def t_zip_star(a, b):
    xs, ys = zip(*[(1, a), (2, b)])
    return list(xs), list(ys)

def t_zip_longest(a, b):
    return list(zip_longest([1, 2, 3], [a], fillvalue=0))

def t_enumerate(a, b):
    return [(i, x) for i, x in enumerate([a, b], 1)], [(i, x) for i, x in enumerate([a, b], start=5)]

def t_enumerate_zip(a, b):
    return [i * x + y for i, (x, y) in enumerate(zip([a, b], [1, 2]))]

def t_reversed(a, b):
    return list(reversed([a, b, 3])), [a, b, 3][::-1]

def t_slice(a, b):
    xs = [a, b, 3, 4, 5]
    return xs[1:], xs[:2], xs[-1], xs[:-1], xs[1:-1], xs[::2], xs[-2:], xs[5:], xs[2:2]

def t_slice_assign(a, b):
    xs = [1, 2, 3, 4]
    xs[1:3] = [a, b]
    xs[0] = 9
    return xs

def t_slice_insert(a, b):
    xs = [1, 2, 3]
    xs[1:1] = [a]
    return xs

def t_insert(a, b):
    xs = [1, 2, 3]
    xs.insert(1, a)
    xs.insert(0, b)
    xs.insert(len(xs), 7)
    return xs

def t_del(a, b):
    xs = [1, 2, 3]
    del xs[1]
    d = {"a": a, "b": b}
    del d["a"]
    return xs, d

def t_list_methods(a, b):
    xs = [a]
    xs.append(b)
    xs.extend([3, 4])
    xs.extend(x for x in (5,))
    ys = xs.copy()
    ys.reverse()
    xs.remove(3)
    return xs, ys, len(xs), xs.index(4), xs.count(4)

def t_list_mul(a, b):
    xs = [None] * 3
    xs[1] = a
    return xs, [0] * 2, [a] + [b] * 2

def t_list_clear(a, b):
    xs = [a]
    xs.clear()
    return xs, not xs

def t_star(a, b):
    first, *rest = [a, b, 3]
    *init, last = (1, 2, a)
    h, *mid, e = [1, 2, 3, b]
    return first, rest, init, last, h, mid, e

def t_star_call(a, b):
    def f(*args, **kw):
        return list(args), kw
    return f(1, *[a, b], x=2, **{"y": a})

def t_star_list(a, b):
    xs = [1, 2]
    return [*xs, a, *xs], (*xs, b), {**{"a": 1}, "b": b}

def t_swap(a, b):
    a, b = b, a
    return a, b

def t_unpack_nested(a, b):
    (x, y), z = (a, b), 3
    return x, y, z

def t_multi_assign(a, b):
    x = y = [a]
    y.append(b)
    return x

def t_walrus(a, b):
    if (n := a + b) > 0:
        return n
    return -n

def t_walrus_while(a, b):
    it = iter([1, 2, 3, 0, 5])
    out = []
    while (x := next(it)) != 0:
        out.append(x)
    return out

def t_walrus_comp(a, b):
    return [y for x in [1, 2, 3] if (y := x * 2) > 2]

def t_ternary(a, b):
    return "p" if a > b else "q"

def t_chained(a, b):
    return 0 <= a < 100, a < b < 3, 1 < 2 < 3

def t_bool(a, b):
    return a or b, a and b, not a, None or a, [] or [b], 0 or "x"

def t_any_all(a, b):
    return any(x > 2 for x in [1, 2, 3]), all(x is None for x in [None, None]), any([]), all([]), any(x is None for x in [a, None])

def t_sum(a, b):
    return sum([a, b, 3]), sum([1, 2], 10), sum(x * a for x in (1, 2)), sum([[1], [a]], [])

def t_minmax(a, b):
    return max(1, 5), min([3, 2]), max([], default=7), max("abc", key=lambda c: c), min(3, a + 100)

def t_sorted(a, b):
    return sorted([3, 1, 2]), sorted(["b", "a"], reverse=True), sorted([(2, "x"), (1, "y")], key=lambda p: p[0])

def t_map_filter(a, b):
    return list(map(lambda x: x + a, [1, 2])), list(filter(None, [0, 1, 2])), list(filter(lambda x: x is not None, [None, 3])), list(map(operator.add, [1, 2], [a, b]))

def t_reduce(a, b):
    return reduce(lambda x, y: x * 2 + y, [1, 0, 1, a]), functools.reduce(operator.add, [a, b, 1]), reduce(lambda x, y: x + [y], [1, a], [])

def t_partial(a, b):
    f = partial(lambda x, y, z=0: x * 100 + y * 10 + z, a)
    return f(b), f(b, z=1)

def t_chain(a, b):
    return list(chain([1], [a, b])), list(chain.from_iterable([[1], [a]])), list(itertools.chain(*[[a], [b]]))

def t_islice(a, b):
    return list(islice([1, 2, 3, 4], 2)), list(islice([1, 2, 3, 4], 1, 3)), list(islice(count(5), 3))

def t_accumulate(a, b):
    return list(accumulate([1, a, b])), list(accumulate([1, 2, 3], operator.mul))

def t_repeat(a, b):
    return list(repeat(a, 3)), list(zip([1, 2], repeat(b)))

def t_count(a, b):
    c = count()
    return [next(c) for _ in range(3)], [i for i, _ in zip(count(2), "ab")]

def t_starmap(a, b):
    return list(starmap(lambda x, y: x * y, [(1, a), (2, b)]))

def t_takewhile(a, b):
    return list(takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1]))

def t_product(a, b):
    return list(product([1, 2], [a]))

def t_iter_next(a, b):
    it = iter([a, b])
    x = next(it)
    y = next(it)
    z = next(it, "end")
    return x, y, z

def t_iter_rest(a, b):
    it = iter([a, b, 3])
    first = next(it)
    return first, list(it)

def t_iter_shared(a, b):
    it = iter([1, 2, 3, 4])
    return [(x, next(it)) for x in it]

def t_gen(a, b):
    def gen():
        yield a
        for x in [1, 2]:
            yield x * b
    return list(gen()), [x for x in gen()]

def t_gen_from(a, b):
    def inner(n):
        for i in range(n):
            yield i
    def outer():
        yield from inner(2)
        yield from [a, b]
    return list(outer())

def t_gen_expr(a, b):
    g = (x + a for x in [1, 2])
    return tuple(g)

def t_gen_next(a, b):
    g = (x for x in [1, 2, 3] if x > 1)
    return next(g), next((x for x in [1] if x > 5), None)

def t_gen_recursive(a, b):
    def walk(tree):
        if isinstance(tree, list):
            for x in tree:
                yield from walk(x)
        else:
            yield tree
    return list(walk([1, [a, [b]], 4]))

def t_dict(a, b):
    d = {}
    d["x"] = a
    d["y"] = b
    d["x"] = 3
    return d, list(d), list(d.values()), list(d.items()), "x" in d, "q" not in d, len(d), d.get("x"), d.get("q"), d.get("q", 5)

def t_dict_methods(a, b):
    d = dict(x=a, y=b)
    e = dict([("x", 1), ("z", 2)])
    d.update(e)
    d.update(w=4)
    p = d.pop("w")
    q = d.pop("nothing", None)
    return d, p, q, d.setdefault("x", 9), d.setdefault("new", a), d

def t_dict_zip(a, b):
    return dict(zip(["x", "y"], [a, b])), dict(enumerate([a, b]))

def t_dict_merge(a, b):
    return {**{"a": 1, "b": 2}, **{"b": a}}, {"a": 1} | {"a": b}

def t_dict_fromkeys(a, b):
    return dict.fromkeys(["a", "b"], 0), dict.fromkeys([1, 2])

def t_dict_loop(a, b):
    d = {"x": a, "y": b}
    out = []
    for k in d:
        out.append((k, d[k]))
    for k, v in d.items():
        out.append((v, k))
    for v in d.values():
        out.append(v)
    return out

def t_dict_update_loop(a, b):
    d = {"x": 1, "y": 2}
    for k in list(d.keys()):
        d[k] = d[k] * a
    return d

def t_dict_keyerror(a, b):
    try:
        return {"x": 1}["y"]
    except KeyError:
        return "missing"

def t_defaultdict(a, b):
    d = defaultdict(list)
    for k, v in [("x", a), ("y", b), ("x", 3)]:
        d[k].append(v)
    e = defaultdict(int)
    for c in "aab":
        e[c] += 1
    return dict(d), dict(e)

def t_setdefault_append(a, b):
    d = {}
    for k, v in [("x", a), ("y", b), ("x", 3)]:
        d.setdefault(k, []).append(v)
    return d

def t_counter(a, b):
    c = Counter(["x", "y", "x"])
    return c["x"], c["y"], c["nothing"]

def t_ordereddict(a, b):
    d = OrderedDict()
    d["a"] = a
    d["b"] = b
    return list(d.items())

def t_deque(a, b):
    d = deque([1, a])
    d.append(b)
    d.appendleft(0)
    return list(d), d.popleft(), d.pop()

def t_set(a, b):
    s = {1, 2, 3}
    u = set([2, 3, 4])
    return sorted(s & u), sorted(s | u), sorted(s - u), 2 in s, len(s), s <= u, {2} <= s, s == {3, 2, 1}, s.issubset([1, 2, 3, 4]), {1}.isdisjoint({2})

def t_set_build(a, b):
    seen, out = set(), []
    for x in [1, 2, 1, 3, 2]:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out

def t_namedtuple(a, b):
    P = namedtuple("P", "x y")
    p = P(a, y=b)
    x, y = p
    return p.x, p.y, x, p[1], p._replace(x=5).x

Point = namedtuple("Point", ["x", "y"])

def t_namedtuple_global(a, b):
    p = Point(a, b)
    return [p.x, p.y], tuple(p), p == (a, b)

@dataclass
class DC:
    x: int
    y: int = 3
    zs: list = field(default_factory=list)

def t_dataclass(a, b):
    d = DC(a)
    d.zs.append(b)
    e = DC(x=1, y=b)
    f = replace(d, y=8)
    return d.x, d.y, d.zs, e.y, e.zs, f.y, f.zs

@dataclass(frozen=True)
class FDC:
    x: int
    def double(self):
        return FDC(self.x * 2)

def t_dataclass_frozen(a, b):
    return FDC(a).double().x, FDC(1) == FDC(1), FDC(1) == FDC(2)

@attr.s
class At:
    x = attr.ib()
    y = attr.ib(default=4)
    zs = attr.ib(factory=list)

def t_attr(a, b):
    p = At(a)
    q = attr.evolve(p, x=b)
    p.zs.append(1)
    return p.x, p.y, q.x, attr.astuple(At(1, 2))[:2], p.zs, At(1, 2) == At(1, 2), At(1) != At(2)

def t_closure(a, b):
    fs = []
    for i in range(3):
        fs.append(lambda x, i=i: x + i)
    return [f(a) for f in fs]

def t_nonlocal(a, b):
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc()
    inc()
    return n + a

def t_inner_default(a, b):
    def f(x, acc=None):
        acc = [] if acc is None else acc
        acc.append(x)
        return acc
    return f(a), f(b), f(1, [0])

def t_recursion(a, b):
    def fact(n):
        return 1 if n == 0 else n * fact(n - 1)
    return fact(5) + a

def t_kwonly(a, b):
    def f(x, *, y=2, **rest):
        return x, y, rest
    return f(a), f(1, y=b), f(1, z=3)

def t_decorator(a, b):
    def twice(f):
        @functools.wraps(f)
        def g(*args, **kw):
            return f(*args, **kw) * 2
        return g
    @twice
    def h(x, y=1):
        return x + y
    return h(a), h(a, y=b)

def t_decorator_args(a, b):
    def times(n):
        def deco(f):
            def g(*args):
                return [f(*args)] * n
            return g
        return deco
    @times(2)
    def h(x):
        return x
    return h(a)

class Base:
    kind = "base"
    registry = []

    def __init__(self, x):
        self.x = x
        self._y = None

    @property
    def y(self):
        if self._y is None:
            self._y = self.x + 1
        return self._y

    @y.setter
    def y(self, v):
        self._y = v * 2

    @classmethod
    def make(cls, x):
        return cls(x + 1)

    @staticmethod
    def helper(z):
        return z * 3

    def describe(self):
        return [type(self).__name__, self.kind, self.hook()]

    def hook(self):
        return "base hook"

    def __eq__(self, other):
        return isinstance(other, Base) and self.x == other.x

    def __hash__(self):
        return hash(("Base", self.x))

class Derived(Base):
    kind = "derived"

    def __init__(self, x, z=0):
        super().__init__(x)
        self.z = z

    def hook(self):
        return "derived " + super().hook()

class Mixin:
    def hook(self):
        return "mixin " + super().hook()

class Both(Mixin, Derived):
    pass

def t_class(a, b):
    o = Base(a)
    y0 = o.y
    o.y = b
    return y0, o.y, Base.make(a).x, Base.helper(2), o.helper(b), o.kind

def t_inherit(a, b):
    d = Derived(a, z=b)
    return d.describe(), d.z, Derived.make(1).x, isinstance(d, Base), issubclass(Derived, Base), Both(1).describe(), Base.hook(d)

def t_eq_hash(a, b):
    return Base(1) == Base(1), Base(1) != Base(2), Base(1) in [Base(2), Base(1)], len({Base(1): 1, Base(1): 2}), [Base(3)].index(Base(3))

def t_getattr(a, b):
    o = Base(a)
    setattr(o, "extra", b)
    return getattr(o, "x"), getattr(o, "nothing", 5), hasattr(o, "extra"), hasattr(o, "no"), o.extra, getattr(o, "hook")()

def t_getattr_loop(a, b):
    o = Derived(a, b)
    return [getattr(o, n) for n in ("x", "z", "kind")], {n: getattr(o, n) for n in ["x", "z"]}

def t_dunder_dict(a, b):
    o = Base(a)
    p = Base.__new__(Base)
    p.__dict__.update(o.__dict__)
    p.x = 7
    q = object.__new__(Base)
    q.__dict__ = dict(o.__dict__)
    q._y = 5
    r = copy.copy(o)
    r.x = b
    return o.x, p.x, p._y, q.x, q._y, r.x, sorted(vars(o)), o.__dict__["x"]

def t_vars_loop(a, b):
    o = Base(a)
    p = Base.__new__(Base)
    for k, v in vars(o).items():
        setattr(p, k, v)
    p.x += 1
    return o.x, p.x

def t_delattr(a, b):
    o = Base(a)
    del o.x
    return hasattr(o, "x"), hasattr(o, "_y")

class Bag:
    def __init__(self, items):
        self.items = list(items)

    def __getitem__(self, i):
        return self.items[i]

    def __setitem__(self, i, v):
        self.items[i] = v

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __contains__(self, x):
        return x in self.items

    def __add__(self, other):
        return Bag(self.items + other.items)

    def __iadd__(self, other):
        self.items += other.items
        return self

    def __call__(self, f):
        return Bag(f(x) for x in self.items)

    def __bool__(self):
        return bool(self.items)

    def __neg__(self):
        return Bag([-x for x in self])

    def __rmul__(self, k):
        return Bag([k * x for x in self])

    def __lt__(self, other):
        return len(self) < len(other)

def t_container(a, b):
    o = Bag([a, b])
    o[0] = 5
    p = o + Bag([1])
    o += Bag([2])
    return o[0], len(o), list(o), 5 in o, list(p), list(p(lambda x: x + 1)), [x for x in -p], bool(Bag([])), list(2 * p), Bag([]) < o

class Lazy:
    def __init__(self, target):
        self.target = target

    def __getattr__(self, name):
        return getattr(self.target, name)

def t_delegate(a, b):
    return Lazy(Base(a)).x, Lazy(Derived(1, b)).hook()

class Shape(abc.ABC):
    @abc.abstractmethod
    def area(self):
        pass

    def twice(self):
        return 2 * self.area()

class Square(Shape):
    def __init__(self, s):
        self.s = s

    def area(self):
        return self.s * self.s

def t_abstract(a, b):
    return Square(a).twice(), [s.area() for s in (Square(1), Square(b))]

def t_dispatch(a, b):
    table = {"add": lambda x, y: x + y, "sub": operator.sub}
    return table["add"](a, b), table["sub"](a, b), [f(1, 2) for f in table.values()]

def t_dispatch_type(a, b):
    def f(x):
        if isinstance(x, (list, tuple)):
            return "seq"
        elif isinstance(x, str):
            return "str"
        elif x is None:
            return "none"
        return "other"
    return f([]), f(()), f("a"), f(None), f(3)

def t_match(a, b):
    def f(x):
        match x:
            case None:
                return "none"
            case [y, z]:
                return y, z
            case {"k": v}:
                return v
            case 1 | 2:
                return "small"
            case str():
                return "text"
            case Base(x=v) if v:
                return v
            case _:
                return "other"
    return f(None), f([a, b]), f({"k": a}), f(2), f("s"), f(9), f(Base(4))

def t_try(a, b):
    out = []
    for x in [1, None, "a"]:
        try:
            y = x + 1
        except TypeError:
            out.append("bad")
        else:
            out.append(y)
        finally:
            out.append("done")
    return out

class Oops(ValueError):
    def __init__(self, msg, code=3):
        super().__init__(msg)
        self.code = code

def t_raise(a, b):
    def f(x):
        if x:
            raise Oops("no", code=a)
        return "ok"
    out = [f(0)]
    try:
        f(1)
    except ValueError as e:
        out.append(e.code)
        out.append(str(e))
    return out

def t_raise_from(a, b):
    def f():
        try:
            {}["x"]
        except KeyError as e:
            raise Oops("wrapped") from e
    try:
        f()
    except (TypeError, Oops):
        return "caught"

def t_reraise(a, b):
    try:
        try:
            raise Oops("x")
        except ValueError:
            raise
    except Exception as e:
        return type(e).__name__

def t_finally_return(a, b):
    log = []
    def f():
        try:
            return "value"
        finally:
            log.append("cleanup")
    return f(), log

def t_early_return_loop(a, b):
    def find(xs, p):
        for x in xs:
            if p(x):
                return x
        return None
    return find([1, 2, 3], lambda x: x > 1), find([1], lambda x: x > 1)

def t_suppress(a, b):
    out = []
    with contextlib.suppress(KeyError):
        out.append(1)
        {}["x"]
        out.append(2)
    return out

@contextlib.contextmanager
def managed(log, x):
    log.append("in")
    try:
        yield x
    finally:
        log.append("out")

def t_contextmanager(a, b):
    log = []
    with managed(log, a) as v:
        log.append(v)
    return log

class Ctx:
    def __enter__(self):
        self.on = True
        return self

    def __exit__(self, *exc):
        self.on = False
        return False

def t_with_class(a, b):
    with Ctx() as c:
        x = c.on
    return x, c.on

def t_fstring(a, b):
    n = "x"
    return f"{n}={3}", f"{'a'!r}", "%s-%d" % ("a", 3), "{} {}".format(1, "b"), "{0}{1}{0}".format("a", "b"), "{x}".format(x=2), f"{5:03d}", "%s" % "q"

def t_str(a, b):
    return "-".join(["a", "b"]), "a,b".split(","), " x ".strip(), "abc"[1], "abc"[::-1], "a" + "b", "ab" * 2, "b" in "abc", "abc".startswith("a"), "A".lower(), "a".upper(), "aXb".replace("X", "-"), len("abc"), "abc".find("c")

def t_bytes(a, b):
    return b"a" + b"b", "a".encode(), b"a".decode(), len(b"abc"), b"\x01\x02".hex(), bytes([1, 2]), (258).to_bytes(2, "big"), int.from_bytes(b"\x01\x00", "big")

def t_int(a, b):
    return 7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** 5, 1 << 4, 20 >> 2, 6 & 3, 6 | 1, 6 ^ 2, pow(3, 4, 5), divmod(17, 5), abs(-3), int("12"), int("ff", 16), (5).bit_length(), bool(3), -(-5 // 2), round(2.6), ~5, hex(255), bin(5), 7 / 2

def t_arith(a, b):
    x = a * b + 2 * a - b
    x -= a
    x *= 2
    return x, (a + b) * (a - b), a ** 2, -a, +b

def t_arith_mod(a, b):
    return (a + b) % 7, (a * b - a) % 11, (-a) % 5

def t_bits(a, b):
    n = 13
    return [(n >> i) & 1 for i in range(5)], [1 if n & (1 << i) else 0 for i in range(5)], [int(c) for c in reversed(bin(n)[2:])], format(n, "b")

def t_horner(a, b):
    total = 0
    for x in reversed([1, a, b]):
        total = total * 2 + x
    return total

def t_power_sum(a, b):
    total, power = 0, 1
    for x in [a, b, 3]:
        total += x * power
        power <<= 1
    return total, sum(x * 2 ** i for i, x in enumerate([a, b, 3])), sum(x << i for i, x in enumerate([1, 1]))

def t_index_shift(a, b):
    true_idx, sims = 1, [a, b]
    out = []
    for i in range(3):
        if i == true_idx:
            out.append("t")
        else:
            out.append(sims[i - (i > true_idx)])
    return out

def t_index_bool(a, b):
    return ["no", "yes"][a > 0], (a, b)[True], [1, 2, 3][-(a > 1000) - 1]

def t_index_find(a, b):
    xs = [None, a, None]
    return [i for i, x in enumerate(xs) if x is not None][0], next(i for i, x in enumerate(xs) if x is not None)

def t_range_len(a, b):
    xs = [a, b]
    return [xs[i] + i for i in range(len(xs))], [xs[-i - 1] for i in range(len(xs))], list(range(5, 0, -2)), list(range(1, 4))

def t_none(a, b):
    x = None
    y = x if x is not None else a
    return y, x is None, [z for z in (x, y) if z is not None], (x or 3)

def t_sentinel(a, b):
    missing = object()
    d = {"x": None}
    v = d.get("x", missing)
    w = d.get("y", missing)
    return v is missing, w is missing

def t_copy(a, b):
    xs = [[a], b]
    ys = copy.copy(xs)
    zs = copy.deepcopy(xs)
    us = xs[:]
    vs = list(xs)
    xs[0].append(1)
    xs.append(2)
    return len(ys), ys[0], len(zs), zs[0], len(us), us[0], len(vs)

def t_alias_dict(a, b):
    d = {"k": [a]}
    e = dict(d)
    e["k"].append(b)
    e["n"] = 1
    return d, e

def t_mutate_arg(a, b):
    def add(xs):
        xs.append(a)
    def rebind(xs):
        xs = [b]
    xs = []
    add(xs)
    rebind(xs)
    return xs

STATE = {"n": 0}
COUNTS = []

def t_global(a, b):
    COUNTS.append(a)
    STATE["n"] += 1
    n = STATE["n"]
    COUNTS.pop()
    STATE["n"] -= 1
    return n, len(COUNTS)

def t_is(a, b):
    xs = [a]
    ys = xs
    return xs is ys, xs is [a], xs == [a], None is None, True is True

def t_compare_lists(a, b):
    return [a, 1] == [a, 1], (1, 2) < (1, 3), [1, 2] != [1], {"x": a} == {"x": a}, [1] == (1,)

def t_in(a, b):
    return 3 in [1, 2, 3], None in [a, None], "x" in {"x": 1}, a in (a, b), 2 not in [1]

def t_filter_index(a, b):
    parts = ["p", "q", "r"]
    return [p for i, p in enumerate(parts) if i != 1], parts[:1] + parts[2:], [p for p in parts if p != "q"]

def t_stack(a, b):
    out, stack = [], [[a, [b, 3]]]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            for y in reversed(x):
                stack.append(y)
        else:
            out.append(x)
    return out

def t_flags(a, b):
    ok = True
    for x in [1, 2, 3]:
        if x == 2:
            ok = False
    found = False
    for x in [1, 2]:
        found = found or x == 2
        ok &= x > 0
    ok2 = True
    ok2 &= 3 > 2
    return ok, found, ok2

def t_bitops_bool(a, b):
    r = True
    r = r & (1 == 1)
    r |= False
    return r, True ^ True, not r

def t_type(a, b):
    return type(3) is int, type([]).__name__, type("a") == str, isinstance(True, int), callable(len), type(Base(1)) is Base, Base.__name__, Base(1).__class__.__name__

def t_lambda_sort(a, b):
    xs = [("b", 2), ("a", 1)]
    xs.sort(key=operator.itemgetter(1))
    return xs, list(map(operator.itemgetter(0), xs)), [operator.attrgetter("x")(Base(a))]

def t_methodcaller(a, b):
    return [operator.methodcaller("hook")(Base(1))], list(map(Base.hook, [Base(1)]))

def t_lru(a, b):
    @functools.lru_cache(maxsize=None)
    def f(x):
        return x * 2
    return f(3), f(3), f(4)

def t_cached_property(a, b):
    class K:
        def __init__(self):
            self.n = 0
        @functools.cached_property
        def v(self):
            self.n += 1
            return self.n + a
    k = K()
    return k.v, k.v, k.n

def t_singledispatch_like(a, b):
    handlers = [(int, lambda x: "i"), (str, lambda x: "s")]
    def f(x):
        for cls, h in handlers:
            if isinstance(x, cls):
                return h(x)
    return f(1), f("a"), f(None)

def t_assert(a, b):
    assert True
    assert [1], "message"
    return 1

def t_pass(a, b):
    if a == a + 0:
        pass
    else:
        raise ValueError("x")
    for _ in []:
        pass
    return None

def t_nested_func_rec(a, b):
    def collect(t, out=None):
        if out is None:
            out = []
        if isinstance(t, tuple):
            for x in t:
                collect(x, out)
        else:
            out.append(t)
        return out
    return collect((a, (b, 1), 2))

def t_try_attr(a, b):
    o = Base(a)
    try:
        v = o.missing
    except AttributeError:
        v = "default"
    try:
        w = o.x
    except AttributeError:
        w = "default"
    return v, w

def t_try_index(a, b):
    try:
        return [1, 2][5]
    except IndexError:
        return "out"

def t_try_unpack(a, b):
    try:
        x, y = [1, 2, 3]
    except ValueError:
        return "count"
    return "no"

def t_try_zero(a, b):
    try:
        return 1 // 0
    except ZeroDivisionError:
        return "zero"

def t_stopiteration(a, b):
    it = iter([])
    try:
        next(it)
    except StopIteration:
        return "stop"

def t_exception_group_order(a, b):
    log = []
    try:
        log.append(1)
        raise KeyError("k")
    except IndexError:
        log.append("wrong")
    except LookupError:
        log.append("lookup")
    except Exception:
        log.append("late")
    return log

def t_tuple_ops(a, b):
    t = (a,) + (b, 3)
    return t, len(t), t[1:], t.index(3), t.count(3), t * 2, (1,) + tuple([2])

def t_update_while_iter(a, b):
    xs = [1, 2, 3]
    for x in list(xs):
        if x == 2:
            xs.remove(x)
    return xs

def t_groupby(a, b):
    return [(k, list(g)) for k, g in itertools.groupby([1, 1, 2], key=lambda x: x)]

def t_combinations(a, b):
    return list(itertools.combinations([1, 2, 3], 2)), list(itertools.permutations([1, 2]))

def t_pairwise(a, b):
    xs = [1, 2, 3]
    return list(zip(xs, xs[1:])), [y - x for x, y in zip(xs, xs[1:])]

def t_transposed(a, b):
    rows = [(1, a), (2, b)]
    return [list(c) for c in zip(*rows)], list(map(list, zip(*rows)))

def t_zip_strict(a, b):
    return list(zip([1, 2], [a, b], strict=True))

def t_multi_return(a, b):
    def split(xs):
        return [x for x in xs if x < 2], [x for x in xs if x >= 2]
    lo, hi = split([1, 2, 3])
    return lo, hi

def t_cond_method(a, b):
    o = Base(a)
    f = o.hook if a == a else None
    return f(), (o.hook if True else o.describe)()

def t_global_func_alias(a, b):
    g = helper_sum
    return g(a, b), list(map(helper_sum, [1], [b]))

def helper_sum(x, y):
    return x + y

def t_class_attr_mutation(a, b):
    Base.registry.append(a)
    n = len(Base.registry)
    Base.registry.pop()
    return n

def t_inst_shadow(a, b):
    o, p = Base(1), Base(2)
    o.kind = "mine"
    return o.kind, p.kind, Base.kind

def t_local_class(a, b):
    class L:
        def __init__(self, v):
            self.v = v
        def get(self):
            return self.v + a
    return L(b).get()

def t_super_new(a, b):
    class N:
        def __new__(cls, v):
            o = super().__new__(cls)
            o.v = v
            return o
    return N(a).v

def t_eval_order(a, b):
    log = []
    def f(x):
        log.append(x)
        return x
    r = f(1) + f(2) * f(3)
    d = {f("k"): f("v")}
    xs = [f(i) for i in (7, 8)]
    return log, r

def t_short_circuit(a, b):
    log = []
    def f(x):
        log.append(x)
        return x
    f(0) and f(1)
    f(2) or f(3)
    any(f(x) for x in [0, 5, 6])
    all(f(x) for x in [7, 0, 8])
    return log

def t_all_list(a, b):
    log = []
    def f(x):
        log.append(x)
        return x
    all([f(x) for x in [7, 0, 8]])
    return log

def t_cond_assign(a, b):
    if a > b:
        r = "gt"
    elif a == b:
        r = "eq"
    else:
        r = "lt"
    return r

def t_cond_list(a, b):
    out = []
    if a > b:
        out.append(a)
    out.append(b)
    return out[-1]

def t_cond_loop(a, b):
    n = 0
    for x in [a, b, 1]:
        if x > 2:
            n += x
    return n

def t_cond_max(a, b):
    best = a
    for x in [b, 3]:
        if x > best:
            best = x
    return best

def t_cond_return_loop(a, b):
    for i, x in enumerate([a, b]):
        if x > 3:
            return i
    return -1

def t_cond_raise(a, b):
    def f(x):
        if x < 0:
            raise ValueError("neg")
        return x
    try:
        return f(a - 1000)
    except ValueError:
        return f(b)

def t_cond_filter(a, b):
    return len([x for x in [a, b, 1] if x > 2])

def t_cond_break(a, b):
    total = 0
    for x in [a, b, 5]:
        if x > 4:
            break
        total += x
    return total

def t_cond_dict(a, b):
    d = {}
    if a > b:
        d["big"] = a
    else:
        d["small"] = b
    return d.get("big", 0) + d.get("small", 0), "big" in d

def t_cond_index(a, b):
    idx = 0 if a > b else 1
    return [a, b][idx], ["x", "y", "z"][idx + 1]

def t_cond_pop(a, b):
    xs = [1, 2, 3]
    if a > b:
        xs.pop()
    return len(xs), sum(xs)

def t_cond_try(a, b):
    try:
        if a > b:
            raise KeyError("x")
        r = 1
    except KeyError:
        r = 2
    return r

def t_cond_obj(a, b):
    o = Base(1) if a > b else Derived(2)
    return o.x, o.hook()

def t_cond_mutate_obj(a, b):
    o = Base(a)
    if a > b:
        o.x = 0
    return o.x

def t_sentinel_loop(a, b):
    res = None
    for x in [a, b]:
        if res is None:
            res = x
        else:
            res = res + x
    return res

def t_sum_point_style(a, b):
    res = None
    for k, p in zip([2, 3], [a, b]):
        res = k * p if res is None else res + k * p
    return res

def t_print(a, b):
    print("x", a, sep="")
    return None

def t_setattr_many(a, b):
    o = Base(0)
    for name, value in dict(p=a, q=b).items():
        setattr(o, name, value)
    return o.p, o.q

def t_chain_calls(a, b):
    class Builder:
        def __init__(self):
            self.parts = []
        def add(self, x):
            self.parts.append(x)
            return self
        def build(self):
            return tuple(self.parts)
    return Builder().add(a).add(b).build()

def t_iter_class(a, b):
    class Up:
        def __init__(self, n):
            self.n = n
        def __iter__(self):
            for i in range(self.n):
                yield i
    return list(Up(3)), [x + a for x in Up(2)], sum(Up(3))

def t_iterator_class(a, b):
    class It:
        def __init__(self, xs):
            self.xs, self.i = xs, 0
        def __iter__(self):
            return self
        def __next__(self):
            if self.i >= len(self.xs):
                raise StopIteration
            self.i += 1
            return self.xs[self.i - 1]
    return list(It([a, b]))

def t_enum(a, b):
    import enum
    class E(enum.Enum):
        A = 1
        B = 2
    return E.A == E.A, E.A is E.B, E.B.value

def t_typing(a: int, b: "int"):
    x: int = a
    y: list = [b]
    return x, y

def t_slots(a, b):
    class S:
        __slots__ = ("u", "v")
        def __init__(self, u):
            self.u = u
    s = S(a)
    s.v = b
    return s.u, s.v

def t_hash_str(a, b):
    import hashlib
    return hashlib.sha256(b"abc").hexdigest() == hashlib.sha256(b"a" + b"bc").hexdigest()

def t_dict_eq_order(a, b):
    return {"x": 1, "y": 2} == {"y": 2, "x": 1}, list({"x": 1, "y": 2}) == list({"y": 2, "x": 1})

def t_sorted_dict(a, b):
    d = {"b": a, "a": b}
    return [d[k] for k in sorted(d)], sorted(d.items())[0][0]

def t_comprehension_scope(a, b):
    x = 5
    ys = [x for x in [1, 2]]
    return x, ys

def t_default_from_outer(a, b):
    n = 3
    def f(x, m=n):
        return x + m
    n = 100
    return f(a)

def t_late_binding(a, b):
    fs = [lambda: i for i in range(3)]
    return [f() for f in fs]

def t_while_index(a, b):
    xs, i, out = [a, b, 1], 0, []
    while i < len(xs):
        out.append(xs[i])
        i += 1
    return out

def t_while_else(a, b):
    i = 0
    while i < 2:
        i += 1
    else:
        i += 10
    return i

def t_str_mult_lines(a, b):
    return "a" "b", ("x"
        "y")

def t_lambda_default(a, b):
    return (lambda x=a, *r, k=1: (x, r, k))(1, 2, k=b)

def t_nested_dict(a, b):
    d = {}
    d.setdefault("x", {})["y"] = a
    d["x"]["z"] = b
    return d

def t_list_of_lists(a, b):
    m = [[0] * 2 for _ in range(2)]
    m[0][1] = a
    m[1][0] = b
    return m

def t_aug_item(a, b):
    xs = [1, 2]
    xs[0] += a
    d = {"k": 1}
    d["k"] *= b
    o = Base(1)
    o.x += a
    return xs, d, o.x

def t_obj_in_dict(a, b):
    o, p = Base(a), Derived(b)
    d = {o: "o", p: "p"}
    return d[o], len(d)

def t_any_isinstance(a, b):
    return any(isinstance(x, Base) for x in [1, Derived(1)]), [x for x in [1, "a", None] if isinstance(x, str)]

def t_join_gen(a, b):
    return " + ".join("{}*{}".format(x, y) for x, y in zip("ab", "cd")), ",".join(map(str, [1, 2]))

def t_iter_two(a, b):
    return list(iter(lambda: 1, 1)), [x for x in iter((a, b))]

def t_unpack_in_for(a, b):
    return [x + y for x, (y, _) in [(1, (a, 0)), (2, (b, 0))]], [h for h, *_ in [(1, 2, 3), (a,)]]

def t_dict_views(a, b):
    d = {"x": 1, "y": 2}
    return d.keys() == {"x", "y"}, sorted(d.keys() & {"x", "z"}), len(d.items()), set(d) <= {"x", "y", "z"}

def t_kwargs_forward(a, b):
    def g(x, y=0, *args, **kw):
        return [x, y, list(args), kw]
    def f(*args, **kwargs):
        return g(*args, **kwargs)
    return f(a), f(1, b), f(1, 2, 3, k=a), f(x=1, y=b)

def t_method_alias(a, b):
    class K:
        def one(self):
            return a
        two = one
        __radd__ = __add__ = lambda self, o: o
    return K().two(), K() + 3, 4 + K()

def t_nested_try(a, b):
    log = []
    try:
        try:
            raise ValueError("v")
        except KeyError:
            log.append("k")
        finally:
            log.append("f1")
    except ValueError:
        log.append("v")
    finally:
        log.append("f2")
    return log

def t_return_in_loop_finally(a, b):
    log = []
    def f():
        for i in range(3):
            try:
                if i == 1:
                    return i
            finally:
                log.append(i)
    return f(), log

def t_break_in_try(a, b):
    log = []
    for i in range(3):
        try:
            if i == 1:
                break
            log.append(i)
        finally:
            log.append("f")
    return log

def t_continue_in_try(a, b):
    log = []
    for i in range(3):
        try:
            if i == 1:
                continue
            log.append(i)
        except ValueError:
            pass
    return log

COUNTER = itertools.count()


class Named:
    pass


class N1(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return "{:016x}".format(id(self))


def t_name_1(a, b):
    x, y = N1(), N1()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N2(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return hex(id(self))


def t_name_2(a, b):
    x, y = N2(), N2()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N3(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return str(id(self))


def t_name_3(a, b):
    x, y = N3(), N3()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N4(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return "s%d" % id(self)


def t_name_4(a, b):
    x, y = N4(), N4()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N5(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return f"{id(self):x}"


def t_name_5(a, b):
    x, y = N5(), N5()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N6(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return secrets.token_hex(8)


def t_name_6(a, b):
    x, y = N6(), N6()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N7(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return str(uuid.uuid4())


def t_name_7(a, b):
    x, y = N7(), N7()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N8(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return uuid.uuid4().hex


def t_name_8(a, b):
    x, y = N8(), N8()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N9(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return uuid.uuid4().hex[:16]


def t_name_9(a, b):
    x, y = N9(), N9()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N10(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return hashlib.sha256(struct.pack(">q", object.__hash__(self))).hexdigest()[:32]


def t_name_10(a, b):
    x, y = N10(), N10()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N11(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return hashlib.sha256(str(id(self)).encode()).hexdigest()[:32]


def t_name_11(a, b):
    x, y = N11(), N11()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N12(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return hashlib.sha256(repr(object.__hash__(self)).encode("ascii")).hexdigest()[:32]


def t_name_12(a, b):
    x, y = N12(), N12()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N13(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return hashlib.sha256(super().__hash__().to_bytes(8, "big", signed=True)).hexdigest()[:32]


def t_name_13(a, b):
    x, y = N13(), N13()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N14(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return hashlib.sha256(secrets.token_bytes(16)).hexdigest()[:32]


def t_name_14(a, b):
    x, y = N14(), N14()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N15(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return secrets.token_bytes(16).hex()


def t_name_15(a, b):
    x, y = N15(), N15()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N16(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return binascii.hexlify(os.urandom(16)).decode()


def t_name_16(a, b):
    x, y = N16(), N16()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N17(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return hashlib.blake2b(struct.pack(">q", id(self)), digest_size=16).hexdigest()


def t_name_17(a, b):
    x, y = N17(), N17()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N18(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return "secret-" + hashlib.sha256(struct.pack(">q", id(self))).hexdigest()[:32]


def t_name_18(a, b):
    x, y = N18(), N18()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N19(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return "%s_%s" % (type(self).__name__, uuid.uuid4().hex)


def t_name_19(a, b):
    x, y = N19(), N19()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N20(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return format(id(self), "x")


def t_name_20(a, b):
    x, y = N20(), N20()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class N21(Named):
    def __init__(self):
        self.name = self.make()

    def make(self):
        return "secret_{}".format(next(COUNTER))


def t_name_21(a, b):
    x, y = N21(), N21()
    return [x.name == y.name, x.name == x.name, x.name == "x", x.name in ("k", y.name), len({x.name: 1, y.name: 2, "b": 3}),
            ("k" + x.name) == ("k" + y.name), hash(x.name) == hash(y.name), x.name == x.make() and False]


class NI:
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        if not isinstance(other, NI):
            return NotImplemented
        return self.v == other.v

    def __hash__(self):
        return hash((type(self).__name__, self.v))

    def __add__(self, other):
        if isinstance(other, int):
            return NI(self.v + other)
        return NotImplemented

    def __radd__(self, other):
        return self + other

    def __mul__(self, other):
        return NotImplemented

    def __lt__(self, other):
        return self.v < other.v if isinstance(other, NI) else NotImplemented


class RM:
    def __rmul__(self, other):
        return other.v * 10


def t_notimpl(a, b):
    x, y = NI(a), NI(b)
    out = [x == y, x == NI(3), x == a, x != a, a == x, x != y, (x + 2).v, (2 + x).v, x * RM(), x == None, None == x]
    for f in (lambda: x * 3, lambda: x + "q", lambda: x < 3):
        try:
            f()
            out.append(0)
        except TypeError:
            out.append(1)
    out.append(x in [1, y, NI(3)])
    return out


def t_object_eq(a, b):
    x, y = Named(), Named()
    return [object.__eq__(x, x) is True, object.__hash__(x) == object.__hash__(y), object.__hash__(x) == object.__hash__(x), x == y, x != y,
            [*[a, b], *(b, a)]]


'''


class Plain:
    def __init__(self, v):
        self.v = v


def concrete(v):
    """Python values with tuples and lists told apart only where the interpreter does."""
    if isinstance(v, (list, tuple)):
        return ["seq"] + [concrete(x) for x in v]
    if isinstance(v, dict):
        return {"dict": [[concrete(k), concrete(x)] for k, x in v.items()]}
    if isinstance(v, bool):
        return int(v)
    if hasattr(v, "__next__"):
        return ["seq"] + [concrete(x) for x in v]
    return v


def main():
    from zksa import terms as t
    from zksa import core
    import copy as _copy

    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    env = {}
    exec(SOURCE, env)
    names = [n for n in env if n.startswith("t_") and re.search(pat, n)]

    def back(x):
        """Constant term to a comparable value; raises if not constant."""
        if x.op == "c":
            v = x.a[1]
            return int(v) if isinstance(v, bool) else v
        if x is t.NONE:
            return None
        if x in (t.TRUE, t.FALSE):
            return int(x is t.TRUE)
        if x.op == "L":
            return back(x.a[0])
        if x.op == "lit":
            return ["seq"] + [back(y) for y in x.a]
        if x.op == "D":
            return back(x.a[0])
        if x is t.DEMPTY:
            return {"dict": []}
        if x.op == "dput":
            ks = t._lit_keys(x)
            return {"dict": [[back(k), back(t.dget(x, k))] for k in ks]}
        if x.op == "setof":
            return back(x.a[0])
        raise ValueError("not constant: " + t.show(x)[:200])

    from zksa.rules import userprims as up
    lib = core.program()
    prog = _copy.copy(lib)
    prog.modules, prog.classes, prog.functions = dict(lib.modules), dict(lib.classes), dict(lib.functions)
    mod = up._Text("idioms", SOURCE)
    prog.modules[mod.name] = mod
    prog._index(mod, mod.tree.body)
    for c in prog.classes.values():
        if c.module is mod:
            for b in c.node.bases:
                r = prog.resolve_expr(b, mod)
                c.bases.append(r[1] if r and r[0] == "cls" else __import__("ast").unparse(b))

    class Ck:
        scenarios = []

    bad = 0
    for n in names:
        for mode in ("const", "sym"):
            want = concrete(env[n](*([3, 5])))
            try:
                sc = core.Scn(Ck, prog)
                A, B = (t.C(3), t.C(5)) if mode == "const" else (sc.num("a"), sc.num("b"))
                r = sc.call(sc.F("idioms", n), A, B)
                r = sc.I.reify(r)
                if sc.pc is not t.TRUE and mode == "const":
                    raise ValueError("path condition " + t.show(sc.pc)[:150])
                if mode == "sym":
                    r = t.subst(r, {A: t.C(3), B: t.C(5)})
                notes = []
                got = back(r)
                if got != want:
                    print("%-24s %-5s WRONG got %s want %s %s" % (n, mode, str(got)[:300], str(want)[:300], notes))
                    bad += 1
            except ValueError as e:
                print("%-24s %-5s UNDECIDED %s" % (n, mode, str(e)[:260]))
                bad += 1
            except Exception as e:
                print("%-24s %-5s CRASH %s %s" % (n, mode, type(e).__name__, str(e)[:200]))
                bad += 1
                if os.environ.get("ZKSA_DEBUG"):
                    raise
    print("%d functions, %d problems" % (len(names), bad))


if __name__ == "__main__":
    main()
