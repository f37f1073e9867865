"""C17: threads get what they would get one after the other."""
import dataclasses
import itertools
import sys
import types
import typing
from typing import Any, Dict, List, NamedTuple, Optional, Tuple, Union

from mc import sched
sched.install()

from mc import types_model as tm
from mc.core import Property, require

import marsh
from marsh import errors, utils


def pause():
    """A point in code of the user at which another thread may go on."""
    ex = sched._active
    if ex is not None:
        me = sched._by_ident.get(sched._thread.get_ident())
        if me is not None:
            ex.point(me, 'pause')


# -- small structures, switching between bytecodes -----------------------------

def source(n):
    pause()
    for i in range(n):
        pause()
        yield i
    pause()


def s_iter(k, kinds):
    def make():
        it = utils.IterableFromIterator(source(k))
        fns = {'list': lambda: list(it), 'bool': lambda: bool(it), 'first': lambda: next(iter(it), None), 'zip': lambda: list(zip(it, it))}
        return [fns[x] for x in kinds], lambda: list(it)
    return make


def s_cache(binding, keys, clear=False, **kw):
    def make():
        log = []

        class Obj:
            def __init__(self, name):
                self.name = name

            @utils.cache(binding=binding, **kw)
            def f(self, key):
                pause()
                log.append((self.name, key))
                pause()
                return self.name, repr(key)

            @utils.cache(binding=binding, **kw)
            def g(self, key):
                out = [self.f(key), self.name]
                pause()
                other = Obj(self.name + "'")
                out.append(other.f((key, 2)) if isinstance(key, int) else other.f([key]))
                out.append(self.name)
                return tuple(out)
        objs = [Obj('a'), Obj('b')]

        def call(i):
            return lambda: [getattr(objs[i], m)(k) for m, k in keys[i]]
        fns = [call(0), call(1)]
        if clear:
            fns[1] = lambda: [Obj.f.cache_clear(), Obj.g.cache_clear()][:0]
        return fns, lambda: ([getattr(objs[i], m)(k) for i in (0, 1) for m, k in keys[i]], Obj.f.cache_info()[3:] and 0)
    return make


def s_weak(kinds):
    def make():
        cache = utils.WeakTypeCache(skip_types={int})
        ts = [type(n, (), {}) for n in 'pqrs']
        cache.add(ts[0])
        cache.add(ts[1])

        def over():
            out = []
            for t in cache:
                pause()
                out.append(t.__name__)
            return [x for x in out if x in 'pq'] if kinds != ('over', 'over') else out

        def add():
            cache.add(ts[2])
            cache.add(int)
            return ts[2] in cache

        def again():
            cache.add(ts[1])
            return ts[1] in cache

        fns = {'over': over, 'add': add, 'again': again, 'add2': lambda: [cache.add(ts[3]), ts[3] in cache], 'len': lambda: len(cache) >= 2}
        return [fns[x] for x in kinds], lambda: sorted(t.__name__ for t in cache) + [len(cache), len(ts)]
    return make


def s_order(kinds):
    def make():
        order = utils.PriorityOrder()
        order.add('m', priority=1)
        order.add('n')
        fns = {
            'add x': lambda: order.add('x', priority=2),
            'add y': lambda: order.add('y', lower_priority='m'),
            'add z': lambda: order.add('z', higher_priority='x', priority=5),
            'add x lower': lambda: order.add('x', priority=-1),
            'replace n': lambda: order.add('n', priority=3, replace=True),
            'del': lambda: order.__delitem__(-1),
            'del first': lambda: order.__delitem__(0),
            'over': lambda: list(order),
            'reload': lambda: order.reload(),
            'both': lambda: [order.add('u'), order.add('v', lower_priority='u')][:0],
        }
        return [fns[x] for x in kinds], lambda: list(order)
    return make


def s_pool(kinds):
    def make():
        pool = utils.CachePool()
        calls = []

        def f(x):
            calls.append(x)
            return x + 1
        a = pool.new_callable_cache(f, name='a')
        a(1)
        fns = {
            'clear': pool.cache_clear,
            'new': lambda: pool.new_callable_cache(f, name='b')(2),
            'new2': lambda: pool.new_callable_cache(f, name='c')(2),
            'info': lambda: pool.cache_info()['a'] is not None,
            'off': lambda: [pool.cache_disable(), pool.cache_enable()][:0],
            'use': lambda: a(1),
        }
        return [fns[x] for x in kinds], lambda: (sorted(pool), len(pool), a(1), a(1))
    return make


def s_single(args):
    def make():
        built = []

        class One(metaclass=type('Meta', (utils.SingletonMeta,), {})):
            def __init__(self):
                pause()
                built.append(self)
                pause()
        keep = []

        def get():
            keep.append(One())
            return len({id(x) for x in keep})
        return [get] * args, lambda: (len(built), len({id(x) for x in keep}), One() is keep[0])
    return make


STRUCTURES = {}
for kinds in (('list', 'list'), ('list', 'bool'), ('list', 'first'), ('bool', 'bool'), ('zip', 'list'), ('first', 'first')):
    for k in (0, 1, 2):
        STRUCTURES[f'iterable of {k}: {"/".join(kinds)}'] = s_iter(k, kinds)
for binding in (None, 'ignore', 'weak'):
    STRUCTURES[f'cache {binding}: f/f'] = s_cache(binding, ([('f', 1)], [('f', 2)]))
    STRUCTURES[f'cache {binding}: g/g'] = s_cache(binding, ([('g', 1)], [('g', 3)]))
    STRUCTURES[f'cache {binding}: unhashable'] = s_cache(binding, ([('f', [1])], [('g', [3])]))
    STRUCTURES[f'cache {binding}: clear'] = s_cache(binding, ([('g', 1)], [('f', 2)]), clear=True)
STRUCTURES['cache weak: same key'] = s_cache('weak', ([('f', 1), ('g', 1)], [('f', 1), ('g', 1)]))
STRUCTURES['cache None: same key'] = s_cache(None, ([('f', 1), ('g', 1)], [('f', 1), ('g', 1)]))
for kinds in (('over', 'add'), ('over', 'again'), ('add', 'add2'), ('add', 'again'), ('len', 'again'), ('over', 'over')):
    STRUCTURES['types: ' + '/'.join(kinds)] = s_weak(kinds)
for kinds in itertools.combinations_with_replacement(
    ('add x', 'add y', 'add z', 'add x lower', 'replace n', 'del', 'del first', 'over', 'reload', 'both'), 2,
):
    if kinds != ('over', 'both'):
        STRUCTURES['order: ' + '/'.join(kinds)] = s_order(kinds)
for kinds in itertools.combinations_with_replacement(('clear', 'new', 'new2', 'info', 'off', 'use'), 2):
    STRUCTURES['pool: ' + '/'.join(kinds)] = s_pool(kinds)
STRUCTURES['singleton: 2'] = s_single(2)
TRIPLES = {
    'iterable of 2: list/list/bool': s_iter(2, ('list', 'list', 'bool')),
    'order: add x/add y/over': s_order(('add x', 'add y', 'over')),
    'singleton: 3': s_single(3),
}

# -- operations, switching between lines ----------------------------------------

MODULE = types.ModuleType('mc_c17_types')
sys.modules['mc_c17_types'] = MODULE
SOURCE = '''
import dataclasses, enum
from typing import *

@dataclasses.dataclass
class Node:
    v: int = 0
    kids: List['Node'] = dataclasses.field(default_factory=list)

@dataclasses.dataclass
class Ping:
    pong: Optional['Pong'] = None
    n: int = 0

@dataclasses.dataclass
class Pong:
    ping: Optional[Ping] = None
    s: str = 'p'

class Tup(NamedTuple):
    a: int
    b: Union[int, str] = 1

class Plain:
    def __init__(self, a: int, *rest: int, k: bool = False):
        self.a, self.rest, self.k = a, rest, k
    def __repr__(self):
        return f'Plain({self.a!r}, {self.rest!r}, {self.k!r})'

@dataclasses.dataclass
class Base:
    x: int = 0

@dataclasses.dataclass
class Sub(Base):
    y: int = 0

@dataclasses.dataclass
class Other(Base):
    z: int = 0

class Kind(enum.Enum):
    one = 1
    two = 'b'

class Leaf:
    pass

@dataclasses.dataclass
class HasLeaf:
    leaf: Optional[Leaf] = None
    n: int = 0

def fn(a: int, *b: float, c: Optional[Node] = None):
    pass
'''


def attempt(f, *args):
    try:
        return repr(f(*args))
    except errors.UnmarshalError as err:
        return f'{type(err).__name__} at {err.path}'
    except errors.MarshError as err:
        return f'{type(err).__name__} at {err.path}'


def fresh():
    """New types and cold caches."""
    tm.fresh_typing()
    MODULE.__dict__.clear()
    MODULE.__dict__['__name__'] = 'mc_c17_types'
    exec(SOURCE, MODULE.__dict__)
    marsh.schema.UnmarshalSchema.cache_clear()
    marsh.schema.core.base.caches.cache_clear()
    return MODULE


class Late(marsh.schema.UnmarshalSchema):
    @classmethod
    def match(cls, value):
        return value is MODULE.Leaf

    def unmarshal(self, element):
        return f'late {element}'


class LateMarshal(marsh.schema.MarshalSchema):
    @classmethod
    def match(cls, value):
        return type(value) is MODULE.Leaf

    def marshal(self):
        return 'late'


class Big(marsh.schema.UnmarshalSchema):
    @classmethod
    def match(cls, value):
        return value is int

    def unmarshal(self, element):
        if not isinstance(element, int):
            raise errors.UnmarshalError('big', element=element)
        return 1000 + element


def forget():
    for schema, base in ((Late, marsh.schema.UnmarshalSchema), (LateMarshal, marsh.schema.MarshalSchema), (Big, marsh.schema.UnmarshalSchema)):
        order = base.registry.priority
        while schema in order:
            del order[order.index(schema)]
    for name in ('c17', 'c17b'):
        if name in marsh.namespaces:
            del marsh.namespaces[name]


def un(name, *elements):
    def op(m):
        t = eval(name, m.__dict__)
        return lambda: [attempt(marsh.unmarshal, t, e) for e in elements]
    return op


def doc(name):
    def op(m):
        t = eval(name, m.__dict__)
        return lambda: repr(marsh.schema.UnmarshalSchema(t).doc(3))
    return op


def registering(name, base, *components, before=()):
    def op(m):
        space = marsh.namespaces.new(name, getattr(m, base))
        for c in before:
            space.register(getattr(m, c), name=c)
        return lambda: [space.register(getattr(m, c), name=c, replace=True).__name__ for c in components]
    return op


OPERATIONS = {
    'node': un('Node', {'v': '1', 'kids': [{'v': 2}]}),
    'node bad': un('Node', {'v': 1, 'kids': [{'v': 'x'}]}),
    'ping': un('Ping', {'pong': {'ping': {'n': '3'}}}),
    'pong': un('Pong', {'ping': {'pong': {'s': 5}}}),
    'tup': un('Dict[str, Tup]', {'k': [1, 'x'], 'l.m': {'a': 'z'}}),
    'plain': un('Plain', {'a': 1}, [1, '2']),
    'union': un('List[Union[Kind, Tup, None]]', ['one', None, [3]]),
    'args': lambda m: lambda: attempt(lambda: tuple(marsh.unmarshal_args(m.fn, {'a': 1, 'b': [2], 'c': {'v': 5}}))),
    'leaf': un('List[Leaf]', ['q']),
    'has leaf': un('HasLeaf', {'leaf': 'q', 'n': '1'}),
    'base': un('List[Base]', [{'name': 'Sub', 'y': 1}, {'x': 2}]),
    'marshal': lambda m: lambda: attempt(marsh.marshal, [m.Node(1, [m.Node(2)]), m.Tup(1), m.Kind.two]),
    'marshal leaf': lambda m: lambda: attempt(marsh.marshal, [m.Leaf()]),
    'marshal sub': lambda m: lambda: attempt(marsh.marshal, [m.Sub(1, 2)]),
    'doc': doc('Node'),
    'clear': lambda m: lambda: [marsh.schema.UnmarshalSchema.cache_clear(), marsh.schema.core.base.caches.cache_clear()],
    'late': lambda m: lambda: marsh.schema.register(Late).__name__,
    'late marshal': lambda m: lambda: marsh.schema.register(LateMarshal).__name__,
    'big': lambda m: lambda: marsh.schema.register(priority=20)(Big).__name__,
    'register': registering('c17', 'Base', 'Sub'),
    'another': registering('c17', 'Base', 'Other', before=('Sub',)),
    'elsewhere': registering('c17b', 'Plain', 'Plain'),
    'new space': lambda m: lambda: str(type(marsh.namespaces.new('c17b', m.Plain))),
    'element': lambda m: lambda: attempt(lambda: marsh.element.override({'a': {'b': [1]}}, 'a.b.1', marsh.parse.element('{x:[1,"q"]}'))),
}
MUTATING = ('late', 'late marshal', 'big', 'register', 'another', 'elsewhere', 'new space', 'clear')
ONE_SPACE = ('register', 'another')
PAIRS = (
    ('node', 'node'), ('node', 'node bad'), ('ping', 'pong'), ('ping', 'ping'), ('tup', 'tup'), ('plain', 'plain'), ('union', 'tup'), 
    ('has leaf', 'late'), ('leaf', 'late'), ('node', 'clear'), ('base', 'register'), ('base', 'another'), ('base', 'new space'), ('doc', 'node'), ('marshal', 'marshal'), ('marshal leaf', 'late marshal'),
    ('marshal sub', 'register'), ('tup', 'big'), ('element', 'element'), ('args', 'args'), ('register', 'elsewhere'), ('register', 'new space'), ('elsewhere', 'plain'),
)
# looked at afterwards
AFTER = {
    'late': ('leaf', 'has leaf'), 'late marshal': ('marshal leaf',), 'big': ('tup', 'node'), 'register': ('base', 'marshal sub'), 'another': ('base',),
    'elsewhere': ('plain',), 'new space': ('base', 'plain'), 'clear': ('node',),
}


def s_operations(names, warm):
    def make():
        m = fresh()
        ops = [OPERATIONS[n](m) for n in names]
        last = [OPERATIONS[x](m) for n in names for x in (AFTER[n] if n in AFTER else (n,))]
        if warm:
            for op in last:
                op()
        return ops, lambda: [op() for op in last]
    return make


SHARED = {'utils.py', 'schema/core/unmarshal.py', 'schema/core/base.py', 'schema/namespace.py', 'schema/core/marshal.py'}


class Scenario:
    def __init__(self, name, make, bound, opcodes, only, visits):
        self.name, self.make, self.bound, self.opcodes, self.only, self.visits = name, make, bound, opcodes, only, visits

    def run(self, plan, first):
        fns, after = self.make()
        try:
            ex = sched.Execution(fns, plan, first, self.opcodes, self.only).run()
            outcome = []
            for kind, value in ex.results:
                outcome.append(f'{kind}: {value!r}' if kind == 'ok' else f'{kind}: {type(value).__name__}: {value}')
            try:
                outcome.append(repr(after()))
            except Exception as err:
                outcome.append(f'afterwards: {type(err).__name__}: {err}')
            return ex, tuple(outcome)
        finally:
            forget()


class C17(Property):
    id = 'C17'
    bounds = (
        f'{len(STRUCTURES)} pairs of operations on shared structures switching between bytecodes, with 1 or 2 preemptions (thorough: one more, and 3 threads), '
        f'{len(PAIRS)} pairs of whole operations (thorough: every pair of {len(OPERATIONS)}), cold and warm, switching between lines with 1 preemption '
        '(thorough: also 2 within the shared modules): every schedule whose preemptions happen on the first visit (thorough: first two to four visits) of a place by a thread'
    )

    def setup(self, tier):
        quick = tier == 'quick'
        self.scenarios = {}
        for name, make in STRUCTURES.items():
            bound = 1 if name.startswith(('order', 'pool', 'cache', 'types: add')) else 2
            self.add(name, make, bound + (not quick), not (quick and name.startswith('order')), {'utils.py'}, 1 if quick else 2)
        for name, make in TRIPLES.items():
            self.add(name, make, 1 if quick else 2, True, {'utils.py'}, 1 if quick else 2)
        pairs = PAIRS if quick else tuple(itertools.combinations_with_replacement(OPERATIONS, 2))
        for pair in pairs:
            if pair[0] == pair[1] and pair[0] in MUTATING or {'elsewhere', 'new space'} == set(pair) or pair[0] in ONE_SPACE and pair[1] in ONE_SPACE:
                continue
            for warm in (False, True):
                if quick and warm and pair[1] in ('big', 'late marshal'):
                    continue
                self.add(f'{pair[0]} | {pair[1]}{" (warm)" if warm else ""}', s_operations(pair, warm), 1, False, None, 1 if quick else 4)
        if not quick:
            for pair in PAIRS:
                self.add(f'{pair[0]} | {pair[1]} (shared)', s_operations(pair, False), 2, False, SHARED, 1)

    def add(self, name, make, bound, opcodes, only, visits):
        sc = Scenario(name, make, bound, opcodes, only, visits)
        sc.serial, sc.plans = {}, {}
        fns, _ = make()
        forget()
        for first in range(len(fns)):
            sc.run({}, first)
            ex, outcome = sc.run({}, first)
            sc.serial[first] = outcome
            sc.plans[first] = [{i: to} for i, others in ex.candidates(visits) for to in others]
        if len(fns) == 3:
            # the orders that do not simply go round
            for first, second in itertools.permutations(range(3), 2):
                sc.serial[first, second] = self.in_order(sc, first, second)
        self.scenarios[name] = sc

    @staticmethod
    def in_order(sc, first, second):
        fns, after = sc.make()
        order = [first, second, 3 - first - second]
        results = {}
        for i in order:
            try:
                results[i] = f'ok: {fns[i]()!r}'
            except Exception as err:
                results[i] = f'raised: {type(err).__name__}: {err}'
        outcome = tuple(results[i] for i in range(3)) + (repr(after()),)
        forget()
        return outcome

    def cases(self, tier):
        for name, sc in self.scenarios.items():
            for first, plans in sc.plans.items():
                step = 1 if sc.bound > 1 else 16
                for i in range(0, len(plans), step):
                    yield name, first, i, min(i + step, len(plans))

    def case(self, case, stats):
        name, first, low, high = case
        sc = self.scenarios[name]
        allowed = set(sc.serial.values())
        todo = sc.plans[first][low:high]
        while todo:
            plan = todo.pop()
            ex, outcome = sc.run(plan, first)
            stats.step()
            stats.traces += 1
            stats.distinct()
            stats.outcome(outcome)
            last = max(plan)
            if outcome not in allowed:
                where = [(i, ex.points[i][0], ex.points[i][1], to) for i, to in sorted(plan.items()) if i < len(ex.points)]
                require(False, f'{name}, thread {first} first, handing over at {where}: {outcome}, one after the other: {sorted(allowed)}')
            if len(plan) < sc.bound:
                for i, others in ex.candidates(sc.visits, last + 1):
                    for to in others:
                        todo.append({**plan, i: to})


PROPERTY = C17()
