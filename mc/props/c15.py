"""C15: registered schemas apply at once, in the order of their priorities."""
import dataclasses
import itertools
from typing import Any, Dict, List, Optional

from mc import child
from mc.core import Property, require

import marsh
from marsh import errors
from marsh.utils import PriorityOrder


class Val:
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name

    __repr__ = __str__


class Contradiction(Exception):
    pass


class Item:
    def __init__(self, value, priority, recency, lower, higher):
        self.value, self.priority, self.recency = value, priority, recency
        self.lower, self.higher = set(lower), set(higher)    # ids of values

    def after(self, other):
        """Whether this one has to follow the other."""
        after = id(other.value) in self.higher or id(self.value) in other.lower
        before = id(other.value) in self.lower or id(self.value) in other.higher
        if after and before:
            raise Contradiction()
        return after


def arrange(items):
    """The arrangement that obeys every relation and otherwise puts the
    highest priority first, the newest first among equals.  A newer value that
    is related to an older one moves up or down for it.  None if the relations
    go round in circles."""
    def rank(x):
        return max([(x.priority, x.recency)] + [rank(y) for y in items if y.recency < x.recency and y.after(x)])
    left = sorted(items, key=lambda x: (rank(x), x.priority, x.recency), reverse=True)
    for a, b in itertools.combinations(left, 2):
        a.after(b)
    out = []
    while left:
        for x in left:
            if not any(x.after(y) for y in left if y is not x):
                break
        else:
            return None
        left.remove(x)
        out.append(x)
    return out


class Model:
    def __init__(self):
        self.items = []
        self.n = 0

    def add(self, value, priority=0, lower=(), higher=(), replace=False):
        if {id(v) for v in lower} & {id(v) for v in higher}:
            raise Contradiction()
        items = list(self.items)
        if replace:
            for x in items:
                if str(x.value) == str(value):
                    items.remove(x)
                    break
        elif any(x.value is value for x in items):
            raise Contradiction()
        items.append(Item(value, priority, self.n + 1, map(id, lower), map(id, higher)))
        arranged = arrange(items)
        self.n += 1
        self.circular = arranged is None
        self.items = items if arranged is None else arranged


FORMS = ('alone', 'tuple', 'list', 'set', 'generator', 'hash')


def form(values, kind):
    if not values:
        return None if kind in ('alone', 'hash') else {'tuple': (), 'list': [], 'set': set(), 'generator': iter(())}[kind]
    if kind == 'alone' and len(values) == 1:
        return values[0]
    if kind == 'hash':
        return hash(values[0]) if len(values) == 1 else [hash(v) for v in values]
    return {'alone': tuple, 'tuple': tuple, 'list': list, 'set': set, 'generator': iter}[kind](values)


# -- schemas ----------------------------------------------------------------

@dataclasses.dataclass
class Tee:
    a: Any = 0


class Other:
    """Not supported by itself."""
    __slots__ = ()

    def __new__(cls, *args):
        raise TypeError('no')


@dataclasses.dataclass
class Holder:
    t: Tee = dataclasses.field(default_factory=Tee)
    n: int = 0


PROBES = {
    'tee': (lambda: Tee, {'a': 1}),
    'int': (lambda: int, '7'),
    'list': (lambda: List[Tee], [{'a': 2}]),
    'opt': (lambda: Optional[Tee], {'a': 3}),
    'dict': (lambda: Dict[str, List[int]], {'k': ['8']}),
    'holder': (lambda: Holder, {'t': {'a': 4}, 'n': '9'}),
}
# schema -> (what it matches, wrapper?)
SCHEMAS = {
    'A': ((Tee,), False),
    'B': ((Tee, int), False),
    'R': ((int,), False),       # its match raises TypeError for anything else
    'W': ((Tee, int), True),
    'V': ((Tee,), True),
}


def make(name, number):
    targets, wrapper = SCHEMAS[name]
    tag = f'{name}{number}'

    def match(cls, value):
        if not any(value is t for t in targets):
            if name == 'R':
                raise TypeError('not for me')
            return False
        return True

    if wrapper:
        def unmarshal(self, element):
            return (tag, self.schema.unmarshal(element))
        base = marsh.schema.core.unmarshal.WrapperUnmarshalSchema
    else:
        def unmarshal(self, element):
            return (tag, repr(element))
        base = marsh.schema.UnmarshalSchema
    return type(base)(name, (base,), {'match': classmethod(match), 'unmarshal': unmarshal, '__module__': __name__})


def make_marshal(name, number):
    targets, wrapper = SCHEMAS[name]
    tag = f'{name}{number}'

    def match(cls, value):
        if type(value) not in targets:
            if name == 'R':
                raise TypeError('not for me')
            return False
        return True

    if wrapper:
        def marshal(self):
            return [tag, self.schema.marshal()]
        base = marsh.schema.core.marshal.WrapperMarshalSchema
    else:
        def marshal(self):
            return [tag]
        base = marsh.schema.MarshalSchema
    return type(base)(name, (base,), {'match': classmethod(match), 'marshal': marshal, '__module__': __name__})


def show(v):
    if isinstance(v, tuple):
        return [show(x) for x in v]
    if isinstance(v, Tee):
        return f'Tee({v.a!r})'
    if isinstance(v, Holder):
        return {'t': show(v.t), 'n': show(v.n)}
    if isinstance(v, list):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return {k: show(x) for k, x in v.items()}
    return v


OPTIONS = (
    {}, {'priority': -10}, {'priority': 10}, {'lower': 'last'}, {'higher': 'last'}, {'replace': True}, {'lower': 'first', 'priority': -10},
    {'higher': 'first', 'priority': 10}, {'lower': 'last', 'higher': 'last'}, {'lower': 'primitive', 'priority': -10}, {'higher': 'primitive', 'priority': 3},
    {'lower': 'all'}, {'higher': 'all', 'replace': True},
)
OPS = [(name, i) for name in SCHEMAS for i in range(len(OPTIONS))]


def expected(model, kind, target, element, builtin):
    """What the registered schemas make of a value."""
    tags = []
    for item in model.items:
        if item.value is builtin[kind]:
            if item.matches(target):
                inner = 'builtin'
                break
            continue
        if item.matches(target):
            if item.wrapper:
                tags.append(item.tag)
            else:
                inner = item.tag
                break
    else:
        return None
    return tags, inner


class Registry:
    """The registered schemas with their model, for unmarshaling or marshaling."""

    def __init__(self, marshaling):
        self.marshaling = marshaling
        self.make = make_marshal if marshaling else make
        self.base = marsh.schema.MarshalSchema if marshaling else marsh.schema.UnmarshalSchema
        self.model = Model()
        registry = self.base.registry
        instance = marshaling
        self.known = {}
        self.info = {}
        for target, value in ((int, 1), (Tee, Tee(1))):
            found = [s for s in registry if self.matches(s, value if instance else target)]
            self.known[target] = found[0]
        # the built in ones have been there before
        listed = list(registry)
        for s in sorted(dict.fromkeys(self.known.values()), key=listed.index, reverse=True):
            self.model.add(s)
            self.info[id(s)] = (None, False, tuple(t for t in self.known if self.known[t] is s))
        self.added = []
        self.usual = {name: self.probe(name) for name in PROBES}

    @staticmethod
    def matches(schema, value):
        try:
            return bool(schema.match(value))
        except TypeError:
            return False

    def value(self, name):
        return {
            'tee': Tee(1), 'int': 7, 'list': [Tee(2)], 'opt': Tee(3), 'dict': {'k': [8]}, 'holder': Holder(Tee(4), 9),
        }[name]

    def probe(self, name):
        if self.marshaling:
            return show(marsh.marshal(self.value(name)))
        make_type, element = PROBES[name]
        try:
            return show(marsh.unmarshal(make_type(), element))
        except errors.UnmarshalError as err:
            return f'error {err}'

    def register(self, name, option, number):
        cls = self.make(name, number)
        opts = dict(OPTIONS[option])
        rel = {'last': self.added[-1:], 'first': self.added[:1], 'all': list(self.added), 'primitive': [self.known[int]]}
        kw = {}
        for key in ('lower', 'higher'):
            vals = rel[opts[key]] if key in opts else []
            kw[key] = vals
        priority, replace = opts.get('priority', 0), opts.get('replace', False)
        try:
            self.model.add(cls, priority, kw['lower'], kw['higher'], replace)
            ok = True
        except Contradiction:
            ok = False
        try:
            way = marsh.schema.register
            given = dict(priority=priority, lower_priority=form(kw['lower'], FORMS[number % 3]), higher_priority=form(kw['higher'], FORMS[number % 3]), replace=replace)
            if option:
                # what is not given is as if the default was given
                given = {k: v for k, v in given.items() if k.split('_')[0] in opts}
            if number == 2:
                way = cls.registry.register
            res = way(**given)(cls) if number % 2 else way(cls, **given)
            done = True
        except ValueError:
            done = False
        require(done == ok, lambda: f'registering {name} with {opts}: {"accepted" if done else "refused"}')
        if done:
            require(res is cls, 'register does not return the schema')
            self.added.append(cls)
            self.info[id(cls)] = (f'{name}{number}', SCHEMAS[name][1], SCHEMAS[name][0])

    def one(self, target, element, usual):
        """What becomes of a single value."""
        tags = []
        for item in self.model.items:
            tag, wrapper, targets = self.info[id(item.value)]
            if not any(target is t for t in targets):
                continue
            if tag is None:
                inner = usual
                break
            if wrapper:
                tags.append(tag)
                continue
            inner = [tag] if self.marshaling else [tag, repr(element)]
            break
        for tag in reversed(tags):
            inner = [tag, inner]
        return inner

    def want(self, name):
        one, m = self.one, self.marshaling
        tee = lambda n: {'a': n} if m else f'Tee({n})'
        if name == 'tee':
            return one(Tee, {'a': 1}, self.usual['tee'])
        if name == 'int':
            return one(int, '7', 7)
        if name == 'list':
            return [one(Tee, {'a': 2}, self.usual['list'][0])]
        if name == 'opt':
            return one(Tee, {'a': 3}, self.usual['opt'])
        if name == 'dict':
            return {'k': [one(int, '8', 8)]}
        return {'t': one(Tee, {'a': 4}, self.usual['holder']['t']), 'n': one(int, '9', 9)}

    def check(self, says):
        ours = [s for s in self.base.registry if id(s) in self.info]
        wanted = [x.value for x in self.model.items]
        require(ours == wanted, lambda: f'{says()}: the order of the schemas is {[s.__name__ for s in ours]}, expected {[s.__name__ for s in wanted]}')
        got = {name: self.probe(name) for name in PROBES}
        want = {name: self.want(name) for name in PROBES}
        for name in PROBES:
            # a plain object that is marshaled contains numbers of its own
            if self.marshaling:
                want[name] = self.nested(name)
            require(got[name] == want[name], lambda: f'{says()}: {name} gives {got[name]}, expected {want[name]}')
        return got

    def nested(self, name):
        if name == 'int':
            return self.one(int, None, 7)
        if name == 'dict':
            return {'k': [self.one(int, None, 8)]}
        n = {'tee': 1, 'list': 2, 'opt': 3, 'holder': 4}[name]
        inner = {'a': self.one(int, None, n)} if isinstance(self.usual['tee'], dict) else self.usual['tee']
        t = self.one(Tee, None, inner)
        if name == 'list':
            return [t]
        if name == 'holder':
            return {'t': t, 'n': self.one(int, None, 9)}
        return t


def run_history(ops, marshaling, watch):
    reg = Registry(marshaling)
    seen = []
    for i, (name, option) in enumerate(ops):
        reg.register(name, option, i)
        if watch or i == len(ops) - 1:
            seen.append(reg.check(lambda: f'after {[(n, OPTIONS[o]) for n, o in ops[:i + 1]]}'))
    return repr(seen)


def history(ops, marshaling, watch):
    from mc.core import Violation
    try:
        return 'ok', run_history(ops, marshaling, watch)
    except Violation as err:
        return 'bad', err.message


class C15(Property):
    id = 'C15'
    bounds = (
        'every priority order of 3 values x 3 priorities x every relation between them (4 values with one relation each), each followed by every deletion, '
        f'slice, replacement, repeated and contradictory addition (thorough: by every two); every history of 2 (3 out of fewer; thorough 3) schema registrations out of {len(OPS)}, '
        f'for marshaling and unmarshaling, each checked with {len(PROBES)} types that were or were not in use before'
    )

    def cases(self, tier):
        quick = tier == 'quick'
        three = list(itertools.product((None, 'l', 'h'), repeat=2))
        for prios in itertools.product((-1, 0, 1), repeat=3):
            for rels in itertools.product(three, repeat=3):
                yield 'order', prios, rels, 'tuple', quick
        one = [()] + [(i, k) for i in range(3) for k in 'lhb']
        for prios in itertools.product((0, 1), repeat=4):
            for rels in itertools.product(one, repeat=4):
                if quick and sum(map(bool, rels)) > (2 if prios in ((0, 0, 0, 0), (0, 1, 0, 1), (1, 0, 0, 1)) else 1):
                    continue
                full = tuple(tuple(k if r and r[0] == j else None for j in range(3)) for r in rels for k in [r[1] if r else None])
                yield 'order', prios, full, 'alone', quick
        for f in FORMS:
            for rels in itertools.product(three, repeat=3):
                yield 'order', (0, 1, 0), rels, f, quick
        for marshaling in (False, True):
            for watch in (True, False):
                for op in OPS:
                    yield 'schema', marshaling, watch, (op,)
                for ops in itertools.product(OPS, repeat=2):
                    yield 'schema', marshaling, watch, ops
                small = [(n, o) for n in ('A', 'B', 'W') for o in (0, 1, 3, 4, 5, 7)] if quick else OPS
                if quick and (marshaling or watch):
                    small = [(n, o) for n in ('A', 'B', 'W') for o in (0, 1, 3, 5)]
                for ops in itertools.product(small, repeat=3):
                    if not quick and marshaling and watch and len({n for n, _ in ops}) < 3:
                        continue
                    yield 'schema', marshaling, watch, ops

    def case(self, case, stats):
        stats.distinct()
        stats.traces += 1
        if case[0] == 'schema':
            _, marshaling, watch, ops = case
            status, text = child.run(history, ops, marshaling, watch)
            stats.step(len(ops) * (1 + len(PROBES)))
            stats.outcome(text)
            require(status == 'ok', text)
            return
        _, prios, rels, kind, quick = case
        n = len(prios)
        vals = [Val('abcd'[i]) for i in range(n)]
        plan = []
        for i in range(n):
            others = [v for v in vals if v is not vals[i]]
            plan.append((
                vals[i], prios[i],
                [v for v, k in zip(others, rels[i]) if k in ('l', 'b')],
                [v for v, k in zip(others, rels[i]) if k in ('h', 'b')],
            ))

        def fresh():
            order, model = PriorityOrder(), Model()
            for p in plan:
                self.add(order, model, kind, *p)
            return order, model

        order, model = fresh()
        says = lambda: f'{case}'
        self.same(order, model, says)
        stats.step(n)
        stats.outcome(tuple(map(str, order)))
        names = [str(v) for v in order]
        for a, b in itertools.combinations(range(-1, len(order) + 1), 2):
            part = order[a:b]
            require(isinstance(part, PriorityOrder) and [str(v) for v in part] == names[a:b], lambda: f'{case}: slice {a}:{b}')
        part = order[:]
        if len(part):
            del part[0]
            part.add(Val('x'), priority=9)
            self.same(order, model, lambda: f'{case}: after changing a copy')
        for i in range(-len(order), len(order)):
            order, model = fresh()
            del order[i]
            self.remove(model, [i % len(model.items)])
            self.same(order, model, lambda: f'{case}: after del [{i}]')
            stats.step()
            if len(order) < n:
                # the value can come back
                back = [p for p in plan if not any(p[0] is x.value for x in model.items)][0]
                self.add(order, model, kind, *back)
                self.same(order, model, lambda: f'{case}: after del [{i}] and adding it again')
                stats.step()
        for a, b in itertools.combinations(range(len(names) + 1), 2):
            order, model = fresh()
            del order[a:b]
            self.remove(model, range(a, b))
            self.same(order, model, lambda: f'{case}: after del [{a}:{b}]')
            stats.step()
        for i in range(n):
            for replace in (False, True):
                for same in (False, True):
                    for prio, low, high in ((5, [], [vals[-1]]), (0, [vals[-1]], [vals[0]])) if quick else ((0, [], []), (5, [], []), (-5, [vals[0]], []), (5, [], [vals[-1]]), (0, [vals[0]], [vals[0]]), (0, [vals[-1]], [vals[0]])):
                        order, model = fresh()
                        value = vals[i] if same else Val(str(vals[i]))
                        self.add(order, model, kind, value, prio, low, high, replace)
                        self.same(order, model, lambda: f'{case}: after adding {value} ({"same" if same else "new"}) with {(prio, low, high, replace)}')
                        stats.step()
        order, model = fresh()
        order.reload()
        self.same(order, model, lambda: f'{case}: after reload')

    def add(self, order, model, kind, value, priority, lower, higher, replace=False):
        try:
            model.add(value, priority, lower, higher, replace)
            ok = True
        except Contradiction:
            ok = False
        before = list(order)
        try:
            res = order.add(
                value, priority=priority, lower_priority=form(lower, kind), higher_priority=form(higher, kind), replace=replace)
            done = True
        except ValueError:
            done = False
            require(list(order) == before, lambda: f'adding {value} was refused but changed the order')
        require(done == ok, lambda: f'adding {(str(value), priority, lower, higher, replace)} to {before}: {"accepted" if done else "refused"}')
        if done:
            require(res is value, 'add does not return the value')
            if model.circular:
                self.same(order, model, lambda: 'after an addition')

    def remove(self, model, positions):
        model.items = [x for i, x in enumerate(model.items) if i not in positions]
        arranged = arrange(model.items)
        model.circular = arranged is None
        if arranged is not None:
            model.items = arranged

    def same(self, order, model, says):
        got = list(order)
        require(len(order) == len(model.items), lambda: f'{says()}: {got}')
        if getattr(model, 'circular', False):
            # circles are not reported, but nothing gets lost
            require(sorted(map(id, got)) == sorted(id(x.value) for x in model.items), lambda: f'{says()}: {got}')
            # follow the real order from here on
            model.items.sort(key=lambda x: [v is x.value for v in got].index(True))
            return
        want = [x.value for x in model.items]
        require(len(got) == len(want) and all(a is b for a, b in zip(got, want)), lambda: f'{says()}: gave {got}, expected {want}')
        require(all(v in order and order.index(v) == i for i, v in enumerate(got)), lambda: f'{says()}: index')


PROPERTY = C15()
