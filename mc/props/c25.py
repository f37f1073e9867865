"""C25: values are independent: nothing given is modified, nothing handed out is shared."""
import collections
import collections.abc
import copy
import dataclasses
import enum
import itertools
import os
from typing import Any, DefaultDict, Deque, Dict, List, Mapping, NamedTuple, Optional, Sequence, Set, Tuple, Union

from typing_extensions import Annotated, NotRequired, TypedDict

from mc import cli, types_model as tm
from mc.core import Property, require
from mc.props import c08

import marsh
import marsh.config
from marsh import errors


def shape(x, seen=()):
    """Everything that can be seen of a value."""
    if any(x is s for s in seen):
        return '...'
    seen = seen + (x,)
    if isinstance(x, enum.Enum):
        return (type(x).__name__, x.name)
    if isinstance(x, (str, int, float, complex, bool, bytes, type(None), type)):
        return (type(x).__name__, repr(x))
    if isinstance(x, collections.abc.Mapping):
        return (type(x).__name__,) + tuple((shape(k, seen), shape(x[k], seen)) for k in x) + ((repr(x.default_factory),) if isinstance(x, collections.defaultdict) else ())
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted((shape(v, seen) for v in x), key=repr))
    if isinstance(x, (list, tuple, collections.deque)):
        return (type(x).__name__,) + tuple(shape(v, seen) for v in x) + ((shape(vars(x), seen),) if getattr(x, '__dict__', None) else ())
    if type(x).__module__.startswith('mc') or dataclasses.is_dataclass(x):
        return (type(x).__name__, shape(getattr(x, '__dict__', None), seen))
    return (type(x).__name__, repr(x))


def wreck(x, seen=None):
    """Changes everything that can be changed."""
    seen = [] if seen is None else seen
    if any(x is s for s in seen) or isinstance(x, (str, int, float, bytes, type(None), type, complex, enum.Enum)):
        return
    seen.append(x)
    if isinstance(x, collections.abc.Mapping):
        for v in list(x.values()):
            wreck(v, seen)
        if isinstance(x, collections.abc.MutableMapping):
            for k in list(x):
                x[k] = '!wrecked'
            try:
                x['!new'] = '!wrecked'
            except Exception:
                pass
        return
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        for v in list(x):
            wreck(v, seen)
        if isinstance(x, set):
            x.add('!wrecked')
        elif isinstance(x, (list, collections.deque)):
            for i in range(len(x)):
                x[i] = '!wrecked'
            x.append('!wrecked')
    fields = getattr(x, '__dict__', None)
    if isinstance(fields, dict) and (type(x).__module__.startswith('mc') or dataclasses.is_dataclass(x)):
        for v in list(fields.values()):
            wreck(v, seen)
        for k in list(fields):
            object.__setattr__(x, k, '!wrecked')
        try:
            object.__setattr__(x, 'new', '!wrecked')
        except Exception:
            pass


# -- types with defaults of their own ------------------------------------------

class Cell:
    def __init__(self, a: int = 1, more: Optional[Dict[str, List[int]]] = None):
        self.a = a
        self.more = more if more is not None else {}


@dataclasses.dataclass
class Fresh:
    a: List[int] = dataclasses.field(default_factory=lambda: [1, 2])
    b: Dict[str, List[int]] = dataclasses.field(default_factory=lambda: {'k': [3]})
    c: Cell = dataclasses.field(default_factory=Cell)
    d: Any = dataclasses.field(default_factory=lambda: [[4]])
    e: Optional[Set[int]] = dataclasses.field(default_factory=set)
    f: Union[int, List[str]] = dataclasses.field(default_factory=list)
    g: Annotated[List[int], 'text'] = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class Implicit:
    """Types that have an empty value of their own."""
    a: List[int]
    b: Dict[str, int]
    c: Set[int]
    d: Deque[int]
    e: DefaultDict[str, List[int]]
    f: list
    g: dict
    h: Fresh
    i: Optional[List[int]]
    j: Tuple[List[int], ...]


@dataclasses.dataclass(frozen=True)
class Frozen:
    x: Fresh = dataclasses.field(default_factory=Fresh)
    y: List[Fresh] = dataclasses.field(default_factory=lambda: [Fresh()])


@dataclasses.dataclass
class Tree:
    kids: List['Tree'] = dataclasses.field(default_factory=list)
    data: Dict[str, Any] = dataclasses.field(default_factory=dict)
    one: Optional['Tree'] = None


class Total(TypedDict):
    a: List[int]
    b: NotRequired[Dict[str, int]]


class Point(NamedTuple):
    a: Fresh
    b: List[int]


class Var:
    def __init__(self, *args: Fresh, **kwargs: List[int]):
        self.args = args
        self.kwargs = kwargs


def function(a: List[int], *b: Fresh, c: Cell, **d: Cell):
    return [a, b, c, d]


class Thing:
    """Chosen by its name."""


SPACE = marsh.namespaces.new('c25', Thing)


@SPACE.register(name='first')
@dataclasses.dataclass
class First(Thing):
    a: List[int] = dataclasses.field(default_factory=lambda: [1])
    b: Dict[str, Any] = dataclasses.field(default_factory=dict)


@SPACE.register(name='second')
class Second(Thing):
    def __init__(self, c: Optional[Dict[str, List[int]]] = None, d: Optional[Thing] = None, **kwargs: List[int]):
        self.c = c
        self.d = d
        for name, value in kwargs.items():
            setattr(self, name, value)


OWN = {
    'thing': (Thing, [{'name': 'first'}, {'name': 'second', 'd': {'name': 'first', 'b': {'k': [1]}}}, {'name': 'second', 'c': {}}], [{'name': 'third', 'a': [1]}, {'name': 'first', 'a': ['x']}, {'name': 'second', 'd': {'name': 'x'}}]),
    'component': (Second, [{'name': 'second', 'x': [1]}, {'c': {'a': []}}], [{'name': 'first'}, {'c': 5}]),
    'things': (List[Optional[Thing]], [[{'name': 'second'}, {'name': 'second'}, None], []], [[{'name': 5}]]),
    'Fresh': (Fresh, [{}, {'a': [5]}, {'c': {'a': 2, 'more': {'x': [1]}}}, [[7]]], ['x', {'a': ['y']}, {'q': 1}, {'b': {'k': 5}}]),
    'Implicit': (Implicit, [{}, {'e': {'k': [1]}, 'h': {'a': [1]}, 'j': [[1], [2]]}], [{'a': 1}, {'j': [['x']]}]),
    'Frozen': (Frozen, [{}, {'y': [{}, {'a': [1]}]}], [{'y': [{'a': 'x'}]}]),
    'Tree': (Tree, [{}, {'kids': [{}, {'kids': [{'data': {'x': [1]}}]}], 'one': {'one': {}}}], [{'kids': [{'kids': [{'kids': 5}]}]}]),
    'Total': (Total, [{'a': [1], 'b': {'k': 1}}, {}], [{'a': 'x'}]),
    'Point': (Point, [[{}, [1]], {'a': {'a': [2]}, 'b': []}], [[{}, 'x']]),
    'Var': (Var, [[{}, {}], {'x': [1], 'y': []}, []], [[{}, 5], {'x': ['y']}]),
    'function': (function, [[[1], {}, {}], {'a': [], 'c': {}, 'x': {}, 'y': {'a': 5}}], [{'a': 'x'}]),
    'list': (List[Fresh], [[{}, {}, {'a': []}], []], [[{}, 1]]),
    'dict': (Dict[str, Cell], [{'a': {}, 'b': {'more': {}}}], [{'a': {'a': 'x'}}]),
    'optional': (Optional[Fresh], [{}, None, {'a': [1]}], ['x']),
    'union': (Union[int, Fresh, List[Cell]], [{}, [{}, {}], 5], ['x']),
    'any': (Any, [[1, [2, {'k': [3]}]], {'a': {}}], ['???']),
    'list any': (list, [[[1], {'k': []}]], [5]),
    'dict any': (dict, [{'k': [1, {'z': []}]}], [5]),
    'annotated': (Annotated[Fresh, 'text', 5], [{}, {'a': [9]}], ['x']),
    'complex': (Dict[str, complex], [{'a': [1, 2]}, {'a': {'real': 1}}], [{'a': 'x'}]),
    'slice': (List[slice], [[[1, 2], {'stop': 4}]], ['x']),
}


def given(x):
    return copy.deepcopy(x)


class History:
    """One client that destroys whatever it can get hold of."""

    def __init__(self, T, elements, bad, how):
        self.T, self.elements, self.bad, self.how = T, elements, bad, how
        self.kept = []
        self.baseline = {}
        self.schema = None if how == 'calls' else marsh.schema.UnmarshalSchema(T)

    def unmarshal(self, element):
        if self.schema is not None:
            return self.schema.unmarshal(element)
        return marsh.unmarshal(self.T, element)

    def check(self, key, value, what):
        seen = shape(value)
        if key in self.baseline:
            require(seen == self.baseline[key], lambda: f'{what}: {seen}, was {self.baseline[key]} before')
        else:
            self.baseline[key] = seen
        self.kept.append(value)

    def op(self, name, trail):
        what = f'{self.T} after {trail}'
        if name[0] == 'u':
            i = int(name[1:])
            if i >= len(self.elements):
                return False
            element = given(self.elements[i])
            before = shape(element)
            value = self.unmarshal(element)
            require(shape(element) == before, lambda: f'{what}: unmarshaling modified {self.elements[i]!r} to {element!r}')
            self.check(name, value, f'{what}: unmarshaling {self.elements[i]!r}')
        elif name[0] == 'f':
            i = int(name[1:])
            if i >= len(self.bad):
                return False
            element = given(self.bad[i])
            before = shape(element)
            try:
                value = self.unmarshal(element)
                require(False, f'{what}: {self.bad[i]!r} is accepted as {value!r}')
            except errors.MarshError as err:
                require(shape(element) == before, lambda: f'{what}: a refused element was modified: {element!r}')
                self.check(name, str(err).split('\n')[0].split(' at 0x')[0], f'{what}: refusing {self.bad[i]!r}')
                if isinstance(err, errors.UnmarshalError) and not marsh.utils.is_missing(err.element):
                    self.kept.append(err.element)
        elif name == 'n':
            # nothing given: the default, or what the type has of its own
            try:
                value = self.unmarshal(marsh.MISSING)
            except errors.MarshError:
                value = 'refused'
            self.check(name, value, f'{what}: unmarshaling nothing')
        elif name == 'm':
            value = self.unmarshal(given(self.elements[0]))
            if callable(value):
                return False
            before = shape(value)
            try:
                out = marsh.marshal(value)
            except errors.MarshError:
                out = 'refused'
            require(shape(value) == before, lambda: f'{what}: marshaling modified the value')
            if out != 'refused':
                self.check(name, out, f'{what}: marshaling')
                if self.how != 'any':
                    self.kept.append(value)
        elif name == 'a':
            # what is marshaled does not change with the value
            value = self.unmarshal(given(self.elements[0]))
            try:
                out = marsh.marshal(value)
            except errors.MarshError:
                return False
            before = shape(out)
            if self.T is not Any:
                wreck(value)
                require(shape(out) == before, lambda: f'{what}: what was marshaled changed with the value to {out!r}')
                value = self.unmarshal(given(self.elements[0]))
                out = marsh.marshal(value)
                before = shape(value)
                wreck(out)
                require(shape(value) == before, lambda: f'{what}: a value changed with what was marshaled, to {value!r}')
        elif name == 'c':
            value = self.unmarshal(given(self.elements[0]))
            before = shape(value)
            try:
                out = marsh.cast(self.T, value)
            except errors.MarshError:
                return False
            require(shape(value) == before, lambda: f'{what}: casting modified the value')
            self.check(name, out, f'{what}: casting')
        elif name == 'd':
            doc = marsh.schema.UnmarshalSchema(self.T).doc(2)
            self.check(name, repr(doc), f'{what}: documentation')
            self.kept.append(doc)
        elif name == 'w':
            kept, self.kept = self.kept, []
            for x in kept:
                wreck(x)
        return True


OPS = ('u0', 'u1', 'n', 'f0', 'm', 'd', 'c', 'w')


# -- texts, files and programs -----------------------------------------------------

TEXTS = ['[1,[2],{a:[3]}]', '{a:{b:[1]},c:[]}', '[]', '{}', "{'x y':[{}]}"]
PARSERS = {
    'element': lambda text: marsh.parse.element(text),
    'apply': lambda text: marsh.parse.override('k=' + text).apply({}),
    'combine': lambda text: marsh.parse.override('k+=' + text).apply({'k': given(marsh.parse.element(text))}),
}


class C25(Property):
    id = 'C25'
    bounds = (
        f'{len(OWN)} types with defaults, factories, empty values and nested mutable parts x every history of up to 4 (3 for one schema; thorough 5 and 4) of {len(OPS)} operations (unmarshal, refuse, default, marshal, document, cast, '
        f'destroy everything handed out so far), by calls and by one schema; every value type of the round trip check inside of every container twice; config texts, files and entry points called again'
    )

    def setup(self, tier):
        self.dir = cli.scratch()

    def cases(self, tier):
        for name in OWN:
            for how in ('calls', 'schema'):
                for first in itertools.product(OPS, repeat=2):
                    yield 'history', name, how, (4 if how == 'calls' else 3) + (tier != 'quick'), first
        for leaf in c08.LEAF:
            if leaf in ('logger',):
                continue
            yield 'twice', (leaf, ())
            for w in c08.WRAPS:
                yield 'twice', (leaf, (w,))
            for w in itertools.product(c08.WRAPS, repeat=2):
                yield 'twice', (leaf, w)
        for parser in PARSERS:
            yield 'texts', parser
        yield 'files',
        for kind in ('function', 'config', 'passed'):
            yield 'programs', kind

    def case(self, case, stats):
        getattr(self, case[0])(*case[1:], stats=stats)

    def history(self, name, how, n, first, stats):
        T, elements, bad = OWN[name]
        for length in range(2, n + 1):
            for ops in (first + rest for rest in itertools.product(OPS, repeat=length - 2)):
                # something has to be destroyed, and then asked for again
                if 'w' not in ops[1:-1] or ops[0] == 'w' or ops[-1] == 'w' or any(a == b == 'w' for a, b in zip(ops, ops[1:])):
                    continue
                self.run(T, elements, bad, how, ops, stats)
        for ops in itertools.product(('a', 'w', 'u0', 'n', 'f1', 'u2'), repeat=3) if first == ('u0', 'u0') else ():
            self.run(T, elements, bad, how, ops, stats)

    def run(self, T, elements, bad, how, ops, stats):
        h = History(T, elements, bad, how)
        trail = []
        for o in ops:
            trail.append(o)
            stats.step()
            h.op(o, trail)
        stats.distinct()
        stats.traces += 1
        stats.outcome(sorted(map(repr, h.baseline.items())))

    def twice(self, made, stats):
        stats.distinct()
        pair = c08.PROPERTY.make(made)
        if pair is None:
            return
        T, values = pair
        for v in values:
            before = shape(v)
            element = marsh.marshal(v)
            e1, e2 = given(element), given(element)
            stats.step(4)
            stats.traces += 1
            a = marsh.unmarshal(T, e1)
            require(shape(e1) == shape(element), lambda: f'{T}: unmarshaling modified {element!r} to {e1!r}')
            b = marsh.unmarshal(T, e2)
            seen = shape(b)
            require(shape(a) == seen, lambda: f'{T}: {element!r} is unmarshaled to {a!r} and then to {b!r}')
            out = marsh.marshal(b)
            wreck(a)
            require(shape(b) == seen, lambda: f'{T}: two values of {element!r} share a part: the other became {b!r}')
            require(shape(marsh.unmarshal(T, given(element))) == seen, lambda: f'{T}: {element!r} is unmarshaled to {marsh.unmarshal(T, given(element))!r} after a value was changed')
            again = marsh.marshal(b)
            wreck(out)
            require(shape(again) == shape(marsh.marshal(b)), lambda: f'{T}: what was marshaled changes with what was marshaled before')
            require(shape(v) == before, lambda: f'{T}: marshaling and changing the result changed the value to {v!r}')

    def texts(self, parser, stats):
        for first, second in itertools.product(TEXTS, repeat=2):
            a1 = PARSERS[parser](first)
            seen = shape(a1)
            b = PARSERS[parser](second)
            seen_b = shape(b)
            wreck(a1)
            stats.step(3)
            stats.traces += 1
            stats.state((parser, first, second))
            require(shape(b) == seen_b, lambda: f'{parser}: {second} changed to {b!r}')
            require(shape(PARSERS[parser](first)) == seen, lambda: f'{parser}: {first} is now {PARSERS[parser](first)!r}')

    def files(self, stats):
        here = os.path.join(self.dir, f'files{os.getpid()}')
        os.makedirs(here, exist_ok=True)
        content = {'a': [1, {'b': [2]}], 'c': {}, 'd': 'text'}
        for ext in ('.json', '.yaml'):
            path = os.path.join(here, 'x' + ext)
            data = given(content)
            marsh.config.write(data, path)
            require(shape(data) == shape(content), f'writing modified {data!r}')
            wreck(data)
            loads = [lambda: marsh.config.load(path), lambda: marsh.config.load(path, path, concatenate=True), lambda: marsh.config.load(path, resolve=False, keep_meta=True)]
            for one, other in itertools.product(loads, repeat=2):
                x = one()
                seen = shape(other())
                wreck(x)
                stats.step(3)
                stats.traces += 1
                stats.state((ext, seen))
                require(shape(other()) == seen, lambda: f'{ext} is now loaded as {other()!r}')

    def programs(self, kind, stats):
        argvs = [[], ['a=[5]'], ['c={a:2}', 'd.x={}'], ['b=[{}]'] if kind == 'config' else ['a=[]']]
        for destroy in itertools.product((False, True), repeat=3):
            for order in itertools.product(range(len(argvs)), repeat=3):
                seen = []

                def body(x):
                    seen.append(shape(x))
                    if destroy[len(seen) - 1]:
                        wreck(x)

                if kind == 'config':
                    @dataclasses.dataclass
                    class Conf:
                        a: List[int] = dataclasses.field(default_factory=list)
                        b: List[Fresh] = dataclasses.field(default_factory=list)
                        c: Cell = dataclasses.field(default_factory=Cell)
                        d: Dict[str, Cell] = dataclasses.field(default_factory=dict)

                    entry = marsh.main(lambda conf: body(vars(conf)), config=Conf)
                else:
                    def run(a: List[int], c: Cell, h: Implicit, **kw: Dict[str, Cell]):
                        body([a, c, h, kw])

                    entry = marsh.main(run)
                passed = ([[8]], {'h': Implicit([], {}, set(), collections.deque(), collections.defaultdict(list), [], {}, Fresh(), None, ())}) if kind == 'passed' else ((), {})
                for n, i in enumerate(order):
                    if kind == 'passed':
                        passed = ([[8]], {})
                    args, kwargs = passed[0], passed[1]
                    before = shape([args, kwargs])
                    stats.step()
                    o = cli.run(entry, argvs[i], tuple(args), dict(kwargs))
                    require(o.error is None and o.exit is None, lambda: f'{kind} {argvs[i]}: {o.brief()}')
                    if not destroy[n]:
                        require(shape([args, kwargs]) == before, lambda: f'{kind} {argvs[i]}: the arguments passed on were modified')
                    first = order.index(i)
                    require(seen[n] == seen[first], lambda: f'{kind} {[argvs[k] for k in order[:n + 1]]} destroying {destroy[:n]}: the program got {seen[n]}, before {seen[first]}')
                stats.traces += 1
                stats.state((kind, destroy, order))


PROPERTY = C25()
