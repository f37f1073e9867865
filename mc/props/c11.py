"""C11: the path of an error leads exactly to the offending place."""
import collections.abc
import dataclasses
import datetime
import enum
import itertools
import logging
from typing import DefaultDict, Dict, List, Literal, Set, Tuple, TypeVar, Union

from mc import types_model as tm
from mc.core import Property, require
from mc.types_model import NODEF

import marsh
from marsh import element, errors, path as mpath

KEYS = ('k', 'a.b', 'x y', '"q', "it's", 'b\\', '0', '-1', '*', '[', '\u00e9', '.', '"a"', "'", ' ', '=', '~', '@')
FIELD = 'fld'

# name -> (spec of the container, its element, steps into it); a container
# holds the given thing next to valid siblings on both sides
LEVELS = {
    'list': (lambda t, p: ('list', t), lambda g, x, p: [g, x, g], lambda p: ('1',)),
    'vtuple': (lambda t, p: ('vtuple', t), lambda g, x, p: [x, g], lambda p: ('0',)),
    'seq': (lambda t, p: ('seq', t), lambda g, x, p: (g, g, x), lambda p: ('2',)),
    'tuple': (lambda t, p: ('tuple', t, ('int',), t), lambda g, x, p: [g, 1, x], lambda p: ('2',)),
    'dict': (lambda t, p: ('dict', ('str',), t), lambda g, x, p: {'s': g, p: x, 't': g}, lambda p: (p,)),
    'idict': (lambda t, p: ('dict', ('int',), t), lambda g, x, p: {'1': g, '-2': x}, lambda p: ('-2',)),
    'mapping': (lambda t, p: ('mapping', ('str',), t), lambda g, x, p: {p: x}, lambda p: (p,)),
    'dc': (lambda t, p: ('dc', (('s', t, NODEF), (FIELD, t, NODEF), ('t', t, NODEF))),
           lambda g, x, p: {'t': g, 's': g, FIELD: x}, lambda p: (FIELD,)),
    'dcs': (lambda t, p: ('dc', (('s', t, NODEF), (FIELD, t, NODEF))), lambda g, x, p: [g, x], lambda p: (FIELD,)),
    'dcd': (lambda t, p: ('dc', ((FIELD, t, ('v', 5)),)), lambda g, x, p: {FIELD: x}, lambda p: (FIELD,)),
    'nt': (lambda t, p: ('nt', (('s', t, NODEF), (FIELD, t, NODEF))), lambda g, x, p: {'s': g, FIELD: x}, lambda p: (FIELD,)),
    'td': (lambda t, p: ('td', (('s', t, NODEF), (FIELD, t, ('opt',)))), lambda g, x, p: {'s': g, FIELD: x}, lambda p: (FIELD,)),
    'cls': (lambda t, p: ('cls', (('s', t, NODEF), (FIELD, t, NODEF))), lambda g, x, p: {'s': g, FIELD: x}, lambda p: (FIELD,)),
    'opt': (lambda t, p: ('opt', t), lambda g, x, p: x, lambda p: ()),
    'ann': (lambda t, p: ('ann', t), lambda g, x, p: x, lambda p: ()),
}
# faults at a place whose type is int: value, missing?
LEAF_FAULTS = (('bad', False), ('1.5', False), (None, False), ({}, False), ([1], False), ('???', True))


class Color(enum.Enum):
    RED = 1
    BLUE = 'b'


class OwnList(List[int]):
    pass


class OwnDict(Dict[str, int]):
    pass


@dataclasses.dataclass
class D:
    a: int
    b: int = 2


@dataclasses.dataclass
class Base:
    x: int = 0


@dataclasses.dataclass
class Sub(Base):
    y: List[D] = dataclasses.field(default_factory=list)


T, U = TypeVar('T', bound=int), TypeVar('U', int, List[int])

# other types with faults inside of them: name -> (type, valid element, {element: path})
SPECIAL = {
    'slice': (slice, '1:2', (
        ({'start': 'x'}, 'start'), ({'stop': 1.5, 'step': 1}, 'stop'), ([1, 'x'], '1'), ([1, None, [2]], '2'), ([1, 2, 3, 4], ''), ('1:x', ''), ({'nope': 1}, 'nope'),
    )),
    'logger': (logging.Logger, 'mc.c11', (({'name': 'mc.c11', 'level': 'nope'}, 'level'), ({'level': '5x'}, 'level'), ({'nope': 1}, ''), ([1], ''))),
    'complex': (complex, [1, 2], (([1, [2]], ''), ({'nope': 1}, ''), ('x', ''))),
    'set': (Set[int], [1, 2], ((['1', 'x'], '1'), ([[1]], '0'), ({'a': 1}, ''))),
    'set of tuples': (Set[Tuple[int, str]], [[1, 'q']], (([[1, 'q'], ['x', 'q']], '1.0'), ([[1, 'q'], [2, []]], '1.1'))),
    'defaultdict': (DefaultDict[str, List[int]], {'q': [1]}, (({'q': 5}, 'q'), ({'q': [1], 'r': [1, 'x']}, 'r.1'), ([1], ''))),
    'defaultdict of data': (DefaultDict[int, D], {'1': {'a': 1}}, (({'1': {'a': 'x'}}, '1.a'), ({'1': {'a': 1}, 'x': {'a': 1}}, 'x'), ({'1': {'a': 1, 'c': 2}}, '1'))),
    'keys': (Dict[int, Dict[float, int]], {'1': {'1.5': 1}}, (({'1': {'1.5': 'x'}}, '1."1.5"'), ({'1': {'x': 1}}, '1.x'), ({'x': {}}, 'x'))),
    'keys of enum': (Dict[Color, List[Color]], {'RED': ['BLUE']}, (({'RED': ['RED', 'x']}, 'RED.1'), ({'RED': [], 'x': []}, 'x'))),
    'keys of literal': (Dict[Literal['a', 1], int], {'a': 1}, (({'a': 'x'}, 'a'), ({'a': 1, 'b': 1}, 'b'))),
    'enum': (Color, 'RED', (('x', ''), ([1], ''), ({'RED': 1}, ''))),
    'literal': (Literal['a', 1], 'a', (('x', ''), ([1], ''), (2.5, ''))),
    'bound': (T, 1, (('x', ''), ([1], ''))),
    'constraints': (U, [1], (('x', ''), ([1, 'x'], ''))),
    'own list': (OwnList, [1], (([1, 'x'], '1'), (5, ''))),
    'own dict': (OwnDict, {'q': 1}, (({'q': 'x'}, 'q'), ({'q': 1, 'r.s': []}, '"r.s"'), (5, ''))),
    'union': (Union[int, List[D]], [], (([{'a': 'x'}], ''), ('x', ''))),
    'component': (Base, {'name': 'sub', 'y': [{'a': 1}]}, (
        ({'name': 'sub', 'y': [{'a': 1}, {'a': 'x'}]}, 'y.1.a'), ({'y': [], 'x': 'x', 'name': 'sub'}, 'x'), ({'name': 'nope'}, 'name'), ({'x': 'x'}, 'x'),
        ({'name': 'base', 'y': []}, ''), ({'name': ['sub']}, 'name'), ({'name': 'sub', 'y': [{'a': 1, 'c': 2}]}, 'y.0'),
    )),
    'components': (Dict[str, Base], {'q': {}}, (({'q': {'name': 'sub', 'y': [1]}}, 'q.y.0'), ({'q': {}, 'r': {'name': 'x'}}, 'r.name'))),
    'datetime': (datetime.datetime, 0, (([2020, 1], ''), ({'year': 2020}, ''), ('no date', ''), ([2020, 13, 1], ''))),
    'bytes': (bytes, 'YQ==', (('x', ''), ([1], ''))),
    'bare mapping': (collections.abc.Mapping, {}, ((5, ''), ([1], ''))),
    'bare list': (List, [], ((5, ''), ({}, ''))),
    'empty tuple': (Tuple[()], [], (([1], ''), (5, ''))),
}


def chains(depth, names):
    for n in range(0, depth + 1):
        for w in itertools.product(names, repeat=n):
            if any(a == 'opt' and b in ('opt', 'ann') for a, b in zip(w, w[1:])):
                continue
            yield w


class C11(Property):
    id = 'C11'
    bounds = (
        'every chain of <=3 (thorough <=4) containers out of 15 kinds around an integer, with '
        'valid siblings, one fault at every depth (wrong value, missing, removed, unknown key, '
        f'wrong container) and, for mappings, {len(KEYS)} keys made of special characters; {len(SPECIAL)} other types with faults '
        'in every part of them, alone and inside of every container (thorough: two)'
    )

    def cases(self, tier):
        for name in SPECIAL:
            for w in chains(1 if tier == 'quick' else 2, LEVELS):
                yield w, 'k', name
        for w in chains(3 if tier == 'quick' else 4, LEVELS):
            yield w, 'k'
        maps = ('dict', 'mapping', 'list', 'dc', 'opt')
        for key in KEYS[1:]:
            for w in chains(2 if tier == 'quick' else 3, maps):
                if 'dict' in w or 'mapping' in w:
                    yield w, key

    def case(self, case, stats):
        names, key, special = (*case, None)[:3]
        if special in ('component', 'components'):
            space = marsh.namespaces.new('c11', Base)
            try:
                space.register(Sub, name='sub')
                space.register(Base, name='base')
                self.decide(names, key, special, stats)
            finally:
                del marsh.namespaces['c11']
        else:
            self.decide(names, key, special, stats)

    def decide(self, names, key, special, stats):
        types = tm.Types(opaque={name: v[0] for name, v in SPECIAL.items()})
        # specs[i], goods[i]: type and valid element of what is inside of i containers
        spec, good = (('opaque', special), SPECIAL[special][1]) if special else (('int',), 1)
        specs, goods = [spec], [good]
        for name in reversed(names):
            mk_spec, mk_el, _ = LEVELS[name]
            spec, good = mk_spec(spec, key), mk_el(good, good, key)
            specs.append(spec)
            goods.append(good)
        specs.reverse()
        goods.reverse()
        t = types(spec)
        stats.distinct()
        stats.traces += 1

        def wrap(depth, x):
            """x inside of the outermost ``depth`` containers."""
            for i in range(depth - 1, -1, -1):
                x = LEVELS[names[i]][1](goods[i + 1], x, key)
            return x

        def steps(depth):
            return tuple(s for n in names[:depth] for s in LEVELS[n][2](key))

        n = len(names)
        stats.step()
        marsh.unmarshal(t, goods[0])
        if special:
            for bad, path in SPECIAL[special][2]:
                self.check(t, wrap(n, bad), steps(n) + (tuple(mpath.split(path)) if path else ()), False, None, stats, names)
            return
        faults = [
            (v, steps(n), miss, v)
            for v, miss in LEAF_FAULTS
            if not (opt_leaf(names) and (v is None or miss))
            and not (miss and has_default(names))
        ]
        for v, where, miss, bad in faults:
            self.check(t, wrap(n, v), where, miss, bad, stats, names)
        for depth, name in enumerate(names):
            x = goods[depth]
            if name in ('dc', 'nt', 'cls') and isinstance(x, dict):
                less = {k: v for k, v in x.items() if k != FIELD}
                inner = inner_kind(names, depth + 1)
                if inner is None:
                    self.check(t, wrap(depth, less), steps(depth + 1), True, None, stats, names)
            if name in ('dc', 'dcd', 'nt', 'td', 'cls') and isinstance(x, dict):
                self.check(t, wrap(depth, {**x, 'nope': 1}), steps(depth), False, None, stats, names)
            if name in ('dcs', 'tuple'):
                self.check(t, wrap(depth, list(x) + [1]), steps(depth), False, None, stats, names)
            if name == 'idict':
                self.check(t, wrap(depth, {**x, 'abc': goods[depth + 1]}), steps(depth) + ('abc',), False, None, stats, names)
            if name not in ('opt', 'ann'):
                self.check(t, wrap(depth, 5), steps(depth), False, 5, stats, names)
                if not name.startswith(('dc', 'nt', 'cls', 'td')):
                    other = {} if isinstance(x, (list, tuple)) else []
                    if name == 'tuple':
                        continue
                    self.check(t, wrap(depth, other), steps(depth), False, other, stats, names)

    def check(self, t, el, want, missing, bad, stats, names):
        stats.step()
        where = lambda: f'unmarshal({t!r}, {el!r})'
        for run in (
            lambda: marsh.unmarshal(t, el),
            lambda: marsh.unmarshal_args(self.function(t), {'param': el}),
        ):
            err = None
            try:
                got = run()
            except errors.UnmarshalError as e:
                err = e
                fields = tuple(mpath.iterative_split(err.path)) if err.path else ()
            if err is None:
                require(False, lambda: f'{where()} gave {got!r}, expected an error at {want}')
            require(fields == want, lambda: f'{where()}: the path is {err.path!r} {fields}, expected {want}')
            require(isinstance(err, errors.MissingValueError) == missing, lambda: (
                f'{where()}: expected {"a missing value" if missing else "an unmarshal error"}, got {type(err).__name__}'))
            if err.path:
                require(err.path in str(err), lambda: f'{where()}: the message {str(err)!r} lacks the path {err.path!r}')
            # an item given by position is named by its parameter
            if bad is not None and not missing and 'dcs' not in names:
                root = el if not want or want[0] != 'param' else {'param': el}
                found = element.select(root, err.path) if err.path else root
                require(repr(found) == repr(bad), lambda: (
                    f'{where()}: the path {err.path!r} selects {found!r}, not the offending {bad!r}'))
            stats.outcome(err.path)
            want = ('param',) + want

    def function(self, t):
        def fn(param):
            raise AssertionError('called')
        fn.__annotations__['param'] = t
        return fn


def tail(names):
    """The transparent wrappers directly around the leaf."""
    out = []
    for n in reversed(names):
        if n not in ('opt', 'ann'):
            break
        out.append(n)
    return out


def opt_leaf(names):
    return 'opt' in tail(names)


def has_default(names):
    around = names[:len(names) - len(tail(names))]
    return bool(around) and around[-1] in ('dcd', 'td')


def inner_kind(names, depth):
    """None when a missing value directly below ``depth`` is an error there."""
    for n in names[depth:]:
        if n == 'opt':
            return 'opt'
        if n != 'ann':
            return n
    return None


PROPERTY = C11()
