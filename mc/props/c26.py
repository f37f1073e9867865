"""C26: a type means the same wherever it stands and however it is asked for."""
import collections
import dataclasses
import datetime
import itertools
import sys
import types
from typing import Any, Deque, Dict, List, Literal, Mapping, NamedTuple, Optional, Sequence, Tuple, TypeVar, Union

import dateparser
from typing_extensions import Annotated, NotRequired, TypedDict

from mc import opaque_ref, types_model as tm
from mc.core import Property, require
from mc.props import c09

import marsh
from marsh import errors

Never = Literal['\0never']


class Base:
    """Of the components."""


SPACE = marsh.namespaces.new('c26', Base)


MODULES = []


def module(text, **names):
    """What text defines as ``made``, as if it were in a module of its own."""
    mod = types.ModuleType(f'mc_c26_made_{len(MODULES)}')
    MODULES.append(mod.__name__)
    mod.__dict__.update(names)
    sys.modules[mod.__name__] = mod
    exec(text, mod.__dict__)
    return mod.made


def made(text):
    return lambda T: module(text, T=T, Any=Any, List=List, Optional=Optional, Union=Union, dataclasses=dataclasses, NamedTuple=NamedTuple, TypedDict=TypedDict, NotRequired=NotRequired, Annotated=Annotated, Dict=Dict)


def component(T):
    cls = module('class made(Base):\n    def __init__(self, x: T):\n        self.x = x\n', T=T, Base=Base)
    SPACE.register(cls, name='one', replace=True)
    return Base


class Place:
    def __init__(self, make, element, out, path=(), ask=None, optional=False, late=False, marshals=False):
        self.make, self.element, self.out, self.path = make, element, out, path
        self.ask = ask              # how, if not as a type
        self.optional = optional    # None is taken in any case
        self.late = late            # no part of another place
        self.marshals = marshals    # lists become tuples on the way


def attribute(v):
    return v.x


def item(v):
    (only,) = v
    return only


PLACES = {
    'list': Place(lambda T: List[T], lambda e: [e], item, ['0']),
    'built-in list': Place(lambda T: list[T], lambda e: (e,), item, ['0']),
    'sequence': Place(lambda T: Sequence[T], lambda e: [e], item, ['0']),
    'deque': Place(lambda T: Deque[T], lambda e: [e], item, ['0']),
    'second': Place(lambda T: Tuple[Any, T], lambda e: [5, e], lambda v: v[1], ['1']),
    'tuple': Place(lambda T: Tuple[T, ...], lambda e: [e], item, ['0']),
    'dict': Place(lambda T: Dict[str, T], lambda e: {'k.': e}, lambda v: v['k.'], ["k."]),
    'mapping': Place(lambda T: Mapping[Any, T], lambda e: {'a': e}, lambda v: v['a'], ['a']),
    'default dict': Place(lambda T: collections.defaultdict[str, T], lambda e: {'a': e}, lambda v: v['a'], ['a']),
    'dataclass': Place(lambda T: dataclasses.make_dataclass('DC', [('x', T)]), lambda e: {'x': e}, attribute, ['x']),
    'by position': Place(lambda T: dataclasses.make_dataclass('DC', [('w', int), ('x', T)]), lambda e: [5, e], attribute, None),
    'keyword only': Place(lambda T: dataclasses.make_dataclass('DC', [('x', T, dataclasses.field(kw_only=True)), ('w', int, 5)]), lambda e: {'x': e}, attribute, ['x']),
    'with default': Place(lambda T: dataclasses.make_dataclass('DC', [('x', T, dataclasses.field(default_factory=object))]), lambda e: {'x': e}, attribute, ['x']),
    'init only': Place(
        lambda T: dataclasses.make_dataclass('DC', [('y', dataclasses.InitVar[T])], namespace={'__post_init__': lambda self, y: setattr(self, 'x', y)}),
        lambda e: {'y': e}, attribute, ['y']),
    'inherited': Place(made('''
@dataclasses.dataclass
class Top:
    x: T
@dataclasses.dataclass
class made(Top):
    y: int = 5
'''), lambda e: {'x': e, 'y': 6}, attribute, ['x']),
    'written': Place(made('''
@dataclasses.dataclass
class made:
    x: 'T'
    y: 'Optional[List[T]]' = None
'''), lambda e: {'x': e}, attribute, ['x']),
    'written deeper': Place(made('''
class made:
    def __init__(self, x: "List['T']"):
        self.x = x
'''), lambda e: {'x': [e]}, lambda v: v.x[0], ['x', '0']),
    'recursive': Place(made('''
class made:
    def __init__(self, x: T = None, below: Optional['made'] = None):
        self.x = x
        self.below = below
'''), lambda e: {'x': e, 'below': {'x': e}}, lambda v: v.below.x, None),
    'named tuple': Place(lambda T: NamedTuple('NT', [('x', T)]), lambda e: [e], attribute, None),
    'typed dict': Place(lambda T: TypedDict('TD', {'x y': T}), lambda e: {'x y': e}, lambda v: v['x y'], ['x y']),
    'optional key': Place(lambda T: TypedDict('TD', {'x': NotRequired[T]}), lambda e: {'x': e}, lambda v: v['x'], ['x']),
    'class': Place(made('class made:\n    def __init__(self, w: int, /, x: T, *, z: int = 5):\n        self.x = x\n'), lambda e: {'w': 1, 'x': e}, attribute, ['x']),
    'all positional': Place(made('class made:\n    def __init__(self, *x: T):\n        self.x, = x\n'), lambda e: [e], attribute, None),
    'all keywords': Place(made('class made:\n    def __init__(self, **x: T):\n        self.x = x["other"]\n'), lambda e: {'other': e}, attribute, None),
    'class method': Place(made('class made:\n    def __new__(cls, x: T):\n        self = object.__new__(cls)\n        self.x = x\n        return self\n'), lambda e: {'x': e}, attribute, ['x']),
    'annotated': Place(lambda T: Annotated[T, 'text', 5], lambda e: e, lambda v: v),
    'optional': Place(lambda T: Optional[T], lambda e: e, lambda v: v, None, optional=True),
    'first of': Place(lambda T: Union[T, Never], lambda e: e, lambda v: v, None),
    'last of': Place(lambda T: Union[Never, T], lambda e: e, lambda v: v, None),
    'pipe': Place(lambda T: T | None if isinstance(T, type) else None, lambda e: e, lambda v: v, None, optional=True),
    'bound': Place(lambda T: TypeVar('B', bound=T) if T is not None else None, lambda e: e, lambda v: v),
    'constraint': Place(lambda T: TypeVar('C', T, Never), lambda e: e, lambda v: v, None),
    'component': Place(component, lambda e: {'name': 'one', 'x': e}, attribute, ['x'], late=True),
    'argument': Place(made('def made(w: int, x: T, y=5):\n    pass\n'), lambda e: {'w': 5, 'x': e}, lambda v: (*v.args, *v.kwargs.values())[1], ['x'], ask=marsh.unmarshal_args, late=True),
    'arguments': Place(made('def made(*x: T):\n    pass\n'), lambda e: [e], lambda v: v.args[0], None, ask=marsh.unmarshal_args, late=True),
    'keyword arguments': Place(made('def made(**x: T):\n    pass\n'), lambda e: {'k': e}, lambda v: v.kwargs['k'], None, ask=marsh.unmarshal_args, late=True),
    'schema': Place(lambda T: T, lambda e: e, lambda v: v, ask=lambda T, e: marsh.schema.UnmarshalSchema(T).unmarshal(e), late=True),
    'cast': Place(lambda T: T, lambda e: e, lambda v: v, ask=marsh.cast, late=True, marshals=True),
    'cast arguments': Place(made('def made(x: T):\n    pass\n'), lambda e: {'x': e}, lambda v: (*v.args, *v.kwargs.values())[0], ['x'], ask=marsh.cast_args, late=True, marshals=True),
    'by keyword': Place(made('class made:\n    def __init__(self, x: T, y: int = 5):\n        self.x = x\n'), lambda e: e, attribute, ['x'], ask=lambda T, e: marsh.unmarshal(T, x=e), late=True, marshals=True),
    'further keyword': Place(made('class made:\n    def __init__(self, x: T, y: int):\n        assert y == 6\n        self.x = x\n'), lambda e: e, attribute, ['x'], ask=lambda T, e: marsh.unmarshal(T, {'x': object, 'y': 6}, x=e), late=True, marshals=True),
    'built': Place(component, lambda e: {'x': e}, attribute, ['x'], ask=lambda T, e: SPACE.build(e, name='one'), late=True),
    'built by position': Place(component, lambda e: e, attribute, None, ask=lambda T, e: SPACE.build(None, e, name='one'), late=True, marshals=True),
    'built by keyword': Place(component, lambda e: e, attribute, ['x'], ask=lambda T, e: SPACE.build({}, name='one', x=e), late=True, marshals=True),
}
DIRECT = ('annotated', 'optional', 'first of', 'last of', 'pipe', 'bound', 'constraint')
LEAVES = [name for name in c09.OPAQUE if name not in ('frozenset', 'object', 'iterable', 'callable', 'exc', 'gmap3 bare')]


def of_today(e):
    """Whether a text means another time on another day."""
    if not isinstance(e, str):
        return False
    days = (datetime.datetime(2020, 3, 4, 5, 6, 7, 8), datetime.datetime(2021, 12, 31, 6, 7, 8, 9))
    return len({dateparser.parse(e, settings={'RELATIVE_BASE': day}) for day in days}) > 1


ELEMENTS = [e for e in c09.ELEMENTS + c09.TEXTS + c09.TEXT_ELEMENTS if opaque_ref.like_json(e) and not (isinstance(e, str) and e == '???') and not of_today(e)]
FEW = [e for e in (1, 'x', '1', 1.5, None, True, '', [], [1], ['x', 2], {}, {'a': 1}, {'a': ['x']}, [{'a': 1}], 'A', 'YWI=', '1:2', '2020-01-02', [1, 2], {'real': 1}, {'x': 1}, ['???'], {'a': '???'})]


def specs(tier):
    yield from c09.LEAF
    yield ('tuple',)
    yield ('dc', ())
    yield from c09.containers(c09.SMALL)
    yield ('union', ('int',), ('str',))
    yield ('union', ('str',), ('int',))
    yield ('union', ('bool',), ('list', ('int',)), ('none',))
    yield ('pipe', ('int',), ('str',), ('none',))
    for name in LEAVES:
        yield ('opaque', name)


class C26(Property):
    id = 'C26'
    bounds = (
        f'every one of {len(list(specs("quick")))} types at each of {len(PLACES)} places and ways to ask for it, with every one of {len(ELEMENTS)} elements; '
        f'{len(LEAVES) + 20} types at every place inside of every other place with {len(FEW)} elements (thorough: all types, and 20 in three places)'
    )

    def cases(self, tier):
        every = list(specs(tier))
        for spec in every:
            yield 'one', spec
        small = [s for s in every if s[0] in ('opaque',) or len(repr(s)) < 24 or s in c09.LEAF]
        inner = [n for n, p in PLACES.items() if not p.late]
        for spec in small if tier == 'quick' else every:
            for outer in PLACES:
                yield 'more', spec, (outer,), 1
        if tier != 'quick':
            for spec in (*c09.LEAF[:6], ('opaque', 'bytes'), ('opaque', 'slice'), ('list', ('int',)), ('opt', ('int',)), ('dc', (('a', ('int',), ()),))):
                for outer, middle in itertools.product(PLACES, inner):
                    yield 'more', spec, (outer, middle), 1

    def case(self, case, stats):
        kind, spec = case[:2]
        types_ = tm.Types(opaque={k: v[0] for k, v in c09.OPAQUE.items()})
        stats.distinct()
        if kind == 'one':
            alone = self.alone(spec, types_, ELEMENTS, stats)
            for place in PLACES:
                self.at(spec, types_, alone, (place,), stats)
            return
        alone = self.alone(spec, types_, FEW, stats)
        for inner in (n for n, p in PLACES.items() if not p.late):
            self.at(spec, types_, alone, (*case[2], inner), stats)

    def alone(self, spec, types_, elements, stats):
        T = types_(spec)
        found = []
        for e in elements:
            stats.step()
            found.append((e, outcome(lambda: marsh.unmarshal(T, e))))
        return found

    def at(self, spec, types_, alone, places, stats):
        T = alone_as = types_(spec)
        inside = list(reversed(places))                         # from the inside
        order = [PLACES[name] for name in inside]
        lists = ('any' in repr(spec) or spec[0] == 'opaque') and any(p.marshals for p in order)
        ask = marsh.unmarshal
        path, optional = [], False
        for place in order:
            tm.fresh_typing()
            T = place.make(T)
            if T is None:
                return
            ask = place.ask or marsh.unmarshal
            path = None if path is None or place.path is None else list(place.path) + path
        for e, expect in alone:
            if lists:
                e = without_lists(e)
                expect = outcome(lambda: marsh.unmarshal(alone_as, e))
            element = e
            for n, place in enumerate(order):
                element = place.element(element)
            if e is None and any(p.optional and all(q in DIRECT for q in inside[:i]) for i, p in enumerate(order)):
                expect = 'ok', tm.canon(None)
            stats.step()
            what = lambda: f'{spec} as {" of ".join(places)}: {element!r}'

            def get():
                v = ask(T, element)
                for place in reversed(order):
                    v = place.out(v)
                return v
            got = outcome(get)
            if expect[0] == 'refused' == got[0] and path is not None and expect[1] is not None:
                require(got[1] == path + expect[1], lambda: f'{what()} is refused at {got[1]}, expected {path + expect[1]}')
            elif expect[0] != 'refused':
                require(got == expect, lambda: f'{what()} gives {got}, alone {expect}')
            else:
                require(got[0] == 'refused', lambda: f'{what()} gives {got}, alone it is refused')
        while MODULES:
            del sys.modules[MODULES.pop()]
        stats.traces += 1
        stats.outcome(repr((spec, [x[0] for x in alone[:1]])))


def without_lists(e):
    """The same with tuples in place of the lists."""
    if isinstance(e, dict):
        return {k: without_lists(v) for k, v in e.items()}
    return tuple(map(without_lists, e)) if isinstance(e, list) else e


def outcome(fn):
    try:
        return 'ok', tm.canon(fn())
    except errors.UnmarshalError as err:
        return 'refused', list(marsh.path.split(err.path)) if err.path else []
    except Exception as err:
        return 'raised', type(err).__name__, str(err)[:80]


PROPERTY = C26()
