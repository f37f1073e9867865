"""C14: what an operation gives does not depend on what was done before."""
import collections
import dataclasses
import datetime
import enum
import gc
import itertools
import types
import typing
from typing import Any, Dict, ForwardRef, Generic, List, Literal, NamedTuple, Optional, Set, Tuple, TypeVar, Union

from typing_extensions import Annotated, TypedDict

from mc import child, types_model as tm
from mc.core import Property, require

import marsh
from marsh import errors


@dataclasses.dataclass
class Node:
    v: int
    kids: List['Node'] = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class Ping:
    pong: Optional['Pong'] = None
    n: int = 0


@dataclasses.dataclass
class Pong:
    ping: Optional[Ping] = None
    s: str = 'p'


class Tree(NamedTuple):
    left: Optional['Tree'] = None
    v: int = 0


class TDRec(TypedDict, total=False):
    v: int
    nxt: 'TDRec'


@dataclasses.dataclass
class Broken:
    a: 'NoSuchType'     # noqa: F821
    b: int = 0


@dataclasses.dataclass
class HoldsBroken:
    ok: int
    bad: Optional[Broken] = None


def build_later():
    @dataclasses.dataclass
    class Later:
        a: 'List[Late]'      # noqa: F821
    return Later


class Plain:
    def __init__(self, a: int, b: 'Optional[Plain]' = None):
        self.a, self.b = a, b

    def __repr__(self):
        return f'Plain({self.a!r}, {self.b!r})'


def fn(a: int, b: bool = True):
    pass


def fn1(a: int, b: int = 1):
    pass


def dc(name='D', **fields):
    items = []
    for k, t in fields.items():
        if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], dict):
            items.append((k, t[0], dataclasses.field(**t[1])))
        else:
            items.append((k, t))
    return dataclasses.make_dataclass(name, items)


class E1(enum.Enum):
    a = 1
    b = 'a'


E2 = enum.Enum('E1', [('b', 1), ('a', 'a')])
TV1 = TypeVar('T', bound=int)
TV2 = TypeVar('T', bound=str)
TV3 = TypeVar('T', int, str)
TV4 = TypeVar('T', str, int)


class Box(Generic[TV1]):
    def __init__(self, x: TV1):
        self.x = x

    def __repr__(self):
        return f'Box({self.x!r})'


class Neg(marsh.annotation.Annotation):
    def __call__(self, value):
        return -value

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Twice(marsh.annotation.Annotation):
    def __call__(self, value):
        return value * 2

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


def show(v):
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return f'{type(v).__qualname__}(' + ', '.join(f'{f.name}={show(getattr(v, f.name))}' for f in dataclasses.fields(v)) + ')'
    if isinstance(v, (list, tuple, collections.deque)):
        return type(v).__name__ + '[' + ', '.join(map(show, v)) + ']'
    if isinstance(v, (set, frozenset)):
        return type(v).__name__ + '{' + ', '.join(sorted(map(show, v))) + '}'
    if isinstance(v, dict):
        return type(v).__name__ + '{' + ', '.join(f'{show(k)}: {show(x)}' for k, x in v.items()) + '}'
    return f'{type(v).__name__}:{v!r}'


def un(make, *elements):
    def op():
        t = make()
        return [attempt(marsh.unmarshal, t, e) for e in elements]
    return op


def attempt(f, *args):
    try:
        return show(f(*args))
    except errors.UnmarshalError as err:
        return f'{type(err).__name__} at {err.path}'
    except errors.MarshError as err:
        return f'{type(err).__name__} at {err.path}'
    except RecursionError:
        return 'RecursionError'
    except Exception as err:
        return f'{type(err).__name__}'


def ma(*values):
    def op():
        return [attempt(marsh.marshal, v() if callable(v) else v) for v in values]
    return op


def doc(make, depth=3):
    def op():
        def shown(d):
            return (d.type, d.default, d.description, d.fields and [(k, f.type, f.description, shown(f.doc)) for k, f in d.fields.items()])
        try:
            return shown(marsh.schema.UnmarshalSchema(make()).doc(depth))
        except errors.MarshError as err:
            return f'{type(err).__name__} at {err.path}'
    return op


def sel(make, *paths):
    def op():
        return [attempt(lambda p=p: str(marsh.schema.UnmarshalSchema(make()).select(p))) for p in paths]
    return op


def args(f, *elements):
    def op():
        return [attempt(lambda e=e: tuple(marsh.unmarshal_args(f, e))) for e in elements]
    return op


def dropped():
    """Types that are gone at once."""
    for t in (int, str, bool):
        cls = dc('Gone', a=t)
        marsh.unmarshal(cls, {'a': 1})
        del cls
    gc.collect()
    return []


def failing():
    out = []
    for t in (Broken, HoldsBroken, List[Broken], Dict[str, HoldsBroken], object(), 5, 'nope', ForwardRef('Nope'), Optional[ForwardRef('NoWhere')]):
        for e in ({'ok': 1, 'bad': {'a': 1}}, marsh.MISSING, {}, [1]):
            out.append(attempt(marsh.unmarshal, t, e))
    return out


@dataclasses.dataclass
class Soon:
    n: List[int]
    b: 'NotYet'         # noqa: F821
    c: Optional['Soon'] = None


def early():
    """Asks for a type too early, while a name is not defined."""
    for t in (Soon, List[Soon], Optional[Soon]):
        attempt(marsh.unmarshal, t, {'n': [1], 'b': {'x': 1}})
        attempt(lambda t=t: marsh.schema.UnmarshalSchema(t).doc(3))
    return []


def in_time():
    """The same when the name is defined."""
    global NotYet
    NotYet = dc('NotYet', x=int)
    try:
        return [
            op() for op in (
                un(lambda: Soon, {'n': ['1'], 'b': {'x': '1'}}, {'n': [1], 'b': {'x': 1}, 'c': {'n': [], 'b': {'x': 'x'}}}),
                un(lambda: List[Soon], [{'n': ['1'], 'b': {'x': '1'}}]), doc(lambda: Soon), doc(lambda: Dict[str, Soon]), sel(lambda: Soon, 'b.x', 'b.y', 'n'),
            )
        ]
    finally:
        del NotYet


def clear():
    marsh.schema.UnmarshalSchema.cache_clear()
    return []


S1 = (1, '1', 'x', True, None, 1.0, [1], ['1'], {'a': 1})
MENU = {
    'int|str': un(lambda: Union[int, str], *S1),
    'str|int': un(lambda: Union[str, int], *S1),
    'list int|str': un(lambda: List[Union[int, str]], ['1'], [1], ['x']),
    'list str|int': un(lambda: List[Union[str, int]], ['1'], [1], ['x']),
    'dict opt': un(lambda: Dict[str, Union[bool, int]], {'a': 1}, {'a': 'on'}),
    'dict opt2': un(lambda: Dict[str, Union[int, bool]], {'a': 1}, {'a': 'on'}),
    'new union': un(lambda: list[int | str], ['1'], ['x']),
    'new union2': un(lambda: list[str | int], ['1'], [1]),
    'lit 1': un(lambda: Literal[1], 1, '1', True),
    'lit True': un(lambda: Literal[True], 1, '1', True, 'yes'),
    'lit 1 True': un(lambda: Literal[1, True], 1, '1', 'yes'),
    'lit True 1': un(lambda: Literal[True, 1], 1, '1', 'yes'),
    'list lit 0': un(lambda: List[Literal[0]], [0], ['no'], [False]),
    'list lit False': un(lambda: List[Literal[False]], [0], ['no'], [False]),
    'default 1': un(lambda: dc(a=(int, {'default': 1}), b=(float, {'default': 1.0}), c=(bool, {'default': True})), {}, {'a': 2}),
    'default True': un(lambda: dc(a=(int, {'default': True}), b=(float, {'default': 1}), c=(bool, {'default': 1})), {}, {'a': 2}),
    'default 0': un(lambda: dc(a=(Any, {'default': 0}), b=(Any, {'default': -0.0})), {}),
    'default -0': un(lambda: dc(a=(Any, {'default': False}), b=(Any, {'default': 0.0})), {}),
    'factory': un(lambda: dc(a=(list, {'default_factory': list}), b=(dict, {'default_factory': lambda: {'k': 1}})), {}, {'a': [1]}),
    'factory2': un(lambda: dc(a=(list, {'default_factory': lambda: [7]}), b=(dict, {'default_factory': dict})), {}, {'a': [1]}),
    'named D': un(lambda: dc(a=int), {'a': '1'}, {}),
    'named D2': un(lambda: dc(a=str), {'a': '1'}, {'b': 1}),
    'list D': un(lambda: List[dc(a=int)], [{'a': '1'}]),
    'list D2': un(lambda: List[dc(a=str)], [{'a': '1'}]),
    'enum': un(lambda: E1, 'a', 1, 'b'),
    'enum same name': un(lambda: E2, 'a', 1, 'b'),
    'opt enums': un(lambda: Tuple[E1, E2], ['a', 'a'], [1, 1]),
    'tv int': un(lambda: TV1, '1', 'x'),
    'tv str': un(lambda: List[TV2], ['1', 'x']),
    'tv int str': un(lambda: TV3, '1', 'x', 1),
    'tv str int': un(lambda: TV4, '1', 'x', 1),
    'list tv': un(lambda: List[TV3], ['1', 'x']),
    'list tv2': un(lambda: List[TV4], ['1', 'x']),
    'generic': un(lambda: Box, {'x': '3'}),
    'ann neg': un(lambda: Annotated[int, Neg()], 3),
    'ann twice': un(lambda: Annotated[int, Twice()], 3),
    'list ann neg': un(lambda: List[Annotated[int, Neg()]], [3]),
    'list ann twice': un(lambda: List[Annotated[int, Twice()]], [3]),
    'node': un(lambda: Node, {'v': 1, 'kids': [{'v': '2', 'kids': [{'v': 3}]}]}, {'v': 'x'}, {'v': 1, 'kids': [{'v': 1, 'kids': [{}]}]}),
    'list node': un(lambda: Dict[str, Node], {'k': {'v': 1, 'kids': [{'v': 2}]}}),
    'ping': un(lambda: Ping, {'pong': {'ping': {'pong': None, 'n': '3'}}}, {'pong': {'ping': {'n': 'x'}}}),
    'pong': un(lambda: Pong, {'ping': {'pong': {'s': 5}}}, {'ping': {'pong': {'ping': 5}}}),
    'tree': un(lambda: Tree, {'left': {'left': {'v': '4'}}}, [[[None, 5], 6], 7]),
    'tdrec': un(lambda: TDRec, {'nxt': {'nxt': {'v': '4'}, 'v': 1}, 'v': 2}, {}),
    'plain': un(lambda: Plain, {'a': '1', 'b': {'a': 2}}, {'a': 1, 'b': {'b': 1}}),
    'broken': failing,
    'dropped': dropped,
    'clear': clear,
    'early': early,
    'in time': in_time,
    'later': un(build_later, {'a': []}),
    'any': un(lambda: Any, *S1),
    'bare': un(lambda: list, ['1', 1]),
    'bare2': un(lambda: Tuple[int, ...], ['1', 1]),
    'sets': un(lambda: Set[int], ['1', 1, True]),
    'times': un(lambda: List[datetime.datetime], ['2020-01-02'], ['x']),
    'args': args(fn, {'a': '1'}, {'a': 1, 'b': 'no'}, [1]),
    'args1': args(fn1, {'a': '1'}, {'a': 1, 'b': '0'}, [1]),
    'marshal': ma(1, True, 1.0, {'a': (1, True)}, lambda: Node(1, [Node(2)]), lambda: Box(3), E1.a, E2.a, lambda: iter([1, 2]), object()),
    'marshal2': ma(lambda: dc(a=int)(5), lambda: dc(a=str)(5), {1: 2, True: 3}, {1.0: 2}, Plain(1)),
    'doc': doc(lambda: dc(a=(int, {'default': 1}), b=(Literal[1, True], {'default': True}))),
    'doc2': doc(lambda: dc(a=(int, {'default': True}), b=(Literal[True, 1], {'default': 1}))),
    'doc node': doc(lambda: Node),
    'doc tree': doc(lambda: Tree),
    'select': sel(lambda: Ping, 'n', 'pong.s', 'nope', 'pong.ping.n', 'pong.ping.pong.x'),
    'select2': sel(lambda: Node, 'kids', 'kids.v', 'kids.kids.kids.v', 'v.x'),
}
SHORT = (
    'int|str', 'str|int', 'list int|str', 'list str|int', 'default 1', 'default True', 'named D', 'named D2', 'node', 'ping', 'pong', 'broken', 'dropped', 'clear', 'early', 'in time',
)
# not among them, see DESIGN.md: the documentation of types that refer to each other; references outside of any annotation


def do(name):
    tm.fresh_typing()
    return repr(MENU[name]())


class C14(Property):
    id = 'C14'
    bounds = (
        f'every history of one and two operations out of {len(MENU)}, of three out of {len(SHORT)} (thorough: of two out of all followed by each, '
        'of four out of a few), each operation compared with the same one in a fresh process'
    )

    def setup(self, tier):
        self.alone = {name: child.run(do, name) for name in MENU}

    def cases(self, tier):
        yield ()
        for a in MENU:
            yield (a,)
        names = SHORT if tier == 'quick' else tuple(MENU)
        for w in itertools.product(names, repeat=2):
            yield w
        if tier == 'thorough':
            for w in itertools.product(SHORT, repeat=3):
                yield w

    def case(self, case, stats):
        last = tuple(MENU) if len(case) < 2 else SHORT

        def history():
            bad = []
            for i, name in enumerate(case):
                got = do(name)
                if got != self.alone[name]:
                    return [(case[:i], name, got)], 0
            for name in last:
                got = child.run(do, name)
                if got != self.alone[name]:
                    bad.append((case, name, got))
            return bad, len(last)

        bad, n = child.run(history)
        stats.traces += n
        stats.step(len(case) + n)
        stats.distinct(n)
        for before, name, got in bad:
            require(False, f'{name} after {before}: gave {got}, alone {self.alone[name]}')
        for name in case:
            stats.outcome(self.alone[name])


PROPERTY = C14()
