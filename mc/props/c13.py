"""C13: alternatives are tried in the order in which they are written."""
import collections
import dataclasses
import datetime
import enum
import itertools
import typing
from typing import Any, Dict, List, Literal, NamedTuple, Optional, Tuple, TypeVar, Union

from typing_extensions import Annotated, TypedDict

from mc import types_model as tm
from mc.core import Property, require

import marsh
from marsh import errors


@dataclasses.dataclass
class DA:
    a: int
    b: int = 2


@dataclasses.dataclass
class DB:
    a: str
    c: Optional[int] = None


class TD(TypedDict):
    a: bool


class NTu(NamedTuple):
    a: int
    b: str


class Color(enum.Enum):
    red = 1
    blue = 'red2'
    x = 2.5


class Choice:
    def __init__(self, a: float, *rest: int):
        self.a, self.rest = a, rest


MEMBERS = {
    'int': int, 'float': float, 'str': str, 'bool': bool, 'none': type(None), 'bytes': bytes,
    'listint': List[int], 'liststr': List[str], 'tuple2': Tuple[int, str], 'dictint': Dict[str, int],
    'dictbool': Dict[str, bool], 'DA': DA, 'DB': DB, 'TD': TD, 'NT': NTu, 'Color': Color, 'Choice': Choice,
    'lit': Literal['x', 1, True], 'slice': slice, 'any': Any, 'annint': Annotated[int, 'note'],
    'complex': complex, 'optlist': List[Optional[int]],
}
ELEMENTS = (
    0, 1, 2, -1, 1.0, 1.5, 2.5, True, False, None, '', '1', '1.0', '1.5', 'x', 'red', 'blue', 'red2', 'true', 'no', 'YWJj',
    '1:2', '???', 'None', 'null', [], [1], ['1'], ['x'], [1, 'x'], [1, 2], [None], [True], ['???'], {}, {'a': 1}, {'a': '1'},
    {'a': 'x'}, {'a': 1, 'b': 2}, {'a': 1, 'c': 3}, {'a': True}, {'a': None}, {'b': 1}, {'real': 1}, {'a': 1, 'b': 'x'}, {'a': '???'},
    {'start': 1}, {'a': 1, 'd': 4}, [[1]], [1.5, 1, 2], (), (1,), ('x', 1), ((),), {'a': ()},
)
LITERALS = (1, 0, True, False, 'x', '1', '0', 'true', None, 'X', 2, '???x')
# names and values of enum members
ENUM_ITEMS = (('a', 1), ('b', 'a'), ('c', '1'), ('d', 2), ('one', 1.5), ('e', None), ('t', True), ('f', (1, 2)), ('g', 'd'), ('h', False), ('True', 3))
MIXED = {
    'str': (('a', 'b'), ('b', 'a'), ('c', '1'), ('true', 'x'), ('x', 'b')),
    'int': (('one', 1), ('two', 2), ('1', 3), ('a', 0), ('b', 2)),
    'float': (('half', 1.5), ('a', 1.0), ('1', 0.0), ('b', 3.0)),
    'bytes': (('a', b'b'), ('b', b'a')),
    'StrEnum': (('a', 'b'), ('b', 'a'), ('d', 'true')),
    'IntEnum': (('a', 3), ('b', 1), ('True', 0)),
}
ENUM_INPUTS = ('a', 'b', 'c', 'd', 'one', 'e', 'f', 'g', 'h', 1, '1', True, 'true', 1.0, 1.5, '1.5', None, 0, '0', False, (1, 2), [1, 2], '', 'A', 'True', 3, 'True ', {}, '???')


class C13(Property):
    id = 'C13'
    bounds = (
        f'every ordered selection of two and three (thorough: four of a subset) of {len(MEMBERS)} union members, '
        f'against {len(ELEMENTS)} elements; every ordered selection of 3 (4) of {len(LITERALS)} literals; '
        f'every ordered selection of 3 (4) of {len(ENUM_ITEMS)} enum members, aliases included; every ordered selection of members of '
        '6 enums that mix in str, int, float, bytes or are a StrEnum or IntEnum'
    )

    def cases(self, tier):
        for n in (2, 3):
            for w in itertools.permutations(MEMBERS, n):
                yield ('union', w)
        if tier == 'thorough':
            few = ('int', 'str', 'bool', 'none', 'liststr', 'DA', 'DB', 'Color', 'lit', 'any', 'dictint', 'float')
            for w in itertools.permutations(few, 4):
                yield ('union', w)
        for n in range(1, 4 if tier == 'quick' else 5):
            for w in itertools.permutations(range(len(LITERALS)), n):
                yield ('literal', w)
            for w in itertools.permutations(range(len(ENUM_ITEMS)), n):
                yield ('enum', w)
        for mixin, items in MIXED.items():
            for n in range(1, len(items) + 1):
                for w in itertools.permutations(range(len(items)), n):
                    yield ('mixed', (mixin, *w))

    def setup(self, tier):
        # what every member does alone
        self.alone = {}
        for name, t in MEMBERS.items():
            for i, el in enumerate(ELEMENTS):
                self.alone[name, i] = outcome(t, el)

    def case(self, case, stats):
        stats.traces += 1
        getattr(self, case[0])(case[1], stats)

    def union(self, names, stats):
        members = [MEMBERS[n] for n in names]
        tm.fresh_typing()
        forms = [('Union', Union[tuple(members)], lambda v: v, lambda e: e)]
        tm.fresh_typing()
        forms.append(('list[Union]', list[Union[tuple(members)]], lambda v: v[0], lambda e: [e]))
        if len(names) == 2:
            tm.fresh_typing()
            forms.append(('Dict[str, Union]', Dict[str, Union[tuple(members)]], lambda v: v['k'], lambda e: {'k': e}))
            if 'any' not in names:
                tm.fresh_typing()
                try:
                    pipe = members[0] | members[1]
                except TypeError:
                    pass
                else:
                    forms.append(('|', pipe, lambda v: v, lambda e: e))
            cls = dataclasses.make_dataclass('F', [('u', Union[tuple(members)])])
            forms.append(('field', cls, lambda v: v.u, lambda e: {'u': e}))
            tm.fresh_typing()
            forms.append(('TypeVar', TypeVar('T', *members), lambda v: v, lambda e: e))
        for how, t, get, put in forms:
            schema = marsh.schema.UnmarshalSchema(t)
            stats.distinct()
            for i, el in enumerate(ELEMENTS):
                stats.step()
                each = [self.alone[n, i] for n in names]
                want = next((r for r in each if r[0] == 'ok'), None)
                if 'none' in names and len(names) == 2 and is_missing(el):
                    # an optional value: its type first, then None
                    want = next((r for n, r in zip(names, each) if n != 'none' and r[0] == 'ok'), ('ok', tm.canon(None)))
                got = outcome(t, put(el), get, schema)
                if want is None:
                    require(got[0] == 'bad', lambda: f'{how} {names}: {el!r} gave {got}, but no member accepts it')
                    require(is_missing(el) == got[1] or 'none' in names, lambda: (
                        f'{how} {names}: {el!r} was refused as missing={got[1]}'))
                else:
                    require(got == want, lambda: f'{how} {names}: {el!r} gave {got}, the first member that accepts it gives {want}')
                stats.outcome(repr(got))

    def literal(self, w, stats):
        values = [LITERALS[i] for i in w]
        tm.fresh_typing()
        t = Literal[tuple(values)]
        stats.distinct()
        for el in LITERALS + (1.0, 0.0, 'TRUE', 'on', ' x', 'null', [], {}, '', '???', 2.0, '2'):
            stats.step()
            want = None
            for v in values:
                try:
                    got = tm.ref((tm.kind_of(v),), el, None)
                except tm.Bad:
                    continue
                if got == v:
                    want = ('ok', tm.canon(got))
                    break
            got = outcome(t, el)
            if want is None:
                require(got[0] == 'bad', lambda: f'{t}: {el!r} gave {got}, expected a refusal')
            else:
                require(got == want, lambda: f'{t}: {el!r} gave {got}, expected {want}')
            stats.outcome(repr(got))

    def enum(self, w, stats):
        items = [ENUM_ITEMS[i] for i in w]
        self.members(enum.Enum('E', items), items, stats)

    def mixed(self, w, stats):
        mixin, *w = w
        items = [MIXED[mixin][i] for i in w]
        if hasattr(enum, mixin):
            cls = getattr(enum, mixin)('E', items)
        else:
            cls = enum.Enum('E', items, type={'str': str, 'int': int, 'float': float, 'bytes': bytes}[mixin])
        self.members(cls, items, stats)

    def members(self, cls, items, stats):
        spec = ('enum', tuple(items))
        stats.distinct()
        for el in ENUM_INPUTS:
            stats.step()
            try:
                want = ('ok', tm.canon(tm.ref(spec, el, lambda s: cls)))
            except tm.Bad:
                want = ('bad',)
            got = outcome(cls, el)
            require(got[:len(want)] == want, lambda: f'Enum {items}: {el!r} gave {got}, expected {want}')
            stats.outcome(repr(got))
        for member in cls:
            element = marsh.marshal(member)
            require(element == member.name, lambda: f'{member!r} was marshaled into {element!r}')
            require(marsh.unmarshal(cls, element) is member, lambda: f'{member!r} does not come back from {element!r}')


def is_missing(el):
    return isinstance(el, str) and el == '???'


def outcome(t, el, get=lambda v: v, schema=None):
    try:
        if schema is not None:
            return ('ok', tm.canon(get(schema.unmarshal(el))))
        return ('ok', tm.canon(get(marsh.unmarshal(t, el))))
    except errors.UnmarshalError as err:
        return ('bad', isinstance(err, errors.MissingValueError))


PROPERTY = C13()
