"""C27: the helpers for types and values answer by what a type or value is."""
import array
import collections
import collections.abc
import dataclasses
import datetime
import difflib
import enum
import inspect
import itertools
import json
import textwrap
import types
import typing
from typing import (
    Any, Callable, ChainMap, ClassVar, Counter, DefaultDict, Deque, Dict, ForwardRef, FrozenSet, Generic, Iterable, List, Literal, Mapping, MutableMapping,
    MutableSequence, NamedTuple, Optional, OrderedDict, Protocol, Sequence, Set, Tuple, TypeVar, Union,
)

import typing_extensions as te
from typing_extensions import Annotated, TypedDict

from mc.core import Property, require

import omegaconf

import marsh
from marsh import errors, utils

K, V = TypeVar('K'), TypeVar('V')


class Pair(Generic[K, V]):
    pass


class Boxed(Generic[K]):
    pass


class Proto(Protocol):
    def f(self) -> int: ...


class Implements(Proto):
    def f(self) -> int:
        return 1


class NTyped(NamedTuple):
    a: int
    b: List[str] = []


class NTSub(NTyped):
    pass


NTPlain = collections.namedtuple('NTPlain', 'a b')


class TD(TypedDict):
    a: int


class TDPart(TD, total=False):
    b: str


class Color(enum.Enum):
    red = 1


class IntColor(enum.IntEnum):
    red = 1


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyDefault(collections.defaultdict):
    pass


class MyTuple(tuple):
    pass


class Ints(List[int]):
    pass


class MoreInts(Ints):
    pass


class StrInts(Dict[str, int]):
    pass


class MoreStrInts(StrInts):
    pass


class PairedMap(Pair[int, str], Dict[str, float]):
    pass


class BoxedList(Boxed[str], List[int]):
    pass


class MapBoxed(Dict[str, float], Pair[int, str]):
    pass


class Duck:
    """Has everything of a sequence, but no base class."""
    def __init__(self, *v):
        self.v = v

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]

    def __contains__(self, x):
        return any(x is v for v in self.v)


class DuckMap(Duck):
    """Has everything of a mapping."""
    def __init__(self, **d):
        self.v = d

    def __iter__(self):
        return iter(self.v)

    def get(self, key, default=None):
        return self.v.get(key, default)

    def keys(self):
        return self.v.keys()

    def values(self):
        return self.v.values()

    def items(self):
        return self.v.items()


class Truth:
    def __bool__(self):
        raise ValueError('the truth value of an array is ambiguous')


class Array(Duck):
    """Comparing compares the items, like arrays of numbers do."""
    __hash__ = None

    def __eq__(self, other):
        return Truth()

    __ne__ = __lt__ = __gt__ = __eq__


class NoCompare:
    def __init__(self, a=1):
        self.a = a

    def __eq__(self, other):
        raise TypeError('can not be compared')

    __hash__ = None


class Caller:
    def __call__(self):
        return 1


class Plain:
    attribute = 1


@dataclasses.dataclass
class Data:
    a: int = 1


PRED = (
    'is_missing', 'is_sequence', 'is_sequence_type', 'is_empty_tuple_type', 'is_fixed_size_tuple_type', 'is_mapping', 'is_mapping_type', 'is_primitive',
    'is_primitive_type', 'is_namedtuple', 'is_namedtuple_type', 'is_typed_namedtuple', 'is_typed_namedtuple_type', 'is_typeddict_type', 'is_defaultdict_type',
    'is_callable', 'is_obj_instance', 'is_annotated', 'is_protocol', 'is_literal', 'is_literal_string', 'is_typing_alias', 'is_union', 'is_optional',
)
INNER = {
    'int': int, 'any': Any, 'ints': List[int], 'opt': Optional[str], 'map': Dict[str, int], 'ann': Annotated[int, 'note'], 'lit': Literal['x'], 'data': Data,
    'tuple': Tuple[int, str],
}


def T(expr, what='', origin=None, item=None, kv=None, members=None, values=None):
    """An expression and what is true of it."""
    return dict(expr=expr, what=set(what.split()), origin=origin, item=item, kv=kv, members=members, values=values)


def sequences(x):
    for e, o in (
        (List[x], list), (list[x], list), (Deque[x], collections.deque), (collections.deque[x], collections.deque), (Sequence[x], collections.abc.Sequence),
        (collections.abc.Sequence[x], collections.abc.Sequence), (MutableSequence[x], collections.abc.MutableSequence),
    ):
        yield T(e, 'sequence_type typing_alias', o, item=x)
    for e in (Tuple[x, ...], tuple[x, ...]):
        yield T(e, 'sequence_type typing_alias', tuple, item=x)
    for e in (Tuple[x], tuple[x]):
        yield T(e, 'sequence_type typing_alias fixed_size_tuple_type', tuple, item=x)

    class Of(List[x]):
        pass

    class OfOf(Of):
        pass

    class OfBoxed(Boxed[str], List[x]):
        pass

    class OfDeque(Deque[x], Boxed[int]):
        pass

    for e in (Of, OfOf, OfBoxed, OfDeque):
        yield T(e, 'sequence_type callable', e, item=x)


def pairs(x, y):
    for e in (Tuple[x, y], tuple[x, y]):
        yield T(e, 'sequence_type typing_alias fixed_size_tuple_type', tuple)
    for e, o, dd in (
        (Dict[x, y], dict, ''), (dict[x, y], dict, ''), (Mapping[x, y], collections.abc.Mapping, ''), (collections.abc.Mapping[x, y], collections.abc.Mapping, ''),
        (MutableMapping[x, y], collections.abc.MutableMapping, ''), (OrderedDict[x, y], collections.OrderedDict, ''),
        (collections.OrderedDict[x, y], collections.OrderedDict, ''), (ChainMap[x, y], collections.ChainMap, ''),
        (types.MappingProxyType[x, y], types.MappingProxyType, ''), (DefaultDict[x, y], collections.defaultdict, ' defaultdict_type'),
        (collections.defaultdict[x, y], collections.defaultdict, ' defaultdict_type'),
    ):
        yield T(e, 'mapping_type typing_alias' + dd, o, kv=(x, y))

    class Of(Dict[x, y]):
        pass

    class OfOf(Of):
        pass

    class OfPair(Pair[int, str], Dict[x, y]):
        pass

    class OfPairAfter(Dict[x, y], Pair[int, str]):
        pass

    class OfDefault(DefaultDict[x, y]):
        pass

    for e in (Of, OfOf, OfPair, OfPairAfter, OfDefault):
        yield T(e, 'mapping_type callable' + (' defaultdict_type' if e is OfDefault else ''), e, kv=(x, y))
    # unions, however they are written
    if x is Any or y is Any or x == y:
        return
    for e in (Union[x, y], Union[y, x]):
        flat = [a for m in e.__args__ for a in (m,)]
        yield T(e, 'union typing_alias' + (' optional' if type(None) in flat else ''), members=[a for a in flat if a is not type(None)])
    for e in (Optional[Union[x, y]], Union[None, x, y], Union[x, None, y]):
        yield T(e, 'union optional typing_alias', members=[a for a in e.__args__ if a is not type(None)])
    try:
        new = x | y
    except TypeError:
        return
    yield T(new, 'union typing_alias' + (' optional' if type(None) in new.__args__ else ''), members=[a for a in new.__args__ if a is not type(None)])
    yield T(new | None, 'union optional typing_alias', members=[a for a in (new | None).__args__ if a is not type(None)])


def single():
    for e in (list, collections.deque, range, MyList, bytearray, array.array, Duck, Array, collections.UserList, collections.UserString):
        yield T(e, 'sequence_type callable', e)
    for e, o in ((List, list), (Deque, collections.deque), (Sequence, collections.abc.Sequence), (MutableSequence, collections.abc.MutableSequence), (Tuple, tuple)):
        yield T(e, 'sequence_type typing_alias', o)
    for e in (collections.abc.Sequence, collections.abc.MutableSequence, tuple, MyTuple):
        yield T(e, 'sequence_type callable', e)
    for e in (Tuple[()], tuple[()]):
        yield T(e, 'sequence_type typing_alias fixed_size_tuple_type empty_tuple_type', tuple)
    for e in (Tuple[int, str, float], tuple[int, int, int]):
        yield T(e, 'sequence_type typing_alias fixed_size_tuple_type', tuple)
    for e in (dict, collections.OrderedDict, collections.Counter, collections.ChainMap, types.MappingProxyType, MyDict, DuckMap, collections.UserDict,
              collections.abc.Mapping, collections.abc.MutableMapping):
        yield T(e, 'mapping_type callable', e)
    for e, o in ((Dict, dict), (Mapping, collections.abc.Mapping), (MutableMapping, collections.abc.MutableMapping), (OrderedDict, collections.OrderedDict)):
        yield T(e, 'mapping_type typing_alias', o)
    for e in (collections.defaultdict, MyDefault):
        yield T(e, 'mapping_type callable defaultdict_type', e)
    yield T(DefaultDict, 'mapping_type typing_alias defaultdict_type', collections.defaultdict)
    for e in (str, int, float, bool, MyInt, MyStr):
        yield T(e, 'primitive_type callable', e)
    for e in (bytes, complex, set, frozenset, object, type, type(None), Plain, Caller, Data, datetime.datetime, slice, Implements, NoCompare):
        yield T(e, 'callable', e)
    yield T(Proto, 'protocol', Proto)
    yield T(NTyped, 'namedtuple_type typed_namedtuple_type sequence_type callable', NTyped)
    yield T(NTSub, 'namedtuple_type typed_namedtuple_type sequence_type callable', NTSub)
    yield T(NTPlain, 'namedtuple_type sequence_type callable', NTPlain)
    for e in (TD, TDPart):
        yield T(e, 'typeddict_type mapping_type callable', e)
    for e in (Set[int], FrozenSet[int], Iterable[int], Callable[[int], str], Pair[int, str], Boxed[int], set[int], ClassVar[int], typing.Type[int]):
        yield T(e, 'typing_alias')
    for v in ((1,), ('a', 'b'), (1, '1', True), (None,), (Color.red, b'x')):
        for lit in (Literal, te.Literal):
            yield T(lit[v], 'literal typing_alias', values=v)
    for e in (typing.LiteralString, te.LiteralString):
        yield T(e, 'literal_string typing_alias')
    for e in (typing.NoReturn, typing.TypeAlias, te.TypeAlias):
        yield T(e, 'typing_alias')


def values():
    """(value, what is true of it)"""
    for v in ([], [1], (), (1, 'a'), MyList([1]), range(3), collections.deque([1]), bytearray(b'ab'), Duck(1, 2), array.array('i', [1]), MyTuple((1,)),
              collections.UserList([1]), collections.UserString('a'), Array(1, 2), Array(), [marsh.MISSING],
              omegaconf.OmegaConf.create([1]), Ints([3])):
        yield v, 'sequence'
    for v in ({}, {'a': 1}, MyDict(a=1), collections.OrderedDict(a=1), collections.Counter('a'), collections.ChainMap({'a': 1}), types.MappingProxyType({'a': 1}),
              DuckMap(a=1), collections.UserDict(a=1), MyDefault(int), collections.defaultdict(list), omegaconf.OmegaConf.create({'a': 1}), StrInts(a=1)):
        yield v, 'mapping'
    for v in (0, 1, -1, 1.5, True, '', 'a', '?', '????', ' ???', MyInt(1), MyStr('a'), IntColor.red, float('nan'), float('inf'), 10 ** 400):
        yield v, 'primitive'
    yield '???', 'primitive missing'
    yield MyStr('???'), 'primitive missing'
    yield dataclasses.MISSING, 'missing'
    yield marsh.MISSING, 'primitive missing'
    yield NTyped(1), 'sequence namedtuple typed_namedtuple'
    yield NTSub(1), 'sequence namedtuple typed_namedtuple'
    yield NTPlain(1, 2), 'sequence namedtuple'
    for v in (None, b'', b'???', 1j, {1}, set(), frozenset(), object(), Plain(), Data(), Color.red, slice(1), ..., NotImplemented, datetime.date(2020, 1, 1),
              iter(()), (x for x in ()), {}.keys(), {}.values(), {}.items(), NoCompare(), types, re_match(), ForwardRef('int'), K, Implements()):
        yield v, ''
    for v in (len, values, lambda: 1, Caller(), Plain().__init__, str.upper, 'a'.upper, property, 3 .__add__):
        yield v, 'callable' if not isinstance(v, type) else 'callable type'


def re_match():
    import re
    return re.match('a', 'a')


def attempt(f, *args, **kwargs):
    try:
        return 'ok', f(*args, **kwargs)
    except errors.MarshError as err:
        return 'refused', err
    except ValueError as err:
        return 'refused', err


def same(a, b):
    return a is b or a == b and type(a) is type(b)


ALPHABET = '01.-+e _nf'
WORDS = ['true', 'yes', 'on', 'y', 'false', 'no', 'off', 'n', 'null', 'none', 'nan', 'inf', 'x', '', '???', '1_0', '0x1', '1e3', '1.0', '-0', '1e400', '9' * 400]
NUMBERS = [0, 1, -1, 2, True, False, 0.0, -0.0, 1.0, 1.5, -2.5, float('inf'), float('-inf'), float('nan'), 1e300, 10 ** 30, -10 ** 400, 10 ** 400,
           MyInt(3), MyStr('4'), IntColor.red, 2 ** 53 + 1]
TYPES = [int, float, bool, str, MyInt, MyStr]
LITERALS = [0, 1, True, False, '1', 'true', 'yes', 'x', 1.5, 1.0, '1.5', 'null', -1, '']
LETTERS = 'ab'


def casts(value):
    """Every helper for single values against what reading such a value gives."""
    for t in TYPES:
        want = attempt(marsh.unmarshal, t, value) if not utils.is_missing(value) else None
        got = attempt(utils.cast_primitive, t, value)
        if want is not None:
            yield f'cast_primitive({t.__name__}, {value!r})', got, want
        else:
            yield f'cast_primitive({t.__name__}, {value!r})', got, ('ok', t(value)) if issubclass(t, str) else ('refused', None)
    if not utils.is_missing(value):
        yield f'primitive_to_bool({value!r})', attempt(utils.primitive_to_bool, value), attempt(marsh.unmarshal, bool, value)
    if isinstance(value, str):
        word = value.lower()
        bools = {**dict.fromkeys(('1', 'true', 'y', 'yes', 'on'), True), **dict.fromkeys(('0', 'false', 'n', 'no', 'off'), False)}
        yield f'str_to_bool({value!r})', attempt(utils.str_to_bool, value), ('ok', bools[word]) if word in bools else ('refused', None)
        if value != '???':
            yield f'str_to_int({value!r})', attempt(utils.str_to_int, value), attempt(marsh.unmarshal, int, value)
        yield f'cast_none({value!r})', attempt(utils.cast_none, value), ('ok', None) if word in ('null', 'none', '???') else ('refused', None)
    else:
        yield f'cast_none({value!r})', attempt(utils.cast_none, value), ('refused', None)
    if isinstance(value, float):
        yield f'float_to_int({value!r})', attempt(utils.float_to_int, value), attempt(marsh.unmarshal, int, value)


def pick(literals, value):
    """The first of the literals which the value reads as."""
    for lit in literals:
        if isinstance(lit, str) and utils.is_missing(value):
            got = ('ok', str(value))
        elif utils.is_missing(value):
            continue
        else:
            got = attempt(marsh.unmarshal, type(lit), value)
        if got[0] == 'ok' and got[1] == lit:
            return 'ok', lit
    return 'refused', None


class C27(Property):
    id = 'C27'
    bounds = (
        f'{len(PRED)} predicates and 6 helpers that take types apart on every type built from {len(INNER)} types by about 40 ways of writing containers and '
        'unions, bare and annotated; the predicates on 90 values that include arrays, duck types and values that can not be compared; every text of <=4 (5) of '
        f'{len(ALPHABET)} characters and {len(NUMBERS)} numbers through the helpers for single values; every list of <=3 of {len(LITERALS)} literals; '
        'every word of <=3 letters and list of <=2 candidates; every docstring of <=5 parts; every place of a forward reference in nestings of 2'
    )

    def cases(self, tier):
        quick = tier == 'quick'
        yield 'single',
        for x in INNER:
            yield 'sequences', x
            for y in INNER:
                yield 'pairs', x, y
        yield 'values',
        for n in range(4 if quick else 5):
            for head in itertools.product(ALPHABET, repeat=n):
                yield 'texts', ''.join(head)
        for i in range(len(WORDS)):
            yield 'words', i
        for i in range(len(NUMBERS)):
            yield 'number', i
        for n in (0, 1, 2, 3):
            for literals in itertools.product(range(len(LITERALS)), repeat=n):
                yield 'literals', literals
        for n in range(4):
            for word in itertools.product(LETTERS, repeat=n):
                yield 'closest', ''.join(word)
        for parts in itertools.product((False, True), repeat=5):
            yield 'docs', parts
        for n in range(3):
            yield 'bytes', n
        for outer in range(len(NESTINGS)):
            for inner in range(len(NESTINGS)):
                yield 'references', outer, inner
        yield 'dataclasses',
        yield 'duck',

    def case(self, case, stats):
        stats.traces += 1
        getattr(self, case[0])(*case[1:], stats=stats)

    # -- types -------------------------------------------------------------------

    def check_type(self, t, stats):
        stats.distinct()
        for note in ((), ('note',), ({'a': [1]}, 5)):
            x = Annotated[(t['expr'], *note)] if note else t['expr']
            # (typing may take an equal one that it made before)
            e = x.__origin__ if note and utils.is_annotated(x) else t['expr']
            members = t['members'] and [a for a in e.__args__ if a is not type(None)]
            if utils.is_annotated(t['expr']):
                continue
            if not note:
                for name in PRED:
                    stats.step()
                    got = getattr(utils, name)(x)
                    require(got is (name[3:] in t['what']), lambda: f'{name}({x!r}) is {got!r}')
                if t['origin'] is not None:
                    got = utils.get_type(x)
                    require(got is t['origin'], lambda: f'get_type({x!r}) is {got!r}')
                got = attempt(utils.get_annotations, x)
                require(got[0] == 'refused', lambda: f'get_annotations({x!r}) is {got}')
            else:
                got = tuple(utils.get_annotations(x))
                require(utils.is_annotated(x) and got == note and all(a is b for a, b in zip(got, note)), lambda: f'get_annotations({x!r}) is {got}')
                for name in ('is_missing', 'is_sequence', 'is_mapping', 'is_primitive', 'is_namedtuple', 'is_obj_instance', 'is_callable', 'is_protocol'):
                    got = getattr(utils, name)(x)
                    require(got is False, lambda: f'{name}({x!r}) is {got!r}')
            stats.step(6)
            got = utils.is_optional(x)
            require(got is ('optional' in t['what']), lambda: f'is_optional({x!r}) is {got!r}')
            got = attempt(utils.get_optional_type, x)
            if 'optional' in t['what']:
                want = members[0] if len(members) == 1 else Union[tuple(members)]
                require(got == ('ok', want), lambda: f'get_optional_type({x!r}) is {got}, expected {want!r}')
            else:
                require(got[0] == 'refused', lambda: f'get_optional_type({x!r}) is {got}')
            got = utils.inspect_sequence_type(x)
            want = Any if t['item'] is None else t['item']
            require(got == want, lambda: f'inspect_sequence_type({x!r}) is {got!r}, expected {want!r}')
            got = utils.inspect_mapping_type(x)
            want = t['kv'] or (Any, Any)
            require(tuple(got) == want and (got.key, got.value) == want, lambda: f'inspect_mapping_type({x!r}) is {got!r}, expected {want}')
            got = utils.get_type_name(x)
            require(isinstance(got, str) and got == utils.get_type_name(e), lambda: f'get_type_name({x!r}) is {got!r}')
            if isinstance(e, type) and not hasattr(e, '__origin__'):
                require(got == e.__name__, lambda: f'get_type_name({x!r}) is {got!r}')
            elif 'typing_alias' in t['what']:
                require('typing.' not in got and got == str(e).replace('typing.', ''), lambda: f'get_type_name({x!r}) is {got!r}')
            got = utils.has_forward_reference(x)
            require(got is False, lambda: f'has_forward_reference({x!r}) is {got!r}')
            stats.outcome(repr((got, sorted(t['what']))))

    def single(self, stats):
        for t in single():
            self.check_type(t, stats)

    def sequences(self, x, stats):
        for t in sequences(INNER[x]):
            self.check_type(t, stats)

    def pairs(self, x, y, stats):
        for t in pairs(INNER[x], INNER[y]):
            self.check_type(t, stats)

    # -- values ------------------------------------------------------------------

    def values(self, stats):
        for v, what in values():
            what = set(what.split())
            show = lambda: f'{type(v).__name__} {v!r}'[:100]
            stats.distinct()
            if 'type' in what:
                continue
            for name in PRED:
                stats.step()
                want = name == 'is_obj_instance' or name[3:] in what
                got = getattr(utils, name)(v)
                require(got is want, lambda: f'{name}({show()}) is {got!r}')
            require(utils.get_type(v) is type(v), lambda: f'get_type({show()}) is {utils.get_type(v)!r}')
            require(utils.get_type_name(v) == type(v).__name__, lambda: f'get_type_name({show()}) is {utils.get_type_name(v)!r}')
            for t in (int, List[int], Dict[str, int], Optional[int]):
                if what & {'sequence', 'mapping', 'primitive', 'missing'}:
                    break
                if v is None:
                    continue
                got = attempt(marsh.unmarshal, t, v)
                require(got[0] == 'refused', lambda: f'{show()} as {t} is {got}')

    def duck(self, stats):
        """What only looks like a container is treated as such."""
        for v, want in ((Duck(1, 'a'), (1, 'a')), (Array(1, 2), (1, 2)), (DuckMap(a=1, b=[2]), {'a': 1, 'b': (2,)}), (range(2), (0, 1)),
                        (collections.UserList([1, (2,)]), (1, (2,))), (collections.UserDict(a={1: 2}), {'a': {'1': 2}}), (array.array('i', [3]), (3,))):
            for outer, w in ((v, want), ([v], (want,)), ({'k': v}, {'k': want}), (Data(v), {'a': want}), (NTyped(v), {'a': want, 'b': ()}), ((v, v), (want, want))):
                stats.step()
                stats.distinct()
                got = attempt(marsh.marshal, outer)
                require(got == ('ok', w) or got[0] == 'ok' and isinstance(outer, NTyped) and got[1]['a'] == want, lambda: f'{outer!r} is marshaled into {got}')
            if not utils.is_mapping(v):
                got = attempt(marsh.unmarshal, List[Any], v)
                require(got == ('ok', list(v.v if isinstance(v, Duck) else v)), lambda: f'{v!r} as a list is {got}')
            require(attempt(marsh.unmarshal, int, v)[0] == 'refused', lambda: f'{v!r} is read as a number')
        for bad in (Array(1), NoCompare()):
            got = attempt(marsh.unmarshal, Dict[str, Any], {'a': bad})
            require(got[0] == 'ok' and got[1]['a'] is bad, lambda: f'{bad!r} as a value is {got}')

            def function(a: Any = bad, b: int = 2, *, c: Any = bad):
                return a, b, c

            made = marsh.unmarshal_args(function, {'b': '3'})
            out = function(*made.args, **made.kwargs)
            require(out[0] is bad and out[1] == 3 and out[2] is bad, lambda: f'the default {bad!r} is {out}')
            cls = dataclasses.make_dataclass('D', [('a', Any, dataclasses.field(default_factory=lambda: bad)), ('b', int, 2)])
            require(marsh.unmarshal(cls, {}).a is bad and marsh.unmarshal(cls, {'b': 3}).b == 3, lambda: f'the default {bad!r} of a field')
            text = str(marsh.schema.UnmarshalSchema(cls).doc(2))
            require('b' in text, 'no documentation')

    # -- conversions -------------------------------------------------------------

    def compare(self, value, stats):
        for what, got, want in casts(value):
            stats.step()
            require(got[0] == want[0], lambda: f'{what} is {got}, reading it {want}')
            if got[0] == 'ok':
                require(repr(got[1]) == repr(want[1]) and type(got[1]) is type(want[1]), lambda: f'{what} is {got}, reading it {want}')
            stats.outcome(repr(got)[:60])

    def texts(self, head, stats):
        for c in ALPHABET if head else ('', *ALPHABET):
            stats.distinct()
            self.compare(head + c, stats)

    def words(self, i, stats):
        word = WORDS[i]
        variants = itertools.product(*({c, c.upper()} for c in word)) if len(word) < 6 else [word]
        for w in variants:
            for blanks in ('', ' '):
                stats.distinct()
                self.compare(blanks + ''.join(w) + blanks, stats)

    def number(self, i, stats):
        self.compare(NUMBERS[i], stats)
        stats.distinct()
        for bad in (object, list, bytes, Color, complex):
            got = attempt(utils.cast_primitive, bad, NUMBERS[i])
            require(got[0] == 'refused', lambda: f'cast_primitive({bad}, {NUMBERS[i]!r}) is {got}')
        for bad in ([], {}, None, b'1', 1j, (1,)):
            for t in TYPES:
                got = attempt(utils.cast_primitive, t, bad)
                require(got[0] == 'refused', lambda: f'cast_primitive({t}, {bad!r}) is {got}')

    def literals(self, literals, stats):
        literals = [LITERALS[i] for i in literals]
        stats.distinct()
        for value in LITERALS + ['TRUE', '1.0', '-1', 2, 'y', '2', 10 ** 400, float('inf'), '???']:
            stats.step()
            want = pick(literals, value)
            for how, given in (('list', literals), ('tuple', tuple(literals)), ('iterator', iter(literals))):
                got = attempt(utils.match_literal, given, value)
                require(got[0] == want[0] and (want[0] != 'ok' or same(got[1], want[1])), lambda: f'match_literal({how} {literals}, {value!r}) is {got}, expected {want}')
            if len(literals) == 1:
                got = attempt(utils.cast_literal, literals[0], value)
                require(got[0] == want[0] and (want[0] != 'ok' or same(got[1], want[1])), lambda: f'cast_literal({literals[0]!r}, {value!r}) is {got}, expected {want}')

    def bytes(self, n, stats):
        alphabet = range(256) if n < 2 else (0, 1, 62, 63, 64, 127, 128, 250, 251, 252, 253, 254, 255)
        for more in (b'', b'ab', b'\xff\xfe\xfd'):
            for b in itertools.product(alphabet, repeat=n):
                stats.step()
                stats.distinct()
                value = bytes(b) + more
                text = utils.bytes_to_base64(value)
                require(type(text) is str and set(text) <= set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_='), lambda: f'{value} is {text}')
                require(text == marsh.marshal(value), lambda: f'{value} is {text}, marshaled {marsh.marshal(value)}')
                for t in (text, text.rstrip('='), text + '=', text + '=='):
                    got = attempt(utils.base64_to_bytes, t)
                    require(got == ('ok', value) and type(got[1]) is bytes, lambda: f'{t} is {got}, not {value}')

    def closest(self, word, stats):
        words = [''.join(w) for n in range(4) for w in itertools.product(LETTERS, repeat=n)]
        ratio = lambda a, b: difflib.SequenceMatcher(None, b, a).ratio()
        for n in (0, 1, 2):
            for candidates in itertools.product(words, repeat=n):
                stats.step()
                got = utils.get_closest(word, candidates)
                near = [c for c in candidates if ratio(c, word) >= 0.6]
                best = max((ratio(c, word) for c in near), default=None)
                require(got is None and not near or got in near and ratio(got, word) == best, lambda: f'closest to {word!r} in {candidates} is {got!r}')
                if word in candidates:
                    require(got == word, lambda: f'closest to {word!r} in {candidates} is {got!r}')
                require(got == utils.get_closest(word, iter(candidates)), lambda: f'closest to {word!r} in an iterator of {candidates} is another')
                for key in ('key', 'name of it'):
                    text = utils.get_closest_error_message(word, iter(candidates), key) if key != 'key' else utils.get_closest_error_message(word, candidates)
                    want = f'unknown {key} "{word}"' + (f', did you mean "{got}"?' if got else '')
                    require(text == want, lambda: f'{word!r} in {candidates}: {text!r}, expected {want!r}')
        stats.distinct()

    # -- classes -----------------------------------------------------------------

    def docs(self, parts, stats):
        short, long, more, args, returns = parts
        blocks = []
        description = []
        if short:
            blocks.append('A short text.')
        if long:
            blocks.append('A longer text with\nmore of it.')
        if more:
            blocks.append('Another paragraph: of it.')
        description = '\n\n'.join(blocks)
        if args:
            blocks.append('Args:\n    a: The first.\n    b (int): The second\n        of two.')
        if returns:
            blocks.append('Returns:\n    Nothing.')
        doc = '\n\n'.join(blocks)
        flat = lambda s: s.split()
        # (a text which starts with a heading needs a line break before it, the indentation of the first line does not count)
        for style in ('{}', '{}\n', '\n    {}\n    ', '    {}') if description or not doc else ('\n    {}\n    ', '\n    {}'):
            text = style.format(doc if style == '{}' else textwrap.indent(doc, '    ').strip())
            if not doc:
                text = ''
            stats.step()
            stats.distinct()
            got = utils.extract_description(text)
            if description:
                require(flat(got) == flat(description), lambda: f'the description of {text!r} is {got!r}')
            else:
                require(flat(got) == flat(text), lambda: f'the description of {text!r} is {got!r}')
            cls = type('Described', (), {'__doc__': text, '__init__': lambda self, a=1, b=2: None})
            got = utils.get_description(cls)
            require(got is None if not text else flat(got) == flat(description or text), lambda: f'the description of a class with {text!r} is {got!r}')

            def function(a, b):
                pass
            function.__doc__ = text
            got = utils.get_description(function)
            require(got is None if not text else flat(got) == flat(description or text), lambda: f'the description of a function with {text!r} is {got!r}')
            for name, want in (('a', 'The first.'), ('b', 'The second of two.'), ('c', None), ('of', None)):
                sub = type('Sub', (cls,), {})
                overridden = type('Over', (cls,), {'__doc__': 'Over.\n\nArgs:\n    a: Another.\n'})
                for where, w in ((cls, want), (sub, want), (overridden, 'Another.' if name == 'a' else want)):
                    got = utils.get_attribute_description(where, name)
                    w = w if args or w == 'Another.' else None
                    require((got is None) == (w is None) and (w is None or flat(got) == flat(w)), lambda: (
                        f'the attribute {name} of {where.__name__} with {text!r} is described by {got!r}, expected {w!r}'))
        require(utils.extract_description('') == '' and utils.get_description(type('No', (), {})) is None, 'no text')

    def references(self, outer, inner, stats):
        for leaf, has in ((ForwardRef('X'), True), (int, False), (Literal['X'], False), ('X', True), (Annotated[int, 'X'], False)):
            if leaf == 'X' and NESTINGS[inner](int) is list[int]:
                continue
            t = NESTINGS[outer](NESTINGS[inner](leaf))
            stats.step()
            stats.distinct()
            got = utils.has_forward_reference(t)
            require(got is has, lambda: f'has_forward_reference({t!r}) is {got!r}')
        X = Data
        t = NESTINGS[outer](NESTINGS[inner]('Data'))
        want = NESTINGS[outer](NESTINGS[inner](Data))

        def function(a: t, *b: t, c: t = None) -> t:
            pass

        class Cls:
            a: t

        class Sub(Cls):
            b: t

        got = utils.resolve_type_hints(function)
        require(got == {'a': want, 'b': want, 'c': got['c'], 'return': want}, lambda: f'hints of a function with {t!r}: {got}')
        got = utils.resolve_type_hints(Sub)
        require(got == {'a': want, 'b': want}, lambda: f'hints of a class with {t!r}: {got}')
        data = dataclasses.make_dataclass('D', [('a', dataclasses.InitVar[t])], module=__name__)
        got = utils.resolve_type_hints(data)
        a = got['a']
        require((a.type if isinstance(a, dataclasses.InitVar) else a) == want, lambda: f'hints of an init-only field with {t!r}: {got}')

    def dataclasses(self, stats):
        for base in (object, Data):
            for decorated in (False, True):
                namespace = {'__annotations__': {'x': int, 'y': List[int], 'z': str}, 'y': dataclasses.field(default_factory=lambda: [1]), 'z': 'q', 'x': 3,
                             'm': lambda self: self.x}
                cls = type('Made', (base,), dict(namespace))
                if decorated:
                    cls = dataclasses.dataclass(cls)
                for n in range(3):
                    stats.step()
                    got = utils.as_dataclass(cls)
                    require(got is cls and dataclasses.is_dataclass(cls), lambda: f'as_dataclass gave {got}')
                    names = [f.name for f in dataclasses.fields(cls)]
                    require(names == (['a'] if base is Data else []) + ['x', 'y', 'z'], lambda: f'the fields of {cls} are {names}')
                    one, two = cls(), cls(x=5)
                    require(one.y == [1] and one.y is not two.y and (one.x, one.z, two.x, one.m()) == (3, 'q', 5, 3), lambda: f'{one}, {two}')
                    require(one == cls() and one != two and repr(two).endswith("x=5, y=[1], z='q')"), lambda: f'{one}, {two}')
                    got = marsh.unmarshal(cls, {'x': '7'})
                    require((got.x, got.y, got.z) == (7, [1], 'q'), lambda: f'read as {got}')
                sub = type('Sub', (cls,), {'__annotations__': {'w': int}, 'w': 1})
                utils.as_dataclass(sub)
                require([f.name for f in dataclasses.fields(sub)][-4:] == ['x', 'y', 'z', 'w'] and sub().y == [1], 'a subclass')
                stats.distinct()


NESTINGS = [
    lambda x: x, lambda x: List[x], lambda x: Dict[str, x], lambda x: Optional[x], lambda x: Tuple[int, x], lambda x: Union[int, str, x], lambda x: Annotated[x, 'note'],
    lambda x: Callable[[], x], lambda x: Tuple[x, ...], lambda x: Mapping[x, int],
]
PROPERTY = C27()
