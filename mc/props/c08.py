"""C08: what is marshaled unmarshals into an equal value."""
import collections
import collections.abc
import dataclasses
import datetime
import enum
import itertools
import json
import logging
import os
import types
import typing
from typing import (
    Any, DefaultDict, Deque, Dict, List, Literal, Mapping, MutableMapping, MutableSequence, NamedTuple, Optional,
    OrderedDict, Sequence, Set, Tuple, TypeVar, Union,
)

from typing_extensions import Annotated, NotRequired, TypedDict

from mc import cli, opaque_ref as ref, types_model as tm
from mc.core import Property, require

import omegaconf

import marsh
import marsh.config


class Color(enum.Enum):
    red = 1
    blue = 'red2'
    green = (1, 2)
    none = None


class Level(enum.IntEnum):
    low = 1
    high = 10


class Word(str, enum.Enum):
    yes = 'on'
    on = 'yes'
    other = 'O T'
    again = 'on'


class Ratio(float, enum.Enum):
    half = 0.5
    one = 1.0


class Bits(enum.IntFlag):
    a = 1
    b = 2


class MyInt(int):
    pass


class MyStr(str):
    def __str__(self):
        return '<' + str.__str__(self) + '>'


class MyFloat(float):
    pass


TV = TypeVar('TV', bound=int)
utc = datetime.timezone.utc
IST = datetime.timezone(datetime.timedelta(hours=5, minutes=30))
NST = datetime.timezone(-datetime.timedelta(hours=3, minutes=30))
DT = [
    datetime.datetime(2020, 1, 2), datetime.datetime(2020, 2, 1, 3, 4, 5), datetime.datetime(1999, 12, 11, 23, 59, 59, 999999),
    datetime.datetime(2021, 3, 4, 5, 6, 7, 8, utc), datetime.datetime(2021, 11, 12, 13, 14, tzinfo=IST), datetime.datetime(1970, 1, 1, tzinfo=NST),
    datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59), datetime.datetime(2012, 10, 11, 0, 0, 0, 1000), datetime.datetime(2020, 2, 29, tzinfo=utc),
]
STRINGS = [
    '', 'x', '1', '1.5', 'true', 'null', 'None', ' lead', 'trail ', 'a.b', '"q"', "it's", '\\', 'a\nb', '\t', '\u00e9', '\U0001f600', '{}', '[1]', '=', '~', '1e3',
    '0x1', 'yes', '2020-01-02', '1:30', '- a', '#c', 'a: b', '!!str', '*', '&a', '\x7f', '\x85', '\u2028', '\ufeff', 'NaN', '.inf', '0o7', '<<', '?',
    '%', '@', '`', '|', '>', "'", '---', '...', '1_000', '+1', '${x', '$',
]
# name -> (type, values)
LEAF = {
    'int': (int, [0, 1, -1, 2 ** 64, -10 ** 30]),
    'float': (float, [0.0, -0.0, 1.0, 1.5, -2.5, 1e300, 5e-324, float('inf'), float('-inf'), float('nan'), 0.1, 1e16, 123456789.123]),
    'str': (str, STRINGS),
    'bool': (bool, [True, False]),
    'none': (type(None), [None]),
    'bytes': (bytes, [b'', b'a', b'ab', b'abc', bytes(range(256)), b'\xff\xfe\xfb', b'>>>???', b'\0', b'abcd', b'abcde']),
    'complex': (complex, [0j, 1j, 1 + 2j, -1.5 - 2.5j, complex(3), complex(1e300, -1e-300), complex(0, -1e-300), complex(float('inf'), 1), complex(-0.0, 2)]),
    'color': (Color, list(Color)),
    'level': (Level, list(Level)),
    'word': (Word, list(Word)),
    'myint': (MyInt, [MyInt(5), MyInt(-1)]),
    'mystr': (MyStr, [MyStr('abc'), MyStr('1')]),
    'myfloat': (MyFloat, [MyFloat(1.5), MyFloat(2.0)]),
    'ratio': (Ratio, list(Ratio)),
    'bits': (Bits, [Bits.a, Bits.a | Bits.b, Bits(0)]),
    'mybytes': (ref.Bytes, [ref.Bytes(b'ab'), ref.Bytes()]),
    'mycomplex': (ref.Complex, [ref.Complex(1, 2), ref.Complex(3)]),
    'mydatetime': (ref.Datetime, [ref.Datetime(2020, 2, 1, 3, 4, 5), ref.Datetime(2020, 2, 1, tzinfo=utc)]),
    'mydate': (ref.Date, [ref.Date(2020, 2, 1), ref.Date(1, 1, 1), ref.Date(9999, 12, 31)]),
    'mytime': (ref.Time, [ref.Time(), ref.Time(13, 14, 15, 16), ref.Time(4, 5, tzinfo=IST)]),
    'slice': (slice, [slice(None), slice(1), slice(1, 2), slice(None, None, -1), slice(-3, None, 2), slice(0), slice(0, 5), slice(5, 0, -1), slice(0, 0, 1), slice(-1, 10 ** 20)]),
    'datetime': (datetime.datetime, DT),
    'time': (datetime.time, [datetime.time(), datetime.time(3, 4), datetime.time(13, 14, 15, 16), datetime.time(1, 2, tzinfo=utc), datetime.time(23, 59, 59), datetime.time(4, 5, tzinfo=IST)]),
    'lit': (Literal['a', 1, True, None, '2'], ['a', 1, None, '2']),
    'any': (Any, [1, 'x', None, True, 1.5]),
    'typevar': (TV, [3, -4]),
    'ann': (Annotated[int, 'text'], [3, -4]),
    'logger': (logging.Logger, [logging.getLogger('mc.one'), logging.getLogger()]),
}
HASHABLE = ('word', 'ratio', 'bits', 'mybytes', 'mycomplex', 'mydatetime', 'mydate', 'mytime', 'int', 'str', 'bool', 'bytes', 'color', 'level', 'float', 'myint', 'datetime', 'time', 'ann', 'lit')
KEYS = ('ratio', 'bits', 'mybytes', 'mydate', 'str', 'int', 'bool', 'float', 'bytes', 'color', 'level', 'word', 'datetime', 'myint', 'time', 'typevar')


@dataclasses.dataclass
class Box:
    first: Any
    second: Any = 'dflt'


def dc(t, extra=None):
    return dataclasses.make_dataclass('DC', [('f', t), ('g', t), ('h', int, 7)])


def nt(t):
    return NamedTuple('NT', [('f', t), ('g', t)])


def td(t):
    return TypedDict('TD', {'f': t, 'g': NotRequired[t]})


def pick(vs, n):
    return [vs[i % len(vs)] for i in range(n)]


# name -> type -> values -> (type, values)
def _list(t, vs):
    return List[t], [[], *([v] for v in vs), list(vs)]


def _blist(t, vs):
    return list[t], [list(vs)]


def _vtuple(t, vs):
    return Tuple[t, ...], [(), *((v,) for v in vs[:4]), tuple(vs)]


def _tuple(t, vs):
    return Tuple[t, int, t], [(v, 5, w) for v, w in zip(vs, reversed(vs))]


def _dict(t, vs):
    return Dict[str, t], [{}, {s: v for s, v in zip(STRINGS * 3, vs)}, {'a.b': vs[0], 'b': vs[-1]}]


def _mapping(t, vs):
    return Mapping[str, t], [types.MappingProxyType({}), types.MappingProxyType({'k': vs[-1], 'a': vs[0]})]


def _mmap(t, vs):
    return MutableMapping[str, t], [{'k': v} for v in vs[:3]]


def _odict(t, vs):
    return OrderedDict[str, t], [collections.OrderedDict([('z', vs[0]), ('a', vs[-1])])]


def _ddict(t, vs):
    return DefaultDict[str, t], [collections.defaultdict(None, {'k': v}) for v in vs[:4]]


def _seq(t, vs):
    return Sequence[t], [(), tuple(vs)]


def _mseq(t, vs):
    return MutableSequence[t], [[], list(vs)]


def _deque(t, vs):
    return Deque[t], [collections.deque(), collections.deque(vs)]


def _set(t, vs):
    return Set[t], [set(), set(vs), set(vs[:1])]


def _opt(t, vs):
    return Optional[t], [None, *vs]


def _union(t, vs):
    return Union[Set[int], t], list(vs)      # the first member refuses them all


def _dc(t, vs):
    cls = dc(t)
    return cls, [cls(v, w) for v, w in zip(vs, reversed(vs))] + [cls(vs[0], vs[-1], h=9)]


def _dcx(t, vs):
    """A dataclass whose fields have options of every kind."""
    @dataclasses.dataclass
    class Base:
        a: t = dataclasses.field(repr=False)
        b: t = dataclasses.field(compare=False)
        count: typing.ClassVar[int] = 3
        c: int = dataclasses.field(default=5, hash=False)

    @dataclasses.dataclass(order=True)
    class DCX(Base):
        c: int = dataclasses.field(default=6, metadata={'x': 1})
        d: t = dataclasses.field(default=vs[0], kw_only=True) if vs[0].__hash__ else dataclasses.field(default_factory=lambda: vs[0], kw_only=True)
        e: Any = dataclasses.field(init=False, default=0)
        _f: int = 1
        g: Optional[t] = dataclasses.field(default=None, kw_only=True, repr=False)

        def __post_init__(self):
            self.e = self.c + 1

    return DCX, [DCX(v, w) for v, w in zip(vs, reversed(vs))] + [DCX(vs[0], vs[-1], 0, d=vs[-1], _f=0), DCX(vs[-1], vs[0], g=vs[0])]


def _dcs(t, vs):
    @dataclasses.dataclass(frozen=True, slots=True, repr=False, eq=False, kw_only=True)
    class DCS:
        a: t
        b: 'int' = 0

    return DCS, [DCS(a=v) for v in vs] + [DCS(a=vs[0], b=-1)]


def _dcm(t, vs):
    """A dataclass that is a mapping, too."""
    @dataclasses.dataclass
    class DCM(collections.OrderedDict):
        a: t
        b: Optional[t] = None

    @dataclasses.dataclass
    class DCA(collections.abc.Mapping):
        a: t
        b: Optional[DCM] = None

        def __getitem__(self, key):
            return {'k': 1}[key]

        def __iter__(self):
            return iter(('k',))

        def __len__(self):
            return 1

    return DCA, [DCA(v, DCM(w)) for v, w in zip(vs, reversed(vs))] + [DCA(vs[0])]


def _dcl(t, vs):
    """A dataclass that is a sequence, too."""
    @dataclasses.dataclass
    class DCL(list):
        a: t
        b: int = 3

    @dataclasses.dataclass
    class DCQ(collections.abc.Sequence):
        a: t
        b: Optional[DCL] = None

        def __getitem__(self, i):
            return (1, 2)[i]

        def __len__(self):
            return 2

    return DCQ, [DCQ(v, DCL(w)) for v, w in zip(vs, reversed(vs))] + [DCQ(vs[0])]


def _subs(t, vs):
    class Group(Set[t]):
        pass
    return Group, [Group(), Group(vs)]


def _subdd(t, vs):
    class Default(DefaultDict[str, t]):
        pass
    return Default, [Default(None, k=vs[0], a=vs[-1])]


def _nt(t, vs):
    cls = nt(t)
    return cls, [cls(v, w) for v, w in zip(vs, reversed(vs))]


def _ntd(t, vs):
    class NTD(NamedTuple):
        a: t
        b: Optional[t] = None
        c: int = 0
    return NTD, [NTD(v) for v in vs] + [NTD(vs[0], vs[-1], -1)]


def _sub(t, vs):
    class Items(List[t]):
        pass
    return Items, [Items(), Items(vs)]


def _subd(t, vs):
    class Table(Dict[str, t]):
        pass
    return Table, [Table(), Table(k=vs[0], a=vs[-1])]


def _td(t, vs):
    cls = td(t)
    # a missing item of an optional type is read as None
    partial = [] if any(v is None for v in vs) else [{'f': v} for v in vs[:3]]
    return cls, partial + [{'f': v, 'g': w} for v, w in zip(vs, reversed(vs))]


def _annd(t, vs):
    return Annotated[t, 'text', 5], list(vs)


WRAPS = {f.__name__[1:]: f for f in (
    _list, _blist, _vtuple, _tuple, _dict, _mapping, _mmap, _odict, _ddict, _seq, _mseq, _deque, _set, _opt, _union, _dc, _dcx, _dcs, _nt, _ntd, _sub, _subd, _subs, _subdd, _dcm, _dcl, _td, _annd)}


def canon(x, ordered=True):
    if not ordered:
        return unordered(canon(x))
    if isinstance(x, float) and x != x:
        return ('float', 'nan')
    if isinstance(x, (Word, Level, Ratio)):
        return (type(x).__name__, x.name)
    if isinstance(x, (MyInt, MyStr, MyFloat)):
        return (type(x).__name__, repr(x))
    if isinstance(x, logging.Logger):
        return ('logger', x.name, x.level)
    if isinstance(x, datetime.datetime):
        return (type(x).__name__, x.isoformat(), str(x.utcoffset()))
    if dataclasses.is_dataclass(x):
        return (type(x).__name__,) + tuple(canon(getattr(x, f.name)) for f in dataclasses.fields(x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted(map(canon, x), key=repr))
    if isinstance(x, collections.abc.Mapping):
        return (type(x).__name__, 'mapping') + tuple((canon(k), canon(x[k])) for k in x)
    if isinstance(x, (list, tuple, collections.deque)):
        return (type(x).__name__,) + tuple(map(canon, x))
    return (type(x).__name__, repr(x))


def unordered(c):
    if not isinstance(c, tuple):
        return c
    c = tuple(map(unordered, c))
    if len(c) > 1 and c[1] == 'mapping':
        return c[:2] + tuple(sorted(c[2:], key=repr))
    return c


def plain(x, where):
    """JSON data only: exactly the builtin types, text keys."""
    if type(x) is dict:
        for k, v in x.items():
            require(type(k) is str, lambda: f'{where()}: the key {k!r} is a {type(k)}')
            plain(v, where)
    elif type(x) in (list, tuple):
        for v in x:
            plain(v, where)
    else:
        require(type(x) in (str, int, float, bool, type(None)), lambda: f'{where()}: {x!r} is a {type(x)}')


LEVELS = (0, 10, 20, 30, 40, 50, 1, 15, 25, 99, -5)
CONTAINERS = {
    'list': lambda v, k: [v],
    'lists': lambda v, k: [1, v, v],
    'dict': lambda v, k: {OMEGA_KEYS[k]: v},
    'dicts': lambda v, k: {'z': 1, OMEGA_KEYS[k]: v, 'a': [v]},
}
OMEGA_KEYS = {'text': 'k', 'empty': '', 'dots': 'a.b', 'int': 1, 'float': 1.5, 'bool': False, 'bytes': b'a', 'enum': Color.red}
OMEGA_VALUES = (1, 'x', '1', 1.5, True, None, b'ab', Color.green, Level.high, '???', {}, [], [b'a', Color.red], {'p': b'a', 2: 3})


class C08(Property):
    id = 'C08'
    bounds = (
        f'{len(LEAF)} value types with all their special values, inside of every chain of <=2 (thorough <=3) '
        f'of {len(WRAPS)} containers, and as {len(KEYS)} kinds of mapping keys; through python objects, '
        'JSON text, YAML files and JSON files; loggers of 6 names and 11 levels, changed in between; '
        'containers of omegaconf of 8 kinds of keys and 14 values in chains of <=2'
    )

    def setup(self, tier):
        self.dir = cli.scratch()

    def cases(self, tier):
        for leaf in LEAF:
            yield leaf, ()
            for w in WRAPS:
                yield leaf, (w,)
            for w in itertools.product(WRAPS, repeat=2):
                yield leaf, w
        for key in KEYS:
            for leaf in ('int', 'str', 'bytes'):
                yield ('key', key, leaf), ()
        for level in LEVELS:
            for name in ('root', 'mc', 'mc.two', 'null', '1', 'a b'):
                for cleared in (True, False):
                    yield ('logger', name, level, cleared), ()
        for n in (1, 2):
            for kinds in itertools.product(CONTAINERS, repeat=n):
                for key in OMEGA_KEYS:
                    for value in range(len(OMEGA_VALUES)):
                        yield ('omegaconf', kinds, key, value), ()
        if tier == 'thorough':
            for leaf in LEAF:
                for w in itertools.product(WRAPS, repeat=3):
                    yield leaf, w

    def make(self, case):
        leaf, wraps = case
        tm.fresh_typing()
        if leaf[0] == 'key':
            kt, ks = LEAF[leaf[1]]
            vt, vs = LEAF[leaf[2]]
            ks = [k for k in ks if k == k and k is not None]
            return Dict[kt, vt], [{}] + [{k: vs[0]} for k in ks] + [dict(zip(ks, vs * 9))]
        t, vs = LEAF[leaf]
        vs = list(vs)
        for i, w in enumerate(wraps):
            if i == 1 and len(vs) > 6:
                vs = vs[:2] + vs[-3:]
            if w in ('set', 'subs') and (i or leaf not in HASHABLE):
                return None
            if w == 'union' and (leaf == 'any' or {'set', 'subs'} & set(wraps[:i]) or 'any' in wraps[:i]):
                return None
            if w == 'union' and any(isinstance(v, (list, tuple, collections.deque)) for v in vs):
                return None
            if w == 'opt' and (leaf in ('none', 'any') or i and wraps[i - 1] == 'opt') and i == 0:
                return None
            t, vs = WRAPS[w](t, vs)
        return t, vs

    def logger(self, name, level, cleared, stats):
        """The level of a logger comes back, whatever it was in between."""
        logger = logging.getLogger(name)
        before = logger.level
        try:
            logging.addLevelName(25, 'NOTICE')
            logger.setLevel(level)
            element = marsh.marshal(logger)
            plain(element, lambda: f'{name}, {level}: {element!r}')
            require(logger.level == level, f'{name}: marshaling changed the level {level} into {logger.level}')
            if cleared and level:
                logger.setLevel(0 if level != 10 else 30)
            for how, el in (('python', element), ('JSON text', json.loads(json.dumps(element)))):
                stats.step()
                got = marsh.unmarshal(logging.Logger, el)
                require(got is logger and got.level == level, lambda: (
                    f'the logger {name} of the level {level} was marshaled into {element!r}, '
                    f'came back through {how} as {got!r} ({got.level})'))
        finally:
            logger.setLevel(before)
        stats.distinct()
        stats.traces += 1

    def omegaconf(self, kinds, key, value, stats):
        """Containers of omegaconf marshal as the builtin ones of the same items."""
        x = OMEGA_VALUES[value]
        for kind in kinds:
            x = CONTAINERS[kind](x, key)
        conf = omegaconf.OmegaConf.create(x)
        before = repr(conf)
        for outer, wrap in (('', lambda v: v), ('list', lambda v: [v]), ('dict', lambda v: {'o': v}), ('box', Box)):
            stats.step()
            got = marsh.marshal(wrap(conf))
            where = lambda: f'{wrap(conf)!r} marshaled into {got!r}'
            plain(got, where)
            want = marsh.marshal(wrap(x))
            require(json.dumps(got) == json.dumps(want), lambda: f'{where()}, the same of builtin containers into {want!r}')
        require(repr(conf) == before, lambda: f'marshaling changed {before} into {conf!r}')
        stats.distinct()
        stats.traces += 1

    def case(self, case, stats):
        if case[0][0] == 'logger':
            return self.logger(*case[0][1:], stats)
        if case[0][0] == 'omegaconf':
            return self.omegaconf(*case[0][1:], stats)
        made = self.make(case)
        if made is None:
            stats.count('meaningless_combinations')
            return
        t, values = made
        stats.distinct()
        stats.traces += 1
        for i, v in enumerate(values):
            stats.step()
            where = lambda: f'{case}: {t!r} {v!r}'
            before = canon(v)
            element = marsh.marshal(v)
            plain(element, lambda: f'{where()} marshaled into {element!r}')
            require(canon(v) == before, lambda: f'{where()}: marshaling modified the value')
            require(canon(marsh.marshal(element)) == canon(element), lambda: (
                f'{where()}: marshaling {element!r} again gives {marsh.marshal(element)!r}'))
            routes = [('python', element)]
            text = json.dumps(element)
            routes.append(('JSON text', json.loads(text)))
            if i in (0, 1, len(values) - 1):
                for ext in ('.json', '.yaml'):   # YAML files are written with sorted keys
                    if ext == '.yaml' and '\\u0085' in text:
                        continue
                    path = os.path.join(self.dir, f'{os.getpid()}{ext}')
                    marsh.config.write(element, path)
                    if not scalar_text(element):
                        routes.append((ext, marsh.config.load(path, resolve=False)))
            for how, el in routes:
                got = marsh.unmarshal(t, el)
                require(canon(got, how != '.yaml') == canon(v, how != '.yaml'), lambda: (
                    f'{where()}: marshaled into {element!r}, came back through {how} as {got!r}'))
            require(canon(marsh.cast(t, v)) == canon(v), lambda: f'{where()}: cast gives {marsh.cast(t, v)!r}')
            stats.outcome(repr(element)[:100])


def scalar_text(el):
    """Configs are never a lone scalar."""
    return not isinstance(el, (dict, list, tuple))


PROPERTY = C08()
