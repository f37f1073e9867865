"""C09: unmarshaling is total and sound: the documented value, or an unmarshal error."""
import base64
import collections
import datetime
import itertools
import logging
import numbers
import os
import time
import traceback
from typing import (
    Callable, DefaultDict, Deque, Dict, FrozenSet, Iterable, List, Literal, MutableMapping,
    MutableSequence, Protocol, Set, TypeVar, runtime_checkable,
)

import tzlocal
from typing_extensions import Annotated

from mc import opaque_ref, types_model as tm
from mc.core import Property, require
from mc.types_model import NODEF, Bad

import marsh
from marsh import errors

E1 = ('enum', (('A', 1), ('B', 'x'), ('C', 2.5), ('D', None)))
E2 = ('enum', (('x', 'q'), ('y', True), ('z', (1, 2))))
E3 = ('intenum', (('one', 1), ('two', 2)))
E4 = ('strenum', (('A', 'x'), ('x', 'A'), ('true', '1')))
LEAF = (
    ('int',), ('float',), ('str',), ('bool',), ('none',), ('any',),
    ('lit', 'x', 1), ('lit', 2), ('lit', True, '1', None), E1, E2, E3, E4,
)
SMALL = (('int',), ('str',), ('bool',), ('none',), ('any',))

ATOMS = (
    0, 1, 2, -1, 1.0, 1.5, 2.5, 1e20, True, False, None, '', '1', '0', '1.0', '1.5', 'x', 'q', 'A',
    'true', 'OFF', 'null', '???', ' 2 ', '1e3', 'nan', 'inf', 'one', '1_0', '\u0661', 'yes', 'None',
    10 ** 400, float('inf'), float('nan'), '9' * 400, 10 ** 30,
)
FLAT = (
    [], [1], ['x'], [1, 2], ['1', 'x'], [None], ['???'], [True, 1.5], (1,), (), ('x', 2), [1, 2, 3],
    {}, {'a': 1}, {'a': 'x'}, {'a': None}, {'a': '???'}, {'b': 1}, {'a': 1, 'b': 2}, {'b': 2, 'a': 'x'},
    {'1': 1}, {'1': 'x', '2': 2}, {'a': 1, 'c': 3}, {'a': 1.5}, {'': 1}, {'0': 1, '1': 2},
)
DEEP = (
    [[]], [{}], [[1]], [['x'], [1]], [{'a': 1}], [{'a': 'x'}, {'b': 1}], [[1, 2], 3], [1, [2]], [[1], ['???']],
    {'a': []}, {'a': [1]}, {'a': ['x', 1]}, {'a': {'a': 1}}, {'a': {}}, {'a': {'b': 'x'}}, {'a': {'a': '???'}},
    {'a': [1, 2], 'b': {'a': 1}}, {'b': [1]}, {'1': [1]}, {'a': {'c': 1}}, [[[1]]], [{'a': [1]}], {'a': [{'a': 1}]},
    {'a': [[1]]}, {'a': {'a': {'a': 1}}}, [[], {}], {'a': 1, 'b': [1]}, {'a': [None], 'b': None}, [{'a': 1, 'b': 2}],
    [1, {'a': 2}], [[1, 'x']], {'a': [1, 2]}, {'a': {'a': 1, 'b': 'y'}},
)
ELEMENTS = ATOMS + FLAT + DEEP


def containers(inner):
    """Every way to wrap the given specs once."""
    for t in inner:
        yield ('list', t)
        yield ('vtuple', t)
        yield ('seq', t)
        yield ('blist', t)
        yield ('dict', ('str',), t)
        yield ('mapping', ('str',), t)
        yield ('dict', ('int',), t)
        yield ('tuple', t)
        yield ('ann', t)
        if t[0] not in ('opt', 'none', 'union'):
            yield ('opt', t)
        for k in ('dc', 'nt', 'td', 'cls'):
            yield (k, (('a', t, NODEF),))
        yield ('dc', (('a', t, ('v', 7)),))
        yield ('dc', (('a', t, ('f', '["made"]')), ))
        yield ('td', (('a', t, ('opt',)),))
        yield ('nt', (('a', t, ('v', 'dflt')),))
        yield ('cls', (('a', t, ('v', None)),))


def pairs(inner):
    for t, u in itertools.product(inner, repeat=2):
        yield ('tuple', t, u)
        for k in ('dc', 'nt', 'td', 'cls'):
            yield (k, (('a', t, NODEF), ('b', u, NODEF)))
        yield ('dc', (('a', t, NODEF), ('b', u, ('v', 5))))
        yield ('td', (('a', t, ('opt',)), ('b', u, NODEF)))
        if t != u and 'none' not in (t[0], u[0]) and not {t[0], u[0]} & {'union', 'opt'}:
            yield ('union', t, u)


def specs(tier):
    yield from LEAF
    yield ('tuple',)
    yield ('dc', ())
    one = list(containers(LEAF))
    for t in LEAF:
        one.append(('dict', t, ('int',)))
        if t[0] not in ('any',):
            one.append(('set', t))
    yield from one
    yield from pairs(LEAF)
    for ts in itertools.permutations(SMALL, 3):
        yield ('union', *ts)
        yield ('tuple', *ts)
        if not (ts[0] == ('none',) or 'any' in (ts[0][0], ts[1][0], ts[2][0])):
            yield ('pipe', *ts)
    for t in (('int',), ('str',), ('bool',), ('list', ('int',)), ('blist', ('str',)), ('dc', (('a', ('int',), NODEF),))):
        yield ('pipe', t, ('none',))
        yield ('blist', ('pipe', t, ('none',)))
        yield ('dc', (('a', ('pipe', t, ('none',)), ('v', 5)),))
    small_one = list(containers(SMALL))
    yield from containers(small_one)
    reduced = [t for t in containers((('int',), ('str',)))]
    yield from pairs(reduced if tier == 'thorough' else reduced[::2])
    yield from pairs(reduced[:6] + [('int',), ('any',)])
    if tier == 'thorough':
        yield from containers(containers(containers((('int',), ('none',)))))


T1, T2 = TypeVar('T1', bound=int), TypeVar('T2', int, str)


class Own(str):
    pass


class OwnInt(int):
    pass


class OwnList(List[int]):
    pass


class OwnMap(collections.UserDict):
    pass


class MadeOf(collections.deque):
    def __init__(self, items, needed):
        raise AssertionError


class Refuses(marsh.annotation.Annotation):
    def __call__(self, value):
        raise KeyError('user code')


class PreRefuses(marsh.annotation.PreAnnotation):
    def __call__(self, element):
        raise OSError('user code')


@runtime_checkable
class Number(Protocol):
    def __int__(self) -> int:
        ...


# types outside of the reference: the result is of the given class, or refused
OPAQUE = {
    'bytes': (bytes, bytes), 'complex': (complex, complex), 'number': (numbers.Complex, complex),
    'slice': (slice, slice), 'datetime': (datetime.datetime, datetime.datetime),
    'date': (datetime.date, datetime.date), 'time': (datetime.time, datetime.time),
    'deque': (Deque[int], collections.deque), 'mmap': (MutableMapping[str, int], dict),
    'mseq': (MutableSequence[int], list), 'odict': (collections.OrderedDict, collections.OrderedDict),
    'ddict': (DefaultDict[str, int], collections.defaultdict),
    'ddict2': (DefaultDict[str, List[int]], collections.defaultdict),
    'barray': (bytearray, bytearray), 'range': (range, range), 'typevar': (T1, int),
    'typevar2': (T2, (int, str)), 'protocol': (Number, object), 'own': (Own, Own), 'ownint': (OwnInt, OwnInt),
    'ownlist': (OwnList, OwnList), 'ownmap': (OwnMap, OwnMap), 'madeof': (MadeOf, MadeOf),
    'refuses': (Annotated[int, Refuses], ()), 'prerefuses': (Annotated[int, PreRefuses], ()),
    'set': (set, set), 'setdt': (Set[List[int]], set), 'dictkey': (Dict[bytes, int], dict),
    'enumkey': (Dict[Own, bool], dict), 'litset': (Set[Literal[1, 'x']], set),
    'logger': (logging.Logger, logging.Logger), 'frozenset': (FrozenSet[int], ()),
    'object': (object, object), 'iterable': (Iterable[int], ()), 'callable': (Callable[[int], int], ()),
    'typedict': (Dict[str, slice], dict), 'exc': (KeyError, KeyError),
    # subclasses: the result is one of them
    **{f'sub {cls.__name__}': (cls, cls) for cls in opaque_ref.SUBCLASSES},
    'gmap': (opaque_ref.GenericMap, opaque_ref.GenericMap), 'gmap int': (opaque_ref.GenericMap[int], opaque_ref.GenericMap), 'gmap2': (opaque_ref.GenericMap2, opaque_ref.GenericMap2),
    'gmap3': (opaque_ref.GenericMap3[str, int], opaque_ref.GenericMap3), 'gmap3 bare': (opaque_ref.GenericMap3, ()), 'glist': (opaque_ref.GenericList, opaque_ref.GenericList),
    'glist2': (opaque_ref.GenericList2, opaque_ref.GenericList2), 'glist2 int': (opaque_ref.GenericList2[int], opaque_ref.GenericList2),
}
TEXTS = (
    '1:2', ' : 1', '- 1:', '::', ':::', '1:2:3:4', '1 : 2', '-1', ':', '::0', '\u0661:', '1:\n2', '2020-01-02', '2020-13-02',
    '12:30', '99:99', '2020-01-02T03:04:05+05:30', '1e99', '-1e99', '1e11', 'yesterday', '12/12/12', 'YWJj', 'YWJ', 'Y',
    '01/02/2020', '1.2.2020', '12-11-2013', '28/12/1999', '2020-12-01 10:20', '10:20:30.5', '1577836800.5', '-86400', 'YWI=', 'YWI', '+/+/', '-_-_', 'a+_A', '1:2:', ':-1:', '-0:',
    '\u20ac', '=', '====', '-_', '1+2j', '1j', 'nan', 'WARNING', '\ud800', '\x00', ' ', '0x10', '1_000', '--1',
)
TEXT_ELEMENTS = (
    {'real': '1.5', 'imag': '-2'}, [1.5], ['1', 2], [1, 2, 3.5], [True], {'start': '1', 'stop': None}, {'start': None}, {'stop': 0}, [0], [0, 0], [None, 0, '2'],
    {'year': 2020, 'month': 1, 'day': 2, 'hour': 5}, [2020, 1, 2, 3, 4, 5, 6], {'hour': 1, 'minute': 2},
    {'real': 1}, {'real': 'x'}, {'real': 1, 'imag': '2'}, {'imag': 1.5}, {'start': 1}, {'start': 'x'}, {'stop': None, 'step': 2},
    {'nope': 1}, {'year': 2020, 'month': 1, 'day': 2}, {'year': 'x'}, {'year': 2020, 'month': 1, 'day': 99}, [2020, 1, 2],
    [2020, 1], [3, 4], [25, 4], {'hour': 3}, {'name': 'mc.test'}, {'name': 'mc.test', 'level': 'INFO'}, {'name': 'mc.test', 'level': 5},
    {'name': 'mc.test', 'level': 'nope'}, {'name': 'mc.test', 'level': [1]}, {1: 2}, {None: 1}, {(1, 2): 3}, {1.5: 'x'}, [300], [-1], ['300'],
    [2020, 1, 10 ** 30], {'year': 10 ** 30, 'month': 1, 'day': 1}, {'hour': -10 ** 30}, [10 ** 400, 1], {'real': 10 ** 400}, {'start': 10 ** 400}, {'name': 'mc.test', 'level': 10 ** 30},
    10 ** 400, -10 ** 19, 1e308, [[10 ** 400]], '9' * 400, '9' * 5000, [float('nan')], {'a': float('inf')},
    [1, 2, 3, 4], [None, 'x'], b'bytes', {1, 2}, object, slice(1), 1j, range(3), bytearray(b'x'), Ellipsis,
)


# also ones the parser of dates does not know
ZONES = ('UTC', 'Asia/Tokyo', 'America/New_York', 'JST-9')


class C09(Property):
    id = 'C09'
    bounds = (
        'every type of nesting depth <=3 (thorough <=4) built from 13 leaf types by '
        '17 container/structure constructors and by pairs, against every one of '
        f'{len(ELEMENTS)} elements; types outside of the model against texts written for them; every text of <=4 base64 '
        'characters as bytes; texts and numbers read as dates in 4 time zones'
    )
    assumptions = (
        'the reference unmarshaler mc/types_model.py follows the documented rules',
    )

    def cases(self, tier):
        seen = set()
        for spec in specs(tier):
            if repr(spec) not in seen:
                seen.add(repr(spec))
                yield spec
        for name in OPAQUE:
            for wrap in ('{}', "('list', {})", "('opt', {})", "('dict', ('str',), {})",
                         "('dc', (('a', {}, ()),))", "('union', {}, ('str',))"):
                yield ('opaque', name, wrap)
        for zone, name in itertools.product(ZONES, ('datetime', 'date', 'time', 'sub Datetime', 'sub Date', 'sub Time')):
            yield ('zone', zone, name)
        yield ('odd',)
        for first in range(-1, 256, 4 if tier == 'quick' else 1):
            yield ('base64', first)

    def opaque(self, case, stats):
        """Types without a reference, and elements that are no JSON."""
        if case[0] == 'odd':
            todo = [(spec, None, e) for spec in LEAF + tuple(containers(SMALL)) for e in TEXT_ELEMENTS]
        else:
            _, name, wrap = case
            todo = [
                (eval(wrap.format(('opaque', name))), OPAQUE[name][1], e)
                for e in ELEMENTS + TEXTS + TEXT_ELEMENTS
            ]
        types = tm.Types(opaque={k: v[0] for k, v in OPAQUE.items()})
        made = {}
        for spec, cls, e in todo:
            if spec not in made:
                made[spec] = types(spec)
                stats.distinct()
            t = made[spec]
            stats.step()
            forms = [e]
            expect = None
            if cls is not None:
                try:
                    expect = 'ok', opaque_ref.canon(opaque_ref.value(spec_name(spec), e))
                except Bad:
                    expect = 'refused', None
                except opaque_ref.Unknown:
                    pass
            if os.environ.get('TZ') == ZONES[-1] and isinstance(e, str):
                expect = None
            if cls is not None and spec[0] == 'list':
                forms = [[e], [e, e]]
            elif cls is not None and spec[0] in ('dict', 'dc'):
                forms = [{'a': e}]
            for el in forms:
                try:
                    got = marsh.unmarshal(t, el)
                except errors.UnmarshalError as err:
                    stats.outcome('refused')
                    other = spec[0] == 'opt' and e is None or spec[0] == 'union' and tm.is_prim(e) and not tm.missing(e)
                    require(not other or spec_name(spec) not in opaque_ref.OF, lambda: f'unmarshal({t!r}, {short(el)}) is refused: {err}')
                    require(expect is None or expect[0] == 'refused', lambda: f'unmarshal({t!r}, {short(el)}) is refused ({err}), expected {expect[1]}')
                    continue
                except RecursionError:
                    raise
                except Exception as err:
                    require(user_code(err), lambda: (
                        f'unmarshal({t!r}, {short(el)}) raised {type(err).__name__}: {err}, '
                        'not an UnmarshalError'))
                    continue
                stats.outcome(type(got).__name__)
                if cls is None:
                    continue
                inner = got
                if spec[0] == 'list':
                    require(type(got) is list and len(got) == len(el), lambda: f'unmarshal({t!r}, {short(el)}) gave {got!r}')
                    inner = got[0]
                elif spec[0] == 'dict':
                    require(type(got) is dict and list(got) == ['a'], lambda: f'unmarshal({t!r}, {short(el)}) gave {got!r}')
                    inner = got['a']
                elif spec[0] == 'dc':
                    inner = got.a
                ok = isinstance(inner, cls)
                if spec[0] == 'opt':
                    ok = ok or inner is None
                if spec[0] == 'union':
                    ok = ok or type(inner) is str
                require(ok, lambda: f'unmarshal({t!r}, {short(el)}) gave {got!r}, not a {cls}')
                if expect is None:
                    continue
                if expect[0] == 'refused':
                    # unless something else of the type takes it
                    want = {'opt': None, 'union': str(e)}
                    require(spec[0] in want and tm.canon(inner) == tm.canon(want[spec[0]]), lambda: f'unmarshal({t!r}, {short(el)}) gave {got!r}, expected a refusal')
                else:
                    require(opaque_ref.canon(inner) == expect[1], lambda: f'unmarshal({t!r}, {short(el)}) gave {got!r}, expected {expect[1]}')
        stats.traces += 1

    def zone(self, case, stats):
        """Dates and times, wherever the process runs."""
        _, zone, name = case
        before = os.environ.get('TZ')
        try:
            os.environ['TZ'] = zone
            time.tzset()
            tzlocal.unix._cache_tz = tzlocal.unix._cache_tz_name = None
            self.opaque(('opaque', name, '{}'), stats)
        finally:
            os.environ.pop('TZ')
            if before is not None:
                os.environ['TZ'] = before
            time.tzset()
            tzlocal.unix._cache_tz = tzlocal.unix._cache_tz_name = None

    def base64(self, first, stats):
        """All bytes of length 1 or 2 (-1), and of length 3 that begin with the given byte."""
        if first < 0:
            every = [bytes(v) for n in (0, 1, 2) for v in itertools.product(range(256), repeat=n)]
        else:
            every = [bytes((first, *v)) for v in itertools.product(range(0, 256, 3), repeat=2)]
        for value in every:
            text = base64.b64encode(value).decode()
            url = base64.urlsafe_b64encode(value).decode()
            for spelling in {text, url, text.rstrip('='), url.rstrip('=')}:
                stats.step()
                try:
                    got = marsh.unmarshal(bytes, spelling)
                except errors.UnmarshalError as err:
                    got = err
                require(got == value, lambda: f'unmarshal(bytes, {spelling!r}) gave {got!r}, expected {value!r}')
        stats.traces += 1

    def case(self, spec, stats):
        if spec[0] == 'base64':
            return self.base64(spec[1], stats)
        if spec[0] == 'zone':
            return self.zone(spec, stats)
        if spec[0] in ('opaque', 'odd'):
            return self.opaque(spec, stats)
        types = tm.Types()
        t = types(spec)
        stats.distinct()
        for el in ELEMENTS:
            stats.step()
            before = repr(el)
            try:
                want = ('ok', tm.ref(spec, el, types))
            except Bad as err:
                want = ('bad', err)
            try:
                got = ('ok', marsh.unmarshal(t, el))
            except errors.UnmarshalError as err:
                got = ('bad', err)
            except RecursionError:
                raise
            except Exception as err:
                got = ('raised', err)
            where = lambda: f'unmarshal({t!r} as {spec}, {short(el)})'
            require(got[0] != 'raised', lambda: (
                f'{where()} raised {type(got[1]).__name__}: {got[1]}, '
                f'not an UnmarshalError'))
            require(got[0] == want[0], lambda: (
                f'{where()}: expected {describe(want)}, got {describe(got)}'))
            if want[0] == 'ok':
                require(tm.canon(got[1]) == tm.canon(want[1]), lambda: (
                    f'{where()}: expected {describe(want)}, got {describe(got)}'))
            require(repr(el) == before, lambda: f'{where()} modified its input: {el!r}')
            stats.outcome(repr(want[0] == 'ok' and tm.canon(want[1]))[:200])
        stats.traces += 1


def spec_name(spec):
    while spec[0] != 'opaque':
        spec = next(s for s in spec[1:] if isinstance(s, tuple) and s[0] != 'str') if spec[0] != 'dc' else spec[1][0][1]
    return spec[1]


def short(el):
    return repr(el) if len(repr(el)) < 200 else repr(el)[:100] + '...'


def user_code(err):
    """Raised while the class itself was being called with converted arguments."""
    frames = traceback.extract_tb(err.__traceback__)
    return frames[-1].name == 'construct' and isinstance(err, (TypeError, ValueError))


def describe(res):
    return f'{short(res[1])}' if res[0] == 'ok' else f'a refusal ({res[1]!r})'[:300]


PROPERTY = C09()
