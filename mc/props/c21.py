"""C21: annotations are applied to each value of an annotated type, wherever it appears."""
import collections
import dataclasses
import itertools
import math
import sys
import types
import typing
from typing import Any, Deque, Dict, FrozenSet, Iterable, List, Literal, Mapping, NamedTuple, NewType, Optional, Sequence, Set, Tuple, TypeVar, Union

from typing_extensions import Annotated, NotRequired, Required, TypedDict

from mc import types_model as tm
from mc.core import Property, require

import marsh
from marsh import errors
from marsh.annotation import Annotation, Negative, Populated, Positive, PreAnnotation, Unsigned

LOG = []


class Same:
    """Annotations that can not be told apart by their text."""

    def __repr__(self):
        return 'annotation'


class Post(Same, Annotation):
    def __init__(self, tag='p'):
        self.tag = tag

    def __call__(self, value):
        LOG.append(('post', self.tag, repr(value)))
        return combine(value, self.tag)


class Pre(Same, PreAnnotation):
    def __init__(self, tag='r'):
        self.tag = tag

    def __call__(self, element):
        LOG.append(('pre', self.tag, repr(element)))
        if isinstance(element, str):
            return element + self.tag
        return element


def combine(value, tag):
    if isinstance(value, str):
        return value + tag
    if isinstance(value, int):
        return value * 10 + ord(tag) % 10
    if isinstance(value, tuple):
        return value + (tag,)
    if isinstance(value, list):
        return value + [tag]
    return value


class Refuse(Annotation):
    """Refuses values that end with !, in one of several ways."""

    def __init__(self, how=ValueError):
        self.how = how

    def __call__(self, value):
        LOG.append(('refuse', self.how.__name__, repr(value)))
        if str(value).rstrip(']\'').endswith(('!', '13')):
            raise self.how('refused')
        return value


class RefusePre(PreAnnotation):
    def __init__(self, how=ValueError):
        self.how = how

    def __call__(self, value):
        LOG.append(('refuse', self.how.__name__, repr(value)))
        if '!' in str(value) or '13' in str(value):
            raise self.how('refused')
        return value


class Other:
    """Not for marsh."""

    def __call__(self, value):
        raise AssertionError('called something that is not an annotation')


# name -> annotation
MENU = {
    'post': Post, 'post a': Post('a'), 'post b': Post('b'), 'pre': Pre, 'pre c': Pre('c'), 'pre d': Pre('d'),
    'refuse': Refuse, 'refuse marsh': Refuse(errors.UnmarshalError), 'refuse key': Refuse(KeyError), 'refuse pre': RefusePre, 'refuse pre marsh': RefusePre(errors.MarshError),
    'none': None, 'text': 'text', 'number': 5, 'type': int, 'list': [1], 'other': Other(), 'Other': Other, 'base': Annotation, 'prebase': PreAnnotation(),
}
BASES = {
    'str': (str, ['x', 'y!', 5, [1]]),
    'int': (int, ['7', 13, 'x', 2.5]),
    'list': (List[str], [['x'], 'zz', ['y!'], []]),
}


class Refused(Exception):
    pass


def reference(anns, base, element, **defaults):
    """-> value, expected log"""
    instances = []
    for a in anns:
        if isinstance(a, type) and issubclass(a, (Annotation, PreAnnotation)):
            a = a()
        instances.append(a)
    LOG.clear()
    try:
        for a in instances:
            if isinstance(a, PreAnnotation):
                element = a(element)
        value = marsh.schema.UnmarshalSchema(base, **defaults).unmarshal(element)
        for a in instances:
            if isinstance(a, Annotation):
                value = a(value)
    except Exception as err:
        raise Refused(str(err)) from None
    finally:
        expected = list(LOG)
        LOG.clear()
        reference.log = expected
    return value


MODULE = types.ModuleType('mc_c21_types')
sys.modules['mc_c21_types'] = MODULE
SOURCES = {
    'dataclass': ('@dataclasses.dataclass\nclass R:\n    a: int\n    v: {T}\n', lambda e: {'a': 1, 'v': e}, lambda r: r.v, 'v'),
    'keyword': ('@dataclasses.dataclass(kw_only=True, frozen=True)\nclass R:\n    v: {T}\n    a: int = 3\n', lambda e: {'v': e}, lambda r: r.v, 'v'),
    'initvar': ('@dataclasses.dataclass\nclass R:\n    v: dataclasses.InitVar[{T}]\n    def __post_init__(self, v):\n        self.w = v\n', lambda e: {'v': e}, lambda r: r.w, 'v'),
    'inherited': ('@dataclasses.dataclass\nclass Q:\n    v: {T}\n@dataclasses.dataclass\nclass R(Q):\n    a: int = 0\n', lambda e: {'v': e, 'a': 2}, lambda r: r.v, 'v'),
    'namedtuple': ('class R(NamedTuple):\n    a: int\n    v: {T}\n', lambda e: [1, e], lambda r: r.v, 'v'),
    'typeddict': ('class R(TypedDict):\n    v: {T}\n', lambda e: {'v': e}, lambda r: r['v'], 'v'),
    'required': ('class R(TypedDict, total=False):\n    v: Required[{T}]\n    w: int\n', lambda e: {'v': e}, lambda r: r['v'], 'v'),
    'notrequired': ('class R(TypedDict):\n    v: NotRequired[{T}]\n', lambda e: {'v': e}, lambda r: r['v'], 'v'),
    'class': ('class R:\n    def __init__(self, a: int, v: {T}):\n        self.v = v\n', lambda e: [1, e], lambda r: r.v, 'v'),
    'function': ('def R(*, v: {T}):\n    return v\n', lambda e: {'v': e}, lambda r: r, 'v'),
    'args': ('class R:\n    def __init__(self, *v: {T}):\n        self.v = v\n', lambda e: [e], lambda r: r.v[0], None),
    'kwargs': ('class R:\n    def __init__(self, **v: {T}):\n        self.v = v\n', lambda e: {'k': e}, lambda r: r.v['k'], None),
    'recursive': ('@dataclasses.dataclass\nclass R:\n    v: Optional[{T}] = None\n    n: Optional["R"] = None\n', lambda e: {'n': {'n': {'v': e}}}, lambda r: r.n.n.v, 'n.n.v'),
}


def defined(source, future):
    def make(T):
        ns = MODULE.__dict__
        ns.clear()
        ns.update({'__name__': 'mc_c21_types', 'dataclasses': dataclasses, 'T': T, **{k: getattr(typing, k) for k in ('NamedTuple', 'Optional', 'List')}, 'TypedDict': TypedDict, 'Required': Required, 'NotRequired': NotRequired})
        exec(('from __future__ import annotations\n' if future else '') + source.replace('{T}', 'T'), ns)
        return ns['R']
    return make



# name -> (type of T, element of e, value, path)
CONTEXTS = {
    'direct': (lambda T: T, lambda e: e, lambda v: v, ''),
    'list': (lambda T: List[T], lambda e: [e], lambda v: v[0], '0'),
    'builtin list': (lambda T: list[T], lambda e: [e], lambda v: v[0], '0'),
    'sequence': (lambda T: Sequence[T], lambda e: [e], lambda v: v[0], '0'),
    'deque': (lambda T: Deque[T], lambda e: [e], lambda v: v[0], '0'),
    'tuple': (lambda T: Tuple[int, T], lambda e: [1, e], lambda v: v[1], '1'),
    'long tuple': (lambda T: Tuple[T, ...], lambda e: [e], lambda v: v[0], '0'),
    'dict': (lambda T: Dict[str, T], lambda e: {'k': e}, lambda v: v['k'], 'k'),
    'mapping': (lambda T: Mapping[str, T], lambda e: {'k': e}, lambda v: v['k'], 'k'),
    'defaultdict': (lambda T: typing.DefaultDict[str, T], lambda e: {'k': e}, lambda v: v['k'], 'k'),
    'key': (lambda T: Dict[T, int], lambda e: {e: 1}, lambda v: next(iter(v)), None),
    'set': (lambda T: Set[T], lambda e: [e], lambda v: next(iter(v)), '0'),
    'optional': (lambda T: Optional[T], lambda e: e, lambda v: v, ''),
    'union': (lambda T: Union[Literal['never'], T], lambda e: e, lambda v: v, ''),
    'pipe': (lambda T: T | None, lambda e: e, lambda v: v, ''),
    'annotated': (lambda T: Annotated[T, 'outer', Other], lambda e: e, lambda v: v, ''),
    'typevar': (lambda T: TypeVar('BT', bound=T), lambda e: e, lambda v: v, ''),
}
for _name, _c in SOURCES.items():
    CONTEXTS[_name] = (defined(_c[0], False), *_c[1:])
    CONTEXTS[_name + ' as text'] = (defined(_c[0], True), *_c[1:])
UNHASHABLE = ('key', 'set')
UNIONS = ('union', 'optional', 'pipe', 'recursive', 'recursive as text')
# only at the outside: need T by name, one module
NAMED = tuple(n for n in CONTEXTS if n.removesuffix(' as text') in SOURCES)


def join(a, b):
    return None if a is None or b is None else '.'.join(x for x in (a, b) if x)


LISTS = [()] + [(a,) for a in MENU] + list(itertools.permutations(('post a', 'post b', 'pre c', 'pre d', 'post', 'refuse', 'refuse pre', 'none', 'list'), 2))
LONG = list(itertools.permutations(('post a', 'post b', 'pre c', 'pre d', 'refuse key', 'refuse pre marsh', 'text'), 3))
SHORT = [('post a',), ('pre c',), ('refuse',), ('refuse pre marsh',), ('post a', 'pre c'), ('refuse marsh', 'post'), ('pre', 'list', 'post b', 'pre d')]
LIMITS = {
    'positive': (Positive, lambda x: x > 0), 'negative': (Negative, lambda x: x < 0), 'unsigned': (Unsigned, lambda x: x >= 0),
}
NUMBERS = [0, 1, -1, 0.0, -0.0, 0.5, -0.5, 5e-324, -5e-324, 2 ** 70, -2 ** 70, float('inf'), float('-inf'), float('nan'), True, False, '3', '-3', '0']
SIZED = [(List[int], [[], [1], [1, 2]]), (Dict[str, int], [{}, {'a': 1}]), (str, ['', 'a']), (Tuple[int, ...], [[], [1]]), (Set[int], [[], [0]]), (bytes, ['', 'YQ==']), (list, [marsh.MISSING, [None]])]


class C21(Property):
    id = 'C21'
    bounds = (
        f'{len(LISTS)} lists of up to two annotations and {len(LONG)} of three out of {len(MENU)} (each kind, also refusing, also unrelated metadata) on {len(BASES)} types in each of {len(CONTEXTS)} places '
        f'where a type may be written, {len(SHORT)} lists in every pair of nested places (thorough: also triples), given values or defaults; the predefined annotations against {len(NUMBERS)} numbers and every kind of collection'
    )

    def cases(self, tier):
        for place in CONTEXTS:
            for base in BASES:
                for i in range(len(LISTS)):
                    yield 'apply', (place,), base, LISTS[i]
                if tier != 'quick' or place in ('direct', 'list', 'dataclass', 'typeddict as text', 'optional'):
                    for i in range(len(LONG)):
                        yield 'apply', (place,), base, LONG[i]
        inner = [c for c in CONTEXTS if c not in NAMED and c != 'direct']
        for a, b in itertools.product([c for c in CONTEXTS if c != 'direct'], inner):
            for base in BASES:
                for names in SHORT:
                    yield 'apply', (a, b), base, names
        if tier != 'quick':
            for abc in itertools.product([c for c in CONTEXTS if c != 'direct'], inner, inner):
                for base in ('str', 'list'):
                    for names in SHORT[4:]:
                        yield 'apply', abc, base, names
        for names in LISTS:
            for base in BASES:
                yield 'default', base, names
        for a, b in itertools.product(SHORT, SHORT):
            yield 'several', a, b
        yield 'limits',
        yield 'sized',

    def case(self, case, stats):
        stats.distinct()
        getattr(self, case[0])(*case[1:], stats=stats)

    def apply(self, places, base, names, stats):
        base_type, elements = BASES[base]
        if any(p in UNHASHABLE for p in places[:-1]) or places[-1] in UNHASHABLE and base == 'list':
            return
        anns = [MENU[n] for n in names]
        tm.fresh_typing()
        T = Annotated[(base_type, *anns)] if anns else base_type
        for p in reversed(places):
            T = CONTEXTS[p][0](T)
        path, paths = '', []
        for p in places:
            path = join(path, CONTEXTS[p][3])
            if p in UNIONS:
                # nothing in the union matches: that is where it fails
                paths.append(path)
        paths.append(path)
        for element in elements:
            if 'key' in places and not isinstance(element, (str, int)):
                continue
            e = element
            for p in reversed(places):
                e = CONTEXTS[p][1](e)
            try:
                expect = 'ok', reference(anns, base_type, element)
            except Refused as err:
                expect = 'refused', str(err)
            log = reference.log
            what = f'{T} in {places} with {names}, unmarshaling {e!r}'
            try:
                value = marsh.unmarshal(T, e)
                got = list(LOG)
                for p in places:
                    value = CONTEXTS[p][2](value)
                kind = 'ok'
            except errors.MarshError as err:
                kind, value, got = 'refused', err, list(LOG)
            LOG.clear()
            stats.step()
            stats.traces += 1
            stats.outcome((kind, repr(expect)))
            require(kind == expect[0], f'{what}: {kind} {value!r}, expected {expect}')
            require(got == log, f'{what}: the annotations saw {got}, expected {log}')
            if kind == 'ok':
                require(type(value) is type(expect[1]) and value == expect[1], f'{what}: {value!r}, expected {expect[1]!r}')
            else:
                require(isinstance(value, errors.UnmarshalError) or 'refuse pre marsh' in names, f'{what}: {value!r}')
                if path is not None and isinstance(value, errors.UnmarshalError):
                    require(value.path in paths or base == 'list' and isinstance(element, list) and value.path.startswith(path), f'{what}: fails at {value.path!r}, expected {path!r}')

    def default(self, base, names, stats):
        base_type, elements = BASES[base]
        anns = [MENU[n] for n in names]
        if not anns:
            return
        tm.fresh_typing()
        T = Annotated[(base_type, *anns)]
        values = {'str': ['d', 'd!'], 'int': [4, 13], 'list': [['d'], ['d!'], []]}[base]
        for d in values:
            for how in ('default', 'default_factory'):
                field = dataclasses.field(**{how: d if how == 'default' else lambda: list(d) if base == 'list' else d}) if base != 'list' or how == 'default_factory' else None
                if field is None:
                    continue
                cls = dataclasses.make_dataclass('D', [('v', T, field)])
                given = {'default': field.default} if how == 'default' else {'default_factory': field.default_factory}
                try:
                    expect = 'ok', reference([a for a in anns if not isinstance(a, RefusePre) and a is not RefusePre], base_type, marsh.MISSING, **given)
                except Refused as err:
                    expect = 'refused', str(err)
                if any(isinstance(a, PreAnnotation) or isinstance(a, type) and issubclass(a, PreAnnotation) for a in anns):
                    continue
                stats.step()
                stats.traces += 1
                LOG.clear()
                try:
                    got = 'ok', marsh.unmarshal(cls, {}).v
                except errors.UnmarshalError as err:
                    got = 'refused', err
                    require(err.path == 'v', f'default {d!r} of {T} with {names}: fails at {err.path!r}')
                require(got[0] == expect[0] and (got[0] == 'refused' or got == expect), f'default {d!r} of {T} with {names}: {got}, expected {expect}')

    def several(self, first, second, stats):
        """Annotations of one value are not applied to another."""
        A, B = [Annotated[(str, *[MENU[n] for n in names])] for names in (first, second)]
        cls = dataclasses.make_dataclass('S', [('a', A), ('b', B), ('c', str), ('d', List[Union[int, A]])])
        for x, y in itertools.product(('x', 'y!'), repeat=2):
            element = {'a': x, 'b': y, 'c': 'c', 'd': [3, y]}
            log, expect, path = [], [], None
            for key, names, e in (('a', first, x), ('b', second, y), ('d.1', first, y)):
                try:
                    expect.append(reference([MENU[n] for n in names], str, e))
                except Refused:
                    path = key
                log += reference.log
                if path:
                    break
            LOG.clear()
            stats.step()
            stats.traces += 1
            what = f'{element} with {first} and {second}'
            try:
                v = marsh.unmarshal(cls, element)
                require(path is None and [v.a, v.b, v.d[1]] == expect and v.c == 'c' and v.d[0] == 3, f'{what}: {v}, expected {expect}, {path}')
            except errors.UnmarshalError as err:
                require(err.path == path, f'{what}: {err!r}, expected to fail at {path}')
            except errors.MarshError as err:
                require(path is not None and 'refuse pre marsh' in first + second, f'{what}: {err!r}')
            require(LOG == log, f'{what}: the annotations saw {LOG}, expected {log}')
            LOG.clear()

    def limits(self, stats):
        for name, (ann, ok) in LIMITS.items():
            for a in (ann, ann()):
                for base in (int, float):
                    for n in NUMBERS:
                        stats.step()
                        stats.traces += 1
                        try:
                            plain = marsh.unmarshal(base, n)
                        except errors.UnmarshalError:
                            continue
                        got = None
                        try:
                            got = marsh.unmarshal(Annotated[base, a], n)
                            accepted = True
                        except errors.UnmarshalError:
                            accepted = False
                        require(accepted == bool(ok(plain)), f'{name} {base.__name__} {n!r}: accepted={accepted}')
                        require(not accepted or repr(got) == repr(plain), f'{name} {base.__name__} {n!r}: {got!r}')
            for other, (b, ok2) in LIMITS.items():
                for n in NUMBERS:
                    plain = marsh.unmarshal(float, n)
                    try:
                        marsh.unmarshal(Annotated[float, ann, b], n)
                        accepted = True
                    except errors.UnmarshalError:
                        accepted = False
                    require(accepted == bool(ok(plain) and ok2(plain)), f'{name} and {other} {n!r}: accepted={accepted}')

    def sized(self, stats):
        for base, elements in SIZED:
            for a in (Populated, Populated()):
                for e in elements:
                    stats.step()
                    stats.traces += 1
                    plain, got = marsh.unmarshal(base, e), None
                    try:
                        got = marsh.unmarshal(Annotated[base, a], e)
                        require(len(plain) and got == plain, f'populated {base} {e!r}: {got!r}')
                    except errors.UnmarshalError:
                        require(not len(plain), f'populated {base} {e!r} is refused')


PROPERTY = C21()
