"""C12: defaults fill exactly the missing values, required values never go missing silently."""
import collections
import dataclasses
import enum
import itertools
import typing
from typing import Any, Dict, List, NamedTuple, Optional, Union

import omegaconf
from typing_extensions import Annotated, TypedDict

from mc.core import Property, require

import marsh
from marsh import errors

MARKERS = (marsh.MISSING, omegaconf.MISSING, dataclasses.MISSING, '???')


@dataclasses.dataclass
class AllDefault:
    x: int = 1
    y: Optional[str] = None


@dataclasses.dataclass
class Required:
    x: int
    y: int = 2


@dataclasses.dataclass
class Mutable:
    x: List[int] = dataclasses.field(default_factory=list)
    y: Dict[str, List[int]] = dataclasses.field(default_factory=dict)


class Flavour(enum.Enum):
    A = 'a'


NONE = object()
Req = Required
# name -> (type, valid element, its value, what a missing value gives)
#   'miss': a missing value error at the place itself, 'deep': below at x,
#   otherwise a one-element tuple with the value
FIELDS = {
    'int': (int, '5', 5, 'miss'),
    'str': (str, 5, '5', 'miss'),
    'any': (Any, [1], [1], 'miss'),
    'opt': (Optional[int], '5', 5, (None,)),
    'none': (None, None, None, (None,)),
    'list': (List[int], ['5'], [5], ([],)),
    'dict': (Dict[str, int], {'k': '5'}, {'k': 5}, ({},)),
    'tuple': (typing.Tuple[int, ...], [5], (5,), ((),)),
    'union': (Union[int, bool], '5', 5, 'miss'),
    'unionlist': (Union[int, List[int]], [5], [5], ([],)),
    'alldef': (AllDefault, {'x': 5}, AllDefault(5), (AllDefault(),)),
    'req': (Required, {'x': 5}, Required(5), 'deep'),
    'optreq': (Optional[Required], {'x': 5}, Required(5), (None,)),
    'ann': (Annotated[int, 'text'], '5', 5, 'miss'),
}
DEFAULTS = ('required', 'value', 'factory')
PRESENCE = ('absent', 'given', 'str-marker', 'object-marker')
STRUCTS = ('dataclass', 'namedtuple', 'class', 'function', 'typeddict')


class Default:
    """A default that no conversion would leave alone."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<default of {self.name}>'


# values of a default dict: type -> the value of a missing key, or None if there is none
ZERO = {
    'int': (int, 0), 'str': (str, ''), 'float': (float, 0.0), 'bool': (bool, False), 'none': (None, None),
    'opt': (Optional[int], None), 'any': (Any, None), 'list': (List[int], []), 'bare': (list, []), 'dict': (Dict[str, int], {}),
    'tuple': (typing.Tuple[int, ...], ()), 'set': (typing.Set[int], set()), 'deque': (typing.Deque[int], collections.deque()),
    'alldef': (AllDefault, AllDefault()), 'mutable': (Mutable, Mutable()), 'optreq': (Optional[Required], None),
    'nested': (typing.DefaultDict[str, List[int]], {}), 'ann': (Annotated[List[int], 'text'], []),
    'literal': (typing.Literal['a', 0], 0), 'union': (Union[int, List[int]], []), 'str first': (Union[Req, str], ''),
    'req': (Required, NONE), 'enum': (Flavour, NONE), 'pair': (typing.Tuple[int, int], NONE), 'word': (typing.Literal['a'], NONE),
}
DDICTS = (lambda t: typing.DefaultDict[str, t], lambda t: collections.defaultdict[str, t])
DD_OPS = tuple(itertools.product(('get', 'drop', 'in'), (0, 1), 'ab')) + (('wreck',), ('again',), ('clear',))


class C12(Property):
    id = 'C12'
    bounds = (
        'every structure (5 kinds) of one and two (thorough: three) fields out of '
        f'{len(FIELDS)} field types x (required, default, default factory) x (absent, given, '
        'two kinds of missing markers), also nested below each other and inside of containers; '
        f'every history of 3 (thorough 4) of {len(DD_OPS)} operations on two default dictionaries of {len(ZERO)} types of values'
    )

    def cases(self, tier):
        for name in ZERO:
            for n in range(len(DDICTS)):
                for op in DD_OPS:
                    yield 'ddict', name, n, op, 3 if tier == 'quick' else 4
        for s in STRUCTS:
            yield s, ()
            one = [(f, d) for f in FIELDS for d in DEFAULTS if self.allowed(s, f, d)]
            for a in one:
                yield s, (a,)
            for a, b in itertools.product(one, repeat=2):
                if self.ordered(s, (a, b)):
                    yield s, (a, b)
            small = [c for c in one if c[0] in ('int', 'opt', 'req', 'list') or c[0] == 'alldef' and tier == 'thorough']
            for w in itertools.product(small, repeat=3):
                if self.ordered(s, w):
                    yield s, w

    @staticmethod
    def allowed(s, f, d):
        if f == 'none' and d != 'required':
            return False
        if d == 'factory':
            return s == 'dataclass'
        return True

    @staticmethod
    def ordered(s, w):
        if s == 'typeddict':
            return True
        flags = [d != 'required' for _, d in w]
        return flags == sorted(flags)

    def make(self, s, fields):
        """-> (unmarshal, read field)"""
        defaults, made = {}, []
        names = 'abc'[:len(fields)]
        items = []
        for n, (f, d) in zip(names, fields):
            t = FIELDS[f][0]
            if d == 'value':
                defaults[n] = Default(n)
            items.append((n, t, d))

        def factory(n):
            def make():
                made.append(n)
                return ['made', n]
            return make

        if s == 'dataclass':
            cls = dataclasses.make_dataclass('D', [
                (n, t) if d == 'required' else
                (n, t, dataclasses.field(default=defaults[n])) if d == 'value' else
                (n, t, dataclasses.field(default_factory=factory(n)))
                for n, t, d in items])
            return cls, getattr, defaults, made
        if s == 'namedtuple':
            body = {'__annotations__': {n: t for n, t, d in items}, '__module__': __name__, **defaults}
            cls = typing.NamedTupleMeta('N', (typing._NamedTuple,), body)
            return cls, getattr, defaults, made
        if s == 'typeddict':
            from typing_extensions import NotRequired
            cls = TypedDict('T', {n: t if d == 'required' else NotRequired[t] for n, t, d in items})
            return cls, (lambda v, n: v[n] if n in v else OMITTED), {n: OMITTED for n in defaults}, made
        sig = ', '.join(f'{n}: T[{n!r}]' + (f' = D[{n!r}]' if d == 'value' else '') for n, t, d in items)
        env = {'T': {n: t for n, t, d in items}, 'D': defaults}
        if s == 'class':
            body = ''.join(f'\n        self.{n} = {n}' for n in names) or ' pass'
            exec(f'class f:\n    def __init__(self{", " if sig else ""}{sig}):{body}\n', env)
            return env['f'], getattr, defaults, made
        exec(f'def f({sig}):\n    return dict({", ".join(f"{n}={n}" for n in names)})\n', env)
        return env['f'], (lambda v, n: v[n]), defaults, made

    def ddict(self, name, n, first, depth, stats):
        t, zero = ZERO[name]
        T = DDICTS[n](t)
        for rest in itertools.product(DD_OPS, repeat=depth - 1):
            stats.traces += 1
            ops = (first, *rest)
            dicts, models = [marsh.unmarshal(T, {}) for _ in range(2)], [{}, {}]
            handed = []
            for i, op in enumerate(ops):
                stats.step()
                what = lambda: f'{T}: {ops[:i + 1]}'
                if op[0] == 'again':
                    dicts[1], models[1] = marsh.unmarshal(T, {}), {}
                elif op[0] == 'clear':
                    dicts[0].clear()
                    models[0].clear()
                elif op[0] == 'wreck':
                    for value in handed:
                        wreck(value)
                elif op[0] == 'drop':
                    dicts[op[1]].pop(op[2], None)
                    models[op[1]].pop(op[2], None)
                elif op[0] == 'in':
                    require((op[2] in dicts[op[1]]) == (op[2] in models[op[1]]), lambda: f'{what()}: wrong')
                    require(dicts[op[1]].get(op[2]) is models[op[1]].get(op[2]), lambda: f'{what()}: another value')
                else:
                    _, d, k = op
                    try:
                        value = dicts[d][k]
                    except Exception as err:
                        require(zero is NONE and k not in models[d], lambda: f'{what()}: gives {type(err).__name__} {err}')
                        require(k not in dicts[d], lambda: f'{what()}: a failing key stays')
                        continue
                    require(zero is not NONE, lambda: f'{what()}: gives {value!r}')
                    if k in models[d]:
                        require(value is models[d][k], lambda: f'{what()}: another value than before')
                        continue
                    require(same(value, zero), lambda: f'{what()}: gives {value!r}, expected {zero!r}')
                    if isinstance(value, (list, dict, set, collections.deque, AllDefault, Mutable)):
                        require(not any(value is x for x in handed), lambda: f'{what()}: the value of a missing key is shared')
                        handed.append(value)
                    models[d][k] = value
        stats.distinct()
        stats.outcome(f'{name} {first}')

    def case(self, case, stats):
        if case[0] == 'ddict':
            return self.ddict(*case[1:], stats)
        s, fields = case
        t, read, defaults, made = self.make(s, fields)
        names = 'abc'[:len(fields)]
        stats.distinct()
        presences = PRESENCE if len(fields) < 3 else PRESENCE[:3]
        for presence in itertools.product(presences, repeat=len(fields)):
            el, want, error = {}, {}, None
            for n, (f, d), p in zip(names, fields, presence):
                _, good, value, without = FIELDS[f]
                if p == 'given':
                    el[n] = good
                    want[n] = ('equal', value)
                    continue
                if p == 'str-marker':
                    el[n] = '???'
                elif p == 'object-marker':
                    el[n] = dataclasses.MISSING
                if d == 'value':
                    want[n] = ('is', defaults[n])
                elif d == 'factory':
                    want[n] = ('equal', ['made', n])
                elif without == 'miss':
                    error = error or n
                elif without == 'deep':
                    error = error or n + '.x'
                else:
                    want[n] = ('equal', without[0])
            forms = [('mapping', t, el, '', lambda v: v)]
            if all(p == 'absent' for p in presence):
                for m in MARKERS:
                    forms.append(('missing', t, m, '', lambda v: v))
            forms.append(('in a list', List[t] if s != 'function' else None, [el], '0', lambda v: v[0]))
            forms.append(('in a dict', Dict[str, t] if s != 'function' else None, {'k': el}, 'k', lambda v: v['k']))
            for how, type_, e, prefix, get in forms:
                if type_ is None:
                    continue
                # several missing values: any of them may be reported
                self.one(s, how, type_, e, prefix, get, read, want, error, made, names, fields, presence, stats)

    def one(self, s, how, t, el, prefix, get, read, want, error, made, names, fields, presence, stats):
        stats.step()
        stats.traces += 1
        before = repr(el)
        where = lambda: f'{s} {fields} given {presence} ({how} {el!r})'
        made.clear()
        try:
            got = get(marsh.unmarshal(t, el))
        except errors.MissingValueError as err:
            require(error is not None, lambda: f'{where()}: refused, {err}')
            possible = {
                '.'.join(x for x in (prefix, n + ('.x' if FIELDS[f][3] == 'deep' else '')) if x)
                for n, (f, d), p in zip(names, fields, presence)
                if p != 'given' and d == 'required' and FIELDS[f][3] in ('miss', 'deep')
            }
            require(err.path in possible, lambda: (
                f'{where()}: the missing value is reported at {err.path!r}, not at one of {sorted(possible)}'))
            stats.outcome('missing ' + err.path)
            return
        require(error is None, lambda: f'{where()}: gave {got!r}, but {error} has no value')
        for n in names:
            value = read(got, n)
            kind, expected = want[n]
            if kind == 'is':
                require(value is expected, lambda: f'{where()}: {n} is {value!r}, expected {expected!r} itself')
            else:
                require(type(value) is type(expected) and value == expected,
                        lambda: f'{where()}: {n} is {value!r}, expected {expected!r}')
        for n, (f, d), p in zip(names, fields, presence):
            calls = made.count(n)
            need = 1 if d == 'factory' and p != 'given' else 0
            require(calls == need, lambda: f'{where()}: the default factory of {n} was called {calls} times, not {need}')
        require(repr(el) == before, lambda: f'{where()}: the input was modified')
        stats.outcome(repr(sorted((n, str(v[1])) for n, v in want.items())))
        # a second object shares nothing with the first
        again = get(marsh.unmarshal(t, el))
        for n, (f, d) in zip(names, fields):
            a, b = read(got, n), read(again, n)
            if want[n][0] == 'equal' and isinstance(a, (list, dict, AllDefault, Required)) and f != 'any':
                require(a is not b, lambda: f'{where()}: two results share {n}')


def same(value, zero):
    if isinstance(zero, dict):
        return isinstance(value, dict) and value == zero
    return type(value) is type(zero) and value == zero


def wreck(value):
    """Changes all that can be changed in a value."""
    if isinstance(value, (list, collections.deque)):
        value.append(99)
    elif isinstance(value, set):
        value.add(99)
    elif isinstance(value, collections.defaultdict):
        wreck(value['wrecked'])
    elif isinstance(value, dict):
        value['wrecked'] = 99
    elif isinstance(value, Mutable):
        wreck(value.x)
        wreck(value.y)
    elif isinstance(value, AllDefault):
        value.x = 99


class Omitted:
    pass


OMITTED = Omitted()
PROPERTY = C12()
