"""C06: the given values reach exactly the parameters they name."""
import dataclasses
import functools
import itertools
import types
from typing import Any, NamedTuple

from typing_extensions import TypedDict

from mc import cli
from mc.core import Property, require

import marsh
from marsh import errors

NAMES = 'pqr'


@dataclasses.dataclass(frozen=True)
class Conf:
    a: int
    b: str = 'x'


def plain(a: int, b: str = 'x', *c: float, **d: int):
    """The doc."""
    return (a, b, c, d)


class Klass:
    def __init__(self, a: int, b: str = 'x', *c: float, **d: int):
        self.v = (a, b, c, d)

    def method(self, a: int, b: str = 'x', *c: float, **d: int):
        return (a, b, c, d)

    @classmethod
    def of_class(cls, a: int, b: str = 'x', *c: float, **d: int):
        return (a, b, c, d)

    @staticmethod
    def static(a: int, b: str = 'x', *c: float, **d: int):
        return (a, b, c, d)

    def __call__(self, a: int, b: str = 'x', *c: float, **d: int):
        return (a, b, c, d)


class Sub(Klass):
    pass


class Made:
    def __new__(cls, a: int, b: str = 'x', *c: float, **d: int):
        return (a, b, c, d)


KINDS = {
    'function': lambda: plain,
    'class': lambda: Klass,
    'subclass': lambda: Sub,
    'new': lambda: Made,
    'method': lambda: Klass(1).method,
    'classmethod': lambda: Klass.of_class,
    'staticmethod': lambda: Klass.static,
    'instance': lambda: Klass(1),
    'partial': lambda: functools.partial(plain),
    'partial default': lambda: functools.partial(plain, b='x'),
    'wrapper': lambda: functools.wraps(plain)(lambda *args, **kwargs: plain(*args, **kwargs)),
    'cached': lambda: functools.lru_cache(plain),
    'text annotations': lambda: annotated_with_text(),
}


def annotated_with_text():
    def fn(a: 'int', b: 'str' = 'x', *c: 'float', **d: 'int'):
        return (a, b, c, d)
    return fn


def shapes(n_max):
    """Every signature: tuple of (kind, has default), variadic flags."""
    for n in range(0, n_max + 1):
        for kinds in itertools.combinations_with_replacement('PKO', n):
            for defaults in itertools.product((0, 1), repeat=n):
                flat = [d for k, d in zip(kinds, defaults) if k != 'O']
                if flat != sorted(flat):
                    continue
                for star, kw in itertools.product((0, 1), repeat=2):
                    yield tuple(zip(kinds, defaults)), star, kw


def make(shape, kind, calls):
    params, star, kw = shape
    parts, seen_pos, seen_star = [], False, False
    for i, (k, d) in enumerate(params):
        if seen_pos and k != 'P':
            parts.append('/')
            seen_pos = False
        if k == 'P':
            seen_pos = True
        if k == 'O' and not seen_star:
            parts.append('*args: int' if star else '*')
            seen_star = True
        parts.append(f'{NAMES[i]}: int' + (f' = {100 + i}' if d else ''))
    if seen_pos:
        parts.append('/')
    if star and not seen_star:
        parts.append('*args: int')
    if kw:
        parts.append('**kwargs: int')
    ret = '{' + ', '.join(f'{NAMES[i]!r}: {NAMES[i]}' for i in range(len(params)))
    ret += (', ' if params else '') + "'*': " + ('args' if star else '()')
    ret += ", '**': " + ('kwargs' if kw else '{}') + '}'
    ns = {'calls': calls}
    sig = ', '.join(parts)
    if kind == 'function':
        src = f'def f({sig}):\n    calls.append({ret})\n    return "returned"\n'
    else:
        sig = 'self' + (', ' if sig else '') + sig
        src = f'class f:\n    def __init__({sig}):\n        self.got = {ret}\n'
    exec(src, ns)
    return ns['f']


class Refuse(Exception):
    pass


def expected(shape, mapping, sequence, call_args, call_kwargs):
    params, star, kw = shape
    mapping, sequence = dict(mapping), list(sequence)
    call_args, call_kwargs = list(call_args), dict(call_kwargs)
    out = {}
    for i, (k, d) in enumerate(params):
        name = NAMES[i]
        options = []
        if k != 'O' and sequence:
            options.append(sequence.pop(0))
        if name in mapping:
            options.append(mapping.pop(name))
        if k != 'O' and call_args:
            options.append(call_args.pop(0))
        if name in call_kwargs:
            options.append(call_kwargs.pop(name))
        if d:
            options.append(100 + i)
        if not options:
            raise Refuse('missing ' + name)
        out[name] = options[0]
    out['*'] = tuple(sequence) + tuple(call_args)
    if out['*'] and not star:
        raise Refuse('too many')
    out['**'] = {**call_kwargs, **mapping}
    if out['**'] and not kw:
        raise Refuse('unknown')
    return out


def subsets(items):
    for n in range(len(items) + 1):
        yield from itertools.combinations(items, n)


def inputs(shape):
    """(mapping, sequence) inputs; the values are distinct integers."""
    params, star, kw = shape
    names = [NAMES[i] for i in range(len(params))] + ['x']
    yield {}, []
    for keys in subsets(names):
        if keys:
            yield {k: 10 + i for i, k in enumerate(keys)}, []
            if len(keys) > 1:
                yield {k: 10 + i for i, k in enumerate(reversed(keys))}, []
    yield {'args': 5}, []
    yield {'kwargs': 5}, []
    for n in range(1, len(params) + 3):
        yield {}, [20 + i for i in range(n)]


def call_inputs(shape):
    params, star, kw = shape
    flat = [i for i, (k, d) in enumerate(params) if k != 'O']
    for n in range(0, len(flat) + (2 if star else 0) + 1):
        args = [f'A{i}' for i in range(n)]
        rest = [
            NAMES[i] for i, (k, d) in enumerate(params)
            if not (i in flat and flat.index(i) < n) and k != 'P'
        ]
        if kw:
            rest = rest + ['x', 'y']
        for keys in subsets(rest):
            yield args, {k: f'K{k}' for k in keys}


# structured types: (kind of field, has default)
def dataclass_shapes():
    for n in range(0, 4):
        for kinds in itertools.product('FOIN', repeat=n):   # field, kw_only, InitVar, init=False
            for defaults in itertools.product((0, 1, 2), repeat=n):
                flat = [
                    bool(d) for k, d in zip(kinds, defaults) if k in 'FI'
                ]
                if flat != sorted(flat):
                    continue
                if any(k == 'N' and d == 0 or k == 'I' and d == 2
                       for k, d in zip(kinds, defaults)):
                    continue
                yield tuple(zip(kinds, defaults))


def make_dataclass(shape, order=True):
    ns, fields = {}, []
    initvars = [NAMES[i] for i, (k, d) in enumerate(shape) if k == 'I']
    for i, (k, d) in enumerate(shape):
        kwargs = {}
        if d == 1:
            kwargs['default'] = 100 + i
        elif d == 2:
            kwargs['default_factory'] = lambda i=i: 100 + i
        if k == 'O':
            kwargs['kw_only'] = True
        if k == 'N':
            kwargs['init'] = False
        type_ = dataclasses.InitVar[int] if k == 'I' else int
        fields.append((NAMES[i], type_, dataclasses.field(**kwargs)))
    if initvars:
        def post(self, *values):
            self.initvars = dict(zip(initvars, values))
        ns['__post_init__'] = post
    return dataclasses.make_dataclass('Data', fields, namespace=ns)


def expected_fields(shape, mapping, sequence, ctor='dataclass'):
    mapping, sequence = dict(mapping), list(sequence)
    out = {}
    for i, (k, d) in enumerate(shape):
        name = NAMES[i]
        options = []
        if k != 'N':
            if k != 'O' and sequence:
                options.append(sequence.pop(0))
            if name in mapping:
                options.append(mapping.pop(name))
        if d:
            options.append(100 + i)
        if not options:
            raise Refuse('missing')
        out[name] = options[0]
    if mapping or sequence:
        raise Refuse('left over')
    return out


# ways to write the type of a key of a typed dict
QUALIFIERS = ('{}', 'Required[{}]', 'NotRequired[{}]', 'ReadOnly[{}]', 'Annotated[Required[{}], 5]', 'ReadOnly[NotRequired[{}]]')


class C06(Property):
    id = 'C06'
    bounds = (
        'every signature of <=3 parameters (positional only, either, keyword only; '
        'with and without default) with and without *args/**kwargs; every subset of '
        'named values in two orders and every number of positional values; every '
        'legal combination of call time arguments; the same for classes, dataclasses '
        '(keyword only, init-only, not-init fields), named tuples, typed dicts (also such that extend each other, with every qualifier), tuples; 13 kinds of '
        'callables as programs, with and without config type; programs with an attribute '
        'of every name their entry point has'
    )

    def setup(self, tier):
        self.calls = []

    def cases(self, tier):
        for shape in shapes(3 if tier == 'quick' else 4):
            for chunk in range(4):
                yield ('function', shape, chunk)
            yield ('class', shape)
        for shape in dataclass_shapes():
            yield ('dataclass', shape)
        for n in range(0, 4):
            for k in range(0, n + 1):
                yield ('namedtuple', n, k)
            for total in (0, 1):
                yield ('typeddict', n, total)
            yield ('tuple', n)
        for levels, n, quals in ((3, 2, QUALIFIERS), (2, 3, QUALIFIERS[:3])) if tier == 'quick' else ((3, 2, QUALIFIERS), (3, 3, QUALIFIERS)):
            for totals in itertools.product((True, False), repeat=levels):
                for first in itertools.product(range(levels), quals):
                    yield ('extended', totals, first, n, quals)
        for kind in KINDS:
            for config in (False, True):
                yield ('kinds', kind, config)
        own = sorted(x for x in dir(marsh.main(plain)) if not x.startswith('__'))
        for name in (*own, 'other', '__doc__'):
            for kind in ('function', 'class', 'field', 'config'):
                yield ('attributes', kind, name)

    def case(self, case, stats):
        getattr(self, case[0])(stats, *case[1:])

    def function(self, stats, shape, chunk):
        del self.calls[:]
        fn = make(shape, 'function', self.calls)
        entry = marsh.main(fn)
        for i, (mapping, sequence) in enumerate(inputs(shape)):
            if i % 4 != chunk:
                continue
            for args, kwargs in call_inputs(shape):
                self.run(stats, shape, fn, entry, mapping, sequence, args, kwargs)
            self.direct(stats, shape, fn, mapping, sequence)

    def kinds(self, stats, kind, config):
        """Any callable is a program."""
        fn = KINDS[kind]()
        forms = [marsh.main(fn, config=Conf if config else None), marsh.main(config=Conf if config else None)(fn)]
        if not config:
            forms += [marsh.main(fn), marsh.main(fn, config=marsh.MISSING)]
        for entry in forms:
            for name in ('__name__', '__doc__', '__module__', '__qualname__'):
                require(name not in vars(fn) if not hasattr(fn, name) else getattr(entry, name) == getattr(fn, name), lambda: f'{kind}: {name} is {getattr(entry, name)!r}')
            require(entry.__wrapped__ is fn, lambda: f'{kind}: wrapped')
            for argv, want in (
                (['a=3'], (3, 'x', (), {})), (['a=3', 'b=q'], (3, 'q', (), {})), (['=[3,q,1.5]'], (3, 'q', (1.5,), {})), (['a=3', 'z=4'], (3, 'x', (), {'z': 4})),
                (['b=q'], None), (['a=x'], None), (['=[]'], None), ([], None),
            ):
                if config:
                    # one parameter takes the configuration
                    want = want and not want[3] and not want[2] and ((want[0], want[1]),)
                    if argv[:1] and argv[0][0] == '=':
                        continue
                    want = want and (Conf(*want[0]), 'x', (), {})
                if kind == 'partial default' and len(want or ()) and want[2]:
                    continue    # b can only be given by name
                o = cli.run(entry, argv)
                stats.step()
                stats.traces += 1
                if want:
                    got = o.value if isinstance(o.value, tuple) else getattr(o.value, 'v', None)
                    require(o.exit is None and o.error is None and got == want, lambda: f'{kind} {argv}: {o.brief()} gives {o.value!r}, expected {want}')
                else:
                    require(o.exit == 1, lambda: f'{kind} {argv}: {o.brief()} gives {o.value!r}, expected an error')
                if want and config:
                    require(entry(want[0]) == want if isinstance(o.value, tuple) else entry(want[0]).v == want, lambda: f'{kind}: called directly')

    def attributes(self, stats, kind, name):
        """Attributes of a program do not get in the way of its entry point."""
        if kind == 'function' or kind == 'config':
            def fn(a: int = 1):
                return (a,)
            if kind == 'config':
                def fn(a):   # noqa: F811
                    return (a.a,)
            setattr(fn, name, 'mine')
        elif kind == 'class':
            def init(self, a: int = 1):
                self.v = (a,)
            fn = type('Prog', (), {'__init__': init, name: 'mine'})
        else:
            if name == '__doc__':
                return
            fn = dataclasses.make_dataclass('Prog', [('a', int, 1), (name, str, 'mine')], namespace={'v': property(lambda self: (self.a,))})
        entry = marsh.main(fn, config=Conf if kind == 'config' else None)
        plain = ['-h'], ['a=3'], ['-h', 'a'], ['-h', 'nope'], ['a=x'], ['--config-out', '-', 'a=4'], ['@nope'], ['nope=1']
        seen = []
        for argv in plain:
            o = cli.run(entry, argv)
            stats.step()
            stats.traces += 1
            value = getattr(o.value, 'v', o.value)
            seen.append((o.exit, type(o.error).__name__, value))
            if argv == ['-h'] and name != '__doc__':
                require('a: <int>' in o.out and (kind == 'field') == ('mine' in o.out), lambda: f'{kind} with {name}: help {o.out!r}')
            if argv[0] == '-h' and name == '__doc__' and len(argv) == 1 and kind in ('function', 'class'):
                require('mine' in o.out, lambda: f'{kind} with {name}: help {o.out!r}')
        ok = lambda v: (None, 'NoneType', v)
        end = lambda n: (n, 'NoneType', None)
        want = [end(0), ok((3,)), end(0), end(1), end(1), ok((4,)), end(1), end(1)]
        require(seen == want, lambda: f'{kind} with an attribute {name}: {plain} end with {seen}, expected {want}')
        require(getattr(entry, '__wrapped__') is fn, 'wrapped')
        if name == 'other':
            require(entry.other == 'mine', lambda: f'{kind}: the attribute of the program is lost')

    def run(self, stats, shape, fn, entry, mapping, sequence, args, kwargs):
        if sequence:
            argv = ['=[' + ','.join(map(str, sequence)) + ']']
        else:
            argv = [f'{k}={v}' for k, v in mapping.items()]
        try:
            want = expected(shape, mapping, sequence, args, kwargs)
        except Refuse as err:
            want = err
        del self.calls[:]
        o = cli.run(entry, argv, args, kwargs)
        stats.step()
        stats.traces += 1
        stats.distinct()
        what = lambda: (
            f'signature {shape} called with {args} {kwargs} and command line {argv}: ')
        if isinstance(want, Refuse):
            require(o.error is None and o.exit == 1 and not self.calls,
                    lambda: what() + f'expected a refusal ({want}), got {o.brief()} '
                                     f'and calls {self.calls}')
        else:
            require(o.error is None and o.exit is None and o.value == 'returned'
                    and self.calls == [want],
                    lambda: what() + f'expected one call with {want}, got {self.calls} '
                                     f'and {o.brief()}')
        stats.outcome(repr(want))

    def direct(self, stats, shape, fn, mapping, sequence):
        element = list(sequence) if sequence else dict(mapping)
        try:
            want = expected(shape, mapping, sequence, (), {})
        except Refuse as err:
            want = err
        what = lambda: f'signature {shape} with element {element}: '
        stats.step()
        try:
            got = marsh.unmarshal_args(fn, element)
        except errors.UnmarshalError as err:
            require(isinstance(want, Refuse), lambda: what() + f'refused with {err!r}, expected {want}')
            return
        require(not isinstance(want, Refuse), lambda: what() + f'accepted as {got}, expected {want}')
        del self.calls[:]
        fn(*got.args, **got.kwargs)
        require(self.calls == [want], lambda: what() + f'{got} binds {self.calls}, expected {want}')

    def classes(self, stats, type_, element, want, read, what):
        stats.step()
        stats.traces += 1
        stats.distinct()
        try:
            got = marsh.unmarshal(type_, element)
        except errors.UnmarshalError as err:
            require(isinstance(want, Refuse), lambda: what() + f'refused with {err!r}, expected {want}')
            stats.outcome('refused')
            return
        require(not isinstance(want, Refuse), lambda: what() + f'gave {read(got)}, expected a refusal')
        require(read(got) == want, lambda: what() + f'gave {read(got)}, expected {want}')
        stats.outcome(repr(want))

    def try_expected(self, fn, *args):
        try:
            return fn(*args)
        except Refuse as err:
            return err

    def class_(self, stats, shape):
        cls = make(shape, 'class', self.calls)
        for mapping, sequence in inputs(shape):
            element = list(sequence) if sequence else dict(mapping)
            want = self.try_expected(expected, shape, mapping, sequence, (), {})
            self.classes(stats, cls, element, want, lambda v: v.got,
                         lambda: f'class with signature {shape} from {element}: ')

    def dataclass(self, stats, shape):
        cls = make_dataclass(shape)
        flat = tuple((k, d) for k, d in shape)
        for mapping, sequence in inputs((flat, 0, 0)):
            element = list(sequence) if sequence else dict(mapping)
            want = self.try_expected(expected_fields, shape, mapping, sequence)

            def read(v):
                out = {}
                for i, (k, d) in enumerate(shape):
                    out[NAMES[i]] = (
                        v.initvars[NAMES[i]] if k == 'I' else getattr(v, NAMES[i]))
                return out
            self.classes(stats, cls, element, want, read,
                         lambda: f'dataclass {shape} from {element}: ')

    def namedtuple(self, stats, n, k):
        shape = tuple(('F', int(i >= n - k)) for i in range(n))
        import collections
        src = 'class Named(NamedTuple):\n' + ''.join(
            f'    {NAMES[i]}: int' + (f' = {100 + i}' if shape[i][1] else '') + '\n'
            for i in range(n)) + ('    pass\n' if not n else '')
        ns = {'NamedTuple': NamedTuple}
        exec(src, ns)
        cls = ns['Named']
        for mapping, sequence in inputs((shape, 0, 0)):
            element = list(sequence) if sequence else dict(mapping)
            want = self.try_expected(expected_fields, shape, mapping, sequence)
            self.classes(stats, cls, element, want, lambda v: v._asdict(),
                         lambda: f'named tuple {shape} from {element}: ')

    def typeddict(self, stats, n, total):
        shape = tuple(('F', 0) for i in range(n))
        cls = TypedDict('Typed', {NAMES[i]: int for i in range(n)}, total=bool(total))
        for mapping, sequence in inputs((shape, 0, 0)):
            element = list(sequence) if sequence else dict(mapping)
            want = self.try_expected(expected_fields, shape, mapping, sequence)
            if not total and isinstance(want, Refuse) and str(want) == 'missing':
                want = dict(zip(NAMES, sequence)) if sequence else dict(mapping)
                if set(want) - set(NAMES[:n]):
                    want = Refuse('unknown')
            self.classes(stats, cls, element, want, dict,
                         lambda: f'typed dict {n} total={total} from {element}: ')

    def extended(self, stats, totals, first, n, quals):
        """Typed dicts that extend each other, in one line or two lines that meet."""
        import typing
        import typing_extensions
        for rest in itertools.product(itertools.product(range(len(totals)), quals), repeat=n - 1):
            fields = (first, *rest)
            for typed, text, line in itertools.product((typing.TypedDict, TypedDict), (False, True), (False, True)):
                if typed is typing.TypedDict and any('ReadOnly' in q for _, q in fields):
                    continue
                ns = {**vars(typing), **vars(typing_extensions), 'TypedDict': typed}
                src = 'from __future__ import annotations\n' if text else ''
                for i, total in enumerate(totals):
                    last = i == len(totals) - 1
                    bases = 'TypedDict' if not i or not line and not last else f'T{i - 1}' if line else ', '.join(f'T{j}' for j in range(i))
                    src += f'class T{i}({bases}, total={total}):\n' + ''.join(
                        f'    {NAMES[j]}: {q.format("int")}\n' for j, (level, q) in enumerate(fields) if level == i) + '    pass\n'
                exec(compile(src, 'typed', 'exec', dont_inherit=True), ns)
                cls = ns[f'T{len(totals) - 1}']
                required = {
                    NAMES[j] for j, (level, q) in enumerate(fields) if 'NotRequired' not in q and (totals[level] or 'Required' in q)
                }
                for mask in range(2 ** n):
                    given = {NAMES[j]: 20 + j for j in range(n) if mask >> j & 1}
                    want = dict(given) if required <= set(given) else Refuse('missing')
                    self.classes(stats, cls, given, want, dict, lambda: f'{src} from {given}: ')

    def tuple(self, stats, n):
        import typing
        cls = typing.Tuple[(int,) * n] if n else typing.Tuple[()]
        for m in range(0, n + 2):
            element = [20 + i for i in range(m)]
            want = tuple(element) if m == n else Refuse('length')
            self.classes(stats, cls, element, want, lambda v: v,
                         lambda: f'tuple of {n} from {element}: ')
            element = {str(i): 20 + i for i in range(m)}
            if m:
                self.classes(stats, cls, element, Refuse('mapping'), lambda v: v,
                             lambda: f'tuple of {n} from {element}: ')


# the method of the 'class' cases can not be named so in python
setattr(C06, 'class', C06.class_)

PROPERTY = C06()
