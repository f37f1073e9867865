"""C20: errors, error handlers and the helpers for tests tell exactly what failed."""
import copy
import dataclasses
import itertools
import os
import pickle
from typing import Any, Dict, List, NamedTuple, Optional, Tuple, Union

import pytest

from mc.core import Property, require

import marsh
import marsh.testing
from marsh import errors


class Own(errors.MarshError):
    """An error of somebody else."""


class Slashed(errors.UnmarshalError):
    delimiter = '/'


CLASSES = {
    'marsh': errors.MarshError, 'path': errors.PathError, 'unmarshal': errors.UnmarshalError, 'missing': errors.MissingValueError,
    'marshal': errors.MarshalError, 'config': errors.ConfigFileError, 'own': Own, 'slashed': Slashed,
    'value': ValueError, 'key': KeyError, 'type': TypeError, 'lookup': LookupError, 'os': FileNotFoundError, 'zero': ZeroDivisionError,
}
MARSH = ('marsh', 'path', 'unmarshal', 'missing', 'marshal', 'config', 'own', 'slashed')
FOREIGN = ('value', 'key', 'type', 'lookup', 'os', 'zero')
TYPED = ('unmarshal', 'missing', 'slashed')
LINKS = ('from', 'while')           # the two ways in which one error follows from another


def thrown(chain, detached=False):
    """Raise the first error of the chain: each is caused by the next one."""
    (kind, link), rest = chain[0], chain[1:]
    error = CLASSES[kind](f'{kind} {len(rest)}')
    if not rest:
        raise error
    if link == 'from' and detached:
        try:
            thrown(rest, detached)
        except Exception as exc:
            cause = exc
        cause.__traceback__ = None
        raise error from cause
    try:
        thrown(rest, detached)
    except Exception as cause:
        if link == 'from':
            raise error from cause
        raise error


def caught(f):
    """The error or what was returned."""
    try:
        return None, f()
    except BaseException as exc:     # pytest's Failed is no Exception
        return exc, None


@dataclasses.dataclass
class Data:
    a: int
    b: List[int] = dataclasses.field(default_factory=list)


class Pair(NamedTuple):
    x: int
    y: Optional[str] = None


TYPES = {
    'int': int, 'str': str, 'list': List[int], 'dict': Dict[str, int], 'data': Data, 'pair': Pair, 'union': Union[int, List[str]], 'tuple': Tuple[int, str],
    'optional': Optional[Data], 'any': Any,
}
ELEMENTS = (1, '1', 'x', None, marsh.MISSING, True, 1.5, [], [1], ['1', 2], (1, 2), [1, 'x'], {}, {'a': 1}, {'a': '1', 'b': [2]}, {'a': 1, 'b': ['x']}, {'x': 2, 'y': 'q'}, {'z': 1}, [[1]])
VALUES = (
    1, '1', 'x', None, True, 1.0, 1.5, [], [1], ['1', 2], [1, 2], (1, 2), (1, 'x'), [1, 'x'], {}, {'a': 1}, {'a': 1, 'b': []}, {'a': 1, 'b': [2]},
    Data(1), Data(1, [2]), Pair(2, 'q'), Pair(1), {'x': 2, 'y': 'q'}, {'x': 1, 'y': None}, {'z': 1}, [[1]], [(1,)], {'b': [2], 'a': 1}, {'a': 1, 'b': (2,)},
    '???', object(), lambda: 0, [object()], {'a': object()},
)
EXCEPTIONS = (None, ValueError, KeyError, TypeError, errors.MarshError, errors.UnmarshalError, errors.MissingValueError, errors.MarshalError, Exception)


def flat(element):
    """The element with every sequence as a list."""
    if isinstance(element, dict):
        return {k: flat(v) for k, v in element.items()}
    if isinstance(element, (list, tuple)):
        return [flat(v) for v in element]
    return element


def chain_of(error):
    out, todo = [], [error]
    while todo:
        one = todo.pop()
        if one is not None and not any(one is o for o in out):
            out.append(one)
            todo += [one.__cause__, one.__context__]
    return out


class C20(Property):
    id = 'C20'
    bounds = (
        f'every chain of up to three (thorough four) out of {len(CLASSES)} kinds of errors, linked explicitly, later or implicitly, with messages, paths and types, also '
        'copied, pickled and passed on through up to two named places; every pair of nested handlers for every set of errors with full errors asked for or not; '
        f'every chain in the helper for causes with every base and cause; {len(TYPES)} types, {len(ELEMENTS)} elements and {len(VALUES)} values in every helper for tests '
        'with every expected result and cause'
    )

    def cases(self, tier):
        quick = tier == 'quick'
        for n in range(1, 4 if quick else 5):
            for kinds in itertools.product(('unmarshal', 'missing', 'own', 'value', 'key', 'os') if n > 2 else CLASSES, repeat=n):
                if n > 3 and kinds[0] not in MARSH:
                    continue
                for links in itertools.product(LINKS, repeat=n - 1):
                    yield 'chain', tuple(zip(kinds, links + ('',)))
        for inner, outer in itertools.product(range(len(FILTERS)), repeat=2):
            for kind in CLASSES:
                yield 'handler', inner, outer, kind
        for t in TYPES:
            for e in range(len(ELEMENTS)):
                yield 'unmarshal', t, e
        for v in range(len(VALUES)):
            yield 'marshal', v

    def case(self, case, stats):
        stats.distinct()
        stats.traces += 1
        old = os.environ.pop('MARSH_FULL_ERROR', None)
        try:
            getattr(self, case[0])(*case[1:], stats)
        finally:
            os.environ.pop('MARSH_FULL_ERROR', None)
            if old is not None:
                os.environ['MARSH_FULL_ERROR'] = old

    def chain(self, chain, stats):
        if chain[0][0] in MARSH:
            self.text(chain, stats)
        for detached in (False, True):
            error, _ = caught(lambda: thrown(chain, detached))
            for base in (None, errors.MarshError, errors.UnmarshalError, ValueError, LookupError, Exception):
                for cause in EXCEPTIONS + (OSError,):
                    kwargs = {k: v for k, v in (('base', base), ('cause', cause)) if v is not None}

                    def run():
                        with marsh.testing.catch_cause(**kwargs):
                            thrown(chain, detached)

                    got, _ = caught(run)
                    stats.step()
                    what = lambda: f'catch_cause({kwargs}) of {chain} detached {detached}: {got!r}'
                    if not isinstance(error, base or errors.MarshError):
                        require(type(got) is type(error) and got.args == error.args, what)
                    elif cause is None or any(issubclass(CLASSES[kind], cause) for kind, _ in chain):
                        require(got is None, what)
                    else:
                        require(type(got) is AssertionError, what)
                    stats.outcome((chain, type(got)))

    def text(self, chain, stats):
        kind = chain[0][0]
        for message, path, type_, element in itertools.product(
            ((), ('first',), ('first', 2), ('two\nlines',)), ('', 'a', 'a.b', '"a.b".0'), (None, int, List[int], Data), (None, 1, {'q': 'elem'}),
        ):
            if kind in TYPED:
                if len(message) > 1:
                    continue
                kwargs = {k: v for k, v in (('path', path), ('type', type_), ('element', element)) if v is not None}
            elif type_ is not None or element is not None:
                continue
            else:
                kwargs = {'path': path} if path else {}
            for fields in ((), ('f',), ('f', 'g'), (0, ''), ('d.d', '')):
                def run():
                    with passing(fields):
                        error = CLASSES[kind](*message, **kwargs)
                        if len(chain) == 1:
                            raise error
                        try:
                            thrown(chain[1:])
                        except Exception as cause:
                            if chain[0][1] == 'from':
                                raise error from cause
                            raise error

                got, _ = caught(run)
                stats.step()
                require(type(got) is CLASSES[kind], f'{chain} through {fields} is {got!r}')
                names = [str(f) for f in fields if str(f)]
                named = marsh.path.split(got.path, CLASSES[kind].delimiter)
                want = names + (list(marsh.path.split(path, CLASSES[kind].delimiter)) if path else [])
                require(list(named) == list(want), f'{chain} at {path!r} passed on through {fields} has the path {got.path!r}')
                # what is told: the message, the path, the first foreign cause and the type
                cause, link = None, chain[0][1]
                for n, (k, next_) in enumerate(chain[1:], 1):
                    if link != 'from':
                        break
                    if k in FOREIGN:
                        cause = f'{k} {len(chain) - n - 1}'
                        break
                    link = next_
                told = [line.strip() for line in str(got).split('\n')]
                start = ', '.join(map(str, message))
                require(str(got).startswith(start), f'{chain} with {message}: {got}')
                rest = [line.strip() for line in str(got)[len(start):].split('\n')]
                want = [''] + [f'path: {got.path}'] * bool(got.path)
                if cause is not None:
                    want.append(f"cause: '{cause}'" if k == 'key' else f'cause: {cause}')
                if kind in TYPED and type_ is not None:
                    want.append(f'type: {marsh.utils.get_type_name(type_)}')
                require(rest == want, f'{chain} with {message} {kwargs} through {fields} is told as {str(got)!r}, expected {want} after the message')
                require(type(got).__name__ in repr(got) and (not told[0] or told[0] in repr(got)), f'{chain}: repr {got!r}')
                if kind in TYPED and element is not None:
                    require(str(element) in got.pretty(element=True) and 'elem' not in str(got), f'{chain}: {got.pretty(element=True)}')
                for again in (copy.copy(got), pickle.loads(pickle.dumps(got))):
                    require(type(again) is type(got) and again.args == got.args and vars(again) == vars(got), f'{chain}: a copy is {again!r} with {vars(again)}')
                    require(got.pretty() == again.pretty(), f'{chain}: a copy is told as {again.pretty()!r}')

    def handler(self, inner, outer, kind, stats):
        for full, raised, callback in itertools.product((None, '', '1', '0'), (True, False), ('pass', 'again', 'other')):
            if full is None:
                os.environ.pop('MARSH_FULL_ERROR', None)
            else:
                os.environ['MARSH_FULL_ERROR'] = full
            calls = []
            error = CLASSES[kind]('it')

            def first(err):
                calls.append(('inner', err))
                if callback == 'again':
                    raise err
                if callback == 'other':
                    raise ZeroDivisionError('other')

            def run():
                with errors.maybe_handle_error(lambda err: calls.append(('outer', err)), *FILTERS[outer]):
                    with errors.maybe_handle_error(first, *FILTERS[inner]):
                        if raised:
                            raise error
                    return 'went on'

            got, result = caught(run)
            stats.step()
            hits = lambda filter_, err: not full and isinstance(err, filter_[0] if filter_ else errors.MarshError)
            expect, now = [], error if raised else None
            if now is not None and hits(FILTERS[inner], now):
                expect.append(('inner', now))
                now = {'pass': None, 'again': now, 'other': ZeroDivisionError}[callback]
            went_on = now is None
            if now is ZeroDivisionError:
                now = calls and caught_error(calls, got) or ZeroDivisionError('other')
            if now is not None and hits(FILTERS[outer], now):
                expect.append(('outer', now))
                now = None
            what = lambda: f'{FILTERS[inner]} in {FILTERS[outer]}, {kind} raised {raised}, full {full!r}, {callback}: {calls}, {got!r}, {result!r}'
            require([c for c, _ in calls] == [c for c, _ in expect] and all(a is b or type(a) is type(b) is ZeroDivisionError for (_, a), (_, b) in zip(calls, expect)), what)
            require((got is None) == (now is None) and type(got) is type(now) and (result == 'went on') == went_on, what)

    def unmarshal(self, t, e, stats):
        type_, element = TYPES[t], ELEMENTS[e]
        error, result = caught(lambda: marsh.unmarshal(type_, element))
        for value in VALUES:
            got, res = caught(lambda: marsh.testing.unmarshal_succeeds(type_, element, value))
            stats.step()
            what = lambda: f'unmarshal_succeeds({t}, {element!r}, {value!r}): {got!r} {res!r}'
            if error is not None:
                require(isinstance(got, errors.UnmarshalError), what)
            elif result == value:
                require(got is None and res == result and type(res) is type(result), what)
            else:
                require(type(got) is AssertionError, what)
        for exception in EXCEPTIONS:
            got, _ = caught(lambda: marsh.testing.unmarshal_fails(type_, element, *([exception] if exception else [])))
            stats.step()
            what = lambda: f'unmarshal_fails({t}, {element!r}, {exception}): {got!r}'
            if error is None:
                require(isinstance(got, pytest.fail.Exception), what)
            elif exception is None or any(isinstance(one, exception) for one in chain_of(error)):
                require(got is None, what)
            else:
                require(type(got) is AssertionError, what)
            stats.outcome((t, e, type(got)))

    def marshal(self, v, stats):
        value = VALUES[v]
        error, result = caught(lambda: marsh.marshal(value))
        for element in VALUES:
            got, res = caught(lambda: marsh.testing.marshal_succeeds(value, element))
            stats.step()
            what = lambda: f'marshal_succeeds({value!r}, {element!r}): {got!r} {res!r}'
            if error is not None:
                require(isinstance(got, errors.MarshalError), what)
            elif flat(result) == flat(element):
                require(got is None and flat(res) == flat(result), what)
            elif not isinstance(element, Pair):
                require(type(got) is AssertionError, what)
        for exception in EXCEPTIONS:
            got, _ = caught(lambda: marsh.testing.marshal_fails(value, *([exception] if exception else [])))
            stats.step()
            what = lambda: f'marshal_fails({value!r}, {exception}): {got!r}'
            if error is None:
                require(isinstance(got, pytest.fail.Exception), what)
            elif exception is None or any(isinstance(one, exception) for one in chain_of(error)):
                require(got is None, what)
            else:
                require(type(got) is AssertionError, what)


FILTERS = ((), (errors.MarshError,), (errors.UnmarshalError,), ((ValueError, errors.MissingValueError),), (LookupError,), (BaseException,), (OSError,), (ZeroDivisionError,))


def caught_error(calls, got):
    """The error that a callback raised, wherever it ended up."""
    return got if isinstance(got, ZeroDivisionError) else next((e for c, e in calls if c == 'outer'), None)


class passing:
    """The places that an error passes."""

    def __init__(self, fields):
        self.managers = [errors.prepend(f) for f in fields]

    def __enter__(self):
        for m in self.managers:
            m.__enter__()

    def __exit__(self, *exc):
        # from the inside to the outside
        for n, m in enumerate(reversed(self.managers)):
            try:
                m.__exit__(*exc)
            except BaseException as error:
                exc = (type(error), error, error.__traceback__)
        return False


PROPERTY = C20()
