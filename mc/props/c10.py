"""C10: conversions between primitive values never lose information."""
import fractions
import itertools
import math

from mc import types_model as tm
from mc.core import Property, require
from mc.types_model import Bad

import marsh
from marsh import errors, utils


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyStr(str):
    pass


KINDS = {'int': int, 'float': float, 'bool': bool, 'str': str}
OWN = {'int': MyInt, 'float': MyFloat, 'str': MyStr}
NUMERIC = '019.-+e_ '
LETTERS = 'truefalsynoTNYE01'
WORDS = ('1', 'true', 'y', 'yes', 'on', '0', 'false', 'n', 'no', 'off')
NUMBERS = [0, 1, -1, 2, 10, 2 ** 31, 2 ** 53, 2 ** 53 + 1, -2 ** 63, 10 ** 22, 10 ** 40, True, False] + [
    0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, 1e-5, 1e15, 1e16, 2.0 ** 53, 1e22, 1e300, 0.1, 1 / 3, 5e-324,
    math.inf, -math.inf, math.nan, 3.0000000000000004, 0.9999999999999999,
]


class C10(Property):
    id = 'C10'
    bounds = (
        'every text of <=5 (thorough <=6) characters over 9 numeric characters, every text '
        'of <=4 (5) letters of the boolean words, every case variant of these words, '
        'and 34 numbers, converted to each primitive type and to subclasses'
    )

    def cases(self, tier):
        n = 5 if tier == 'quick' else 6
        for kind in KINDS:
            yield ('numbers', kind)
            yield ('words', kind)
        for k in range(0, 3):
            for head in itertools.product(NUMERIC, repeat=k):
                if k < 2:
                    yield ('text', ''.join(head), NUMERIC, 0)
                else:
                    yield ('text', ''.join(head), NUMERIC, n - 2)
        alphabet = ''.join(sorted(set(LETTERS)))
        for c in alphabet:
            yield ('text', c, alphabet, 3 if tier == 'quick' else 4)

    def case(self, case, stats):
        if case[0] == 'numbers':
            for v in NUMBERS + [str(v) for v in NUMBERS]:
                self.one(case[1], v, stats)
        elif case[0] == 'words':
            for w in WORDS:
                for case_of in itertools.product((str.lower, str.upper), repeat=len(w)):
                    text = ''.join(f(c) for f, c in zip(case_of, w))
                    for v in (text, ' ' + text, text + ' ', text + 'x', text[:-1]):
                        self.one(case[1], v, stats)
        else:
            _, head, alphabet, depth = case
            for k in range(depth + 1):
                for tail in itertools.product(alphabet, repeat=k):
                    for kind in KINDS:
                        self.one(kind, head + ''.join(tail), stats)
        stats.traces += 1

    def one(self, kind, v, stats):
        t = KINDS[kind]
        stats.step()
        stats.distinct()
        try:
            want = tm.cast(kind, v)
        except Bad:
            want = None
        if len(repr(v)) > 3 and hash(repr(v)) % 3 and kind != 'int':
            routes = (lambda: marsh.unmarshal(t, v),)
        else:
            routes = (
                lambda: marsh.unmarshal(t, v), lambda: utils.cast_primitive(t, v),
                lambda: marsh.cast(t, v),
            )
        for i, route in enumerate(routes):
            if i != 1 and utils.is_missing(v):
                continue
            where = lambda: f'converting {v!r} to {kind} (route {i})'
            try:
                got = route()
            except (errors.UnmarshalError, ValueError) as err:
                # everything but int -> float beyond the largest float
                require(want is None, lambda: f'{where()} was refused ({err}), expected {want!r}')
                continue
            except OverflowError:
                require(want is None and i == 1, lambda: f'{where()} raised OverflowError')
                continue
            require(want is not None, lambda: f'{where()} gave {got!r}, expected a refusal')
            require(type(got) is t, lambda: f'{where()} gave a {type(got)}')
            require(repr(got) == repr(want), lambda: f'{where()} gave {got!r}, expected {want!r}')
        stats.outcome(repr(want))
        if want is None or (isinstance(want, float) and not math.isfinite(want)):
            return
        # the value is kept: compared as an exact number, independent of int()/float()
        if kind == 'int' and not isinstance(v, bool):
            exact = fractions.Fraction(v.strip()) if isinstance(v, str) else fractions.Fraction(v)
            if abs(exact) < 2 ** 53 or not isinstance(v, str) or v.strip().lstrip('+-').isdigit():
                require(exact == want, lambda: f'{v!r} became the integer {want!r}')
        if kind in OWN:
            own = utils.cast_primitive(OWN[kind], v)
            require(type(own) is OWN[kind] and t(own) == want, lambda: f'{v!r} became {own!r} of {type(own)}')
            require(
                type(marsh.marshal(own)) is t and repr(marsh.marshal(own)) == repr(want),
                lambda: f'{own!r} was marshaled into {marsh.marshal(own)!r}')
        # what is written as text reads back
        if not isinstance(want, str):
            back = marsh.unmarshal(t, str(want))
            require(repr(back) == repr(want), lambda: f'{kind} {want!r} as text reads back as {back!r}')


PROPERTY = C10()
