"""C29: a type that is given as text means what it means where it is written."""
import itertools
import sys
import types
import typing
from typing import Any

from mc.core import Property, require

import marsh
from marsh import errors

HEAD = '''
import collections, dataclasses, enum, typing
import typing_extensions as te
from typing import *
from typing_extensions import Annotated, TypedDict
'''
# the text of an annotation -> (element that holds the one of a leaf, place of the leaf in the value, path of the leaf)
FORMS = {
    "'L'": (lambda e: e, lambda v: v, ''),
    "ForwardRef('L')": (lambda e: e, lambda v: v, ''),
    "List['L']": (lambda e: [e], lambda v: v[0], '0'),
    "'List[L]'": (lambda e: [e], lambda v: v[0], '0'),
    "list['L']": (lambda e: [e], lambda v: v[0], '0'),
    "'list[\"L\"]'": (lambda e: [e], lambda v: v[0], '0'),
    "Optional['L']": (lambda e: e, lambda v: v, ''),
    "'Optional[L]'": (lambda e: e, lambda v: v, ''),
    "'L | None'": (lambda e: e, lambda v: v, ''),
    "Union[Literal['nothing'], 'L']": (lambda e: e, lambda v: v, ''),
    "Dict[str, 'L']": (lambda e: {'k': e}, lambda v: v['k'], 'k'),
    "'Dict[\"str\", \"List[L]\"]'": (lambda e: {'k': [e]}, lambda v: v['k'][0], 'k.0'),
    "Tuple[int, 'L']": (lambda e: [1, e], lambda v: v[1], '1'),
    "Tuple['L', ...]": (lambda e: [e], lambda v: v[0], '0'),
    "Annotated['L', 'note']": (lambda e: e, lambda v: v, ''),
    "'Annotated[List[L], 5]'": (lambda e: [e], lambda v: v[0], '0'),
    "List[Dict[str, Optional['L']]]": (lambda e: [{'k': e}], lambda v: v[0]['k'], '0.k'),
    "Deque['Optional[L]']": (lambda e: [e], lambda v: v[0], '0'),
    "Alias": (lambda e: [e], lambda v: v[0], '0'),
    "'Alias'": (lambda e: [e], lambda v: v[0], '0'),
    "Optional['Alias']": (lambda e: [e], lambda v: v[0], '0'),
    "'AliasAlias'": (lambda e: [[e]], lambda v: v[0][0], '0.0'),
    'TV': (lambda e: e, lambda v: v, ''),
    "List['TV']": (lambda e: [e], lambda v: v[0], '0'),
    "Optional[TW]": (lambda e: e, lambda v: v, ''),
    "Dict[str, TX]": (lambda e: {'k': [e]}, lambda v: v['k'][0], 'k.0'),
    "'Outer.L'": (lambda e: {'o': e['leaf']}, lambda v: v, ''),
    "List['Outer.L']": (lambda e: [{'o': e['leaf']}], lambda v: v[0], '0'),
}
OTHER = {   # the leaf of the other module
    "'other.L'": FORMS["'L'"], "List['other.L']": FORMS["List['L']"], "'Dict[str, other.L]'": (lambda e: {'k': e}, lambda v: v['k'], 'k'),
    "Optional['other.L']": FORMS["'L'"], "'Imported'": FORMS["'L'"], "Tuple['Imported', ...]": FORMS["List['L']"], 'ForwardRef("other.L")': FORMS["'L'"],
}
# ways to write a structure with a field x: (source, how to ask for it, whether it is a type)
KINDS = {
    'dataclass': '@dataclasses.dataclass\nclass Holder:\n    x: T\n    w: int = 3\n',
    'factory': '@dataclasses.dataclass\nclass Holder:\n    x: T = dataclasses.field(default_factory=lambda: None)\n',
    'keyword': '@dataclasses.dataclass\nclass Holder:\n    w: int = 5\n    x: T = dataclasses.field(kw_only=True)\n',
    'initvar': '@dataclasses.dataclass\nclass Holder:\n    w: int = 1\n    x: dataclasses.InitVar[T] = None\n    def __post_init__(self, x):\n        self.x = x\n',
    'namedtuple': 'class Holder(NamedTuple):\n    x: T\n    w: int = 3\n',
    'typeddict': 'class Holder(TypedDict):\n    x: T\n',
    'partial': 'class Holder(TypedDict, total=False):\n    x: T\n',
    'required': 'class Holder(TypedDict, total=False):\n    x: te.Required[T]\n',
    'class': 'class Holder:\n    def __init__(self, w: int = 2, *, x: T):\n        self.x = x\n',
    'generic': 'K = TypeVar("K")\nclass Holder(Generic[K]):\n    def __init__(self, x: T):\n        self.x = x\n',
    'new': 'class Holder:\n    def __new__(cls, x: T):\n        self = object.__new__(cls)\n        self.x = x\n        return self\n',
    'slots': '@dataclasses.dataclass(slots=True)\nclass Holder:\n    x: T\n',
    'frozen': '@dataclasses.dataclass(frozen=True)\nclass Holder:\n    x: T\n',
    'function': 'def Holder(x: T):\n    pass\n',
    'keywords': 'def Holder(w=1, **x: T):\n    pass\n',
    'method': 'class Of:\n    def m(self, x: T):\n        pass\nHolder = Of().m\n',
    'instance': 'class Of:\n    def __call__(self, x: T):\n        pass\nHolder = Of()\n',
    'wrapped': 'import functools\ndef inner(x: T):\n    pass\n@functools.wraps(inner)\ndef Holder(*a, **k):\n    return inner(*a, **k)\n',
    'partial function': 'import functools\ndef inner(y: int, x: T):\n    pass\nHolder = functools.partial(inner, 5)\n',
}
ASKED = ('function', 'keywords', 'method', 'instance', 'wrapped', 'partial function')
# where nothing but the text is known
ABSOLUTE = ("ForwardRef('M.L')", "List['M.L']", "Optional[List['M.L']]", "ForwardRef('M.Outer.L')", "List['M.Outer.L']")
BASES = ('dataclass', 'typeddict', 'class', 'factory', 'keyword', 'initvar')
HEIRS = ('dataclass', 'factory', 'keyword', 'initvar', 'class', 'new', 'slots', 'frozen', 'required', 'namedtuple')
LEAVES = {
    'dataclass': '@dataclasses.dataclass\nclass L:\n    FIELD: int\n',
    'enum': 'class L(enum.Enum):\n    FIELD = 1\n',
    'alias': '@dataclasses.dataclass\nclass Real:\n    FIELD: int\nL = Real\n',
    'namedtuple': 'class L(NamedTuple):\n    FIELD: int\n',
    'int': 'class L(int):\n    def __new__(cls, v):\n        if (v > 50) != ("FIELD" == "b"):\n            raise ValueError("not mine")\n        return int.__new__(cls, v)\n',
}
NUMBER = itertools.count()


def load(name, source, **given):
    module = types.ModuleType(name)
    module.__dict__.update(given)
    sys.modules[name] = module
    exec(compile(source, name, 'exec', dont_inherit=True), module.__dict__)
    return module


def structure(kind, form, self_name, other_name, future):
    text = form.replace('SELF', self_name).replace('OTHER', other_name)
    source = KINDS[kind].replace(': T', ': ' + text).replace('[T]', '[' + text + ']')
    return source


def element(leaf, field):
    return {'enum': field, 'int': 99 if field == 'b' else 7}.get(leaf, {field: 7})


class Pair:
    """Two modules with a structure each, in which the same text means another type."""

    def __init__(self, kind, form, leaf, late, future):
        n = next(NUMBER)
        self.names = f'mc_forward_a{n}', f'mc_forward_b{n}'
        self.leaf, self.kind = leaf, kind
        self.modules = []
        alias = "Alias = List['L']\nAliasAlias = List['Alias']\nTV = TypeVar('TV', bound='L')\nTW = TypeVar('TW', 'L', None)\nTX = TypeVar('TX', bound=List['L'])\nclass Outer:\n    @dataclasses.dataclass\n    class L:\n        o: Any\n"
        for i, field in enumerate('ab'):
            head = ('from __future__ import annotations\n' if future else '') + HEAD
            made = LEAVES[leaf].replace('FIELD', field)
            holder = structure(kind, form, self.names[i], self.names[1 - i], future)
            parts = [alias, holder, made] if late else [made, alias, holder]
            self.modules.append(load(self.names[i], head + '\n'.join(parts)))
        for i in (0, 1):
            self.modules[i].other = self.modules[1 - i]
            self.modules[i].Imported = self.modules[1 - i].L
        if kind in BASES:
            base = {'class': '    def __init__(self, y: T, **k):\n        super().__init__(**k)\n        self.y = y\n',
                    'new': '    def __new__(cls, y: T, **k):\n        self = super().__new__(cls, **k)\n        self.y = y\n        return self\n'}.get(kind, '    y: T\n')
            if kind == 'initvar':
                base = '    y: dataclasses.InitVar[T] = None\n    def __post_init__(self, x, y):\n        self.x, self.y = x, y\n'
            if kind in ('factory',):
                base = '    y: T = None\n'
            if kind in ('keyword', 'dataclass'):
                base = '    y: T = dataclasses.field(kw_only=True)\n'
            text = form.replace('SELF', self.names[1]).replace('OTHER', self.names[0])
            base = base.replace(': T', ': ' + text).replace('[T]', '[' + text + ']')
            start = '' if kind in ('class', 'typeddict', 'new') else '@dataclasses.dataclass\n'
            b = self.modules[1]
            source = ('from __future__ import annotations\n' if future else '') + f'{start}class Sub(other.Holder):\n{base}'
            exec(compile(source, self.names[1], 'exec', dont_inherit=True), b.__dict__)

        if kind in HEIRS:
            exec(compile('class Heir(other.Holder):\n    pass\n', self.names[1], 'exec', dont_inherit=True), self.modules[1].__dict__)

    def close(self):
        for name in self.names:
            sys.modules.pop(name, None)


class C29(Property):
    id = 'C29'
    bounds = (
        f'{len(KINDS)} ways to write a structure x {len(FORMS) + len(OTHER)} ways to write a type as text x {len(LEAVES)} kinds of named types, in two modules in which '
        'the names mean different types; with and without postponed annotations, defined before and after; a structure of one module that extends one of '
        'the other; every order in which the two (three) are asked for, twice; right and wrong elements; types that contain themselves and each other '
        'through every form'
    )

    def cases(self, tier):
        quick = tier == 'quick'
        for kind in KINDS:
            for form in (*FORMS, *OTHER):
                for leaf in LEAVES:
                    for late in (False, True):
                        for future in (False, True):
                            if quick and leaf not in ('dataclass', 'int') and kind not in ('dataclass', 'class', 'function'):
                                continue
                            if form in ('Alias', "ForwardRef('L')", 'ForwardRef("other.L")') and future and kind in ('wrapped',):
                                pass
                            yield 'pair', kind, form, leaf, late, future
        for leaf in LEAVES:
            for one in range(len(ABSOLUTE)):
                for two in range(len(ABSOLUTE)):
                    yield 'absolute', leaf, one, two
        for kind in KINDS:
            if kind in ASKED or kind == 'required':
                continue
            for form in FORMS:
                for future in (False, True):
                    yield 'recursive', kind, form, future
                    for other in KINDS:
                        if other not in ASKED and (not quick or other in ('dataclass', 'typeddict', 'class', 'namedtuple')):
                            yield 'mutual', kind, other, form, future

    def case(self, case, stats):
        stats.distinct()
        stats.traces += 1
        getattr(self, case[0])(*case[1:], stats=stats)

    @staticmethod
    def ask(kind, target, given, name='x'):
        try:
            if kind in ASKED:
                made = marsh.unmarshal_args(target, {'x': given})
                return 'ok', {**dict(zip('x', made.args[-1:])), **made.kwargs}['x']
            value = marsh.unmarshal(target, given)
            return 'ok', value
        except errors.MarshError as err:
            return 'refused', err

    @staticmethod
    def field(value, name):
        return value[name] if isinstance(value, dict) else getattr(value, name)

    def pair(self, kind, form, leaf, late, future, stats):
        wrap, unwrap, path = {**FORMS, **OTHER}[form]
        outer = 'Outer' in form
        foreign = form in OTHER
        numbers = [0, 1] + [2] * (kind in BASES) + [3] * (kind in HEIRS)
        orders = list(itertools.permutations(numbers))
        orders = {2: orders, 3: orders[late::2], 4: orders[late::5]}[len(numbers)]
        for order in orders:
            pair = Pair(kind, form, leaf, late, future)
            try:
                a, b = pair.modules
                for which in order * 2:
                    says = lambda: f'{kind} with {form} of a {leaf}{" with postponed annotations" if future else ""}, asked in the order {order}, number {which}'
                    stats.step()
                    mine = (0, 1, 1, 0)[which]
                    means = 1 - mine if foreign else mine
                    target = (a.Holder, b.Holder, getattr(b, 'Sub', None), getattr(b, 'Heir', None))[which]
                    right, wrong = (element(leaf, f) for f in ('ab' if means == 0 else 'ba'))
                    if outer:
                        right, wrong = {'leaf': right}, {'leaf': wrong}
                    cls = pair.modules[means].Outer.L if outer else pair.modules[means].L
                    if which != 2:
                        given = wrap(right) if kind in ASKED else {'x': wrap(right)}
                        got = self.ask(kind, target, given)
                        require(got[0] == 'ok', lambda: f'{says()}: {given} is refused: {got[1]}')
                        v = got[1] if kind in ASKED else self.field(got[1], 'x')
                        v = unwrap(v)
                        require(type(v) is cls, lambda: f'{says()}: {given} gave {v!r} of {type(v)}, expected {cls}')
                        if not outer:
                            bad = wrap(wrong) if kind in ASKED else {'x': wrap(wrong)}
                            got = self.ask(kind, target, bad)
                            require(got[0] == 'refused', lambda: f'{says()}: {bad} gave {got[1]!r}')
                            if kind != 'keywords':   # (which name the parameter twice)
                                require(got[1].path.startswith('.'.join(filter(None, ('x', path)))), lambda: f'{says()}: {bad} is refused at {got[1].path!r}')
                    else:
                        # the base is of module a, the rest of module b
                        base = element(leaf, 'b' if foreign else 'a')
                        base = {'leaf': base} if outer else base
                        from_base = a.Outer.L if outer else pair.modules[1 if foreign else 0].L
                        given = {'x': wrap(base), 'y': wrap(right)}
                        if kind in ('class', 'new'):
                            given = {'y': wrap(right)}
                            # what the base takes passes through unchanged
                            if kind == 'class':
                                given['x'] = None
                        got = self.ask(kind, target, given)
                        if kind == 'new':
                            require(got[0] == 'refused', lambda: f'{says()}: {given} gave {got[1]!r}')
                            continue
                        require(got[0] == 'ok', lambda: f'{says()}: {given} is refused: {got[1]}')
                        y = unwrap(self.field(got[1], 'y'))
                        require(type(y) is cls, lambda: f'{says()}: y of {given} is {y!r} of {type(y)}, expected {cls}')
                        if kind != 'class':
                            x = unwrap(self.field(got[1], 'x'))
                            require(type(x) is from_base, lambda: f'{says()}: x of {given} is {x!r} of {type(x)}, expected {from_base}')
                    stats.outcome((kind, got[0], type(v).__name__ if which != 2 else ''))
            finally:
                pair.close()

    def absolute(self, leaf, one, two, stats):
        """A name with its module stands for itself anywhere."""
        pair = Pair('dataclass', "'L'", leaf, False, False)
        try:
            for n in (one, two, one):
                for i, j in ((0, 1), (1, 0)):
                    stats.step()
                    t = ABSOLUTE[n].replace('M', pair.names[i])
                    type_ = eval(t, dict(vars(typing)))
                    outer = 'Outer' in t
                    right, wrong = element(leaf, 'ab'[i]), element(leaf, 'ab'[j])
                    if outer:
                        right = {'o': right}
                    cls = pair.modules[i].Outer.L if outer else pair.modules[i].L
                    got = self.ask('', type_, [right] if 'List' in t else right)
                    require(got[0] == 'ok', lambda: f'{right} as {t} is refused: {got[1]}')
                    v = got[1][0] if 'List' in t else got[1]
                    require(type(v) is cls, lambda: f'{right} as {t} is {v!r} of {type(v)}')
                    if not outer:
                        got = self.ask('', type_, [wrong] if 'List' in t else wrong)
                        require(got[0] == 'refused', lambda: f'{wrong} as {t} is {got[1]!r}')
        finally:
            pair.close()

    def recursive(self, kind, form, future, stats):
        """A type that holds itself, which ends where nothing is given."""
        if 'Outer' in form:
            return
        self.graph((kind,), form, future, stats)

    def mutual(self, kind, other, form, future, stats):
        if 'Outer' in form:
            return
        self.graph((kind, other), form, future, stats)

    def graph(self, kinds, form, future, stats):
        wrap, unwrap, path = FORMS[form]
        n = next(NUMBER)
        names = [f'mc_forward_r{n}_{i}' for i in range(len(kinds))]
        modules = []
        says = lambda: f'{kinds} which hold each other by {form}{" with postponed annotations" if future else ""}'
        try:
            for i, kind in enumerate(kinds):
                head = ('from __future__ import annotations\n' if future else '') + HEAD
                text = f'Union[int, {form}]' if form != "'L | None'" else f'Union[int, Optional["L"]]'
                text = text.replace('SELF', names[i])
                source = KINDS[kind].replace(': T', ': ' + text).replace('[T]', '[' + text + ']')
                alias = "Alias = List['L']\nAliasAlias = List['Alias']\nTV = TypeVar('TV', bound='L')\nTW = TypeVar('TW', 'L', None)\nTX = TypeVar('TX', bound=List['L'])\n"
                modules.append(load(names[i], head + alias + source))
            for i, m in enumerate(modules):
                m.L = modules[(i + 1) % len(modules)].Holder
            for start in range(len(kinds)):
                for depth in range(4):
                    stats.step()
                    given = {'x': 5}
                    for _ in range(depth):
                        given = {'x': wrap(given)}
                    got = self.ask('', modules[start].Holder, given)
                    require(got[0] == 'ok', lambda: f'{says()}: {given} is refused: {got[1]}')
                    v = got[1]
                    for level in range(depth + 1):
                        cls = modules[(start + level) % len(kinds)].Holder
                        kind = kinds[(start + level) % len(kinds)]
                        if not isinstance(v, dict):
                            require(type(v) is cls, lambda: f'{says()}: {given} gave {v!r} of {type(v)}, expected {cls}')
                        v = self.field(v, 'x')
                        if level < depth:
                            v = unwrap(v)
                    require(v == 5, lambda: f'{says()}: {given} gave {v!r} at its end')
                    bad = {'x': 'x'}
                    for _ in range(depth):
                        bad = {'x': wrap(bad)}
                    got = self.ask('', modules[start].Holder, bad)
                    require(got[0] == 'refused', lambda: f'{says()}: {bad} gave {got[1]!r}')
                    stats.outcome((kinds, depth))
        finally:
            for name in names:
                sys.modules.pop(name, None)


PROPERTY = C29()
