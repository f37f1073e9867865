"""C16: a namespace makes exactly the registered subclasses selectable by name."""
import dataclasses
import itertools
from typing import Any, Dict, List, Optional, Union

from mc import child
from mc.core import Property, Violation, require

import marsh
from marsh import errors


@dataclasses.dataclass
class Base:
    x: int = 0


@dataclasses.dataclass
class A(Base):
    y: int = 1


@dataclasses.dataclass
class B(A):
    z: int = 2


@dataclasses.dataclass
class C(Base):
    """The third."""
    c: str = 'c'
    inner: Optional[Base] = None


@dataclasses.dataclass
class X:
    x: int = 0


class Plain(Base):
    """Not a mapping when marshaled."""


@dataclasses.dataclass
class Holder:
    one: Base = dataclasses.field(default_factory=Base)
    a: Optional[A] = None
    many: List[Base] = dataclasses.field(default_factory=list)
    either: Union[int, Base] = 0
    keyed: Dict[str, X] = dataclasses.field(default_factory=dict)


CLASSES = {'Base': Base, 'A': A, 'B': B, 'C': C, 'X': X}
OWN = {'Base': ('x',), 'A': ('x', 'y'), 'B': ('x', 'y', 'z'), 'C': ('x', 'c', 'inner'), 'X': ('x',)}
BASES = {'n1': ('Base', 'A'), 'n2': ('A', 'X')}
NAMES = ('a', 'b')
ODD = ('zz', '', 5, None, True, ['a'], {'a': 1}, 'Base', 'a.b')

OPS = (
    [('new', 'n1', 'Base'), ('new', 'n1', 'A'), ('new', 'n2', 'A'), ('new', 'n2', 'X'), ('del', 'n1'), ('del', 'n2')]
    + [('reg', ns, cls, name, replace) for ns in ('n1', 'n2') for cls in ('Base', 'A', 'B', 'C', 'X') for name in NAMES for replace in (False, True)]
)
CLEAR = [('clear',)]


class Model:
    def __init__(self):
        self.spaces = {}      # name -> (base, {component name: class name})

    def apply(self, op):
        """Whether it is accepted."""
        kind, ns = op[0], op[1] if len(op) > 1 else None
        if kind == 'new':
            if ns in self.spaces:
                return False
            self.spaces[ns] = (op[2], {})
        elif kind == 'del':
            if ns not in self.spaces:
                return False
            del self.spaces[ns]
        elif kind == 'reg':
            _, _, cls, name, replace = op
            if ns not in self.spaces:
                return None
            base, comps = self.spaces[ns]
            if name in comps and not replace or not issubclass(CLASSES[cls], CLASSES[base]):
                return False
            comps[name] = cls
        return True

    def covered(self, cls):
        return any(issubclass(CLASSES[cls], CLASSES[base]) for base, _ in self.spaces.values())

    def choices(self, cls):
        """Name -> set of classes that it selects where cls is asked for."""
        out = {}
        for _, comps in self.spaces.values():
            for name, comp in comps.items():
                if issubclass(CLASSES[comp], CLASSES[cls]):
                    out.setdefault(name, set()).add(comp)
        return out

    def names(self, cls):
        return [name for _, comps in self.spaces.values() for name, comp in comps.items() if comp == cls]


def attempt(f, *args):
    try:
        return 'ok', f(*args)
    except errors.UnmarshalError as err:
        return 'unmarshal', err.path
    except errors.MarshError as err:
        return 'marsh', str(err)
    except (KeyError, ValueError, TypeError) as err:
        return type(err).__name__, str(err)


def do(op, number):
    kind = op[0]
    if kind == 'new':
        ns = marsh.namespaces.new(op[1], CLASSES[op[2]])
        require(ns is marsh.namespaces[op[1]] and ns.name == op[1] and ns.base is CLASSES[op[2]], f'{op}: the new namespace')
    elif kind == 'del':
        del marsh.namespaces[op[1]]
    elif kind == 'reg':
        _, ns, cls, name, replace = op
        space, cls = marsh.namespaces[ns], CLASSES[cls]
        res = space.register(name=name, replace=replace)(cls) if number % 2 else space.register(cls, name=name, replace=replace)
        require(res is cls, f'{op}: gave {res}')
    elif kind == 'clear':
        marsh.namespaces.cache_clear(full=True)


def element_of(cls, name, **more):
    el = {'x': 5, **more}
    if name is not None:
        el = {'name': name, **el} if len(name) % 2 else {**el, 'name': name}
    return el


def built(cls, given, kwargs, model):
    """What the class gives for these arguments of build."""
    element, more = given[0] if given else marsh.MISSING, given[1:]
    fields = OWN[cls.__name__]
    if element == marsh.MISSING:
        element = [] if more else {}
    if more and kwargs or more and not isinstance(element, (list, tuple)) or kwargs and not isinstance(element, dict):
        return 'TypeError', ''
    if isinstance(element, (list, tuple)):
        values = [*element, *more]
        if len(values) > len(fields):
            return 'unmarshal', ''
        element = dict(zip(fields, values))
    if not isinstance(element, dict):
        return 'unmarshal', ''
    element = {**element, **kwargs}
    if set(element) - set(fields):
        return 'unmarshal', ''
    inner = element.get('inner')
    if inner is not None and not isinstance(inner, Base):
        return 'unmarshal', ''
    if inner is not None:
        # it is marshaled: the name selects the class, else there are too many fields
        picked = model.choices('Base').get(marsh.marshal(inner).get('name')) if model.covered('Base') else None
        if not picked:
            return 'unmarshal', ''
        if picked != {'C'}:
            return 'any', ''
    try:
        typed = {k: v if k == 'inner' else str(v) if k == 'c' else int(v) for k, v in element.items()}
    except ValueError:
        return 'unmarshal', ''
    return 'ok', cls(**typed)


def observe(model, says):
    """Everything that can be seen, compared with the model."""
    spaces = marsh.namespaces
    require(list(spaces) == list(model.spaces) and len(spaces) == len(model.spaces), lambda: f'{says()}: namespaces {list(spaces)}')
    for ns in ('n1', 'n2'):
        require((ns in spaces) == (ns in model.spaces) and (spaces.get(ns) is not None) == (ns in model.spaces), lambda: f'{says()}: {ns} in namespaces')
    for ns, (base, comps) in model.spaces.items():
        space = spaces[ns]
        require(list(space) == list(comps) and len(space) == len(comps), lambda: f'{says()}: {ns} holds {list(space)}')
        for name in NAMES + ('zz',):
            require((name in space) == (name in comps), lambda: f'{says()}: {name} in {ns}')
            got = attempt(lambda: space[name].unmarshal({'x': 7}))
            want = ('ok', CLASSES[comps[name]](x=7)) if name in comps else 'KeyError'
            require(got == want or got[0] == want, lambda: f'{says()}: {ns}[{name!r}] unmarshals to {got}')
            for args in (((), {'x': 8}), (({'x': 8},), {}), ((marsh.MISSING,), {'x': 8}), ((None,), {'x': 8}), (({'x': 1},), {'x': 8}), ((None, 8), {}), (([8],), {})):
                got = attempt(lambda: space.build(*args[0], name=name, **args[1]))
                want = ('ok', CLASSES[comps[name]](x=8)) if name in comps else ('unmarshal', '')
                require(got == want, lambda: f'{says()}: {ns}.build{args} of {name} gives {got}')
            for given, kwargs in (
                (([8], 9), {}), (([], 8, '9'), {}), (([8, 9],), {}), (([8], 9, 7), {}), (({'x': 8}, 9), {}), (([8],), {'x': 9}), (([8], 9), {'x': 9}),
                ((marsh.MISSING, 8, '9'), {}), (((8,), '9'), {}), (({'x': 1, 'y': 4},), {'x': 8, 'y': 9}), ((), {'x': 8, 'inner': C(x=2, c='q')}), ((8,), {}),
            ):
                keep = repr((given, kwargs))
                got = attempt(lambda: space.build(*given, name=name, **kwargs))
                require(keep == repr((given, kwargs)), lambda: f'{says()}: {ns}.build of {name} changed what was given: {given}, {kwargs}')
                want = built(CLASSES[comps[name]], given, kwargs, model) if name in comps else ('unmarshal', '')
                require(want[0] == 'any' or got[0] == want[0] and (got[0] != 'ok' or got == want), lambda: (
                    f'{says()}: {ns}.build{given}, {kwargs} of {name} gives {got}, expected {want}'))
    # the lookups themselves
    for cls in CLASSES:
        type_ = CLASSES[cls]
        for ns, (base, comps) in model.spaces.items():
            got, named = spaces[ns].find_class(type_), [name for name, comp in comps.items() if comp == cls]
            require(got in named or not named and got is None, lambda: f'{says()}: {ns}.find_class of {cls} gives {got}, expected one of {named}')
            got, want = list(spaces[ns].find_subclasses(type_)), [name for name, comp in comps.items() if issubclass(CLASSES[comp], type_)]
            require(got == want, lambda: f'{says()}: {ns}.find_subclasses of {cls} gives {got}, expected {want}')
        got, named = spaces.find_class(type_), model.names(cls)
        require(got in named or not named and got is None, lambda: f'{says()}: find_class of {cls} gives {got}, expected one of {named}')
        got = [(name, space.name) for name, space in spaces.find_subclasses(type_)]
        want = [(name, ns) for ns, (_, comps) in model.spaces.items() for name, comp in comps.items() if issubclass(CLASSES[comp], type_)]
        require(got == want, lambda: f'{says()}: find_subclasses of {cls} gives {got}, expected {want}')
        got = [space.name for space in spaces.find_namespaces(type_)]
        want = [ns for ns, (base, _) in model.spaces.items() if issubclass(type_, CLASSES[base])]
        require(got == want, lambda: f'{says()}: find_namespaces of {cls} gives {got}, expected {want}')
    seen = []
    for cls in CLASSES:
        choices = model.choices(cls) if model.covered(cls) else {}
        for name in (None,) + NAMES + ('zz',):
            el = element_of(cls, name)
            keep = repr(el)
            for t, wrap, path, unwrap in (
                (CLASSES[cls], lambda e: e, '', lambda v: v),
                (List[CLASSES[cls]], lambda e: [{}, e], '1.', lambda v: v[1]),
                (Optional[CLASSES[cls]], lambda e: e, '', lambda v: v),
            ):
                got = attempt(lambda: unwrap(marsh.unmarshal(t, wrap(el))))
                if name is None:
                    want = [('ok', CLASSES[cls](x=5))]
                elif name in choices:
                    want = [('ok', CLASSES[c](x=5)) for c in choices[name]]
                elif model.covered(cls):
                    want = [('unmarshal', path + 'name')]
                else:
                    want = [('unmarshal', path.rstrip('.'))]
                if t == Optional[CLASSES[cls]] and want[0][0] == 'unmarshal':
                    require(got[0] == 'unmarshal', lambda: f'{says()}: {t} from {el} gives {got}')
                else:
                    require(got in want, lambda: f'{says()}: {t} from {el} gives {got}, expected {want}')
            require(repr(el) == keep, lambda: f'{says()}: {el} was modified')
            seen.append(got)
        # the own fields of the selected class are available and no others
        for name, comps in choices.items():
            if len(comps) != 1:
                continue
            comp = next(iter(comps))
            for field in ('y', 'z', 'c', 'q'):
                got = attempt(marsh.unmarshal, CLASSES[cls], {'name': name, field: 3})
                want = 'ok' if field in OWN[comp] else 'unmarshal'
                require(got[0] == want and (want != 'ok' or getattr(got[1], field) in (3, '3')), lambda: f'{says()}: {cls} named {name} with {field}: {got}')
            got = attempt(marsh.unmarshal, CLASSES[cls], {'name': name, 'x': 'bad'})
            require(got == ('unmarshal', 'x'), lambda: f'{says()}: a fault in {name}: {got}')
        # documentation and selection
        schema = marsh.schema.UnmarshalSchema(CLASSES[cls])
        if model.covered(cls):
            specials = [f.value for f in schema.doc_special_fields()]
            for name, comps in choices.items():
                require(any(s.startswith(f'name = "{name}" -> ') for s in specials), lambda: f'{says()}: {cls} does not document {name}: {specials}')
                if len(comps) == 1:
                    comp = next(iter(comps))
                    for field in OWN[comp]:
                        got = attempt(schema.select, f'{name}.{field}')
                        require(got[0] == 'ok', lambda: f'{says()}: select {name}.{field}: {got}')
            require(len(specials) == sum(map(len, choices.values())) or any(len(v) > 1 for v in choices.values()) or len(model.spaces) > 1, lambda: (
                f'{says()}: {cls} documents {specials}'))
            require(attempt(schema.select, 'zz')[0] == 'marsh', lambda: f'{says()}: select zz')
        # marshaling names the class
        value = CLASSES[cls](x=6)
        data = marsh.marshal(value)
        names = model.names(cls)
        plain = {k: v for k, v in data.items() if k != 'name'}
        require(plain == {f: marsh.marshal(getattr(value, f)) for f in OWN[cls]}, lambda: f'{says()}: {value} is marshaled to {data}')
        require(('name' in data) == bool(names) and data.get('name') in (names or [None]), lambda: f'{says()}: {value} is marshaled to {data}, its names are {names}')
        seen.append(data)
        for other in CLASSES:
            if names and issubclass(CLASSES[cls], CLASSES[other]) and model.covered(other) and model.choices(other).get(data['name']) == {cls}:
                got = attempt(marsh.unmarshal, CLASSES[other], data)
                require(got == ('ok', value), lambda: f'{says()}: {value} is marshaled to {data} and back to {got}')
    # deep inside
    base = model.choices('Base') if model.covered('Base') else None
    if base is not None:
        for name in NAMES:
            el = {'one': {'name': name}, 'many': [{}, {'name': name, 'x': 4}], 'either': {'name': name}}
            got = attempt(marsh.unmarshal, Holder, el)
            if name in base:
                ok = got[0] == 'ok' and all(type(got[1].one) is CLASSES[c] and got[1].many == [Base(), CLASSES[c](x=4)] and type(got[1].either) is CLASSES[c]
                                            for c in base[name]) if len(base[name]) == 1 else got[0] == 'ok'
                require(ok, lambda: f'{says()}: {el} gives {got}')
            else:
                require(got == ('unmarshal', 'one.name'), lambda: f'{says()}: {el} gives {got}')
        for odd in ODD:
            got = attempt(marsh.unmarshal, List[Base], [{'name': odd, 'x': 1}])
            require(got == ('unmarshal', '0.name'), lambda: f'{says()}: the name {odd!r} gives {got}')
    el = {'keyed': {'name': {'x': 1}}}
    if model.covered('X'):
        el = {'keyed': {'k': {'x': 1}, 'name': {'x': 2}}}
    got = attempt(lambda: marsh.unmarshal(Holder, el).keyed['name'].x)
    require(got[0] == 'ok', lambda: f'{says()}: a key "name" of a mapping: {got}')
    return repr(seen)


@dataclasses.dataclass
class Named(Base):
    name: str = 'own'


class Root:
    pass


class Listed(list, Root):
    pass


class Sub(C):
    pass


class Count(int, Root):
    pass


def function(x: int) -> Base:
    return Base(x)


BAD = {
    'function': function, 'instance': Base(), 'number': 5, 'text': 'Base', 'union': Union[A, B], 'list': List[Base], 'other': X, 'object': object,
    'lambda': lambda: Base(), 'any': Any, 'tuple': (A, B),
}


def special(kind, first):
    """Components that are out of the ordinary."""
    try:
        space = marsh.namespaces.new('n1', Base)
        if first:
            space.register(A, name='a')
            marsh.unmarshal(Base, {'name': 'a'})
            marsh.marshal(A())
        if kind == 'named':
            plain = {'x': 3, 'name': 'n'}
            require(marsh.marshal(Named(3, 'n')) == plain, 'a class that is not registered may have a field "name"')
            space.register(Named, name='named')
            for v in (Named(3, 'n'), [Named()], {'k': Named()}, Holder(one=Named())):
                got = attempt(marsh.marshal, v)
                require(got[0] == 'marsh', lambda: f'{v} has a field "name" itself and is marshaled into {got}')
            got = attempt(marsh.unmarshal, Base, {'name': 'named', 'x': 1})
            require(got == ('ok', Named(1)), lambda: f'the class with a field "name" is {got}')
            del marsh.namespaces['n1']
            require(marsh.marshal(Named(3, 'n')) == plain, 'the field "name" after the namespace is gone')
            require(marsh.unmarshal(Named, plain) == Named(3, 'n'), 'read after the namespace is gone')
        elif kind == 'listed':
            require(marsh.marshal(Listed([1])) == (1,) and marsh.marshal(Count(4)) == 4, 'not registered')
            space = marsh.namespaces.new('n2', Root)
            require(marsh.marshal(Listed([1])) == (1,) and marsh.marshal(Count(4)) == 4, 'not registered')
            space.register(Listed, name='l')
            space.register(Count, name='c')
            for v in (Listed([1]), [Listed()], {'k': Listed([2, 3])}, Count(3), Count(), Holder(many=[Listed()])):
                got = attempt(marsh.marshal, v)
                require(got[0] == 'marsh', lambda: f'{v} is no mapping and is marshaled into {got}')
            got = attempt(marsh.marshal, [Base(1), C(2)])
            require(got == ('ok', ({'x': 1}, {'x': 2, 'c': 'c', 'inner': None})), lambda: f'others: {got}')
        elif kind == 'sub':
            space.register(C, name='c')
            require(marsh.marshal(Sub(1)) == {'x': 1, 'c': 'c', 'inner': None}, lambda: f'a subclass takes the name of its base: {marsh.marshal(Sub(1))}')
            require(type(marsh.unmarshal(Sub, {'x': 1})) is Sub and attempt(marsh.unmarshal, Sub, {'name': 'c'}) == ('unmarshal', 'name'), 'Sub')
            require(attempt(marsh.unmarshal, Base, {'name': 'Sub'}) == ('unmarshal', 'name'), 'Sub by its own name')
            space.register(Sub, name='s')
            require(marsh.marshal(Sub(1))['name'] == 's' and marsh.marshal(C(1))['name'] == 'c', 'both registered')
            require(type(marsh.unmarshal(C, {'name': 's'})) is Sub and attempt(marsh.unmarshal, Sub, {'name': 'c'}) == ('unmarshal', 'name'), 'both registered')
        elif kind == 'odd names':
            for name in ('', ' ', 'a.b', '"q"', 'null', '1', '\u00e9', 'Base', 'x', '{}', '???'[:2], '*', 'None', 'false', '0'):
                for cls in (C, A):
                    space.register(cls, name=name, replace=True)
                    value = cls(x=4)
                    data = marsh.marshal(value)
                    names = [n for n, c in space.components.items() if c is cls]
                    require(data.get('name') in names, lambda: f'{value} registered as {names} is marshaled into {data}')
                    data['name'] = name
                    for t, wrap in ((Base, lambda v: v), (List[Base], lambda v: [v]), (Optional[Base], lambda v: v), (Union[int, Base], lambda v: v)):
                        got = attempt(marsh.unmarshal, t, wrap(data))
                        require(got == ('ok', wrap(value)), lambda: f'{data} as {t} gives {got}')
                    require(space.build(name=name, x=4) == value and space[name].unmarshal({'x': 4}) == value, f'build {name!r}')
                    schema = marsh.schema.UnmarshalSchema(Base)
                    require(any(f.value.startswith(f'name = "{name}" -> ') for f in schema.doc_special_fields()), f'{name!r} is not documented')
                    require(not name or schema.select(marsh.path.join_fields([name, 'x'])).value is int, f'select x of {name!r}')
        elif kind == 'twice':
            space.register(C, name='c1')
            space.register(C, name='c2')
            require(marsh.marshal(C()).get('name') in ('c1', 'c2'), 'a class with two names')
            for name in ('c1', 'c2'):
                require(marsh.unmarshal(Base, {'name': name}) == C(), name)
            require(set(marsh.namespaces['n1'].keys()) == {'c1', 'c2'} | ({'a'} if first else set()), 'names')
            require(all(s.value is C for n, s in space.items() if n != 'a') and len(space.values()) == len(space), 'items')
            require(space.get('zz') is None and space.get('zz', 3) == 3 and space.get('c1') is not None, 'get')
            require(dict(marsh.namespaces.items()) == {'n1': space} and list(marsh.namespaces.values()) == [space], 'namespaces')
            require(marsh.namespaces.get('zz', 3) == 3 and 'zz' not in marsh.namespaces, 'get of namespaces')
        else:
            bad = BAD[kind]
            before = (list(space), marsh.marshal([Base(), A(), C()]))
            for how in (lambda: space.register(bad, name='bad'), lambda: space.register(name='bad')(bad), lambda: space.register(bad, name='a', replace=True)):
                got = attempt(how)
                require(got[0] in ('ValueError', 'TypeError', 'marsh'), lambda: f'registering {bad} gives {got}')
                after = (list(space), marsh.marshal([Base(), A(), C()]))
                require(before == after, lambda: f'the rejected {bad} changed {before} into {after}')
                require(attempt(marsh.unmarshal, Base, {'name': 'bad'}) == ('unmarshal', 'name'), lambda: f'the rejected {bad} is a choice')
        return 'ok', kind, kind
    except Violation as err:
        return 'bad', f'{kind}: {err.message}', ''


SPECIAL = ('named', 'listed', 'sub', 'odd names', 'twice', *BAD)


def history(ops, watch):
    model = Model()
    try:
        for i, op in enumerate(ops):
            says = lambda: f'after {list(ops[:i + 1])}'
            if op[0] == 'reg' and op[1] not in model.spaces:
                continue
            want = model.apply(op)
            got = attempt(do, op, i)
            if want:
                require(got[0] == 'ok', lambda: f'{says()}: {got}')
            else:
                kinds = ('ValueError', 'marsh') if op[0] == 'reg' else ('marsh',) if op[0] == 'new' else ('KeyError',)
                require(got[0] in kinds, lambda: f'{says()}: {got}')
            if watch:
                observe(model, says)
        return 'ok', observe(model, says), repr(model.spaces)
    except Violation as err:
        return 'bad', err.message, ''


class C16(Property):
    id = 'C16'
    bounds = (
        f'every history of three (thorough four) out of {len(OPS)} operations on two namespaces with different bases (creation, deletion, registration with and '
        'without replacement, of classes at each level of a hierarchy), observed after every operation or only at the end; '
        '12 ways to pass arguments to build; components with a field of the name of the name, that are no mappings, with 15 odd names, with two names; 11 things that are no class of the namespace'
    )

    def cases(self, tier):
        quick = tier == 'quick'
        first = [op for op in OPS if op[0] == 'new']
        for kind in SPECIAL:
            for before in (False, True):
                yield 'special', (kind, before)
        for watch in (True, False):
            for op in OPS:
                yield watch, (op,)
            for ops in itertools.product(OPS, repeat=2):
                if self.sound(ops):
                    yield watch, ops
            for ops in itertools.product(OPS, repeat=3):
                if self.sound(ops) and ops[0] in first:
                    yield watch, ops
            small = [op for op in OPS if op[0] != 'reg' or op[3] == 'a' or op[2] == 'C' or not quick]
            small = [op for op in small if not quick or op[0] != 'reg' or op[2] in ('A', 'C') and op[1] == 'n1' or op[2] == 'B' and op[4]]
            if quick and not watch:
                continue
            for ops in itertools.product(small, repeat=4):
                if ops[0] in first[:3:2] and self.sound(ops) and (not quick or ops[1] in first or len(set(ops)) < 4 or ops[3][0] != 'reg'):
                    yield watch, ops

    @staticmethod
    def sound(ops):
        made = set()
        for i, op in enumerate(ops):
            if op[0] == 'new':
                made.add(op[1])
            elif op[1] not in made and not (op[0] == 'del' and i == len(ops) - 1):
                return False
        return True

    def case(self, case, stats):
        watch, ops = case
        status, text, spaces = child.run(special, *ops) if watch == 'special' else child.run(history, ops, watch)
        stats.distinct()
        stats.traces += 1
        stats.step(len(ops) * (300 if watch else 1))
        stats.outcome(text)
        stats.state(spaces)
        require(status == 'ok', text)


PROPERTY = C16()
