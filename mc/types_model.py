"""Type descriptions ("specs"), the real types they stand for, and a reference
unmarshaler that follows the documented rules.

A spec is a tuple of plain python literals:
  ('int',) ('float',) ('str',) ('bool',) ('none',) ('any',) ('bytes',)
  ('lit', v, ...)            ('enum', ((name, value), ...))
  ('list', T) ('vtuple', T) ('set', T) ('seq', T) ('deque', T)
  ('tuple', T, ...)          ('dict', K, V) ('mapping', K, V)
  ('opt', T) ('union', T, ...)                 (members are never unions)
  ('dc'|'nt'|'td'|'cls', ((name, T, default), ...))     default: NODEF | ('v', x)
  ('ann', T)  ('newtype'...) are not modelled here
"""
import collections
import collections.abc
import dataclasses
import datetime
import enum
import math
import typing
from typing import Any, Dict, List, Literal, Mapping, NamedTuple, Optional, Sequence, Set, Tuple, Union

from typing_extensions import Annotated, TypedDict

MISSING = '???'
NODEF = ()


def fresh_typing():
    """Union[int, str] and Union[str, int] compare equal, and the typing module
    caches by equality: forget, so that the order asked for is the order got."""
    for clear in typing._cleanups:
        clear()


class Types:
    """spec -> real type; the classes inside of a type are made once."""

    def __init__(self, opaque=None):
        self.memo = {}
        self.opaque = opaque or {}

    def __call__(self, spec):
        fresh_typing()
        return self.get(spec)

    def get(self, spec):
        if spec[0] == 'opaque':
            return self.opaque[spec[1]]
        key = repr(spec)
        if key not in self.memo:
            t = _build(spec, self.get)
            if spec[0] not in NOMINAL:
                return t
            self.memo[key] = t
        return self.memo[key]


NOMINAL = ('enum', 'intenum', 'strenum', 'dc', 'nt', 'td', 'cls')


COUNTER = [0]


def _name(prefix):
    COUNTER[0] += 1
    return f'{prefix}{COUNTER[0]}'


def _build(spec, get):
    k = spec[0]
    if k in ('int', 'float', 'str', 'bool', 'bytes'):
        return {'int': int, 'float': float, 'str': str, 'bool': bool, 'bytes': bytes}[k]
    if k == 'none':
        return None
    if k == 'any':
        return Any
    if k == 'lit':
        return Literal[tuple(spec[1:])]
    if k == 'enum':
        return enum.Enum('E' + str(len(spec[1])), dict(spec[1]), module='mc.types_model')
    if k == 'intenum':
        return enum.IntEnum('IE', dict(spec[1]), module='mc.types_model')
    if k == 'strenum':
        return enum.Enum('SE', dict(spec[1]), type=str, module='mc.types_model')
    if k == 'list':
        return List[get(spec[1])]
    if k == 'blist':
        return list[get(spec[1])]
    if k == 'vtuple':
        return Tuple[get(spec[1]), ...]
    if k == 'set':
        return Set[get(spec[1])]
    if k == 'seq':
        return Sequence[get(spec[1])]
    if k == 'tuple':
        return Tuple[tuple(get(s) for s in spec[1:])] if len(spec) > 1 else Tuple[()]
    if k == 'dict':
        return Dict[get(spec[1]), get(spec[2])]
    if k == 'mapping':
        return Mapping[get(spec[1]), get(spec[2])]
    if k == 'opt':
        return Optional[get(spec[1])]
    if k == 'union':
        return Union[tuple(get(s) for s in spec[1:])]
    if k == 'pipe':
        out = get(spec[1])
        for s in spec[2:]:
            out = out | get(s)
        return out
    if k == 'ann':
        return Annotated[get(spec[1]), 'some text', 5]
    fields = [(n, get(t), d) for n, t, d in spec[1]]
    if k == 'dc':
        return dataclasses.make_dataclass(_name('DC'), [
            (n, t) if d == NODEF else (
                (n, t, dataclasses.field(default=d[1])) if d[0] == 'v'
                else (n, t, dataclasses.field(default_factory=lambda d=d: eval(d[1]))))
            for n, t, d in fields], namespace={'__doc__': 'a class'})
    if k == 'nt':
        cls = NamedTuple(_name('NT'), [(n, t) for n, t, d in fields])
        return _nt_defaults(cls, fields)
    if k == 'td':
        # optional keys have the default ('opt',)
        from typing_extensions import NotRequired
        return TypedDict(_name('TD'), {
            n: (NotRequired[t] if d == ('opt',) else t) for n, t, d in fields})
    if k == 'cls':
        ns = {}
        sig = ', '.join(
            f'{n}: T[{i}]' + ('' if d == NODEF else f' = D[{i}]')
            for i, (n, t, d) in enumerate(fields))
        body = '\n        '.join(f'self.{n} = {n}' for n, t, d in fields) or 'pass'
        env = {'T': [f[1] for f in fields], 'D': [f[2][1] if f[2] else None for f in fields]}
        name = _name('CL')
        exec(f'class {name}:\n    def __init__(self{", " if sig else ""}{sig}):\n        {body}\n', env, ns)
        return ns[name]
    raise ValueError(spec)


def _nt_defaults(cls, fields):
    defaults = {n: d[1] for n, t, d in fields if d != NODEF}
    if not defaults:
        return cls
    body = {'__annotations__': {n: t for n, t, d in fields}, **defaults,
            '__module__': __name__}
    return typing.NamedTupleMeta(cls.__name__, (typing._NamedTuple,), body)


# --- reference -----------------------------------------------------------

class Bad(Exception):
    """Refused: ``path`` is the place in the input, ``missing`` tells whether a
    required value is missing there."""

    def __init__(self, path=(), missing=False):
        super().__init__(path, missing)
        self.path, self.missing = tuple(path), missing


def under(field, fn, *args):
    try:
        return fn(*args)
    except Bad as err:
        # an empty field can not be part of a path
        raise Bad(((str(field),) if str(field) else ()) + err.path, err.missing) from None


def is_prim(x):
    return isinstance(x, (int, float, bool, str))


def is_map(x):
    return isinstance(x, collections.abc.Mapping)


def is_seq(x):
    return isinstance(x, (list, tuple)) and not isinstance(x, str)


def missing(x):
    return isinstance(x, str) and x == MISSING


def any_missing(x):
    if is_map(x):
        return any(any_missing(v) for v in x.values())
    if is_seq(x):
        return any(any_missing(v) for v in x)
    return missing(x)


TRUE = {'1', 'true', 'y', 'yes', 'on'}
FALSE = {'0', 'false', 'n', 'no', 'off'}


def cast(kind, v):
    """The documented conversion of one primitive to a primitive type; raises
    Bad when it would lose information or is not defined."""
    if kind == 'str':
        return v if isinstance(v, str) else str(v)
    if kind == 'bool':
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            if v == 1 or v == 0:
                return bool(v)
            raise Bad()
        if v.lower() in TRUE:
            return True
        if v.lower() in FALSE:
            return False
        raise Bad()
    if kind == 'int':
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, float):
            if math.isfinite(v) and v == math.floor(v):
                return int(v)
            raise Bad()
        try:
            return int(v)
        except ValueError:
            pass
        try:
            f = float(v)
        except ValueError:
            raise Bad() from None
        return cast('int', f)
    if kind == 'float':
        try:
            return float(v)
        except (ValueError, OverflowError):
            raise Bad() from None
    raise AssertionError(kind)


def same(a, b):
    """Equal and of the same types, everywhere; order of keys included."""
    return canon(a) == canon(b)


def canon(x):
    if isinstance(x, enum.Enum):
        return ('enum', type(x).__qualname__, x.name)
    if isinstance(x, (bool, int, float, str, bytes, complex, datetime.date, datetime.time)) or x is None:
        return (type(x).__name__, repr(x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted(map(canon, x)))
    if is_map(x):
        return (type(x).__name__,) + tuple((canon(k), canon(x[k])) for k in x)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return ('nt', type(x).__name__) + tuple(canon(v) for v in x)
    if isinstance(x, (list, tuple, collections.deque)):
        return (type(x).__name__,) + tuple(canon(v) for v in x)
    if hasattr(x, '__dict__'):
        return (type(x).__name__,) + tuple((k, canon(v)) for k, v in sorted(vars(x).items()))
    return (type(x).__name__, repr(x))


def ref(spec, el, types, default=None):
    """The value (or Bad) that unmarshaling ``el`` into ``spec`` has to give.

    types: spec -> real type (to construct instances)
    default: None or a one-element list with the default of this place."""
    k = spec[0]
    if k == 'ann':
        return ref(spec[1], el, types, default)
    if missing(el) and default is not None and k not in ('none',):
        return default[0]
    if k in ('int', 'float', 'str', 'bool'):
        if missing(el):
            raise Bad(missing=True)
        if not is_prim(el):
            raise Bad()
        return cast(k, el)
    if k == 'none':
        if el is None or missing(el):
            return None
        raise Bad()
    if k == 'any':
        if any_missing(el):
            raise Bad(missing=True)
        return el
    if k == 'lit':
        for v in spec[1:]:
            try:
                got = ref((kind_of(v),), el, types)
            except Bad:
                continue
            if got == v:
                return got
        raise Bad()
    if k in ('enum', 'intenum', 'strenum'):
        if missing(el):
            raise Bad(missing=True)
        cls = types(spec)
        if is_prim(el):
            for name, _ in spec[1]:
                if str(el) == name:
                    return cls[name]
            for member in cls:
                value = member.value
                if is_prim(value):
                    try:
                        if cast(kind_of(value), el) == value:
                            return member
                    except Bad:
                        pass
        raise Bad()
    if k in ('list', 'blist', 'vtuple', 'set', 'seq'):
        if missing(el):
            el = ()
        if not is_seq(el):
            raise Bad()
        items = [under(i, ref, spec[1], v, types) for i, v in enumerate(el)]
        if k == 'set':
            try:
                return set(items)
            except TypeError:
                raise Bad() from None
        return tuple(items) if k in ('vtuple', 'seq') else items
    if k in ('dict', 'mapping'):
        if missing(el):
            el = {}
        if not is_map(el):
            raise Bad()
        out = {}
        for key in el:
            kk = under(key, ref, spec[1], key, types)
            out[kk] = under(key, ref, spec[2], el[key], types)
        if k == 'mapping':
            import types as t
            return t.MappingProxyType(out)
        return out
    if k == 'opt':
        try:
            return ref(spec[1], el, types)
        except Bad:
            if el is None or missing(el):
                return None
            raise
    if k in ('union', 'pipe'):
        if len(spec) == 3 and ('none',) in spec[1:]:
            return ref(('opt', [s for s in spec[1:] if s != ('none',)][0]), el, types)
        for s in spec[1:]:
            try:
                return ref(s, el, types)
            except Bad:
                pass
        raise Bad(missing=missing(el))
    # structured
    if k == 'tuple':
        fields = [(str(i), t, NODEF) for i, t in enumerate(spec[1:])]
    else:
        fields = list(spec[1])
    if k == 'td':
        fields = [f for f in fields if f[2] != ('opt',)] + [f for f in fields if f[2] == ('opt',)]
    if missing(el):
        el = {}
    given = {}
    if is_map(el):
        rest = dict(el)
        for n, t, d in fields:
            given[n] = under(n, field, t, rest.pop(n, MISSING), types, d)
        if rest:
            raise Bad()
        if k == 'tuple' and fields:
            raise Bad()
    elif is_seq(el):
        rest = list(el)
        for n, t, d in fields:
            given[n] = under(n, field, t, rest.pop(0) if rest else MISSING, types, d)
        if rest:
            raise Bad()
        if k == 'tuple' and len(el) < len(fields):
            raise Bad()
    else:
        raise Bad()
    if k == 'tuple':
        return tuple(given.values())
    given = {n: v for n, v in given.items() if v is not OMIT}
    if k == 'td':
        return given
    cls = types(spec)
    return cls(**given)


OMIT = object()


def field(t, el, types, d):
    if d == NODEF:
        return ref(t, el, types)
    if d == ('opt',):
        return ref(t, el, types, [OMIT])
    if d[0] == 'v':
        return ref(t, el, types, [d[1]])
    return ref(t, el, types, [eval(d[1])])


def kind_of(v):
    if v is None:
        return 'none'
    return type(v).__name__
