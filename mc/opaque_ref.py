"""What the documentation says is made of an element by types outside of types_model.

value(name, element) gives the value, raises Bad where the element has to be refused and
Unknown where nothing is claimed (free text for dates, base64 that is not well-formed, ...).
"""
import base64
import collections
import datetime
import re
from typing import DefaultDict, Deque, Dict, Generic, List, Set, Tuple, TypeVar

from mc import types_model as tm
from mc.types_model import Bad


class Unknown(Exception):
    pass


class Complex(complex):
    pass


class Bytes(bytes):
    pass


class Datetime(datetime.datetime):
    pass


class Date(datetime.date):
    pass


class Time(datetime.time):
    pass


class Defaults(DefaultDict[str, int]):
    pass


class Ints(Set[int]):
    pass


class Numbers(List[int]):
    pass


class Words(Dict[str, int]):
    pass


class Pair(Tuple[int, str]):
    pass


class Ends(Deque[int]):
    pass


class Broken(bytes):
    def __new__(cls, value):
        raise KeyError('user code')


class BrokenDatetime(datetime.datetime):
    def __new__(cls, *args, **kwargs):
        raise KeyError('user code')


class BrokenComplex(complex):
    def __new__(cls, *args):
        raise KeyError('user code')


K, V = TypeVar('K'), TypeVar('V')


class GenericMap(dict, Generic[K]):
    pass


class GenericMap2(Generic[K], Dict[str, int]):
    pass


class GenericMap3(Dict[K, V]):
    pass


class GenericList(Generic[K], List[int]):
    pass


class GenericList2(list, Generic[K]):
    pass


SUBCLASSES = (
    Complex, Bytes, Datetime, Date, Time, Defaults, Ints, Numbers, Words, Pair, Ends,
    Broken, BrokenDatetime, BrokenComplex,
)


def attempt(fn, *args, **kwargs):
    try:
        return fn(*args, **kwargs)
    except (TypeError, ValueError, OverflowError):
        raise Bad() from None


def plain(spec, el):
    return tm.ref(spec, el, None)


FLOAT, INT, STR = ('float',), ('int',), ('str',)


def of_bytes(el):
    if not tm.is_prim(el):
        raise Bad(missing=tm.missing(el))
    text = str(el)
    if not re.fullmatch(r'[A-Za-z0-9+/_-]*={0,2}', text, re.ASCII):
        raise Unknown
    text = text.rstrip('=').translate(str.maketrans('-_', '+/'))
    if len(text) % 4 == 1:
        raise Bad()
    return base64.b64decode(text + '=' * (-len(text) % 4))


def of_complex(el):
    if tm.missing(el):
        raise Bad(missing=True)
    if tm.is_prim(el):
        return complex(plain(FLOAT, el), 0.0)
    if tm.is_seq(el):
        if len(el) > 2:
            raise Bad()
        return complex(*(plain(FLOAT, v) for v in el))
    if tm.is_map(el) and all(isinstance(k, str) and k in ('real', 'imag') for k in el):
        return complex(*(plain(FLOAT, el[k]) if k in el else 0.0 for k in ('real', 'imag')))
    raise Bad()


def of_slice(el):
    def bound(v):
        if v is None or tm.missing(v):
            return None
        return plain(INT, v)
    if tm.missing(el):
        return slice(None)
    if tm.is_map(el):
        if not all(isinstance(k, str) and k in ('start', 'stop', 'step') for k in el):
            raise Bad()
        return slice(*(bound(el.get(k)) for k in ('start', 'stop', 'step')))
    if tm.is_seq(el):
        if len(el) > 3:
            raise Bad()
        return slice(*map(bound, el)) if el else slice(None)
    parts = str(el).split(':')
    if not 2 <= len(parts) <= 3:
        raise Bad()
    bounds = []
    for part in parts:
        part = re.sub(r'\s', '', part)
        if part and not (part.removeprefix('-').isdecimal()):
            raise Bad()
        bounds.append(int(part) if part else None)
    if re.search(r'\d\s+\d|-\s*-', str(el)):
        raise Unknown
    return slice(*bounds)


def of_time(cls):
    def of(el):
        if tm.missing(el):
            raise Bad(missing=True)
        if tm.is_map(el):
            return attempt(cls, **el)
        if tm.is_seq(el):
            return attempt(cls, *el)
        try:
            when = datetime.datetime.fromtimestamp(float(str(el)), datetime.timezone.utc)
        except (ValueError, OverflowError, OSError):
            if not isinstance(el, str):
                raise Bad() from None
            try:
                if issubclass(cls, datetime.time):
                    return datetime.time.fromisoformat(el)
                return datetime.datetime.fromisoformat(el)
            except ValueError:
                pass
            day = re.fullmatch(r'(\d\d?)([/.-])(\d\d?)\2(\d{4})', el, re.ASCII)
            if not day or int(day[3]) > 12 or int(day[1]) > 28:
                raise Unknown from None
            when = datetime.datetime(int(day[4]), int(day[3]), int(day[1]))
        return when.time() if issubclass(cls, datetime.time) else when
    return of


def sequence(cls, inner=('any',)):
    def of(el):
        items = plain(('list', inner), el)
        return attempt(cls, items)
    return of


def mapping(cls, key, inner):
    def of(el):
        return cls(plain(('dict', key, inner), el))
    return of


def defaults(inner):
    def of(el):
        return collections.defaultdict(None, plain(('dict', STR, inner), el))
    return of


OF = {
    'bytes': of_bytes, 'complex': of_complex, 'number': of_complex, 'slice': of_slice,
    'datetime': of_time(datetime.datetime), 'date': of_time(datetime.date), 'time': of_time(datetime.time),
    'deque': sequence(collections.deque, INT), 'mseq': sequence(list, INT),
    'mmap': mapping(dict, STR, INT), 'odict': mapping(collections.OrderedDict, ('any',), ('any',)),
    'ddict': defaults(INT), 'ddict2': defaults(('list', INT)),
    'typevar': lambda el: plain(INT, el), 'typevar2': lambda el: plain(('union', INT, STR), el),
    'set': sequence(set), 'setdt': sequence(set, ('list', INT)),
    'litset': sequence(set, ('lit', 1, 'x')),
}


def sub(cls, of):
    def made(el):
        value = of(el)
        if issubclass(cls, (datetime.date, datetime.time)):
            if isinstance(value, cls):
                return value
            if not issubclass(cls, (datetime.datetime, datetime.time)):
                value = value.date()
            return attempt(cls.fromisoformat, value.isoformat())
        return attempt(cls, value)
    return made


def refused(el):
    raise Bad()


OF.update({
    'sub Complex': sub(Complex, of_complex), 'sub Bytes': sub(Bytes, of_bytes),
    'sub Datetime': sub(Datetime, of_time(Datetime)), 'sub Date': sub(Date, of_time(Date)),
    'sub Time': sub(Time, of_time(Time)), 'sub Defaults': lambda el: Defaults(None, plain(('dict', STR, INT), el)),
    'sub Ints': sequence(Ints, INT), 'sub Numbers': sequence(Numbers, INT), 'sub Words': mapping(Words, STR, INT),
    'sub Ends': sequence(Ends, INT), 'sub Broken': refused, 'sub BrokenDatetime': refused, 'sub BrokenComplex': refused,
    'gmap': mapping(GenericMap, ('any',), ('any',)), 'gmap int': mapping(GenericMap, ('any',), ('any',)),
    'gmap2': mapping(GenericMap2, STR, INT), 'gmap3': mapping(GenericMap3, STR, INT),
    'glist': sequence(GenericList, INT), 'glist2': sequence(GenericList2), 'glist2 int': sequence(GenericList2, INT),
})


def like_json(el):
    if isinstance(el, dict):
        return all(isinstance(k, str) and like_json(v) for k, v in el.items())
    if isinstance(el, (list, tuple)):
        return all(map(like_json, el))
    return el is None or tm.is_prim(el)


def value(name, el):
    if name not in OF or not like_json(el):
        raise Unknown
    return OF[name](el)


def canon(x):
    """Of the results: which kind, and equal."""
    if isinstance(x, datetime.datetime):
        return ('datetime', x.isoformat())
    if isinstance(x, collections.defaultdict):
        return (type(x).__name__,) + tuple((tm.canon(k), tm.canon(v)) for k, v in x.items())
    return tm.canon(x)
