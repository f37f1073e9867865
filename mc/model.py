"""Reference models (boring, in plain python) used as oracles by the checks."""
import collections
import collections.abc
import types

from mc.props.c01 import ref_split

MISSING = '???'


class Reject(Exception):
    """The model refuses the operation; ``fields`` is the deepest location that
    exists on the way to the refused place."""

    def __init__(self, fields=()):
        super().__init__(tuple(fields))
        self.fields = tuple(fields)


def is_map(x):
    return isinstance(x, (collections.abc.Mapping,))


def is_seq(x):
    return (
        isinstance(x, (list, tuple, collections.deque, collections.UserList))
        and not isinstance(x, (str, bytes))
    )


def is_missing(x):
    return isinstance(x, str) and x == MISSING


def canon(x):
    """Canonical, type faithful and order faithful form of an element."""
    if is_map(x):
        return ('m',) + tuple((repr(k), canon(x[k])) for k in x)
    if is_seq(x):
        return ('s',) + tuple(canon(v) for v in x)
    return (type(x).__name__, repr(x))


def canon_unordered(x):
    if is_map(x):
        return ('m',) + tuple(sorted((repr(k), canon_unordered(x[k])) for k in x))
    if is_seq(x):
        return ('s',) + tuple(canon_unordered(v) for v in x)
    return (type(x).__name__, repr(x))


def snapshot(x):
    """Like canon, but records the container types as well (mutation check)."""
    if is_map(x):
        return (type(x).__name__, id(x)) + tuple((repr(k), snapshot(x[k])) for k in x)
    if is_seq(x):
        return (type(x).__name__, id(x)) + tuple(snapshot(v) for v in x)
    return (type(x).__name__, repr(x))


def index_of(field, length, limit):
    try:
        i = int(field)
    except ValueError:
        return None
    if i < 0:
        i += length
    if 0 <= i < limit:
        return i
    return None


def select(e, fields, done=()):
    if not fields:
        return e
    f, rest = fields[0], fields[1:]
    if is_map(e):
        if f not in e:
            raise Reject(done)
        return select(e[f], rest, done + (f,))
    if is_seq(e):
        i = index_of(f, len(e), len(e))
        if i is None:
            raise Reject(done)
        return select(e[i], rest, done + (f,))
    raise Reject(done)


def override(e, fields, value, combine=False, done=()):
    if not fields:
        if combine and is_map(e) and is_map(value):
            out = dict(e)
            out.update(value)
            return out
        if combine and is_seq(e) and is_seq(value):
            return tuple(e) + tuple(value)
        return value
    f, rest = fields[0], fields[1:]
    if is_missing(e):
        e = {}
    if is_map(e):
        out = dict(e)
        out[f] = override(out.get(f, {}), rest, value, combine, done + (f,))
        return out
    if is_seq(e):
        i = index_of(f, len(e), len(e) + 1)
        if i is None:
            raise Reject(done)
        out = list(e)
        if i == len(out):
            out.append({})
        out[i] = override(out[i], rest, value, combine, done + (f,))
        return tuple(out)
    raise Reject(done)


def remove(e, fields, done=()):
    if not fields:
        raise Reject(done)
    f, rest = fields[0], fields[1:]
    if is_map(e):
        if f not in e:
            raise Reject(done)
        out = dict(e)
        if rest:
            out[f] = remove(out[f], rest, done + (f,))
        else:
            del out[f]
        return out
    if is_seq(e):
        i = index_of(f, len(e), len(e))
        if i is None:
            raise Reject(done)
        out = list(e)
        if rest:
            out[i] = remove(out[i], rest, done + (f,))
        else:
            del out[i]
        return tuple(out)
    raise Reject(done)


def merge2(a, b, concatenate=False):
    if is_map(a) and is_map(b):
        out = {}
        for k in a:
            out[k] = merge2(a[k], b[k], concatenate) if k in b else a[k]
        for k in b:
            if k not in out:
                out[k] = b[k]
        return out
    if concatenate and is_seq(a) and is_seq(b):
        return tuple(a) + tuple(b)
    if is_missing(b):
        return a
    return b


def merge(*elements, concatenate=False):
    out = elements[0]
    for e in elements[1:]:
        out = merge2(out, e, concatenate)
    return out


def has_missing(e):
    if is_missing(e):
        return True
    if is_map(e):
        return any(is_missing(k) or has_missing(v) for k, v in e.items())
    if is_seq(e):
        return any(has_missing(v) for v in e)
    return False


__all__ = [name for name in dir() if not name.startswith('_')]
