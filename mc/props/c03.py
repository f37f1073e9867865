"""C03: merging elements."""
import collections
import itertools
import types

from mc import model
from mc.core import Property, require
from mc.model import canon, snapshot

import marsh
from marsh import element as me

TERMS = [0, 'x', None, '???']


def shape_expr(kind, x):
    return x


def level1(terms):
    out = [{}]
    opts = ['absent'] + list(terms)
    for a, b in itertools.product(opts, opts):
        m = {}
        if a != 'absent':
            m['a'] = a
        if b != 'absent':
            m['b'] = b
        if m:
            out.append(m)
        if len(m) == 2:
            out.append({'b': b, 'a': a})
    for n in (0, 1, 2):
        for vs in itertools.product(terms[:3], repeat=n):
            out.append(list(vs) if n % 2 else tuple(vs))
    return out


def universe(depth):
    one = level1(TERMS)
    if depth == 1:
        return TERMS + one
    inner = ['absent', 0, '???', [], [1], (2, 3), {}, {'a': 1}, {'a': '???'}, {'b': [4]},
             {'c': None, 'a': 5}]
    out = TERMS + one
    for a, b in itertools.product(inner, inner):
        m = {}
        if b != 'absent':
            m['b'] = b
        if a != 'absent':
            m['a'] = a
        out.append(m)
    for a in inner[1:]:
        out.append([a])
        out.append({'x': {'y': a}, 'a': a})
    return out


WRAPS = (
    lambda x: [x], lambda x: (0, x), lambda x: [x, 'y'], lambda x: {'a': x},
    lambda x: {'a': x, 'b': 0}, lambda x: {'b': 'y', 'a': x}, lambda x: {'???': x},
)


def chains(leaves, depth, wraps):
    for n in range(depth + 1):
        for chain in itertools.product(wraps, repeat=n):
            for leaf in leaves:
                e = leaf
                for w in chain:
                    e = w(e)
                yield e


def retype(e, how):
    """The same element with other container types."""
    if model.is_map(e):
        items = [(k, retype(v, how)) for k, v in e.items()]
        if how == 1:
            return collections.OrderedDict(items)
        return types.MappingProxyType(dict(items))
    if model.is_seq(e):
        items = [retype(v, how) for v in e]
        return tuple(items) if how == 1 else items
    return e


class C03(Property):
    id = 'C03'
    bounds = (
        'all pairs of a universe of ~220 elements of depth <= 3 and all triples of ~60 '
        'elements of depth <= 2, with and without concatenation, in three container '
        'typings; all pairs of container chains of depth 3 (thorough 4), scanned and standardized alone '
        'up to depth 4 (5); thorough: all triples of the larger universe restricted to maps'
    )

    def setup(self, tier):
        self.big = universe(2)
        self.small = universe(1)
        self.deep = list(chains((0, '???', [1], {'c': 5}), 3, (WRAPS[0], *WRAPS[3:6])))
        if tier == 'thorough':
            self.deep = list(chains((0, '???', [1], {}, {'c': 5}), 4, (WRAPS[0], *WRAPS[3:6])))
        if tier == 'thorough':
            self.small = [e for e in self.big if model.is_map(e)] + TERMS + [[], [1], (1, 2)]

    def cases(self, tier):
        for e in self.big:
            yield ('single', e)
        for e in chains((0, '???', None, [], {}), 4 if tier == 'quick' else 5, WRAPS):
            yield ('single', e)
        for e in self.deep:
            yield ('deep', e)
        for e in self.big:
            yield ('pairs', e)
        for a in self.small:
            yield ('triples', a, tier == 'thorough')

    def case(self, case, stats):
        if case[0] == 'single':
            self.single(case[1], stats)
        elif case[0] == 'deep':
            for b in self.deep:
                self.fold([case[1], b], 0, stats)
        elif case[0] == 'pairs':
            for b in self.big:
                for how in (0, 1, 2):
                    self.fold([case[1], b], how, stats)
        else:
            for b in self.small:
                for c in self.small:
                    self.fold([case[1], b, c], 0, stats)

    def fold(self, elements, how, stats):
        if how:
            elements = [retype(e, (how + i) % 3) if i % 2 == 0 or how == 2 else e
                        for i, e in enumerate(elements)]
        stats.traces += 1
        for concatenate in (False, True):
            stats.step()
            before = [snapshot(e) for e in elements]
            got = me.merge(*elements, concatenate=concatenate)
            want = model.merge(*elements, concatenate=concatenate)
            require(canon(got) == canon(want),
                    lambda: f'merge{tuple(elements)!r} concatenate={concatenate}: gave {got!r}, '
                            f'expected {want!r}')
            require([snapshot(e) for e in elements] == before,
                    lambda: f'merge{tuple(elements)!r}: an input was modified')
            require(me.has_missing(got) == model.has_missing(want),
                    lambda: f'has_missing({got!r}) is {me.has_missing(got)}')
            stats.state(canon(got))
            stats.outcome(repr(canon(got)))
        if len(elements) == 2:
            default = me.merge(*elements)
            require(canon(default) == canon(model.merge(*elements)),
                    lambda: f'merge{tuple(elements)!r}: sequences are not replaced by default')

    def single(self, e, stats):
        stats.traces += 1
        for how in (0, 1, 2):
            x = retype(e, how) if how else e
            before = snapshot(x)
            stats.step(6)
            require(canon(me.merge(x)) == canon(x), f'merge({x!r}) is {me.merge(x)!r}')
            require(canon(me.merge(x, x)) == canon(x),
                    f'merging {x!r} with itself gave {me.merge(x, x)!r}')
            require(me.has_missing(x) == model.has_missing(x),
                    f'has_missing({x!r}) is {me.has_missing(x)}')
            for mt, st in ((dict, tuple), (collections.OrderedDict, list), (dict, list)):
                got = me.standardize(x, mapping_type=mt, sequence_type=st)
                require(canon(got) == canon(x) and self.typed(got, mt, st),
                        f'standardize({x!r}, {mt.__name__}, {st.__name__}) gave {got!r}')
            got = me.standardize(x)
            require(canon(got) == canon(x) and self.typed(got, dict, tuple),
                    f'standardize({x!r}) gave {got!r}')
            require(snapshot(x) == before, f'{x!r} was modified')
            stats.state(canon(x))

    def typed(self, e, mt, st):
        if model.is_map(e):
            return type(e) is mt and all(self.typed(v, mt, st) for v in e.values())
        if model.is_seq(e):
            return type(e) is st and all(self.typed(v, mt, st) for v in e)
        return True


PROPERTY = C03()
