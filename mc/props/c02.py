"""C02: editing an element changes exactly the addressed value."""
import collections
import itertools
import types

from mc import model
from mc.core import Property, require
from mc.model import Reject, canon, snapshot
from mc.props.c01 import ref_split

import marsh
from marsh import element as me, errors

# initial elements; containers of several types, nested up to three levels
INITIAL = [
    "{}",
    "[]",
    "'???'",
    "5",
    "{'a': 1}",
    "{'a': {'b': 1, 'a': None}, 'b': [0, {'a': 2}]}",
    "[{'a': 1}, [1, 2], 's']",
    "({'a': [1, [2, {'b': 3}]]}, None)",
    "{'a.b': {'c d': 1}, 'a': {'b': 2}, '1': 'x', \"q'\": 4}",
    "{'a': '???', 'b': ['???', 1]}",
    "OrderedDict([('b', OrderedDict(a=1)), ('a', 2)])",
    "MappingProxyType({'a': MappingProxyType({'a': 1}), 'b': (1,)})",
    "{'a': {'a': {'a': {'a': 1}}}, 'b': [[[[7]]]]}",
]
FIELDS = ['a', 'b', '0', '1', '-1', '2', 'a.b', "q'"]
PATHS_EXTRA = ['', '.', '..', '.a', 'a.', 'a..b', '"a.b"', '-2', '-3', '1.a', '+1', 'b.1.a',
               'a.a.a', 'a.a.a.a', 'b.0.0.0', 'b.-1.a', 'a.1.1.b', '0.a.1.1.b', '"a.b"."c d"',
               'x', 'a.x', 'b.x', 'b.2', 'b.2.a', 'b.3']
VALUES = ["7", "None", "{'a': 9}", "[8]", "{}", "'???'", "{'b': {'a': [6]}}"]

NS = {'OrderedDict': collections.OrderedDict, 'MappingProxyType': types.MappingProxyType}


def build(expr):
    return eval(expr, dict(NS))


def paths(maxlen):
    out = list(PATHS_EXTRA)
    for n in range(1, maxlen + 1):
        for fs in itertools.product(FIELDS if n < 3 else FIELDS[:5], repeat=n):
            out.append('.'.join(f'"{f}"' if '.' in f or "'" in f else f for f in fs))
    return list(dict.fromkeys(out))


def operations(chosen, values):
    ops = []
    for p in chosen:
        for v in values:
            for c in (False, True):
                ops.append(('override', p, v, c))
        ops.append(('remove', p))
        ops.append(('select', p))
    return ops


def run_real(op, e):
    kind = op[0]
    if kind == 'override':
        return me.override(element=e, value=build(op[2]), path=op[1], combine=op[3])
    if kind == 'remove':
        return me.remove(element=e, path=op[1])
    return me.select(element=e, path=op[1])


def run_model(op, e):
    fields = ref_split(op[1], '.')
    kind = op[0]
    if kind == 'override':
        return model.override(e, fields, build(op[2]), op[3])
    if kind == 'remove':
        return model.remove(e, fields)
    return model.select(e, fields)


class C02(Property):
    id = 'C02'
    bounds = (
        '13 initial elements (depth <= 5, dict/OrderedDict/MappingProxy/list/tuple), every '
        'path of <= 3 fields over 8 fields plus 25 special paths, 7 values, '
        'set/combine/remove/select; all 2-operation '
        'histories whose paths are the special and single field ones from 6 of the '
        'elements (thorough: two field paths from all of them)'
    )

    def cases(self, tier):
        for init in INITIAL:
            for op in operations(paths(3), VALUES):
                yield (init, [op], None)
        if tier == 'quick':
            inits = [INITIAL[i] for i in (0, 1, 5, 6, 8, 11)]
            firsts = operations(paths(1)[:4] + FIELDS[:6] + ['a.b', 'b.1'], VALUES[:4])
            follow = 1
        else:
            inits = INITIAL
            firsts = operations(paths(2), VALUES[:4])
            follow = 2
        for init in inits:
            for op in firsts:
                if op[0] != 'select':
                    yield (init, [op], follow)

    def case(self, case, stats):
        init, ops, follow = case
        e = build(init)
        trail = [(init, e, snapshot(e))]
        for op in ops:
            e = self.edge(op, e, trail, stats, init, ops)
            if e is None:
                return
            e = e[0]
        if follow:
            for op in operations(paths(follow), VALUES[:4]):
                self.edge(op, e, trail, stats, init, list(ops) + [op])

    def edge(self, op, e, trail, stats, init, hist):
        stats.step()
        stats.traces += 1
        where = lambda: f'element {e!r}, operation {op!r} (history {hist!r} from {init})'
        before = snapshot(e)
        try:
            want = ('ok', run_model(op, e))
        except Reject as r:
            want = ('reject', r.fields)
        try:
            got = ('ok', run_real(op, e))
        except errors.PathError as err:
            got = ('reject', tuple(marsh.path.split(err.path)))
        except ValueError as err:
            got = ('value-error', err)
        require(snapshot(e) == before, lambda: f'{where()}: the input was modified')
        for name, obj, snap in trail:
            require(snapshot(obj) == snap, lambda: f'{where()}: an earlier element was modified')
        if want[0] == 'reject':
            fields = ref_split(op[1], '.')
            if op[0] == 'remove' and (not fields or not (model.is_map(e) or model.is_seq(e))):
                require(got[0] in ('reject', 'value-error'),
                        lambda: f'{where()}: accepted, gave {got[1]!r}')
                return None
            require(got[0] == 'reject',
                    lambda: f'{where()}: expected a path error, got {got!r}')
            require(got[1] == want[1],
                    lambda: f'{where()}: path error at {got[1]!r}, expected {want[1]!r}')
            stats.outcome(repr(got))
            return None
        require(got[0] == 'ok', lambda: f'{where()}: failed with {got!r}, expected {want[1]!r}')
        require(canon(got[1]) == canon(want[1]),
                lambda: f'{where()}: gave {got[1]!r}, expected {want[1]!r}')
        stats.state(canon(got[1]))
        stats.outcome(repr(canon(got[1])))
        fields = ref_split(op[1], '.')
        if op[0] == 'select':
            require(got[1] is want[1], lambda: f'{where()}: not the element that is stored there')
            sels = list(me.iterative_select(e, op[1]))
            require(len(sels) == len(fields) + 1, lambda: f'{where()}: {len(sels)} selections')
            for n, sel in enumerate(sels):
                require(sel.element is model.select(e, fields[:n])
                        and tuple(marsh.path.split(sel.path)) == fields[:n]
                        and tuple(marsh.path.split(sel.remaining_path)) == fields[n:],
                        lambda: f'{where()}: selection {n} is {sel!r}')
            return None
        if op[0] == 'override' and fields:
            # put-get
            place = fields
            back = me.select(got[1], op[1])
            if not op[3]:
                require(canon(back) == canon(build(op[2])),
                        lambda: f'{where()}: reading the path back gave {back!r}')
            require(got[1] is not e, lambda: f'{where()}: no copy was returned')
        if op[0] == 'remove':
            require(got[1] is not e, lambda: f'{where()}: no copy was returned')
        return (got[1],)


PROPERTY = C02()
