"""C05: a command line of overrides equals applying them one after the other."""
import itertools
import json
import os
from typing import Any

import yaml

from mc import cli, model, refparse
from mc.core import Property, require
from mc.model import Reject, canon
from mc.props.c01 import ref_split

import marsh

CONFIGS = {
    'c1.yaml': {'a': {'b': [1, 2], 'e': 'x'}, 'b': 1},
    'c2.json': {'a': {'b': [9]}, '_meta_': {'k': 1}, 'd': [5]},
    'c3.yml': [7, {'z': 1}],
    'sub/c4.yaml': {'a': {'b': {'c': None}}, 'f': 2.5},
}
MENU = [
    'a=1', 'a={b:1,c:{d:2}}', 'a=[1,2]', 'a.b=2', 'a.b={e:5}', 'a.b+=[3]', 'a.b+={c:[6]}',
    'a+={c:3}', 'a+=[4]', 'a.0=z', 'a.2=w', 'a.-1={b:[8]}', '~a', '~a.b', '~a.0', '={a:{b:[0]}}',
    '+={d:1}', '=[1,[2]]', 'a@c1', 'a+@c2', '@c1', '+@c2.json', 'a.b+@c3', '_meta_.x=1', 'b.c.d=null',
    '.=5', 'a=???', '+@c1,c2', '@[sub/c4,"c2"]', '0.x=q', 'a.c+={d:{x:1}}',
]
_FILES = {}


def lookup(name):
    for f in CONFIGS:
        if f == name or os.path.splitext(f)[0] == name:
            return CONFIGS[f]
    raise Reject()


def apply(element, text):
    o = refparse.override(text)
    fields = ref_split(o[1], '.')
    if o[0] == 'del':
        if not (model.is_map(element) or model.is_seq(element)) or not fields:
            raise Reject()
        return model.remove(element, fields)
    if o[0] == 'set':
        return model.override(element, fields, o[2], o[3])
    value = model.merge(*[lookup(n) for n in o[2]], concatenate=True)
    return model.override(element, fields, value, o[3])


def fold(overrides):
    element = model.MISSING
    for text in overrides:
        element = apply(element, text)
    if model.is_map(element) and '_meta_' in element:
        element = {k: v for k, v in element.items() if k != '_meta_'}
    return element


class C05(Property):
    id = 'C05'
    bounds = (
        'every command line of <=3 (thorough <=4) overrides out of a menu of 31 that '
        'set, combine, delete and load four config files at nested paths'
    )

    def setup(self, tier):
        self.dir = cli.scratch()
        for name, content in CONFIGS.items():
            path = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as fp:
                if name.endswith('.json'):
                    json.dump(content, fp)
                else:
                    yaml.safe_dump(content, fp, sort_keys=False)
        self.calls = []

        def app(config):
            self.calls.append(config)
            return 'returned'

        def kwapp(**config: Any):
            self.calls.append(config)
            return 'returned'

        self.entry = marsh.main(app, config=Any)
        self.kwentry = marsh.main(kwapp)
        self.memo = {}

    def cases(self, tier):
        yield ()
        for n in range(1, 3 if tier == 'quick' else 4):
            for w in itertools.product(MENU, repeat=n):
                yield w
        for w in itertools.product(MENU, repeat=2 if tier == 'quick' else 3):
            yield ('follow', w)

    def case(self, case, stats):
        if case and case[0] == 'follow':
            for last in MENU:
                self.one((*case[1], last), stats)
        else:
            self.one(case, stats)

    def one(self, overrides, stats):
        stats.step(len(overrides))
        stats.traces += 1
        try:
            want = ('ok', fold(overrides))
        except Reject:
            want = ('reject', None)
        except refparse.Bad:
            want = ('reject', None)
        argv = ['-c', self.dir, *overrides]
        runs = [self.entry]
        if want[0] == 'ok' and model.is_map(want[1]) and len(overrides) < 3:
            runs.append(self.kwentry)
        for entry in runs:
            self.calls.clear()
            o = cli.run(entry, argv)
            where = lambda: f'overrides {list(overrides)!r}'
            require(o.error is None, lambda: f'{where()}: {o.brief()}')
            if want[0] == 'reject' or model.has_missing(want[1]):
                require(o.exit == 1 and not self.calls and o.out.startswith('failed to '),
                        lambda: f'{where()}: expected a refusal, got calls={self.calls!r} {o.brief()}')
                stats.outcome('refused')
                continue
            require(o.exit is None and len(self.calls) == 1 and o.value == 'returned',
                    lambda: f'{where()}: expected one call with {want[1]!r}, '
                            f'got calls={self.calls!r} {o.brief()}')
            require(canon(self.calls[0]) == canon(want[1]),
                    lambda: f'{where()}: the function got {self.calls[0]!r}, expected {want[1]!r}')
            stats.state(canon(want[1]))
            stats.outcome(repr(canon(want[1])))


PROPERTY = C05()
