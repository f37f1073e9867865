"""C24: references between values are resolved once everything is known, meta data is dropped."""
import itertools
import json
import os
import re
import shutil
from typing import Any

import omegaconf
import yaml

from mc import cli, model
from mc.core import Property, require
from mc.model import canon, canon_unordered, snapshot

import marsh
from marsh import errors

# values of a place; @ stands for a reference to be filled in
PLAIN = ('1', "'s'", 'null', '1.5', 'true', '[1,2]', '{k:5,j:{i:6}}')
REFS = (
    "'${a}'", "'${b}'", "'${c}'", "'p${a}q'", "'${b}-${c}'", "'${b.k}'", "'${c.j}'", "'${c.k.x}'", "'${_meta_.m}'", "['${a}',7]", "{k:'${c}'}",
    "{k:1,j:'${.k}'}", "'${b.0}'", "'${n}'", "{k:'${..a}'}", "'${${_meta_.m}}'", "['${b}',{k:'${a}'}]",
)
META = ('absent', '9', "'b'", '{x:1}', "'${c}'")


class Loop(Exception):
    pass


class Bad(Exception):
    pass


class Resolver:
    """Reference: every `${path}` is replaced by the resolved value of that
    path: as it is when it is the entire text, else as text."""

    def __init__(self, root):
        self.root = root

    def run(self):
        return self.value(self.root, (), ())

    def value(self, v, at, active):
        if model.is_map(v):
            return {k: self.value(x, at + (k,), active) for k, x in v.items()}
        if model.is_seq(v):
            return [self.value(x, at + (str(i),), active) for i, x in enumerate(v)]
        if isinstance(v, str) and '${' in v:
            if at in active:
                raise Loop()
            return self.text(v, at, active + (at,))
        return v

    def text(self, v, at, active):
        mixed = v in ('p${a}q', '${b}-${c}')
        out, i, parts = [], 0, []
        while i < len(v):
            if v.startswith('${', i):
                depth, j = 0, i
                while True:
                    if v.startswith('${', j):
                        depth += 1
                        j += 2
                        continue
                    if v[j] == '}':
                        depth -= 1
                        if depth == 0:
                            break
                    j += 1
                inner = v[i + 2:j]
                if '${' in inner:
                    inner = self.text(inner, at, active)
                    if not isinstance(inner, str):
                        raise Bad()
                parts.append(('ref', self.lookup(inner, at, active, mixed)))
                i = j + 1
            else:
                parts.append(('chr', v[i]))
                i += 1
        if len(parts) == 1 and parts[0][0] == 'ref':
            return parts[0][1]
        for kind, p in parts:
            if isinstance(p, (dict, list)):
                raise Unclear()
            out.append(str(p))
        return ''.join(out)

    def lookup(self, path, at, active, mixed=False):
        m = re.fullmatch(r'(\.*)(.*)', path)
        dots, fields = m.group(1), [f for f in m.group(2).split('.') if f]
        base = ()
        if dots:
            base = at[:len(at) - len(dots)]
            if len(dots) > len(at):
                raise Bad()
        node = self.root
        place = ()
        for f in (*base, *fields):
            if isinstance(node, str) and '${' in node:
                # a reference in the middle of the path
                if place in active:
                    raise Loop()
                node = self.text(node, place, active + (place,))
                return self.walk(node, (*base, *fields)[len(place):])
            node, place = self.child(node, f), place + (f,)
        if mixed and isinstance(node, (dict, list, tuple)):
            raise Unclear()
        if place in active or any(a[:len(place)] == place for a in active):
            raise Loop()
        return self.value(node, place, active)

    def walk(self, node, fields):
        for f in fields:
            node = self.child(node, f)
        return node

    def child(self, node, f):
        if model.is_map(node):
            if f not in node:
                raise Bad()
            return node[f]
        if model.is_seq(node):
            if not f.isdigit() or int(f) >= len(node):
                raise Bad()
            return node[int(f)]
        raise Bad()


class Unclear(Exception):
    """Whatever omegaconf makes of it."""


def parse(text):
    return marsh.parse.element(text)


class C24(Property):
    id = 'C24'
    bounds = (
        f'every assignment of three places and a meta value out of {len(PLAIN)} plain values, {len(REFS)} references and {len(META)} meta values '
        '(quick: one or two references, the latter next to a number or a mapping), as a command line in every rotation forwards and backwards, as an element and as a config file'
    )
    assumptions = ('cases where a container would become part of a longer text are left out (left_out)',)

    def setup(self, tier):
        self.root = cli.scratch()
        self.calls = []

        def app(config):
            self.calls.append(config)

        self.entry = marsh.main(app, config=Any)

    def cases(self, tier):
        for a in PLAIN + REFS:
            for b in PLAIN + REFS:
                for c in PLAIN + REFS:
                    n = (a in REFS) + (b in REFS) + (c in REFS)
                    if tier == 'quick' and (n == 0 or n > 2 or n == 2 and not {a, b, c} & {'1', PLAIN[-1]}):
                        continue
                    for m in META:
                        if m == 'absent' or any('_meta_' in x for x in (a, b, c)):
                            yield a, b, c, m

    def case(self, case, stats):
        stats.distinct()
        stats.traces += 1
        a, b, c, m = case
        items = {'a': parse(a), 'b': parse(b), 'c': parse(c)}
        if m != 'absent':
            items['_meta_'] = {'m': parse(m)}
        resolver = Resolver(items)
        try:
            want = resolver.run()
        except (Bad, Loop):
            want = 'refused'
        except Unclear:
            stats.count('left_out')
            return
        stats.outcome(repr(want))
        kept = want
        if isinstance(want, dict):
            want = {k: v for k, v in want.items() if k != '_meta_'}
        where = lambda: f'{case}'
        # as an element
        before = snapshot(items)
        stats.step()
        try:
            got = marsh.element.resolve(items)
        except (errors.MarshError, omegaconf.errors.OmegaConfBaseException):
            got = 'refused'
        require(snapshot(items) == before, lambda: f'{where()}: resolving modified the element')
        require(canon(got) == canon(kept), lambda: f'{where()}: resolved into {got!r}, expected {kept!r}')
        # as a command line, in every order
        overrides = [f'a={a}', f'b={b}', f'c={c}']
        if m != 'absent':
            overrides.append(f'_meta_.m={m}')
        for i in range(len(overrides)):
            self.cli(overrides[i:] + overrides[:i], want, where, stats)
            self.cli((overrides[i:] + overrides[:i])[::-1], want, where, stats)
        # a value that is replaced later is never looked at
        self.cli(["a='${nowhere}'", "d='${nowhere}'", *overrides, '~d'], want, where, stats)
        # as config files
        base = os.path.join(self.root, str(os.getpid()))
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        for name, dump in (('f.yaml', lambda x, fp: yaml.safe_dump(model_plain(x), fp, sort_keys=False)), ('f.json', json.dump)):
            path = os.path.join(base, name)
            with open(path, 'w') as fp:
                dump(items, fp)
            stats.step()
            raw = marsh.config.load(path, resolve=False, keep_meta=True)
            require(canon(raw) == canon(items), lambda: f'{where()}: {name} is read as {raw!r} without resolving')
            raw = marsh.config.load(path, resolve=False)
            require(canon(raw) == canon({k: v for k, v in items.items() if k != '_meta_'}), lambda: f'{where()}: {name} is read as {raw!r} without resolving and meta')
            for keep in (True, False):
                try:
                    got = marsh.config.load(path, keep_meta=keep)
                except (errors.MarshError, omegaconf.errors.OmegaConfBaseException):
                    got = 'refused'
                require(canon(got) == canon(kept if keep else want), lambda: f'{where()}: {name} (meta kept: {keep}) is read as {got!r}, expected {kept if keep else want!r}')
            self.cli([f'@{path}'], want, where, stats)
        # meta and the rest in two files: what is known is known together
        if m != 'absent':
            first, second = os.path.join(base, 'm.yaml'), os.path.join(base, 'r.json')
            with open(first, 'w') as fp:
                yaml.safe_dump(model_plain({'_meta_': items['_meta_'], 'c': items['c']}), fp)
            with open(second, 'w') as fp:
                json.dump({'a': items['a'], 'b': items['b']}, fp)
            self.cli([f'@{first},{second}'], want, where, stats)
            try:
                got = marsh.config.load(first, second)
            except (errors.MarshError, omegaconf.errors.OmegaConfBaseException):
                got = 'refused'
            require(canon_unordered(got) == canon_unordered(want), lambda: f'{where()}: two files are read as {got!r}, expected {want!r}')

    def cli(self, argv, want, where, stats):
        stats.step()
        self.calls.clear()
        o = cli.run(self.entry, list(argv))
        if want == 'refused':
            require(o.error is None and o.exit == 1 and not self.calls and o.out.startswith('failed to load configuration: '), lambda: (
                f'{where()}: {argv}: expected to be refused: {o.brief()} {self.calls}'))
            return
        require(o.error is None and o.exit is None and len(self.calls) == 1, lambda: f'{where()}: {argv}: {o.brief()}, expected {want!r}')
        require(canon_unordered(self.calls[0]) == canon_unordered(want), lambda: f'{where()}: {argv}: got {self.calls[0]!r}, expected {want!r}')


def model_plain(x):
    if model.is_map(x):
        return {k: model_plain(v) for k, v in x.items()}
    if model.is_seq(x):
        return [model_plain(v) for v in x]
    return x


PROPERTY = C24()
