"""C23: --config-out and --output: what is written reproduces the run, where it is asked for."""
import datetime
import itertools
import json
import os
import shutil
import time
from typing import Any

import yaml

from mc import cli, types_model
from mc.core import Property, require
from mc.model import canon, canon_unordered
from mc.props import c05

import marsh

VALUES = [
    '1', "'1'", '-2.5', '1e300', 'inf', 'nan', 'true', "'true'", 'null', "'null'", "''", 'x', "' x '", "'a: b'", "'#c'", "'- a'", "'{x}'", "'2020-01-02'",
    "'1:30'", "'0x1f'", "'1e3'", "'yes'", "'~'", "'*a'", "'&a'", "'!t'", "'%'", "'@x'", "'`'", "'|'", "'>'", "'a\\nb'", "'\t'", '\u00e9', '"it\'s"', "'\"'",
    "'\\\\'", '\U0001f600', "'<<'", "'='", "'.'", "'...'", "'---'", "'1_000'", "'\u2028'", '[]', '{}', '()', '[[],{}]', '[1,[2,{a:b}]]', "{'1':2}", "{'':1}",
    "{'a.b':{c:1}}", "{'null':1,'true':2,'~':3}", '{z:1,a:2,m:{y:1,b:2}}', "{'a: b':1}", "{'<<':1}", "[null,true,1.0,1]", '123456789012345678901234567890', "'\x7f'", "'\ufeff'",
    "{_meta_:{k:1}}", "'???x'", "'${x'", "{'#':1}", "'\\r'", "'a\\n\\n b\\n'",
]
MENU = [m for m in c05.MENU if '???' not in m]
WAYS = ('w.yaml', 'w.yml', 'w.json', 'sub/w.YAML', '-')
ZONES = ('UTC', 'Pacific/Kiritimati', 'Pacific/Pago_Pago', 'Asia/Kolkata')
PATTERNS = ('%Y-%m-%d', 'run/%j/%H', 'x%%Y', 'plain', '%Y%m%dT%H', None)


class C23(Property):
    id = 'C23'
    bounds = (
        f'every command line of one and two (thorough three) overrides of a menu of {len(MENU)} and of {len(VALUES)} values (alone, nested, as keys), '
        f'written in {len(WAYS)} ways and run again from what was written, split before every override; '
        f'{len(PATTERNS)} output directory patterns x {len(ZONES)} time zones'
    )

    def setup(self, tier):
        self.root = cli.scratch()
        self.calls = []

        def app(config):
            self.calls.append((config, os.getcwd()))
            return 'returned'

        self.entry = marsh.main(app, config=Any)

    def cases(self, tier):
        for v in VALUES:
            yield 'value', f'a={v}'
            yield 'value', f'a=[0,{v}]'
            yield 'value', f'a.b={{c:{v}}}'
            if v[0] not in '[({':
                yield 'value', f'={{{v}:1}}'
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for w in itertools.product(MENU, repeat=n):
                yield ('value', *w)
        for zone in ZONES:
            for pattern in PATTERNS:
                for old in (0, 1):
                    yield 'output', zone, pattern, old

    def case(self, case, stats):
        stats.distinct()
        stats.traces += 1
        base = os.path.join(self.root, str(os.getpid()))
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(os.path.join(base, 'sub'))
        for name, content in c05.CONFIGS.items():
            with open(os.path.join(base, name), 'w') as fp:
                if name.endswith('.json'):
                    json.dump(content, fp)
                else:
                    yaml.safe_dump(content, fp, sort_keys=False)
        home = os.getcwd()
        os.chdir(base)
        try:
            getattr(self, case[0])(base, stats, *case[1:])
        finally:
            os.chdir(home)

    def run(self, argv, stats):
        stats.step()
        self.calls.clear()
        o = cli.run(self.entry, argv)
        return o, list(self.calls)

    def value(self, base, stats, *overrides):
        o, calls = self.run(list(overrides), stats)
        where = lambda: f'{list(overrides)!r}'
        require(o.error is None, lambda: f'{where()}: {o.brief()}')
        if o.exit is not None:
            require(o.exit == 1 and not calls, lambda: f'{where()}: {o.brief()}')
            stats.count('refused')
            return
        require(len(calls) == 1, where)
        first = calls[0][0]
        stats.outcome(repr(canon(first)))
        scalar = not isinstance(first, (dict, list, tuple))
        for i, way in enumerate(WAYS):
            argv = [*overrides, f'--config-out={way}'] if i % 2 else [f'--config-out={way}', *overrides]
            o, again = self.run(argv, stats)
            require(o.error is None and o.exit is None and len(again) == 1 and canon(again[0][0]) == canon(first), lambda: (
                f'{where()} with --config-out={way}: {o.brief()} {again}, without: {first!r}'))
            name = way
            if way == '-':
                name = 'out.yaml'
                with open(name, 'w', newline='') as fp:
                    fp.write(o.out)
            else:
                require(o.out == '', lambda: f'{where()}: printed {o.out!r}')
            if scalar:
                continue      # a configuration file holds a mapping or a sequence
            o, again = self.run([f'@{name}'], stats)
            form = canon if way.endswith('.json') else canon_unordered
            require(o.error is None and o.exit is None and len(again) == 1 and form(again[0][0]) == form(first), lambda: (
                f'{where()}: the run with what --config-out={way} wrote: {o.brief()} got {again}, first run: {first!r}'))
            read = marsh.config.load(name)
            require(form(read) == form(first), lambda: f'{where()}: {way} is read as {read!r}')
        # written in the middle of a history, then continued
        for k in range(1, len(overrides)):
            o, part = self.run([*overrides[:k], '--config-out', 'part.json'], stats)
            if o.exit is not None or not isinstance(part[0][0], (dict, list, tuple)) or any('_meta_' in x for x in overrides[:k]):
                continue
            o, again = self.run(['@part', *overrides[k:]], stats)
            require(o.error is None and o.exit is None and len(again) == 1 and canon(again[0][0]) == canon(first), lambda: (
                f'{where()}: continued after {k} from a written configuration: {o.brief()} got {again}, in one go {first!r}'))

    def output(self, base, stats, zone, pattern, old):
        before_tz = os.environ.get('TZ')
        os.environ['TZ'] = zone
        time.tzset()
        try:
            utc = datetime.timezone.utc
            text = pattern or 'jobs/%Y%m%dT%H%M%S.%fZ'
            argv = ['a=1', '-o'] if pattern is None else ['-o', pattern, 'a=1', '--config-out', 'w.yaml']
            if old:
                for minute in (0, 1):
                    os.makedirs((datetime.datetime.now(utc) + datetime.timedelta(minutes=minute)).strftime(text), exist_ok=True)
            start = datetime.datetime.now(utc)
            o, calls = self.run(argv, stats)
            end = datetime.datetime.now(utc)
            where = lambda: f'{zone} {argv}: {o.brief()}'
            require(o.exit is None and o.error is None and len(calls) == 1, where)
            ran = os.path.relpath(calls[0][1], os.path.realpath(base))
            low, high = (os.path.normpath(t.strftime(text)) for t in (start, end))
            require(len(ran) == len(low) and min(low, high) <= ran <= max(low, high), lambda: (
                f'{where()}: ran in {ran}, expected {low}'))
            require(os.path.samefile(os.getcwd(), base), lambda: f'{where()}: ended in {os.getcwd()}')
            if pattern is not None:
                require(os.listdir(os.path.join(base, ran)) == ['w.yaml'], lambda: f'{where()}: files {os.listdir(os.path.join(base, ran))}')
        finally:
            if before_tz is None:
                os.environ.pop('TZ')
            else:
                os.environ['TZ'] = before_tz
            time.tzset()


PROPERTY = C23()
