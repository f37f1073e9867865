"""C28: options act as documented, in every order, spelling and combination."""
import dataclasses
import itertools
import json
import logging
import os
import re
import shutil
import time
from typing import Any, Dict

import yaml

from mc import cli
from mc.core import Property, require

import marsh

# spelling -> what it asks for (ABS stands for the scratch directory)
OPTIONS = {
    'dir': {
        (): None, ('-c', 'd'): 'd', ('-cd',): 'd', ('--config-dir', 'd'): 'd', ('--config-dir=d',): 'd', ('--config-d', 'd/e'): 'd/e', ('-c', 'ABS/d'): 'd',
    },
    'out': {
        (): None, ('-o', 'o1'): 'o1', ('-oo1',): 'o1', ('--output', 'o1/o2'): 'o1/o2', ('--output=o1',): 'o1', ('--out', 'ABS/d'): 'd', ('-o',): 'jobs',
        ('--output',): 'jobs',
    },
    'write': {
        (): None, ('--config-out', 'w.yaml'): 'w.yaml', ('--config-out=w.json',): 'w.json', ('--config-o', 'ABS/z.yml'): 'ABS/z.yml', ('--config-out',): '-',
        ('--config-out', '-'): '-', ('--config-out=-',): '-',
    },
    'level': {
        (): 'INFO', ('--logging-level', 'DEBUG'): 'DEBUG', ('--logging-level=ERROR',): 'ERROR', ('--logging-l', 'NOTSET'): 'NOTSET',
        ('--logging-level', 'WARNING'): 'WARNING', ('--logging-level', 'CRITICAL'): 'CRITICAL', ('--logging-level', 'INFO'): 'INFO',
    },
    'format': {
        (): '%(asctime)s %(levelname)s: %(message)s', ('--logging-format', '%(levelname)s|%(message)s'): '%(levelname)s|%(message)s',
        ('--logging-format=<%(message)s>',): '<%(message)s>', ('--logging-f', '%(name)s %(message)s %(levelno)d%%'): '%(name)s %(message)s %(levelno)d%%',
    },
    'help': {(): None, ('-h',): '', ('--help',): '', ('-h', 'a'): 'a', ('--help', 'c.k'): 'c.k', ('--help=c',): 'c', ('-hb',): 'b'},
}
# what is given besides them
OVERRIDES = {
    (): 'missing', ('a=1',): {'a': 1}, ('@x',): 'x', ('a=1', '+@x', 'b=q'): 'both', ('c.k=[1]', '@x'): 'x', ('@x', 'a=${b}'): 'reference', ('a=-1',): {'a': -1},
    ('@nope',): 'fail',
}
FILES = {
    'x.yaml': {'a': 10, 'b': 'here'}, 'd/x.yaml': {'a': 20, 'b': 'there'}, 'd/e/x.json': {'a': 30, 'b': '77'},
}
LEVELS = ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL')
JOBS = re.compile(r'jobs/\d{8}T\d{6}\.\d{6}Z$')
STAMP = re.compile(r'^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} ')
BEFORE = (
    ('-c', 'd', '@x'), ('-o', 'o9', '--config-out', 'w.json', 'a=5'), ('-h',), ('--nope',), ('@nope',), ('a=x',), ('--logging-level', 'CRITICAL', '--logging-format', '!', 'a=5'),
    ('--logging-level', 'DEBUG', 'a=5', 'b=q', '--config-out'),
)
PICK = {
    'dir': ('-c', 'd'), 'out': ('-o', 'o1'), 'write': ('--config-out', 'w.yaml'), 'level': ('--logging-level', 'DEBUG'),
    'format': ('--logging-format=<%(message)s>',), 'help': ('-h',),
}
NAMES = tuple(OPTIONS)


@dataclasses.dataclass
class Top:
    a: int
    b: str = 'd'
    c: Any = None


def listing(base):
    return {os.path.relpath(os.path.join(d, n), base) for d, ds, fs in os.walk(base) for n in (*ds, *fs)}


class C28(Property):
    id = 'C28'
    bounds = (
        f'every combination of {" x ".join(str(len(o)) for o in OPTIONS.values())} spellings of the options with {len(OVERRIDES)} lists of overrides '
        '(quick: every pair of options, thorough: all), before and after them and behind `--`; every order of every subset of the options; every option given '
        f'twice in every two spellings; each of {len(BEFORE)} earlier runs of the same program; 4 programs (function or config type, with and without logging)'
    )

    def setup(self, tier):
        self.root = cli.scratch()
        self.calls = []

        def do(a, b, c):
            self.calls.append((a, b, c, os.getcwd()))
            log = logging.getLogger('of.program')
            for level in LEVELS:
                log.log(getattr(logging, level), 'said %s', level.lower())
            return 'returned'

        def app(a: int, b: str = 'd', c: Any = None):
            """Runs."""
            return do(a, b, c)

        def capp(top: Top):
            return do(top.a, top.b, top.c)

        self.entries = (
            marsh.main(app), marsh.main(app, setup_logging=True), marsh.main(capp, config=Top), marsh.main(capp, config=Top, setup_logging=True),
        )

    def cases(self, tier):
        if tier == 'quick':
            for one, two in itertools.combinations(NAMES, 2):
                for s in OPTIONS[one]:
                    for t in OPTIONS[two]:
                        for program in range(4):
                            yield 'given', program, ((one, s), (two, t))
        else:
            for pick in itertools.product(*(OPTIONS[n] for n in NAMES[:-1])):
                for program in (1, 3):
                    yield 'given', program, tuple(zip(NAMES, pick))
            for pick in itertools.product(*(OPTIONS[n] for n in ('dir', 'out', 'write', 'help'))):
                for program in range(4):
                    yield 'given', program, tuple(zip(('dir', 'out', 'write', 'help'), pick))
        for n in range(len(NAMES) + 1):
            for subset in itertools.permutations(NAMES, n):
                yield 'given', 1 + 2 * (n % 2), tuple((name, PICK[name]) for name in subset)
        for name in NAMES:
            for s, t in itertools.product(tuple(OPTIONS[name])[1:], repeat=2):
                for program in range(4):
                    yield 'given', program, ((name, s), (name, t))
        for before in range(len(BEFORE)):
            for name in NAMES:
                for s in OPTIONS[name]:
                    for program in range(4):
                        yield 'again', program, before, ((name, s),)

    def case(self, case, stats):
        stats.distinct()
        stats.traces += 1
        base = os.path.join(self.root, str(os.getpid()))
        home = os.getcwd()
        old = os.environ.pop('MARSH_FULL_ERROR', None)
        root = logging.getLogger()
        handlers, level = root.handlers[:], root.level
        few = case[0] == 'again' or case[0] == 'given' and len(case[2]) > 3
        try:
            for overrides in tuple(OVERRIDES)[3:6] if few else OVERRIDES:
                for where in ('after', 'before', 'behind'):
                    shutil.rmtree(base, ignore_errors=True)
                    os.makedirs(os.path.join(base, 'd', 'e'))
                    for name, data in FILES.items():
                        with open(os.path.join(base, name), 'w') as fp:
                            json.dump(data, fp)
                    os.chdir(base)
                    root.handlers[:] = []
                    root.setLevel(logging.WARNING)
                    if case[0] == 'again':
                        cli.run(self.entries[case[1]], BEFORE[case[2]])
                        for made in listing(base) - {'d', 'd/e', *FILES}:
                            shutil.rmtree(made, ignore_errors=True)
                            if os.path.isfile(made):
                                os.remove(made)
                        root.handlers[:] = []
                        root.setLevel(logging.WARNING)
                    self.given(case, case[1], case[-1], overrides, where, base, stats)
        finally:
            root.handlers[:] = handlers
            root.setLevel(level)
            os.chdir(home)
            if old is not None:
                os.environ['MARSH_FULL_ERROR'] = old

    def given(self, case, program, options, overrides, where, base, stats):
        sets_logging = program % 2 == 1
        asked = {name: OPTIONS[name][()] for name in NAMES}
        argv = []
        for name, spelling in options:
            asked[name] = OPTIONS[name][spelling] if spelling else asked[name]
            argv += [s.replace('ABS', base) for s in spelling]
        last = next((s for _, s in reversed(options) if s), ())
        if where == 'after':
            if overrides and len(last) == 1 and last[0] in ('-o', '--output', '--config-out', '-h', '--help'):
                return   # would be taken as the value of the option
            argv += overrides
        elif where == 'before':
            argv = [*overrides, *argv]
        else:
            argv += ['--', *overrides]
        self.calls.clear()
        before = listing(base)
        start = time.time()
        o = cli.run(self.entries[program], argv)
        stats.step()
        says = lambda: f'{case}: arguments {argv!r}: {o.brief()}'
        made = listing(base) - before
        require(os.getcwd() == base, lambda: f'{says()}: the working directory is {os.getcwd()} afterwards')
        require(o.error is None, lambda: f'{says()}: expected no traceback')
        logging_given = any(name in ('level', 'format') and s for name, s in options)
        root = logging.getLogger()
        if logging_given and not sets_logging:
            require(o.exit == 2 and not made and not self.calls and not o.out and 'usage' in o.err, lambda: f'{says()}: expected the usage')
            return
        if asked['help'] is not None:
            require(o.exit == (0 if asked['help'] in ('', 'a', 'b', 'c') else 1), lambda: f'{says()}: expected the help')
            require(not made and not self.calls and o.out and not root.handlers, lambda: f'{says()}: expected nothing besides the help')
            require(('fields:' in o.out) == (asked['help'] == '') and (asked['help'] != 'a' or 'int' in o.out), lambda: f'{says()}: expected the help')
            return
        # the configuration
        here = os.path.normpath(os.path.join(asked['dir'] or '.', '.'))
        x = FILES[{'.': 'x.yaml', 'd': 'd/x.yaml', 'd/e': 'd/e/x.json'}[here]]
        kind = OVERRIDES[overrides]
        if isinstance(kind, dict):
            config = kind
        elif kind == 'x':
            config = x
        elif kind == 'both':
            config = {'a': x['a'], 'b': 'q'}
        elif kind == 'reference':
            config = dict(x, a=x['b'])
        else:
            config = None
        if kind == 'fail':
            require(o.exit == 1 and not made and not self.calls and 'nope' in o.out, lambda: f'{says()}: expected a message about the file')
            return
        # logging
        if sets_logging:
            require(len(root.handlers) == 1 and root.level == getattr(logging, asked['level']), lambda: (
                f'{says()}: {len(root.handlers)} handlers with level {root.level}, expected {asked["level"]}'))
        else:
            require(not root.handlers and root.level == logging.WARNING, lambda: f'{says()}: logging was set up')
        # the output directory
        place = base
        if asked['out'] == 'jobs':
            jobs = [m for m in made if JOBS.match(m)]
            require(len(jobs) == 1, lambda: f'{says()}: made {sorted(made)}, expected a directory of jobs')
            stamp = time.mktime(time.strptime(jobs[0][5:-8], '%Y%m%dT%H%M%S')) - time.timezone
            require(int(start) <= stamp <= time.time() + 1, lambda: f'{says()}: the directory {jobs[0]} is named {stamp}, it was {start}')
            expected = {'jobs', jobs[0]}
            place = os.path.join(base, jobs[0])
        elif asked['out']:
            place = os.path.join(base, asked['out'])
            expected = {'d': set(), 'o1': {'o1'}, 'o1/o2': {'o1', 'o1/o2'}}[asked['out']]
        else:
            expected = set()
        # the written configuration
        text = None
        if asked['write'] == '-':
            text = o.out
        elif asked['write']:
            path = os.path.normpath(os.path.join(place, asked['write'].replace('ABS', base)))
            if config is not None or path in made or os.path.exists(path):
                require(os.path.isfile(path), lambda: f'{says()}: made {sorted(made)}, expected {path}')
                with open(path) as fp:
                    text = fp.read()
            expected = expected | ({os.path.relpath(path, base)} if os.path.exists(path) else set())
        require(made == expected, lambda: f'{says()}: made {sorted(made)}, expected {sorted(expected)}')
        if config is not None and text is not None:
            head = text
            if asked['write'] == '-' and not self.calls and o.exit == 1:
                head = text[:text.find('failed to unmarshal')]
            got = json.loads(head) if asked['write'] == 'w.json' else yaml.safe_load(head)
            require(got == config, lambda: f'{says()}: wrote {text!r}, expected {config}')
        # the call
        a = config and config.get('a')
        if isinstance(a, int) or isinstance(a, str) and a.isdigit():
            require(o.exit is None and o.value == 'returned' and self.calls == [(int(a), config.get('b', 'd'), None, place)], lambda: (
                f'{says()}: expected a call with {config} in {place}'))
            if sets_logging:
                want = [
                    asked['format'] % dict(message=f'said {level.lower()}', levelname=level, name='of.program', levelno=getattr(logging, level), asctime='')
                    for level in LEVELS if getattr(logging, level) >= getattr(logging, asked['level'])
                ]
                lines = o.err.splitlines()
                if 'asctime' in asked['format']:
                    require(all(STAMP.match(line) for line in lines), lambda: f'{says()}: no time in the log')
                    lines = [STAMP.sub(' ', line) for line in lines]
                require(lines == want, lambda: f'{says()}: logged {lines}, expected {want}')
            if text is None or asked['write'] != '-':
                require(not o.out, lambda: f'{says()}: expected no output')
        else:
            require(o.exit == 1 and not self.calls and 'failed to unmarshal' in o.out, lambda: f'{says()}: expected a refusal')
        stats.outcome((asked['write'], asked['out'], o.exit))


PROPERTY = C28()
