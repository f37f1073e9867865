"""C07: a run that can not go on ends cleanly, at the first step that fails."""
import dataclasses
import itertools
import os
import shutil
from typing import Any, Dict, List

import omegaconf

from mc import cli
from mc.core import Property, Violation, require
from mc.props.c01 import ref_split

import marsh
from marsh import errors

FILES = {
    'ok.yaml': b'k: {x: 1}\n',
    'bad.yaml': b'a: [1',
    'tab.yml': b'a:\n\t- 1\n',
    'tag.yaml': b'a: !!python/object:os.system {}\n',
    'bad1.json': b'{"a"',
    'empty.json': b'',
    'enc.yaml': b'\xff\xfe\xff',
    'two.yaml': b'a: 1\n',
    'two.json': b'{"a": 1}',
    'odd.txt': b'a: 1\n',
    'interp.yaml': b'q: ${nope}\n',
    'meta.yaml': b'_meta_: {u: "${nope}"}\n',
}
# overrides that can not be loaded -> what the message has to name
LOAD = {
    'a': '', 'a:1': '', 'a=[1': '', 'a={x': '', "a='x": '', 'a={x:1,x': '', 'a=[1]]': '', 'a=[1,[2]': '',
    'a."q=1': '', '~nope.x': 'nope', '~': '', 'a.x.y=2': 'a', '~a.x': 'a', 'a.0=1': 'a',
    '@nope': 'nope', 'c@sub/nope': 'nope', '@nope.yaml': 'nope.yaml', '@bad': 'bad.yaml', '+@bad.yaml': 'bad.yaml', '@tab': 'tab.yml', '@tag': 'tag.yaml',
    'c@bad1': 'bad1.json', '@empty.json': 'empty.json', '@enc': 'enc.yaml', '@two': 'two', '@odd': 'odd', '@odd.txt': 'odd.txt', '@': '', 'c@ok,nope': 'nope',
    'a\udcff': '', '\udcff={': '', '@\udcff': '', 'c@\udcff.json': '', '~\udcff': '', 'q=${\udcff}': '',
    'q=${nope}': 'nope', '@interp': 'nope', '@meta': 'nope', 'q=${oc.env:MC_MARSH_NOPE}': 'MC_MARSH_NOPE', 'q=${q}': 'q', 'q=${nores:1}': 'nores', 'q=${': '',
}


@dataclasses.dataclass
class Box:
    x: int
    y: Dict[str, int] = dataclasses.field(default_factory=dict)


@dataclasses.dataclass
class Top:
    a: int
    b: List[int] = dataclasses.field(default_factory=list)
    c: Dict[str, Box] = dataclasses.field(default_factory=dict)


# overrides that load but do not fit -> path of the fault
FIT = {
    (): None,
    ('a=x',): ('a',),
    ('a=1.5',): ('a',),
    ('a.k=2',): 'load',          # a is 1 already
    ('~a',): ('a',),
    ('a=???',): ('a',),
    ('b=[1,[2]]',): ('b', '1'),
    ("c={k.l:{x:'z'}}",): ('c', 'k.l', 'x'),
    ('c={k:{y:{"a b":q},x:1}}',): ('c', 'k', 'y', 'a b'),
    ('c.m={}',): ('c', 'm', 'x'),
    ('c.m={x:1,w:2}',): ('c', 'm'),
    ('w=1',): (),
    ('a=\udcff',): ('a',),
    ("c={'\udcff':{x:'z'}}",): ('c', '\udcff', 'x'),
    ('=7',): (),
}
OUT = {
    None: 'none', 'new': 'ok', 'n1/n2/n3': 'ok', '.': 'ok', 'have': 'ok', 'ABS/abs': 'ok', 'p%%q': 'ok',
    'ok.yaml': 'bad', 'ok.yaml/x': 'bad', 'no\udcff': 'usage',
}
CFG = {
    None: 'none', 'w.yaml': 'ok', 'w.json': 'ok', '-': 'ok', 'nodir/w.yaml': 'bad', 'w.odd': 'bad', 'noext': 'bad', 'have': 'bad', 'ABS/z.yml': 'ok',
}
# options of logging that can not be used
LOGGING = (
    ('--logging-level', 'NOPE'), ('--logging-level', 'info'), ('--logging-level=',), ('--logging-level',), ('--logging-format',),
    ('--logging-format', '%(nope'), ('--logging-format', '%(message)y'), ('--logging-format', 'text'),
    ('--logging-format', '\udcff'), ('--logging-level', '\udcff'),
)
# arguments a program with a config type is called with directly
DIRECT = (
    ((Top(1, [4, 5], {'k': Box(1)}),), {}), ((), {'top': Top(1, [4, 5], {'k': Box(1)})}),
)
BODY = ('return', 'marsh', 'unmarshal', 'os', 'key', 'omega', 'exit', 'interrupt', 'chdir')


class Interrupt(BaseException):
    pass


def raised(body):
    return {
        'marsh': errors.MarshError('mine', path='a.b'),
        'unmarshal': errors.UnmarshalError('mine'),
        'os': OSError('mine'),
        'key': KeyError('mine'),
        'omega': omegaconf.errors.InterpolationKeyError('mine'),
        'exit': SystemExit(7),
        'interrupt': Interrupt('mine'),
    }.get(body)


class C07(Property):
    id = 'C07'
    bounds = (
        f'{len(LOAD)} ways to fail loading x {len(FIT) - 1} ways not to fit x {len(OUT)} output directories x '
        f'{len(CFG)} --config-out targets x {len(BODY)} endings of the program x 2 programs (function, config type), '
        'with the fault before, between and after good overrides; with and without MARSH_FULL_ERROR; '
        f'{len(LOGGING)} unusable options of logging; programs called directly with their arguments'
    )

    def setup(self, tier):
        self.root = cli.scratch()
        self.calls = []
        self.body = 'return'
        self.env = None

        def do(*given):
            self.calls.append((given, os.getcwd()))
            if self.body == 'chdir':
                os.chdir('/')
            err = raised(self.body)
            if err is not None:
                self.error = err
                raise err
            return 'returned'

        def app(a: int, b: List[int] = (), c: Dict[str, Box] = {}):   # noqa: B006
            return do(a, list(b), c)

        def capp(top: Top):
            return do(top.a, top.b, top.c)

        self.entries = (marsh.main(app), marsh.main(capp, config=Top))
        self.logging = (marsh.main(app, setup_logging=True), marsh.main(capp, config=Top, setup_logging=True))

    def cases(self, tier):
        quick = tier == 'quick'
        full = (None, 'x')
        for program in (0, 1):
            for load in LOAD:
                for where in (0, 1, 2):
                    for out, cfg in ((None, None), ('new', 'w.yaml'), ('ok.yaml', '-'), ('n1/n2/n3', 'nodir/w.yaml')):
                        for env in full:
                            yield program, load, where, (), out, cfg, 'return', env
            for fit in FIT:
                for out in OUT:
                    for cfg in CFG:
                        for env in full:
                            for body in BODY if not fit or not quick else BODY[:2]:
                                if fit and quick and env and body != 'return':
                                    continue
                                yield program, None, 0, fit, out, cfg, body, env
            if not quick:
                for load in LOAD:
                    for fit in FIT:
                        for out in OUT:
                            for cfg in CFG:
                                yield program, load, 1, fit, out, cfg, 'marsh', None
        for program in (0, 1):
            for args in (['--nope'], ['-c'], ['-o', 'x', '--nope=1'], ['a=1', '--logging-level', 'INFO']):
                yield 'usage', program, tuple(args)
            for args in LOGGING:
                for rest in ((), ('a=1',), ('a=x',), ('@nope',), ('-o', 'x', 'a=1'), ('--config-out', 'x.yaml', 'a=1')):
                    yield 'logging', program, (*args, *rest)
            for call in range(len(DIRECT)):
                for argv in ((), ('a=1',), ('--nope',), ('-h',), ('@nope',), ('-o', 'x')):
                    for body in BODY:
                        yield 'direct', program, call, argv, body

    def case(self, case, stats):
        stats.distinct()
        stats.traces += 1
        base = os.path.join(self.root, str(os.getpid()))
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(os.path.join(base, 'have'))
        os.makedirs(os.path.join(base, 'ABS'))
        for name, data in FILES.items():
            with open(os.path.join(base, name), 'wb') as fp:
                fp.write(data)
        home = os.getcwd()
        old = os.environ.pop('MARSH_FULL_ERROR', None)
        os.chdir(base)
        try:
            if case[0] in ('usage', 'logging'):
                self.usage(case, base, stats)
            elif case[0] == 'direct':
                self.direct(case, base, stats)
            else:
                if case[7]:
                    os.environ['MARSH_FULL_ERROR'] = case[7]
                self.phases(case, base, stats)
        finally:
            os.environ.pop('MARSH_FULL_ERROR', None)
            if old is not None:
                os.environ['MARSH_FULL_ERROR'] = old
            os.chdir(home)

    def usage(self, case, base, stats):
        kind, program, args = case
        self.calls.clear()
        self.body = 'return'
        o = cli.run((self.logging if kind == 'logging' else self.entries)[program], args)
        stats.step()
        require(o.error is None and o.exit == 2 and not self.calls and 'usage' in o.err and not {'x', 'x.yaml'} & set(os.listdir(base)), lambda: (
            f'arguments {args}: {o.brief()}'))

    def direct(self, case, base, stats):
        """A program with a config type that is called with its arguments reads no command line."""
        _, program, call, argv, body = case
        entry = (self.entries if program else self.logging)[1]
        self.calls.clear()
        self.body = body
        self.error = None
        args, kwargs = DIRECT[call]
        before = self.listing(base)
        try:
            o = cli.run(entry, argv, args, kwargs)
        except Interrupt as err:
            o = cli.Outcome()
            o.error = err
        stats.step()
        says = lambda: f'{case}: {o.brief()}'
        require(len(self.calls) == 1 and self.calls[0][0] == (1, [4, 5], {'k': Box(1)}), lambda: f'{says()}: expected one call')
        require(self.listing(base) == before and not o.out and not o.err, lambda: f'{says()}: expected nothing besides the call')
        if body == 'exit':
            require(o.exit == 7, says)
        elif self.error is not None:
            require(o.error is self.error, says)
        else:
            require(o.value == 'returned', says)
        stats.outcome(('direct', body))

    def phases(self, case, base, stats):
        program, load, where, fit, out, cfg, body, env = case
        good = ['a=1', 'b=[4,5]', 'c+@ok']
        if load is not None:
            overrides = good[:where] + [load] + good[where:]
            if where == 0 and load in ('a.x.y=2', 'a.0=1', '~a.x') or where < 1 and load.startswith('q'):
                overrides = good + [load]
        else:
            overrides = good + list(fit)
        argv = []
        outpath = cfgpath = None
        if out is not None:
            text = out.replace('ABS', os.path.join(base, 'ABS'))
            outpath = os.path.join(base, text.replace('%%', '%'))
            argv += ['-o', text]
        if cfg is not None:
            text = cfg.replace('ABS', os.path.join(base, 'ABS'))
            argv += [f'--config-out={text}']
            cfgpath = os.path.join(outpath or base, text)
        argv += overrides
        self.body = body
        self.error = None
        self.calls.clear()
        before = self.listing(base)
        try:
            o = cli.run(self.entries[program], argv)
        except Interrupt as err:
            o = cli.Outcome()
            o.error = err
        stats.step()
        cwd = os.getcwd()
        says = lambda: f'{case}: arguments {argv!r}: {o.brief()}'
        # the step that fails first
        out_kind, cfg_kind = OUT[out], CFG[cfg]
        if cfg == 'have' and out not in (None, '.'):
            cfg_kind = 'bad'
        if out_kind == 'usage':
            step = 'usage'
        elif load is not None or FIT.get(fit) == 'load':
            step = 'load'
        elif out_kind == 'bad':
            step = 'out'
        elif cfg_kind == 'bad':
            step = 'config-out'
        elif fit:
            step = 'unmarshal'
        else:
            step = None
        if not (body == 'chdir' and step is None and out is None):
            require(os.path.samefile(cwd, base), lambda: f'{says()}: the working directory is {cwd} afterwards')
        made = self.listing(base) - before
        if step in ('usage', 'load', 'out'):
            require(not made, lambda: f'{says()}: files {sorted(made)} were made although the run failed to {step}')
        if step == 'usage':
            require(o.error is None and o.exit == 2 and not self.calls and 'usage' in o.err and not o.out, lambda: f'{says()}: expected the usage')
            return
        if step in ('load', 'out', 'config-out', 'unmarshal'):
            require(not self.calls, lambda: f'{says()}: the program was run')
            stats.outcome((step, o.out.split(':')[0]))
            if env:
                require(o.exit is None and isinstance(o.error, (errors.MarshError, omegaconf.errors.OmegaConfBaseException, OSError, ValueError)), lambda: (
                    f'{says()}: expected the full error'))
                if step == 'unmarshal':
                    self.path(o.error.path, FIT[fit], says)
                return
            require(o.error is None and o.exit == 1, lambda: f'{says()}: expected the exit status 1')
            text = o.out + o.err
            require('Traceback' not in text and 'failed to' in text.lower(), lambda: f'{says()}: no message')
            if step == 'load':
                name = LOAD[load] if load is not None else 'a'
                require(text.startswith('failed to load configuration: ') and len(text) > 32 and name in text, lambda: (
                    f'{says()}: expected a message about {name!r}'))
            elif step == 'out':
                require(outpath in text or out in text, lambda: f'{says()}: the message does not name the directory')
            elif step == 'config-out':
                require(cfg in text, lambda: f'{says()}: the message does not name the file')
            else:
                lines = [x.strip()[6:] for x in o.out.split('\n') if x.strip().startswith('path: ')]
                require(len(lines) <= 1, says)
                self.path(lines[0] if lines else '', FIT[fit], says)
                if cfgpath and cfg != '-':
                    require(os.path.isfile(cfgpath), lambda: f'{says()}: the configuration was not written')
            return
        # the program runs
        require(len(self.calls) == 1, lambda: f'{says()}: called {len(self.calls)} times')
        given, where = self.calls[0]
        require(given == (1, [4, 5], {'k': Box(1)}), lambda: f'{says()}: called with {given}')
        require(os.path.samefile(where, outpath or base), lambda: f'{says()}: ran in {where}')
        if cfg not in (None, '-'):
            require(os.path.isfile(cfgpath), lambda: f'{says()}: the configuration was not written to {cfgpath}')
        if body == 'interrupt':
            pass     # the printed text is lost in this harness
        elif cfg == '-':
            require('a: 1' in o.out, lambda: f'{says()}: the configuration was not printed')
        else:
            require(o.out == '' and o.err == '', lambda: f'{says()}: something was printed')
        if body == 'exit':
            require(o.exit == 7, lambda: f'{says()}: expected its exit status 7')
        elif self.error is not None:
            require(o.error is self.error and getattr(o.error, 'path', '') in ('', 'a.b'), lambda: (
                f'{says()}: the error of the program was replaced'))
        else:
            require(o.value == 'returned' and o.exit is None, lambda: f'{says()}: returned {o.value!r}')
        stats.outcome(('run', body))

    def path(self, text, want, says):
        got = tuple(ref_split(text.replace('\\udcff', '\udcff'), '.'))
        require(got == tuple(want), lambda: f'{says()}: the reported path {text!r} is {got}, expected {want}')

    def listing(self, base):
        return {os.path.join(d, x) for d, ds, fs in os.walk(base) for x in ds + fs}


PROPERTY = C07()
