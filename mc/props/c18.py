"""C18: configs are found, loaded, merged and written as named."""
import contextlib
import io
import itertools
import json
import os
import shutil

from mc import cli, model
from mc.core import Property, require

import marsh
import marsh.config
from marsh import errors


@marsh.config.ConfigSchema.registry.register
class ConfIO(marsh.config.ConfigSchema):
    """One more type of config: lines of key=value."""

    @classmethod
    def match(cls, value):
        return value.endswith('.conf')

    def loads(self, encoded):
        return dict(line.split('=') for line in encoded.splitlines())

    def dumps(self, element):
        return ''.join(f'{k}={v}\n' for k, v in element.items())


SUPPORTED = ('.json', '.yaml', '.yml', '.conf')

# -- finding --------------------------------------------------------------------

ENTRIES = [
    'a.json', 'a.yaml', 'a.yml', 'a.JSON', 'A.json', 'a.txt', 'a', 'a.b.json', '.json', '.a.json', 'b.json', 'a.json~', 'a.conf', 'ab.yaml', 'a..json',
    'a/b.json', 'a/a.yml', 'a.json/x.json', 'b/', 'b.yaml/', 'a.', ' a.json', 'a.b', 'a.txt.yaml',
]
LOOKUPS = [
    'a', 'a.json', 'a.yaml', 'a.yml', 'a.JSON', 'A', 'b', 'a.b', 'a.b.json', 'a/b', 'a/b.json', 'a/a', './a', './b.json', '', '.', '.json', '.a', '.a.json',
    'a/../b', 'missing/b', 'missing.json', 'a.txt', 'a.conf', 'a.json/x', 'ab', 'a/', 'a.', 'a.json~', ' a', 'b/a',
]


def text_of(name, data):
    if name.endswith('.conf'):
        return ''.join(f'{k}={v}\n' for k, v in data.items())
    return json.dumps(data)


def populate(root, entries):
    for name in entries:
        path = os.path.join(root, name)
        if name.endswith('/'):
            os.makedirs(path, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as fp:
            fp.write(text_of(name, {'src': name}))


def ext_of(name):
    stem, dot, ext = name.rpartition('.')
    return '.' + ext if dot and stem.strip('.') else ''


def find(files, dirs, target):
    """The file meant by a target, None if there is none or more than one."""
    parts = []
    raw = target.split('/')
    for i, part in enumerate(raw[:-1]):
        if part in ('', '.'):
            continue
        if part == '..':
            parts.pop()
        else:
            parts.append(part)
            if '/'.join(parts) not in dirs:
                return None
    name = raw[-1]
    if ext_of(name).lower() in SUPPORTED:
        path = '/'.join(parts + [name])
        return path if path in files else None
    found = []
    for f in files:
        head, _, tail = f.rpartition('/')
        if head == '/'.join(parts) and ext_of(tail).lower() in SUPPORTED and tail[:-len(ext_of(tail))] == name:
            found.append(f)
    return found[0] if len(found) == 1 else None


# -- loading --------------------------------------------------------------------

CONTENTS = [
    {'a': 1}, {'a': {'b': [1, 2]}}, {'a': {'b': [3]}, 'c': 'x'}, {'a': {'b': None}}, {'_meta_': {'m': 1}, 'a': 2}, {'_meta_': 3}, {'a': {'_meta_': 1}}, {},
    [1, 2], [{'a': 1}], [], 'text', 5, None, {'a': '???'}, {'r': '${a}', 'a': 'A'}, {'r': '${a.b.0}'}, {'a': {'b': {'c': 1}}, 'd': [[1], {'e': 2}]}, {'_meta_': {'m': 5}, 'r': '${_meta_.m}'},
]


def walk_resolve(e, root):
    """References in this part are to plain places only."""
    if isinstance(e, dict):
        return {k: walk_resolve(v, root) for k, v in e.items()}
    if isinstance(e, (list, tuple)):
        return [walk_resolve(v, root) for v in e]
    if isinstance(e, str) and e.startswith('${'):
        at = root
        for field in e[2:-1].split('.'):
            if isinstance(at, dict) and field in at:
                at = at[field]
            elif isinstance(at, (list, tuple)) and field.isdigit() and int(field) < len(at):
                at = at[int(field)]
            else:
                raise LookupError
            if at == '???':
                raise LookupError
        return at
    return e


def loaded(contents, resolve, keep_meta, concatenate):
    config = model.merge(*contents, concatenate=concatenate)
    if resolve and isinstance(config, (dict, list, tuple)):
        config = walk_resolve(config, config)
    if not keep_meta and isinstance(config, dict):
        config = {k: v for k, v in config.items() if k != '_meta_'}
    return config


# -- writing --------------------------------------------------------------------

LEAVES = [
    '', 'x', '1', '1.5', '-1', '+1', '1e3', '1_000', '0x1', '0o7', '017', '0b1', '1:30', 'true', 'True', 'TRUE', 'yes', 'No', 'on', 'off', 'y', 'n', 'null', 'Null', 'None', '~', '.inf',
    '-.INF', '.nan', 'NaN', 'Infinity', 'inf', ' lead', 'trail ', 'a.b', '"q"', "it's", "'", '"', '\\', 'a\\nb', 'a\nb', 'a\n', '\n', 'a\n\nb', 'a\r\nb', '\r', '\t', 'a\tb', '\u00e9', '\u4e2d', '\U0001f600',
    '{}', '[1]', '{a: 1}', '=', '2020-01-02', '2020-01-02T03:04:05Z', '- a', '-', '#c', 'a #c', 'a: b', 'a:', ':', '!!str', '!x', '*', '*a', '&a', '\x7f', '\x00', '\x1b', '\x85', '\u2028', '\ufeff',
    '<<', '?', '? a', '%', '%YAML', '@', '`', '|', '>', '>-', '---', '...', ',', ']', '}', '[', '{', '${', '$x', '???', 'x' * 200, 'word ' * 40, '_meta_',
    0, 1, -1, 2 ** 64, -10 ** 30, 0.0, -0.0, 1.0, 1.5, 1e16, 1e22, 1e300, 5e-324, 0.1, -2.5e-7, float('inf'), float('-inf'), float('nan'), True, False, None, [], {}, [[]], [{}], {'': ''},
]
SHAPES = {
    'alone': lambda x: x,
    'list': lambda x: [x],
    'value': lambda x: {'k': x},
    'deep': lambda x: {'k': [x, {'l': [x]}], 'm': {'n': {'o': x}}},
    'key': lambda x: {x: 1, 'z': {x: [1]}},
    'lists': lambda x: [[x, 1], [[x]], {'a': [x], 'b': x}],
}

# -- malformed ------------------------------------------------------------------

MALFORMED = {
    '.json': [b'', b'{', b'{"a": }', b'[1,]', b"{'a': 1}", b'\xff\xfe', b'{"a": "\xff"}', b'nul', b'{} {}', b'"a', b'{"a": 1', b'// x\n1', b'\x00'],
    '.yaml': [b'a: [', b'a: b: c', b'\xff', b'a: "\xff"', b'{', b'- a\nb: 1', b'a: *x', b'!!python/object:os.x {}', b'!x 1', b'a: 1\n---\nb: 2', b'\x00', b'"a', b'%Q\n1', b'a: !!int x', b'&a', b'? [a]\n: 1', b'? {a: 1}\n: 2', b'a:\n\t- b'],
    '.conf': [b'a', b'a=b=c', b'\xff'],
}
TORN = [{'a': 1}, {'a': [1, {'b': 'x y'}], 'c': None}, [1.5, 'q"\\', {}], 'text', {'k\u00e9': '\U0001f600'}, [True, False, -0.0]]


def classify(fn):
    try:
        return 'ok', fn()
    except errors.ConfigFileError as err:
        return 'config', str(err)
    except errors.MarshError as err:
        return 'marsh', str(err)
    except Exception as err:
        return 'other', f'{type(err).__name__}: {err}'


# -- trees ----------------------------------------------------------------------

FILES = ('x.json', 'y.txt')


def leaf_trees(files=FILES):
    return [(fs, {}) for n in range(len(files) + 1) for fs in itertools.combinations(files, n)]


def one_level(names, below, files=FILES):
    return [(fs, {k: v for k, v in zip(names, subs) if v is not None}) for fs, _ in leaf_trees(files) for subs in itertools.product([None, *below], repeat=len(names))]


def make_tree(path, tree):
    os.makedirs(path)
    for name in tree[0]:
        with open(os.path.join(path, name), 'w'):
            pass
    for name, sub in tree[1].items():
        make_tree(os.path.join(path, name), sub)


def visible(tree):
    out = {name: None for name in tree[0] if ext_of(name).lower() in SUPPORTED}
    for name, sub in tree[1].items():
        below = visible(sub)
        if below:
            out[name] = below
    return out


def parse_tree(text, name):
    lines = text.split('\n')
    require(lines[0] == name, f'the tree of {name!r} begins with {lines[0]!r}')

    def block(lines):
        out, i = {}, 0
        while i < len(lines):
            mark, label = lines[i][:4], lines[i][4:]
            require(mark in ('├── ', '└── '), f'not a line of a tree: {lines[i]!r} in\n{text}')
            last = mark == '└── '
            j = i + 1
            while j < len(lines) and lines[j].startswith('    ' if last else '│   '):
                j += 1
            require(last == (j == len(lines)), f'the last entry is not marked as such: {lines[i]!r} in\n{text}')
            require(label not in out, f'{label!r} is listed twice in\n{text}')
            out[label] = block([x[4:] for x in lines[i + 1:j]]) or None
            i = j
        return out

    return block(lines[1:])


class C18(Property):
    id = 'C18'
    bounds = (
        f'every directory with up to two (thorough three) of {len(ENTRIES)} entries x {len(LOOKUPS)} names x 4 ways to name the directory; every pair of {len(CONTENTS)} contents (some triples) x all options; '
        f'{len(LEAVES)} values (and pairs) in {len(SHAPES)} shapes through every format, also over an existing file; malformed files and every torn prefix of files; '
        'every directory tree of the bounded shapes'
    )

    def setup(self, tier):
        self.root = cli.scratch()
        self.pid = None

    def fresh(self):
        if self.pid != os.getpid():
            self.pid, self.n = os.getpid(), 0
        self.n += 1
        path = os.path.join(self.root, f'{self.pid}-{self.n}')
        os.makedirs(path)
        return path

    def cases(self, tier):
        quick = tier == 'quick'
        for n in range(0, 3 if quick else 4):
            for entries in itertools.combinations(ENTRIES, n):
                # a name can not be a file and a directory
                tops = {e.split('/')[0] for e in entries if '/' in e}
                if not any(e in tops for e in entries):
                    yield 'find', entries
        for names in itertools.product(range(len(CONTENTS)), repeat=2):
            yield 'load', names
        for i in range(len(CONTENTS)):
            yield 'load', (i,)
        for names in itertools.product(range(0, len(CONTENTS), 2 if quick else 1), repeat=3):
            yield 'load', names
        for i in range(len(LEAVES)):
            for shape in SHAPES:
                if shape != 'key' or isinstance(LEAVES[i], str):
                    yield 'write', shape, i, None
        for i, j in itertools.product(range(0, len(LEAVES), 3 if quick else 1), range(len(LEAVES))):
            yield 'write', 'pair', i, j
        for ext, contents in MALFORMED.items():
            for i in range(len(contents)):
                yield 'malformed', ext, i
        for i in range(len(TORN)):
            yield 'torn', i
        leaves = leaf_trees()
        below = one_level(('d', 'e'), leaves)
        for a in [None, *below]:
            for b in [None, *(leaves if quick else below)]:
                yield 'tree', a, b
        for t in one_level(('p', 'q.json', 'r'), leaf_trees(('x.yml', 'y.conf', 'z', '.json'))[:6 if quick else 16], ('m.yaml', 'n.JSON')):
            yield 'tree', t, None

    def case(self, case, stats):
        path = self.fresh()
        try:
            getattr(self, case[0])(path, *case[1:], stats=stats)
        finally:
            shutil.rmtree(path)

    def find(self, path, entries, stats):
        populate(path, entries)
        files, dirs = set(), {''}
        for top, ds, fs in os.walk(path):
            rel = os.path.relpath(top, path)
            rel = '' if rel == '.' else rel + '/'
            files |= {rel + f for f in fs}
            dirs |= {rel + d for d in ds}
        here = os.getcwd()
        os.chdir(path)
        try:
            for name in LOOKUPS:
                expect = find(files, dirs, name)
                ways = [('relative', lambda: marsh.config.load(name)), ('root', lambda: marsh.config.load(name, root=path))]
                ways.append(('absolute', lambda: marsh.config.load(path + '/' + name)))
                ways.append(('ignored root', lambda: marsh.config.load(path + '/' + name, root='/nonexistent')))
                for label, fn in ways:
                    stats.step()
                    stats.traces += 1
                    kind, value = classify(fn)
                    stats.outcome((kind, repr(value)[:60]))
                    if expect is None:
                        require(kind == 'config', f'{entries}: {name!r} ({label}) is not a config, got {kind} {value!r}')
                    else:
                        require((kind, value) == ('ok', {'src': expect}), f'{entries}: {name!r} ({label}) is {expect!r}, got {kind} {value!r}')
        finally:
            os.chdir(here)
        stats.state(entries)

    def load(self, path, names, stats):
        contents = [CONTENTS[i] for i in names]
        exts = ['.json', '.yaml', '.yml']
        for i, c in enumerate(contents):
            with open(os.path.join(path, f'f{i}{exts[i % 3]}'), 'w') as fp:
                fp.write(json.dumps(c))
        stats.state(('load', names))
        for resolve, keep, concat in itertools.product((True, False), repeat=3):
            stats.step()
            stats.traces += 1
            kind, value = classify(lambda: marsh.config.load(*(f'f{i}' for i in range(len(names))), root=path, resolve=resolve, keep_meta=keep, concatenate=concat))
            what = f'load of {contents} with resolve={resolve}, keep_meta={keep}, concatenate={concat}'
            try:
                expect = loaded(contents, resolve, keep, concat)
            except LookupError:
                require(kind != 'ok', f'{what} refers to a value that is not there, got {value!r}')
                continue
            stats.outcome(repr(expect))
            require(kind == 'ok' and model.canon(value) == model.canon(expect), f'{what}: {kind} {value!r}, expected {expect!r}')

    def write(self, path, shape, i, j, stats):
        value = SHAPES[shape](LEAVES[i]) if j is None else {'a': LEAVES[i], 'b': [LEAVES[j]], 'c': {'x': LEAVES[j], 'y': LEAVES[i]}}
        stats.state((shape, i, j))
        for ext in ('.json', '.yaml', '.yml', '.JSON', '.Yml'):
            target = os.path.join(path, 'out' + ext)
            for before in (None, 'x: {' * 300):
                if before is not None:
                    with open(target, 'w') as fp:
                        fp.write(before)
                marsh.config.write(value, target)
                back = marsh.config.load(target, resolve=False, keep_meta=True)
                stats.step(2)
                stats.traces += 1
                require(
                    model.canon_unordered(back) == model.canon_unordered(value) if ext.lower() != '.json' else model.canon(back) == model.canon(value),
                    f'written to {ext}: {value!r}, loaded: {back!r}',
                )
            schema = marsh.config.ConfigSchema(target)
            require(model.canon_unordered(schema.loads(schema.dumps(value))) == model.canon_unordered(value), f'{ext}: {value!r} encoded and decoded is {schema.loads(schema.dumps(value))!r}')
            with open(target) as fp:
                require(model.canon_unordered(schema.loads(fp.read())) == model.canon_unordered(value), f'{ext}: the text written for {value!r}')
            schema.dump({'gone': 1})
            schema.dump(value)
            require(model.canon_unordered(schema.load()) == model.canon_unordered(value), f'{ext}: dumped {value!r}, loaded {schema.load()!r}')
            stats.step(2)
        # without a path it goes to standard output, as yaml
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            marsh.config.write(value)
        back = marsh.config.ConfigSchema('x.yaml').loads(out.getvalue())
        require(model.canon_unordered(back) == model.canon_unordered(value), f'written to standard output: {value!r} as {out.getvalue()!r}')
        # a type of config that was registered
        own = {'a': str(i), 'b': str(j), 'c': shape or 'none'}
        target = os.path.join(path, 'out.conf')
        for given in ({'gone': '1'}, own, {}, own):
            marsh.config.write(given, target)
            back = marsh.config.load(target)
            stats.step(2)
            require(back == given, f'written to .conf: {given!r}, loaded: {back!r}')

    def malformed(self, path, ext, i, stats):
        target = os.path.join(path, 'bad' + ext)
        with open(target, 'wb') as fp:
            fp.write(MALFORMED[ext][i])
        with open(os.path.join(path, 'good.json'), 'w') as fp:
            fp.write('{}')
        for names in (('bad',), ('bad' + ext,), ('good', 'bad'), ('bad', 'good')):
            kind, value = classify(lambda: marsh.config.load(*names, root=path))
            stats.step()
            stats.traces += 1
            if MALFORMED[ext][i] in (b'&a',):
                continue
            require(kind == 'config' and target in value, f'loading {MALFORMED[ext][i]!r} from bad{ext} gives {kind} {value!r}')
        stats.state((ext, i))

    def torn(self, path, i, stats):
        value = TORN[i]
        for ext in ('.json', '.yaml'):
            target = os.path.join(path, 'torn' + ext)
            marsh.config.write(value, target)
            with open(target, 'rb') as fp:
                text = fp.read()
            for n in range(len(text) + 1):
                with open(target, 'wb') as fp:
                    fp.write(text[:n])
                kind, got = classify(lambda: marsh.config.load(target))
                stats.step()
                stats.traces += 1
                stats.state((i, ext, n))
                if n == len(text):
                    require(kind == 'ok' and model.canon_unordered(got) == model.canon_unordered(value), f'{value!r} is loaded as {kind} {got!r}')
                elif ext == '.json':
                    require(kind == 'config' and target in got, f'{text[:n]!r} is a torn file, got {kind} {got!r}')
                else:
                    require(kind in ('ok', 'config'), f'{text[:n]!r} gives {kind} {got!r}')

    def tree(self, path, a, b, stats):
        tree = (('w.yaml',), {k: v for k, v in (('a', a), ('b', b)) if v is not None})
        top = os.path.join(path, 'top')
        make_tree(top, tree)
        for given in (top, top + '/'):
            text = marsh.config.tree(given)
            stats.step()
            stats.traces += 1
            got = parse_tree(text, 'top')
            require(got == visible(tree), f'the configs of {tree} are listed as {got}:\n{text}')
        stats.state(repr(tree))
        here = os.getcwd()
        os.chdir(top)
        try:
            require(set(parse_tree(marsh.config.tree('.'), '.')) == set(visible(tree)), f'the configs of {tree} as seen from inside')
        finally:
            os.chdir(here)


PROPERTY = C18()
