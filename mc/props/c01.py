"""C01: path algebra."""
import itertools

from mc.core import Property, require

import marsh
from marsh import errors, path as mp

CHARS = ['a', 'b', '.', '/', '"', "'", '\\', ' ', '*', ':', '0', '-', 'é']
DELIMS = ['.', '/', ':']


def ref_split(path, delimiter):
    """Reference splitter.  None when the path is malformed."""
    fields, cur, i, n = [], '', 0, len(path)
    while i < n:
        c = path[i]
        if c == '\\':
            if i + 1 >= n:
                return None
            cur += path[i + 1]
            i += 2
        elif c in '"\'':
            j, lit = i + 1, ''
            while True:
                if j >= n:
                    return None
                if path[j] == '\\':
                    if j + 1 >= n:
                        return None
                    lit += path[j + 1]
                    j += 2
                    continue
                if path[j] == c:
                    break
                lit += path[j]
                j += 1
            cur += lit
            i = j + 1
        elif c == delimiter:
            if cur:
                fields.append(cur)
            cur = ''
            i += 1
        else:
            cur += c
            i += 1
    if cur:
        fields.append(cur)
    return tuple(fields)


def words(chars, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(chars, repeat=n):
            yield ''.join(w)


class C01(Property):
    id = 'C01'
    bounds = (
        'quick: field lists of <=3 fields over a 13 character alphabet (delimiters, '
        'quotes, escape), fields <=3 chars alone, <=2 chars in pairs, 1 char in '
        'triples; raw paths <=6 chars over 6 characters; 3 delimiters. '
        'thorough: raw paths <=8, triples of 2-char fields over 6 characters'
    )

    def cases(self, tier):
        quick = tier == 'quick'
        for d in DELIMS:
            yield ('fields', d, [])
            for w in words(CHARS, 1, 3):
                yield ('fields', d, [w])
            two = list(words(CHARS if not quick else CHARS[:8], 1, 2))
            for a in two:
                yield ('pairs', d, [a], two)
            one = list(CHARS)
            if not quick:
                one = list(words(CHARS[:7], 1, 2))
            for a in one:
                for b in one:
                    yield ('pairs', d, [a, b], one)
        for d in DELIMS[:2]:
            for n in range(0, (6 if quick else 8) + 1):
                alphabet = ['a', d, '"', "'", '\\', ' ']
                if n <= 3:
                    for w in itertools.product(alphabet, repeat=n):
                        yield ('raw', d, ''.join(w), 0)
                else:
                    for w in itertools.product(alphabet, repeat=3):
                        yield ('raw', d, ''.join(w), n - 3)

    def case(self, case, stats):
        kind = case[0]
        if kind == 'fields':
            self.fields(case[1], case[2], stats)
        elif kind == 'pairs':
            for b in case[3]:
                self.fields(case[1], case[2] + [b], stats)
        else:
            _, d, prefix, n = case
            for w in itertools.product(['a', d, '"', "'", '\\', ' '], repeat=n):
                self.raw(d, prefix + ''.join(w), stats)

    def fields(self, d, fields, stats):
        fields = tuple(fields)
        stats.state((d, fields))
        stats.traces += 1
        stats.step(9)
        joined = mp.join_fields(fields, delimiter=d)
        ctx = lambda what, got, want: (
            f'fields {fields!r} delimiter {d!r}: {what} gave {got!r}, expected {want!r}')
        got = tuple(mp.split(joined, delimiter=d))
        require(got == fields, lambda: ctx('split(join)', got, fields))
        got = tuple(mp.iterative_split(joined, delimiter=d))
        require(got == fields, lambda: ctx('iterative_split(join)', got, fields))
        manual = d.join(mp.escape_field(f, delimiter=d) for f in fields)
        require(manual == joined, lambda: ctx('join', joined, manual))
        # building the same path one field at a time, from both ends
        fwd = ''
        for f in fields:
            fwd = mp.append(fwd, f, delimiter=d)
        got = tuple(mp.split(fwd, delimiter=d))
        require(got == fields, lambda: ctx('append', got, fields))
        bwd = ''
        for f in reversed(fields):
            bwd = mp.prepend(bwd, f, delimiter=d)
        got = tuple(mp.split(bwd, delimiter=d))
        require(got == fields, lambda: ctx('prepend', got, fields))
        require(mp.append(joined, '', delimiter=d) == joined
                and mp.prepend(joined, '', delimiter=d) == joined,
                lambda: ctx('append/prepend of an empty field', '', joined))
        h = mp.head(joined, delimiter=d)
        want = (fields[0] if fields else '', fields[1:])
        got = (h[0], tuple(mp.split(h[1], delimiter=d)))
        require(got == want, lambda: ctx('head', got, want))
        t = mp.tail(joined, delimiter=d)
        want = (fields[-1] if fields else '', fields[:-1])
        got = (t[0], tuple(mp.split(t[1], delimiter=d)))
        require(got == want, lambda: ctx('tail', got, want))
        # joining skips empty fields wherever they are
        holes = [''] + [x for f in fields for x in (f, '')]
        got = tuple(mp.split(mp.join_fields(holes, delimiter=d), delimiter=d))
        require(got == fields, lambda: ctx('join with empty fields', got, fields))
        for f in fields:
            esc = mp.escape_field(f, delimiter=d)
            got = mp.strip_delimiter(d + esc + d + d, delimiter=d)
            if not (f.endswith('\\') or f.endswith(d)):
                require(got == esc, lambda: ctx('strip_delimiter', got, esc))
            require(tuple(mp.split(got, delimiter=d)) == (f,),
                    lambda: ctx('split(strip_delimiter)', mp.split(got, delimiter=d), (f,)))
        if d == '.':
            err = errors.MarshError('x')
            for f in reversed(fields):
                err.prepend(f)
            got = tuple(mp.split(err.path))
            require(got == fields, lambda: ctx('MarshError.prepend', got, fields))
            err = errors.MarshError('x')
            for f in fields:
                err.append(f)
            got = tuple(mp.split(err.path))
            require(got == fields, lambda: ctx('MarshError.append', got, fields))
            err = errors.MarshError('x')
            try:
                for f in fields[:1]:
                    with errors.prepend(f):
                        raise err
            except errors.MarshError as e:
                require(e is err and tuple(mp.split(err.path)) == fields[:1],
                        lambda: ctx('errors.prepend', err.path, fields[:1]))
        stats.outcome(joined)

    def raw(self, d, path, stats):
        stats.state((d, path))
        stats.traces += 1
        stats.step(6)
        want = ref_split(path, d)
        results = {}
        for name, fn in (
            ('split', lambda: tuple(mp.split(path, delimiter=d))),
            ('iterative_split', lambda: tuple(mp.iterative_split(path, delimiter=d))),
            ('head', lambda: (mp.head(path, delimiter=d))),
            ('tail', lambda: (mp.tail(path, delimiter=d))),
        ):
            try:
                results[name] = fn()
            except errors.PathError:
                results[name] = None
        ctx = lambda what, w: (
            f'path {path!r} delimiter {d!r}: {what} gave {results.get(what)!r}, expected {w!r}')
        if want is None:
            for name, got in results.items():
                require(got is None, lambda: ctx(name, 'a path error'))
            return
        require(results['split'] == want, lambda: ctx('split', want))
        require(results['iterative_split'] == want, lambda: ctx('iterative_split', want))
        for name in ('head', 'tail'):
            require(results[name] is not None, lambda: ctx(name, want))
        h, t = results['head'], results['tail']
        w = (want[0] if want else '', want[1:])
        require((h[0], tuple(mp.split(h[1], delimiter=d))) == w, lambda: ctx('head', w))
        w = (want[-1] if want else '', want[:-1])
        require((t[0], tuple(mp.split(t[1], delimiter=d))) == w, lambda: ctx('tail', w))
        for f in ('x', d, '\\', '"'):
            got = tuple(mp.split(mp.append(path, f, delimiter=d), delimiter=d))
            require(got == want + (f,),
                    f'path {path!r} delimiter {d!r}: append {f!r} gave fields {got!r}, '
                    f'expected {want + (f,)!r}')
            got = tuple(mp.split(mp.prepend(path, f, delimiter=d), delimiter=d))
            require(got == (f,) + want,
                    f'path {path!r} delimiter {d!r}: prepend {f!r} gave fields {got!r}, '
                    f'expected {(f,) + want!r}')
        stripped = mp.strip_delimiter(path, delimiter=d)
        require(tuple(mp.split(stripped, delimiter=d)) == want,
                f'path {path!r} delimiter {d!r}: strip_delimiter gave {stripped!r}, '
                'which names other fields')
        stats.outcome(repr(want))


PROPERTY = C01()
