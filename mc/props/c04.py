"""C04: the text syntax of values and overrides."""
import functools
import itertools

from mc import refparse
from mc.core import Property, require
from mc.model import canon

import marsh
import marsh.parse as mp

STRUCT = ['{', '}', '[', ']', '(', ')', ',', ':', '"', "'", '\\', 'a', '1', ' ']
OVER = ['a', '.', '=', '+', '@', '~', ',', '"', '\\', '[', ']', ' ', '1']
TOKENS = ['{', '}', '[', ']', ',', ':', 'true', 'NULL', '"x, y"', '-1.5', '1e3', 'k', ' ']
# whole parts of mappings and sequences, in which only the places between the parts are left open
PIECES = ['{a:', '{a:{}', '{a:[]', "{a:'x'", '[{}', '[[]', '["x"', ',', ' ', ':', '}', ']', 'b:1', 'b', '1', '"y"', '\\', '{}', '[]']
TERMINALS = [
    '0', '-0', '00', '+5', '007', '12', '-3', '9007199254740993', '-9007199254740993',
    '123456789012345678901234567890', '18446744073709551617', '1_000', '1__0', '0x10',
    '1.0', '1.', '.5', '-.5', '0.1', '1e3', '1E3', '1e-3', '1e22', '1e23', '1e400', '-1e400',
    'inf', '-inf', 'Infinity', 'nan', 'NaN', '1e', 'e1', '--1', '1-1', '1 2', '1,2',
    'true', 'True', 'TRUE', 'tRuE', 'false', 'False', 'FALSE', 'null', 'Null', 'NULL', 'none',
    'None', 'yes', 'no', 'on', 'truee', 'nul', 'a', 'a b', ' a', 'a ', ' 1', '1 ', ' 1 ',
    'true ', ' true', '~', 'a=b', 'a:b', 'a]b', 'a}b', 'a{b', 'a[b', 'a"b', "a'b", '\\1',
    '\\"', 'a\\,b', '\\ a', '\\[1]', '"1"', "'1'", '"true"', "'null'", '""', "''", '"a', "'a",
    '"a"b', '"a" ', '"a" b', '\\', 'a\\', '"\\"', '\t1', '1\n', '???', '${a}', 'é', '中', '٣',
    '1٣', '\u00a0', '1\u00a0', '-', '+', '.', '1.5.2', '1e1.5', '5e-1', '1.50', '0.30000000000000004',
    '1.7976931348623157e308', '5e-324', '4.9406564584124654e-324', '2.2250738585072014e-308',
]
LEAVES = [0, -7, 9007199254740993, 10 ** 25, 0.5, -1.5e-7, 1e300, True, False, None,
          '', 'a', '1', 'true', 'null', ' a ', 'a,b', '[x]', '{y}', 'k: v', '"', "'", '\\', 'a\\"b',
          '\n', 'é', '~', '${x}', '???', '1e5', '.', 'a.b', '@x', '+=']
STYLES = [
    ('double', '[]', ''), ('double', '()', ' '), ('single', '[]', ' '), ('single', '()', ''),
    ('double', '[]', '  \t'),
]


# what may follow a text that is right so far: closing brackets after one of
FILL = ['', 'a', "'", "'a", '"', '"a', ':1', 'a:1', "':1", '":1', '1', "'a':1", 'a)', 'a}']
FILL_OVER = FILL + ['=', '@a', '=1', 'a=1', 'a@a', '"=1', '".a=1', "'=1", "a'=1", 'a"=1', "a']", ']=1', ']@a', '"@a', "'@a"]


def accepts(ref, text):
    try:
        ref(text)
        return True
    except refparse.Bad:
        return False


@functools.lru_cache(None)
def viable(ref, text):
    """Whether some text that starts with this one is valid."""
    closers = ''.join(c for o, c in zip('[{(', ']})') if o in text)
    fills = FILL if ref is refparse.element else FILL_OVER
    for k in range(sum(text.count(c) for c in '[{(') + 1):
        for close in itertools.product(closers, repeat=k):
            if any(accepts(ref, text + f + ''.join(close)) for f in fills):
                return True
    return False


def fault(err, text):
    """The place in a text which the message of an error points at."""
    msg = str(err)
    if err.source is None or not err.remaining:
        require('\n' not in msg, lambda: f'text {text!r}: message {msg!r}')
        return len(text)
    lines = msg.split('\n')
    require(len(lines) == 3 and lines[2].strip() == '^' and lines[0], lambda: f'text {text!r}: message {msg!r}')
    shown, at = lines[1], len(lines[2]) - 1
    for dots in (shown.startswith('... '), False):
        body, i = (shown[4:], at - 4) if dots else (shown, at)
        for body in (body, body[:-4] if body.endswith(' ...') else body):
            place = text.find(body)
            places = []
            while place >= 0:
                if (dots or place == 0) and (len(body) < len(shown) - 4 * dots or place + len(body) == len(text)):
                    places.append(place + i)
                place = text.find(body, place + 1)
            if len(text) - len(err.remaining) in places and 0 <= i < len(body):
                return len(text) - len(err.remaining)
    require(False, lambda: f'text {text!r}: the message {msg!r} does not point at {err.remaining!r}')


def same(a, b):
    return canon(a) == canon(b)


class C04(Property):
    id = 'C04'
    bounds = (
        'every string of <=5 (thorough <=6) characters over the 14 structural characters as a '
        'value and over 13 characters as an override; every string of <=5 tokens over 13 '
        'tokens and of <=5 (6) over 19 parts of containers; 120 terminal spellings in 6 contexts; 33 leaves in all shapes of depth <=3, '
        'printed in 5 styles; the place named for every malformed text of <=3 (4) characters and, of <=2, behind up to 90 more'
    )

    def cases(self, tier):
        n = 5 if tier == 'quick' else 6
        for t in TERMINALS:
            yield ('terminal', t)
        for a in LEAVES:
            yield ('round', a)
        for k in range(0, n - 1):
            for w in itertools.product(STRUCT, repeat=max(0, k - 2)):
                yield ('where', 'element', ''.join(w), min(k, 2))
            for w in itertools.product(OVER, repeat=max(0, k - 2)):
                yield ('where', 'override', ''.join(w), min(k, 2))
        for k in range(0, 3):
            for w in itertools.product(STRUCT, repeat=k):
                yield ('long', ''.join(w))
        for k in range(0, 3):
            for w in itertools.product(STRUCT, repeat=k):
                yield ('text', 'element', ''.join(w), 0)
            for w in itertools.product(OVER, repeat=k):
                yield ('text', 'override', ''.join(w), 0)
        for k in range(3, n + 1):
            for w in itertools.product(STRUCT, repeat=2):
                yield ('text', 'element', ''.join(w), k - 2)
            for w in itertools.product(OVER, repeat=2):
                yield ('text', 'override', ''.join(w), k - 2)
        for k in range(3, 6):
            for w in itertools.product(TOKENS, repeat=2):
                yield ('text', 'tokens', ''.join(w), k - 2)
        for k in range(3, n + 1):
            for w in itertools.product(PIECES, repeat=2):
                yield ('text', 'pieces', ''.join(w), k - 2)

    def case(self, case, stats):
        kind = case[0]
        if kind == 'text':
            _, what, prefix, n = case
            alphabet = {'element': STRUCT, 'override': OVER, 'tokens': TOKENS, 'pieces': PIECES}[what]
            for w in itertools.product(alphabet, repeat=n):
                text = prefix + ''.join(w)
                if what == 'override':
                    self.override(text, stats)
                else:
                    self.element(text, stats)
        elif kind == 'where':
            _, what, prefix, n = case
            for w in itertools.product(STRUCT if what == 'element' else OVER, repeat=n):
                self.where(what, prefix + ''.join(w), stats)
        elif kind == 'long':
            self.long(case[1], stats)
        elif kind == 'terminal':
            t = case[1]
            for text in (t, f'[{t}]', f'[{t},1]', f'({t})', f'{{a:{t}}}', f'{{{t}:1}}',
                         f'[[{t}] ]', f'{{a:{t},b:[{t}]}}'):
                self.element(text, stats)
            for text in (f'a={t}', f'a.b+={t}', f'={t}', f'{t}=1', f'{t}', f'~{t}', f'a@{t}',
                         f'@{t},x', f'a+@[{t}, y]', f'~ {t} ', f' a = {t}', f'{t}@c'):
                self.override(text, stats)
            self.terminal(t, stats)
        else:
            self.round(case[1], stats)

    def element(self, text, stats):
        stats.step()
        stats.traces += 1
        stats.distinct()
        try:
            want = ('ok', refparse.element(text))
        except refparse.Bad as err:
            want = ('bad', str(err))
        try:
            got = ('ok', mp.element(text))
        except mp.ParseError as err:
            got = ('bad', str(err))
        if want[0] == 'bad':
            require(got[0] == 'bad', lambda: f'text {text!r} was accepted as {got[1]!r} ({want[1]})')
        else:
            require(got[0] == 'ok' and same(got[1], want[1]),
                    lambda: f'text {text!r} gave {got!r}, expected {want[1]!r}')
        stats.outcome(got[0] if got[0] == 'bad' else repr(got[1]))

    def where(self, what, text, stats):
        """The message points at the first character with which the text can not go on."""
        stats.step()
        stats.traces += 1
        parse, ref = (mp.element, refparse.element) if what == 'element' else (mp.override, refparse.override)
        try:
            parse(text)
        except mp.ParseError as err:
            at = fault(err, text)
            require(viable(ref, text[:at]) or viable(ref, text[:at].rstrip()), lambda: f'{what} {text!r} went wrong before {at}: {err}')
            # an escape that nothing follows is pointed at itself
            require(text[at:] in ('', '\\') or not viable(ref, text[:at + 1]), lambda: f'{what} {text!r} is right up to {at}: {err}')
            stats.outcome(('fault', at))

    def long(self, text, stats):
        """It points at the same place in a long text."""
        def where(head, tail):
            stats.step()
            stats.traces += 1
            try:
                mp.element(head + text + tail)
            except mp.ParseError as err:
                return fault(err, head + text + tail) - len(head)
            return None
        for tail in ('', ' ]', ',' + 'z' * 80):
            want = where('[1,', tail)
            for k in (0, *range(2, 45)):
                got = where('[' + '1,' * k, tail)
                require(not k or got == want, lambda: f'{text + tail!r} behind {2 * k + 1} characters is wrong at {got}, behind 3 at {want}')
                got = where('[' + '1' * k + ',', tail)
                require(not k or got == want, lambda: f'{text + tail!r} behind {k + 2} characters is wrong at {got}, behind 3 at {want}')

    def terminal(self, text, stats):
        """terminal() and string() decide the same value where element() does."""
        stats.step(2)
        try:
            want = ('ok', refparse.p_terminal(text, 0, ''))
        except refparse.Bad:
            want = ('bad',)
        try:
            got = ('ok', mp.terminal(text))
        except mp.ParseError:
            got = ('bad',)
        require(got[0] == want[0] and (got[0] == 'bad' or same(got[1], want[1][0])),
                lambda: f'terminal({text!r}) gave {got!r}, expected {want!r}')
        try:
            want = ('ok', refparse.p_string(text, 0, ''))
        except refparse.Bad:
            want = ('bad',)
        try:
            got = ('ok', mp.string(text))
        except mp.ParseError:
            got = ('bad',)
        require(got[0] == want[0] and (got[0] == 'bad' or same(got[1], want[1][0])),
                lambda: f'string({text!r}) gave {got!r}, expected {want!r}')

    def override(self, text, stats):
        stats.step()
        stats.traces += 1
        stats.distinct()
        try:
            want = refparse.override(text)
        except refparse.Bad as err:
            want = ('bad', str(err))
        try:
            o = mp.override(text)
        except mp.ParseError as err:
            o = None
            msg = str(err)
        if want[0] == 'bad':
            require(o is None, lambda: f'override {text!r} was accepted as {o!r} ({want[1]})')
            stats.outcome('bad')
            return
        require(o is not None, lambda: f'override {text!r} was refused ({msg}), expected {want!r}')
        if isinstance(o, mp.SetValue):
            got = ('set', o.path, o.value, o.combine)
        elif isinstance(o, mp.SetConfig):
            got = ('config', o.path, tuple(o.names), o.combine)
        else:
            got = ('del', o.path)
        require(same(got, want), lambda: f'override {text!r} gave {got!r}, expected {want!r}')
        stats.outcome(repr(got))

    def round(self, leaf, stats):
        shapes = [leaf, [leaf], [[leaf]], {'k': leaf}, {'k': {'l': [leaf]}}, [{'k': leaf}]]
        if isinstance(leaf, str):
            shapes += [{leaf: 1}, [{leaf: [leaf]}]]
        for other in LEAVES:
            shapes += [[leaf, other], {'a': leaf, 'b': [other]}]
            if isinstance(leaf, str) and isinstance(other, str) and leaf != other:
                shapes += [{leaf: other, other: leaf}]
        for e in shapes:
            for style in STYLES:
                text = refparse.show(e, style)
                # every bare token is followed by a separator without space
                if style[2] and not self.space_safe(e):
                    text = refparse.show(e, (style[0], style[1], ''))
                stats.step(2)
                stats.traces += 1
                stats.state(text)
                got = mp.element(text)
                require(same(got, self.tup(e)),
                        f'{e!r} was written as {text!r} and parsed back as {got!r}')
                got = mp.override('x.y=' + text)
                require(isinstance(got, mp.SetValue) and got.path == 'x.y' and not got.combine
                        and same(got.value, self.tup(e)),
                        f'{e!r} was assigned as {text!r} and parsed back as {got!r}')

    def space_safe(self, e):
        if isinstance(e, dict):
            return all(self.space_safe(v) for v in e.values())
        if isinstance(e, (list, tuple)):
            return all(self.space_safe(v) for v in e)
        return isinstance(e, str) or (isinstance(e, (int, float)) and not isinstance(e, bool))

    def tup(self, e):
        if isinstance(e, dict):
            return {k: self.tup(v) for k, v in e.items()}
        if isinstance(e, (list, tuple)):
            return tuple(self.tup(v) for v in e)
        if isinstance(e, float) and e.is_integer():
            return int(e)  # numbers with an integer value are read as int
        return e


PROPERTY = C04()
