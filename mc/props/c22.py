"""C22: the help shows every field and option as it is, at every path."""
import dataclasses
import inspect
import itertools
import linecache
import logging
import os
import re
import sys
import types

from mc import cli, types_model as tm
from mc.core import Property, require

import marsh
from marsh import errors

COUNT = [0]


def module(text):
    """Runs text as a module whose source can be looked up."""
    COUNT[0] += 1
    name = f'mc_c22_{COUNT[0]}'
    file = f'/mc/{name}.py'
    mod = types.ModuleType(name)
    mod.__file__ = file
    linecache.cache[file] = (len(text), None, text.splitlines(True), file)
    sys.modules[name] = mod
    exec(compile(text, file, 'exec'), mod.__dict__)
    return mod


def forget(mod):
    sys.modules.pop(mod.__name__, None)
    linecache.cache.pop(mod.__file__, None)


HELPERS = '''
import dataclasses, datetime, enum, marsh, logging
from typing import *
from typing_extensions import Annotated, NotRequired, TypedDict

class E(enum.Enum):
    """An enum."""
    red = 1
    blue = 2

@dataclasses.dataclass
class N:
    """Nested thing."""
    x: int
    """The x."""
    y: str = 'why'

@dataclasses.dataclass
class D:
    n: N
    z: List[N] = dataclasses.field(default_factory=list)
    """More of
    them."""

@dataclasses.dataclass
class Rec:
    v: int
    n: Optional['Rec'] = None

TD = TypedDict('TD', {'a.b': int, 'c': NotRequired[N]})

class TR(TypedDict):
    t: int
    n: NotRequired['TR']

class NT(NamedTuple):
    a: int
    b: N = N(1)

class Shape:
    pass

class Circle(Shape):
    """Round."""
    def __init__(self, r: int = 3):
        self.r = r

class Square(Shape):
    def __init__(self, n: N):
        self.n = n

class Empty:
    pass

class Form:
    def __init__(self, k: int = 1):
        self.k = k

class Sub(Form):
    pass

'''
REGISTER = '''
KEY = 'mc-c22-{n}'
NS = marsh.namespaces.new(KEY, Shape)
NS.register(Circle, name='circle')
NS.register(Square, name='sq')
NS2 = marsh.namespaces.new('b' + KEY, Form)
NS2.register(Sub, name='sub')
'''


class Node:
    def __init__(self, annotation, shown, fields=None, name=None, desc=None, specials=(), inner=None, names=None, open=True):
        self.annotation = annotation      # of the type itself
        self.shown = shown                # as the type of a field
        self.fields = fields or []        # (name, node, default, description)
        self.name = name                  # how the help of this type begins, if known
        self.desc = desc
        self.specials = list(specials)
        self.inner = inner                # paths go through to this
        self.names = names                # of a namespace
        self.open = open                  # fields are shown as part of another


def leaf(annotation, shown, name=None, **kw):
    return Node(annotation, shown, name=name, **kw)


INT, STR = leaf('int', '<int>', 'int'), leaf('str', '<str>', 'str')
N = Node('N', 'N(...)', [('x', INT, None, 'The x.'), ('y', STR, 'why', None)], 'N', 'Nested thing.')
LIST_N = Node('List[N]', '[N(...), ...]', inner=N)
D = Node('D', 'D(...)', [('n', N, None, None), ('z', LIST_N, '...', 'More of them.')], 'D')
REC = Node('Rec', 'Rec(...)', [], 'Rec')
REC.fields = [('v', INT, None, None), ('n', Node('Optional[Rec]', 'Rec(...) | <None>', inner=REC), 'None', None)]
TD = Node('TD', 'TD(...)', [('a.b', INT, None, None), ('c', N, None, None)], 'TD')
TR = Node('TR', 'TR(...)', [])
TR_INNER = Node('TR', 'TR(...)', inner=TR)
TR.fields = [('t', INT, None, None), ('n', TR_INNER, None, None)]
NT = Node('NT', 'NT(...)', [('a', INT, None, None), ('b', N, "{'x': 1, 'y': 'why'}", None)], 'NT', 'NT(a, b)')
CIRCLE = Node('Circle', 'Circle(...)', [('r', INT, '3', None)], 'Circle', 'Round.', [('name = "circle" -> Circle(...)', 'Round.')], names={})
SQUARE = Node('Square', 'Square(...)', [('n', N, None, None)], 'Square', None, [('name = "sq" -> Square(...)', None)], names={})
BARE_CIRCLE = Node('Circle', 'Circle(...)', CIRCLE.fields, 'Circle', 'Round.')
BARE_SQUARE = Node('Square', 'Square(...)', SQUARE.fields, 'Square')
SHAPE = Node('Shape', 'Shape(...)', [], 'Shape', None, CIRCLE.specials + SQUARE.specials, names={'circle': BARE_CIRCLE, 'sq': BARE_SQUARE})
FORM = Node('Form', 'Form(...)', [('k', INT, '1', None)], 'Form', None, [('name = "sub" -> Sub(...)', None)], names={'sub': Node('Sub', 'Sub(...)', [('k', INT, '1', None)], 'Sub')})

# name -> (node, [(default as text, how it is shown)])
MENU = {
    'int': (INT, [('5', '5'), ('-1', '-1')]),
    'str': (STR, [("''", ''), ("'a b'", 'a b'), ("'None'", 'None'), ("'100%(prog)s {x}'", '100%(prog)s {x}')]),
    'float': (leaf('float', '<float>', 'float'), [('1e300', '1e+300')]),
    'bool': (leaf('bool', '<bool>', 'bool'), [('False', 'False')]),
    'bytes': (leaf('bytes', '<bytes>', None), [("b'ab'", 'YWI=')]),
    'any': (leaf('Any', '<Any>', None), [('None', 'None')]),
    'literal': (leaf("Literal['a', 1, None]", '"a" | 1 | None', None), [("'a'", 'a')]),
    'enum': (leaf('E', '"red" | "blue"', 'E', desc='An enum.'), [('E.blue', 'blue')]),
    'N': (N, [("N(2, 'z')", "{'x': 2, 'y': 'z'}")]),
    'D': (D, []),
    'rec': (REC, []),
    'TD': (TD, []),
    'TR': (TR, []),
    'NT': (NT, [('NT(4)', "{'a': 4, 'b': {'x': 1, 'y': 'why'}}")]),
    'list': (LIST_N, []),
    'dict': (Node('Dict[str, N]', '{<str>: N(...), ...}', inner=N), []),
    'nested': (Node('Dict[int, List[D]]', '{<int>: [D(...), ...], ...}', inner=D), []),
    'set': (Node('Set[int]', '[<int>, ...]', inner=INT), []),
    'optional': (Node('Optional[N]', 'N(...) | <None>', inner=N), [('None', 'None')]),
    'union': (leaf('Union[int, N]', '<int> | N(...)', None), [('3', '3')]),
    'annotated': (Node("Annotated[D, 'text']", 'D(...)', D.fields, 'D', inner=D), []),
    'tuple': (Node('Tuple[int, N]', '[<int>, N(...)]', [('0', INT, None, None), ('1', N, None, None)]), [('(1, N(2))', "(1, {'x': 2, 'y': 'why'})")]),
    'vtuple': (Node('Tuple[N, ...]', '[N(...), ...]', inner=N), [('()', '()')]),
    'shape': (SHAPE, []),
    'circle': (CIRCLE, []),
    'form': (FORM, []),
    'empty': (Node('Empty', 'Empty(...)', [], 'Empty'), []),
    'datetime': (leaf('datetime.datetime', '<datetime>', None), []),
}
NAMES = ('alpha', 'b_eta', 'z')
DESCS = (None, 'Short.', 'A long-ish description of many-hyphened words that has to be wrapped somewhere, 100% sure.', 'two\n            lines')
KINDS = ('function', 'keyword', 'dataclass', 'class', 'namedtuple', 'args', 'kwargs', 'starred')
WIDTHS = (13, 14, 20, 26, 30, 31, 40, 60, 82, 102, 300)
# a field: (menu, number of the default or None, number of the description)


def program(kind, fields):
    """-> text of the program and the node of what it is configured with."""
    lines, node_fields = [], []
    doc = ['    """Main text.', '', '    Arguments:']
    described = False
    for i, (item, dflt, desc) in enumerate(fields):
        node, defaults = MENU[item]
        name = NAMES[i]
        text, shown = (None, None) if dflt is None else defaults[dflt]
        star = ''
        if kind in ('args', 'starred') and i == len(fields) - 1:
            star = '*'
        if kind == 'kwargs' and i == len(fields) - 1:
            star = '**'
        if kind == 'starred' and i == 0 and len(fields) > 1:
            star = ''
        lines.append(f'{star}{name}: {node.annotation}' + ('' if text is None else f' = {text}'))
        if DESCS[desc]:
            doc.append(f'        {name}: {DESCS[desc]}')
            described = True
        node_fields.append((star + name, node, shown, ' '.join(DESCS[desc].split()) if DESCS[desc] else None))
    doc = '\n'.join(doc if described else doc[:1]) + '\n    """\n'
    if kind in ('function', 'args', 'kwargs', 'starred'):
        body = f'def run({", ".join(lines)}):\n{doc}    return locals()\n'
        head, name = 'main', None
    elif kind == 'keyword':
        body = f'def run({", ".join(["*"] * bool(lines) + lines)}):\n{doc}    return locals()\n'
    elif kind == 'class':
        body = f'class run:\n{doc}    def __init__({", ".join(["self"] + lines)}):\n        self.values = locals()\n'
    elif kind == 'namedtuple':
        body = f'class run(NamedTuple):\n{doc}' + ''.join(f'    {x}\n' for x in lines)
    else:
        body = f'@dataclasses.dataclass\nclass run:\n{doc}' + ''.join(f'    {x}\n' for x in lines)
    COUNT[0] += 1
    return HELPERS + REGISTER.replace('{n}', str(COUNT[0])) + body, Node('run', 'run(...)', node_fields, 'run', 'Main text.')


def allowed(kind, fields):
    """The defaults and the way they are written make a valid program."""
    seen = False
    for i, (item, dflt, _) in enumerate(fields):
        last = i == len(fields) - 1
        if kind in ('args', 'kwargs', 'starred') and last:
            if dflt is not None:
                return False
            continue
        if dflt is None and seen and kind != 'keyword':
            return False
        seen = seen or dflt is not None
        if dflt is not None and kind == 'dataclass' and item in ('N',):
            return False    # python refuses mutable defaults
    return bool(fields) or kind not in ('args', 'kwargs', 'starred')


def entries(node, depth, path='', level=0, within=()):
    """The entries of the help: level, text, description, path."""
    if level >= depth:
        return
    for name, sub, default, desc in node.fields:
        at = marsh.path.append(path, name)
        text = f'{at}: {sub.shown}' + ('' if not default else f' = {default}')
        yield level, text, desc, at
        if sub is not TR_INNER:
            yield from entries(sub, depth, at, level + 1)
    for value, desc in node.specials:
        yield level, value, desc, None


def squeeze(text):
    return ''.join(text.split())


def compare(what, shown, expected, width):
    text = ''.join(e[1] + (e[2] or '') for e in expected)
    require(squeeze(shown) == squeeze(text), lambda: f'{what}: the help is\n{shown}\nexpected\n' + '\n'.join(map(repr, expected)))
    require(all(len(line) <= width for line in shown.split('\n')), lambda: f'{what}: a line is longer than {width}:\n{shown}')
    blocks = shown.split('\n\n') if expected else []
    require(len(blocks) == len(expected), lambda: f'{what}: {len(blocks)} entries, expected {len(expected)}:\n{shown}')
    for block, (level, value, desc, _) in zip(blocks, expected):
        require(squeeze(block) == squeeze(value + (desc or '')), lambda: f'{what}: {block!r} is shown for {value!r} {desc!r}')
        if width >= 40:
            require(block.startswith(' ' * (2 + 2 * level) + value[:5]), lambda: f'{what}: {value!r} is not indented for its level {level}:\n{shown}')
        if desc and width >= 60:
            # the description is set apart from the value
            first = block.split('\n')[0]
            words = desc.split()
            require(not squeeze(first).startswith(squeeze(value)) or first.rstrip() == (' ' * (2 + 2 * level) + value).rstrip() or first[len(' ' * (2 + 2 * level) + value):].startswith('    '),
                    lambda: f'{what}: the description is not set apart:\n{block}')


def rendering(doc, path, level, depth):
    if level >= depth:
        return []
    found = []
    for name, field in (doc.fields or {}).items():
        name = f'{path}.{name}' if path else name
        value = name + (f': {field.type}' if field.type else '') + (f' = {field.doc.default}' if field.doc.default else '')
        found.append((level, value, field.description, name))
        found += rendering(field.doc, name, level + 1, depth)
    return found + [(level, s.value, s.description, '') for s in doc.special_fields or ()]


def doc_of(type_=None, default=None, description=None, fields=None, special=None):
    Doc = marsh.schema.UnmarshalSchema.Doc
    return Doc(type=type_, default=default, description=description, fields=fields, special_fields=special)


def doc_field(doc, type_=None, description=None):
    return marsh.schema.UnmarshalSchema.Doc.Field(doc=doc, type=type_, description=description)


def doc_special(value, description=None):
    return marsh.schema.UnmarshalSchema.Doc.SpecialField(value=value, description=description)


WHY = 'why this is needed and more words than fit'
RENDER = [
    lambda: doc_of(), lambda: doc_of('T'), lambda: doc_of(description='D'), lambda: doc_of('T', '1', 'D'),
    *(lambda t=t, d=d, w=w, s=s: doc_of('T', None, 'D', {'a': doc_field(doc_of('I', d), t, w), 'b': doc_field(doc_of(), 'J', None)}, s and [doc_special('<str>', s)])
      for t in (None, '<int>') for d in (None, '5') for w in (None, WHY, 'short') for s in (None, WHY)),
    *(lambda i=i, s=s: doc_of('T', None, None, {'n': doc_field(doc_of('N', d, 'N itself', {'x': doc_field(doc_of('X', '0', 'x itself', {'deep': doc_field(doc_of(), '<int>', 'very deep')}), '<X>', w)}, s), '<N>', None), 'z': doc_field(doc_of(), '<int>')}, None)
      for i, (d, w) in enumerate(((None, None), ('{}', WHY), ('7', 'short'))) for s in (None, [doc_special('rest', 'of it'), doc_special('more')])),
]


def custom_help():
    """Every difference between help and what schemas of custom types say."""
    bad = []

    class Thing:
        """Not this text."""

    class Plain:
        """The text of plain."""

    class ThingSchema(marsh.schema.UnmarshalSchema):
        match = classmethod(lambda cls, value: value is Thing)
        doc_type = lambda self: 'THING'
        doc_description = lambda self: 'A thing of its own.'
        doc_default = lambda self: 'nothing'
        doc_fields = lambda self, depth: {'part': doc_field(doc_of('P', '3'), '<part>', f'at {depth}')} if depth > 0 else None
        doc_special_fields = lambda self: [doc_special('extra', 'of things')]
        unmarshal = lambda self, element: Thing()

    class PlainSchema(marsh.schema.UnmarshalSchema):
        match = classmethod(lambda cls, value: value is Plain)
        unmarshal = lambda self, element: Plain()

    class SpecialPlain(marsh.schema.UnmarshalSchema):
        match = classmethod(lambda cls, value: value is Other)
        doc_field_type = lambda self: 'FIELD'
        unmarshal = lambda self, element: Other()

    class Other(Plain):
        pass

    for s in (ThingSchema, PlainSchema, SpecialPlain):
        marsh.schema.register(s)

    def want(what, got, expected):
        bad.append('' if got == expected else f'{what}: {got!r}, expected {expected!r}')

    for depth in range(3):
        doc = marsh.schema.UnmarshalSchema(Thing).doc(depth)
        want(f'doc({depth})', doc, doc_of('THING', 'nothing', 'A thing of its own.', {'part': doc_field(doc_of('P', '3'), '<part>', f'at {depth}')} if depth else None, [doc_special('extra', 'of things')]))
    name = marsh.utils.get_type_name(Plain)
    want('plain', marsh.schema.UnmarshalSchema(Plain).doc(2), doc_of(name, None, 'The text of plain.', None, None))
    want('plain field type', marsh.schema.UnmarshalSchema(Plain).doc_field_type(), name)
    want('other type', marsh.schema.UnmarshalSchema(Other).doc(1).type, marsh.utils.get_type_name(Other))
    want('other field type', marsh.schema.UnmarshalSchema(Other).doc_field_type(), 'FIELD')
    for given, shown in (({}, None), ({'default': 5}, '5'), ({'default': (1, 2)}, '(1, 2)'), ({'default': None}, 'None'), ({'default_factory': list}, '...'), ({'default': Plain}, str(Plain))):
        want(f'default {given}', marsh.schema.UnmarshalSchema(Plain, **given).doc().default, shown)

    @dataclasses.dataclass
    class Top:
        thing: Thing
        other: Other
        plain: Plain

    doc = marsh.schema.UnmarshalSchema(Top).doc(3)
    want('fields', list(doc.fields), ['thing', 'other', 'plain'])
    want('types', [f.type for f in doc.fields.values()], ['THING', 'FIELD', name])
    want('inner', doc.fields['thing'].doc, marsh.schema.UnmarshalSchema(Thing).doc(2))
    for path, depth in (('', 3), ('thing', 2), ('thing', 1), ('thing', 0)):
        schema = marsh.schema.UnmarshalSchema(Top).select(path)
        got = marsh.doc.terminal.format_unmarshal_help(schema, depth=depth, width=98)
        doc = schema.doc(depth)
        head = [x for x in (doc.type, doc.description) if x]
        shown = marsh.doc.terminal.format_unmarshal_fields(doc, depth=depth, width=98)
        want(f'help of {path!r} at {depth}', got, '\n\n'.join(head + ([shown] if shown else [])))
    return bad


SAMPLES = (5, '5', 'x', None, {'x': 1}, [{'x': 1}], {'n': {'x': 2}}, [1, {'x': 2}], {'v': 3}, {}, 'red', {'a.b': 1}, {'name': 'sq', 'n': {'x': 1}}, {'name': 'sub'})


def select(node, fields):
    """-> the node at the fields, or None"""
    while node.inner is not None:
        node = node.inner
    if not fields:
        return node
    for name, sub, _, _ in node.fields:
        if name.strip('*') == fields[0].strip('*') and fields[0] not in (node.names or ()):
            return select(sub, fields[1:])
    if node.names is not None:
        if fields[0] in node.names:
            return select(node.names[fields[0]], fields[1:])
        if node in (CIRCLE, SQUARE):
            own = {'Circle': 'circle', 'Square': 'sq'}[node.annotation]
            if fields[0] == own:
                return select(BARE_CIRCLE if own == 'circle' else BARE_SQUARE, fields[1:])
    return None


PATH_FIELDS = ('x', 'y', 'n', 'z', 'v', 'a.b', 'c', '0', '1', 'sq', 'circle', 'sub', 'nope', '')


def tried(value):
    try:
        v = value()
        return 'ok', type(v).__name__, repr(getattr(v, '__dict__', v) if not isinstance(v, (int, str, list, dict, tuple)) else v).split(' at 0x')[0]
    except errors.MarshError as err:
        return 'refused', str(err).split('\n')[0]


# -- where descriptions are written -----------------------------------------------

TEXT = {'a': 'About a (first).', 'b': 'The b: see `a`, e.g. 5.'}
TEXT2 = {'a': 'Base text of a', 'b': 'Base text of b'}
SECTIONS = {
    'google': lambda d, ind: [f'{ind}Arguments:'] + [f'{ind}    {k}: {v}' for k, v in d.items()],
    'args': lambda d, ind: [f'{ind}Args:'] + [f'{ind}    {k} (int): {v}' for k, v in d.items()],
    'wrapped': lambda d, ind: [f'{ind}Arguments:'] + [x for k, v in d.items() for x in (f'{ind}    {k}: ' + v.split()[0], f'{ind}        ' + ' '.join(v.split()[1:]))],
    'numpy': lambda d, ind: [f'{ind}Parameters', f'{ind}----------'] + [x for k, v in d.items() for x in (f'{ind}{k} : int', f'{ind}    {v}')],
    'rest': lambda d, ind: [f'{ind}:param {k}: {v}' for k, v in d.items()],
    'epydoc': lambda d, ind: [f'{ind}@param {k}: {v}' for k, v in d.items()],
}
MAINS = (None, ['Main text.'], ['Main text', 'in two lines.', '', 'And more.'])
ATTRS = ('none', 'line', 'block', 'comment', 'other', 'late')
PLACES = ('module', 'class', 'function')


def class_text(name, bases, main, section, documented, texts, attrs, defaults, ind, kind, own=('a', 'b')):
    """Source of a class with fields a and b, described in several ways; and the descriptions it makes."""
    out = []
    deco = {'dataclass': '@dataclasses.dataclass', 'frozen': '@dataclasses.dataclass(\n    frozen=True,\n)'}.get(kind)
    if deco:
        out += [ind + x for x in deco.split('\n')]
    out.append(f'{ind}class {name}({bases}):' if bases else f'{ind}class {name}:')
    inner = ind + '    '
    said = {}
    lines = list(MAINS[main] or ())
    body = []
    if section and documented:
        d = {k: texts[k] for k in documented}
        body = SECTIONS[section](d, inner)
        said.update(d)
    if lines or body:
        doc = [inner + x if x else '' for x in lines] + ([''] if lines and body else []) + body
        if lines:
            doc[0] = inner + '"""' + doc[0].strip()
        else:
            doc.insert(0, inner + '"""')
        out += doc + [inner + '"""']
    for k in own:
        out.append(f'{inner}{k}: int' + (' = 3' if k in defaults else ''))
        how = attrs.get(k, 'none')
        text = f'{texts[k]} (attribute)'
        if how == 'line':
            out.append(f'{inner}"""{text}"""')
        elif how == 'block':
            out += [f'{inner}"""{text.split()[0]}', f'{inner}' + ' '.join(text.split()[1:]), f'{inner}"""']
        elif how == 'comment':
            out += [f'{inner}# a comment', '', f'{inner}"""{text}"""']
        elif how == 'other':
            out.append(f'{inner}5')
        elif how == 'late':
            out += [f'{inner}other: ClassVar[int] = 4', f'{inner}"""{text}"""']
        if how in ('line', 'block', 'comment'):
            said.setdefault(k, text)
    if not own and not (lines or body):
        out.append(f'{inner}pass')
    if kind == 'plain':
        out += [f'{inner}def __init__(self, a: int, b: int = 3):', f'{inner}    """Makes one.', f'{inner}    """', f'{inner}    self.a = a']
    return '\n'.join(out) + '\n', said


# -- programs that are called with arguments of their own ----------------------------

def signature(params):
    """The text of the parameters, None if there are no such."""
    out, last, optional = [], 0, False
    for i, p in enumerate(params):
        rank = {'P': 0, 'K': 1, '*': 2, 'O': 3, '**': 4}[p.rstrip('=')]
        if rank < last or rank == last and rank in (2, 4) and i:
            return None
        if rank < 2:
            if optional and not p.endswith('='):
                return None
            optional = optional or p.endswith('=')
        if rank > 0 and last == 0 and i and params[i - 1][0] == 'P':
            out.append('/')
        if rank == 3 and '*' not in params and not any(q[0] == 'O' for q in params[:i]):
            out.append('*')
        out.append({2: '*', 4: '**'}.get(rank, '') + 'abcd'[i] + (': int' if rank not in (2, 4) else '') + (' = 5' if p.endswith('=') else ''))
        last = rank
    if params and params[-1][0] == 'P':
        out.append('/')
    return '(' + ', '.join(out) + ')'


CALLED = (0, 7, '', None, False, 'a b', 2.5)


class C22(Property):
    id = 'C22'
    bounds = (
        f'every program with up to two fields out of {len(MENU)} types (three: all orders of a few) with their defaults and descriptions, as function, with keyword, starred and double starred parameters, dataclass, class, named tuple; '
        f'help at depths 0 to 5 and {len(WIDTHS)} widths; every path of up to three (thorough four) fields; every combination of the ways to describe two fields in a class and its base, at three places; '
        'the options under every combination of settings of the entry point; the help of programs called with arguments of their own'
    )

    def cases(self, tier):
        yield 'help', 'function', ()
        for kind in KINDS:
            for item in MENU:
                for d in [None, *range(len(MENU[item][1]))]:
                    for k in range(len(DESCS)):
                        if allowed(kind, ((item, d, k),)):
                            yield 'help', kind, ((item, d, k),)
        for kind in KINDS:
            for a, b in itertools.product(MENU, repeat=2):
                for da, db in ((None, None), (0, 0), (None, 0)):
                    if da is not None and not MENU[a][1] or db is not None and not MENU[b][1]:
                        continue
                    f = ((a, da, 1), (b, db, 0))
                    if allowed(kind, f) and (tier != 'quick' or kind in ('function', 'dataclass')):
                        yield 'help', kind, f
        for kind in KINDS:
            for abc in itertools.permutations(('int', 'N', 'rec', 'shape', 'tuple', 'list') if tier == 'quick' else tuple(MENU)[::2], 3):
                f = tuple((x, None, 2 * (i % 2)) for i, x in enumerate(abc))
                yield 'help', kind, f
        for kind in ('function', 'dataclass', 'kwargs'):
            for item in MENU:
                yield 'paths', kind, item, tier != 'quick'
        for kind in ('dataclass', 'frozen', 'plain', 'namedtuple', 'typeddict'):
            for place in PLACES:
                for main in range(len(MAINS)):
                    yield 'described', kind, place, main
        yield 'described function',
        yield 'static',
        yield 'tables',
        yield 'custom',
        yield 'depth',
        for i in range(len(RENDER)):
            for width in (30, 60, 100):
                yield 'rendered', i, width
        for logs, prog, description, epilog, doc in itertools.product((False, True), (None, 'tool'), (None, '', 'Given 100% text.'), (None, 'The end.'), (None, 'Doc text.')):
            yield 'options', logs, prog, description, epilog, doc
        for level in ('CRITICAL', 'ERROR', 'WARNING', 'INFO', 'DEBUG', 'NOTSET', None, 'info', 'nope', ''):
            for form in (None, '%(message)s', '%(levelname)s|%(message)s', '%(name)s: 100%%'):
                yield 'logging', level, form
        for n in range(4 if tier == 'quick' else 5):
            for params in itertools.product(('P', 'P=', 'K', 'K=', 'O', 'O=', '*', '**'), repeat=n):
                if signature(params):
                    yield 'called', params

    def case(self, case, stats):
        stats.distinct()
        getattr(self, case[0].replace(' ', '_'))(*case[1:], stats=stats)

    def made(self, kind, fields):
        tm.fresh_typing()
        text, node = program(kind, fields)
        mod = module(text)
        return mod, node

    def entry(self, mod, kind, depth):
        if kind in ('dataclass', 'class', 'namedtuple'):
            return marsh.main(lambda config: None, config=mod.run, help_depth=depth)
        return marsh.main(mod.run, help_depth=depth)

    def drop(self, mod):
        del marsh.namespaces[mod.KEY]
        del marsh.namespaces['b' + mod.KEY]
        forget(mod)

    def help(self, kind, fields, stats):
        mod, node = self.made(kind, fields)
        try:
            for depth in range(6):
                expected = list(entries(node, depth))
                schema = marsh.schema.UnmarshalSchema(mod.run)
                for width in (82,) if depth not in (1, 3) else WIDTHS if len(fields) < 2 else (13, 60):
                    stats.step()
                    stats.traces += 1
                    shown = marsh.doc.terminal.format_unmarshal_fields(schema, depth=depth, width=width)
                    compare(f'{kind} {fields} depth {depth} width {width}', shown, expected, width)
                    stats.outcome(shown)
                    os.environ['COLUMNS'] = str(width + 2)
                    try:
                        o = cli.run(self.entry(mod, kind, depth), ['-h'])
                    finally:
                        os.environ['COLUMNS'] = '100'
                    require(o.error is None and o.exit == 0, lambda: f'{kind} {fields}: --help {o.brief()}')
                    head, sep, rest = o.out.partition('\nfields:\n')
                    require(bool(sep) == bool(expected), lambda: f'{kind} {fields} depth {depth}: --help shows\n{o.out}')
                    if sep:
                        compare(f'{kind} {fields} depth {depth} width {width}, --help', rest.rstrip('\n'), expected, width)
                    require(squeeze('Main text.') in squeeze(head), lambda: f'{kind} {fields}: --help does not show the description:\n{head}')
            # what is shown is what is used
            self.truth(mod, kind, fields, node, stats)
        finally:
            self.drop(mod)

    def truth(self, mod, kind, fields, node, stats):
        if kind in ('args', 'kwargs', 'starred'):
            return
        minimal = {'int': 7, 'str': 's', 'float': 1.5, 'bool': True, 'bytes': 'YQ==', 'any': [1], 'literal': 1, 'enum': 'red', 'N': {'x': 1}, 'D': {'n': {'x': 1}}, 'rec': {'v': 1}, 'TD': {'a.b': 1}, 'TR': {'t': 1}, 'NT': {'a': 1},
                   'union': 4, 'tuple': [1, {'x': 2}], 'annotated': {'n': {'x': 3}}, 'shape': {'name': 'circle'}, 'circle': {'name': 'circle'}, 'form': {'name': 'sub'}, 'datetime': '2020-01-01'}
        element = {}
        for (item, d, _), (name, *_) in zip(fields, node.fields):
            if d is None and item in minimal:
                element[name] = minimal[item]

        def get(element):
            v = marsh.unmarshal(mod.run, element)
            if kind in ('function', 'keyword'):
                return v
            return getattr(v, 'values', None) or {n: getattr(v, n) for n, *_ in node.fields}

        stats.step()
        values = get(element)
        for (item, d, _), (name, sub, default, _) in zip(fields, node.fields):
            if d is not None:
                v = values[name]
                require(str(marsh.marshal(v)) == default, lambda: f'{kind} {fields}: {name} is shown with the default {default!r}, it is {v!r}')
            elif name in element and item in ('int', 'str', 'float', 'bool', 'bytes', 'any', 'literal', 'enum', 'datetime', 'N', 'D', 'rec', 'TD', 'TR', 'NT', 'tuple'):
                less = {k: e for k, e in element.items() if k != name}
                stats.step()
                try:
                    got = get(less)
                except errors.UnmarshalError as err:
                    require(err.path.split('.')[0] == name, lambda: f'{kind} {fields}: fails at {err.path} without {name}')
                else:
                    require(item == 'literal' and None in got.values(), lambda: f'{kind} {fields}: {name} is shown without default but not required: {got}')

    def paths(self, kind, item, deep, stats):
        mod, node = self.made(kind, ((item, None, 1),))
        try:
            schema = marsh.schema.UnmarshalSchema(mod.run)
            entry = self.entry(mod, kind, 2)
            first = ('alpha', '*alpha', '**alpha', 'nope', '')
            fields = [()] + [p for n in range(1, 5 if deep else 4) for p in itertools.product(first, *[PATH_FIELDS] * (n - 1)) if n < 3 or p[0] == 'alpha']
            shown = {at for level, text, desc, at in entries(node, 4) if at}
            for p in fields:
                if '' in p:
                    # an empty field is not a field
                    if p[-1] == '' and len(p) > 1 or '' in p[1:]:
                        continue
                path = marsh.path.join_fields(p) if p and '' not in p else '.'.join(marsh.path.escape_field(f) if f else '' for f in p)
                want = select(node, [f for f in p if f])
                what = f'{kind} {item} at {path!r}'
                stats.step()
                stats.traces += 1
                try:
                    got = schema.select(path)
                except errors.PathError as err:
                    stats.outcome(str(err))
                    require(want is None, lambda: f'{what}: refused with {err!r}, expected {want.annotation}')
                    if path and (deep or len(p) < 3):
                        o = cli.run(entry, ['-h', path])
                        require(o.error is None and o.exit == 1 and 'traverse' in o.out, lambda: f'{what}: --help {o.brief()}')
                    continue
                require(want is not None, lambda: f'{what}: selected {got!r}, expected to be refused')
                if want is not node:
                    T = eval(want.annotation, mod.__dict__)
                    if want in (BARE_CIRCLE, BARE_SQUARE) or want.annotation == 'Sub':
                        samples = ({'r': 4}, {'n': {'x': 5}}, {'k': 6})
                        expected_values = None
                    else:
                        for s in SAMPLES:
                            a, b = tried(lambda: got.unmarshal(s)), tried(lambda: marsh.unmarshal(T, s))
                            require(a == b, lambda: f'{what}: unmarshals {s!r} to {a}, expected {b}')
                        require(tried(lambda: got.unmarshal(marsh.MISSING))[0] == tried(lambda: marsh.unmarshal(T, marsh.MISSING))[0] or got.has_default(), lambda: f'{what}: a missing value')
                expected = list(entries(want, 2))
                if path and (deep or len(p) < 3):
                    o = cli.run(entry, ['-h', path])
                    require(o.error is None and o.exit == 0, lambda: f'{what}: --help {o.brief()}')
                    if want.name:
                        text = ''.join([want.name, want.desc or '', *(e[1] + (e[2] or '') for e in expected)])
                        whole = squeeze(o.out)
                        require(whole == squeeze(text) or want is node and whole.startswith(want.name) and whole.endswith(squeeze(''.join(e[1] + (e[2] or '') for e in expected))), lambda: f'{what}: --help shows\n{o.out}\nexpected\n{text}')
                    require(o.out.strip(), f'{what}: --help shows nothing')
                shown.discard(path)
            # every path in the help can be asked for
            for at in sorted(shown):
                stats.step()
                try:
                    schema.select(at)
                except errors.MarshError as err:
                    require(False, f'{kind} {item}: the help shows {at} but selecting it gives {err!r}')
        finally:
            self.drop(mod)

    def described(self, kind, place, main, stats):
        ind = {'module': '', 'class': '    ', 'function': '    '}[place]
        bases = {'namedtuple': 'NamedTuple', 'typeddict': 'TypedDict'}.get(kind, '')
        inherit = [None] if kind in ('namedtuple', 'typeddict') else [None, ('google', 'a', 'none', ''), (None, '', 'line', ''), ('rest', 'b', 'block', ''), (None, '', 'line', 'redefined'), ('google', 'ab', 'none', 'redefined')]
        for section in [None, *SECTIONS]:
            for documented in (('',) if section is None else ('a', 'b', 'ab')):
                for attr_a, attr_b in itertools.product(ATTRS, repeat=2) if section in (None, 'google') else (('none', 'none'), ('line', 'line')):
                    for base in inherit if attr_a == attr_b and section in (None, 'google') else inherit[:1]:
                        if base and section and not documented:
                            continue
                        if 'late' in (attr_a, attr_b) and kind in ('namedtuple', 'typeddict'):
                            continue
                        self.describe(kind, place, main, section, documented, attr_a, attr_b, base, ind, bases, stats)

    def describe(self, kind, place, main, section, documented, attr_a, attr_b, base, ind, bases, stats):
        parts, base_said = [], {}
        own = ('a', 'b')
        if base:
            base_section, base_documented, base_attr, redefined = base
            text, base_said = class_text('Base', '', 1, base_section, base_documented, TEXT2, {'a': base_attr, 'b': base_attr}, '', ind, 'dataclass' if kind == 'plain' else kind)
            parts.append(text)
            bases = 'Base'
            if not redefined:
                own = ()
        text, said = class_text('R', bases, main, section, documented, TEXT, {'a': attr_a, 'b': attr_b}, '' if kind in ('typeddict', 'namedtuple') else 'b', ind, kind, own)
        parts.append(text)
        body = '\n'.join(parts)
        if place == 'class':
            source = f'class Outer:\n{body}\nR = Outer.R\n'
        elif place == 'function':
            source = f'def make():\n{body}\n    return R\nR = make()\n'
        else:
            source = body
        mod = module('import dataclasses\nfrom typing import *\n' + source)
        try:
            expect = {**base_said, **said}
            stats.step()
            stats.traces += 1
            doc = marsh.schema.UnmarshalSchema(mod.R).doc(1)
            got = {k: None if f.description is None else ' '.join(f.description.split()) for k, f in doc.fields.items()}
            want = {k: expect.get(k) for k in ('a', 'b')}
            require(got == want, lambda: f'the fields of\n{source}\nare described as {got}, expected {want}')
            text = ' '.join((doc.description or '').split())
            if MAINS[main]:
                mains = ' '.join(' '.join(MAINS[main]).split())
                require(text.startswith(mains), lambda: f'the class in\n{source}\nis described as {text!r}, expected {mains!r}')
            elif not (section and documented):
                allow = [''] if kind != 'plain' or not base else ['', 'Main text.']
                require(text in allow or kind in ('namedtuple', 'typeddict'), lambda: f'the class in\n{source}\nis described as {text!r}')
        finally:
            forget(mod)

    def described_function(self, stats):
        for main in range(len(MAINS)):
            for section, documented in [(None, ''), *itertools.product(SECTIONS, ('a', 'b', 'ab'))]:
                for extra in (False, True):
                    lines = list(MAINS[main] or ())
                    d = {k: TEXT[k] for k in documented}
                    body = SECTIONS[section](d, '    ') if d else []
                    if extra and section in ('google', 'args', 'wrapped'):
                        body += ['', '    Returns:', '        a: The result of all.', '', '    Raises:', '        b: An error.']
                    doc = ['    ' + x if x else '' for x in lines] + ([''] if lines and body else []) + body
                    text = 'def run(a: int, *b: int):\n' + ('    """' + ('\n'.join(doc).strip() if lines else '\n' + '\n'.join(doc)) + '\n    """\n' if doc else '') + '    return a\n'
                    mod = module(text)
                    try:
                        stats.step()
                        stats.traces += 1
                        got_doc = marsh.schema.UnmarshalSchema(mod.run).doc(1)
                        got = {k: None if f.description is None else ' '.join(f.description.split()) for k, f in got_doc.fields.items()}
                        want = {'a': d.get('a'), '*b': d.get('b')}
                        require(got == want, lambda: f'the parameters of\n{text}\nare described as {got}, expected {want}')
                        o = cli.run(marsh.main(mod.run), ['-h'])
                        mains = ' '.join(' '.join(MAINS[main] or ()).split())
                        require(o.exit == 0 and squeeze(mains) in squeeze(o.out), lambda: f'--help of\n{text}\nis {o.brief()}')
                    finally:
                        forget(mod)

    def options(self, logs, prog, description, epilog, doc, stats):
        def run(a: int = 1):
            return a
        run.__doc__ = doc
        o = cli.run(marsh.main(setup_logging=logs, prog=prog, description=description, epilog=epilog)(run), ['--help'])
        stats.step()
        stats.traces += 1
        stats.outcome(o.out)
        what = lambda: f'logging {logs} prog {prog!r} description {description!r} epilog {epilog!r} doc {doc!r}: {o.brief()}\n{o.out}'
        require(o.error is None and o.exit == 0, what)
        head, _, listed = o.out.partition('options:')
        usage, _, rest = head.partition('\n\n')
        require(usage.startswith(f'usage: {prog or "app.py"} '), what)
        wanted = {'--help', '--config-dir', '--output', '--config-out'} | ({'--logging-level', '--logging-format'} if logs else set())
        for text in (usage, listed):
            shown = re.findall(r'(?:^|[ \[,])(--?[a-z-]+)(?= |$)', text, re.M)
            long = {s for s in shown if s.startswith('--')} - {'--config-dir`'}
            require(long == wanted if text is listed else len(set(shown)) == len(wanted) and (not logs or {'--logging-level', '--logging-format'} <= long), lambda: f'{what()}\nlists {shown}')
        listed, sep, fields = listed.partition('\nfields:')
        require(sep and squeeze(fields) == 'a:<int>=1', what)
        text = doc if description is None else description
        require(bool(text) == ('text.' in rest) and (not text or text in rest), what)
        require((epilog or 'The end.') in listed if epilog else 'The end.' not in o.out, what)
        if logs:
            require('INFO' in listed and '%(asctime)s %(levelname)s: %(message)s' in ' '.join(listed.split()), what)

    def logging(self, level, form, stats):
        levels = {n: getattr(logging, n) for n in ('CRITICAL', 'ERROR', 'WARNING', 'INFO', 'DEBUG', 'NOTSET')}
        root = logging.getLogger()
        before = root.level, root.handlers[:]
        argv = ['a=1'] + ([] if level is None else ['--logging-level', level]) + ([] if form is None else ['--logging-format', form])
        for logs in (False, True):
            seen = []

            @marsh.main(setup_logging=logs)
            def run(a: int):
                seen.append((a, root.level, [h.formatter._fmt for h in root.handlers]))

            root.handlers[:] = []
            root.setLevel(25)
            try:
                o = cli.run(run, argv)
            finally:
                root.handlers[:] = before[1]
                root.setLevel(before[0])
            stats.step()
            stats.traces += 1
            what = lambda: f'setup_logging={logs} {argv}: {o.brief()} saw {seen}'
            require(o.error is None, what)
            if not logs:
                if len(argv) > 1:
                    require(o.exit == 2 and not seen, what)
                else:
                    require(o.exit is None and seen == [(1, 25, [])], what)
            elif level is not None and level not in levels:
                require(o.exit == 2 and not seen, what)
            else:
                require(o.exit is None and seen == [(1, levels[level or 'INFO'], [form or '%(asctime)s %(levelname)s: %(message)s'])], what)
            stats.outcome(o.exit)

    def called(self, params, stats):
        text = signature(params)
        mod = module(f'def run{text}:\n    return locals()\n')
        try:
            entry = marsh.main(mod.run)
            sig = inspect.signature(mod.run)
            names = [(n, p) for n, p in sig.parameters.items()]
            keys = [n for n, p in names if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)] + (['w'] if '**' in params else [])
            for k in range(len(params) + 2):
                for rest in (c for m in range(len(keys) + 1) for c in itertools.combinations(keys, m)):
                    for shift in range(0, len(CALLED), 3):
                        values = list(itertools.islice(itertools.cycle(CALLED), shift, shift + k + len(rest)))
                        args, kwargs = tuple(values[:k]), dict(zip(rest, values[k:]))
                        try:
                            bound = sig.bind_partial(*args, **kwargs).arguments
                        except TypeError:
                            continue
                        expected = []
                        for name, p in names:
                            star = {p.VAR_POSITIONAL: '*', p.VAR_KEYWORD: '**'}.get(p.kind, '')
                            default = None if p.default is p.empty else str(p.default)
                            if name in bound:
                                default = str(list(bound[name]) if star == '*' else bound[name])
                            expected.append((0, f'{star}{name}: ' + ('<Any>' if star else '<int>') + (f' = {default}' if default else ''), None, star + name))
                        stats.step()
                        stats.traces += 1
                        o = cli.run(entry, ['-h'], args, kwargs)
                        what = f'{text} called with {args} {kwargs}'
                        require(o.error is None and o.exit == 0, lambda: f'{what}: {o.brief()}')
                        compare(what, o.out.partition('\nfields:\n')[2].rstrip('\n'), expected, 98)
                        stats.outcome(o.out)
        finally:
            forget(mod)

    def tables(self, stats):
        """A table is a list-table of its cells."""
        cells = ('a', 'b c', '', 'd\ne', 5, None)
        for title in (None, '', 'Title', 'A: title'):
            for widths in (None, (), (1, 2), [30, 50]):
                for heads in (('H', 'I'), ['H\nh', 1]):
                    for n in range(3):
                        for rows in itertools.product(itertools.product(cells, repeat=2), repeat=n) if n < 2 else [(('a', 1), ('b\nc', '')), [['', 'x'], ('y', 'z')]]:
                            lines = ['.. list-table::' + (f' {title}' if title else ''), '    :header-rows: 1']
                            if widths:
                                lines.append('    :widths: ' + ', '.join(str(w) for w in widths))
                            lines.append('')
                            for row in (tuple(heads), *rows):
                                lines += ['    ' + mark + str(cell).replace('\n', ' ') for mark, cell in zip(('* - ', '  - '), row)]
                            stats.step()
                            stats.traces += 1
                            got = marsh.doc.restructuredtext.format_table(heads, iter(rows), title=title, widths=widths)
                            require(got == '\n'.join(lines) + '\n', lambda: f'table {title!r} {widths} {heads} {rows}: {got!r}, expected {lines}')

    def rendered(self, index, width, stats):
        """Documentation that is put together by hand is shown as it is."""
        doc = RENDER[index]()
        for depth in range(4):
            for prefix in ('', 'top', 'top.sub'):
                entries = rendering(doc, prefix, 0, depth)
                what = f'rendered {index} width {width} depth {depth} prefix {prefix!r}'
                got = marsh.doc.terminal.format_unmarshal_fields(doc, prefix_path=prefix, width=width, depth=depth)
                stats.step()
                stats.traces += 1
                compare(what, got, entries, width)
                for kw in ({}, {'omit_type': True}, {'omit_description': True}, {'omit_type': True, 'omit_description': True}):
                    text = marsh.doc.terminal.format_unmarshal_help(doc, prefix_path=prefix, width=width, depth=depth, **kw)
                    head = [] if not doc.type or 'omit_type' in kw else [doc.type]
                    head += [] if not doc.description or 'omit_description' in kw else [doc.description]
                    stats.step()
                    require(text == '\n\n'.join(head + ([got] if got else [])), lambda: f'{what} {kw}: {text!r}')
        stats.outcome(got)

    def depth(self, stats):
        """Two levels are shown unless told otherwise."""
        L0 = dataclasses.make_dataclass('L0', [('w', int)])
        for inner in 'xyz':
            L0 = dataclasses.make_dataclass('L' + inner, [(inner, L0)])

        def run(config: L0):
            pass

        for fn, kw in ((run, {}), (lambda config: None, {'config': L0})):
            for argv in (['-h'], ['-h', 'config' if not kw else 'z'], ['--help', 'config.z' if not kw else 'z.y']):
                shown = [cli.run(marsh.main(fn, **kw, **d), argv) for d in ({}, {'help_depth': 2}, {'help_depth': 1})]
                stats.step(3)
                stats.traces += 1
                require(shown[0].out == shown[1].out != shown[2].out and shown[0].exit == 0, lambda: f'{argv}: {shown[0].brief()} by default, {shown[1].brief()} with 2 levels')

    def custom(self, stats):
        """What a registered schema says about itself is what the help shows."""
        from mc import child
        for text in child.run(custom_help):
            stats.step()
            stats.traces += 1
            require(not text, lambda: text)

    def static(self, stats):
        """The lists of supported types have each documented type once, in order."""
        def schema(name, type_, desc):
            return type(name, (marsh.schema.UnmarshalSchema,), {'doc_static_type': staticmethod(lambda: type_), 'doc_static_description': staticmethod(lambda: desc), 'match': classmethod(lambda cls, v: False)})

        menu = [('T1', 'Text of 1'), ('T2', None), (None, 'hidden'), ('``T 3``', 'two\nlines'), ('*', '|x|')]
        for n in range(4):
            for pick in itertools.permutations(menu, n):
                source = [schema(f'S{i}', *p) for i, p in enumerate(pick)]
                seen = [(t, d or '') for t, d in pick if t]
                for heading in (1, 3):
                    stats.step()
                    stats.traces += 1
                    got = marsh.doc.markdown.format_types(iter(source), heading=heading)
                    require(got == '\n\n'.join(f'{"#" * heading} {t}\n{d}' for t, d in seen), lambda: f'{pick}: {got!r}')
                for c in '#*=-^"':
                    got = marsh.doc.restructuredtext.format_types(source, section=c)
                    lines = []
                    for t, d in seen:
                        line = c * len(t)
                        lines.append((line + '\n' if c in '#*' else '') + f'{t}\n{line}\n\n{d}')
                    stats.step()
                    stats.traces += 1
                    require(got == '\n\n'.join(lines), lambda: f'{pick}: {got!r}')
                got = marsh.doc.restructuredtext.format_types_table(iter(source), title='Title')
                rows = [line.strip() for line in got.split('\n') if line.strip()]
                cells = [r[2:].lstrip('- ').strip() if r.startswith('* ') else r[1:].strip() for r in rows if r[:2] in ('* ', '- ') or r == '-']
                want = [c for row in [('Type', 'Description'), *seen] for c in (row[0].replace('\n', ' '), row[1].replace('\n', ' '))]
                require(cells == want, lambda: f'{pick}: {got!r} has {cells}, expected {want}')
        for source in (marsh.schema.UnmarshalSchema, marsh.schema.UnmarshalSchema.registry, marsh.schema.MarshalSchema):
            stats.step()
            registry = list(getattr(source, 'registry', source))
            types_ = [s.doc_static_type() for s in registry if s.doc_static_type()]
            got = marsh.doc.markdown.format_types(source)
            heads = [line[4:] for line in got.split('\n') if line.startswith('### ')]
            require(heads == types_ and len(types_) > 5, lambda: f'{source}: {heads}, expected {types_}')


PROPERTY = C22()
