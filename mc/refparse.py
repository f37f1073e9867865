"""Reference parser for the text syntax of values and overrides.

Index based, written from the documentation of marsh.parse.
"""

QUOTES = '"\''


class Bad(Exception):
    pass


def ws(s, i):
    while i < len(s) and s[i].isspace():
        i += 1
    return i


def ends(s, j, term):
    """After a value only whitespace, a terminal character or the end may follow."""
    k = ws(s, j)
    if k < len(s) and s[k] not in term:
        raise Bad(f'unexpected {s[k]!r} at {k}')
    return j


def p_string(s, i, term):
    i = ws(s, i)
    if i >= len(s):
        return '', i
    out = []
    if s[i] in QUOTES:
        q = s[i]
        i += 1
        while True:
            if i >= len(s):
                raise Bad('unclosed quote')
            if s[i] == '\\':
                if i + 1 >= len(s):
                    raise Bad('escape at end')
                out.append(s[i + 1])
                i += 2
            elif s[i] == q:
                i += 1
                break
            else:
                out.append(s[i])
                i += 1
    else:
        while i < len(s) and s[i] not in term:
            if s[i] == '\\':
                if i + 1 >= len(s):
                    raise Bad('escape at end')
                out.append(s[i + 1])
                i += 2
            else:
                out.append(s[i])
                i += 1
    return ''.join(out), ends(s, i, term)


def number(text):
    try:
        return True, int(text)
    except ValueError:
        pass
    try:
        f = float(text)
    except ValueError:
        return False, None
    if f == f and f not in (float('inf'), float('-inf')) and f == int(f):
        return True, int(f)
    return True, f


def p_terminal(s, i, term):
    i = ws(s, i)
    if i >= len(s):
        return '', i
    quoted = s[i] in QUOTES
    text, i = p_string(s, i, term)
    if quoted or not text:
        return text, i
    ok, n = number(text)
    if ok:
        return n, i
    return {'true': True, 'false': False, 'null': None}.get(text.lower(), text), i


def p_element(s, i, term):
    i = ws(s, i)
    if i < len(s) and s[i] in '([':
        return p_sequence(s, i, term)
    if i < len(s) and s[i] == '{':
        return p_mapping(s, i, term)
    v, i = p_terminal(s, i, term)
    return v, ends(s, i, term)


def p_sequence(s, i, term, item=None):
    item = item or p_element
    i = ws(s, i)
    if i >= len(s) or s[i] not in '([':
        raise Bad('no sequence')
    close = ']' if s[i] == '[' else ')'
    i = ws(s, i + 1)
    out = []
    while True:
        i = ws(s, i)
        if i < len(s) and s[i] == close:
            return tuple(out), ends(s, i + 1, term)
        if out:
            if i >= len(s) or s[i] != ',':
                raise Bad('expected ,')
            i = ws(s, i + 1)
        v, i = item(s, i, ',' + close)
        out.append(v)


def p_mapping(s, i, term):
    i = ws(s, i)
    if i >= len(s) or s[i] != '{':
        raise Bad('no mapping')
    i = ws(s, i + 1)
    out = {}
    while True:
        i = ws(s, i)
        if i >= len(s):
            raise Bad('unclosed mapping')
        if s[i] == '}':
            return out, ends(s, i + 1, term)
        if out:
            if s[i] != ',':
                raise Bad('expected ,')
            i = ws(s, i + 1)
        k, i = p_string(s, i, ':')
        i = ws(s, i)
        if i >= len(s) or s[i] != ':':
            raise Bad('expected :')
        v, i = p_element(s, ws(s, i + 1), ',}')
        out[k] = v


def element(text):
    v, i = p_element(text, 0, '')
    ends(text, i, '')
    return v


def config_names(s, i):
    i = ws(s, i)
    if i >= len(s) or s[i] in '[(':
        names, i = p_sequence(s, i, '', p_string)
        return tuple(map(str, names)), i
    names = []
    while i < len(s):
        if names:
            if s[i] != ',':
                raise Bad('expected ,')
            i += 1
        n, i = p_string(s, i, ',')
        names.append(n)
        i = ws(s, i)
    return tuple(names), i


def override(text):
    """('set', path, value, combine) | ('config', path, names, combine) | ('del', path)"""
    i = ws(text, 0)
    delete = i < len(text) and text[i] == '~'
    if delete:
        i += 1
    path, i = p_string(text, i, '+=@')
    if delete:
        if ws(text, i) < len(text):
            raise Bad('trailing text after ~path')
        return 'del', path
    combine = False
    if i < len(text) and text[i] == '+':
        combine = True
        i += 1
    if i < len(text) and text[i] == '@':
        names, i = config_names(text, i + 1)
        ends(text, i, '')
        return 'config', path, names, combine
    if i < len(text) and text[i] == '=':
        v, i = p_element(text, i + 1, '')
        ends(text, i, '')
        return 'set', path, v, combine
    raise Bad('no operator')


def quote(text, style):
    """Spell a string so that it parses back as exactly that string."""
    if style == 'single':
        return "'" + text.replace('\\', '\\\\').replace("'", "\\'") + "'"
    return '"' + text.replace('\\', '\\\\').replace('"', '\\"') + '"'


def show(e, style):
    """Spell an element; style = (quotes, bracket, space)."""
    q, br, sp = style
    if isinstance(e, dict):
        return '{' + sp + (sp + ',' + sp).join(
            f'{quote(k, q)}{sp}:{sp}{show(v, style)}' for k, v in e.items()) + sp + '}'
    if isinstance(e, (list, tuple)):
        return br[0] + sp + (sp + ',' + sp).join(show(v, style) for v in e) + sp + br[1]
    if e is None:
        return 'null'
    if isinstance(e, bool):
        return 'true' if e else 'False'
    if isinstance(e, (int, float)):
        return repr(e)
    return quote(e, q)
