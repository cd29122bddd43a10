"""Lookups and selectors decided by a plain walk of the tree."""
from .model import SVG

WS = ' \t\n\r\f'


def elements(top):
    """The elements of a subtree in document order, top included."""
    out = [top]
    for child in list(top):
        if child.node_type == 1:
            out.extend(elements(child))
    return out


def words(text):
    out, current = [], ''
    for ch in text or '':
        if ch in WS:
            if current:
                out.append(current)
            current = ''
        else:
            current += ch
    return out + [current] if current else out


def split_tag(node):
    tag = node.tag
    if tag[:1] == '{':
        uri, local = tag[1:].split('}')
        return uri, local
    return None, tag


def by_id(scope, value):
    for node in scope:
        if node.get('id') == value:
            return node
    return None


def by_class(scope, names):
    names = words(names)
    if not names:
        return []
    return [n for n in scope
            if all(w in words(n.get('class')) for w in names)]


def qname(node):
    local = split_tag(node)[1]
    return node.prefix + ':' + local if node.prefix else local


def by_tag(scope, name):
    return [n for n in scope if name == '*' or qname(n) == name]


def by_tag_ns(scope, uri, name):
    return [n for n in scope
            if (uri == '*' or split_tag(n)[0] == uri)
            and (name == '*' or split_tag(n)[1] == name)]


def by_local(scope, name):
    return [n for n in scope if split_tag(n)[1] == name]


# -- selectors ---------------------------------------------------------------
# selector: list of alternatives; alternative: [[combinator, compound], ...]
# compound: {'tag': [prefix, name], 'id', 'cls': [..], 'attr': [[n, op, v]..],
#            'pseudo': [..], 'not': compound}
def escape(name):
    out = ''
    for i, ch in enumerate(name):
        if ch.isalpha() and ch.isascii() or ch == '_' or ord(ch) >= 0x80:
            out += ch
        elif ch in '0123456789-' and i > 0:
            out += ch
        else:
            out += '\\{:x} '.format(ord(ch))
    return out


def string(value):
    out = ''
    for ch in value:
        if ch in '"\\\n\r\f':
            out += '\\{:x} '.format(ord(ch))
        else:
            out += ch
    return '"' + out + '"'


def text_of(selector):
    return ', '.join(text_of_alternative(a) for a in selector)


def text_of_alternative(alternative):
    out = ''
    for i, (comb, compound) in enumerate(alternative):
        if i:
            out += ' ' if comb == ' ' else ' ' + comb + ' '
        out += text_of_compound(compound)
    return out


def text_of_compound(c):
    out = ''
    if c.get('tag'):
        prefix, name = c['tag']
        out += (prefix + '|' if prefix else '') + (
            '*' if name == '*' else escape(name))
    if 'id' in c:
        out += '#' + escape(c['id'])
    for name in c.get('cls', ()):
        out += '.' + escape(name)
    for name, op, value in c.get('attr', ()):
        out += '[' + escape(name) + (op + string(value) if op else '') + ']'
    for name in c.get('pseudo', ()):
        out += ':' + name
    if 'not' in c:
        out += ':not(' + text_of_compound(c['not']) + ')'
    return out or '*'


def siblings(node):
    parent = node.getparent()
    if parent is None:
        return [node]
    return [n for n in list(parent) if n.node_type == 1]


def matches_compound(node, c, nsmap):
    if c.get('tag'):
        prefix, name = c['tag']
        uri, local = split_tag(node)
        if name != '*' and local != name:
            return False
        if prefix and uri != nsmap[prefix]:
            return False
        if not prefix and name != '*' and uri is not None:
            return False
    if 'id' in c and node.get('id') != c['id']:
        return False
    if any(w not in words(node.get('class')) for w in c.get('cls', ())):
        return False
    for name, op, value in c.get('attr', ()):
        got = node.get(name)
        if got is None:
            return False
        if op == '=' and got != value:
            return False
        if op == '~=' and value not in words(got):
            return False
        if op == '|=' and not (got == value or got.startswith(value + '-')):
            return False
        if op in ('^=', '$=', '*='):
            if not value:
                return False
            if not {'^=': got.startswith(value), '$=': got.endswith(value),
                    '*=': value in got}[op]:
                return False
    for name in c.get('pseudo', ()):
        near = siblings(node)
        at = [n is node for n in near].index(True)
        if name == 'first-child' and at != 0:
            return False
        if name == 'last-child' and at != len(near) - 1:
            return False
        if name == 'only-child' and (len(near) != 1 or
                                     node.getparent() is None):
            # cssselect: a root element is nobody's only child
            return False
        if name == 'root' and node.getparent() is not None:
            return False
        if name == 'empty' and (any(n.node_type == 1 for n in list(node))
                                or node.text or
                                any(n.tail for n in list(node))):
            return False
        if name == 'nth-child(2n+1)' and at % 2 != 0:
            return False
        if name == 'nth-child(3)' and at != 2:
            return False
        if name == 'nth-last-child(2)' and at != len(near) - 2:
            return False
    if 'not' in c and matches_compound(node, c['not'], nsmap):
        return False
    return True


def matches(node, alternative, nsmap, top):
    """Whether node matches, with every other element of the match inside the
    subtree of top (None: anywhere)."""
    comb, compound = alternative[-1]
    if not matches_compound(node, compound, nsmap):
        return False
    if len(alternative) == 1:
        return True
    rest = alternative[:-1]

    def inside(n):
        while n is not None and n is not top:
            n = n.getparent()
        return n is top
    parent = node.getparent()
    found = []
    if comb == '>':
        found = [parent] if parent is not None else []
    elif comb == ' ':
        while parent is not None:
            found.append(parent)
            parent = parent.getparent()
    elif parent is not None:
        near = siblings(node)
        at = [n is node for n in near].index(True)
        found = near[:at] if comb == '~' else near[:at][-1:]
    if top is not None:
        found = [n for n in found if inside(n)]
    return any(matches(n, rest, nsmap, top) for n in found)


def select(scope, selector, nsmap, top):
    return [n for n in scope
            if any(matches(n, a, nsmap, top) for a in selector)]
