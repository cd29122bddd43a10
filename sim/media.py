"""Media queries as data: generation, rendering, and an independent evaluator.

A query is a list of alternatives; an alternative is a dict
  {'neg': bool, 'only': bool, 'type': str or None, 'op': 'and'|'or',
   'feats': [feature]}
and a feature one of
  ['bool', name], ['disc', name, value],
  ['cmp', name, op, value, form], ['between', name, lo, op1, op2, hi].
'not' is used with exactly one term: the meaning of 'not a and b' in the
library is fixed by its tests and differs from the specification.
"""
from fractions import Fraction

PX = ('width', 'height', 'device-width', 'device-height')
RATIO = ('aspect-ratio', 'device-aspect-ratio')
INTS = ('color', 'monochrome', 'color-index')
SIZES = [0, 1, 50, 100, 199, 200, 201, 320, 400, 600, 640, 720, 800, 1000,
         1280]


def default_env():
    return {'media': 'screen', 'inner': [1280, 720], 'screen': [1280, 720],
            'angle': 0, 'depth': 24, 'mono': 0, 'scan': 'progressive',
            'update': 'none', 'dpr': 1, 'zoom': 1, 'root': [None, None],
            'has_root': True}


# -- rendering ---------------------------------------------------------------
# lengths and resolutions in other units, in px and dppx; chosen not to meet
# a size that occurs
UNITS = {'3.3in': Fraction(3168, 10), '5.1cm': Fraction(5100 * 96, 2540),
         '101mm': Fraction(101 * 960, 254), '333pt': Fraction(444),
         '17.3pc': Fraction(2768, 10), '701q': Fraction(7010 * 96, 1016)}
DENSITIES = {'50dpi': Fraction(50, 96), '100dpi': Fraction(100, 96),
             '30dpcm': Fraction(30 * 254, 9600),
             '70dpcm': Fraction(70 * 254, 9600)}


def unit(name, value):
    if isinstance(value, str) and (value in UNITS or value in DENSITIES):
        return value
    if name in PX:
        return '{}px'.format(value)
    if name == 'resolution':
        return '{}dppx'.format(value)
    return str(value)


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '='}


def text_feature(f):
    if f[0] == 'bool':
        return '({})'.format(f[1])
    if f[0] == 'disc':
        return '({}: {})'.format(f[1], f[2])
    if f[0] == 'between':
        _, name, lo, op1, op2, hi = f
        return '({} {} {} {} {})'.format(unit(name, lo), op1, name, op2,
                                         unit(name, hi))
    _, name, op, value, form = f
    v = unit(name, value)
    if op == '=' or (form == 'plain' and op in ('>=', '<=')):
        prefix = {'>=': 'min-', '<=': 'max-', '=': ''}[op]
        return '({}{}: {})'.format(prefix, name, v)
    if form == 'rev':
        return '({} {} {})'.format(v, FLIP[op], name)
    return '({} {} {})'.format(name, op, v)


def text_alt(a):
    parts = []
    if a['type'] is not None:
        head = a['type']
        if a['neg']:
            head = 'not ' + head
        elif a['only']:
            head = 'only ' + head
        parts.append(head)
    elif a['neg']:
        return 'not ' + text_feature(a['feats'][0])
    parts += [text_feature(f) for f in a['feats']]
    return ' {} '.format(a['op']).join(parts)


def text(query):
    return ', '.join(text_alt(a) for a in query)


# -- evaluation --------------------------------------------------------------
def resolve(value, base):
    if value is None or value == 'auto':
        return Fraction(base)
    if value.endswith('%'):
        return Fraction(value[:-1]) * base / 100
    if value.endswith('px'):
        value = value[:-2]
    return Fraction(value)


def viewport(env):
    if not env['has_root']:
        return [Fraction(x) for x in env['inner']]
    return [resolve(env['root'][0], env['inner'][0]),
            resolve(env['root'][1], env['inner'][1])]


def ratio(w, h):
    w, h = int(w), int(h)
    if h:
        return Fraction(w, h)
    return float('inf') if w > 0 else float('nan')


def orientation(env):
    wide = env['screen'][0] > env['screen'][1]
    if env['angle'] in (90, 270):
        wide = not wide
    return 'landscape' if wide else 'portrait'


def feature_value(name, env):
    w, h = viewport(env)
    return {
        'width': w, 'height': h, 'device-width': Fraction(env['screen'][0]),
        'device-height': Fraction(env['screen'][1]),
        'aspect-ratio': ratio(w, h),
        'device-aspect-ratio': ratio(*env['screen']),
        'color': env['depth'], 'monochrome': env['mono'],
        'color-index': 1 << env['depth'],
        'resolution': Fraction(env['dpr']) * Fraction(env['zoom']),
    }[name]


def number(name, value):
    if name in RATIO:
        n, _, d = str(value).partition('/')
        d = d or '1'
        if int(d):
            return Fraction(int(n), int(d))
        return float('inf') if int(n) > 0 else float('nan')
    if isinstance(value, str):
        if value in UNITS:
            return UNITS[value]
        if value in DENSITIES:
            return DENSITIES[value]
    return Fraction(value)


def compare(a, op, b):
    return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b,
            '=': a == b}[op]


def eval_feature(f, env):
    name = f[1]
    if f[0] == 'bool':
        if name in ('color', 'monochrome'):
            return feature_value(name, env) > 0
        if name == 'update':
            return env['update'] != 'none'
        if name == 'grid':
            return False
        return name not in ('pointer', 'hover', 'no-such-feature')
    if f[0] == 'disc':
        return f[2] == {'orientation': orientation(env),
                        'scan': env['scan'], 'update': env['update'],
                        'grid': '0'}.get(name)
    if f[0] == 'between':
        _, name, lo, op1, op2, hi = f
        v = feature_value(name, env)
        return compare(number(name, lo), op1, v) \
            and compare(v, op2, number(name, hi))
    return compare(feature_value(name, env), f[2], number(name, f[3]))


def eval_alt(a, env):
    terms = []
    if a['type'] is not None:
        terms.append(a['type'] == 'all' or a['type'] == env['media'])
    terms += [eval_feature(f, env) for f in a['feats']]
    result = any(terms) if a['op'] == 'or' else all(terms)
    return not result if a['neg'] else result


def matches(query, env):
    return any(eval_alt(a, env) for a in query)


# -- generation --------------------------------------------------------------
def gen_feature(rng, simple=False):
    kind = rng.choice(['cmp'] * 5 + ['between', 'bool', 'disc'])
    if kind == 'bool':
        return ['bool', rng.choice(['color', 'monochrome', 'update', 'grid',
                                    'width', 'orientation', 'pointer',
                                    'no-such-feature', 'scan'])]
    if kind == 'disc':
        return ['disc'] + rng.choice([
            ['orientation', 'landscape'], ['orientation', 'portrait'],
            ['scan', 'progressive'], ['scan', 'interlace'],
            ['update', 'fast'], ['update', 'slow'], ['update', 'none'],
            ['grid', '0']])
    if simple:
        name = rng.choice(['width', 'height', 'width', 'device-width'])
    else:
        name = rng.choice(PX + PX + RATIO + INTS + ('resolution',))
    if kind == 'between' and name not in RATIO:
        lo, hi = gen_value(rng, name), gen_value(rng, name)
        op = rng.choice(['<', '>'])
        return ['between', name, lo, op + rng.choice(['', '=']),
                op + rng.choice(['', '=']), hi]
    return ['cmp', name, rng.choice(['<=', '>=', '=', '<', '>', '<=', '>=']),
            gen_value(rng, name), rng.choice(['plain', 'plain', 'range',
                                              'rev'])]


def gen_value(rng, name):
    if name in PX:
        if rng.random() < 0.1:
            return rng.choice(sorted(UNITS))
        return rng.choice(SIZES)
    if name in RATIO:
        return rng.choice(['16/9', '4/3', '1/1', '1/2', '3/4', '2/1',
                           '1280/720', '8/5'])
    if name == 'resolution':
        if rng.random() < 0.3:
            return rng.choice(sorted(DENSITIES))
        return rng.choice([0.5, 1, 1.5, 2, 3])
    if name == 'color-index':
        return rng.choice([1, 2, 256, 1 << 24])
    return rng.choice([0, 1, 2, 8, 24])


def gen_alt(rng, simple=False):
    a = {'neg': False, 'only': False, 'type': None, 'op': 'and', 'feats': []}
    if rng.random() < 0.5:
        a['type'] = rng.choice(['screen', 'screen', 'print', 'all',
                                'speech'])
    n = rng.choice([0, 1, 1, 2, 3]) if a['type'] else rng.choice([1, 1, 2, 3])
    a['feats'] = [gen_feature(rng, simple) for _ in range(n)]
    if a['type'] is None and len(a['feats']) > 1 and rng.random() < 0.4:
        a['op'] = 'or'
    if (a['type'] is not None) + len(a['feats']) == 1 and rng.random() < 0.3:
        a['neg'] = True
    elif a['type'] and rng.random() < 0.2:
        a['only'] = True
    return a


def gen(rng, simple=False):
    return [gen_alt(rng, simple)
            for _ in range(rng.choice([1, 1, 1, 2, 3]))]


ENV_OPS = ('inner', 'screen', 'angle', 'depth', 'mono', 'media', 'scan',
           'update', 'dpr', 'zoom', 'root')


def gen_env_op(rng, names=ENV_OPS):
    name = rng.choice(names)
    size = [s for s in SIZES]
    if name in ('inner', 'screen'):
        return ['env', name, rng.randrange(2), rng.choice(size)]
    if name == 'angle':
        return ['env', name, rng.choice([0, 90, 180, 270])]
    if name == 'depth':
        return ['env', name, rng.choice([0, 1, 8, 24])]
    if name == 'mono':
        return ['env', name, rng.choice([0, 1, 2, 8])]
    if name == 'media':
        return ['env', name, rng.choice(['screen', 'print', 'speech'])]
    if name == 'scan':
        return ['env', name, rng.choice(['progressive', 'interlace'])]
    if name == 'update':
        return ['env', name, rng.choice(['none', 'slow', 'fast'])]
    if name in ('dpr', 'zoom'):
        return ['env', name, rng.choice([0.5, 1, 1.5, 2, 3])]
    return ['env', name, rng.randrange(2),
            rng.choice([None, 'auto', '50%', '100%', '25%'] + [
                '{}px'.format(s) for s in size[1:]] + ['200', '640'])]


def apply_env(env, op):
    name = op[1]
    if name in ('inner', 'screen', 'root'):
        env[name][op[2]] = op[3]
    else:
        env[name] = op[2]


def apply_window(win, op):
    """The same change made through the library's interface."""
    name = op[1]
    scr = win.screen
    if name == 'inner':
        setattr(win, ('inner_width', 'inner_height')[op[2]], op[3])
    elif name == 'screen':
        setattr(scr, ('width', 'height')[op[2]], op[3])
    elif name == 'angle':
        scr.orientation.angle = op[2]
    elif name == 'depth':
        scr.color_depth = op[2]
    elif name == 'mono':
        scr.monochrome = op[2]
    elif name in ('media', 'scan', 'update'):
        setattr(scr, name, op[2])
    elif name == 'dpr':
        scr.device_pixel_ratio = op[2]
    elif name == 'zoom':
        win.page_zoom_scale = op[2]
    elif name == 'root':
        root = win.document.document_element
        attr = ('width', 'height')[op[2]]
        if op[3] is None:
            root.attrib.pop(attr, None)
        else:
            root.set(attr, op[3])
