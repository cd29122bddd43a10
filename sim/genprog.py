"""Generator of programs for sim.prog."""
from .model import HTML, SVG, XLINK, XML
from .prog import ROOT

CONTAINERS = ['g', 'g', 'svg', 'defs', 'symbol', 'a', 'switch']
SHAPES = ['rect', 'rect', 'circle', 'ellipse', 'line', 'path', 'polygon',
          'polyline']
OTHERS = ['text', 'tspan', 'desc', 'title', 'style', 'use', 'use', 'unknown',
          'linearGradient', 'image', 'clipPath', 'marker', 'pattern', 'view']
COLORS = ['red', 'blue', 'lime', 'none', '#123456', 'currentColor']
UNITS = ['', '', '', 'px', '%', '%', 'em', 'rem', 'vw', 'vh', 'vmin', 'vmax',
         'cm', 'mm', 'in', 'pt', 'pc', 'q']
FONT_UNITS = ['ex', 'ch', 'cap', 'ic']
IDS = ['a', 'b', 'c', 'x-1', "it's", 'q"t', '\xe9l', '1', 'a b']
CLASSES = ['c1', 'c2', 'c3', "d'", 'caf\xe9']
TEXTS = ['hello', ' ', 'x & y', '<b>', 'caf\xe9', '\u65e5\u672c',
         'two\nlines', 'a"b\'c', 'cr\r\n\tx', '\U0001f600', '0', ']]>', '']
TRANSFORMS = ['translate(10 20)', 'scale(2)', 'rotate(30)', 'skewX(10)',
              'matrix(1 2 3 4 5 6)', 'translate(5) scale(2 3)', 'none',
              'rotate(45 10 10)', 'scale(0.5) rotate(90)']
PATHS = ['M10 20 L30 40', 'M0,0 h10 v10 h-10 z', 'M0 0 C10 0 10 10 0 10',
         'M10 10 a5 5 0 0 1 10 0', 'M0 0 Q5 10 10 0 T20 0', 'none',
         'M1,1 l2,3 m4,5 l1,1 z']
POINTS = ['0,0 10,0 10,10', '1 2 3 4 5 6 7 8', '0,0', '1,2 3']
PARS = ['none', 'xMinYMin', 'xMidYMid meet', 'xMaxYMax slice', 'xMidYMin',
        'xMinYMax slice', 'xMaxYMid']
VIEWBOXES = ['0 0 100 50', '0 0 200 200', '-10,-10,40,40', '5 5 10 300',
             '0 0 1000 500']
RULES = ['rect { fill: red }', '.c1 { stroke: blue; fill: lime }',
         'svg|g { font-size: 20px }', '#a { fill: none !important }',
         'svg|g > svg|rect { stroke-width: 3 }', '* { color: blue }',
         '@media screen { .c2 { fill: blue } }',
         '@media (max-width: 500px) { * { stroke: red } }',
         'svg|text, svg|tspan { font-size: 2em }',
         '.c1.c2 { visibility: hidden }', '@font-face { font-family: x }',
         '[fill=red] { opacity: 0.5 }', 'broken {{{ }']
SELECTORS = ['*', 'svg|rect', '.c1', '#a', 'svg|g > svg|rect', '[fill]',
             'svg|g svg|circle', '.c1.c2', 'svg|rect, svg|circle',
             ':not(svg|g)', 'svg|svg', 'svg|g + svg|g', '[data-h]',
             ':first-child', 'rect', '!', '#']
MEDIA = ['all', 'screen', 'print', '(min-width: 300px)',
         '(orientation: portrait)', 'screen and (max-width: 600px)',
         '(color)', 'not all']
STYLE_PROPS = {
    'fill': COLORS, 'stroke': COLORS, 'color': ['red', 'blue', 'inherit'],
    'stroke-width': ['1', '2px', '3'],
    'visibility': ['hidden', 'visible', 'inherit'],
    'fill-rule': ['evenodd', 'nonzero'], 'opacity': ['0.5', '1'],
    'display': ['none', 'inline', 'block'],
    'font-size': ['10px', '20px', '2em', '150%'],
    'stroke-linecap': ['round', 'butt'], 'direction': ['rtl', 'ltr'],
    'text-anchor': ['middle', 'end'], 'cursor': ['pointer'],
    'clip-path': ['url(#a)', 'none'], 'transform-origin': ['0 0'],
    'writing-mode': ['vertical-rl', 'horizontal-tb'],
}
LISTS = ['1', '1 2 3', '10,20', '5%,10', '1em 2em', '0 0 7', '3px,4 5% 6 7 8 9']
RUNS_OF_TEXT = ['hello', 'ab', ' c ', 'fi ffl', 'x  y', '\u05d0\u05d1', 'a\nb',
                '\u65e5\u672c\u8a9e', 'caf\xe9', ' ', 'A', '\t1']
TEXT_STYLE = {
    'direction': ['rtl', 'ltr'], 'font-weight': ['bold', '300', 'lighter'],
    'writing-mode': ['vertical-rl', 'horizontal-tb', 'sideways-lr'],
    'font-style': ['italic', 'oblique', 'normal'],
    'white-space': ['pre', 'normal', 'pre-line', 'nowrap'],
    'font-size': ['10px', '20px', '2em', '150%', 'larger', '7'],
    'font-family': ['serif', 'monospace', 'x, sans-serif'],
    'font-stretch': ['condensed', 'normal'], 'display': ['none', 'inline'],
    'font-kerning': ['none', 'auto'],
    'font-variant-caps': ['small-caps', 'normal'],
    'font-variant-ligatures': ['none', 'normal', 'discretionary-ligatures'],
    'font-feature-settings': ['"liga" 0', 'normal', '"kern" off, "smcp"'],
    'font-size-adjust': ['0.5', 'none'],
    'font-language-override': ['normal', '"JPN"'],
    'font': ['italic bold 12px/30px serif', '20px monospace'],
    'text-anchor': ['middle', 'end', 'start'],
}
NUMBERS = ['0', '1', '2', '5', '10', '12.5', '40', '100', '0.5', '33']
DATA_KEYS = ['a', 'fooBar', 'x1']


class ProgGen:
    """weights: op kind -> weight; see OPS."""

    OPS = {'make': 5, 'comment': 1, 'pi': .5, 'outer': .5, 'move': 2, 'detach': 1,
           'restore': 1, 'text': 1.5, 'tail': .7, 'content': .5, 'cdata': .5,
           'set': 5, 'geom': 6, 'unset': 2, 'cls': 1.5, 'data': 1,
           'style': 3, 'transform': 1.5, 'points': .7, 'pathdata': .7,
           'zoom': .7, 'win': 1.5, 'q': 0, 'qd': 0, 'keep': 0, 'ask': 0}
    EDITS = ('make', 'comment', 'pi', 'move', 'detach', 'restore', 'text',
             'tail', 'content', 'cdata', 'set', 'geom', 'unset', 'cls',
             'data', 'style', 'transform', 'points', 'pathdata', 'zoom')

    def __init__(self, rng, prefix='', fonts=0.05, texty=0.08, **weights):
        self.rng = rng
        self.prefix = prefix
        self.n = 0
        self.ops = []
        self.tags = {ROOT: 'svg'}       # element handles -> local name
        self.other = []                 # comments and instructions
        self.inside = {}                # handle -> parent handle
        self.bagged = set()
        self.keys = []
        self.fonts = fonts
        self.plain = True               # elements without a namespace
        self.queries = None             # restricts the element queries
        # swarm: a run about the layout of text
        self.texty = rng.random() < texty
        self.weights = dict(self.OPS)
        self.weights.update(weights)
        # swarm: leave some kinds of edit out of this run
        for name in list(self.weights):
            if name in ('make', 'q', 'qd', 'keep', 'ask'):
                continue
            if rng.random() < 0.15:
                self.weights[name] = 0

    def new(self, kind):
        self.n += 1
        return '{}{}{}'.format(self.prefix, kind, self.n)

    def emit(self, *op):
        self.ops.append(list(op))

    # -- values --------------------------------------------------------------
    def length(self, negative=True, units=UNITS):
        rng = self.rng
        if units is UNITS and rng.random() < self.fonts:
            return rng.choice(['1', '2', '3']) + rng.choice(FONT_UNITS)
        number = rng.choice(NUMBERS)
        if negative and rng.random() < 0.1:
            number = '-' + number
        return number + rng.choice(units)

    def common_attr(self):
        rng = self.rng
        name = rng.choice(['id', 'id', 'class', 'class', 'fill', 'stroke',
                           'style', 'style', 'font-size', 'stroke-width',
                           'opacity', 'display', 'visibility', 'lang',
                           '{%s}lang' % XML, 'transform', 'data-foo',
                           'font-weight', 'color', 'x:attr', 'letter-spacing',
                           'line-height', 'title', 'fill-opacity'])
        if name == 'id':
            return name, rng.choice(IDS)
        if name == 'class':
            return name, rng.choice([' ', ' ', '  ', '\t']).join(
                rng.sample(CLASSES, rng.randint(1, 3)))
        if name in ('fill', 'stroke', 'color'):
            return name, rng.choice(COLORS)
        if name == 'style':
            return name, self.style_text()
        if name == 'font-size':
            return name, rng.choice(['10px', '16px', '2em', '150%', '1.5rem',
                                     'small', 'x-large', 'larger', '24'])
        if name == 'stroke-width':
            return name, self.length(False)
        if name in ('opacity', 'fill-opacity'):
            return name, rng.choice(['0', '0.5', '1'])
        if name == 'display':
            return name, rng.choice(['none', 'inline', 'block'])
        if name == 'visibility':
            return name, rng.choice(['hidden', 'visible', 'collapse'])
        if name == 'font-weight':
            return name, rng.choice(['bold', '400', 'bolder', 'lighter'])
        if name == 'transform':
            return name, rng.choice(TRANSFORMS)
        if name == 'x:attr':
            return '{http://example.org/x}attr', rng.choice(TEXTS[:-1])
        if name == 'line-height':
            return name, rng.choice(['normal', '1.5', '20px', '120%'])
        if name == 'letter-spacing':
            return name, rng.choice(['normal', '2px'])
        if name in ('lang', '{%s}lang' % XML):
            return name, rng.choice(['en', 'ja', 'fr'])
        return name, rng.choice(TEXTS[:-1])

    def style_text(self):
        rng = self.rng
        out = []
        for prop in rng.sample(sorted(STYLE_PROPS), rng.randint(1, 3)):
            out.append('{}: {}{}'.format(
                prop, rng.choice(STYLE_PROPS[prop]),
                rng.choice(['', '', '', ' !important'])))
        return rng.choice(['; ', ';', ' ;\n']).join(out) + rng.choice(
            ['', ';'])

    def geom_attr(self, tag):
        rng = self.rng
        if self.texty and tag in ('text', 'tspan'):
            return self.text_attr()
        names = {
            'rect': ['x', 'y', 'width', 'height', 'rx', 'ry'],
            'circle': ['cx', 'cy', 'r'],
            'ellipse': ['cx', 'cy', 'rx', 'ry'],
            'line': ['x1', 'y1', 'x2', 'y2'],
            'path': ['d'], 'polygon': ['points'], 'polyline': ['points'],
            'svg': ['x', 'y', 'width', 'height', 'viewBox', 'viewBox',
                    'preserveAspectRatio', 'zoomAndPan', 'font-size'],
            'symbol': ['x', 'y', 'width', 'height', 'viewBox',
                       'preserveAspectRatio'],
            'use': ['x', 'y', 'width', 'height', 'href', 'href'],
            'text': ['x', 'y'], 'tspan': ['x', 'dx'],
            'image': ['x', 'y', 'width', 'height'],
            'view': ['viewBox', 'preserveAspectRatio'],
            'pattern': ['viewBox'], 'a': ['href'],
            'style': ['media', 'type'],
        }.get(tag)
        if not names:
            return self.common_attr()
        name = rng.choice(names)
        if name == 'd':
            return name, rng.choice(PATHS)
        if name == 'points':
            return name, rng.choice(POINTS)
        if name == 'viewBox':
            return name, rng.choice(VIEWBOXES)
        if name == 'preserveAspectRatio':
            return name, rng.choice(PARS)
        if name == 'zoomAndPan':
            return name, rng.choice(['magnify', 'disable'])
        if name == 'href':
            return (rng.choice([name, '{%s}href' % XLINK]),
                    '#' + rng.choice(['a', 'b', 'c', 'a', 'zz']))
        if name == 'media':
            return name, rng.choice(MEDIA)
        if name == 'type':
            return name, rng.choice(['text/css', 'text/css', 'text/plain'])
        if name == 'font-size':
            return name, rng.choice(['10px', '30px', '2em'])
        if name in ('rx', 'ry') and rng.random() < 0.3:
            return name, 'auto'
        if name in ('width', 'height') and rng.random() < 0.15:
            return name, 'auto'
        # the size of a viewport in root font sizes is circular when the font
        # size depends on the viewport
        return name, self.length(
            name not in ('width', 'height', 'r', 'rx', 'ry'),
            UNITS if tag not in ('svg', 'symbol') else
            [u for u in UNITS if u not in ('em', 'rem')])

    def text_attr(self):
        rng = self.rng
        if rng.random() < 0.6:
            name = rng.choice(['x', 'y', 'dx', 'dy', 'rotate'])
            if name == 'rotate':
                return name, rng.choice(['0', '30', '10 20', '0,90,45'])
            return name, rng.choice(LISTS)
        if rng.random() < 0.15:
            return '{%s}lang' % XML, rng.choice(['en', 'ja', 'he', 'fr-CA'])
        name = rng.choice(sorted(TEXT_STYLE))
        return name, rng.choice(TEXT_STYLE[name])

    # -- handles -----------------------------------------------------------------
    def element(self, tags=None):
        names = [h for h, t in self.tags.items()
                 if tags is None or t in tags]
        if not names:
            return None
        return self.rng.choice(names)

    def parent(self):
        rng = self.rng
        if self.texty and rng.random() < 0.6:
            name = self.element(('text', 'text', 'tspan'))
            if name:
                return name
        if rng.random() < 0.3:
            return ROOT
        return self.element(('g', 'svg', 'defs', 'symbol', 'a', 'switch',
                             'text', 'clipPath', 'pattern', 'marker'))

    def index(self):
        return self.rng.choice([None, None, None, -1, 0, 1, 2, 5])

    # -- operations -----------------------------------------------------------------
    def g_make(self):
        rng = self.rng
        tag = rng.choice(rng.choice([CONTAINERS, SHAPES, SHAPES, OTHERS]))
        # laying out text is slow: little of it
        if self.texty and rng.random() < 0.7 and 4 > sum(
                t in ('text', 'tspan') for t in self.tags.values()):
            tag = rng.choice(['text', 'tspan', 'tspan', 'tspan'])
        h = self.new('e')
        attrib = {}
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            name, value = (self.geom_attr(tag) if rng.random() < 0.6
                           else self.common_attr())
            attrib[name] = value
        parent = self.parent()
        if self.texty and tag == 'text' and rng.random() < 0.8:
            parent = self.element(('svg', 'g')) or ROOT
        if tag == 'use' and rng.random() < 0.6:
            self.refer(attrib, parent)
        ns = 'svg'
        if rng.random() < 0.06 and self.plain and 'href' not in attrib:
            ns, tag = rng.choice([('html', 'div'), ('html', 'video'),
                                  ('', 'thing')])
        elif rng.random() < 0.03:
            ns, tag = 'html', rng.choice(['div', 'video'])
        self.emit('make', h, ns, tag, attrib, parent, self.index(),
                  rng.choice(['doc', 'doc', 'parser', 'sub']))
        self.tags[h] = tag
        self.inside[h] = parent
        if tag == 'style':
            self.emit('text', h, self.sheet())
        elif tag in ('text', 'tspan', 'desc', 'title') and rng.random() < .7:
            self.emit('text', h, rng.choice(self.texts(TEXTS)))
            if self.texty and tag == 'tspan' and rng.random() < .5:
                self.emit('tail', h, rng.choice(self.texts(TEXTS)))

    def sheet(self):
        rng = self.rng
        rules = rng.sample(RULES, rng.randint(1, 3))
        if rng.random() < 0.25:
            # the same selector means different things in different sheets
            rules = ['@namespace p "{}";'.format(rng.choice(
                [SVG, SVG, 'http://example.org/x', HTML])),
                rng.choice(['p|rect { fill: lime }', 'p|* { stroke: red }',
                            'p|g, p|svg { color: blue }'])] + rules
        return '\n'.join(rules)

    def texts(self, texts):
        return RUNS_OF_TEXT if self.texty else texts

    def refer(self, attrib, parent):
        """Makes a reference resolve: to a shape or a group made before."""
        rng = self.rng
        above = set()
        while parent in self.inside and parent not in above:
            above.add(parent)
            parent = self.inside[parent]
        names = [h for h, t in self.tags.items()
                 if t in SHAPES + ['g', 'symbol'] and h not in above]
        if not names:
            return
        target = rng.choice(names)
        tag = self.tags[target]
        if tag == 'path':
            self.emit('set', target, 'd', rng.choice(PATHS[:5]), 'set')
        elif tag == 'circle':
            self.emit('set', target, 'r', rng.choice(['3', '20']), 'set')
        elif tag == 'rect':
            for name in ('width', 'height'):
                self.emit('set', target, name, rng.choice(['7', '30']),
                          'set')
        name = self.new('u')
        self.emit('set', target, 'id', name, 'set')
        attrib.pop('{%s}href' % XLINK, None)
        attrib['href'] = '#' + name

    def g_comment(self):
        h = self.new('c')
        self.emit('comment', h, self.rng.choice(['note', 'a b', '\xe9', '']),
                  self.parent(), self.index())
        self.other.append(h)

    def g_pi(self):
        h = self.new('p')
        self.emit('pi', h, self.rng.choice(['a="1"', 'data', 'x y']),
                  self.parent(), self.index())
        self.other.append(h)

    def g_outer(self):
        rng = self.rng
        kind = rng.choice('cp')
        h = self.new(kind)
        self.emit('outer', h, kind, rng.choice(['a="1"', 'note']),
                  rng.choice(['before', 'first', 'last']))

    def node(self):
        names = [h for h in self.tags if h != ROOT] + self.other
        return self.rng.choice(names) if names else None

    def g_move(self):
        h = self.node()
        if h:
            self.emit('move', h, self.parent(), self.index())

    def g_detach(self):
        h = self.node()
        if h:
            self.emit('detach', h)
            self.bagged.add(h)

    def g_restore(self):
        if self.bagged:
            h = self.rng.choice(sorted(self.bagged))
            self.bagged.discard(h)
            self.emit('restore', h, self.parent(), self.index())

    def g_text(self):
        h = self.element()
        if self.tags[h] == 'style':
            self.emit('text', h, self.sheet())
        else:
            self.emit('text', h, self.rng.choice(
                self.texts(TEXTS) + [None]))

    def g_tail(self):
        h = self.node()
        if h:
            self.emit('tail', h, self.rng.choice(
                self.texts(TEXTS) + [None]))

    def g_content(self):
        h = self.element(('text', 'tspan', 'desc', 'title'))
        if h:
            self.emit('content', h, self.rng.choice(self.texts(TEXTS)))

    def g_cdata(self):
        if self.other:
            self.emit('cdata', self.rng.choice(self.other),
                      self.rng.choice(['new', 'x="y"']))

    def g_set(self):
        name, value = self.common_attr()
        self.emit('set', self.element(), name, value, self.rng.choice(
            ['set', 'set_attribute', 'attributes', 'attr']))

    def g_geom(self):
        h = self.element(SHAPES + ['svg', 'symbol', 'use', 'image', 'style'])
        if self.texty:
            h = self.element(['text', 'tspan', 'svg']) or h
        name, value = self.geom_attr(self.tags[h])
        self.emit('set', h, name, value, self.rng.choice(
            ['set', 'set_attribute', 'attributes', 'attr']))

    def g_unset(self):
        rng = self.rng
        h = self.element()
        if rng.random() < 0.5:
            name = self.geom_attr(self.tags[h])[0]
        else:
            name = self.common_attr()[0]
        self.emit('unset', h, name, rng.choice(['attrib', 'attributes',
                                                'remove']))

    def g_cls(self):
        self.emit('cls', self.element(), self.rng.choice(
            ['add', 'remove', 'toggle']), self.rng.choice(CLASSES))

    def g_data(self):
        self.emit('data', self.element(), self.rng.choice(DATA_KEYS),
                  self.rng.choice(TEXTS[:4] + [None]))

    def g_style(self):
        rng = self.rng
        props, h = STYLE_PROPS, self.element()
        if self.texty and rng.random() < 0.7:
            props, h = TEXT_STYLE, self.element(['text', 'tspan', 'g']) or h
        prop = rng.choice(sorted(props))
        self.emit('style', h,
                  rng.choice(['item', 'set', 'set', 'remove']), prop,
                  rng.choice(props[prop]))

    def g_transform(self):
        rng = self.rng
        h = self.element(SHAPES + ['g', 'svg', 'use'])
        items = []
        for _ in range(rng.randint(1, 3)):
            items.append(self.transform_item())
        if rng.random() < 0.5:
            self.emit('transform', h, items)
        else:
            self.emit('transform_add', h, *self.transform_item())

    def transform_item(self):
        rng = self.rng
        kind = rng.choice([2, 3, 4, 5])
        values = {2: [rng.choice([1, 5, 10.5]), rng.choice([0, 2, -3])],
                  3: [rng.choice([2, 0.5]), rng.choice([1, 3])],
                  4: [rng.choice([30, 90]), 0, 0],
                  5: [rng.choice([10, 20])]}[kind]
        return [kind, values]

    def g_points(self):
        h = self.element(('polygon', 'polyline'))
        if h:
            self.emit('points', h, [[self.rng.choice([0, 1, 5.5, 10]),
                                     self.rng.choice([0, 2, 20])]
                                    for _ in range(self.rng.randint(1, 4))])

    def g_pathdata(self):
        h = self.element(('path',))
        if h:
            self.emit('pathdata', h, self.rng.choice(PATHS[:5]))

    def g_zoom(self):
        self.emit('zoom', self.rng.choice([0.5, 1, 2, 3.5]),
                  [self.rng.choice([0, 5, -2.5]), self.rng.choice([0, 7])])

    def g_win(self):
        rng = self.rng
        name = rng.choice(['inner_width', 'inner_height', 'page_zoom_scale',
                           'screen.width', 'screen.height', 'screen.media',
                           'screen.orientation.angle'])
        value = {'inner_width': [320, 640, 1024], 'page_zoom_scale': [1, 2],
                 'inner_height': [200, 480, 768], 'screen.width': [480, 1280],
                 'screen.height': [320, 1024],
                 'screen.media': ['screen', 'print'],
                 'screen.orientation.angle': [0, 90, 180]}[name]
        self.emit('win', name, rng.choice(value))

    ELEMENT_QUERIES = [
        ('computed', 2), ('inherited', 2), ('geometry', 3), ('bbox', 3),
        ('ctm', 2), ('screen_ctm', 2), ('path', 2), ('path_trans', 1),
        ('total_length', 1), ('transform', 1), ('points', 1),
        ('view_box', 2), ('viewport', 3), ('vtm', 2), ('par', 1),
        ('length', 4), ('text_content', 1), ('use', 1), ('zoom', 1),
        ('display', 1), ('viewports', 1), ('sheet', 1), ('select', 2),
        ('by_class', 1), ('by_tag', 1), ('by_tag_ns', 1), ('by_local', 1),
        ('views', 3), ('tostring', 1)]

    TEXT_QUERIES = [('text_metrics', 6), ('bbox', 3), ('path', 2),
                    ('geometry', 3), ('computed', 1), ('text_content', 1),
                    ('path_trans', 1), ('length', 1)]

    def g_q(self):
        rng = self.rng
        table = [i for i in self.ELEMENT_QUERIES
                 if self.queries is None or i[0] in self.queries]
        if self.texty and rng.random() < 0.6:
            table = [i for i in self.TEXT_QUERIES
                     if self.queries is None or i[0] in self.queries] or table
        what = rng.choices([i[0] for i in table], [i[1] for i in table])[0]
        tags = {
            'geometry': SHAPES + ['svg', 'symbol', 'use'],
            'total_length': SHAPES, 'points': ['polygon', 'polyline'],
            'path': SHAPES + ['g', 'use', 'svg'], 'par': ['svg', 'symbol'],
            'use': ['use'], 'zoom': ['svg'], 'sheet': ['style'],
            'text_content': ['text', 'tspan', 'desc', 'title'],
            'bbox': SHAPES + ['g', 'svg', 'use'],
        }.get(what)
        h = None
        if what in ('path', 'path_trans', 'bbox', 'geometry') and \
                rng.random() < 0.25:
            h = self.element(['use'])
        if self.texty and (what == 'text_metrics' or h is None and
                           rng.random() < 0.6):
            h = self.element(['text', 'tspan', 'text', 'g']
                             if what == 'bbox' else ['text', 'tspan'])
        if h is None:
            h = self.element(tags)
        if h is None:
            return
        args = []
        if what == 'text_metrics':
            args = [rng.choice([0, 0, 1, 3, 9]), rng.choice([-1, 0, 1, 2])]
        elif what == 'path':
            args = [rng.random() < 0.5]
        elif what == 'length':
            args = [self.length(), rng.choice([0, 1, 2]),
                    rng.choice([None, None, 'px', '%', 'em', 'vw', 'cm'])]
        elif what == 'select':
            args = [rng.choice(SELECTORS)]
        elif what == 'by_class':
            args = [' '.join(rng.sample(CLASSES, rng.randint(1, 2)))]
        elif what == 'by_tag':
            args = [rng.choice(['*', 'rect', 'g', 'svg', 'text'])]
        elif what == 'by_tag_ns':
            args = [rng.choice([SVG, '*', None]),
                    rng.choice(['*', 'rect', 'g'])]
        elif what == 'by_local':
            args = [rng.choice(['rect', 'g', 'svg'])]
        self.emit('q', h, what, *args)

    def g_qd(self):
        rng = self.rng
        what = rng.choice(['dump', 'tostring', 'sheets', 'media', 'by_id',
                           'by_id', 'by_class', 'by_tag', 'by_tag_ns',
                           'select', 'document'])
        args = []
        if what == 'media':
            args = [rng.choice(MEDIA)]
        elif what == 'by_id':
            args = [rng.choice(IDS)]
        elif what == 'by_class':
            args = [' '.join(rng.sample(CLASSES, rng.randint(1, 2)))]
        elif what == 'by_tag':
            args = [rng.choice(['*', 'rect', 'g', 'svg', 'text'])]
        elif what == 'by_tag_ns':
            args = [rng.choice([SVG, '*', None]),
                    rng.choice(['*', 'rect', 'g'])]
        elif what == 'select':
            args = [rng.choice(SELECTORS)]
        self.emit('qd', what, *args)

    def g_keep(self):
        rng = self.rng
        key = self.new('k')
        kind = rng.choice(['length', 'length', 'media', 'style', 'class',
                           'data', 'attrs', 'attr'])
        if kind == 'media':
            self.emit('keep', key, kind, None, rng.choice(MEDIA))
        else:
            h = self.element(SHAPES + ['g', 'svg'])
            args = []
            if kind == 'length':
                args = [self.length(), rng.choice([0, 1, 2])]
            elif kind == 'attr':
                args = [rng.choice(['id', 'class', 'fill', 'x', 'style'])]
            self.emit('keep', key, kind, h, *args)
        self.keys.append(key)

    def g_ask(self):
        if self.keys:
            self.emit('ask', self.rng.choice(self.keys))

    def one(self, kinds=None):
        names = [k for k in self.weights
                 if kinds is None or k in kinds]
        weights = [self.weights[k] for k in names]
        if not any(weights):
            return
        name = self.rng.choices(names, weights)[0]
        getattr(self, 'g_' + name)()

    def start(self, nodes=None):
        """An initial document."""
        rng = self.rng
        for name in ('width', 'height'):
            if rng.random() < 0.5:
                self.emit('set', ROOT, name, rng.choice(
                    ['100%', '400', '300px', '50%', '10cm']), 'set')
        if rng.random() < 0.5:
            self.emit('set', ROOT, 'viewBox', rng.choice(VIEWBOXES), 'set')
        for _ in range(nodes if nodes is not None else rng.randint(2, 10)):
            self.g_make()
        return self
