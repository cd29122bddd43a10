"""L01 values handed out by the document are snapshots."""
from ..engine import Check
from ..genprog import PARS, PATHS, POINTS, TRANSFORMS, VIEWBOXES, ProgGen
from ..prog import ROOT, Prog, Skip, handle, norm
from .twin import differ, kind_of, plain, tally

# what a value can be taken from
TAKE = [('computed', 2), ('inherited', 2), ('geometry', 2), ('bbox', 3),
        ('ctm', 3), ('screen_ctm', 3), ('vtm', 2), ('path', 3),
        ('path_trans', 2), ('transform', 4), ('points', 2), ('view_box', 2),
        ('viewport_size', 2), ('par', 1), ('children', 1), ('child_nodes', 1),
        ('names', 1), ('select', 1), ('by_class', 1), ('by_tag', 1),
        ('by_tag_ns', 1), ('by_local', 1), ('nsmap', 1), ('translate', 1),
        ('keys', 1), ('declarations', 1), ('length', 2)]
SHAPED = ('path', 'path_trans', 'bbox', 'geometry')


def exact(value, depth=0):
    """norm(), with the exact number of a length."""
    name = type(value).__name__
    if name == 'SVGLength':
        return ['len', repr(value.value(value.unit)), value.unit]
    if depth < 5:
        if isinstance(value, dict):
            return {str(k): exact(value[k], depth + 1)
                    for k in sorted(value, key=str)}
        if isinstance(value, (list, tuple)) and name in ('list', 'tuple'):
            return [exact(v, depth + 1) for v in value]
    if name == 'SVGTransform':
        return ['transform', value.type, value.angle,
                norm(list(value.values or ()))]
    if name == 'SVGTransformList':
        return ['transforms'] + [exact(v, depth + 1) for v in value]
    if name in ('DOMMatrix', 'DOMMatrixReadOnly'):
        return [name, value.is2d] + [repr(float(v))
                                     for v in value.to_float_array()]
    return norm(value)


def kind(value):
    name = type(value).__name__
    if name in ('list', 'tuple'):
        inner = {type(v).__name__ for v in value}
        if inner == {'SVGPathSegment'}:
            return 'path'
        if 'SVGLength' in inner:
            return 'lengths'
        return name
    return {'DOMMatrix': 'matrix', 'DOMMatrixReadOnly': 'matrix!',
            'DOMRect': 'rect', 'DOMRectReadOnly': 'rect!',
            'SVGTransformList': 'transforms', 'SVGTransform': 'transform',
            'SVGLength': 'length', 'SVGPreserveAspectRatio': 'par'}.get(
                name, name)


MOVES = TRANSFORMS + ['matrix(1 0 0 1 0 0)', 'matrix(1,0,0,1,0,0)',
                      'translate(0)', 'scale(1)', 'rotate(0)', 'skewY(0)']
FIXED = [
    ('g', {'transform': MOVES, 'font-size': ['20px', '2em']}),
    ('rect', {'x': ['1', '5%'], 'width': ['10', '50%'], 'height': ['20'],
              'transform': MOVES}),
    ('path', {'d': PATHS}), ('path', {'d': PATHS, 'transform': MOVES}),
    ('polygon', {'points': POINTS}), ('polyline', {'points': POINTS}),
    ('svg', {'viewBox': VIEWBOXES, 'preserveAspectRatio': PARS}),
    ('circle', {'r': ['5', '10%'], 'transform': MOVES}),
    ('line', {'x1': ['0', '3'], 'y2': ['10']}),
    ('use', {'href': ['#a'], 'x': ['0', '5']}),
]


class L01(Check):
    RUNS = {'quick': 1200, 'thorough': 60000}
    RULE = ('random histories that take values from a document, derive values '
            'from values, write values into the document, change values in '
            'place and edit the document; every other held value, the '
            'document and its fresh answers compared after each change; '
            'non-trivial: four changes of values in place')

    # -- generation -------------------------------------------------------------
    def gen(self, rng, index, tier):
        g = ProgGen(rng, fonts=0, win=.5, comment=.2, pi=.1, outer=.1)
        g.start(rng.choice([0, 1, 3]))
        ops = g.ops
        for tag, attrib in rng.sample(FIXED, rng.choice([2, 3, 4])):
            h = g.new('e')
            attrib = {k: rng.choice(v) for k, v in attrib.items()}
            g.emit('make', h, 'svg', tag, attrib, g.parent(), None, 'doc')
            g.tags[h] = tag
        n = 0
        for _ in range(rng.choice([8, 16, 30])):
            r = rng.random()
            if r < 0.35 or n < 2:
                what = rng.choices([t[0] for t in TAKE],
                                   [t[1] for t in TAKE])[0]
                tags = {'geometry': ['rect', 'circle', 'path', 'polygon',
                                     'svg', 'use', 'ellipse', 'line'],
                        'points': ['polygon', 'polyline'],
                        'par': ['svg', 'symbol'],
                        'transform': [t for t, a in FIXED
                                      if 'transform' in a],
                        'path_trans': ['path', 'rect', 'circle', 'polygon',
                                       'use', 'line'],
                        'translate': ['svg'],
                        'path': ['path', 'rect', 'circle', 'polygon', 'g',
                                 'use', 'line']}.get(what)
                h = g.element(tags) or ROOT
                args = []
                if what == 'path':
                    args = [rng.random() < 0.4]
                elif what == 'select':
                    args = [rng.choice(['*', 'svg|rect', '.c1'])]
                elif what == 'by_class':
                    args = [rng.choice(['c1', 'c2'])]
                elif what in ('by_tag', 'by_local'):
                    args = [rng.choice(['*', 'rect', 'g'])]
                elif what == 'by_tag_ns':
                    args = ['*', rng.choice(['*', 'rect', 'g'])]
                elif what == 'length':
                    args = [g.length(), rng.choice([0, 1, 2])]
                n += 1
                ops.append(['take', 'v{}'.format(n), h, what] + args)
                if what in SHAPED + ('transform',) and rng.random() < 0.3:
                    n += 1
                    ops.append(['take', 'v{}'.format(n)] + ops[-1][2:])
            elif r < 0.6:
                n += 1
                ops.append(['derive', 'v{}'.format(n), rng.randrange(10 ** 6),
                            rng.randrange(10 ** 6), rng.randrange(10 ** 6)])
            elif r < 0.65:
                ops.append(['sweep', rng.randrange(10 ** 6),
                            rng.randrange(10 ** 6), rng.randrange(10 ** 6)])
            elif r < 0.85:
                ops.append(['mutate', rng.randrange(10 ** 6),
                            rng.randrange(10 ** 6), rng.randrange(10 ** 6)])
            elif r < 0.9:
                ops.append(['put', rng.randrange(10 ** 6),
                            rng.randrange(10 ** 6)])
            else:
                g.one()
        for _ in range(rng.choice([1, 2])):
            ops.append(['again', rng.randrange(10 ** 6),
                        rng.randrange(10 ** 6)])
        return {'ops': ops}

    # -- execution --------------------------------------------------------------
    def run(self, scenario, ctx):
        self.prog = Prog()
        self.vals = {}
        self.frozen = {}
        self.answers = None
        mutated = 0
        for op in scenario['ops']:
            what = op[0]
            if what == 'take':
                obs = self.take(*op[1:])
                ctx.count('take.' + op[3] if obs else 'op.skip')
            elif what == 'derive':
                obs = self.derive(ctx, *op[1:])
            elif what == 'mutate':
                obs = self.mutate(ctx, *op[1:])
                mutated += bool(obs)
            elif what == 'sweep':
                obs = self.sweep(ctx, *op[1:])
            elif what == 'again':
                obs = self.again(ctx, *op[1:])
            elif what == 'put':
                obs = self.put(ctx, *op[1:])
            else:
                self.answers = None
                obs = self.prog.step(op)
                tally(ctx, op, obs)
            ctx.event(op, obs)
            self.compare(ctx, op, obs)
            ctx.state(sorted((k, str(v)) for k, v in self.frozen.items()))
        ctx.nontrivial = mutated >= 4

    def compare(self, ctx, op, obs):
        for name in sorted(self.vals):
            value = exact(self.vals[name])
            ctx.check(value == self.frozen[name],
                      'value-changed:{}-after-{}'.format(
                          kind(self.vals[name]), op[0]),
                      lambda: '{!r} {!r}: {} {}'.format(
                          op, obs, name, differ(plain(self.frozen[name]),
                                                plain(value))))

    def all_answers(self):
        p = self.prog
        out = {'dump': p.dump()}
        for top in p.tops()[:1]:
            nodes = [n for n in top.iter('*') if hasattr(n, 'get_attribute')]
            for i, node in enumerate(nodes):
                h = handle(node)
                # style resolution dominates the cost: two elements
                styles = ('computed', 'inherited') if i in (
                    0, len(nodes) - 1) else ()
                for what in styles + (
                        'geometry', 'bbox', 'ctm', 'screen_ctm', 'vtm',
                        'path', 'path_trans', 'transform', 'points',
                        'view_box', 'viewport', 'par', 'zoom'):
                    obs = p.step(['q', h, what])
                    if obs != ['skip']:
                        out[h + ' ' + what] = obs
        return plain(out)

    def hold(self, name, value):
        if value is None or isinstance(value, (str, int, float, bytes)):
            return None
        self.vals[name] = value
        self.frozen[name] = exact(value)
        return self.frozen[name]

    def take(self, name, h, what, *args):
        p = self.prog
        try:
            node = p.el(h)
            if what not in p.STRUCTURAL + ('children', 'child_nodes',
                                           'names', 'nsmap', 'keys',
                                           'declarations') and \
                    node.get_root_node() is not p.doc.document_element:
                return None
            if what == 'viewport_size':
                value = node.get_viewport_size()
            elif what == 'view_box':
                value = node.get_view_box()
            elif what == 'children':
                value = node.children
            elif what == 'child_nodes':
                value = node.child_nodes
            elif what == 'names':
                value = node.get_attribute_names()
            elif what == 'keys':
                value = node.attributes.keys()
            elif what == 'nsmap':
                value = node.nsmap
            elif what == 'translate':
                value = node.current_translate
            elif what == 'declarations':
                value = [list(v) for v in dict(node.style.items()).values()]
            elif what == 'length':
                from svgpy import SVGLength
                value = SVGLength(args[0], context=node, direction=args[1])
            else:
                value = getattr(p, 'q_' + what)(node, *args)
            p.lent = []
        except (Skip, AttributeError):
            return None
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as exp:
            return ['raise', type(exp).__name__]
        return self.hold(name, value)

    def pick(self, seed, kinds=None):
        """One of the values held, every kind as likely as any other, the
        latest of a kind as likely as all others."""
        groups = {}
        for n in self.vals:
            k = kind(self.vals[n])
            if kinds is None or k in kinds:
                groups.setdefault(k, []).append(n)
        if not groups:
            return None
        names = groups[sorted(groups)[seed % len(groups)]]
        seed //= 16
        if seed % 2:
            return names[-1 - (seed // 2 % min(2, len(names)))]
        return names[seed // 2 % len(names)]

    # -- values from values -------------------------------------------------------
    def derive(self, ctx, name, a, b, c):
        source = self.pick(a)
        if source is None:
            return None
        value = self.vals[source]
        k = kind(value)
        table = getattr(self, 'from_' + k.strip('!'), None)
        if table is None:
            return None
        makers = table(b)
        how = sorted(makers)[c % len(makers)]
        try:
            made = makers[how](value)
        except (TypeError, ValueError, ArithmeticError, NotImplementedError,
                IndexError, AttributeError) as exp:
            made = None
            how += ' ' + type(exp).__name__
        except Exception as exp:
            if type(exp).__name__ != 'LinAlgError':
                raise
            made = None
        ctx.count('derive.{}.{}'.format(k, how))
        return [source, how, self.hold(name, made)]

    def one_change(self, value, b, c):
        """Changes a value in place; says how, or None."""
        ways = getattr(self, 'change_' + kind(value), None)
        try:
            ways = ways and ways(value, b)
        except (TypeError, ValueError, ArithmeticError, IndexError):
            return None
        if not ways:
            return None
        how = sorted(ways)[c % len(ways)]
        try:
            ways[how]()
        except (TypeError, ValueError, ArithmeticError, IndexError, KeyError,
                AttributeError, NotImplementedError) as exp:
            how += ' ' + type(exp).__name__
        except Exception as exp:
            if type(exp).__name__ != 'LinAlgError':
                raise
        return how

    def sweep(self, ctx, a, b, c):
        """Everything that can be made of one value, in turn: made, changed
        in place, made again (the same as the first time), the source changed
        (what was made stays)."""
        source = self.pick(a)
        if source is None:
            return None
        value = self.vals[source]
        k = kind(value)
        table = getattr(self, 'from_' + k.strip('!'), None)
        if table is None:
            return None
        if self.answers is None:
            self.answers = self.all_answers()
        out = []
        makers = table(b)
        refused = (TypeError, ValueError, ArithmeticError, IndexError,
                   AttributeError, NotImplementedError)

        def make(how):
            try:
                made = makers[how](value)
            except refused as exp:
                return None, type(exp).__name__
            except Exception as exp:
                if type(exp).__name__ != 'LinAlgError':
                    raise
                return None, 'singular'
            return made, exact(made)
        for i, how in enumerate(sorted(makers)):
            first, want = make(how)
            change = self.one_change(first, b + i, c + 7 * i)
            if change:
                self.compare(ctx, ['sweep', how, change], source)
            second, got = make(how)
            ctx.check(got == want, 'value-changed:made-again',
                      lambda: '{} of {}: {!r}, after changing that ({}): '
                      '{!r}'.format(how, source, want, change, got))
            if second is None:
                continue
            change = self.one_change(value, c + i, b + 5 * i)
            if change and second is not value:
                self.frozen[source] = exact(value)
                self.compare(ctx, ['sweep source', how, change], source)
                # a list of the items themselves is not a copy
                ctx.check(exact(second) == want, 'value-changed:made',
                          lambda: '{} of {}, after changing {} ({}): {!r} / '
                          '{!r}'.format(how, source, source, change, want,
                                        exact(second)))
            out.append(change)
            ctx.count('sweep.{}.{}'.format(k, how))
        after = self.all_answers()
        ctx.check(after == self.answers, 'document-changed:' + k,
                  lambda: '{} {}: {}'.format(source, out, differ(
                      self.answers, after)))
        return [source, out]

    def again(self, ctx, a, b):
        """Every kind of value of one element: taken, changed in place and
        taken again."""
        p = self.prog
        root = p.doc.document_element
        if root is None:
            return None
        nodes = [n for n in root.iter('*') if hasattr(n, 'get_attribute')]
        h = handle(nodes[a % len(nodes)])
        out = []
        extra = {'path': [b % 2 == 0], 'select': ['*'], 'by_class': ['c1'],
                 'by_tag': ['*'], 'by_local': ['rect'],
                 'by_tag_ns': ['*', '*'], 'length': ['5%', b % 3]}
        for i, (what, _) in enumerate(TAKE):
            first = self.take('?', h, what, *extra.get(what, ()))
            value = self.vals.pop('?', None)
            self.frozen.pop('?', None)
            if value is None:
                continue
            change = self.one_change(value, b + i, b // 7 + 3 * i)
            if not change:
                continue
            second = self.take('?', h, what, *extra.get(what, ()))
            self.vals.pop('?', None)
            self.frozen.pop('?', None)
            ctx.check(first == second, 'document-changed:' + kind(value),
                      lambda: '{} of {}, then changed ({}): {}'.format(
                          what, h, change, differ(plain(first),
                                                  plain(second))))
            out.append([what, change])
            ctx.count('again.' + what)
        return [h, out]

    def from_matrix(self, b):
        from svgpy import SVGTransform
        from svgpy.geometry.matrix import DOMMatrix, DOMMatrixReadOnly
        x = [0, 0, 1, 2, 30, 5][b % 6]
        other = self.vals.get(self.pick(b, ('matrix', 'matrix!')))
        rect = self.vals.get(self.pick(b, ('rect', 'rect!')))
        out = {
            'mul': lambda m: m * other, 'multiply': lambda m: m.multiply(
                other), 'square': lambda m: m * m,
            'inverse': lambda m: m.inverse(),
            'flip_x': lambda m: m.flip_x(), 'flip_y': lambda m: m.flip_y(),
            'rotate': lambda m: m.rotate(rot_z=x),
            'rotate3': lambda m: m.rotate(x, x, 0),
            'axis': lambda m: m.rotate_axis_angle(0, 0, 1, x),
            'vector': lambda m: m.rotate_from_vector(1, x),
            'scale': lambda m: m.scale(x or 1),
            'scale3d': lambda m: m.scale3d(x or 1),
            'skew_x': lambda m: m.skew_x(x), 'skew_y': lambda m: m.skew_y(x),
            'translate': lambda m: m.translate(x, x),
            'json': lambda m: m.tojson(), 'list': lambda m: m.tolist(),
            'array': lambda m: m.to_float_array(),
            'from_matrix': lambda m: DOMMatrix.from_matrix(m.tojson()),
            'readonly': lambda m: DOMMatrixReadOnly.from_matrix(m.tojson()),
            'from_array': lambda m: DOMMatrix.from_float_array(m.tolist()),
            'new': lambda m: DOMMatrix(m.tolist()),
            'item': lambda m: SVGTransform.from_matrix(m),
        }
        if rect is not None:
            out['rect'] = lambda m: rect.transform(m)
        return out

    def from_rect(self, b):
        from svgpy.geometry.rect import DOMRect, DOMRectReadOnly
        x = [0, 0, 1, 2, -3, 5][b % 6]
        other = self.vals.get(self.pick(b, ('rect', 'rect!')))
        matrix = self.vals.get(self.pick(b, ('matrix', 'matrix!')))
        out = {
            'and': lambda r: r & other, 'or': lambda r: r | other,
            'intersect': lambda r: r.intersect(other),
            'unite': lambda r: r.unite(other.x, other.y, other.width,
                                       other.height),
            'adjust': lambda r: r.adjust(x, x, x, x),
            'normalize': lambda r: r.normalize(),
            'translate': lambda r: r.translate(x, x),
            'transpose': lambda r: r.transpose(),
            'json': lambda r: r.tojson(), 'coords': lambda r: r.get_coords(),
            'get_rect': lambda r: r.get_rect(),
            'size': lambda r: r.get_size(),
            'from_rect': lambda r: DOMRect.from_rect(r.tojson()),
            'readonly': lambda r: DOMRectReadOnly.from_rect(r.tojson()),
        }
        if matrix is not None:
            out['transform'] = lambda r: r.transform(matrix)
        return out

    def from_transforms(self, b):
        from svgpy import SVGTransformList
        return {
            'matrix': lambda t: t.matrix, 'transform': lambda t: t.transform,
            'item-matrix': lambda t: t[b % len(t)].matrix,
            'add': lambda t: t + [],
            'parse': lambda t: SVGTransformList(t.tostring()),
            'again': lambda t: SVGTransformList.parse(t.tostring()),
        }

    def from_transform(self, b):
        from svgpy import SVGTransform
        return {
            'matrix': lambda t: t.matrix,
            'copy': lambda t: SVGTransform.from_matrix(t.matrix),
            'new': lambda t: SVGTransform(t.type, *t.values),
        }

    def from_path(self, b):
        from svgpy import PathParser
        from svgpy.path import PathSegment
        from svgpy.geometry.matrix import DOMMatrix
        matrix = self.vals.get(self.pick(b, ('matrix', 'matrix!')))
        return {
            'normalize': PathParser.normalize,
            'transform': lambda d: PathParser.transform(d, matrix),
            'identity': lambda d: PathParser.transform(d, DOMMatrix()),
            'each': lambda d: [PathSegment.transform(
                s, 1, 2, 0, DOMMatrix() if b % 3 == 0 else matrix)
                for s in d],
            'each-absolute': lambda d: [PathSegment.toabsolute(
                s, 1, 2, 0) for s in d],
            'parse': lambda d: PathParser.parse(PathParser.tostring(d)),
            'bbox': lambda d: PathParser.get_bbox(PathParser.normalize(d)),
            'length': PathParser.get_total_length,
            'ends': lambda d: [s.end for s in d],
            'values': lambda d: [s.values for s in d],
        }

    def from_lengths(self, b):
        from svgpy import SVGLength
        others = self.lengths()

        def other():
            return others[b % len(others)]
        pick = lambda v: [x for x in (v if isinstance(v, (list, tuple))
                                      else [v])
                          if type(x).__name__ == 'SVGLength'][0]
        return {
            'add': lambda v: pick(v) + other(),
            'sub': lambda v: pick(v) - other(),
            'mul': lambda v: pick(v) * 2, 'rmul': lambda v: 2 * pick(v),
            'times': lambda v: pick(v) * other(),
            'div': lambda v: pick(v) / 3,
            'by': lambda v: pick(v) / other(),
            'neg': lambda v: -pick(v), 'pos': lambda v: +pick(v),
            'abs': lambda v: abs(pick(v)), 'pow': lambda v: pick(v) ** 2,
            'value': lambda v: [pick(v).value(), pick(v).value('cm'),
                                pick(v).tostring(), pick(v).tostring('px')],
            'compare': lambda v: [pick(v) < other(), pick(v) == other(),
                                  pick(v) >= other(), pick(v) <= other(),
                                  pick(v) > other()],
            'text': lambda v: SVGLength(str(pick(v))),
        }

    from_length = from_lengths

    def lengths(self):
        out = []
        for name in sorted(self.vals):
            value = self.vals[name]
            for item in (value if isinstance(value, (list, tuple))
                         else [value]):
                if type(item).__name__ == 'SVGLength':
                    out.append(item)
        return out

    def from_dict(self, b):
        return {'values': lambda d: [d[k] for k in sorted(
            d, key=str) if isinstance(d[k], (str, float, int))]}

    # -- values into the document ---------------------------------------------------
    def put(self, ctx, a, b):
        p = self.prog
        name = self.pick(a, ('transforms', 'path', 'list', 'tuple'))
        if name is None:
            return None
        value = self.vals[name]
        root = p.doc.document_element
        if root is None:
            return None
        k = kind(value)
        if k == 'transforms':
            nodes = [n for n in root.iter('*') if hasattr(n, 'get_ctm')]
        elif k == 'path':
            nodes = [n for n in root.iter('*') if n.local_name == 'path']
        elif all(isinstance(v, tuple) and len(v) == 2 for v in value):
            nodes = [n for n in root.iter('*')
                     if n.local_name in ('polygon', 'polyline')]
        elif k == 'tuple' and len(value) == 2:
            nodes = [root] if hasattr(root, 'current_translate') else []
        else:
            return None
        if not nodes:
            return None
        node = nodes[b % len(nodes)]
        self.answers = None
        try:
            if k == 'transforms':
                node.transform = value
            elif k == 'path':
                node.set_path_data(value)
            elif k == 'tuple' and node is root:
                node.current_translate = value
            else:
                node.points = value
        except (TypeError, ValueError, NotImplementedError) as exp:
            return [name, type(exp).__name__]
        ctx.count('put.' + k)
        return [name, handle(node)]

    # -- changes in place --------------------------------------------------------------
    def mutate(self, ctx, a, b, c):
        name = self.pick(a)
        if name is None:
            return None
        value = self.vals[name]
        k = kind(value)
        table = getattr(self, 'change_' + k, None)
        if table is None:
            return None
        ways = table(value, b)
        if not ways:
            return None
        how = sorted(ways)[c % len(ways)]
        if self.answers is None:
            self.answers = self.all_answers()
        try:
            ways[how]()
        except (TypeError, ValueError, ArithmeticError, IndexError, KeyError,
                AttributeError, NotImplementedError) as exp:
            how += ' ' + type(exp).__name__
        except Exception as exp:
            if type(exp).__name__ != 'LinAlgError':
                raise
        ctx.count('mutate.{}.{}'.format(k, how))
        self.frozen[name] = exact(value)
        after = self.all_answers()
        ctx.check(after == self.answers, 'document-changed:' + k,
                  lambda: '{} {}: {}'.format(name, how, differ(
                      self.answers, after)))
        return [name, how]

    def change_matrix(self, m, b):
        x = [1.5, 2, -3, 7][b % 4]
        other = self.vals.get(self.pick(b, ('matrix', 'matrix!')), m)
        out = {n: lambda n=n: setattr(m, n, x)
               for n in ('a', 'b', 'e', 'm11', 'm22', 'm41', 'm43')}
        out.update({
            'invert': m.invert_self, 'clear': m.clear,
            'multiply': lambda: m.multiply_self(other),
            'imul': lambda: m.__imul__(other),
            'rotate': lambda: m.rotate_self(rot_z=x),
            'scale': lambda: m.scale_self(x, x),
            'skew': lambda: m.skew_x_self(x),
            'translate': lambda: m.translate_self(x, x),
        })
        return out

    def change_rect(self, r, b):
        x = [1.5, 2, -3, 7][b % 4]
        other = self.vals.get(self.pick(b, ('rect', 'rect!')), r)
        matrix = self.vals.get(self.pick(b, ('matrix', 'matrix!')))
        out = {n: lambda n=n: setattr(r, n, x)
               for n in ('x', 'y', 'width', 'height')}
        out.update({
            'adjust': lambda: r.adjust_self(x, x, x, x),
            'intersect': lambda: r.intersect_self(other),
            'iand': lambda: r.__iand__(other),
            'ior': lambda: r.__ior__(other),
            'move': lambda: r.move_to(x, x),
            'coords': lambda: r.set_coords(x, x, 9, 9),
            'rect': lambda: r.set_rect(x, x, 9, 9),
            'size': lambda: r.set_size(x, x),
            'translate': lambda: r.translate_self(x, x),
            'transpose': r.transpose_self,
            'unite': lambda: r.unite_self(x, x, 2, 2),
        })
        if matrix is not None:
            out['transform'] = lambda: r.transform_self(matrix)
        return out

    def change_transform(self, t, b):
        from svgpy.geometry.matrix import DOMMatrix
        x = [1.5, 2, -3, 7][b % 4]
        return {
            'translate': lambda: t.set_translate(x, x),
            'rotate': lambda: t.set_rotate(x),
            'scale': lambda: t.set_scale(x),
            'skew': lambda: t.set_skew_y(x),
            'matrix': lambda: t.set_matrix(DOMMatrix([1, 2, 3, 4, 5, x])),
            'identity': lambda: t.set_matrix(DOMMatrix()),
        }

    def change_transforms(self, t, b):
        from svgpy import SVGTransform
        out = {'append': lambda: t.append(SVGTransform(2, 1.25, b % 9)),
               'insert': lambda: t.insert(0, SVGTransform(3, 1.25, b % 9)),
               'consolidate': t.consolidate, 'clear': t.clear,
               'reverse': t.reverse,
               'initialize': lambda: t.initialize(SVGTransform(4, b % 90))}
        if len(t):
            i = b % len(t)
            out['pop'] = lambda: t.pop(i)
            out['replace'] = lambda: t.replace_item(SVGTransform(5, 12), i)
            for name, way in self.change_transform(t[i], b).items():
                out['item-' + name] = way
        return out

    def change_path(self, d, b):
        from svgpy.path import SVGPathSegment
        i = b % len(d)
        return {
            'append': lambda: d.append(SVGPathSegment('L', 1, b % 7)),
            'pop': lambda: d.pop(i), 'reverse': d.reverse, 'clear': d.clear,
            'lineto': lambda: d[i].set_lineto_abs(1.25, b % 9),
            'moveto': lambda: d[i].set_moveto_rel(1.25, b % 9),
            'curve': lambda: d[i].set_curveto_abs(1, 2, 3, 4, 5, b % 9),
            'hline': lambda: d[i].set_horizontal_lineto_abs(b % 9),
            'replace': lambda: d.__setitem__(i, SVGPathSegment('Z')),
        }

    def change_list(self, items, b):
        out = {'append': lambda: items.append(items[0] if items else 'x'),
               'clear': items.clear, 'reverse': items.reverse}
        if items:
            i = b % len(items)
            out['pop'] = lambda: items.pop(i)
            out['set'] = lambda: items.__setitem__(i, None)
            if isinstance(items[i], (list, dict)):
                out['inner'] = items[i].clear
        return out

    def change_lengths(self, items, b):
        mine = [v for v in items if type(v).__name__ == 'SVGLength']
        out = self.change_length(mine[b % len(mine)], b)
        for i, item in enumerate(items):
            if kind(item) == 'par':
                for name, way in self.change_par(item, b).items():
                    out['par-' + name] = way
        return out

    def change_length(self, length, b):
        others = self.lengths() or [length]
        other = others[b % len(others)]
        return {
            'convert': lambda: length.convert(['px', 'cm', 'pt'][b % 3]),
            'new': lambda: length.new_value(b % 50, ['px', 'mm', None][b % 3]),
            'iadd': lambda: length.__iadd__(other),
            'isub': lambda: length.__isub__(other),
            'imul': lambda: length.__imul__(3),
            'times': lambda: length.__imul__(other),
            'idiv': lambda: length.__itruediv__(4),
        }

    def change_par(self, par, b):
        return {'align': lambda: setattr(par, 'align', b % 10 + 1),
                'meet': lambda: setattr(par, 'meet_or_slice', b % 2 + 1)}

    def change_dict(self, d, b):
        out = {'set': lambda: d.__setitem__('fill', 'changed'),
               'new': lambda: d.__setitem__('x-new', 1),
               'clear': d.clear}
        keys = sorted(d, key=str)
        if keys:
            key = keys[b % len(keys)]
            out['pop'] = lambda: d.pop(key)
            out['value'] = lambda: d.__setitem__(key, 12345)
            inner = [k for k in keys if kind(d[k]) in (
                'list', 'dict', 'length', 'matrix', 'rect', 'path',
                'transforms')]
            if inner:
                key = inner[b % len(inner)]
                for name, way in getattr(self, 'change_' + kind(d[key]))(
                        d[key], b).items():
                    out['inner-' + name] = way
        return out


CHECKS = {'L01': L01}
