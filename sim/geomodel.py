"""An independent model of viewports, lengths, shape geometry and coordinate
systems, computed from attributes alone.  Every function answers None where
the model does not say."""
import math
import re

PX = {None: 1.0, 'px': 1.0, 'in': 96.0, 'cm': 96 / 2.54, 'mm': 9.6 / 2.54,
      'q': 2.4 / 2.54, 'pt': 96 / 72, 'pc': 16.0}
NUMBER = re.compile(r'\s*([-+]?[0-9.]+(?:e[-+]?[0-9]+)?)(%|[a-z]*)\s*$', re.I)
PAR = re.compile(r'(none|x(Min|Mid|Max)Y(Min|Mid|Max))(?: (meet|slice))?$')
UNCHANGED = (1, 0, 0, 1, 0, 0)


def split(text):
    """The number and the unit of a length."""
    match = NUMBER.match(text or '')
    if match is None:
        return None
    return float(match.group(1)), match.group(2).lower() or None


def px(number, unit, size, direction=None, em=None, rem=None):
    if unit in PX:
        return number * PX[unit]
    if unit == 'em':
        return None if em is None else number * em
    if unit == 'rem':
        return None if rem is None else number * rem
    w, h = size
    base = {'vw': w, 'vh': h, 'vmin': min(w, h), 'vmax': max(w, h),
            '%': {1: w, 2: h, 0: math.hypot(w, h) / math.sqrt(2)}.get(
                direction)}.get(unit)
    return None if base is None else number * base / 100


def viewports(node):
    """The elements that establish viewports, outermost first."""
    out = []
    while node is not None:
        if node.local_name in ('svg', 'symbol'):
            out.insert(0, node)
        node = node.getparent()
    return out


def numbers(text):
    return [float(v) for v in re.split(r'[\s,]+', text.strip())]


def viewport(win, node):
    """The sizes of the nearest viewport and of the box that percentages
    refer to."""
    w, h = win
    box = None
    for root in viewports(node):
        sizes = []
        for direction, name in ((1, 'width'), (2, 'height')):
            text = root.get(name, 'auto')
            value = split('100%' if text == 'auto' else text)
            sizes.append(value and px(*value, (w, h), direction))
        if None in sizes:
            return None
        w, h = sizes
        if root.get('viewBox') is not None:
            box = numbers(root.get('viewBox'))[2:]
    return (w, h), (tuple(box) if box else (w, h))


def resolve(win, node, text, direction, style):
    """A length in pixels; style(node) gives the font size of an element."""
    value = split(text)
    sizes = viewport(win, node)
    if value is None or sizes is None:
        return None
    unit = value[1]
    em = rem = None
    if unit == 'em':
        em = 16.0 if node.getparent() is None else style(node.getparent())
    if unit == 'rem':
        rem = style(node.getroottree().getroot())
    return px(*value, sizes[1], direction, em, rem)


GEOMETRY = {'circle': {'cx': 1, 'cy': 2, 'r': 0},
            'ellipse': {'cx': 1, 'cy': 2, 'rx': 1, 'ry': 2},
            'line': {'x1': 1, 'y1': 2, 'x2': 1, 'y2': 2},
            'rect': {'x': 1, 'y': 2, 'width': 1, 'height': 2, 'rx': 1,
                     'ry': 2}}


def geometry(win, node, style):
    """The resolved geometry attributes of a shape, as far as known."""
    out = {}
    for name, direction in GEOMETRY.get(node.local_name, {}).items():
        text = node.get(name)
        if name in ('rx', 'ry'):
            other = node.get('ry' if name == 'rx' else 'rx')
            if text in (None, 'auto') and other in (None, 'auto'):
                out[name] = 0
                continue
            if text in (None, 'auto') or other in (None, 'auto'):
                continue
        if text is None or (text == 'auto' and name in ('width', 'height')):
            out[name] = 0
            continue
        value = resolve(win, node, text, direction, style)
        if value is not None:
            out[name] = value
    for radius, side in (('rx', 'width'), ('ry', 'height')):
        if node.local_name == 'rect' and radius in out:
            if side not in out:
                del out[radius]
            elif out[radius]:
                out[radius] = min(out[radius], out[side] / 2)
    return out


def multiply(m, n):
    a, b, c, d, e, f = m
    p, q, r, s, t, u = n
    return (a * p + c * q, b * p + d * q, a * r + c * s, b * r + d * s,
            a * t + c * u + e, b * t + d * u + f)


def apply(m, x, y):
    a, b, c, d, e, f = m
    return a * x + c * y + e, b * x + d * y + f


def transform(text):
    """The matrix of a transform attribute."""
    m = UNCHANGED
    if text in (None, 'none'):
        return m
    for name, args in re.findall(r'(\w+)\s*\(([^)]*)\)', text):
        v = numbers(args)
        if name == 'translate':
            steps = [(1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0)]
        elif name == 'scale':
            steps = [(v[0], 0, 0, v[1] if len(v) > 1 else v[0], 0, 0)]
        elif name == 'rotate':
            t = math.radians(v[0])
            x, y = v[1:] or (0, 0)
            steps = [(1, 0, 0, 1, x, y),
                     (math.cos(t), math.sin(t), -math.sin(t), math.cos(t),
                      0, 0), (1, 0, 0, 1, -x, -y)]
        elif name == 'skewX':
            steps = [(1, 0, math.tan(math.radians(v[0])), 1, 0, 0)]
        elif name == 'skewY':
            steps = [(1, math.tan(math.radians(v[0])), 0, 1, 0, 0)]
        elif name == 'matrix':
            steps = [tuple(v)]
        else:
            return None
        for step in steps:
            m = multiply(m, step)
    return m


def from_view_box(win, root, outermost):
    """The transform a viewport applies to its contents (SVG 2, 8.2)."""
    size = []
    for direction, name in ((1, 'width'), (2, 'height')):
        text = root.get(name, 'auto')
        value = split('100%' if text == 'auto' else text)
        if value is None or not (value[1] in PX or outermost):
            return None
        size.append(px(*value, win, direction))
    origin = []
    for name in ('x', 'y'):
        value = split(root.get(name, '0'))
        if value is None or value[1] not in PX:
            return None
        origin.append(px(*value, win))
    if None in size:
        return None
    (x, y), (w, h) = origin, size
    if root.get('viewBox') is None:
        return 1, 0, 0, 1, x, y
    bx, by, bw, bh = numbers(root.get('viewBox'))
    match = PAR.match(root.get('preserveAspectRatio', 'xMidYMid meet'))
    if match is None:
        return None
    sx, sy = w / bw, h / bh
    if match.group(1) != 'none':
        sx = sy = (max if match.group(4) == 'slice' else min)(sx, sy)
    move = {None: 0, 'Min': 0, 'Mid': .5, 'Max': 1}
    tx = x - bx * sx + (w - bw * sx) * move[match.group(2)]
    ty = y - by * sy + (h - bh * sy) * move[match.group(3)]
    return sx, 0, 0, sy, tx, ty


def ctm(win, node, zoom=None):
    """The matrix from the coordinates of an element to those of its nearest
    viewport, or of the outermost one with the zoom of the document."""
    roots = viewports(node)
    if not roots or roots[0].getparent() is not None or any(r.get('transform') is not None for r in roots):
        return None
    inner = UNCHANGED
    current = node
    while current is not None and current is not roots[-1]:
        if current.get('transform') is not None:
            if not current.istransformable():
                return None
            m = transform(current.get('transform'))
            if m is None:
                return None
            inner = multiply(m, inner)
        current = current.getparent()
    last = roots[-1]
    out = UNCHANGED
    if zoom is not None:
        current = last.getparent()
        while current is not None:
            if current.get('transform') is not None:
                return None
            current = current.getparent()
        scale, (x, y) = zoom
        out = (scale, 0, 0, scale, x, y)
    else:
        roots = roots[-2:] if node is last else roots[-1:]
    for root in roots:
        m = from_view_box(win, root, root.getparent() is None)
        if m is None:
            return None
        out = multiply(out, m)
    return multiply(out, inner)
