"""H01: native handles."""
import gc
import glob
import random
import sys

from .. import native
from ..engine import Check, Violation
from ..trace import Lines

FONTS = sorted(glob.glob('/usr/share/fonts/truetype/dejavu/*.ttf'))[:8]
TEXTS = ['Hello', 'a', 'AVAT fi', 'xyz 123', '\u05e9\u05dc\u05d5\u05dd abc',
         'one two. three', '\u0645\u0631\u062d\u0628\u0627', 'e\u0301 o', '']
PATTERNS = ['DejaVu Sans', 'DejaVu Serif:bold', 'monospace', 'NoSuchFont',
            'sans-serif:italic', 'DejaVu Sans Mono', '']
BAD_PATTERNS = ['a:size=[', 'a:width=(1', 'a:size=1 2']
FORMATS = [None, '%{file}', '%{family}\t%{file}', '%{nosuch}', '']
LOCALES = ['en', 'ja', 'he_IL', 'xx', '']
DOC = ('<svg xmlns="http://www.w3.org/2000/svg" width="400" height="300" '
       'font-size="20">'
       '<text id="t0" x="10" y="40" font-family="DejaVu Sans">Hello</text>'
       '<text id="t1" x="5 9" y="80" font-family="DejaVu Serif" '
       'font-weight="bold">ab<tspan id="t2" dx="2">cd</tspan></text>'
       '<text id="t3" x="9" y="9" xml:lang="he" direction="rtl" '
       'font-family="DejaVu Sans">\u05e9\u05dc ab</text>'
       '<rect id="r0" x="1ex" y="2ch" width="3ex" height="2ch" '
       'font-family="DejaVu Sans Mono"/>'
       '<text id="t4" font-family="NoSuchFont, DejaVu Sans">fi AV</text>'
       '</svg>')
QUERIES = [('bbox', 't0'), ('bbox', 't1'), ('path', 't0'), ('path', 't4'),
           ('bbox', 't3'), ('bbox', 'r0'), ('length', 't0'), ('bbox', 't2'),
           ('path', 't3')]
MODES = ['DUPLICATE', 'READONLY', 'WRITABLE', 'READONLY_MAY_MAKE_WRITABLE']
VIEWS = {'FTFace': ['glyph', 'size', 'charmap', 'charmaps'],
         'FTGlyphSlot': ['metrics', 'outline', 'bitmap'],
         'FTSize': ['metrics']}


def numbers(value):
    if isinstance(value, (list, tuple)):
        for item in value:
            yield from numbers(item)
    elif isinstance(value, (int, float)) and not isinstance(value, bool):
        yield value


def rect(r):
    return (r.x, r.y, r.width, r.height)


# how to read every kind of object: name -> function
READ = {
    'FTFace': {
        'names': lambda o: (o.family_name, o.style_name),
        'numbers': lambda o: (o.ascender, o.descender, o.height,
                              o.units_per_em, o.num_glyphs,
                              o.underline_position),
        'flags': lambda o: (o.is_scalable(), o.has_kerning(),
                            o.is_fixed_width(), o.face_flags),
        'bbox': lambda o: rect(o.bbox),
        'sizes': lambda o: [str(b) for b in o.available_sizes],
        'charindex': lambda o: o.get_char_index('A'),
        'kerning': lambda o: o.get_kerning(36, 57),
        'advance': lambda o: o.get_advance(o.get_char_index('x'), 1),
        'chain': lambda o: (o.glyph.metrics.width, o.size.metrics.height),
    },
    'FTGlyphSlot': {
        'advance': lambda o: (o.advance, o.linear_hori_advance),
        'deltas': lambda o: (o.lsb_delta, o.rsb_delta, o.bitmap_left,
                             o.bitmap_top),
        'chain': lambda o: (o.metrics.width, o.metrics.hori_advance,
                            o.bitmap.width, o.outline.flags),
    },
    'FTGlyphMetrics': {'all': lambda o: (o.width, o.height, o.hori_advance,
                                         o.vert_advance, o.hori_bearing_x)},
    'FTSize': {'chain': lambda o: (o.metrics.x_ppem, o.metrics.height)},
    'FTSizeMetrics': {'all': lambda o: (o.x_ppem, o.y_ppem, o.x_scale,
                                        o.ascender, o.height)},
    'FTCharMap': {'ids': lambda o: (o.platform_id, o.encoding_id),
                  'index': lambda o: o.get_charmap_index()},
    'FTBitmap': {'size': lambda o: (o.rows, o.width, o.pitch)},
    'FTOutline': {'flags': lambda o: (o.flags,),
                  'bbox': lambda o: rect(o.get_bbox()),
                  'cbox': lambda o: rect(o.get_cbox()),
                  'orientation': lambda o: o.get_orientation()},
    'FTLibrary': {'version': lambda o: o.version},
    'HBBlob': {'length': lambda o: o.get_length(),
               'data': lambda o: o.get_data()[:64]},
    'HBFace': {'upem': lambda o: o.get_upem(), 'index': lambda o:
               o.get_index(), 'count': lambda o: o.get_glyph_count()},
    'HBFont': {'scale': lambda o: o.get_scale(),
               'glyph': lambda o: o.get_glyph(65),
               'advance': lambda o: (o.get_glyph_h_advance(36),
                                     o.get_glyph_v_advance(36)),
               'ppem': lambda o: o.get_ppem(), 'ptem': lambda o:
               o.get_ptem()},
    'HBBuffer': {'length': lambda o: o.get_length(),
                 'infos': lambda o: [(i.codepoint, i.cluster) for i in
                                     o.get_glyph_infos()],
                 'positions': lambda o: [(p.x_advance, p.y_offset) for p in
                                         o.get_glyph_positions()],
                 'direction': lambda o: o.get_direction().direction},
    'UBiDi': {'runs': lambda o: o.count_runs(),
              'length': lambda o: (o.get_length(), o.get_processed_length(),
                                   o.get_direction(), o.get_para_level()),
              'visual': lambda o: list(o.visual_iter()),
              'text': lambda o: o.get_text(),
              'reordered': lambda o: o.write_reordered(2),
              'logical': lambda o: o.get_logical_run(0)},
    'UBreakIterator': {'first': lambda o: o.first(),
                       'list': lambda o: list(o),
                       'reversed': lambda o: list(reversed(o)),
                       'current': lambda o: o.current(),
                       'next': lambda o: o.next(),
                       'last': lambda o: (o.last(), o.previous())},
    'Font': {'numbers': lambda o: (o.ascent, o.descent, o.height,
                                   o.line_height),
             'x': lambda o: o.x_height, 'ch': lambda o: o.ch_advance,
             'family': lambda o: o.family,
             'face': lambda o: (o.face.ascender, o.face.glyph.metrics.width)},
}
READ['HBFTFace'] = dict(READ['HBFace'])
READ['HBFTFont'] = dict(READ['HBFont'], flags=lambda o: o.get_load_flags())
# what a reading says does not depend on the history of the object
STEADY = {('FTFace', 'names'), ('FTFace', 'numbers'), ('FTFace', 'bbox'),
          ('FTFace', 'flags'), ('HBBlob', 'length'), ('HBBlob', 'data'),
          ('HBFace', 'upem'), ('HBFTFace', 'upem'), ('HBFace', 'count'),
          ('HBFTFace', 'count')}
EDITS = {
    'FTFace': {
        'load': lambda o: o.load_char('g'),
        'load_scaled': lambda o: o.load_glyph(40, 1),
        'bad_glyph': lambda o: o.load_glyph(1 << 20),
        'size': lambda o: o.set_char_size(0, 16 * 64, 96, 96),
        'pixels': lambda o: o.set_pixel_sizes(0, 24),
        'request': lambda o: o.request_size(0, 0, 12 * 64, 96, 96),
        'select': lambda o: o.select_charmap(1970170211),
        'select_bad': lambda o: o.select_charmap(1785686113),
        'strike': lambda o: o.select_size(3),
        'setmap': lambda o: o.set_charmap(o.charmaps[0]),
        'render': lambda o: (o.load_char('A', 4), o.glyph.bitmap.rows),
    },
    'FTGlyphSlot': {'render': lambda o: o.render_glyph(0),
                    'embolden': lambda o: o.embolden(),
                    'oblique': lambda o: o.oblique()},
    'FTOutline': {'translate': lambda o: o.translate(3, 4),
                  'reverse': lambda o: o.reverse(),
                  'decompose': lambda o: o.decompose(
                      *[lambda *a: None] * 4)},
    'HBFont': {'scale': lambda o: o.set_scale(1000, 1000)},
    'HBFTFont': {'flags': lambda o: o.set_load_flags(1)},
    'HBBuffer': {'clear': lambda o: o.clear_contents(),
                 'utf8': lambda o: o.add_utf8('abc'),
                 'utf16': lambda o: o.add_utf16('abc'),
                 'utf32': lambda o: o.add_utf32('abc'),
                 'guess': lambda o: o.guess_segment_properties(),
                 'reset': lambda o: o.reset(),
                 'reverse': lambda o: o.reverse()},
}


def text_query(root, what, ident):
    el = root.get_element_by_id(ident)
    if what == 'bbox':
        return tuple(round(v, 6) for v in rect(el.get_bbox()))
    if what == 'path':
        return [(s.type, [round(v, 6) for v in s.values])
                for s in el.get_path_data()]
    return round(el.get_computed_text_length(), 6)


class Machine:
    def __init__(self, ctx, model):
        import svgpy
        from svgpy import core, fontconfig, freetype, harfbuzz, icu
        self.svgpy, self.core = svgpy, core
        self.fc, self.ft, self.hb, self.icu = (fontconfig, freetype,
                                               harfbuzz, icu)
        self.ctx = ctx
        self.model = model
        self.objs = {}
        self.tags = {}
        self.root = None
        self.answers = {}
        self.base_library = freetype.FreeType.library
        self.fonts = {}

    def data(self, n):
        with open(FONTS[n % len(FONTS)], 'rb') as fp:
            return fp.read()

    def kind(self, slot):
        return type(self.objs[slot]).__name__

    def want(self, op, key, *kinds):
        obj = self.objs.get(op[key])
        if obj is None or type(obj).__name__ not in kinds:
            raise LookupError(op[key])
        return obj

    # every method returns (slot value or None, answer or None)
    def do_face(self, op):
        if op.get('mem'):
            obj = self.ft.FTFace.new_memory_face(self.data(op['font']))
        else:
            obj = self.ft.FTFace.new_face(FONTS[op['font'] % len(FONTS)])
        obj.set_pixel_sizes(0, 20)
        obj.load_char('A')
        return obj, None

    def do_badface(self, op):
        if op.get('mem'):
            return self.ft.FTFace.new_memory_face(b'not a font'), None
        return self.ft.FTFace.new_face('/nonexistent.ttf'), None

    def do_view(self, op):
        owner = self.want(op, 'of', *VIEWS)
        names = VIEWS[type(owner).__name__]
        name = names[op['what'] % len(names)]
        value = getattr(owner, name)
        if isinstance(value, list):
            value = value[op['what'] % len(value)]
        return value, None

    def do_font(self, op):
        if self.root is None:
            self.do_doc(op)
        return self.core.Font(self.root.get_element_by_id(
            't{}'.format(op['font'] % 2))), None

    def do_blob(self, op):
        data = self.data(op['font'])
        if op.get('short'):
            data = data[:op['short']]
        if op['mode'] is None:
            return self.hb.HBBlob.create(data), None
        return self.hb.HBBlob.create(data, mode=getattr(
            self.hb.HBBlob, 'HB_MEMORY_MODE_' + op['mode'])), None

    def do_hbface(self, op):
        return self.hb.HBFace.create(self.want(op, 'of', 'HBBlob')), None

    def do_hbftface(self, op):
        return self.hb.HBFTFace.create(self.want(op, 'of', 'FTFace')), None

    def do_hbfont(self, op):
        return self.hb.HBFont.create(self.want(op, 'of', 'HBFace',
                                               'HBFTFace')), None

    def do_hbftfont(self, op):
        return self.hb.HBFTFont.create(self.want(op, 'of', 'FTFace')), None

    def do_getface(self, op):
        return self.want(op, 'of', 'HBFont', 'HBFTFont').get_face(), None

    def do_setface(self, op):
        font = self.want(op, 'of', 'HBFont', 'HBFTFont')
        font.set_face(self.want(op, 'to', 'HBFace', 'HBFTFace'))
        return None, None

    def do_otfuncs(self, op):
        self.hb.HBOTFont.set_funcs(self.want(op, 'of', 'HBFont'))
        return None, None

    def do_buffer(self, op):
        obj = self.hb.HBBuffer.create()
        obj.add_utf8(TEXTS[op['text'] % len(TEXTS)])
        obj.guess_segment_properties()
        return obj, None

    def do_shape(self, op):
        font = self.want(op, 'of', 'HBFont', 'HBFTFont')
        buffer = self.want(op, 'to', 'HBBuffer')
        if not buffer.get_length():
            raise LookupError(op['to'])
        features = None
        if op.get('features'):
            features = [self.hb.HBFeature.fromstring('kern=0')]
        buffer.shape(font, features)
        buffer.clear_contents()
        return None, None

    def do_shapes(self, op):
        """Shaping from scratch: the same every time."""
        face = self.ft.FTFace.new_face(FONTS[op['font'] % len(FONTS)])
        face.set_pixel_sizes(0, 20)
        font = self.hb.HBFTFont.create(face)
        del face
        buffer = self.hb.HBBuffer.create()
        buffer.add_utf8(TEXTS[op['text'] % len(TEXTS)])
        buffer.guess_segment_properties()
        buffer.shape(font)
        return None, [(i.codepoint, i.cluster, p.x_advance) for i, p in zip(
            buffer.get_glyph_infos(), buffer.get_glyph_positions())]

    def do_bidi(self, op):
        obj = self.icu.UBiDi()
        if not op.get('bare'):
            obj.set_para(TEXTS[op['text'] % len(TEXTS)], 0xfe)
        return obj, None

    def do_para(self, op):
        obj = self.want(op, 'of', 'UBiDi')
        obj.set_para(TEXTS[op['text'] % len(TEXTS)], 0xfe)
        return None, None

    def do_brk(self, op):
        text = None if op.get('bare') else TEXTS[op['text'] % len(TEXTS)]
        return self.icu.UBreakIterator(op['type'] % 4, LOCALES[
            op['text'] % len(LOCALES)], text), None

    def do_settext(self, op):
        obj = self.want(op, 'of', 'UBreakIterator')
        obj.set_text(TEXTS[op['text'] % len(TEXTS)])
        return None, None

    def do_locale(self, op):
        obj = self.icu.ULocale(LOCALES[op['text'] % len(LOCALES)])
        return None, (obj.get_language(), obj.get_script(),
                      obj.get_character_orientation(),
                      obj.get_line_orientation())

    def do_list(self, op):
        pattern = PATTERNS[op['pat'] % len(PATTERNS)]
        if op.get('bad') is not None:
            pattern = BAD_PATTERNS[op['bad'] % len(BAD_PATTERNS)]
        elif op['pat'] % 5 == 4:
            pattern = None
        return None, self.fc.FontConfig.list(
            pattern, ['family', 'file'] if op['fmt'] % 2 else None,
            FORMATS[op['fmt'] % len(FORMATS)])

    def do_match(self, op):
        pattern = PATTERNS[op['pat'] % len(PATTERNS)]
        if op.get('bad') is not None:
            pattern = BAD_PATTERNS[op['bad'] % len(BAD_PATTERNS)]
        return None, self.fc.FontConfig.match(
            pattern, FORMATS[op['fmt'] % len(FORMATS)])

    def do_files(self, op):
        return None, self.fc.FontConfig.get_config_files()

    def do_doc(self, op):
        from svgpy import SVGParser
        self.root = SVGParser().fromstring(DOC)
        return None, None

    def do_text(self, op):
        if self.root is None:
            self.do_doc(op)
        what, ident = QUERIES[op['query'] % len(QUERIES)]
        return None, text_query(self.root, what, ident)

    def do_lib(self, op):
        return self.ft.FTLibrary(), None

    def do_newlib(self, op):
        self.ft.FreeType.library = self.ft.FTLibrary()
        return None, None

    def do_keeplib(self, op):
        return self.ft.FreeType.library, None

    def do_read(self, op):
        obj = self.objs.get(op['of'])
        table = READ.get(type(obj).__name__)
        if table is None:
            raise LookupError(op['of'])
        name = sorted(table)[op['what'] % len(table)]
        value = table[name](obj)
        flat = list(numbers(value)) if not isinstance(value, bytes) else []
        bad = [v for v in flat if v in (native.POISON, native.MARK)]
        if bad or 'destroyed' in (value if isinstance(value, tuple) else ()):
            raise Violation('read-after-destroy:' + type(obj).__name__,
                            '{} of a {} reads a destroyed object: {!r}'.format(
                                name, type(obj).__name__, value))
        if (type(obj).__name__, name) in STEADY:
            return None, value
        return None, None

    def do_edit(self, op):
        obj = self.objs.get(op['of'])
        table = EDITS.get(type(obj).__name__)
        if table is None:
            raise LookupError(op['of'])
        name = sorted(table)[op['what'] % len(table)]
        table[name](obj)
        return None, None

    def do_drop(self, op):
        if self.objs.pop(op['of'], None) is None:
            raise LookupError(op['of'])
        self.tags.pop(op['of'], None)
        return None, None

    def do_cycle(self, op):
        ring = []
        for slot in op['slots']:
            obj = self.objs.pop(slot, None)
            if obj is None:
                continue
            ring.append(obj)
            if hasattr(obj, '__dict__'):
                obj._ring = ring
        if not ring:
            raise LookupError(op['slots'])
        ring.append(ring)
        return None, None

    def do_dropdoc(self, op):
        self.root = None
        return None, None

    def do_gc(self, op):
        gc.collect(op.get('gen', 2))
        return None, None


BASELINE = {'list', 'match', 'files', 'shapes', 'text', 'locale'}


def same(op):
    """Calls that ask the same."""
    return tuple(sorted((k, v) for k, v in op.items()
                        if k not in ('slot', 'fault', 'gcat', 'of')))


LOW_LEVEL = {'face', 'badface', 'view', 'edit', 'read', 'lib', 'newlib',
             'getface', 'shapes'}


class H01(Check):
    RUNS = {'quick': 1500, 'thorough': 60000}
    RULE = ('random histories that create, derive, use and drop native '
            'wrappers, put them into cycles and collect at seeded points, '
            'replace the FreeType library object and ask text queries, with '
            'failing native calls at seeded call indices; non-trivial: an '
            'owner was dropped while something made from it was kept and '
            'used, or a native call failed')
    REAL = ['svgpy (whole package, from /repo working tree)', 'lxml/libxml2',
            'FreeType, HarfBuzz, ICU, fontconfig (all calls but the '
            'destroying ones)']
    STUB = ['destruction of native objects (recorded, the object is '
            'overwritten and kept)', 'results of native calls made to fail']

    def gen(self, rng, index, tier):
        ops = []
        kinds = {}                       # slot -> kind

        def pick(*names):
            slots = [s for s, k in kinds.items() if k in names]
            return rng.choice(slots) if slots else None

        focus = rng.choice(['ft', 'hb', 'icu', 'fc', 'doc', 'all', 'all'])
        faults = rng.random() < 0.6
        length = rng.choice([6, 12, 20, 30])
        for n in range(length):
            if rng.random() < 0.06:
                self.chain(rng, ops, kinds, pick)
                continue
            r = rng.random()
            slot = len(ops)
            op = None
            if r < 0.3 or not kinds:
                op = self.make(rng, focus, kinds, pick)
            elif r < 0.42:
                op = self.derive(rng, kinds, pick)
            elif r < 0.68:
                of = rng.choice(list(kinds))
                op = {'op': 'read', 'of': of, 'what': rng.randrange(60)}
                if kinds[of] in EDITS and rng.random() < 0.4:
                    op['op'] = 'edit'
            elif r < 0.82:
                # owners first: they are what others were made from
                of = rng.choice(sorted(kinds)[:3] if rng.random() < 0.6
                                else list(kinds))
                op = {'op': 'drop', 'of': of}
                kinds.pop(of)
            elif r < 0.88:
                slots = rng.sample(sorted(kinds), min(len(kinds),
                                                      rng.choice([1, 2, 3])))
                op = {'op': 'cycle', 'slots': slots}
                for s in slots:
                    kinds.pop(s)
            elif r < 0.93:
                op = {'op': 'gc', 'gen': rng.choice([0, 1, 2, 2, 2])}
            elif r < 0.97:
                op = {'op': rng.choice(['newlib', 'keeplib', 'lib'])}
            else:
                op = {'op': 'dropdoc'}
            if op is None:
                continue
            kind = op.pop('kind', None)
            if kind is not None:
                kinds[slot] = kind
            op['slot'] = slot
            if op['op'] == 'keeplib' or op['op'] == 'lib':
                kinds[slot] = 'FTLibrary'
            if faults and rng.random() < 0.25 and op['op'] not in (
                    'drop', 'cycle', 'gc', 'dropdoc'):
                op['fault'] = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 7, 11, 20])
            elif rng.random() < 0.05 and op['op'] != 'gc':
                op['gcat'] = rng.choice([1, 2, 3, 5, 8, 13, 30])
            ops.append(op)
        return {'ops': ops, 'end': rng.randrange(1 << 30)}

    def chain(self, rng, ops, kinds, pick):
        """Something made of something made of ... : all but the last are
        given up, then the last one is read."""
        def emit(op):
            op['slot'] = len(ops)
            kind = op.pop('kind', None)
            if kind is not None:
                kinds[op['slot']] = kind
            ops.append(op)
            return op['slot']
        font = rng.randrange(4)
        of = emit(rng.choice([
            {'op': 'face', 'font': font, 'mem': rng.random() < 0.5,
             'kind': 'FTFace'},
            {'op': 'face', 'font': font, 'mem': rng.random() < 0.5,
             'kind': 'FTFace'},
            {'op': 'blob', 'font': font, 'kind': 'HBBlob',
             'mode': rng.choice([None, None] + MODES)}]))
        slots = [of]
        if kinds[of] == 'FTFace':
            ops.append({'op': 'edit', 'of': of, 'what': rng.randrange(60),
                        'slot': len(ops)})
        for _ in range(rng.choice([1, 2, 2, 3])):
            op = self.derive(rng, kinds, pick, of)
            if op is None:
                break
            if 'kind' in op:
                of = emit(op)
                slots.append(of)
            else:
                emit(op)
        slots.remove(of)
        if rng.random() < 0.3:
            emit({'op': 'cycle', 'slots': list(slots)})
        else:
            rng.shuffle(slots)
            for s in slots:
                emit({'op': 'drop', 'of': s})
        for s in slots:
            kinds.pop(s, None)
        if rng.random() < 0.6:
            emit({'op': 'gc', 'gen': 2})
        first = rng.randrange(60)
        for i in range(rng.choice([1, 2, 4])):
            emit({'op': 'read', 'of': of, 'what': first + i})

    def make(self, rng, focus, kinds, pick):
        f = focus if focus != 'all' else rng.choice(['ft', 'hb', 'icu', 'fc',
                                                     'doc'])
        font = rng.randrange(4)
        text = rng.randrange(len(TEXTS))
        if f == 'ft':
            if rng.random() < 0.08:
                return {'op': 'badface', 'mem': rng.random() < 0.5}
            return {'op': 'face', 'font': font, 'mem': rng.random() < 0.4,
                    'kind': 'FTFace'}
        if f == 'hb':
            r = rng.random()
            if r < 0.35:
                return {'op': 'face', 'font': font, 'kind': 'FTFace',
                        'mem': rng.random() < 0.5}
            if r < 0.6:
                op = {'op': 'blob', 'font': font, 'kind': 'HBBlob',
                      'mode': rng.choice([None, None] + MODES)}
                if rng.random() < 0.15:
                    op['short'] = rng.choice([1, 10, 100])
                return op
            if r < 0.85:
                return {'op': 'buffer', 'text': text, 'kind': 'HBBuffer'}
            return {'op': 'shapes', 'font': font, 'text': text}
        if f == 'icu':
            r = rng.random()
            if r < 0.45:
                return {'op': 'bidi', 'text': text, 'kind': 'UBiDi',
                        'bare': rng.random() < 0.1}
            if r < 0.9:
                return {'op': 'brk', 'text': text, 'type': rng.randrange(4),
                        'bare': rng.random() < 0.2, 'kind': 'UBreakIterator'}
            return {'op': 'locale', 'text': text}
        if f == 'fc':
            op = {'op': rng.choice(['list', 'match', 'match', 'list',
                                    'files']),
                  'pat': rng.randrange(len(PATTERNS) * 5),
                  'fmt': rng.randrange(len(FORMATS) * 2)}
            if rng.random() < 0.1:
                op['bad'] = rng.randrange(9)
            return op
        if rng.random() < 0.25:
            return {'op': 'font', 'font': font, 'kind': 'Font'}
        return {'op': 'text', 'query': rng.randrange(len(QUERIES))}

    def derive(self, rng, kinds, pick, of=None):
        if of is None:
            of = rng.choice(list(kinds))
        kind = kinds[of]
        if kind in VIEWS and (kind != 'FTFace' or rng.random() < 0.5):
            what = rng.randrange(12)
            name = VIEWS[kind][what % len(VIEWS[kind])]
            got = {'glyph': 'FTGlyphSlot', 'size': 'FTSize', 'charmap':
                   'FTCharMap', 'charmaps': 'FTCharMap', 'outline':
                   'FTOutline', 'bitmap': 'FTBitmap', 'metrics':
                   'FTGlyphMetrics' if kind == 'FTGlyphSlot' else
                   'FTSizeMetrics'}[name]
            return {'op': 'view', 'of': of, 'what': what, 'kind': got}
        if kind == 'FTFace':
            if rng.random() < 0.6:
                return {'op': 'hbftfont', 'of': of, 'kind': 'HBFTFont'}
            return {'op': 'hbftface', 'of': of, 'kind': 'HBFTFace'}
        if kind == 'HBBlob':
            return {'op': 'hbface', 'of': of, 'kind': 'HBFace'}
        if kind in ('HBFace', 'HBFTFace'):
            return {'op': 'hbfont', 'of': of, 'kind': 'HBFont'}
        if kind in ('HBFont', 'HBFTFont'):
            r = rng.random()
            face = pick('HBFace', 'HBFTFace')
            buffer = pick('HBBuffer')
            if buffer is not None and r < 0.5:
                return {'op': 'shape', 'of': of, 'to': buffer,
                        'features': rng.random() < 0.3}
            if face is not None and r < 0.7:
                return {'op': 'setface', 'of': of, 'to': face}
            if kind == 'HBFont' and r < 0.78:
                return {'op': 'otfuncs', 'of': of}
            return {'op': 'getface', 'of': of, 'kind':
                    'FTFace' if kind == 'HBFTFont' else 'HBFace'}
        if kind == 'UBiDi':
            return {'op': 'para', 'of': of, 'text': rng.randrange(9)}
        if kind == 'UBreakIterator':
            return {'op': 'settext', 'of': of, 'text': rng.randrange(9)}
        return None

    def run(self, scenario, ctx):
        sys.unraisablehook = lambda *a: None
        model = native.MODEL
        m = Machine(ctx, model)
        for op in scenario['ops']:
            # what the same calls say without the simulator
            if op['op'] in BASELINE and op.get('bad') is None:
                key = same(op)
                if key not in m.answers:
                    m.answers[key] = getattr(m, 'do_' + op['op'])(op)[1]
        gc.collect()
        model.start()
        model.note = ctx.event
        lost_owner = False
        for op in scenario['ops']:
            name = op['op']
            fault = None
            if op.get('fault'):
                fault = model.fault = native.Fault(op['fault'])
            before = model.calls
            outcome = 'ok'
            value = answer = None
            try:
                if op.get('gcat'):
                    k = op['gcat']

                    def collect(n, frame):
                        if n == k:
                            ctx.count('fault.gc_inside')
                            gc.collect()
                    with Lines(collect):
                        value, answer = getattr(m, 'do_' + name)(op)
                else:
                    value, answer = getattr(m, 'do_' + name)(op)
            except LookupError as exc:
                if isinstance(exc, (KeyError, IndexError)):
                    outcome = type(exc).__name__
                else:
                    outcome = 'skip'
            except Violation:
                raise
            except native.Misuse:
                outcome = 'misuse'
            except Exception as exc:
                outcome = type(exc).__name__
            model.fault = None
            self.faults(model, ctx)
            ctx.event(name, op.get('of'), outcome, model.calls - before,
                      fault.fired if fault else None)
            ctx.count('op.' + name)
            if outcome == 'skip':
                continue
            if value is not None:
                m.objs[op['slot']] = value
                ctx.equal(type(value).__name__ != 'NoneType', True, 'object')
            value = None
            if fault is not None and fault.fired:
                ctx.count('fault.' + fault.fired)
                ctx.nontrivial = True
                if outcome == 'ok' and fault.fired in native.FT_FALLIBLE \
                        and name in LOW_LEVEL:
                    raise Violation('failure-ignored:' + fault.fired,
                                    '{} failed inside {} and nothing was '
                                    'raised'.format(fault.fired, name))
                continue
            if name in ('drop', 'cycle'):
                lost_owner = True
            elif lost_owner and name in ('read', 'edit', 'shape', 'view'):
                ctx.nontrivial = True
            if outcome not in ('ok',) and name in ('text', 'list', 'match',
                                                   'files', 'shapes',
                                                   'locale'):
                answer = outcome
            if answer is not None:
                key = same(op)
                if name != 'read':
                    if key in m.answers:
                        ctx.equal(answer, m.answers[key],
                                  'answer-changed:' + name, repr(key))
                    m.answers[key] = answer
            ctx.state(sorted((o.kind, o.refs) for o in model.table.values()
                             if not o.dead and not o.static))
        # the end: everything goes, in a seeded order
        order = random.Random(scenario['end'])
        slots = sorted(m.objs)
        order.shuffle(slots)
        for slot in slots:
            m.objs.pop(slot)
            self.faults(model, ctx)
        m.root = None
        self.ft_library(m)
        gc.collect()
        self.faults(model, ctx)
        gc.collect()
        self.faults(model, ctx)
        left = sorted(repr(o) for o in model.leaked())
        ctx.event('left', left)
        ctx.check(not left, 'leak:' + ','.join(sorted({
            o.kind for o in model.leaked()})),
            'never destroyed: {}'.format(left))
        for kind, n in model.created.items():
            ctx.count('handles.' + kind, n)
        ctx.count('native_calls', model.calls)
        model.active = False

    def ft_library(self, m):
        m.ft.FreeType.library = m.base_library
        vars(m.base_library).pop('_ring', None)

    def faults(self, model, ctx):
        ctx.counters['oracle_evaluations'] += 1
        if model.violations:
            what, text = model.violations[0]
            raise Violation(what + ':' + text, text)


CHECKS = {'H01': H01}
