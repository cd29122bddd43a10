"""The native libraries behind a seam: FreeType, HarfBuzz, ICU, fontconfig.

Every function the library reaches through ``ffi.dlopen`` goes through a
proxy. Outside a simulated run the proxy only keeps the table of what is
alive. In a run

* a native object is never really freed: when its last reference is given
  back it is marked dead and what can be read of it is overwritten, so that a
  later use is an exactly repeatable observation instead of undefined
  behaviour (the process ends with the run);
* every call that names a dead object, an object whose data or owner is gone,
  or NULL where the real library would crash, is recorded and not made;
* any call that can fail in a deployment can be made to fail.
"""
import sys
import weakref

import cffi

POISON = -0x2b2b
MARK = 0x5a5a
FT_ERROR = 0x40            # Out_Of_Memory
U_MEMORY = 7               # U_MEMORY_ALLOCATION_ERROR
U_INVALID_STATE = 27


class Misuse(BaseException):
    """A native call that must not be made."""


class Obj:
    """One native object."""

    def __init__(self, kind, addr, serial, needs=(), data=None):
        self.kind = kind
        self.addr = addr
        self.serial = serial
        self.refs = 1
        self.needs = list(needs)    # borrowed: must be alive when used
        self.holds = []             # native references given back on death
        self.data = [] if data is None else [data]
        self.static = False
        self.invalid = False        # UBiDi after a failed set_para
        self.ptr = None
        self.ffi = None
        self.on_death = None
        self.finalizer = None       # C destroy callback and its argument

    @property
    def dead(self):
        return self.refs <= 0 and not self.static

    def __repr__(self):
        return '{}#{}'.format(self.kind, self.serial)


class Fault:
    """Fails the n-th fallible native call made while it is set."""

    def __init__(self, nth):
        self.nth = nth
        self.seen = 0
        self.fired = None


class Model:
    def __init__(self):
        self.table = {}
        self.inner = {}             # address inside an object -> object
        self.active = False
        self.violations = []
        self.fault = None
        self.calls = 0
        self.serial = 0
        self.base = set()
        self.keep = []
        self.empties = {}
        self.note = lambda *_: None
        self.created = {}
        self.quiet = 0

    # -- bookkeeping -------------------------------------------------------
    def start(self):
        self.active = True
        # addresses of what was really freed so far may be used again
        self.table = {a: o for a, o in self.table.items() if not o.dead}
        self.inner = {a: o for a, o in self.inner.items() if not o.dead}
        self.violations = []
        self.serial = 0
        self.load_empties()

    def load_empties(self):
        """The inert objects HarfBuzz hands out when it cannot allocate."""
        ffi = cffi.FFI()
        ffi.cdef('void *hb_blob_get_empty(void); void *hb_face_get_empty('
                 'void); void *hb_font_get_empty(void); '
                 'void *hb_buffer_get_empty(void);')
        lib = None
        for name in ('harfbuzz', 'libharfbuzz.so.0', 'libharfbuzz-0'):
            try:
                lib = real_dlopen(ffi, name)
                break
            except OSError:
                continue
        for kind in ('blob', 'face', 'font', 'buffer'):
            addr = int(ffi.cast('uintptr_t', getattr(
                lib, 'hb_{}_get_empty'.format(kind))()))
            obj = Obj('hb_' + kind, addr, 'empty')
            obj.static = True
            self.table[addr] = obj
            self.empties[kind] = addr
        self.base = set(self.table)

    def violation(self, what, text):
        self.violations.append((what, text))
        raise Misuse(text)

    def add(self, ffi, kind, ptr, needs=(), data=None):
        addr = address(ffi, ptr)
        old = self.table.get(addr)
        if old is not None and (old.static or not old.dead) and self.active:
            if not old.static:
                old.refs += 1
            return old
        self.serial += 1
        self.created[kind] = self.created.get(kind, 0) + 1
        obj = Obj(kind, addr, self.serial, needs, data)
        obj.ptr = ptr
        obj.ffi = ffi
        self.table[addr] = obj
        return obj

    def get(self, ffi, ptr):
        if not isinstance(ptr, ffi.CData):
            return None
        try:
            if ffi.typeof(ptr).kind != 'pointer':
                return None
        except TypeError:
            return None
        addr = address(ffi, ptr)
        return self.table.get(addr) or self.inner.get(addr)

    def data_gone(self, obj):
        # the list holds one reference, the loop variable and the call two
        for item in obj.data:
            if sys.getrefcount(item) <= 3:
                return True
        return False

    def unusable(self, obj, seen=None):
        """Why a call may not use obj, or None."""
        if obj.dead:
            return 'destroyed {}'.format(obj.kind)
        if self.data_gone(obj):
            return 'freed data of {}'.format(obj.kind)
        seen = seen or set()
        if id(obj) in seen:
            return None
        seen.add(id(obj))
        for other in obj.needs + obj.holds:
            why = self.unusable(other, seen)
            if why:
                return why + ' behind {}'.format(obj.kind)
        return None

    def use(self, name, obj):
        why = self.unusable(obj)
        if why:
            self.violation('use-after-destroy', '{} uses a {}'.format(
                name, why))

    def release(self, name, obj):
        """One reference of obj is given back."""
        if obj.static:
            return
        if obj.refs <= 0:
            self.violation('double-destroy', '{} on a destroyed {}'.format(
                name, obj.kind))
        obj.refs -= 1
        if obj.refs == 0:
            self.die(name, obj)

    def die(self, name, obj):
        poison(obj)
        holds, obj.holds = obj.holds, []
        for other in holds:
            self.release(name, other)
        if obj.finalizer is not None:
            func, arg = obj.finalizer
            obj.finalizer = None
            func(arg)
        if obj.kind == 'FT_Library':
            left = [o for o in list(self.table.values())
                    if o.kind == 'FT_Face' and not o.dead
                    and obj in o.needs]
            if left:
                self.violation('face-outlives-library',
                               '{} with {} face(s) alive'.format(
                                   name, len(left)))

    def leaked(self):
        return [o for addr, o in self.table.items()
                if addr not in self.base and not o.dead and not o.static]


def address(ffi, ptr):
    return int(ffi.cast('uintptr_t', ptr))


def poison(obj):
    """Overwrites what a stale reference could still read."""
    ffi = obj.ffi
    if ffi is None or not MODEL.active:
        return
    if obj.kind == 'FT_Face':
        face = obj.ptr
        area = ffi.new('char[]', b'destroyed')
        pixels = ffi.new('unsigned char[16]', b'destroyed')
        MODEL.keep.extend((area, pixels))
        for name in ('ascender', 'descender', 'height', 'max_advance_width',
                     'max_advance_height', 'underline_position',
                     'underline_thickness', 'num_glyphs', 'face_flags',
                     'style_flags', 'num_faces', 'face_index'):
            setattr(face, name, POISON)
        face.units_per_EM = MARK
        face.family_name = face.style_name = area
        face.bbox.xMin = face.bbox.yMin = POISON
        slot = face.glyph
        if slot != ffi.NULL:
            for name in ('width', 'height', 'horiBearingX', 'horiBearingY',
                         'horiAdvance', 'vertBearingX', 'vertBearingY',
                         'vertAdvance'):
                setattr(slot.metrics, name, POISON)
            slot.linearHoriAdvance = slot.linearVertAdvance = POISON
            slot.advance.x = slot.advance.y = POISON
            slot.bitmap_left = slot.bitmap_top = POISON
            slot.bitmap.rows = 1
            slot.bitmap.width = MARK
            slot.bitmap.pitch = 9
            slot.bitmap.buffer = pixels
            slot.outline.n_contours = 0
            slot.outline.n_points = 0
            slot.outline.flags = POISON
            slot.lsb_delta = slot.rsb_delta = POISON
        size = face.size
        if size != ffi.NULL:
            for name in ('x_scale', 'y_scale', 'ascender', 'descender',
                         'height', 'max_advance'):
                setattr(size.metrics, name, POISON)
            size.metrics.x_ppem = size.metrics.y_ppem = MARK
        for n in range(face.num_charmaps):
            face.charmaps[n].platform_id = MARK
            face.charmaps[n].encoding_id = MARK
        face.num_charmaps = 0
    elif obj.kind == 'FcFontSet':
        obj.ptr.nfont = 0
    elif obj.kind == 'FcStr':
        n = 0
        while obj.ptr[n] != 0:
            obj.ptr[n] = 0x7e
            n += 1
    elif obj.kind == 'hb_buffer':
        lib = obj.lib
        length = ffi.new('unsigned int *')
        infos = lib.hb_buffer_get_glyph_infos(obj.ptr, length)
        if infos != ffi.NULL:
            for n in range(length[0]):
                infos[n].codepoint = MARK
                infos[n].cluster = MARK


# --------------------------------------------------------------------------
# what each function does
# --------------------------------------------------------------------------
RETAIN = {'FT_Reference_Face', 'FT_Reference_Library', 'hb_blob_reference',
          'hb_face_reference', 'hb_font_reference', 'hb_buffer_reference',
          'FcPatternReference'}
RELEASE = {'FT_Done_Face', 'FT_Done_FreeType', 'FT_Done_Library',
           'hb_blob_destroy', 'hb_face_destroy', 'hb_font_destroy',
           'hb_buffer_destroy', 'FcPatternDestroy', 'FcObjectSetDestroy',
           'FcFontSetDestroy', 'FcStrListDone', 'FcStrFree', 'ubrk_close',
           'ubidi_close'}
# kind of object each function creates and returns
MAKES = {'hb_blob_create': 'hb_blob', 'hb_face_create': 'hb_face',
         'hb_face_reference_blob': 'hb_blob', 'hb_font_create': 'hb_font',
         'hb_ft_face_create': 'hb_face', 'hb_ft_font_create': 'hb_font',
         'hb_ft_face_create_referenced': 'hb_face',
         'hb_ft_font_create_referenced': 'hb_font',
         'hb_font_create_sub_font': 'hb_font',
         'hb_buffer_create': 'hb_buffer',
         'FcPatternCreate': 'FcPattern', 'FcNameParse': 'FcPattern',
         'FcFontMatch': 'FcPattern', 'FcPatternFilter': 'FcPattern',
         'FcPatternDuplicate': 'FcPattern',
         'FcObjectSetBuild': 'FcObjectSet', 'FcObjectSetCreate':
         'FcObjectSet', 'FcFontSetCreate': 'FcFontSet',
         'FcFontList': 'FcFontSet', 'FcConfigGetConfigFiles': 'FcStrList',
         'FcPatternFormat': 'FcStr', 'ubrk_open': 'UBreakIterator',
         'ubidi_open': 'UBiDi', 'ubidi_openSized': 'UBiDi'}
# NULL in this argument crashes the real library
NEEDS_ARG = {'FcFontList': (1,), 'FcFontMatch': (1,),
             'FcConfigSubstitute': (1,), 'FcDefaultSubstitute': (0,),
             'FcFontSetAdd': (0,), 'FcFontSetDestroy': (0,),
             'FcStrListNext': (0,), 'FcStrListDone': (0,),
             'FcStrListFirst': (0,), 'FcPatternFilter': (0,),
             'hb_ft_font_create': (0,), 'hb_ft_face_create': (0,),
             'hb_ft_font_create_referenced': (0,),
             'hb_ft_face_create_referenced': (0,)}
FT_FALLIBLE = {'FT_Init_FreeType', 'FT_New_Face', 'FT_New_Memory_Face',
               'FT_Reference_Face', 'FT_Set_Char_Size', 'FT_Set_Pixel_Sizes',
               'FT_Request_Size', 'FT_Select_Size', 'FT_Load_Glyph',
               'FT_Load_Char', 'FT_Render_Glyph', 'FT_Get_Kerning',
               'FT_Select_Charmap', 'FT_Set_Charmap', 'FT_Outline_Embolden',
               'FT_Outline_EmboldenXY', 'FT_Outline_Check',
               'FT_Outline_Get_BBox', 'FT_Outline_Get_Bitmap',
               'FT_Outline_Decompose', 'FT_Get_Advance'}
FC_FALLIBLE = {'FcPatternCreate', 'FcNameParse', 'FcFontMatch',
               'FcPatternFilter', 'FcObjectSetBuild', 'FcFontSetCreate',
               'FcFontList', 'FcConfigGetConfigFiles', 'FcPatternFormat',
               'FcFontSetAdd', 'FcConfigSubstitute', 'FcPatternDuplicate'}
HB_FALLIBLE = {'hb_blob_create': 'blob', 'hb_face_create': 'face',
               'hb_font_create': 'font', 'hb_ft_face_create': 'face',
               'hb_ft_font_create': 'font', 'hb_buffer_create': 'buffer',
               'hb_ft_face_create_referenced': 'face',
               'hb_ft_font_create_referenced': 'font'}
NO_STATUS_FAULT = {'u_versionToString'}


def plain_name(name):
    head, sep, tail = name.rpartition('_')
    if sep and tail.isdigit():
        return head
    return name


class Function:
    """A native function seen by the library."""

    def __init__(self, ffi, lib, name, real):
        self.ffi = ffi
        self.lib = lib
        self.name = plain_name(name)
        self.real = real
        self.type = ffi.typeof(real)
        args = self.type.args
        self.status = len(args) - 1 if args and args[-1].cname in (
            'UErrorCode *', 'enum UErrorCode *') else None
        name = self.name
        self.tracked = (name in MAKES or name in RETAIN or name in RELEASE
                        or name in ('FT_Init_FreeType', 'FT_New_Face',
                                    'FT_New_Memory_Face'))
        self.null_args = NEEDS_ARG.get(name, ())
        if name.startswith('ubrk_') and name not in ('ubrk_close',
                                                     'ubrk_open') and args \
                and args[0].kind == 'pointer':
            self.null_args = (0,)
        elif name.startswith(('hb_face_', 'hb_font_', 'hb_blob_',
                              'hb_buffer_', 'hb_shape')) \
                and name not in RELEASE and name not in RETAIN \
                and 'create' not in name and args \
                and args[0].kind == 'pointer':
            self.null_args = (0,)

    def __repr__(self):
        return '<native {}>'.format(self.name)

    # -- helpers -----------------------------------------------------------
    def is_null(self, value):
        return (isinstance(value, self.ffi.CData)
                and self.ffi.typeof(value).kind == 'pointer'
                and value == self.ffi.NULL)

    def fallible(self):
        return (self.name in FT_FALLIBLE or self.name in FC_FALLIBLE
                or self.name in HB_FALLIBLE or self.name == 'ubidi_open'
                or (self.status is not None
                    and self.name not in NO_STATUS_FAULT))

    def failed(self, args):
        """The value of a failing call; its effect on the arguments."""
        if self.name in FT_FALLIBLE:
            return FT_ERROR
        if self.name in HB_FALLIBLE:
            return self.ffi.cast(self.type.result, MODEL.empties[
                HB_FALLIBLE[self.name]])
        if self.status is not None:
            args[self.status][0] = U_MEMORY
            if self.name == 'ubidi_setPara':
                obj = MODEL.get(self.ffi, args[0])
                if obj is not None:
                    obj.invalid = True
                    obj.data = []
        if self.type.result.kind == 'pointer':
            return self.ffi.cast(self.type.result, 0)
        return 0

    def zero(self):
        if self.type.result.kind == 'pointer':
            return self.ffi.cast(self.type.result, 0)
        return None if self.type.result.kind == 'void' else 0

    def __call__(self, *args):
        model = MODEL
        if not model.active:
            if not self.tracked:
                return self.real(*args)
            result = self.real(*args)
            self.effect(args, result)
            return result
        return self.simulate(args)

    def simulate(self, args):
        model = MODEL
        ffi = self.ffi
        name = self.name
        model.calls += 1
        for n in self.null_args:
            if n < len(args) and self.is_null(args[n]):
                model.violation('null', '{} of a handle that was never '
                                'made'.format(name))
        if name in RELEASE:
            obj = model.get(ffi, args[0])
            model.note('call', name, repr(obj))
            if obj is None:
                # NULL, or not an object of ours
                return 0 if self.type.result.kind != 'void' else None
            model.release(name, obj)
            return 0 if self.type.result.kind != 'void' else None
        handles = []
        for arg in args:
            obj = model.get(ffi, arg)
            if obj is not None:
                handles.append(obj)
        if name in ('ubidi_setPara', 'ubrk_setText') and handles:
            # they replace the text without reading the old one
            if handles[0].dead:
                model.use(name, handles[0])
        else:
            for obj in handles:
                model.use(name, obj)
        fault = model.fault
        if fault is not None and self.fallible():
            fault.seen += 1
            if fault.seen == fault.nth:
                fault.fired = name
                model.note('fault', name)
                return self.failed(args)
        if handles and handles[0].invalid and name != 'ubidi_setPara':
            if self.status is not None:
                args[self.status][0] = U_INVALID_STATE
            return self.zero()
        if name == 'FcFontSetDestroy':
            return None
        result = self.real(*args)
        self.effect(args, result)
        return result

    def effect(self, args, result):
        """What a successful call did to the table of objects."""
        model = MODEL
        ffi = self.ffi
        name = self.name
        if name in RELEASE:
            obj = model.get(ffi, args[0])
            if obj is not None and not obj.static:
                obj.refs -= 1
                if obj.refs == 0:
                    for other in obj.holds:
                        other.refs -= 1
            return
        if name in RETAIN:
            obj = model.get(ffi, args[0])
            if obj is not None and not obj.static:
                if name.startswith('FT_') and result != 0:
                    return
                obj.refs += 1
            return
        if name == 'FT_Init_FreeType':
            if result == 0:
                model.add(ffi, 'FT_Library', args[0][0])
            return
        if name in ('FT_New_Face', 'FT_New_Memory_Face'):
            if result != 0:
                return
            face = args[-1][0]
            owner = model.get(ffi, args[0])
            obj = model.add(ffi, 'FT_Face', face,
                            needs=[owner] if owner else [])
            if name == 'FT_New_Memory_Face':
                obj.data = [args[1]]
            for part in [face.glyph, face.size] + [
                    face.charmaps[n] for n in range(face.num_charmaps)]:
                if part != ffi.NULL:
                    model.inner[address(ffi, part)] = obj
            if face.glyph != ffi.NULL:
                model.inner[address(ffi, ffi.addressof(
                    face.glyph, 'outline'))] = obj
            return
        if name == 'hb_font_set_face':
            font, face = (model.get(ffi, a) for a in args[:2])
            if font is not None and not font.static:
                old = [o for o in font.holds if o.kind == 'hb_face']
                font.holds = [o for o in font.holds if o.kind != 'hb_face']
                if face is not None and not face.static:
                    face.refs += 1
                    font.holds.append(face)
                for other in old:
                    model.release(name, other)
            return
        if name == 'hb_font_get_face':
            font = model.get(ffi, args[0])
            if font is not None and result != ffi.NULL \
                    and model.get(ffi, result) is None:
                obj = model.add(ffi, 'hb_face', result, needs=font.needs)
                if model.active:
                    # keeps its address out of use
                    self.lib.hb_face_reference(result)
                font.holds.append(obj)
            return
        if name == 'FcFontSetAdd':
            fontset, pattern = (model.get(ffi, a) for a in args[:2])
            if result and fontset is not None and pattern is not None:
                fontset.holds.append(pattern)
            return
        if name in ('ubrk_setText', 'ubidi_setPara'):
            obj = model.get(ffi, args[0])
            if obj is not None:
                ok = args[self.status][0] <= 0
                if ok:
                    obj.data = [args[1]]
                    obj.invalid = False
            return
        if name == 'ubidi_setLine':
            obj = model.get(ffi, args[3])
            para = model.get(ffi, args[0])
            if obj is not None and para is not None:
                obj.needs = [para]
            return
        kind = MAKES.get(name)
        if kind is None or result == ffi.NULL:
            return
        obj = model.add(ffi, kind, result)
        obj.lib = self.lib
        if obj.static:
            return
        first = model.get(ffi, args[0]) if args else None
        if name in ('hb_face_create', 'hb_font_create',
                    'hb_font_create_sub_font'):
            if first is not None and not first.static:
                first.refs += 1
                obj.holds = [first]
        elif name in ('hb_ft_face_create', 'hb_ft_font_create',
                      'hb_face_reference_blob'):
            if name == 'hb_face_reference_blob':
                obj.needs = list(first.needs) if first is not None else []
                if first is not None and first.holds and obj.refs == 1:
                    obj.data = [d for o in first.holds for d in o.data]
            elif first is not None:
                obj.needs = [first]
            if len(args) > 1 and not self.is_null(args[1]):
                obj.finalizer = (args[1], args[0])
        elif name.endswith('_referenced'):
            if first is not None:
                first.refs += 1
                obj.holds = [first]
        elif name == 'hb_blob_create':
            if int(args[2]) != 0:       # HB_MEMORY_MODE_DUPLICATE
                obj.data = [args[0]]
            if len(args) > 4 and not self.is_null(args[4]):
                obj.finalizer = (args[4], args[3])
        elif name == 'ubrk_open':
            if not self.is_null(args[2]):
                obj.data = [args[2]]
        elif name == 'FcFontList':
            for n in range(result.nfont):
                pattern = model.add(ffi, 'FcPattern', result.fonts[n])
                obj.holds.append(pattern)


class Lib:
    """What ``ffi.dlopen`` gives the library."""

    def __init__(self, ffi, real):
        self.__dict__['_ffi'] = ffi
        self.__dict__['_real'] = real
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        cache = self.__dict__['_cache']
        if name in cache:
            return cache[name]
        value = getattr(self.__dict__['_real'], name)
        if callable(value):
            value = Function(self.__dict__['_ffi'], self.__dict__['_real'],
                             name, value)
        cache[name] = value
        return value


MODEL = Model()
real_dlopen = cffi.FFI.dlopen


def install():
    """Before the library is imported."""
    def dlopen(self, name, flags=0):
        return Lib(self, real_dlopen(self, name, flags))
    cffi.FFI.dlopen = dlopen
