"""Types: parsing of MIR type text, and the mapping to Verus sorts."""
import re
from mir import find_close, split_top

LOCAL_MODS = {'tree', 'document', 'node', 'attribute', 'attributes', 'attribute_value', 'attribute_type', 'element_type', 'name',
              'names', 'parser', 'writer', 'error', 'text', 'crate', 'iterator'}
SVG_SHORT = {'PathSegment', 'Stream', 'PathParser', 'Paint', 'PaintFallback', 'LengthUnit'}
SVG_FULL = {'Length', 'LengthList', 'Color', 'NumberList', 'Points', 'Transform', 'Angle', 'ViewBox', 'AspectRatio', 'Path'}
CSS_SHORT = {'DeclarationTokenizer', 'Declaration', 'Rule', 'StyleSheet', 'Selector', 'AttributeOperator', 'PseudoClass'}
STD = {'std', 'core', 'alloc'}
PRIMS = {'bool', 'char', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64', 'str', '!', '()'}
INTMAX = {'u8': 255, 'u16': 65535, 'u32': 2**32 - 1, 'u64': 2**64 - 1, 'usize': 2**64 - 1}


def canon(path):
    """canonical short name of a path without generics"""
    segs = path.split('::')
    if segs[:2] == ['tree', 'NodeData']:
        return 'TreeData'
    if segs[0] in STD:
        return segs[-1]
    while len(segs) > 1 and segs[0] in LOCAL_MODS:
        segs = segs[1:]
    # rustc prints a path in full or trimmed depending on what else is in scope
    if segs[0] == 'svgtypes' and len(segs) > 1 and segs[1] in SVG_SHORT:
        segs = segs[1:]
    elif segs[0] == 'simplecss' and len(segs) > 1 and segs[1] in CSS_SHORT:
        segs = segs[1:]
    elif segs[0] in SVG_FULL:
        segs = ['svgtypes'] + segs
    return '::'.join(segs)


class Ty:
    __slots__ = ('k', 'name', 'args', 'mut')

    def __init__(self, k, name=None, args=(), mut=False):
        self.k, self.name, self.args, self.mut = k, name, list(args), mut

    def __repr__(self):
        if self.k == 'ref':
            return ('&mut ' if self.mut else '&') + repr(self.args[0])
        if self.k == 'adt':
            return self.name + ('<' + ', '.join(map(repr, self.args)) + '>' if self.args else '')
        if self.k == 'tuple':
            return '(' + ', '.join(map(repr, self.args)) + ')'
        if self.k in ('slice', 'array'):
            return '[' + repr(self.args[0]) + ']'
        return str(self.name)

    def strip(self):
        t = self
        while t.k == 'ref':
            t = t.args[0]
        return t


CACHE = {}


def parse_ty(s):
    s = s.strip()
    if s in CACHE:
        return CACHE[s]
    t = _parse(s)
    CACHE[s] = t
    return t


def _parse(s):
    if s.startswith('for<'):
        s = s[find_close(s, 3) + 1:].strip()
    if s.startswith('&'):
        r = s[1:].strip()
        r = re.sub(r"^'\w+ ", '', r)
        if r.startswith('mut '):
            return Ty('ref', args=[parse_ty(r[4:])], mut=True)
        return Ty('ref', args=[parse_ty(r)])
    if s == '()':
        return Ty('tuple')
    if s.startswith('('):
        return Ty('tuple', args=[parse_ty(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return Ty('array', parts[1], [parse_ty(parts[0])])
        return Ty('slice', args=[parse_ty(inner)])
    if s.startswith('{closure@'):
        return Ty('closure', s)
    if s.startswith('dyn ') or s.startswith('*') or s.startswith('impl '):
        return Ty('opaque', s)
    if re.match(r'^(unsafe )?(extern "\w+" )?fn\b', s) or s.startswith('fn('):
        return Ty('fnptr', s)
    if s in PRIMS:
        return Ty('prim', s)
    if s.startswith('<'):
        return Ty('param', s)
    m = re.match(r'^([\w:]+)(<.*>)?$', s, re.S)
    if m:
        path = m.group(1)
        if path.endswith('::'):
            path = path[:-2]
        args = []
        if m.group(2):
            args = [parse_ty(a) for a in split_top(m.group(2)[1:-1]) if not a.startswith("'")]
        if re.match(r'^(T|N|V|S|P|K|F|__H|Self)$', path):
            return Ty('param', path)
        return Ty('adt', canon(path), args)
    return Ty('opaque', s)
