"""Contracts for the tables: src/element_type.rs, src/attribute_type.rs, src/names.rs, and the tabulated parts of src/attribute_value.rs.

The lists are written from the SVG 1.1 specification and the crate's documentation, by name; names turn into ids by the naming rule of the enum
(font-size -> FontSize), whose texts are checked separately (C13)."""
import re
from vc import Contract as C

EL_CATS = {
    'referenced': 'altGlyphDef clipPath cursor filter linearGradient marker mask pattern radialGradient symbol',
    'basic_shape': 'rect circle ellipse line polyline polygon',
    'shape': 'path rect circle ellipse line polyline polygon',
    'container': 'a defs glyph g marker mask missing-glyph pattern svg switch symbol',
    'text_content': 'altGlyph textPath text tref tspan',
    'text_content_child': 'altGlyph textPath tref tspan',
    'graphic': 'circle ellipse image line path polygon polyline rect text use',
    'gradient': 'linearGradient radialGradient',
    'paint_server': 'linearGradient radialGradient pattern',
    'filter_primitive': 'feBlend feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting feDisplacementMap feFlood '
                        'feGaussianBlur feImage feMerge feMorphology feOffset feSpecularLighting feTile feTurbulence',
}
PRESENTATION = '''alignment-baseline baseline-shift clip clip-path clip-rule color color-interpolation color-interpolation-filters color-profile
color-rendering cursor direction display dominant-baseline enable-background fill fill-opacity fill-rule filter flood-color flood-opacity font
font-family font-size font-size-adjust font-stretch font-style font-variant font-weight glyph-orientation-horizontal glyph-orientation-vertical
image-rendering kerning letter-spacing lighting-color marker marker-end marker-mid marker-start mask opacity overflow pointer-events shape-rendering
stop-color stop-opacity stroke stroke-dasharray stroke-dashoffset stroke-linecap stroke-linejoin stroke-miterlimit stroke-opacity stroke-width
text-anchor text-decoration text-rendering unicode-bidi visibility word-spacing writing-mode'''
NON_INHERITED = '''alignment-baseline baseline-shift clip clip-path display dominant-baseline enable-background filter flood-color flood-opacity
lighting-color mask opacity overflow stop-color stop-opacity text-decoration unicode-bidi visibility'''
AT_CATS = {
    'presentation': PRESENTATION,
    'inheritable': ' '.join(x for x in PRESENTATION.split() if x not in NON_INHERITED.split()),
    'animation_event': 'onbegin onend onload onrepeat',
    'graphical_event': 'onactivate onclick onfocusin onfocusout onload onmousedown onmousemove onmouseout onmouseover onmouseup',
    'document_event': 'onabort onerror onresize onscroll onunload onzoom',
    'conditional_processing': 'requiredExtensions requiredFeatures systemLanguage',
    'core': 'base lang space',
    'fill': 'fill fill-opacity fill-rule',
    'stroke': 'stroke stroke-dasharray stroke-dashoffset stroke-linecap stroke-linejoin stroke-miterlimit stroke-opacity stroke-width',
}
KINDS = {'none': 'None', 'inherit': 'Inherit', 'current_color': 'CurrentColor', 'aspect_ratio': 'AspectRatio', 'color': 'Color', 'length': 'Length',
         'length_list': 'LengthList', 'angle': 'Angle', 'link': 'Link', 'func_link': 'FuncLink', 'paint': 'Paint', 'number': 'Number',
         'number_list': 'NumberList', 'path': 'Path', 'points': 'Points', 'string': 'String', 'transform': 'Transform', 'viewbox': 'ViewBox'}


def variant(name):
    return ''.join(p[:1].upper() + p[1:] for p in re.split(r'[-:]', name))


def one_of(pre, x, names):
    return '(' + ' || '.join('%s == %s_%s' % (x, pre, variant(n)) for n in names.split()) + ')'


DEFAULTS = [
    ('auto', 'alignment-baseline clip color-profile color-rendering cursor dominant-baseline glyph-orientation-vertical image-rendering kerning shape-rendering text-rendering'),
    (None, 'clip-path filter font-size-adjust marker marker-end marker-mid marker-start mask stroke stroke-dasharray text-decoration'),
    ('normal', 'font-stretch font-style font-variant font-weight letter-spacing unicode-bidi word-spacing'),
    ((0, 0, 0), 'fill flood-color stop-color'), ((255, 255, 255), 'lighting-color'),
    (1.0, 'fill-opacity flood-opacity opacity stop-opacity stroke-opacity'),
    ('nonzero', 'clip-rule fill-rule'), ('baseline', 'baseline-shift'), ('sRGB', 'color-interpolation'), ('linearRGB', 'color-interpolation-filters'),
    ('ltr', 'direction'), ('inline', 'display'), ('accumulate', 'enable-background'), ('medium', 'font-size'), ('0deg', 'glyph-orientation-horizontal'),
    ([0], 'stroke-dashoffset'), ([4], 'stroke-miterlimit'), ([1], 'stroke-width'),
    ('butt', 'stroke-linecap'), ('miter', 'stroke-linejoin'), ('start', 'text-anchor'), ('visible', 'visibility'), ('lr-tb', 'writing-mode'),
]


def chars(s):
    return 'seq![%s]' % ', '.join("'\\u{%x}'" % ord(c) for c in s) if s else 'Seq::<char>::empty()'


def bytes_(s):
    return 'seq![%s]' % ', '.join('%dint' % c for c in s.encode()) if s else 'Seq::<int>::empty()'


def value_of(d):
    V = 'AttributeValue::'
    if d is None:
        return V + 'None'
    if isinstance(d, str):
        return V + 'String(%s)' % chars(d)
    if isinstance(d, tuple):
        return V + 'Color(svg_color(%d, %d, %d))' % d
    if isinstance(d, list):
        return V + 'Length(svg_length(f64c(%d), LU_None))' % (d[0] * 1000000)
    return V + 'Number(f64c(%d))' % int(d * 1000000)


def texts():
    t = ''
    opt = 'X_svgtypes_WriteOptions'
    for k in ('AspectRatio', 'Color', 'Length', 'LengthList', 'Angle', 'NumberList', 'Path', 'Points', 'Transform', 'ViewBox', 'F64'):
        t += 'pub uninterp spec fn text_of_%s(x: %s, opt: %s) -> Seq<int>;\n' % (k, 'F64' if k == 'F64' else 'X_svgtypes_' + k, opt)
    arms = ''
    for k in ('AspectRatio', 'Color', 'Length', 'LengthList', 'Angle', 'NumberList', 'Path', 'Points', 'Transform', 'ViewBox'):
        arms += '        AttributeValue::%s(x) => text_of_%s(x, opt),\n' % (k, k)
    t += '''pub open spec fn value_text(h: Heap, v: AttributeValue, opt: %s) -> Seq<int> {
    match v {
        AttributeValue::None => %s,
        AttributeValue::Inherit => %s,
        AttributeValue::CurrentColor => %s,
        AttributeValue::String(s) => utf8(s),
        AttributeValue::Number(x) => text_of_F64(x, opt),
        AttributeValue::Link(n) => %s + utf8(h.id[n]),
        AttributeValue::FuncLink(n) => %s + utf8(h.id[n]) + %s,
        AttributeValue::Paint(n, fb) => %s + utf8(h.id[n]) + %s + (match fb {
            None => Seq::<int>::empty(),
            Some(PaintFallback::None) => %s,
            Some(PaintFallback::CurrentColor) => %s,
            Some(PaintFallback::Color(c)) => %s + text_of_Color(c, opt),
        }),
%s    }
}
''' % (opt, bytes_('none'), bytes_('inherit'), bytes_('currentColor'), bytes_('#'), bytes_('url(#'), bytes_(')'), bytes_('url(#'), bytes_(')'),
       bytes_(' none'), bytes_(' currentColor'), bytes_(' '), arms)
    return t


def extra(gen):
    t = texts()
    t += 'pub open spec fn default_of(x: int) -> Option<AttributeValue> {\n'
    for d, l in DEFAULTS:
        t += '    if %s { Some(%s) } else\n' % (one_of('AID', 'x', l), value_of(d))
    t += '    { None }\n}\n'
    for c, l in EL_CATS.items():
        t += 'pub open spec fn el_%s(x: int) -> bool { %s }\n' % (c, one_of('EID', 'x', l))
    for c, l in AT_CATS.items():
        t += 'pub open spec fn at_%s(x: int) -> bool { %s }\n' % (c, one_of('AID', 'x', l))
    t += 'pub open spec fn at_non_inherited(x: int) -> bool { %s }\n' % one_of('AID', 'x', NON_INHERITED)
    return t


# conversions into a value, by the type converted from
FROM = {k: ('X_svgtypes_' + k, 'AttributeValue::%s(value)' % k) for k in 'AspectRatio Color Length LengthList Angle NumberList Path Points Transform ViewBox'.split()}
FROM.update({'f64': ('F64', 'AttributeValue::Number(value)'), 'String': ('Seq<char>', 'AttributeValue::String(value)'), 'str': ('Seq<char>', 'AttributeValue::String(value)'),
             'i32': ('int', 'AttributeValue::Number(f64_of_int(value))'), '(i32, LengthUnit)': ('(int, int)', 'AttributeValue::Length(svg_length(f64_of_int(value.0), value.1))'),
             '(f64, LengthUnit)': ('(F64, int)', 'AttributeValue::Length(svg_length(value.0, value.1))'),
             'PaintFallback': ('PaintFallback', 'match value { PaintFallback::None => AttributeValue::None, PaintFallback::CurrentColor => AttributeValue::CurrentColor, PaintFallback::Color(c) => AttributeValue::Color(c) }')})


def contracts():
    out = []
    S = [('shared', 'Some(self_)')]
    for c in EL_CATS:
        out.append(C('Node::is_' + c, 'self_: int', ret='bool', pure='h0.tag_name[self_] is Id && el_%s(h0.tag_name[self_]->Id_0)' % c, footprint=S))
    for c in AT_CATS:
        out.append(C('AttributeId::is_' + c, 'self_: int', ret='bool', pure='at_%s(self_)' % c, footprint=[]))
        out.append(C('Attribute::is_' + c, 'self_: Attribute', ret='bool', pure='self_.name is Id && at_%s(self_.name->Id_0)' % c, footprint=[]))
    for k, v in KINDS.items():
        out.append(C('AttributeValue::is_' + k, 'self_: AttributeValue', ret='bool', pure='self_ is ' + v, footprint=[]))
        if k != 'angle':
            out.append(C('Attribute::is_' + k, 'self_: Attribute', ret='bool', pure='self_.value is ' + v, footprint=[]))
    for t, (sp, v) in FROM.items():
        out.append(C('AttributeValue::from(%s)' % t, 'value: ' + sp, ret='AttributeValue', pure=v, footprint=[]))
    out.append(C('AttributeValue::default_value', 'id: int', ret='Option<AttributeValue>', pure='default_of(id)', footprint=[]))
    out.append(C('Attribute::new_default', 'id: int', ret='Option<Attribute>', pure='match default_of(id) { Some(v) => Some(attr_of(QName::Id(id), v)), None => None }', footprint=[]))
    out.append(C('AttributeValue::write_buf_opt', 'self_: AttributeValue, opt: X_svgtypes_WriteOptions, buf: mut Seq<int>', ensures=['new_buf =~= buf + value_text(h0, self_, opt)'],
                 footprint=[('shared', 'target(self_)')]))
    return {c.key: c for c in out}
