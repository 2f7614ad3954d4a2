"""Contracts for src/parser/mod.rs.

value_spec is written from the SVG 1.1 attribute definitions and the crate's documentation: what kind of value an attribute of an element gets.
svgtypes' parsers are uninterpreted functions of the text (ext_length_of, ...)."""
from vc import Contract as C, Loop
from contracts_tables import one_of, chars
import contracts_names

V = 'AttributeValue::'


def kw(*ks):
    """leading keyword cases"""
    m = {'none': V + 'None', 'inherit': V + 'Inherit', 'currentColor': V + 'CurrentColor'}
    return ''.join('if v == %s { Parsed::Is(%s) } else ' % (chars(k), m[k]) for k in ks)


def st(*ks):
    """keywords kept as strings"""
    return ''.join('if v == %s { Parsed::Is(%sString(v)) } else ' % (chars(k), V) for k in ks)


def typed(fn, variant):
    return '{ match ext_%s(v) { Ok(x) => Parsed::Is(%s%s(x)), Err(_) => Parsed::Invalid } }' % (fn, V, variant)


LEN, LLIST, COLOR = typed('length_of', 'Length'), typed('length_list_of', 'LengthList'), typed('color_of', 'Color')
ANGLE, STR = typed('angle_of', 'Angle'), '{ Parsed::Is(%sString(v)) }' % V
NUM = '{ match number_of(v) { Some(x) => Parsed::Is(%sNumber(x)), None => Parsed::Invalid } }' % V
UNIT_NUM = '{ match number_of(v) { Some(x) => Parsed::Is(%sNumber(f64_clamp(f64c(0), x, f64c(1000000)))), None => Parsed::Invalid } }' % V
PAINT = '''{ match ext_paint_of(v) {
            Err(_) => Parsed::Invalid,
            Ok(Paint::None) => Parsed::Is(AttributeValue::None),
            Ok(Paint::Inherit) => Parsed::Is(AttributeValue::Inherit),
            Ok(Paint::CurrentColor) => Parsed::Is(AttributeValue::CurrentColor),
            Ok(Paint::Color(c)) => Parsed::Is(AttributeValue::Color(c)),
            Ok(Paint::FuncIRI(iri, fb)) => Parsed::Ref(iri, fb),
        } }'''
ROWS = [
    ('href', '{ match stream_parse_iri(ext_stream(v)) { Ok(iri) => Parsed::Ref(iri, None), Err(_) => Parsed::Is(AttributeValue::String(v)) } }'),
    ('x y dx dy', 'if %s %s else %s' % (one_of('EID', 'eid', 'altGlyph text tref tspan'), LLIST, LEN)),
    ('x1 y1 x2 y2 r rx ry cx cy fx fy refX refY width height markerWidth markerHeight startOffset', LEN),
    ('offset', '{ match ext_length_of(v) { Ok(x) => if x.unit == LU_None || x.unit == LU_Percent { Parsed::Is(AttributeValue::Length(x)) } else { Parsed::Invalid }, Err(_) => Parsed::Invalid } }'),
    ('stroke-dashoffset stroke-width', kw('inherit') + LEN),
    ('stroke-miterlimit', kw('inherit') + NUM),
    ('opacity fill-opacity flood-opacity stroke-opacity stop-opacity', kw('inherit') + UNIT_NUM),
    ('k1 k2 k3 k4', UNIT_NUM),
    ('stroke-dasharray', kw('none', 'inherit') + LLIST),
    ('fill', 'if %s %s else %s' % (one_of('EID', 'eid', 'set animate animateColor animateMotion animateTransform'), STR, PAINT)),
    ('stroke', PAINT),
    ('clip-path filter marker marker-end marker-mid marker-start mask', kw('none', 'inherit') + '{ match stream_parse_func_iri(ext_stream(v)) { Ok(iri) => Parsed::Ref(iri, None), Err(_) => Parsed::Invalid } }'),
    ('color', kw('inherit') + COLOR),
    ('lighting-color flood-color stop-color', kw('inherit', 'currentColor') + COLOR),
    ('stdDeviation baseFrequency rotate', typed('number_list_of', 'NumberList')),
    ('points', typed('points_of', 'Points')),
    ('d', '{ Parsed::Is(AttributeValue::Path(X_svgtypes_Path { v: path_of(path_tokens(v)) })) }'),
    ('transform gradientTransform patternTransform', '{ match ext_transform_of(v) { Ok(x) => if ext_transform_is_default(x) { Parsed::Cleared } else { Parsed::Is(AttributeValue::Transform(x)) }, Err(_) => Parsed::Invalid } }'),
    ('font-size', '{ match ext_length_of(v) { Ok(x) => Parsed::Is(AttributeValue::Length(x)), Err(_) => %s%s } }' % (kw('inherit'), STR)),
    ('font-size-adjust', kw('none', 'inherit') + NUM),
    ('display pointer-events text-decoration', kw('none', 'inherit') + STR),
    ('''clip-rule color-interpolation color-interpolation-filters color-profile color-rendering direction dominant-baseline enable-background fill-rule
        font-family font-stretch font-style font-variant font-weight image-rendering kerning overflow shape-rendering stroke-linecap stroke-linejoin
        text-anchor text-rendering unicode-bidi visibility writing-mode''', kw('inherit') + STR),
    ('letter-spacing word-spacing', kw('inherit') + st('normal') + LEN),
    ('baseline-shift', kw('inherit') + st('baseline', 'sub', 'super') + LEN),
    ('orient', st('auto') + ANGLE),
    ('glyph-orientation-horizontal', kw('inherit') + ANGLE),
    ('glyph-orientation-vertical', kw('inherit') + st('auto') + ANGLE),
    ('viewBox', typed('viewbox_of', 'ViewBox')),
    ('preserveAspectRatio', typed('aspect_of', 'AspectRatio')),
]
EXTS = [('length_of', 'X_svgtypes_Length'), ('length_list_of', 'X_svgtypes_LengthList'), ('color_of', 'X_svgtypes_Color'), ('number_list_of', 'X_svgtypes_NumberList'),
        ('points_of', 'X_svgtypes_Points'), ('transform_of', 'X_svgtypes_Transform'), ('angle_of', 'X_svgtypes_Angle'), ('viewbox_of', 'X_svgtypes_ViewBox'),
        ('aspect_of', 'X_svgtypes_AspectRatio'), ('paint_of', 'Paint')]


def extra(gen):
    t = ''
    for n, s in EXTS:
        t += 'pub uninterp spec fn ext_%s(v: Seq<char>) -> Result<%s, X_svgtypes_Error>;\n' % (n, s)
    t += '''pub uninterp spec fn ext_transform_is_default(x: X_svgtypes_Transform) -> bool;
pub uninterp spec fn ext_stream(v: Seq<char>) -> X_Stream;
pub uninterp spec fn stream_parse_iri(s: X_Stream) -> Result<Seq<char>, X_svgtypes_Error>;
pub uninterp spec fn stream_parse_func_iri(s: X_Stream) -> Result<Seq<char>, X_svgtypes_Error>;
pub uninterp spec fn stream_parse_number(s: X_Stream) -> Result<F64, X_svgtypes_Error>;
pub uninterp spec fn stream_after_parse_number(s: X_Stream) -> X_Stream;
pub uninterp spec fn stream_at_end(s: X_Stream) -> bool;
pub uninterp spec fn path_tokens(v: Seq<char>) -> Seq<Result<X_PathSegment, X_svgtypes_Error>>;
'''
    t += 'pub open spec fn aid_count() -> int { %d }\n' % len(contracts_names.KIND['AttributeId'].split())
    t += 'pub open spec fn value_spec(aid: int, eid: int, raw: Seq<char>) -> Parsed {\n    let v = if aid == AID_Unicode { raw } else { str_trim(raw) };\n'
    for names, rule in ROWS:
        t += '    if %s { %s } else\n' % (one_of('AID', 'aid', names), rule)
    t += '    { Parsed::Is(AttributeValue::String(v)) }\n}\n'
    return t


def contracts():
    out = []
    P = 'ro_doc: X_roxmltree_Document, %s: int, value: Seq<char>, value_pos: int, node: mut int, links: mut SLinks'
    req = ['lk(h0)', 'h0.node_type[node] == NT_Element', 'h0.tag_name[node] is Id', 'pend_ok(links.list, node)']
    out.append(C('Links::remove', 'self_: mut SLinks, id: int, node: int', requires=['pend_ok(self_.list, node)'], footprint=[],
                 ensures=['new_self_.list =~= unpend(self_.list, node, id)'], exit=['lemma_unpend(self_.list, node, id);']))
    out.append(C('Links::append', 'self_: mut SLinks, id: int, iri: Seq<char>, fallback: Option<PaintFallback>, node: int', requires=['pend_ok(self_.list, node)'], footprint=[],
                 ensures=['new_self_.list =~= unpend(self_.list, node, id).push(PLink { attr_id: id, iri: iri, fallback: fallback, node: node })']))
    out.append(C('f64_bound', 'min: F64, val: F64, max: F64', ret='F64', requires=[], pure='f64_clamp(min, val, max)', footprint=[]))
    out.append(C('parse_number', 'value: Seq<char>', ret='Result<F64, X_svgtypes_Error>', footprint=[],
                 ensures=['match number_of(value) { Some(x) => ret == Ok::<F64, X_svgtypes_Error>(x), None => ret is Err }']))
    spec = 'value_spec(aid, h0.tag_name[node]->Id_0, value)'
    out.append(C('_parse_svg_attribute_value', P % 'aid', ret='Result<Option<AttributeValue>, X_svgtypes_Error>', heap=True, footprint='all_mut', requires=req,
                 ensures=['%s is Invalid ==> ret is Err && h == h0 && new_links.list == links.list' % spec,
                          '%s is Is ==> ret == Ok::<Option<AttributeValue>, X_svgtypes_Error>(Some(%s->Is_0)) && h == h0 && new_links.list == links.list' % (spec, spec),
                          '%s is Ref ==> ret == Ok::<Option<AttributeValue>, X_svgtypes_Error>(None) && h == h0 && new_links.list == pended(links.list, node, aid, %s->Ref_0, %s->Ref_1)' % (spec, spec, spec),
                          '%s is Cleared ==> ret == Ok::<Option<AttributeValue>, X_svgtypes_Error>(None) && unset(h0, h, node, QName::Id(aid)) && new_links.list == links.list' % spec,
                          'lk(h)', 'new_node == node'],
                 loops={0: Loop(['oks(it0_s, it0_i, data)'])},
                 split='aid', entry=['axiom_f64_order();'], exit=['lemma_oks();']))
    out.append(C('parse_svg_attribute_value', P % 'id', ret='Result<(), ParserError>', heap=True, footprint='all_mut', requires=req,
                 ensures=['ret is Ok', 'declared(h0, links.list, h, new_links.list, node, id, value_spec(id, h0.tag_name[node]->Id_0, value))', 'lk(h)', 'new_node == node', 'pend_ok(new_links.list, node)'],
                 exit=['lemma_pend_ok(links.list, node, id);', 'lemma_parsed_no_link(id, h0.tag_name[node]->Id_0, value);']))
    # ---- the cascade
    creq = req + ['plain(h0.attributes[node])']
    cens = ['ret is Ok', 'ran(h0, links.list, h, new_links.list, node, %s)', 'lk(h)', 'plain(h.attributes[node])', 'new_node == node', 'pend_ok(new_links.list, node)']
    one = {'parse_svg_attribute_value': ('pv', [], [
        'lemma_ran_one(pv_h0, pv_links.list, pv_h, pv_new_links.list, pv_node, pv_id, pv_value);',
        'lemma_ran_join(acc_h, acc_l, pv_h0, pv_links.list, pv_h, pv_new_links.list, pv_node, acc, seq![Decl { aid: pv_id, value: pv_value }]);',
        'let acc = acc + seq![Decl { aid: pv_id, value: pv_value }];'])}
    acc = ['let node0 = node;', 'let acc = Seq::<Decl>::empty();', 'let acc_h = h0;', 'let acc_l = links.list;', 'lemma_ran_start(h0, links.list, node);']
    out.append(C('parse_css_attribute_value', 'ro_doc: X_roxmltree_Document, name: Seq<char>, value: Seq<char>, node: mut int, links: mut SLinks', ret='Result<(), ParserError>', heap=True, footprint='all_mut',
                 requires=creq, ensures=[e.replace('%s', 'css_decls(name, value)') for e in cens], marks=one, entry=acc,
                 exit=['assert(acc =~= css_decls(name, value));']))
    out.append(C('parse_style_attribute', 'ro_doc: X_roxmltree_Document, value: Seq<char>, value_pos: int, node: mut int, links: mut SLinks', ret='Result<(), ParserError>', heap=True, footprint='all_mut',
                 requires=creq, ensures=[e.replace('%s', 'style_decls(css_tokens(value))') for e in cens], marks=one, entry=acc,
                 loops={0: Loop(['node == node0', 'it0_s == css_tokens(value)', 'ran(h0, links.list, h, links_list, node, style_decls(it0_s.take(it0_i)))', 'lk(h)', 'plain(h.attributes[node])', 'pend_ok(links_list, node)'],
                                skolem=[('acc_h', 'h'), ('acc_l', 'links_list'), ('acc', 'Seq::<Decl>::empty()')],
                                entry_hints=['assert(css_tokens(value).take(0) =~= Seq::<X_Declaration>::empty());'], body_hints=['lemma_ran_start(acc_h, acc_l, node0);'],
                                back_hints=['lemma_style_next(it0_s, it0_i - 1); assert(acc =~= inline_decls(it0_s[it0_i - 1].name, it0_s[it0_i - 1].value)); lemma_ran_join(h0, links.list, acc_h, acc_l, h, links_list, node, style_decls(it0_s.take(it0_i - 1)), acc);'])},
                 exit=['assert(css_tokens(value).take(css_tokens(value).len() as int) =~= css_tokens(value));']))
    out.append(C('parse_svg_attribute', P % 'id', ret='Result<(), ParserError>', heap=True, footprint='all_mut', requires=creq,
                 ensures=['ret is Ok', 'id == AID_Id ==> h == (Heap { id: h0.id.insert(node, value), ..h0 }) && new_links.list == links.list',
                          'id != AID_Id ==> ran(h0, links.list, h, new_links.list, node, plain_decls(id, value))', 'lk(h)', 'plain(h.attributes[node])', 'new_node == node', 'pend_ok(new_links.list, node)'],
                 entry=acc, marks=one,
                 exit=['if id == AID_Id { lemma_lk_id(h0, h); }', 'if id != AID_Id { assert(acc =~= plain_decls(id, value)); }']))
    return {c.key: c for c in out}
