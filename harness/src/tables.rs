//! C13 names, C14 categories, C15 default values, C16 value serialization.

use std::str::FromStr;
use svgdom::*;
use svgdom::{AttributeId as A, ElementId as E};

use crate::names_table::{ATTRIBUTES, ELEMENTS};
use crate::util::*;

#[derive(Clone)]
pub struct TableCase { pub s: String }

impl Case for TableCase {
    const KIND: &'static str = "table";
    fn encode(&self) -> String { self.s.clone() }
    fn decode(s: &str) -> Self { TableCase { s: s.to_string() } }
    fn check(&self, _p: &str) -> Result<(), String> {
        let (k, rest) = match self.s.find(' ') { Some(i) => (&self.s[..i], &self.s[i + 1..]), None => (&self.s[..], "") };
        match k {
            "elem" => elem(rest),
            "attr" => attr(rest),
            "foreign" => foreign(rest),
            "elem-cat" => elem_cat(rest),
            "attr-cat" => attr_cat(rest),
            "default" => default(rest),
            "value" => value(rest.parse().unwrap_or(0)),
            _ => Ok(()),
        }
    }
    fn shrinks(&self) -> Vec<Self> {
        if !self.s.starts_with("foreign ") { return vec![]; }
        let t: Vec<char> = self.s[8..].chars().collect();
        (0..t.len()).map(|i| { let mut u = t.clone(); u.remove(i); TableCase { s: format!("foreign {}", u.into_iter().collect::<String>()) } }).collect()
    }
}

fn elem(n: &str) -> Result<(), String> {
    let id = ELEMENTS.iter().find(|x| x.0 == n).unwrap().1;
    if E::from_str(n) != Some(id) { return Err(format!("element name {:?} converts to {:?}", n, E::from_str(n))); }
    if id.as_str() != n { return Err(format!("element id of {:?} has the text {:?}", n, id.as_str())); }
    if format!("{}", id) != n { return Err(format!("element id of {:?} displays as {:?}", n, format!("{}", id))); }
    if SvgId::name(&id) != n { return Err(format!("element id of {:?} has the name {:?}", n, SvgId::name(&id))); }
    Ok(())
}

fn attr(n: &str) -> Result<(), String> {
    let id = ATTRIBUTES.iter().find(|x| x.0 == n).unwrap().1;
    if A::from_str(n) != Some(id) { return Err(format!("attribute name {:?} converts to {:?}", n, A::from_str(n))); }
    if id.as_str() != n { return Err(format!("attribute id of {:?} has the text {:?}", n, id.as_str())); }
    if format!("{}", id) != n { return Err(format!("attribute id of {:?} displays as {:?}", n, format!("{}", id))); }
    if SvgId::name(&id) != n { return Err(format!("attribute id of {:?} has the name {:?}", n, SvgId::name(&id))); }
    Ok(())
}

fn foreign(s: &str) -> Result<(), String> {
    let e = ELEMENTS.iter().find(|x| x.0 == s).map(|x| x.1);
    let a = ATTRIBUTES.iter().find(|x| x.0 == s).map(|x| x.1);
    if E::from_str(s) != e { return Err(format!("the string {:?} converts to the element id {:?}", s, E::from_str(s))); }
    if A::from_str(s) != a { return Err(format!("the string {:?} converts to the attribute id {:?}", s, A::from_str(s))); }
    Ok(())
}

fn inlist(n: &str, l: &str) -> bool { l.split_whitespace().any(|x| x == n) }

const EL_CATS: &[(&str, fn(&Node) -> bool, &str)] = &[
    ("referenced", |n| n.is_referenced(), "altGlyphDef clipPath cursor filter linearGradient marker mask pattern radialGradient symbol"),
    ("basic_shape", |n| n.is_basic_shape(), "rect circle ellipse line polyline polygon"),
    ("shape", |n| n.is_shape(), "path rect circle ellipse line polyline polygon"),
    ("container", |n| n.is_container(), "a defs glyph g marker mask missing-glyph pattern svg switch symbol"),
    ("text_content", |n| n.is_text_content(), "altGlyph textPath text tref tspan"),
    ("text_content_child", |n| n.is_text_content_child(), "altGlyph textPath tref tspan"),
    ("graphic", |n| n.is_graphic(), "circle ellipse image line path polygon polyline rect text use"),
    ("gradient", |n| n.is_gradient(), "linearGradient radialGradient"),
    ("paint_server", |n| n.is_paint_server(), "linearGradient radialGradient pattern"),
    ("filter_primitive", |n| n.is_filter_primitive(), "feBlend feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting feDisplacementMap feFlood feGaussianBlur feImage feMerge feMorphology feOffset feSpecularLighting feTile feTurbulence"),
];

fn elem_cat(n: &str) -> Result<(), String> {
    let mut doc = Document::new();
    if n.starts_with('!') {
        // every non-SVG node must answer false
        let mut e = doc.create_element(E::Rect);
        let name = if n.len() > 1 { &n[1..] } else { "custom" };
        e.set_tag_name(name);
        let nodes = vec![doc.root(), doc.create_element(name), doc.create_node(NodeType::Text, name), doc.create_node(NodeType::Comment, name), e];
        for x in &nodes {
            for (c, f, _) in EL_CATS {
                if f(x) { return Err(format!("a {:?} node (name {:?}) is reported as {}", x.node_type(), name, c)); }
            }
        }
        return Ok(());
    }
    let id = ELEMENTS.iter().find(|x| x.0 == n).unwrap().1;
    let e = doc.create_element(id);
    for (c, f, l) in EL_CATS {
        if f(&e) != inlist(n, l) { return Err(format!("element {} is_{} = {}", n, c, f(&e))); }
    }
    if e.tag_id() != Some(id) || !e.is_svg_element() || !e.has_tag_name(id) { return Err(format!("element {} tag queries", n)); }
    Ok(())
}

const PRESENTATION: &str = "alignment-baseline baseline-shift clip clip-path clip-rule color color-interpolation color-interpolation-filters color-profile color-rendering cursor direction display dominant-baseline enable-background fill fill-opacity fill-rule filter flood-color flood-opacity font font-family font-size font-size-adjust font-stretch font-style font-variant font-weight glyph-orientation-horizontal glyph-orientation-vertical image-rendering kerning letter-spacing lighting-color marker marker-end marker-mid marker-start mask opacity overflow pointer-events shape-rendering stop-color stop-opacity stroke stroke-dasharray stroke-dashoffset stroke-linecap stroke-linejoin stroke-miterlimit stroke-opacity stroke-width text-anchor text-decoration text-rendering unicode-bidi visibility word-spacing writing-mode";
const NON_INHERITED: &str = "alignment-baseline baseline-shift clip clip-path display dominant-baseline enable-background filter flood-color flood-opacity lighting-color mask opacity overflow stop-color stop-opacity text-decoration unicode-bidi visibility";

pub fn is_presentation(n: &str) -> bool { inlist(n, PRESENTATION) }

fn attr_cat(n: &str) -> Result<(), String> {
    let id = ATTRIBUTES.iter().find(|x| x.0 == n).unwrap().1;
    let svg = Attribute::new(id, 1.0);
    let custom = Attribute::new(n, 1.0);
    let pres = inlist(n, PRESENTATION);
    let cats: Vec<(&str, bool, bool, bool, bool)> = vec![
        ("presentation", pres, id.is_presentation(), svg.is_presentation(), custom.is_presentation()),
        ("inheritable", pres && !inlist(n, NON_INHERITED), id.is_inheritable(), svg.is_inheritable(), custom.is_inheritable()),
        ("animation_event", inlist(n, "onbegin onend onload onrepeat"), id.is_animation_event(), svg.is_animation_event(), custom.is_animation_event()),
        ("graphical_event", inlist(n, "onactivate onclick onfocusin onfocusout onload onmousedown onmousemove onmouseout onmouseover onmouseup"), id.is_graphical_event(), svg.is_graphical_event(), custom.is_graphical_event()),
        ("document_event", inlist(n, "onabort onerror onresize onscroll onunload onzoom"), id.is_document_event(), svg.is_document_event(), custom.is_document_event()),
        ("conditional_processing", inlist(n, "requiredExtensions requiredFeatures systemLanguage"), id.is_conditional_processing(), svg.is_conditional_processing(), custom.is_conditional_processing()),
        ("core", inlist(n, "base lang space"), id.is_core(), svg.is_core(), custom.is_core()),
        ("fill", inlist(n, "fill fill-opacity fill-rule"), id.is_fill(), svg.is_fill(), custom.is_fill()),
        ("stroke", inlist(n, "stroke stroke-dasharray stroke-dashoffset stroke-linecap stroke-linejoin stroke-miterlimit stroke-opacity stroke-width"), id.is_stroke(), svg.is_stroke(), custom.is_stroke()),
    ];
    for (c, exp, a, b, d) in cats {
        if a != exp { return Err(format!("attribute id {} is_{} = {}", n, c, a)); }
        if b != exp { return Err(format!("attribute {} is_{} = {}", n, c, b)); }
        if d { return Err(format!("a custom attribute named {} is_{}", n, c)); }
    }
    if svg.id() != Some(id) || !svg.is_svg() || !svg.has_id(id) || custom.id().is_some() || custom.is_svg() || custom.has_id(id) {
        return Err(format!("attribute {} id queries", n));
    }
    Ok(())
}

pub fn default_table(n: &str) -> Option<AttributeValue> {
    let s = |t: &str| Some(AttributeValue::String(t.to_string()));
    let len = |v: f64| Some(AttributeValue::Length(Length::new(v, LengthUnit::None)));
    if inlist(n, "alignment-baseline clip color-profile color-rendering cursor dominant-baseline glyph-orientation-vertical image-rendering kerning shape-rendering text-rendering") { return s("auto"); }
    if inlist(n, "clip-path filter font-size-adjust marker marker-end marker-mid marker-start mask stroke stroke-dasharray text-decoration") { return Some(AttributeValue::None); }
    if inlist(n, "font-stretch font-style font-variant font-weight letter-spacing unicode-bidi word-spacing") { return s("normal"); }
    if inlist(n, "fill flood-color stop-color") { return Some(AttributeValue::Color(Color::new(0, 0, 0))); }
    if inlist(n, "fill-opacity flood-opacity opacity stop-opacity stroke-opacity") { return Some(AttributeValue::Number(1.0)); }
    if inlist(n, "clip-rule fill-rule") { return s("nonzero"); }
    match n {
        "baseline-shift" => s("baseline"),
        "color-interpolation" => s("sRGB"),
        "color-interpolation-filters" => s("linearRGB"),
        "direction" => s("ltr"),
        "display" => s("inline"),
        "enable-background" => s("accumulate"),
        "font-size" => s("medium"),
        "glyph-orientation-horizontal" => s("0deg"),
        "lighting-color" => Some(AttributeValue::Color(Color::new(255, 255, 255))),
        "stroke-dashoffset" => len(0.0),
        "stroke-linecap" => s("butt"),
        "stroke-linejoin" => s("miter"),
        "stroke-miterlimit" => len(4.0),
        "stroke-width" => len(1.0),
        "text-anchor" => s("start"),
        "visibility" => s("visible"),
        "writing-mode" => s("lr-tb"),
        _ => None,
    }
}

fn default(n: &str) -> Result<(), String> {
    let id = ATTRIBUTES.iter().find(|x| x.0 == n).unwrap().1;
    let exp = default_table(n);
    let got = AttributeValue::default_value(id);
    if got != exp { return Err(format!("default value of {} is {:?}, expected {:?}", n, got, exp)); }
    match (Attribute::new_default(id), exp) {
        (None, None) => Ok(()),
        (Some(a), Some(v)) if a.name == QName::Id(id) && a.value == v => Ok(()),
        (a, _) => Err(format!("default attribute of {} is {:?}", n, a)),
    }
}

/// A deterministic family of values: `k` selects the kind and the payload.
fn value(seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let mut doc = Document::new();
    let mut node = doc.create_element(E::LinearGradient);
    let idc: String = (0..1 + r.below(6)).map(|_| *r.pick(&['a', 'Z', '0', '-', '_', ' ', ')', '#', 'é', '中', '"'])).collect();
    node.set_id(idc.clone());
    let mut opt = WriteOptions::default().values;
    opt.trim_hex_colors = r.chance(1, 2);
    opt.remove_leading_zero = r.chance(1, 2);
    opt.use_compact_path_notation = r.chance(1, 2);
    opt.join_arc_to_flags = r.chance(1, 2);
    opt.remove_duplicated_path_commands = r.chance(1, 2);
    opt.use_implicit_lineto_commands = r.chance(1, 2);
    opt.simplify_transform_matrices = r.chance(1, 2);
    opt.list_separator = match r.below(3) { 0 => ListSeparator::Space, 1 => ListSeparator::Comma, _ => ListSeparator::CommaSpace };
    let color = Color::new(r.below(256) as u8, r.below(256) as u8, r.below(256) as u8);
    let num = (r.below(20001) as f64 - 10000.0) / 16.0;
    let sub = |v: &dyn WriteBuffer| { let mut b = Vec::new(); v.write_buf_opt(&opt, &mut b); b };
    let lists = "1 2.5,3 -4";
    let kind = r.below(19);
    let (v, exp): (AttributeValue, Vec<u8>) = match kind {
        0 => (AttributeValue::None, b"none".to_vec()),
        1 => (AttributeValue::Inherit, b"inherit".to_vec()),
        2 => (AttributeValue::CurrentColor, b"currentColor".to_vec()),
        3 => { let x = AspectRatio::from_str("xMinYMax slice").unwrap(); (AttributeValue::AspectRatio(x), sub(&x)) }
        4 => (AttributeValue::Color(color), sub(&color)),
        5 => (AttributeValue::FuncLink(node.clone()), format!("url(#{})", idc).into_bytes()),
        6 => (AttributeValue::Paint(node.clone(), None), format!("url(#{})", idc).into_bytes()),
        7 => (AttributeValue::Paint(node.clone(), Some(PaintFallback::None)), format!("url(#{}) none", idc).into_bytes()),
        8 => (AttributeValue::Paint(node.clone(), Some(PaintFallback::CurrentColor)), format!("url(#{}) currentColor", idc).into_bytes()),
        9 => { let mut e = format!("url(#{}) ", idc).into_bytes(); e.extend(sub(&color)); (AttributeValue::Paint(node.clone(), Some(PaintFallback::Color(color))), e) }
        10 => { let l = Length::new(num, *r.pick(&[LengthUnit::None, LengthUnit::Em, LengthUnit::Ex, LengthUnit::Px, LengthUnit::In, LengthUnit::Cm, LengthUnit::Mm, LengthUnit::Pt, LengthUnit::Pc, LengthUnit::Percent])); (AttributeValue::Length(l), sub(&l)) }
        11 => { let l = LengthList::from_str(lists).unwrap(); let e = sub(&l.0); (AttributeValue::LengthList(l), e) }
        12 => { let a = Angle::new(num, AngleUnit::Degrees); (AttributeValue::Angle(a), sub(&a)) }
        13 => (AttributeValue::Link(node.clone()), format!("#{}", idc).into_bytes()),
        14 => (AttributeValue::Number(num), sub(&num)),
        15 => match r.below(3) {
            0 => { let l = NumberList::from_str(lists).unwrap(); let e = sub(&l.0); (AttributeValue::NumberList(l), e) }
            1 => { let l = Points::from_str(lists).unwrap(); let e = sub(&l.0); (AttributeValue::Points(l), e) }
            _ => { let l = Path::from_str("M 10 20 L 30 40 A 1 2 3 0 1 4 5 Z").unwrap(); let e = sub(&l); (AttributeValue::Path(l), e) }
        },
        16 => { let t = Transform::new(1.0, 0.5, num, 2.0, 3.0, 4.0); (AttributeValue::Transform(t), sub(&t)) }
        17 => { let vb = ViewBox::new(1.0, 2.0, 3.5, 4.0); (AttributeValue::ViewBox(vb), sub(&vb)) }
        _ => (AttributeValue::String(idc.clone()), idc.clone().into_bytes()),
    };
    // conversions into a value keep the kind and the payload
    let conv = match v.clone() {
        AttributeValue::AspectRatio(x) => Some(AttributeValue::from(x)), AttributeValue::Color(x) => Some(AttributeValue::from(x)),
        AttributeValue::Length(x) => Some(AttributeValue::from(x)), AttributeValue::LengthList(x) => Some(AttributeValue::from(x)),
        AttributeValue::Angle(x) => Some(AttributeValue::from(x)), AttributeValue::Number(x) => Some(AttributeValue::from(x)),
        AttributeValue::NumberList(x) => Some(AttributeValue::from(x)), AttributeValue::Path(x) => Some(AttributeValue::from(x)),
        AttributeValue::Points(x) => Some(AttributeValue::from(x)), AttributeValue::String(x) => Some(AttributeValue::from(x)),
        AttributeValue::Transform(x) => Some(AttributeValue::from(x)), AttributeValue::ViewBox(x) => Some(AttributeValue::from(x)),
        AttributeValue::Paint(_, Some(f)) => match (f.clone(), AttributeValue::from(f)) {
            (PaintFallback::None, AttributeValue::None) | (PaintFallback::CurrentColor, AttributeValue::CurrentColor) => None,
            (PaintFallback::Color(a), AttributeValue::Color(b)) if a == b => None,
            (f, w) => return Err(format!("the fallback {:?} becomes {:?}", f, w)),
        },
        _ => None,
    };
    if let Some(w) = conv { if w != v || format!("{:?}", w) != format!("{:?}", v) { return Err(format!("converting the payload of {:?} gives {:?}", v, w)); } }
    if let AttributeValue::String(ref x) = v { if AttributeValue::from(x.as_str()) != v { return Err(format!("converting {:?} from a slice", x)); } }
    let int = match r.below(4) { 0 => 0, 1 => i32::min_value(), 2 => i32::max_value(), _ => r.next() as i32 };
    match AttributeValue::from(int) { AttributeValue::Number(x) if x == int as f64 => {}, w => return Err(format!("the integer {} becomes {:?}", int, w)) }
    for u in &[LengthUnit::None, LengthUnit::Em, LengthUnit::Mm, LengthUnit::Percent] {
        match AttributeValue::from((int, *u)) { AttributeValue::Length(l) if l.num == int as f64 && l.unit == *u => {}, w => return Err(format!("({}, {:?}) becomes {:?}", int, u, w)) }
        match AttributeValue::from((num, *u)) { AttributeValue::Length(l) if l.num == num && l.unit == *u => {}, w => return Err(format!("({}, {:?}) becomes {:?}", num, u, w)) }
    }
    let prefix: Vec<u8> = (0..r.below(5)).map(|_| *r.pick(b"ab #(")).collect();
    let mut buf = prefix.clone();
    v.write_buf_opt(&opt, &mut buf);
    let mut full = prefix.clone();
    full.extend(&exp);
    if buf != full { return Err(format!("{:?} is written as {:?}, expected {:?}", kind, String::from_utf8_lossy(&buf), String::from_utf8_lossy(&full))); }
    // display uses the default write options
    let mut dflt = Vec::new();
    v.write_buf_opt(&WriteOptions::default().values, &mut dflt);
    let shown = format!("{}", v);
    let dopt = ValueWriteOptions::default();
    let mut d2 = Vec::new();
    v.write_buf_opt(&dopt, &mut d2);
    if shown.as_bytes() != &d2[..] { return Err(format!("value displays as {:?}", shown)); }
    // kind tests
    let d = match v {
        AttributeValue::None => 0, AttributeValue::Inherit => 1, AttributeValue::CurrentColor => 2, AttributeValue::AspectRatio(_) => 3,
        AttributeValue::Color(_) => 4, AttributeValue::Length(_) => 5, AttributeValue::LengthList(_) => 6, AttributeValue::Angle(_) => 7,
        AttributeValue::Link(_) => 8, AttributeValue::FuncLink(_) => 9, AttributeValue::Paint(..) => 10, AttributeValue::Number(_) => 11,
        AttributeValue::NumberList(_) => 12, AttributeValue::Path(_) => 13, AttributeValue::Points(_) => 14, AttributeValue::String(_) => 15,
        AttributeValue::Transform(_) => 16, AttributeValue::ViewBox(_) => 17,
    };
    let t = [v.is_none(), v.is_inherit(), v.is_current_color(), v.is_aspect_ratio(), v.is_color(), v.is_length(), v.is_length_list(), v.is_angle(),
        v.is_link(), v.is_func_link(), v.is_paint(), v.is_number(), v.is_number_list(), v.is_path(), v.is_points(), v.is_string(), v.is_transform(), v.is_viewbox()];
    for (i, &b) in t.iter().enumerate() { if b != (i == d) { return Err(format!("kind test {} of a value of kind {} is {}", i, d, b)); } }
    if v.is_link_container() != (d == 8 || d == 9 || d == 10) { return Err(format!("link container test of a value of kind {}", d)); }
    let a = Attribute::new(A::X, v.clone());
    let t2 = [a.is_none(), a.is_inherit(), a.is_current_color(), a.is_aspect_ratio(), a.is_color(), a.is_length(), a.is_length_list(), d == 7,
        a.is_link(), a.is_func_link(), a.is_paint(), a.is_number(), a.is_number_list(), a.is_path(), a.is_points(), a.is_string(), a.is_transform(), a.is_viewbox()];
    for (i, &b) in t2.iter().enumerate() { if b != (i == d) { return Err(format!("attribute kind test {} of a value of kind {} is {}", i, d, b)); } }
    if a.is_link_container() != (d == 8 || d == 9 || d == 10) { return Err(format!("attribute link container test of a value of kind {}", d)); }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let c = |s: String| TableCase { s };
    match ctx.prop.as_str() {
        "C13" => {
            for (n, _) in ELEMENTS { if !ctx.case(&c(format!("elem {}", n))) { return; } }
            for (n, _) in ATTRIBUTES { if !ctx.case(&c(format!("attr {}", n))) { return; } }
            for (n, _) in ELEMENTS.iter() { if !ctx.case(&c(format!("foreign {}", n))) { return; } }
            for (n, _) in ATTRIBUTES.iter() { if !ctx.case(&c(format!("foreign {}", n))) { return; } }
            ctx.exhaustive_parts.push("all 80 element ids and 270 attribute ids, both directions".into());
            while ctx.more() {
                for _ in 0..200 {
                    let r = &mut ctx.rng;
                    let base = if r.chance(1, 2) { r.pick(ELEMENTS).0 } else { r.pick(ATTRIBUTES).0 };
                    let mut v: Vec<char> = base.chars().collect();
                    match r.below(7) {
                        0 => { v.pop(); }
                        1 => { let p = r.below(v.len() + 1); v.insert(p, *r.pick(&['a', '-', 'é', ' ', 'S', '\u{0}'])); }
                        2 => { let p = r.below(v.len()); v[p] = if v[p].is_lowercase() { v[p].to_ascii_uppercase() } else { v[p].to_ascii_lowercase() }; }
                        3 => { v = base.to_uppercase().chars().collect(); }
                        4 => { v = (0..r.below(30)).map(|_| (b'a' + r.below(26) as u8) as char).collect(); }
                        5 => { v = (0..r.below(300)).map(|_| std::char::from_u32(r.below(0xd7ff) as u32).unwrap()).collect(); }
                        _ => { let p = r.below(v.len()); v.remove(p); }
                    }
                    let s: String = v.into_iter().filter(|&c| c != '\n' && c != '\r').collect();
                    if !ctx.case(&c(format!("foreign {}", s))) { return; }
                }
            }
        }
        "C14" => {
            for (n, _) in ELEMENTS { if !ctx.case(&c(format!("elem-cat {}", n))) { return; } }
            for (n, _) in ELEMENTS { if !ctx.case(&c(format!("elem-cat !{}", n))) { return; } }
            for (n, _) in ATTRIBUTES { if !ctx.case(&c(format!("attr-cat {}", n))) { return; } }
            ctx.exhaustive_parts.push("all ids, all category tests".into());
        }
        "C15" => {
            for (n, _) in ATTRIBUTES { if !ctx.case(&c(format!("default {}", n))) { return; } }
            ctx.exhaustive_parts.push("all attribute ids".into());
        }
        "C16" => {
            while ctx.more() { for _ in 0..100 { let s = ctx.rng.next() >> 1; if !ctx.case(&c(format!("value {}", s))) { return; } } }
        }
        _ => {}
    }
}
