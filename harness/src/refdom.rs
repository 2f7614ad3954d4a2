//! A reference parser, written from the property statements over the XML parser's tree
//! (roxmltree, simplecss and svgtypes are shared with the library and trusted).

use std::str::FromStr;

use svgdom::*;
use svgtypes::{Paint, PathParser, Stream};

use crate::names_table::{ATTRIBUTES, ELEMENTS};
use crate::tables::is_presentation;

pub const SVG_NS: &str = "http://www.w3.org/2000/svg";

#[derive(Debug, Clone)]
pub enum RV {
    Val(AttributeValue),
    Link(usize),
    FuncLink(usize),
    Paint(usize, Option<PaintFallback>),
    /// A refused (crosslinked) reference: anything except a link to this element is fine.
    Refused(usize),
}

#[derive(Debug, Clone)]
pub enum RKind { Elem(ElementId), Text(String), Comment(String) }

#[derive(Debug, Clone)]
pub struct RNode {
    pub kind: RKind,
    pub id: String,
    pub attrs: Vec<(AttributeId, RV)>,
    pub kids: Vec<usize>,
    pub parent: Option<usize>,
}

pub struct RDoc { pub nodes: Vec<RNode>, pub top: Vec<usize> }

enum Decl { Val(AttributeValue), Link(String, Option<PaintFallback>), Unset, Skip }

struct Pend { aid: AttributeId, iri: String, fb: Option<PaintFallback>, node: usize }

pub fn elem_id(n: &str) -> Option<ElementId> { ELEMENTS.iter().find(|x| x.0 == n).map(|x| x.1) }
pub fn attr_id(n: &str) -> Option<AttributeId> { ATTRIBUTES.iter().find(|x| x.0 == n).map(|x| x.1) }
pub fn attr_name(id: AttributeId) -> &'static str { ATTRIBUTES.iter().find(|x| x.1 == id).unwrap().0 }

struct X<'a, 'i: 'a>(roxmltree::Node<'a, 'i>);

impl simplecss::Element for X<'_, '_> {
    fn parent_element(&self) -> Option<Self> { let mut p = self.0.parent(); while let Some(n) = p { if n.is_element() { return Some(X(n)); } p = n.parent(); } None }
    fn prev_sibling_element(&self) -> Option<Self> {
        let mut p = self.0.prev_sibling();
        while let Some(n) = p { if n.is_element() { return Some(X(n)); } p = n.prev_sibling(); }
        None
    }
    fn has_local_name(&self, n: &str) -> bool { self.0.tag_name().name() == n }
    fn attribute_matches(&self, n: &str, op: simplecss::AttributeOperator) -> bool { self.0.attribute(n).map(|v| op.matches(v)).unwrap_or(false) }
    fn pseudo_class_matches(&self, c: simplecss::PseudoClass) -> bool {
        match c { simplecss::PseudoClass::FirstChild => self.prev_sibling_element().is_none(), _ => false }
    }
}

fn num(v: &str) -> Option<f64> {
    let mut s = Stream::from(v);
    let n = s.parse_number().ok()?;
    if s.at_end() { Some(n) } else { None }
}

/// The documented kind and value of an attribute (C20).
fn value(elem: &str, name: &str, raw: &str) -> Decl {
    use AttributeValue as V;
    let v = if name == "unicode" { raw } else { raw.trim() };
    let is = |l: &str| l.split_whitespace().any(|x| x == name);
    let s = || Decl::Val(V::String(v.to_string()));
    macro_rules! p { ($e:expr) => { match $e { Ok(x) => x, Err(_) => return Decl::Skip } } }
    macro_rules! len { () => { Decl::Val(V::Length(p!(Length::from_str(v)))) } }
    if is("display pointer-events text-decoration") {
        return match v { "none" => Decl::Val(V::None), "inherit" => Decl::Val(V::Inherit), _ => s() };
    }
    if is("clip-rule color-interpolation color-interpolation-filters color-profile color-rendering direction dominant-baseline enable-background fill-rule font-family font-stretch font-style font-variant font-weight image-rendering kerning overflow shape-rendering stroke-linecap stroke-linejoin text-anchor text-rendering unicode-bidi visibility writing-mode") {
        return if v == "inherit" { Decl::Val(V::Inherit) } else { s() };
    }
    if is("x1 y1 x2 y2 r rx ry cx cy fx fy refX refY width height markerWidth markerHeight startOffset") { return len!(); }
    if is("x y dx dy") {
        if ["altGlyph", "text", "tref", "tspan"].contains(&elem) {
            let l = p!(LengthList::from_str(v));
            return if l.is_empty() { Decl::Skip } else { Decl::Val(V::LengthList(l)) };
        }
        return len!();
    }
    if is("opacity fill-opacity flood-opacity stroke-opacity stop-opacity k1 k2 k3 k4") {
        if v == "inherit" && !name.starts_with('k') { return Decl::Val(V::Inherit); }
        return match num(v) { Some(n) => Decl::Val(V::Number(if n > 1.0 { 1.0 } else if n < 0.0 { 0.0 } else { n })), None => Decl::Skip };
    }
    match name {
        "href" => match Stream::from(v).parse_iri() { Ok(l) => Decl::Link(l.to_string(), None), Err(_) => s() },
        "offset" => { let l = p!(Length::from_str(v)); if l.unit == LengthUnit::None || l.unit == LengthUnit::Percent { Decl::Val(V::Length(l)) } else { Decl::Skip } }
        "stroke-dashoffset" | "stroke-width" => if v == "inherit" { Decl::Val(V::Inherit) } else { len!() },
        "stroke-miterlimit" => if v == "inherit" { Decl::Val(V::Inherit) } else { match num(v) { Some(n) => Decl::Val(V::Number(n)), None => Decl::Skip } },
        "font-size-adjust" => match v { "none" => Decl::Val(V::None), "inherit" => Decl::Val(V::Inherit), _ => match num(v) { Some(n) => Decl::Val(V::Number(n)), None => Decl::Skip } },
        "stroke-dasharray" => match v {
            "none" => Decl::Val(V::None), "inherit" => Decl::Val(V::Inherit),
            _ => { let l = p!(LengthList::from_str(v)); if l.is_empty() { Decl::Skip } else { Decl::Val(V::LengthList(l)) } }
        },
        "fill" | "stroke" => {
            if name == "fill" && ["set", "animate", "animateColor", "animateMotion", "animateTransform"].contains(&elem) { return s(); }
            match p!(Paint::from_str(v)) {
                Paint::None => Decl::Val(V::None), Paint::Inherit => Decl::Val(V::Inherit), Paint::CurrentColor => Decl::Val(V::CurrentColor),
                Paint::Color(c) => Decl::Val(V::Color(c)), Paint::FuncIRI(l, fb) => Decl::Link(l.to_string(), fb),
            }
        }
        "clip-path" | "filter" | "marker" | "marker-end" | "marker-mid" | "marker-start" | "mask" => match v {
            "none" => Decl::Val(V::None), "inherit" => Decl::Val(V::Inherit),
            _ => Decl::Link(p!(Stream::from(v).parse_func_iri()).to_string(), None),
        },
        "color" => if v == "inherit" { Decl::Val(V::Inherit) } else { Decl::Val(V::Color(p!(Color::from_str(v)))) },
        "lighting-color" | "flood-color" | "stop-color" => match v { "inherit" => Decl::Val(V::Inherit), "currentColor" => Decl::Val(V::CurrentColor), _ => Decl::Val(V::Color(p!(Color::from_str(v)))) },
        "stdDeviation" | "baseFrequency" | "rotate" => { let l = p!(NumberList::from_str(v)); if l.is_empty() { Decl::Skip } else { Decl::Val(V::NumberList(l)) } }
        "points" => Decl::Val(V::Points(p!(Points::from_str(v)))),
        "d" => { let d: Vec<_> = PathParser::from(v).take_while(|t| t.is_ok()).map(|t| t.unwrap()).collect(); if d.is_empty() { Decl::Skip } else { Decl::Val(V::Path(Path(d))) } }
        "transform" | "gradientTransform" | "patternTransform" => { let t = p!(Transform::from_str(v)); if t.is_default() { Decl::Unset } else { Decl::Val(V::Transform(t)) } }
        "font-size" => match Length::from_str(v) { Ok(l) => Decl::Val(V::Length(l)), Err(_) => if v == "inherit" { Decl::Val(V::Inherit) } else { s() } },
        "letter-spacing" | "word-spacing" => match v { "inherit" => Decl::Val(V::Inherit), "normal" => s(), _ => len!() },
        "baseline-shift" => match v { "inherit" => Decl::Val(V::Inherit), "baseline" | "sub" | "super" => s(), _ => len!() },
        "orient" => if v == "auto" { s() } else { Decl::Val(V::Angle(p!(Angle::from_str(v)))) },
        "glyph-orientation-horizontal" => if v == "inherit" { Decl::Val(V::Inherit) } else { Decl::Val(V::Angle(p!(Angle::from_str(v)))) },
        "glyph-orientation-vertical" => match v { "inherit" => Decl::Val(V::Inherit), "auto" => s(), _ => Decl::Val(V::Angle(p!(Angle::from_str(v)))) },
        "viewBox" => Decl::Val(V::ViewBox(p!(ViewBox::from_str(v)))),
        "preserveAspectRatio" => Decl::Val(V::AspectRatio(p!(AspectRatio::from_str(v)))),
        _ => s(),
    }
}

struct B<'a, 'i: 'a> { sheet: simplecss::StyleSheet<'a>, pend: Vec<Pend>, nodes: Vec<RNode>, _x: std::marker::PhantomData<&'i ()> }

impl<'a, 'i: 'a> B<'a, 'i> {
    fn declare(&mut self, n: usize, elem: &str, name: &str, raw: &str) {
        let aid = match attr_id(name) { Some(a) => a, None => return };
        let d = value(elem, name, raw);
        if let Decl::Skip = d { return; }
        let n_ = n;
        match d {
            Decl::Val(v) => {
                self.pend.retain(|p| !(p.node == n_ && p.aid == aid));
                self.nodes[n].attrs.retain(|a| a.0 != aid);
                self.nodes[n].attrs.push((aid, RV::Val(v)));
            }
            Decl::Link(iri, fb) => {
                self.pend.retain(|p| !(p.node == n_ && p.aid == aid));
                self.pend.push(Pend { aid, iri, fb, node: n });
            }
            Decl::Unset => {
                self.pend.retain(|p| !(p.node == n_ && p.aid == aid));
                self.nodes[n].attrs.retain(|a| a.0 != aid);
            }
            Decl::Skip => {}
        }
    }

    fn walk(&mut self, x: roxmltree::Node<'a, 'i>, parent: Option<usize>) -> Option<usize> {
        use roxmltree::NodeType as T;
        match x.node_type() {
            T::Element => {
                if x.tag_name().namespace() != Some(SVG_NS) { return None; }
                let name = x.tag_name().name().to_string();
                let eid = elem_id(&name)?;
                // the style sheets are applied and dropped, nothing inside them is kept
                if name == "style" { return None; }
                let n = self.nodes.len();
                self.nodes.push(RNode { kind: RKind::Elem(eid), id: String::new(), attrs: vec![], kids: vec![], parent });
                for a in x.attributes() {
                    match a.namespace() {
                        None | Some(SVG_NS) | Some("http://www.w3.org/1999/xlink") | Some("http://www.w3.org/XML/1998/namespace") => {}
                        _ => continue,
                    }
                    match a.name() {
                        "id" => self.nodes[n].id = a.value().to_string(),
                        "style" | "class" => {}
                        nm => self.declare(n, &name, nm, a.value()),
                    }
                }
                let mut from_sheets: Vec<(String, String)> = vec![];
                for r in &self.sheet.rules {
                    if r.selector.matches(&X(x)) { for d in &r.declarations { from_sheets.push((d.name.to_string(), d.value.to_string())); } }
                }
                for (nm, v) in from_sheets {
                    if !is_presentation(&nm) && nm != "transform" { continue; }
                    if nm == "marker" { for m in &["marker-start", "marker-mid", "marker-end"] { self.declare(n, &name, m, &v); } }
                    else { self.declare(n, &name, &nm, &v); }
                }
                if let Some(st) = x.attribute("style") {
                    for d in simplecss::DeclarationTokenizer::from(st) {
                        if is_presentation(d.name) || d.name == "transform" { self.declare(n, &name, d.name, d.value); }
                    }
                }
                for c in x.children() { if let Some(k) = self.walk(c, Some(n)) { self.nodes[n].kids.push(k); } }
                Some(n)
            }
            T::Text => {
                let t = x.text().unwrap();
                let keep_blank = parent.map(|p| match self.nodes[p].kind { RKind::Elem(e) => ["text", "tspan", "tref"].contains(&e.as_str()), _ => false }).unwrap_or(false);
                if t.trim().is_empty() && !keep_blank { return None; }
                self.nodes.push(RNode { kind: RKind::Text(t.to_string()), id: String::new(), attrs: vec![], kids: vec![], parent });
                Some(self.nodes.len() - 1)
            }
            T::Comment => {
                self.nodes.push(RNode { kind: RKind::Comment(x.text().unwrap_or("").to_string()), id: String::new(), attrs: vec![], kids: vec![], parent });
                Some(self.nodes.len() - 1)
            }
            _ => None,
        }
    }
}

/// `None`: the text must be rejected.
pub fn parse(text: &str) -> Option<RDoc> {
    let ro = roxmltree::Document::parse(text).ok()?;
    let re = ro.root_element();
    if re.tag_name().namespace() != Some(SVG_NS) || re.tag_name().name() != "svg" { return None; }
    let mut sheet = simplecss::StyleSheet::new();
    for n in ro.descendants().filter(|n| n.is_element() && n.tag_name().name() == "style") {
        match n.attribute("type") { None | Some("text/css") => {} _ => continue }
        if let Some(t) = n.text() { sheet.parse_more(t); }
    }
    let mut b = B { sheet, pend: vec![], nodes: vec![], _x: Default::default() };
    let mut top = vec![];
    for c in ro.root().children() { if let Some(k) = b.walk(c, None) { top.push(k); } }
    let mut nodes = b.nodes;
    // references, established in document order
    let mut edges: Vec<(usize, usize)> = vec![];
    for p in &b.pend {
        let target = (0..nodes.len()).find(|&i| !nodes[i].id.is_empty() && nodes[i].id == p.iri);
        let v = match target {
            Some(t) => {
                if nodes[p.node].id == nodes[t].id || edges.contains(&(t, p.node)) { RV::Refused(t) }
                else {
                    edges.push((p.node, t));
                    match attr_name(p.aid) { "href" => RV::Link(t), "fill" | "stroke" => RV::Paint(t, p.fb), _ => RV::FuncLink(t) }
                }
            }
            None => RV::Val(match p.fb {
                Some(PaintFallback::None) => AttributeValue::None,
                Some(PaintFallback::CurrentColor) => AttributeValue::CurrentColor,
                Some(PaintFallback::Color(c)) => AttributeValue::Color(c),
                None => match attr_name(p.aid) {
                    "fill" => AttributeValue::None,
                    "href" => AttributeValue::String(format!("#{}", p.iri)),
                    _ => AttributeValue::String(format!("url(#{})", p.iri)),
                },
            }),
        };
        nodes[p.node].attrs.retain(|a| a.0 != p.aid);
        nodes[p.node].attrs.push((p.aid, v));
    }
    Some(RDoc { nodes, top })
}
