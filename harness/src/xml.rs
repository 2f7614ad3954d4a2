//! Parser and writer properties on concrete texts.

use svgdom::*;

use crate::gen;
use crate::names_table::{ATTRIBUTES, ELEMENTS};
use crate::refdom::*;
use crate::util::*;

/// `opts` selects write options; body is an XML text, or `api SEED SIZE` for a document built by calls.
#[derive(Clone)]
pub struct XmlCase { pub opts: u64, pub body: String }

impl Case for XmlCase {
    const KIND: &'static str = "xml";
    fn encode(&self) -> String { format!("{}\n{}", self.opts, self.body) }
    fn decode(s: &str) -> Self {
        let i = s.find('\n').unwrap_or(s.len());
        XmlCase { opts: s[..i].trim().parse().unwrap_or(0), body: s.get(i + 1..).unwrap_or("").to_string() }
    }
    fn check(&self, prop: &str) -> Result<(), String> {
        match prop {
            "C22" => writer(&self.body, self.opts),
            "C23" => round_trip(&self.body, self.opts),
            _ => parsing(&self.body, prop),
        }
    }
    fn shrinks(&self) -> Vec<Self> {
        let mut v = vec![];
        if self.body.starts_with("api ") {
            let p: Vec<&str> = self.body.split(' ').collect();
            if let (Some(seed), Some(n)) = (p.get(1), p.get(2).and_then(|x| x.parse::<usize>().ok())) {
                for k in 0..n { v.push(XmlCase { opts: self.opts, body: format!("api {} {}", seed, k) }); }
            }
            return v;
        }
        let mut cuts: Vec<std::ops::Range<usize>> = vec![];
        if let Ok(d) = roxmltree::Document::parse(&self.body) {
            for n in d.descendants() {
                if n.parent_element().is_some() || n.is_comment() || n.is_pi() { let r = n.range(); cuts.push(r.start..r.end); }
                if n.is_element() { for a in n.attributes() { let r = a.range(); cuts.push(r.start..r.end); } }
            }
        }
        for c in cuts {
            if c.end <= c.start || c.end > self.body.len() || !self.body.is_char_boundary(c.start) || !self.body.is_char_boundary(c.end) { continue; }
            let mut b = self.body.clone();
            b.replace_range(c, "");
            v.push(XmlCase { opts: self.opts, body: b });
        }
        if self.opts != 0 { v.push(XmlCase { opts: 0, body: self.body.clone() }); }
        v
    }
    fn trivial(&self) -> bool { self.body.len() < 60 && !self.body.starts_with("api") }
}

pub fn run(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    if prop == "C20" {
        // every attribute with every sample value, on a few elements
        let elems = ["rect", "text", "animate", "stop", "tspan", "feComposite"];
        let q = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;");
        for (a, _) in ATTRIBUTES {
            if matches!(*a, "href" | "xmlns" | "xlink" | "xml" | "style" | "class" | "id") { continue; }
            for (i, v) in gen::VALUES.iter().enumerate() {
                let e = elems[i % elems.len()];
                let special = matches!(*a, "x" | "y" | "dx" | "dy" | "fill");
                for e in if special { &elems[..] } else { std::slice::from_ref(&e) } {
                    let an = if *a == "space" { "xml:space" } else { a };
                    let body = format!("<svg xmlns=\"{}\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"><g id=\"a\"/><{} {}=\"{}\"/></svg>", SVG_NS, e, an, q(v));
                    if !ctx.case(&XmlCase { opts: 0, body }) { return; }
                }
            }
        }
        for (e, _) in ELEMENTS {
            if *e == "style" { continue; }
            for (a, v) in &[("x", "1 2"), ("dy", "1"), ("fill", "red"), ("fill", "freeze"), ("d", "M 1 2 L 3 4 x"), ("opacity", "7"), ("points", "1 2 3 4")] {
                let body = format!("<svg xmlns=\"{}\"><{} {}=\"{}\"/></svg>", SVG_NS, e, a, v);
                if !ctx.case(&XmlCase { opts: 0, body }) { return; }
            }
        }
        ctx.exhaustive_parts.push("all attribute ids with every sample value; element-dependent attributes on all elements".into());
    }
    if prop == "C21" {
        for (e, _) in ELEMENTS {
            let body = format!("<svg xmlns=\"{}\"><{e}><g id=\"k\"/>t</{e}></svg>", SVG_NS, e = e);
            if !ctx.case(&XmlCase { opts: 0, body }) { return; }
            let body = format!("<{e} xmlns=\"{}\"><g id=\"k\"/></{e}>", SVG_NS, e = e);
            if !ctx.case(&XmlCase { opts: 0, body }) { return; }
        }
    }
    while ctx.more() {
        for _ in 0..20 {
            let opts = ctx.rng.next() & 0xffff;
            let body = if prop == "C22" && ctx.rng.chance(2, 3) {
                format!("api {} {}", ctx.rng.next(), 1 + ctx.rng.below(20))
            } else if prop == "C21" && ctx.rng.chance(1, 3) {
                mutate(gen::document(&mut ctx.rng, &prop), &mut ctx.rng)
            } else {
                gen::document(&mut ctx.rng, &prop)
            };
            if !ctx.case(&XmlCase { opts, body }) { return; }
        }
    }
}

fn mutate(s: String, r: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(4) {
        if v.is_empty() { break; }
        let p = r.below(v.len());
        match r.below(4) {
            0 => { v.remove(p); }
            1 => v.insert(p, *r.pick(&['<', '>', '"', '&', 'a', ' ', '/', '!', 'é', '0', '\u{0}', '-'])),
            2 => { let q = r.below(v.len()); v.swap(p, q); }
            _ => { let e = (p + r.below(12)).min(v.len()); v.drain(p..e); }
        }
    }
    v.into_iter().collect()
}

fn nonws(s: &str) -> String { s.chars().filter(|c| !matches!(c, ' ' | '\t' | '\n' | '\r')).collect() }

fn blank(s: &str) -> bool { nonws(s).is_empty() }

struct Pair { rn: Vec<Option<Node>> }

/// Walks both trees in parallel; text nodes without a visible character are optional.
fn align(rd: &RDoc, doc: &Document) -> Result<Pair, String> {
    let mut p = Pair { rn: vec![None; rd.nodes.len()] };
    fn kids(rd: &RDoc, exp: &[usize], real: &Node, p: &mut Pair, path: &str) -> Result<(), String> {
        let got: Vec<Node> = real.children().filter(|n| !(n.is_text() && blank(&n.text()))).collect();
        let exp: Vec<usize> = exp.iter().cloned().filter(|&i| match rd.nodes[i].kind { RKind::Text(ref t) => !blank(t), _ => true }).collect();
        let show = |n: &Node| match n.node_type() { NodeType::Element => format!("<{}>", *n.tag_name()), NodeType::Text => format!("text {:?}", *n.text()), NodeType::Comment => format!("comment {:?}", *n.text()), NodeType::Root => "root".into() };
        let es = |i: &usize| match rd.nodes[*i].kind { RKind::Elem(e) => format!("<{}>", e), RKind::Text(ref t) => format!("text {:?}", t), RKind::Comment(ref t) => format!("comment {:?}", t) };
        let bad = || Err(format!("children of {}: got {:?}, expected {:?}", path, got.iter().map(show).collect::<Vec<_>>(), exp.iter().map(es).collect::<Vec<_>>()));
        if got.len() != exp.len() { return bad(); }
        for (g, &e) in got.iter().zip(&exp) {
            let ok = match rd.nodes[e].kind {
                RKind::Elem(id) => g.is_element() && *g.tag_name() == QName::Id(id),
                RKind::Text(ref t) => g.is_text() && nonws(&g.text()) == nonws(t),
                RKind::Comment(ref t) => g.is_comment() && *g.text() == *t,
            };
            if !ok { return bad(); }
            p.rn[e] = Some(g.clone());
            if let RKind::Elem(id) = rd.nodes[e].kind {
                kids(rd, &rd.nodes[e].kids, g, p, &format!("{}/{}", path, id))?;
            }
        }
        Ok(())
    }
    kids(rd, &rd.top, &doc.root(), &mut p, "")?;
    Ok(p)
}

fn parsing(text: &str, prop: &str) -> Result<(), String> {
    let exp = parse(text);
    let got = std::panic::catch_unwind(|| Document::from_str(text));
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            // A panic inside the parser breaks the parsing properties, whatever the text.
            return Err(format!("parsing panicked: {}", panic_text(e)));
        }
    };
    let (rd, mut doc) = match (exp, got) {
        (None, Err(_)) => return Ok(()),
        (None, Ok(_)) => return if prop == "C21" { Err("a text that is not an SVG document was accepted".into()) } else { Ok(()) },
        (Some(_), Err(e)) => return if prop == "C21" { Err(format!("a valid document was rejected: {}", e)) } else { Ok(()) },
        (Some(r), Ok(d)) => (r, d),
    };
    if prop == "C07" { return linked_exact(&doc); }
    let pair = match align(&rd, &doc) {
        Ok(p) => p,
        Err(e) => return if prop == "C21" || prop == "C19" { Err(e) } else { Ok(()) },
    };
    if prop == "C19" { return texts(&rd, &pair, text); }
    attributes(&rd, &pair, prop)?;
    if prop == "C21" {
        svg_element(&doc)?;
        let mut root = doc.root();
        let front = match text.len() % 3 { 0 => doc.create_element(ElementId::G), 1 => doc.create_element("svg"), _ => doc.create_node(NodeType::Comment, "c") };
        let mut svg = doc.svg_element().unwrap();
        root.prepend(front);
        svg_element(&doc)?;
        root.append(doc.create_element(ElementId::Svg));
        svg_element(&doc)?;
        svg.detach();
        svg_element(&doc)?;
    }
    Ok(())
}

fn svg_element(doc: &Document) -> Result<(), String> {
    let want = doc.root().children().find(|n| *n.tag_name() == QName::Id(ElementId::Svg));
    if doc.svg_element() != want { return Err(format!("svg_element() is {:?} instead of the root's first svg child", doc.svg_element().map(|n| n.to_string()))); }
    Ok(())
}

fn linked_exact(doc: &Document) -> Result<(), String> {
    let all: Vec<Node> = doc.root().descendants().collect();
    for b in &all {
        let mut exp = 0;
        for a in &all {
            let n = a.attributes().iter().filter(|x| match x.value { AttributeValue::Link(ref t) | AttributeValue::FuncLink(ref t) | AttributeValue::Paint(ref t, _) => t == b, _ => false }).count();
            let m = b.linked_nodes().iter().filter(|x| *x == a).count();
            if n != m { return Err(format!("{} has {} attributes that refer to {}, which lists it {} times", a, n, b, m)); }
            exp += n;
        }
        if b.uses_count() != exp || b.is_used() != (exp > 0) { return Err(format!("use count of {} is {}, but {} attributes of the document refer to it", b, b.uses_count(), exp)); }
        for a in b.attributes().iter() {
            if let AttributeValue::Link(ref t) | AttributeValue::FuncLink(ref t) | AttributeValue::Paint(ref t, _) = a.value {
                if !all.contains(t) { return Err(format!("{} refers to a node that is not in the document", b)); }
            }
        }
    }
    Ok(())
}

/// Which property a wrong attribute belongs to.
fn attributes(rd: &RDoc, p: &Pair, prop: &str) -> Result<(), String> {
    for (i, rn) in rd.nodes.iter().enumerate() {
        let n = match p.rn[i] { Some(ref n) => n, None => continue };
        let eid = match rn.kind { RKind::Elem(e) => e, _ => continue };
        if *n.id() != rn.id { if prop == "C21" { return Err(format!("<{}> has the id {:?}, expected {:?}", eid, *n.id(), rn.id)); } else { continue; } }
        let attrs = n.attributes();
        for a in attrs.iter() {
            let id = match a.name { QName::Id(id) => id, QName::Name(ref s) => { if prop == "C21" { return Err(format!("<{}> stores the non-SVG attribute {:?}", eid, s)); } else { continue; } } };
            if id == AttributeId::Style || id == AttributeId::Class || id == AttributeId::Id {
                if prop == "C17" || prop == "C21" { return Err(format!("<{}> stores the attribute {}", eid, id)); }
            }
            if !rn.attrs.iter().any(|x| x.0 == id) {
                return Err(format!("<{}> has an attribute {}={} that no valid declaration gives it", eid, id, a.value));
            }
        }
        for (aid, v) in &rn.attrs {
            let g = attrs.get_value(*aid);
            let node = |t: usize| p.rn[t].clone();
            let ok = match *v {
                RV::Refused(t) => match g {
                    Some(AttributeValue::Link(x)) | Some(AttributeValue::FuncLink(x)) | Some(AttributeValue::Paint(x, _)) => Some(x.clone()) != node(t),
                    _ => true,
                },
                RV::Val(ref v) => g == Some(v),
                RV::Link(t) => g == node(t).map(AttributeValue::Link).as_ref(),
                RV::FuncLink(t) => g == node(t).map(AttributeValue::FuncLink).as_ref(),
                RV::Paint(t, fb) => g == node(t).map(|n| AttributeValue::Paint(n, fb)).as_ref(),
            };
            if !ok {
                return Err(format!("<{} id={:?}> {}: got {}, expected {}", eid, rn.id, aid,
                    g.map(|g| format!("{} ({})", g, kind(g))).unwrap_or("nothing".into()),
                    match *v { RV::Val(ref v) => format!("{} ({})", v, kind(v)), ref v => format!("{:?}", v) }));
            }
        }
    }
    Ok(())
}

fn kind(v: &AttributeValue) -> &'static str {
    match *v {
        AttributeValue::None => "None", AttributeValue::Inherit => "Inherit", AttributeValue::CurrentColor => "CurrentColor", AttributeValue::AspectRatio(_) => "AspectRatio",
        AttributeValue::Color(_) => "Color", AttributeValue::Length(_) => "Length", AttributeValue::LengthList(_) => "LengthList", AttributeValue::Angle(_) => "Angle",
        AttributeValue::Link(_) => "Link", AttributeValue::FuncLink(_) => "FuncLink", AttributeValue::Paint(..) => "Paint", AttributeValue::Number(_) => "Number",
        AttributeValue::NumberList(_) => "NumberList", AttributeValue::Path(_) => "Path", AttributeValue::Points(_) => "Points", AttributeValue::String(_) => "String",
        AttributeValue::Transform(_) => "Transform", AttributeValue::ViewBox(_) => "ViewBox",
    }
}

fn space_of(rd: &RDoc, i: usize) -> Option<bool> {
    rd.nodes[i].attrs.iter().find(|a| a.0 == AttributeId::Space).and_then(|a| match a.1 { RV::Val(AttributeValue::String(ref s)) => Some(s == "preserve"), _ => None })
}

fn texts(rd: &RDoc, p: &Pair, _src: &str) -> Result<(), String> {
    // no xml:space that the source did not have, none lost
    for (i, rn) in rd.nodes.iter().enumerate() {
        if let (RKind::Elem(e), Some(n)) = (&rn.kind, &p.rn[i]) {
            let want = rn.attrs.iter().find(|a| a.0 == AttributeId::Space);
            let has = n.attributes().get_value(AttributeId::Space).cloned();
            let same = match want { Some((_, RV::Val(v))) => has.as_ref() == Some(v), Some(_) => true, None => has.is_none() };
            if !same { return Err(format!("<{}> has xml:space {:?}", e, has.map(|h| h.to_string()))); }
        }
    }
    fn collect(rd: &RDoc, i: usize, out: &mut Vec<usize>) {
        for &k in &rd.nodes[i].kids {
            match rd.nodes[k].kind { RKind::Text(_) => out.push(k), RKind::Elem(_) => collect(rd, k, out), _ => {} }
        }
    }
    fn go(rd: &RDoc, p: &Pair, i: usize, mode: bool) -> Result<(), String> {
        if !matches!(rd.nodes[i].kind, RKind::Elem(_)) { return Ok(()); }
        let mode = space_of(rd, i).unwrap_or(mode);
        let starts = rd.nodes[i].kids.first().map(|&k| matches!(rd.nodes[k].kind, RKind::Text(_))).unwrap_or(false);
        if !starts {
            for &k in &rd.nodes[i].kids { go(rd, p, k, mode)?; }
            return Ok(());
        }
        let mut ts = vec![];
        collect(rd, i, &mut ts);
        let mut all_want = String::new();
        let all_got: String = match p.rn[i] { Some(ref n) => n.descendants().filter(|n| n.is_text()).map(|n| n.text().clone()).collect(), None => return Ok(()) };
        for &t in &ts {
            let src = match rd.nodes[t].kind { RKind::Text(ref s) => s.clone(), _ => unreachable!() };
            let m = space_of(rd, rd.nodes[t].parent.unwrap()).unwrap_or(mode);
            let mut want = String::new();
            for c in src.chars() {
                let c = if matches!(c, '\t' | '\n' | '\r') { ' ' } else { c };
                if !m && c == ' ' && want.ends_with(' ') { continue; }
                want.push(c);
            }
            all_want.push_str(&want);
            let got = match p.rn[t] { Some(ref n) => n.text().clone(), None => { if !blank(&src) { return Err(format!("the text {:?} was lost", src)); } continue; } };
            if got.contains(|c| matches!(c, '\t' | '\n' | '\r')) { return Err(format!("the text {:?} became {:?}, which still has a tab or line break", src, got)); }
            if !m && got.contains("  ") { return Err(format!("the text {:?} became {:?}, with a run of spaces under xml:space=default", src, got)); }
            // only spaces at the ends may be missing
            if got.trim_matches(' ') != want.trim_matches(' ') || !want.contains(&got) {
                return Err(format!("the text {:?} became {:?}", src, got));
            }
            if ts.len() == 1 {
                let w = if mode { want.clone() } else { want.trim_matches(' ').to_string() };
                if m == mode && got != w { return Err(format!("the only text {:?} (xml:space {}) became {:?}, expected {:?}", src, if mode { "preserve" } else { "default" }, got, w)); }
            }
        }
        // what white space separates stays separated, and nothing else becomes so
        if all_want.split_whitespace().ne(all_got.split_whitespace()) {
            return Err(format!("the text {:?} became {:?}: other words", all_want, all_got));
        }
        Ok(())
    }
    for &t in &rd.top { go(rd, p, t, false)?; }
    Ok(())
}

// ---------------------------------------------------------------- writing

fn options(bits: u64) -> WriteOptions {
    let b = |i: u64| bits >> i & 1 == 1;
    let ind = |k: u64| match k % 4 { 0 => Indent::None, 1 => Indent::Spaces(2), 2 => Indent::Tabs, _ => Indent::Spaces(4) };
    WriteOptions {
        use_single_quote: b(0),
        indent: ind(bits >> 1),
        attributes_indent: ind(bits >> 3),
        values: ValueWriteOptions {
            trim_hex_colors: b(5), remove_leading_zero: b(6), use_compact_path_notation: b(7), join_arc_to_flags: b(8),
            remove_duplicated_path_commands: b(9), use_implicit_lineto_commands: b(10), simplify_transform_matrices: b(11),
            list_separator: match bits >> 12 & 3 { 0 => ListSeparator::Space, 1 => ListSeparator::Comma, _ => ListSeparator::CommaSpace },
        },
    }
}

fn build(seed: u64, n: usize) -> Document {
    let mut r = Rng(seed);
    let mut doc = Document::new();
    let mut elems: Vec<Node> = vec![];
    let names: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h"];
    for i in 0..=n {
        let k = r.below(12);
        let is_elem = i == 0 || k < 9;
        let mut nd = if is_elem {
            let mut e = if i == 0 && r.chance(9, 10) || r.chance(1, 12) { doc.create_element(ElementId::Svg) }
                else if r.chance(1, 6) { doc.create_element("custom") }
                else if r.chance(1, 4) { doc.create_element(ElementId::Text) }
                else { let x = r.pick(ELEMENTS).1; doc.create_element(x) };
            if r.chance(1, 2) { e.set_id(*r.pick(names)); }
            e
        } else if k < 11 { doc.create_node(NodeType::Text, *r.pick(&["text", " a b ", "x", "  ", "é\nb", "a<b", "q\"q'"])) }
        else { doc.create_node(NodeType::Comment, *r.pick(&["comment", " c ", ""])) };
        let par = if elems.is_empty() || (nd.node_type() != NodeType::Text && r.chance(1, 12)) { doc.root() } else { elems[r.below(elems.len())].clone() };
        let mut par = par;
        if r.chance(1, 6) { par.prepend(nd.clone()) } else { par.append(nd.clone()) }
        if is_elem {
            for _ in 0..r.below(5) {
                let v = match r.below(8) {
                    0 => AttributeValue::None, 1 => AttributeValue::String((*r.pick(&["v", "a b", "q\"q", "q'q", "é", ""])).to_string()), 2 => AttributeValue::Number(0.5),
                    3 => AttributeValue::Color(Color::new(255, 0, 17)), 4 => AttributeValue::Length(Length::new(10.5, LengthUnit::Mm)), 5 => AttributeValue::Transform(Transform::new(1.0, 0.0, 0.0, 1.0, 5.0, 6.0)),
                    6 => AttributeValue::NumberList(NumberList(vec![1.0, 0.5, -3.0])), _ => AttributeValue::Inherit,
                };
                if r.chance(1, 4) { nd.set_attribute((*r.pick(&["data-x", "data-y", "foo", "zzz", "aaa"]), v)); }
                else { let mut a = r.pick(ATTRIBUTES).1; if a == AttributeId::Id { a = AttributeId::X; } nd.set_attribute((a, v)); }
            }
            if r.chance(1, 8) { nd.set_attribute((AttributeId::Space, "preserve")); }
            if r.chance(1, 8) { nd.set_attribute((AttributeId::Unicode, *r.pick(&["abc", "é", " ", "&#x41;", "\u{1F980}", "&amp;", "&", "", "a&#x41;", "&&#x41;"]))); }
            if !elems.is_empty() {
                for _ in 0..r.below(3) {
                    let t = elems[r.below(elems.len())].clone();
                    let a = *r.pick(&[AttributeId::Href, AttributeId::Href, AttributeId::Fill, AttributeId::Mask, AttributeId::Stroke]);
                    let _ = nd.set_attribute_checked((a, t));
                }
            }
            elems.push(nd);
        }
    }
    doc
}

#[derive(Debug, PartialEq, Clone)]
enum Tok { Open(String, Vec<(String, String)>), Close, Text(String), Comment(String) }

/// A tiny tokenizer for the writer's output (no namespaces, no entities).
fn tokens(s: &str) -> Result<Vec<Tok>, String> {
    let mut out = vec![];
    let b: Vec<char> = s.chars().collect();
    let mut stack: Vec<String> = vec![];
    let mut i = 0;
    let err = |m: &str, i: usize| Err(format!("output is not well-formed ({} at {}): {}", m, i, s));
    while i < b.len() {
        if b[i] == '<' {
            if b[i..].starts_with(&['<', '!', '-', '-']) {
                let mut j = i + 4;
                while j + 2 < b.len() && !(b[j] == '-' && b[j + 1] == '-' && b[j + 2] == '>') { j += 1; }
                if j + 2 >= b.len() { return err("comment", i); }
                out.push(Tok::Comment(b[i + 4..j].iter().collect()));
                i = j + 3;
            } else if i + 1 < b.len() && b[i + 1] == '/' {
                let mut j = i + 2;
                while j < b.len() && b[j] != '>' { j += 1; }
                let name: String = b[i + 2..j].iter().collect();
                if stack.pop() != Some(name.trim().to_string()) { return err("end tag", i); }
                out.push(Tok::Close);
                i = j + 1;
            } else {
                let mut j = i + 1;
                while j < b.len() && !b[j].is_whitespace() && b[j] != '>' && b[j] != '/' { j += 1; }
                let name: String = b[i + 1..j].iter().collect();
                let mut attrs = vec![];
                loop {
                    while j < b.len() && b[j].is_whitespace() { j += 1; }
                    if j >= b.len() { return err("start tag", i); }
                    if b[j] == '>' { out.push(Tok::Open(name.clone(), attrs)); stack.push(name); j += 1; break; }
                    if b[j] == '/' { if b.get(j + 1) != Some(&'>') { return err("empty tag", j); } out.push(Tok::Open(name, attrs)); out.push(Tok::Close); j += 2; break; }
                    let st = j;
                    while j < b.len() && b[j] != '=' && b[j] != '>' { j += 1; }
                    let an: String = b[st..j].iter().collect();
                    let q = match b.get(j + 1) { Some(&c) if c == '"' || c == '\'' => c, _ => return err("attribute", st) };
                    let vs = j + 2;
                    j = vs;
                    while j < b.len() && b[j] != q { j += 1; }
                    if j >= b.len() { return err("attribute value", st); }
                    attrs.push((an, b[vs..j].iter().collect()));
                    j += 1;
                }
                i = j;
            }
        } else {
            let st = i;
            while i < b.len() && b[i] != '<' { i += 1; }
            out.push(Tok::Text(b[st..i].iter().collect()));
        }
    }
    if !stack.is_empty() { return err("unclosed element", b.len()); }
    Ok(out)
}

fn dump(doc: &Document) -> Vec<String> {
    doc.root().traverse().map(|e| match e {
        NodeEdge::Start(n) => format!("S {:?} {:?} {:?} {:?} {:?} d{}", n.node_type(), *n.tag_name(), *n.id(), *n.text(), n.attributes().iter().map(|a| format!("{:?}={}", a.name, a.value)).collect::<Vec<_>>(), n.is_detached()),
        NodeEdge::End(_) => "E".to_string(),
    }).collect()
}

fn writer(body: &str, bits: u64) -> Result<(), String> {
    let doc = if body.starts_with("api ") {
        let p: Vec<&str> = body.split(' ').collect();
        build(p[1].parse().unwrap(), p[2].trim().parse().unwrap())
    } else {
        match std::panic::catch_unwind(|| Document::from_str(body)) { Ok(Ok(d)) => d, _ => return Ok(()) }
    };
    let opt = options(bits);
    let before = dump(&doc);
    let out = doc.to_string_with_opt(&opt);
    if dump(&doc) != before { return Err("writing changed the document".into()); }
    if out != doc.to_string_with_opt(&opt) { return Err("writing twice gives different texts".into()); }
    let q = if opt.use_single_quote { '\'' } else { '"' };
    let qe = if opt.use_single_quote { "&apos;" } else { "&quot;" };
    // expected events
    let mut exp: Vec<Tok> = vec![];
    let mut exact: Vec<bool> = vec![]; // whether the whitespace of this text is significant
    let mut depth_text = 0;
    let mut nested = false;
    for e in doc.root().traverse() {
        match e {
            NodeEdge::Start(n) => match n.node_type() {
                NodeType::Root => {}
                NodeType::Element => {
                    let name = n.tag_name().to_string();
                    let mut at: Vec<(String, String)> = vec![];
                    if n.has_tag_name(ElementId::Svg) && n.parent().map(|p| p.is_root()).unwrap_or(false) {
                        at.push(("xmlns".into(), SVG_NS.into()));
                        if n.descendants().any(|x| x.attributes().iter().any(|a| a.name == QName::Id(AttributeId::Href))) {
                            at.push(("xmlns:xlink".into(), "http://www.w3.org/1999/xlink".into()));
                        }
                    }
                    if !n.id().is_empty() { at.push(("id".into(), n.id().clone())); }
                    let attrs = n.attributes();
                    let mut svg: Vec<(AttributeId, &Attribute)> = attrs.iter().filter_map(|a| match a.name { QName::Id(id) => Some((id, a)), _ => None }).collect();
                    svg.sort_by_key(|x| x.0 as usize);
                    for (id, a) in svg {
                        let name = match id { AttributeId::Href => "xlink:href", AttributeId::Space => "xml:space", _ => attr_name(id) };
                        if id == AttributeId::Unicode {
                            if let AttributeValue::String(ref s) = a.value {
                                let t = if s.starts_with("&#") { s.clone() } else { s.chars().map(|c| format!("&#x{:x};", c as u32)).collect() };
                                at.push((name.into(), t));
                            }
                            continue;
                        }
                        let mut b = vec![];
                        a.value.write_buf_opt(&opt.values, &mut b);
                        at.push((name.into(), String::from_utf8(b).unwrap()));
                    }
                    for a in attrs.iter() {
                        if let QName::Name(ref s) = a.name {
                            let mut b = vec![];
                            a.value.write_buf_opt(&opt.values, &mut b);
                            at.push((s.clone(), String::from_utf8(b).unwrap()));
                        }
                    }
                    for a in at.iter_mut() { a.1 = a.1.replace(q, qe); }
                    exp.push(Tok::Open(name, at));
                    exact.push(false);
                    if n.has_tag_name(ElementId::Text) { depth_text += 1; if depth_text > 1 { nested = true; } }
                }
                NodeType::Comment => { exp.push(Tok::Comment(n.text().clone())); exact.push(false); }
                NodeType::Text => { exp.push(Tok::Text(n.text().replace('<', "&lt;"))); exact.push(depth_text == 1 && !nested || matches!(opt.indent, Indent::None)); }
            },
            NodeEdge::End(n) => {
                if n.is_element() { exp.push(Tok::Close); exact.push(false); }
                if n.has_tag_name(ElementId::Text) { depth_text -= 1; if depth_text == 0 { nested = false; } }
            }
        }
    }
    // merge adjacent texts on the expected side, drop blank inexact ones on both sides
    let norm = |v: Vec<Tok>, ex: Option<&[bool]>| -> Vec<(Tok, bool)> {
        let mut o: Vec<(Tok, bool)> = vec![];
        for (i, t) in v.into_iter().enumerate() {
            let x = ex.map(|e| e[i]).unwrap_or(false);
            if let Tok::Text(ref s) = t {
                if let Some((Tok::Text(ref mut p), ref mut px)) = o.last_mut() { p.push_str(s); *px = *px && x; continue; }
            }
            o.push((t, x));
        }
        o.into_iter().filter(|(t, _)| match t { Tok::Text(s) => !blank(s), _ => true }).collect()
    };
    let e = norm(exp, Some(&exact));
    let g = norm(tokens(&out)?, None);
    for (i, (a, x)) in e.iter().enumerate() {
        let b = match g.get(i) { Some((b, _)) => b, None => return Err(format!("the output ends before {:?}: {}", a, out)) };
        let same = match (a, b) {
            (Tok::Text(a), Tok::Text(b)) => if *x { a == b } else { nonws(a) == nonws(b) },
            (a, b) => a == b,
        };
        if !same { return Err(format!("event {}: expected {:?}, written {:?} in {}", i, a, b, out)); }
    }
    if g.len() != e.len() { return Err(format!("extra output {:?}: {}", g[e.len()].0, out)); }
    Ok(())
}

fn fuzzy(a: &AttributeValue, b: &AttributeValue, idx: &dyn Fn(&Node, usize) -> Option<usize>) -> bool {
    use AttributeValue as V;
    let f = |x: f64, y: f64| (x - y).abs() <= 1e-7 * (1.0 + x.abs().max(y.abs()));
    match (a, b) {
        (V::Link(x), V::Link(y)) | (V::FuncLink(x), V::FuncLink(y)) => idx(x, 0).is_some() && idx(x, 0) == idx(y, 1),
        (V::Paint(x, p), V::Paint(y, q)) => idx(x, 0).is_some() && idx(x, 0) == idx(y, 1) && p == q,
        (V::Number(x), V::Number(y)) => f(*x, *y),
        (V::Length(x), V::Length(y)) => f(x.num, y.num) && x.unit == y.unit,
        (V::Angle(x), V::Angle(y)) => f(x.num, y.num) && x.unit == y.unit,
        (V::NumberList(x), V::NumberList(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| f(*a, *b)),
        (V::LengthList(x), V::LengthList(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| f(a.num, b.num) && a.unit == b.unit),
        (V::Points(x), V::Points(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| f(a.0, b.0) && f(a.1, b.1)),
        (V::Transform(x), V::Transform(y)) => f(x.a, y.a) && f(x.b, y.b) && f(x.c, y.c) && f(x.d, y.d) && f(x.e, y.e) && f(x.f, y.f),
        (V::Path(x), V::Path(y)) => format!("{:?}", x) == format!("{:?}", y) || x.len() == y.len(),
        (x, y) => x == y,
    }
}

fn round_trip(body: &str, bits: u64) -> Result<(), String> {
    let d1 = match std::panic::catch_unwind(|| Document::from_str(body)) { Ok(Ok(d)) => d, _ => return Ok(()) };
    for n in d1.root().descendants() {
        if n.text().contains(|c| c == '&' || c == '<') || n.id().contains(|c| "&<\n\t\r".contains(c)) { return Ok(()); }
        for a in n.attributes().iter() {
            if let AttributeValue::String(ref s) = a.value { if s.contains(|c| "&<\n\t\r".contains(c)) { return Ok(()); } }
        }
    }
    let opt = options(bits);
    let out = d1.to_string_with_opt(&opt);
    let d2 = match std::panic::catch_unwind(|| Document::from_str(&out)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return Err(format!("the written text does not parse ({}): {}", e, out)),
        Err(e) => return Err(format!("parsing the written text panics ({}): {}", panic_text(e), out)),
    };
    let l1: Vec<Node> = d1.root().descendants().filter(|n| !(n.is_text() && blank(&n.text()))).collect();
    let l2: Vec<Node> = d2.root().descendants().filter(|n| !(n.is_text() && blank(&n.text()))).collect();
    // two texts separated only by something dropped become one, so compare without text nodes first
    let e1: Vec<&Node> = l1.iter().filter(|n| !n.is_text()).collect();
    let e2: Vec<&Node> = l2.iter().filter(|n| !n.is_text()).collect();
    if e1.len() != e2.len() { return Err(format!("{} nodes before, {} after: {}", e1.len(), e2.len(), out)); }
    let idx = |n: &Node, side: usize| if side == 0 { e1.iter().position(|x| *x == n) } else { e2.iter().position(|x| *x == n) };
    for (a, b) in e1.iter().zip(&e2) {
        if a.node_type() != b.node_type() || *a.tag_name() != *b.tag_name() || *a.id() != *b.id() { return Err(format!("{} became {}", a, b)); }
        if a.is_comment() && *a.text() != *b.text() { return Err(format!("the comment {:?} became {:?}", *a.text(), *b.text())); }
        if idx_opt(&idx, a.parent(), 0) != idx_opt(&idx, b.parent(), 1) { return Err(format!("{} moved", a)); }
        let (x, y) = (a.attributes(), b.attributes());
        if x.len() != y.len() { return Err(format!("attributes of {} became those of {} in {}", a, b, out)); }
        for at in x.iter() {
            match y.get_value(at.name.as_ref()) {
                Some(v) if fuzzy(&at.value, v, &idx) => {}
                v => return Err(format!("{} of {} became {:?} in {}", at, a, v.map(|v| format!("{} ({})", v, kind(v))), out)),
            }
        }
        // visible text directly inside this element
        let t = |n: &Node| -> String { n.children().filter(|c| c.is_text()).map(|c| nonws(&c.text())).collect() };
        if a.is_element() && t(a) != t(b) { return Err(format!("the text of {} became {:?}", a, t(b))); }
    }
    Ok(())
}

fn idx_opt(f: &dyn Fn(&Node, usize) -> Option<usize>, n: Option<Node>, s: usize) -> Option<usize> { n.and_then(|n| f(&n, s)) }
