//! Reference model of the DOM tree, attributes, links and ownership; random and exhaustive
//! small-scope histories are run against the real library and compared after every step.

use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};

use svgdom::*;

use crate::util::*;

const TAGS: &[&str] = &["svg", "g", "rect", "linearGradient", "text", "style", "!custom", "!rect", "!Rect", "!ä"];
const NAMES: &[&str] = &["x", "fill", "stroke", "xlink:href", "clip-path", "mask", "xml:space",
    "!fill", "!href", "!data-a", "!x", "width", "stop-color", "filter", "!clip-path", "opacity", "!Fill", "!data-A", "!", "!fill ", "!ä", "!data-ab", "!url", "class", "style", "y", "d", "transform", "unicode", "font-size", "marker-mid"];
const VALS: &[&str] = &["none", "inherit", "s:abc", "s:", "n:1", "n:0.5", "currentColor", "c:red", "s:url(#a)"];
const IDS: &[&str] = &["", "a", "b", "c", "d", "e", "f", "A", "a ", "aa", "ä"];
const TEXTS: &[&str] = &["", "t", "hello", "x y"];
const PREDS: &[&str] = &["rect", "text-node", "all", "none", "has-id", "used", "g", "comment", "has-attr", "index-odd"];

fn aid(name: &str) -> AttributeId {
    match name {
        "xlink:href" => AttributeId::Href,
        "xml:space" => AttributeId::Space,
        _ => AttributeId::from_str(name).expect("known attribute name"),
    }
}

fn qname(i: usize) -> AttributeQName {
    let n = NAMES[i % NAMES.len()];
    if n.starts_with('!') { QName::Name(n[1..].to_string()) } else { QName::Id(aid(n)) }
}

fn tagname(i: usize) -> TagName {
    let n = TAGS[i % TAGS.len()];
    if n.starts_with('!') { QName::Name(n[1..].to_string()) } else { QName::Id(ElementId::from_str(n).unwrap()) }
}

fn plain_value(i: usize) -> AttributeValue {
    match VALS[i % VALS.len()] {
        "none" => AttributeValue::None,
        "inherit" => AttributeValue::Inherit,
        "currentColor" => AttributeValue::CurrentColor,
        "c:red" => AttributeValue::Color(Color::red()),
        "n:1" => AttributeValue::Number(1.0),
        "n:0.5" => AttributeValue::Number(0.5),
        s => AttributeValue::String(s[2..].to_string()),
    }
}

fn fallback(i: usize) -> Option<PaintFallback> {
    match i % 4 {
        0 => None,
        1 => Some(PaintFallback::None),
        2 => Some(PaintFallback::CurrentColor),
        _ => Some(PaintFallback::Color(Color::green())),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Elem(usize), Node(usize, usize),
    Append(usize, usize), Prepend(usize, usize), After(usize, usize), Before(usize, usize), Detach(usize),
    SetId(usize, usize), SetText(usize, usize), SetTag(usize, usize),
    SetAttr(usize, usize, usize), IfNone(usize, usize, usize),
    SetLink(usize, usize, usize), SetPaint(usize, usize, usize, usize), RawLink(usize, usize, usize, usize),
    IfNoneLink(usize, usize, usize),
    RmAttr(usize, usize),
    Remove(usize), Drain(usize, usize), Copy(usize), CopyDeep(usize),
    Iter(usize, u64),
    SelfIns(usize, usize),
    DropDoc,
}

impl Op {
    fn text(&self) -> String {
        use Op::*;
        match *self {
            Elem(a) => format!("elem {} # {}", a, TAGS[a % TAGS.len()]),
            Node(a, b) => format!("node {} {} # {} {:?}", a, b, if a % 2 == 0 { "text" } else { "comment" }, TEXTS[b % TEXTS.len()]),
            Append(a, b) => format!("append {} {}", a, b),
            Prepend(a, b) => format!("prepend {} {}", a, b),
            After(a, b) => format!("insert_after {} {}", a, b),
            Before(a, b) => format!("insert_before {} {}", a, b),
            Detach(a) => format!("detach {}", a),
            SetId(a, b) => format!("set_id {} {} # {:?}", a, b, IDS[b % IDS.len()]),
            SetText(a, b) => format!("set_text {} {}", a, b),
            SetTag(a, b) => format!("set_tag {} {} # {}", a, b, TAGS[b % TAGS.len()]),
            SetAttr(a, n, v) => format!("set_attr {} {} {} # {}={}", a, n, v, NAMES[n % NAMES.len()], VALS[v % VALS.len()]),
            IfNone(a, n, v) => format!("set_if_none {} {} {} # {}={}", a, n, v, NAMES[n % NAMES.len()], VALS[v % VALS.len()]),
            SetLink(a, n, b) => format!("set_link {} {} {} # {}", a, n, b, NAMES[n % NAMES.len()]),
            SetPaint(a, n, b, f) => format!("set_paint {} {} {} {} # {}", a, n, b, f, NAMES[n % NAMES.len()]),
            RawLink(a, n, b, k) => format!("raw_link {} {} {} {} # {}", a, n, b, k, NAMES[n % NAMES.len()]),
            IfNoneLink(a, n, b) => format!("link_if_none {} {} {} # {}", a, n, b, NAMES[n % NAMES.len()]),
            RmAttr(a, n) => format!("rm_attr {} {} # {}", a, n, NAMES[n % NAMES.len()]),
            Remove(a) => format!("remove_node {}", a),
            Drain(a, p) => format!("drain {} {} # {}", a, p, PREDS[p % PREDS.len()]),
            Copy(a) => format!("copy {}", a),
            CopyDeep(a) => format!("copy_deep {}", a),
            Iter(a, p) => format!("iter {} {}", a, p),
            SelfIns(a, k) => format!("self_insert {} {}", a, k),
            DropDoc => "drop_doc".to_string(),
        }
    }

    fn parse(l: &str) -> Option<Op> {
        use Op::*;
        let l = l.split('#').next().unwrap();
        let v: Vec<&str> = l.split_whitespace().collect();
        if v.is_empty() { return None; }
        let n = |i: usize| v.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0) as usize;
        Some(match v[0] {
            "elem" => Elem(n(1)), "node" => Node(n(1), n(2)),
            "append" => Append(n(1), n(2)), "prepend" => Prepend(n(1), n(2)),
            "insert_after" => After(n(1), n(2)), "insert_before" => Before(n(1), n(2)),
            "detach" => Detach(n(1)), "set_id" => SetId(n(1), n(2)), "set_text" => SetText(n(1), n(2)),
            "set_tag" => SetTag(n(1), n(2)), "set_attr" => SetAttr(n(1), n(2), n(3)),
            "set_if_none" => IfNone(n(1), n(2), n(3)), "set_link" => SetLink(n(1), n(2), n(3)),
            "set_paint" => SetPaint(n(1), n(2), n(3), n(4)), "raw_link" => RawLink(n(1), n(2), n(3), n(4)),
            "link_if_none" => IfNoneLink(n(1), n(2), n(3)),
            "rm_attr" => RmAttr(n(1), n(2)), "remove_node" => Remove(n(1)), "drain" => Drain(n(1), n(2)),
            "copy" => Copy(n(1)), "copy_deep" => CopyDeep(n(1)), "iter" => Iter(n(1), n(2) as u64),
            "self_insert" => SelfIns(n(1), n(2)),
            "drop_doc" => DropDoc,
            _ => return None,
        })
    }

    fn class(&self) -> Class {
        use Op::*;
        match self {
            Elem(..) | Node(..) => Class::Create,
            Append(..) | Prepend(..) | After(..) | Before(..) | Detach(..) | SelfIns(..) => Class::Edit,
            SetId(..) | SetText(..) | SetTag(..) => Class::Data,
            SetAttr(..) | IfNone(..) | RmAttr(..) => Class::Attr,
            SetLink(..) | SetPaint(..) | RawLink(..) | IfNoneLink(..) => Class::Link,
            Remove(..) => Class::Remove,
            Drain(..) => Class::Drain,
            Copy(..) | CopyDeep(..) => Class::Copy,
            Iter(..) => Class::Iter,
            DropDoc => Class::Drop,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class { Create, Edit, Data, Attr, Link, Remove, Drain, Copy, Iter, Drop }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Facet { Links, Struct, Root, Data, Attrs, AttrQuery, Linked, Owned, Iter, Res, Panic, Leak }

fn relevant(prop: &str, c: Class, f: Facet) -> bool {
    use Facet::*;
    match prop {
        "C01" => f == Links,
        "C02" => c == Class::Edit && matches!(f, Struct | Links | Data | Attrs | Linked | Owned | Panic),
        "C03" => f == Root,
        "C04" => f == Iter,
        "C05" => (c == Class::Edit || c == Class::Iter) && f == Panic,
        "C06" => matches!(c, Class::Attr | Class::Link) && matches!(f, Attrs | AttrQuery | Panic)
            || f == AttrQuery,
        "C07" => f == Linked || (matches!(c, Class::Attr | Class::Link | Class::Remove | Class::Drain) && f == Panic),
        "C08" => c == Class::Link && matches!(f, Res | Attrs | AttrQuery | Linked | Data | Struct | Panic | Owned),
        "C09" => (c == Class::Remove || c == Class::Drain) && matches!(f, Struct | Links | Data | Attrs | Linked | Owned | Panic),
        "C10" => c == Class::Drain && matches!(f, Res | Struct | Links | Data | Attrs | Linked | Owned | Panic),
        "C11" => c == Class::Copy && matches!(f, Struct | Links | Data | Attrs | Linked | Owned | Panic | Res),
        "C12" => f == Owned || f == Leak || (c == Class::Create && matches!(f, Struct | Links | Data | Attrs | Linked | Panic))
            || c == Class::Drop,
        _ => false,
    }
}

#[derive(Clone, Debug, PartialEq)]
enum MVal { Plain(AttributeValue), Link(usize), Func(usize), Paint(usize, Option<PaintFallback>) }

impl MVal {
    fn target(&self) -> Option<usize> {
        match *self { MVal::Link(i) | MVal::Func(i) | MVal::Paint(i, _) => Some(i), _ => None }
    }
}

#[derive(Clone, Debug)]
struct M {
    parent: Option<usize>,
    kids: Vec<usize>,
    ntype: NodeType,
    tag: TagName,
    id: String,
    text: String,
    attrs: Vec<(AttributeQName, MVal)>,
    owned: bool,
}

struct World {
    m: Vec<M>,
    h: Vec<Node>,
    doc: Option<Document>,
}

type Mis = (Facet, String);

impl World {
    fn new() -> World {
        let doc = Document::new();
        let root = doc.root();
        World {
            m: vec![M { parent: None, kids: vec![], ntype: NodeType::Root, tag: QName::Name(String::new()),
                id: String::new(), text: String::new(), attrs: vec![], owned: true }],
            h: vec![root],
            doc: Some(doc),
        }
    }

    fn fresh(&mut self, ntype: NodeType, tag: TagName, text: &str, h: Node) -> usize {
        self.m.push(M { parent: None, kids: vec![], ntype, tag, id: String::new(), text: text.to_string(), attrs: vec![], owned: true });
        self.h.push(h);
        self.m.len() - 1
    }

    fn is_anc(&self, a: usize, mut x: usize) -> bool {
        loop {
            if x == a { return true; }
            match self.m[x].parent { Some(p) => x = p, None => return false }
        }
    }

    fn mdetach(&mut self, x: usize) {
        if let Some(p) = self.m[x].parent.take() { self.m[p].kids.retain(|&k| k != x); }
    }

    fn msubtree(&self, x: usize, out: &mut Vec<usize>) {
        out.push(x);
        for &k in &self.m[x].kids { self.msubtree(k, out); }
    }

    fn tour(&self, x: usize, out: &mut Vec<(bool, usize)>) {
        out.push((true, x));
        for &k in &self.m[x].kids { self.tour(k, out); }
        out.push((false, x));
    }

    fn linked(&self, b: usize) -> Vec<usize> {
        let mut v = vec![];
        for (i, n) in self.m.iter().enumerate() {
            for (_, val) in &n.attrs { if val.target() == Some(b) { v.push(i); } }
        }
        v
    }

    fn midx(&self, n: &Node) -> Option<usize> { self.h.iter().position(|h| h == n) }

    fn mset(&mut self, a: usize, name: AttributeQName, v: MVal) {
        // not the library's own comparison
        self.m[a].attrs.retain(|(n, _)| match (n, &name) {
            (QName::Id(x), QName::Id(y)) => *x as usize != *y as usize,
            (QName::Name(x), QName::Name(y)) => x.as_bytes() != y.as_bytes(),
            _ => true,
        });
        self.m[a].attrs.push((name, v));
    }

    fn link_result(&self, a: usize, b: usize) -> Result<(), u8> {
        if self.m[b].id.is_empty() { return Err(1); }
        if self.m[a].id == self.m[b].id { return Err(2); }
        if self.linked(a).contains(&b) { return Err(2); }
        Ok(())
    }

    fn link_val(name: &AttributeQName, b: usize, fb: Option<PaintFallback>) -> MVal {
        if name.has_id(AttributeId::Href) { MVal::Link(b) }
        else if name.has_id(AttributeId::Fill) || name.has_id(AttributeId::Stroke) { MVal::Paint(b, fb) }
        else { MVal::Func(b) }
    }

    fn mremove(&mut self, x: usize) {
        let mut sub = vec![];
        self.msubtree(x, &mut sub);
        for &s in &sub {
            self.m[s].attrs.retain(|(_, v)| v.target().is_none());
        }
        for n in self.m.iter_mut() {
            n.attrs.retain(|(_, v)| match v.target() { Some(t) => !sub.contains(&t), None => true });
        }
        for &s in &sub {
            self.m[s].parent.map(|_| ());
            self.m[s].owned = false;
        }
        self.mdetach(x);
        for &s in &sub { self.m[s].kids.clear(); self.m[s].parent = None; }
    }

    fn pred(p: usize, n: &Node) -> bool {
        match PREDS[p % PREDS.len()] {
            "rect" => n.has_tag_name(ElementId::Rect),
            "text-node" => n.is_text(),
            "all" => true,
            "none" => false,
            "has-id" => n.has_id(),
            "used" => n.is_used(),
            "g" => n.has_tag_name(ElementId::G),
            "comment" => n.is_comment(),
            "has-attr" => !n.attributes().is_empty(),
            _ => n.id().len() % 2 == 1,
        }
    }

    fn mpred(&self, p: usize, x: usize) -> bool {
        let n = &self.m[x];
        match PREDS[p % PREDS.len()] {
            "rect" => n.tag == QName::Id(ElementId::Rect),
            "text-node" => n.ntype == NodeType::Text,
            "all" => true,
            "none" => false,
            "has-id" => !n.id.is_empty(),
            "used" => !self.linked(x).is_empty(),
            "g" => n.tag == QName::Id(ElementId::G),
            "comment" => n.ntype == NodeType::Comment,
            "has-attr" => !n.attrs.is_empty(),
            _ => n.id.len() % 2 == 1,
        }
    }

    fn pred_is_pure_static(p: usize) -> bool {
        // 'used' and 'has-attr' depend on links, which removals change while draining.
        !matches!(PREDS[p % PREDS.len()], "used" | "has-attr")
    }

    fn live(&self, i: usize) -> Option<usize> {
        let i = i % self.m.len();
        if self.m[i].owned { Some(i) } else { None }
    }

    fn live_elem(&self, i: usize) -> Option<usize> {
        let i = self.live(i)?;
        if self.m[i].ntype == NodeType::Element { Some(i) } else { None }
    }

    /// Applies the operation to both sides. `Ok(None)`: skipped (outside the property's domain).
    fn apply(&mut self, op: &Op) -> Result<Option<()>, Mis> {
        match self.apply_inner(op) {
            Ok(b) => Ok(if b { Some(()) } else { None }),
            Err(e) => Err(e),
        }
    }

    fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Mis> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| (Facet::Panic, format!("{} panicked: {}", what, panic_text(e))))
    }

    fn apply_inner(&mut self, op: &Op) -> Result<bool, Mis> {
        use Op::*;
        let what = op.text();
        macro_rules! some { ($e:expr) => { match $e { Some(v) => v, None => return Ok(false) } } }
        match *op {
            Elem(t) => {
                let tag = tagname(t);
                let doc = self.doc.as_mut().unwrap();
                let h = Self::guard(&what, || match tag { QName::Id(id) => doc.create_element(id), QName::Name(ref s) => doc.create_element(s.as_str()) })?;
                self.fresh(NodeType::Element, tag, "", h);
            }
            Node(k, t) => {
                let nt = if k % 2 == 0 { NodeType::Text } else { NodeType::Comment };
                let doc = self.doc.as_mut().unwrap();
                let text = TEXTS[t % TEXTS.len()];
                let h = Self::guard(&what, || doc.create_node(nt, text))?;
                self.fresh(nt, QName::Name(String::new()), text, h);
            }
            Append(a, b) | Prepend(a, b) | After(a, b) | Before(a, b) => {
                let a = some!(self.live(a));
                let b = some!(self.live(b));
                if b == 0 || self.is_anc(b, a) { return Ok(false); }
                let sib = matches!(*op, After(..) | Before(..));
                if sib && self.m[a].parent.is_none() { return Ok(false); }
                let mut ha = self.h[a].clone();
                let hb = self.h[b].clone();
                Self::guard(&what, || match *op {
                    Append(..) => ha.append(hb), Prepend(..) => ha.prepend(hb),
                    After(..) => ha.insert_after(hb), _ => ha.insert_before(hb),
                })?;
                self.mdetach(b);
                let (p, pos) = match *op {
                    Append(..) => (a, self.m[a].kids.len()),
                    Prepend(..) => (a, 0),
                    After(..) => { let p = self.m[a].parent.unwrap(); (p, self.m[p].kids.iter().position(|&k| k == a).unwrap() + 1) }
                    _ => { let p = self.m[a].parent.unwrap(); (p, self.m[p].kids.iter().position(|&k| k == a).unwrap()) }
                };
                self.m[p].kids.insert(pos, b);
                self.m[b].parent = Some(p);
            }
            SelfIns(a, k) => {
                // documented panic, nothing else may happen
                let a = some!(self.live(a));
                let mut ha = self.h[a].clone();
                let hb = self.h[a].clone();
                let r = catch_unwind(AssertUnwindSafe(|| match k % 4 {
                    0 => ha.append(hb), 1 => ha.prepend(hb), 2 => ha.insert_after(hb), _ => ha.insert_before(hb),
                }));
                if r.is_ok() { return Err((Facet::Struct, format!("{} did not panic", what))); }
            }
            Detach(a) => {
                let a = some!(self.live(a));
                let mut ha = self.h[a].clone();
                Self::guard(&what, || ha.detach())?;
                self.mdetach(a);
            }
            SetId(a, i) => {
                let a = some!(self.live_elem(a));
                let id = IDS[i % IDS.len()];
                let mut ha = self.h[a].clone();
                Self::guard(&what, || ha.set_id(id))?;
                self.m[a].id = id.to_string();
            }
            SetText(a, i) => {
                let a = some!(self.live(a));
                if self.m[a].ntype == NodeType::Element { return Ok(false); }
                let t = TEXTS[i % TEXTS.len()];
                let mut ha = self.h[a].clone();
                Self::guard(&what, || ha.set_text(t))?;
                self.m[a].text = t.to_string();
            }
            SetTag(a, i) => {
                let a = some!(self.live_elem(a));
                let tag = tagname(i);
                let mut ha = self.h[a].clone();
                Self::guard(&what, || ha.set_tag_name(tag.as_ref()))?;
                self.m[a].tag = tag;
            }
            SetAttr(a, n, v) => {
                let a = some!(self.live_elem(a));
                let name = qname(n);
                let val = plain_value(v);
                let mut ha = self.h[a].clone();
                let attr = Attribute { name: name.clone(), value: val.clone() };
                Self::guard(&what, || ha.set_attribute(attr))?;
                self.mset(a, name, MVal::Plain(val));
            }
            IfNone(a, n, v) => {
                let a = some!(self.live_elem(a));
                let name = qname(n);
                let val = plain_value(v);
                let mut ha = self.h[a].clone();
                let attr = Attribute { name: name.clone(), value: val.clone() };
                Self::guard(&what, || ha.set_attribute_if_none(attr))?;
                if !self.m[a].attrs.iter().any(|(n, _)| *n == name) { self.mset(a, name, MVal::Plain(val)); }
            }
            IfNoneLink(a, n, b) => {
                let a = some!(self.live_elem(a));
                let b = some!(self.live(b));
                let name = qname(n);
                let has = self.m[a].attrs.iter().any(|(n, _)| *n == name);
                if !has && self.link_result(a, b).is_err() { return Ok(false); }
                let mut ha = self.h[a].clone();
                let hb = self.h[b].clone();
                Self::guard(&what, || ha.set_attribute_if_none((name.as_ref(), hb)))?;
                if !has { let v = Self::link_val(&name, b, None); self.mset(a, name, v); }
            }
            SetLink(a, n, b) | SetPaint(a, n, b, _) | RawLink(a, n, b, _) => {
                let a = some!(self.live_elem(a));
                let b = some!(self.live(b));
                let name = qname(n);
                let exp = self.link_result(a, b);
                let mut ha = self.h[a].clone();
                let hb = self.h[b].clone();
                let mut fb = None;
                let res = match *op {
                    SetLink(..) => Self::guard(&what, || match name {
                        QName::Id(id) => ha.set_attribute_checked((id, hb)),
                        QName::Name(ref s) => ha.set_attribute_checked((s.as_str(), hb)),
                    })?,
                    SetPaint(_, _, _, f) => {
                        fb = fallback(f);
                        Self::guard(&what, || ha.set_attribute_checked((name.as_ref(), (hb, fb))))?
                    }
                    RawLink(_, _, _, k) => {
                        let v = match k % 6 {
                            0 | 1 => AttributeValue::Link(hb),
                            2 => AttributeValue::FuncLink(hb),
                            k => { fb = fallback(k); AttributeValue::Paint(hb, fb) }
                        };
                        let attr = Attribute { name: name.clone(), value: v };
                        Self::guard(&what, || ha.set_attribute_checked(attr))?
                    }
                    _ => unreachable!(),
                };
                let got = match res { Ok(()) => Ok(()), Err(Error::ElementMustHaveAnId) => Err(1), Err(Error::ElementCrosslink) => Err(2) };
                if got != exp {
                    return Err((Facet::Res, format!("{}: result {:?}, expected {:?} (1 = must have an id, 2 = crosslink)", what, got, exp)));
                }
                if exp.is_ok() { let v = Self::link_val(&name, b, fb); self.mset(a, name, v); }
            }
            RmAttr(a, n) => {
                let a = some!(self.live_elem(a));
                let name = qname(n);
                let mut ha = self.h[a].clone();
                Self::guard(&what, || ha.remove_attribute(name.as_ref()))?;
                self.m[a].attrs.retain(|(x, _)| *x != name);
            }
            Remove(a) => {
                let a = some!(self.live(a));
                if a == 0 { return Ok(false); }
                let h = self.h[a].clone();
                let doc = self.doc.as_mut().unwrap();
                Self::guard(&what, || doc.remove_node(h))?;
                self.mremove(a);
            }
            Drain(a, p) => {
                let a = some!(self.live(a));
                if !Self::pred_is_pure_static(p) { return Ok(false); }
                let mut top = vec![];
                fn walk(w: &World, x: usize, p: usize, out: &mut Vec<usize>) {
                    for &k in &w.m[x].kids { if w.mpred(p, k) { out.push(k) } else { walk(w, k, p, out) } }
                }
                walk(self, a, p, &mut top);
                let h = self.h[a].clone();
                let doc = self.doc.as_mut().unwrap();
                let n = Self::guard(&what, || doc.drain(h, |n| Self::pred(p, n)))?;
                if n != top.len() {
                    return Err((Facet::Res, format!("{} returned {}, expected {}", what, n, top.len())));
                }
                for t in top { self.mremove(t); }
            }
            Copy(a) | CopyDeep(a) => {
                let a = some!(self.live(a));
                if a == 0 { return Ok(false); }
                let deep = matches!(*op, CopyDeep(..));
                let mut src = vec![];
                if deep { self.msubtree(a, &mut src) } else { src.push(a) }
                if self.m.len() + src.len() > 40 { return Ok(false); }
                for &s in &src {
                    for (_, v) in &self.m[s].attrs {
                        if let Some(t) = v.target() { if self.m[t].id.is_empty() { return Ok(false); } }
                    }
                }
                let h = self.h[a].clone();
                let doc = self.doc.as_mut().unwrap();
                let c = Self::guard(&what, || if deep { doc.copy_node_deep(h) } else { doc.copy_node(h) })?;
                if self.midx(&c).is_some() {
                    return Err((Facet::Struct, format!("{}: the copy is an existing node", what)));
                }
                // model copies, handles found by walking both sides in parallel
                fn cp(w: &mut World, s: usize, real: svgdom::Node, deep: bool, what: &str) -> Result<usize, Mis> {
                    let src = w.m[s].clone();
                    let i = w.fresh(src.ntype, src.tag.clone(), &src.text, real.clone());
                    w.m[i].attrs = src.attrs.clone();
                    if deep {
                        let rk: Vec<svgdom::Node> = real.children().take(src.kids.len() + 2).collect();
                        if rk.len() != src.kids.len() {
                            return Err((Facet::Struct, format!("{}: copy of node {} has {} children, source {}", what, s, rk.len(), src.kids.len())));
                        }
                        for (k, r) in src.kids.iter().zip(rk) {
                            if w.midx(&r).is_some() { return Err((Facet::Struct, format!("{}: the copy shares a node with the source", what))); }
                            let c = cp(w, *k, r, true, what)?;
                            w.m[c].parent = Some(i);
                            w.m[i].kids.push(c);
                        }
                    }
                    Ok(i)
                }
                cp(self, a, c, deep, &what)?;
            }
            Iter(a, pat) => {
                let a = some!(self.live(a));
                let h = self.h[a].clone();
                Self::guard(&what, || self.check_iters(a, &h, pat))??;
            }
            DropDoc => {
                let doc = self.doc.take().unwrap();
                Self::guard(&what, move || drop(doc))?;
            }
        }
        Ok(true)
    }

    fn names(&self, v: &[Node]) -> Vec<String> {
        v.iter().map(|n| self.midx(n).map(|i| i.to_string()).unwrap_or("?".into())).collect()
    }

    fn check_iters(&self, a: usize, h: &Node, pat: u64) -> Result<(), Mis> {
        let cap = self.m.len() * 2 + 4;
        let bad = |w: &str, got: &[Node], exp: &[usize]| -> Result<(), Mis> {
            let same = got.len() == exp.len() && got.iter().zip(exp).all(|(n, i)| *n == self.h[*i]);
            if same { Ok(()) } else { Err((Facet::Iter, format!("{} of node {}: got {:?}, expected {:?}", w, a, self.names(got), exp))) }
        };
        let mut anc = vec![a];
        while let Some(p) = self.m[*anc.last().unwrap()].parent { anc.push(p); }
        bad("ancestors", &h.ancestors().take(cap).collect::<Vec<_>>(), &anc)?;
        let (mut prec, mut foll) = (vec![a], vec![a]);
        if let Some(p) = self.m[a].parent {
            let k = &self.m[p].kids;
            let i = k.iter().position(|&x| x == a).unwrap();
            prec = k[..=i].iter().rev().cloned().collect();
            foll = k[i..].to_vec();
        }
        bad("preceding_siblings", &h.preceding_siblings().take(cap).collect::<Vec<_>>(), &prec)?;
        bad("following_siblings", &h.following_siblings().take(cap).collect::<Vec<_>>(), &foll)?;
        let mut sub = vec![];
        self.msubtree(a, &mut sub);
        bad("descendants", &h.descendants().take(cap).collect::<Vec<_>>(), &sub)?;
        bad("children", &h.children().take(cap).collect::<Vec<_>>(), &self.m[a].kids)?;
        if h.has_children() != !self.m[a].kids.is_empty() { return Err((Facet::Iter, format!("has_children of node {}", a))); }
        let svg: Vec<usize> = self.m[a].kids.iter().cloned().filter(|&k| matches!(self.m[k].tag, QName::Id(_))).collect();
        bad("children().svg()", &h.children().svg().take(cap).map(|(_, n)| n).collect::<Vec<_>>(), &svg)?;

        // double ended, interleaved by the bits of `pat`
        let kids = &self.m[a].kids;
        let (mut lo, mut hi) = (0, kids.len());
        let mut it = h.children();
        for s in 0..kids.len() + 3 {
            let back = (pat >> (s % 64)) & 1 == 1;
            let got = if back { it.next_back() } else { it.next() };
            let exp = if lo == hi { None } else if back { hi -= 1; Some(kids[hi]) } else { lo += 1; Some(kids[lo - 1]) };
            if got != exp.map(|i| self.h[i].clone()) {
                return Err((Facet::Iter, format!("children of node {} step {} ({}): got {:?}, expected {:?}", a, s,
                    if back { "back" } else { "front" }, got.map(|g| self.midx(&g)), exp)));
            }
        }
        let mut tour = vec![];
        self.tour(a, &mut tour);
        let (mut lo, mut hi) = (0, tour.len());
        let mut it = h.traverse();
        for s in 0..tour.len() + 3 {
            let back = (pat >> (s % 64)) & 1 == 1;
            let got = if back { it.next_back() } else { it.next() };
            let exp = if lo == hi { None } else if back { hi -= 1; Some(tour[hi]) } else { lo += 1; Some(tour[lo - 1]) };
            let g = match got { Some(NodeEdge::Start(ref n)) => Some((true, n.clone())), Some(NodeEdge::End(ref n)) => Some((false, n.clone())), None => None };
            let e = exp.map(|(b, i)| (b, self.h[i].clone()));
            if g != e {
                return Err((Facet::Iter, format!("traverse of node {} step {} ({}): got {:?}, expected {:?}", a, s,
                    if back { "back" } else { "front" }, g.map(|(b, n)| (b, self.midx(&n))), exp)));
            }
        }
        Ok(())
    }

    /// Self-consistency of the real links, independent of the model (C01).
    fn links_consistent(&self) -> Result<(), String> {
        let cap = self.m.len() + 2;
        for (i, n) in self.h.iter().enumerate() {
            let fwd: Vec<Node> = {
                let mut v = vec![];
                let mut c = n.first_child();
                while let Some(x) = c { c = x.next_sibling(); v.push(x); if v.len() > cap { return Err(format!("sibling chain of node {} does not end", i)); } }
                v
            };
            let mut bwd: Vec<Node> = {
                let mut v = vec![];
                let mut c = n.last_child();
                while let Some(x) = c { c = x.previous_sibling(); v.push(x); if v.len() > cap { return Err(format!("backward sibling chain of node {} does not end", i)); } }
                v
            };
            bwd.reverse();
            if fwd != bwd { return Err(format!("children of node {} differ forward {:?} and backward {:?}", i, self.names(&fwd), self.names(&bwd))); }
            for c in &fwd {
                if c.parent().as_ref() != Some(n) { return Err(format!("a child of node {} does not report it as parent", i)); }
            }
            match n.parent() {
                Some(p) => {
                    let mut cnt = 0;
                    let mut c = p.first_child();
                    let mut steps = 0;
                    while let Some(x) = c { if x == *n { cnt += 1; } c = x.next_sibling(); steps += 1; if steps > cap { break; } }
                    if cnt != 1 { return Err(format!("node {} occurs {} times in its parent's child list", i, cnt)); }
                }
                None => {
                    if n.previous_sibling().is_some() || n.next_sibling().is_some() {
                        return Err(format!("node {} has no parent but a sibling", i));
                    }
                }
            }
        }
        Ok(())
    }

    fn compare(&self, only: Option<usize>) -> Vec<Mis> {
        let mut out: Vec<Mis> = vec![];
        let _ = only;
        if let Err(m) = self.links_consistent() {
            out.push((Facet::Links, m));
            for i in 0..self.m.len() {
                // the chain of parents must end before root() may be asked
                let (mut x, mut steps) = (self.h[i].clone(), 0);
                while let Some(p) = x.parent() { x = p; steps += 1; if steps > self.m.len() { break; } }
                if steps > self.m.len() { continue; }
                let mut r = i;
                while let Some(p) = self.m[r].parent { r = p; }
                if self.h[i].root() != self.h[r] { out.push((Facet::Root, format!("root of node {} is {:?}, expected {}", i, self.midx(&self.h[i].root()), r))); }
            }
            return out;
        }
        let hh = |i: Option<usize>| i.map(|i| self.h[i].clone());
        for (i, m) in self.m.iter().enumerate() {
            let n = &self.h[i];
            let (mut prev, mut next) = (None, None);
            if let Some(p) = m.parent {
                let k = &self.m[p].kids;
                let j = k.iter().position(|&x| x == i).unwrap();
                if j > 0 { prev = Some(k[j - 1]); }
                if j + 1 < k.len() { next = Some(k[j + 1]); }
            }
            if n.parent() != hh(m.parent) { out.push((Facet::Struct, format!("parent of node {}: {:?}, expected {:?}", i, n.parent().map(|x| self.midx(&x)), m.parent))); }
            if n.previous_sibling() != hh(prev) || n.next_sibling() != hh(next) { out.push((Facet::Struct, format!("siblings of node {} differ from the expected {:?} {:?}", i, prev, next))); }
            if n.first_child() != hh(m.kids.first().cloned()) || n.last_child() != hh(m.kids.last().cloned()) {
                out.push((Facet::Struct, format!("first/last child of node {} differ, expected children {:?}", i, m.kids)));
            }
            let has_parent = match m.parent { Some(p) => self.m[p].ntype != NodeType::Root, None => false };
            if n.has_parent() != has_parent { out.push((Facet::Struct, format!("has_parent of node {}", i))); }
            let mut r = i;
            while let Some(p) = self.m[r].parent { r = p; }
            if n.root() != self.h[r] { out.push((Facet::Root, format!("root of node {} is {:?}, expected {}", i, self.midx(&n.root()), r))); }
            if n.node_type() != m.ntype || *n.tag_name() != m.tag || *n.id() != m.id || *n.text() != m.text
                || n.has_id() == m.id.is_empty()
                || n.is_element() != (m.ntype == NodeType::Element) || n.is_text() != (m.ntype == NodeType::Text)
                || n.is_comment() != (m.ntype == NodeType::Comment) || n.is_root() != (m.ntype == NodeType::Root) {
                out.push((Facet::Data, format!("node {}: {:?} {:?} id={:?} text={:?}, expected {:?}", i, n.node_type(), *n.tag_name(), *n.id(), *n.text(), m)));
            }
            if n.is_detached() == m.owned { out.push((Facet::Owned, format!("node {} is_detached = {}, but owned by the document = {}", i, n.is_detached(), m.owned))); }
            // attributes
            let attrs = n.attributes();
            let real: Vec<&Attribute> = attrs.iter().collect();
            let conv = |v: &MVal| match *v {
                MVal::Plain(ref v) => v.clone(),
                MVal::Link(t) => AttributeValue::Link(self.h[t].clone()),
                MVal::Func(t) => AttributeValue::FuncLink(self.h[t].clone()),
                MVal::Paint(t, f) => AttributeValue::Paint(self.h[t].clone(), f),
            };
            for x in 0..real.len() { for y in 0..x { if real[x].name == real[y].name {
                out.push((Facet::AttrQuery, format!("node {} stores attribute {} twice", i, real[x].name)));
            } } }
            if attrs.len() != real.len() || attrs.is_empty() != real.is_empty() { out.push((Facet::AttrQuery, format!("attribute count of node {}", i))); }
            let mut same = real.len() == m.attrs.len();
            for (name, v) in &m.attrs {
                let e = conv(v);
                if attrs.get_value(name.as_ref()).map(|g| eq_val(g, &e)) != Some(true) { same = false; }
            }
            if !same {
                out.push((Facet::Attrs, format!("attributes of node {}: {:?}, expected {:?}", i,
                    real.iter().map(|a| format!("{}={}", a.name, self.show(&a.value))).collect::<Vec<_>>(),
                    m.attrs.iter().map(|(n, v)| format!("{}={:?}", n, v)).collect::<Vec<_>>())));
            }
            for k in 0..NAMES.len() {
                let q = qname(k);
                let it = real.iter().find(|a| a.name == q);
                let (c, g, gv, ha) = (attrs.contains(q.as_ref()), attrs.get(q.as_ref()), attrs.get_value(q.as_ref()), n.has_attribute(q.as_ref()));
                if c != it.is_some() || ha != it.is_some() || g.is_some() != it.is_some() || gv.is_some() != it.is_some()
                    || g.map(|a| a as *const _) != it.map(|a| *a as *const _) || gv.map(|a| a as *const _) != it.map(|a| &a.value as *const _) {
                    out.push((Facet::AttrQuery, format!("lookup of {} on node {} disagrees with iteration", q, i)));
                }
            }
            // links
            let mut got: Vec<usize> = n.linked_nodes().iter().map(|x| self.midx(x).unwrap_or(9999)).collect();
            let mut exp: Vec<usize> = vec![];
            for (j, src) in self.h.iter().enumerate() {
                for a in src.attributes().iter() {
                    let t = match a.value { AttributeValue::Link(ref x) | AttributeValue::FuncLink(ref x) | AttributeValue::Paint(ref x, _) => x, _ => continue };
                    if t == n { exp.push(j); }
                }
            }
            got.sort(); exp.sort();
            let mexp = { let mut v = self.linked(i); v.sort(); v };
            if got != exp || got != mexp || n.uses_count() != exp.len() || n.is_used() != !exp.is_empty() {
                out.push((Facet::Linked, format!("node {} lists {:?} as linking to it; by attributes {:?}, expected {:?}", i, got, exp, mexp)));
            }
        }
        out
    }

    fn show(&self, v: &AttributeValue) -> String {
        match *v {
            AttributeValue::Link(ref n) => format!("Link({:?})", self.midx(n)),
            AttributeValue::FuncLink(ref n) => format!("FuncLink({:?})", self.midx(n)),
            AttributeValue::Paint(ref n, f) => format!("Paint({:?},{:?})", self.midx(n), f),
            ref v => format!("{}", v),
        }
    }

    fn after_drop(&self) -> Vec<Mis> {
        let mut out = vec![];
        for (i, n) in self.h.iter().enumerate() {
            if !self.m[i].owned { continue; }
            if n.parent().is_some() || n.first_child().is_some() || n.last_child().is_some()
                || n.previous_sibling().is_some() || n.next_sibling().is_some()
                || !n.attributes().is_empty() || !n.linked_nodes().is_empty() {
                out.push((Facet::Leak, format!("node {} keeps attributes, links or relatives after its document was dropped", i)));
            }
        }
        out
    }
}

fn eq_val(a: &AttributeValue, b: &AttributeValue) -> bool { a == b }

#[derive(Clone)]
pub struct TreeCase { pub ops: Vec<Op> }

impl TreeCase {
    fn run(&self, prop: &str) -> Result<(), String> {
        let mut w = ManuallyDrop::new(World::new());
        for (k, op) in self.ops.iter().enumerate() {
            let c = op.class();
            let fail = |m: Mis| -> Result<(), String> {
                if relevant(prop, c, m.0) { Err(format!("after step {} ({}): {}", k, op.text(), m.1)) } else { Ok(()) }
            };
            match w.apply(op) {
                Ok(None) => continue,
                Ok(Some(())) => {}
                Err(m) => {
                    fail(m)?;
                    // not this property's business; the two sides have diverged (or a borrow is stuck)
                    return Ok(());
                }
            }
            if *op == Op::DropDoc {
                for m in w.after_drop() { fail(m)?; }
                break;
            }
            if c == Class::Iter { continue; }
            let mis = match catch_unwind(AssertUnwindSafe(|| w.compare(None))) {
                Ok(m) => m,
                Err(e) => vec![(Facet::Panic, format!("navigation panicked: {}", panic_text(e)))],
            };
            let any = !mis.is_empty();
            for m in mis { fail(m)?; }
            if any { return Ok(()); }
        }
        if w.doc.is_some() {
            if catch_unwind(AssertUnwindSafe(|| { let d = w.doc.take(); drop(d); })).is_err() {
                if prop == "C12" { return Err("dropping the document panicked".into()); }
                return Ok(());
            }
            if prop == "C12" { for m in w.after_drop() { return Err(m.1); } }
        }
        drop(ManuallyDrop::into_inner(w));
        Ok(())
    }
}

impl Case for TreeCase {
    const KIND: &'static str = "tree";
    fn encode(&self) -> String { self.ops.iter().map(|o| o.text()).collect::<Vec<_>>().join("\n") }
    fn decode(s: &str) -> Self { TreeCase { ops: s.lines().filter_map(Op::parse).collect() } }
    fn check(&self, prop: &str) -> Result<(), String> {
        if prop == "C12" {
            let mut leaks = 0;
            for _ in 0..2 {
                let b = live_blocks();
                self.run(prop)?;
                if live_blocks() != b { leaks += 1; } else { break; }
            }
            // a history that fails for another reason leaks on purpose, so ask the other facets first
            if leaks == 2 && self.run_clean() {
                return Err("memory is still allocated after the document and all handles were dropped".into());
            }
            Ok(())
        } else {
            self.run(prop)
        }
    }
    fn shrinks(&self) -> Vec<Self> {
        let mut v = vec![];
        for i in (0..self.ops.len()).rev() {
            let mut o = self.ops.clone();
            o.remove(i);
            // Removing a creating step renumbers the later nodes; other steps still make sense.
            v.push(TreeCase { ops: o });
        }
        for i in 0..self.ops.len() {
            if let Op::Elem(_) = self.ops[i] {
                let mut o = self.ops.clone();
                o.remove(i);
                let idx = 1 + self.ops[..i].iter().filter(|o| matches!(o, Op::Elem(_) | Op::Node(..))).count();
                let dec = |x: usize| if x > idx { x - 1 } else { x };
                for op in o.iter_mut() { *op = remap(op, &dec); }
                v.push(TreeCase { ops: o });
            }
        }
        v
    }
    fn trivial(&self) -> bool { self.ops.len() < 3 }
}

impl TreeCase {
    fn run_clean(&self) -> bool {
        ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11"].iter().all(|p| {
            catch_unwind(AssertUnwindSafe(|| self.run(p))).map(|r| r.is_ok()).unwrap_or(false)
        })
    }
}

fn remap(op: &Op, f: &dyn Fn(usize) -> usize) -> Op {
    use Op::*;
    match *op {
        Append(a, b) => Append(f(a), f(b)), Prepend(a, b) => Prepend(f(a), f(b)),
        After(a, b) => After(f(a), f(b)), Before(a, b) => Before(f(a), f(b)), Detach(a) => Detach(f(a)),
        SetId(a, b) => SetId(f(a), b), SetText(a, b) => SetText(f(a), b), SetTag(a, b) => SetTag(f(a), b),
        SetAttr(a, b, c) => SetAttr(f(a), b, c), IfNone(a, b, c) => IfNone(f(a), b, c),
        SetLink(a, n, b) => SetLink(f(a), n, f(b)), SetPaint(a, n, b, c) => SetPaint(f(a), n, f(b), c),
        RawLink(a, n, b, c) => RawLink(f(a), n, f(b), c), IfNoneLink(a, n, b) => IfNoneLink(f(a), n, f(b)),
        RmAttr(a, b) => RmAttr(f(a), b), Remove(a) => Remove(f(a)), Drain(a, b) => Drain(f(a), b),
        Copy(a) => Copy(f(a)), CopyDeep(a) => CopyDeep(f(a)), Iter(a, b) => Iter(f(a), b), SelfIns(a, b) => SelfIns(f(a), b),
        ref o => o.clone(),
    }
}

/// All ordered forests with n nodes, as parent arrays in preorder (0 = document root).
fn forests(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n { out.push(cur.clone()); return; }
        // the next node's parent is an ancestor-or-self of the previous node, or the root
        let mut p = cur.len(); // index of previous node (1-based), 0 if none
        loop {
            cur.push(p);
            rec(cur, n, out);
            cur.pop();
            if p == 0 { break; }
            p = cur[p - 1];
        }
    }
    let mut out = vec![];
    rec(&mut vec![], n, &mut out);
    out
}

fn shape_ops(f: &[usize]) -> Vec<Op> {
    let mut o = vec![];
    for i in 0..f.len() { o.push(Op::Elem(i % 3)); }
    for (i, &p) in f.iter().enumerate() { o.push(Op::Append(p, i + 1)); }
    o
}

pub fn run(ctx: &mut Ctx) {
    let prop = ctx.prop.clone();
    // ---- exhaustive small scope ----
    match prop.as_str() {
        "C01" | "C02" | "C03" | "C05" => {
            for n in 1..=5 {
                for f in forests(n) {
                    for a in 0..=n { for b in 1..=n {
                        for k in 0..5 {
                            let mut ops = shape_ops(&f);
                            ops.push(match k { 0 => Op::Append(a, b), 1 => Op::Prepend(a, b), 2 => Op::After(a, b), 3 => Op::Before(a, b), _ => if a == 0 { Op::Detach(b) } else { continue } });
                            if !ctx.case(&TreeCase { ops }) { return; }
                        }
                    } }
                }
            }
            ctx.exhaustive_parts.push("every single structural edit on every ordered forest of at most 5 nodes".into());
        }
        "C04" => {
            for n in 1..=4 {
                for f in forests(n) {
                    for a in 0..=n {
                        let bits = 2 * (n + 1);
                        for pat in 0..(1u64 << bits) {
                            if a != 0 && pat >= 1 << (2 * n) { break; }
                            let mut ops = shape_ops(&f);
                            ops.push(Op::Iter(a, pat));
                            if !ctx.case(&TreeCase { ops }) { return; }
                        }
                    }
                }
            }
            ctx.exhaustive_parts.push("every front/back interleaving over every ordered forest of at most 4 nodes".into());
        }
        "C09" | "C10" | "C11" => {
            for n in 1..=5 {
                for f in forests(n) {
                    for a in 0..=n {
                        let cases: Vec<Vec<Op>> = match prop.as_str() {
                            "C09" => vec![vec![Op::Remove(a)]],
                            "C10" => (0..1usize << n).map(|mask| {
                                let mut v: Vec<Op> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| Op::SetTag(i + 1, 2)).collect();
                                for i in 0..n { if mask >> i & 1 == 0 { v.push(Op::SetTag(i + 1, 1)); } }
                                v.push(Op::Drain(a, 0));
                                v
                            }).collect(),
                            _ => vec![vec![Op::CopyDeep(a)], vec![Op::Copy(a)]],
                        };
                        for c in cases {
                            let mut ops = shape_ops(&f);
                            ops.extend(c);
                            if !ctx.case(&TreeCase { ops }) { return; }
                        }
                    }
                }
            }
            ctx.exhaustive_parts.push("every ordered forest of at most 5 nodes and every start node (drain: every subset of matching nodes)".into());
        }
        _ => {}
    }
    // ---- random histories ----
    while ctx.more() {
        for _ in 0..50 {
            let c = random_case(&prop, &mut ctx.rng);
            if !ctx.case(&c) { return; }
        }
    }
}

fn random_case(prop: &str, r: &mut Rng) -> TreeCase {
    let big = r.chance(1, 25);
    let n = if big { 10 + r.below(40) } else { 2 + r.below(8) };
    let mut ops = vec![];
    let link_heavy = matches!(prop, "C06" | "C07" | "C08" | "C09" | "C11" | "C12");
    for _ in 0..n {
        ops.push(if r.chance(1, 6) { Op::Node(r.below(2), r.below(4)) } else { Op::Elem(r.below(TAGS.len())) });
    }
    if link_heavy || r.chance(1, 2) {
        for i in 1..=n { if r.chance(4, 5) { ops.push(Op::SetId(i, if r.chance(1, 8) { r.below(IDS.len()) } else { i })); } }
    }
    let chain = big && r.chance(1, 2);
    for i in 1..=n { if r.chance(3, 4) { let p = if chain { i - 1 } else { r.below(i) }; ops.push(if r.chance(1, 2) { Op::Append(p, i) } else { Op::Prepend(p, i) }); } }
    let few_names: Vec<usize> = { let k = 1 + r.below(4); (0..k).map(|_| r.below(NAMES.len())).collect() };
    let len = 4 + r.below(28);
    if r.chance(1, 25) {
        // one element with many attributes
        let (a, k) = (1 + r.below(n), r.below(NAMES.len()));
        for i in 0..10 + r.below(NAMES.len() - 10) { ops.push(Op::SetAttr(a, (k + i) % NAMES.len(), r.below(VALS.len()))); }
    }
    for _ in 0..len {
        let t = n + 1 + ops.iter().filter(|o| matches!(o, Op::Copy(_) | Op::CopyDeep(_) | Op::Elem(_))).count();
        let t = if t > n + 8 { n + 8 } else { t };
        let a = r.below(t);
        let b = r.below(t);
        let nm = if r.chance(3, 4) { *r.pick(&few_names) } else { r.below(NAMES.len()) };
        let edit = |r: &mut Rng| match r.below(5) { 0 => Op::Append(a, b), 1 => Op::Prepend(a, b), 2 => Op::After(a, b), 3 => Op::Before(a, b), _ => Op::Detach(a) };
        let attr = |r: &mut Rng| match r.below(9) {
            0 => Op::SetAttr(a, nm, r.below(VALS.len())), 1 => Op::IfNone(a, nm, r.below(VALS.len())),
            2 | 3 => Op::SetLink(a, nm, b), 4 => Op::SetPaint(a, nm, b, r.below(4)), 5 => Op::RawLink(a, nm, b, r.below(6)),
            6 => Op::IfNoneLink(a, nm, b), 7 => Op::SetId(a, r.below(IDS.len())), _ => Op::RmAttr(a, nm) };
        let w = if link_heavy { 60 } else { 25 };
        let op = if r.chance(w, 100) { attr(r) } else {
            match r.below(24) {
                0 => Op::Elem(r.below(TAGS.len())),
                1 => Op::Node(r.below(2), r.below(4)),
                2 => Op::Remove(a),
                3 => Op::Drain(a, r.below(PREDS.len())),
                4 => Op::Copy(a),
                5 => Op::CopyDeep(a),
                6 => Op::SetText(a, r.below(4)),
                7 => Op::SetTag(a, r.below(TAGS.len())),
                8 | 9 => Op::Iter(a, r.next()),
                10 => Op::SelfIns(a, r.below(4)),
                11 if matches!(prop, "C09") => Op::Remove(a),
                12 if matches!(prop, "C10") => Op::Drain(a, r.below(PREDS.len())),
                13 if matches!(prop, "C11") => Op::CopyDeep(a),
                14 if matches!(prop, "C04") => Op::Iter(a, r.next()),
                _ => edit(r),
            }
        };
        ops.push(op);
    }
    match prop {
        "C09" => ops.push(Op::Remove(1 + r.below(n))),
        "C10" => ops.push(Op::Drain(r.below(n), r.below(PREDS.len()))),
        "C11" => ops.push(Op::CopyDeep(1 + r.below(n))),
        "C12" => ops.push(Op::DropDoc),
        "C04" => { for _ in 0..3 { ops.push(Op::Iter(r.below(n + 1), r.next())); } }
        _ => {}
    }
    TreeCase { ops }
}
