//! Random SVG/XML texts.

use crate::names_table::{ATTRIBUTES, ELEMENTS};
use crate::util::*;

pub const VALUES: &[&str] = &["none", "inherit", "currentColor", "1", "0.5", "-1", "2", "1e3", "0", "10px", "50%", "1em", "-3.5mm",
    "1 2 3", "1,2", "red", "#f00", "#12AB9f", "rgb(1,2,3)", "auto", "normal", "baseline", "sub", "super", "nonzero", "evenodd",
    "M 10 20 L 30 40", "M 10 20 L x", "x", "m1 2h3v4z", "translate(1 2)", "matrix(1 0 0 1 0 0)", "scale(1)", "rotate(45)", "translate(0)",
    "0 0 10 20", "0 0 -1 2", "xMinYMin", "xMidYMax slice", "30deg", "0.5rad", "", "  1  ", " abc ", "abc", "1 2,3 4", "10,20 30,40 5", "bad!", "1 px",
    "hidden", "visible", "small", "bold", "a b", "1.5 ", "2.0001", "0.99999", "1.0", "-0.0", "5e-1", "inherit ", " none",
    "url(#a", "url()", "url(#a)x", "url(#a) #00ff00", "url(#b) none", "url(#zz) red", "url(#zz) currentColor", "url(#zz) none", "url(#zz)", "url(#a)", "url(#b)", "url(#c)", "url(#d) bad",
    "#a", "#b", "#c", "#zz", "http://x/y.png", "data:image/png;base64,AA==", "préserve", "preserve", "default", "text/css", "ä€𝄞"];

const LINKS: &[&str] = &["url(#a)", "url(#b)", "url(#c)", "url(#d)", "url(#e)", "url(#zz)", "url(#a) red", "url(#b) none", "url(#zz) blue", "url(#zz) none", "url(#c) currentColor"];
const HREFS: &[&str] = &["#a", "#b", "#c", "#d", "#e", "#zz", "img.png"];
const IDS: &[&str] = &["a", "b", "c", "d", "e"];
const COMMON: &[&str] = &["svg", "g", "rect", "path", "linearGradient", "stop", "use", "text", "tspan", "defs", "pattern", "clipPath", "mask", "tref", "image", "animate", "set", "title", "filter", "feComposite", "textPath", "a"];
const COMMON_ATTRS: &[&str] = &["fill", "stroke", "opacity", "x", "y", "dx", "transform", "d", "points", "clip-path", "mask", "filter", "marker-start", "marker", "marker-end", "font-size", "stroke-width", "stroke-dasharray",
    "stop-color", "offset", "viewBox", "k1", "k4", "fill-opacity", "display", "unicode", "gradientTransform", "rotate", "stdDeviation", "orient", "color", "letter-spacing", "width"];

pub struct Cfg {
    pub attrs: usize,     // average number of plain attributes
    pub styles: bool,
    pub links: usize,     // percent
    pub text: usize,      // percent of children that are text
    pub exotic: bool,     // foreign names, namespaces, PIs, CDATA, entities
    pub all_attrs: bool,
    pub simple_values: bool,
    pub no_markup_chars: bool,
    pub max_nodes: usize,
}

impl Cfg {
    pub fn for_prop(p: &str, r: &mut Rng) -> Cfg {
        let mut c = Cfg { attrs: 2, styles: true, links: 25, text: 20, exotic: true, all_attrs: false, simple_values: false, no_markup_chars: false, max_nodes: 2 + r.below(14) };
        match p {
            "C17" => { c.links = 30; c.text = if r.chance(1, 3) { 20 } else { 3 }; c.attrs = 3; c.exotic = r.chance(1, 4); c.max_nodes = 2 + r.below(6); }
            "C07" | "C18" => { c.links = 70; c.text = 3; c.exotic = r.chance(1, 4); c.styles = r.chance(1, 3); }
            "C19" => { c.text = 65; c.attrs = 0; c.links = 0; c.styles = false; c.exotic = r.chance(1, 3); }
            "C20" => { c.all_attrs = true; c.attrs = 5; c.text = 3; c.links = 10; c.styles = r.chance(1, 5); c.exotic = false; c.max_nodes = 1 + r.below(5); }
            "C21" => { c.attrs = 1; c.text = 30; c.all_attrs = r.chance(1, 2); }
            "C23" => { c.no_markup_chars = true; c.simple_values = r.chance(1, 2); c.all_attrs = r.chance(1, 2); c.text = 15; }
            _ => {}
        }
        c
    }
}

struct G<'a> { r: &'a mut Rng, c: Cfg, out: String, budget: usize }

pub fn document(r: &mut Rng, prop: &str) -> String {
    let c = Cfg::for_prop(prop, r);
    let budget = c.max_nodes;
    let mut g = G { r, c, out: String::new(), budget };
    g.doc();
    g.out
}

fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;") }

impl<'a> G<'a> {
    fn doc(&mut self) {
        if self.c.exotic && self.r.chance(1, 6) { self.out.push_str("<?xml version=\"1.0\"?>\n"); }
        let ent = self.c.exotic && self.r.chance(1, 8);
        if ent { self.out.push_str("<!DOCTYPE svg [<!ENTITY col \"red\"><!ENTITY w \"a  b\">]>\n"); }
        if self.c.exotic && self.r.chance(1, 6) { self.comment(); }
        let pfx = if self.c.exotic && self.r.chance(1, 8) { "svg:" } else { "" };
        let root = if self.c.exotic && self.r.chance(1, 25) { *self.r.pick(&["g", "rect", "foo"]) } else { "svg" };
        let ns = if self.c.exotic && self.r.chance(1, 30) { "http://example.com" } else { "http://www.w3.org/2000/svg" };
        self.out.push_str(&format!("<{}{} xmlns{}=\"{}\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xmlns:f=\"http://foreign\"", pfx, root,
            if pfx.is_empty() { "" } else { ":svg" }, ns));
        if self.r.chance(1, 3) { let id = *self.r.pick(IDS); self.out.push_str(&format!(" id=\"{}\"", id)); }
        self.attrs("svg");
        self.out.push('>');
        if self.c.styles && self.r.chance(1, 2) { self.style_elem(pfx); }
        while self.budget > 0 { self.node(pfx, 0, "svg"); }
        if self.c.styles && self.r.chance(1, 6) { self.style_elem(pfx); }
        self.out.push_str(&format!("</{}{}>", pfx, root));
        if self.c.exotic && self.r.chance(1, 8) { self.comment(); }
    }

    fn comment(&mut self) {
        let t = *self.r.pick(&["c", " comment ", "", "a<b>&c", "x  y", "é"]);
        if self.c.no_markup_chars && t.contains('<') { return; }
        self.out.push_str(&format!("<!--{}-->", t));
    }

    fn node(&mut self, pfx: &str, depth: usize, parent: &str) {
        if self.r.below(100) < self.c.text {
            self.text();
            if self.r.chance(1, 3) { self.budget = self.budget.saturating_sub(1); }
            return;
        }
        self.budget = self.budget.saturating_sub(1);
        if self.r.chance(1, 14) { self.comment(); return; }
        if self.c.exotic {
            match self.r.below(24) {
                0 => { self.out.push_str("<?pi data?>"); return; }
                1 => { self.out.push_str("<f:foreign f:x=\"1\" fill=\"red\">"); if self.r.chance(1, 2) { self.node(pfx, depth + 1, "f:foreign"); } self.out.push_str("</f:foreign>"); return; }
                2 => { self.out.push_str(&format!("<{}notsvg>", pfx)); if self.r.chance(1, 2) { self.node(pfx, depth + 1, "notsvg"); } self.out.push_str(&format!("</{}notsvg>", pfx)); return; }
                3 if self.c.styles => { self.style_elem(pfx); return; }
                _ => {}
            }
        }
        let textish = matches!(parent, "text" | "tspan");
        let name = if textish { *self.r.pick(&["tspan", "tspan", "tref", "textPath", "a"]) }
            else if self.c.text > 50 { *self.r.pick(&["text", "text", "g", "tspan", "title", "rect"]) }
            else if self.r.chance(1, 4) { self.r.pick(ELEMENTS).0 } else { *self.r.pick(COMMON) };
        let name = if name == "style" { "g" } else { name };
        self.out.push_str(&format!("<{}{}", pfx, name));
        if self.r.below(100) < 40 + self.c.links / 2 { let id = *self.r.pick(IDS); self.out.push_str(&format!(" id=\"{}\"", id)); }
        self.attrs(name);
        let mut n = 0;
        if depth < 5 || depth < 16 && self.r.chance(2, 3) {
            let many = if self.c.text > 50 { 6 } else { 4 };
            let body = self.out.len();
            self.out.push('>');
            while self.budget > 0 && n < many && self.r.chance(3, 5) { self.node(pfx, depth + 1, name); n += 1; }
            if n == 0 { self.out.truncate(body); }
        }
        if n == 0 { self.out.push_str("/>"); } else { self.out.push_str(&format!("</{}{}>", pfx, name)); }
    }

    fn text(&mut self) {
        let n = 1 + self.r.below(5);
        let mut s = String::new();
        for _ in 0..n {
            let t: &str = *self.r.pick(&["a", "Text", " ", " ", "  ", "\n", "\t", "x y", "é", "中文", "\u{a0}", "0", "   \n ", "b ", " c", "🦀", "\r\n"]);
            s.push_str(t);
        }
        let mut s = s.replace("\r\n", "&#13;&#10;");
        if !self.c.no_markup_chars && self.r.chance(1, 8) { s.push_str(*self.r.pick(&["&amp;", "&lt;", "&#x20;", "&#9;", "&quot;"])); }
        if self.c.exotic && self.r.chance(1, 10) && !s.contains('&') { s = format!("<![CDATA[{}]]>", s); }
        self.out.push_str(&s);
    }

    fn value_for(&mut self, a: &str) -> String {
        if self.r.below(100) < self.c.links {
            if a == "href" { return self.r.pick(HREFS).to_string(); }
            if matches!(a, "fill" | "stroke" | "clip-path" | "mask" | "filter" | "marker" | "marker-start" | "marker-mid" | "marker-end") { return self.r.pick(LINKS).to_string(); }
        }
        if self.c.simple_values || self.r.chance(1, 2) {
            // a value that is valid for the attribute most of the time
            let v: &[&str] = match a {
                "fill" | "stroke" => &["red", "none", "inherit", "currentColor", "#0f0", "#123456"],
                "transform" | "gradientTransform" | "patternTransform" => &["translate(1 2)", "scale(2)", "matrix(1 0 0 1 0 0)", "rotate(30)", "matrix(1 0 0 1 5 6)", "scale(1)"],
                "d" => &["M 10 20 L 30 40", "M1 2C3 4 5 6 7 8Z", "M 1 1 A 5 5 0 1 0 10 20", "M 0 0 L 5 x"],
                "points" => &["10,20 30,40", "1 2 3 4 5 6"],
                "viewBox" => &["0 0 10 20", "-1 -2 3.5 4"],
                "opacity" | "fill-opacity" | "stroke-opacity" | "stop-opacity" | "flood-opacity" | "k1" | "k2" | "k3" | "k4" => &["0.5", "1", "2", "-1", "0", "inherit", "0.25", "1.5", "-0.25", "1.0000001"],
                "clip-path" | "mask" | "filter" | "marker" | "marker-start" | "marker-mid" | "marker-end" => &["none", "inherit", "url(#a)", "bad"],
                "stop-color" | "flood-color" | "lighting-color" | "color" => &["red", "inherit", "currentColor", "#abc"],
                "offset" => &["0.5", "50%", "1", "5px"],
                "orient" => &["auto", "30", "1rad"],
                _ => &["1", "2.5", "10px", "50%", "inherit", "none", "abc", "1 2 3"],
            };
            return self.r.pick(v).to_string();
        }
        self.r.pick(VALUES).to_string()
    }

    fn attr_name(&mut self) -> &'static str {
        if self.c.all_attrs && self.r.chance(3, 4) { return self.r.pick(ATTRIBUTES).0; }
        self.r.pick(COMMON_ATTRS)
    }

    fn attrs(&mut self, _elem: &str) {
        let mut used: Vec<String> = vec!["id".into(), "xmlns".into(), "xlink".into(), "xml".into()];
        let n = if self.c.attrs == 0 { 0 } else { self.r.below(2 * self.c.attrs + 1) };
        let mut decl_names: Vec<&'static str> = vec![];
        for _ in 0..n {
            let a = self.attr_name();
            if used.iter().any(|u| u == a) || matches!(a, "style" | "class" | "space" | "href") { continue; }
            used.push(a.to_string());
            decl_names.push(a);
            let v = self.value_for(a);
            self.out.push_str(&format!(" {}=\"{}\"", a, esc(&v)));
        }
        if self.r.below(100) < self.c.links || self.r.chance(1, 8) && self.c.attrs > 0 {
            let v = self.value_for("href");
            self.out.push_str(&format!(" xlink:href=\"{}\"", esc(&v)));
        }
        if self.c.text > 50 && self.r.chance(1, 3) || self.r.chance(1, 20) {
            let v = *self.r.pick(&["preserve", "default", "preserve", "other", "preserve", "default", "preserved", "preserve ", "Preserve", ""]);
            self.out.push_str(&format!(" xml:space=\"{}\"", v));
        }
        if self.c.exotic && self.r.chance(1, 10) { self.out.push_str(" f:fill=\"red\""); }
        if self.c.exotic && self.r.chance(1, 10) { self.out.push_str(" unknown-attr=\"red\""); }
        if self.c.styles {
            if self.r.chance(1, 2) { let c = *self.r.pick(&["k1", "k2", "k1 k2", " k1", "k2 ", "k1  k2", "k1\tk2"]); self.out.push_str(&format!(" class=\"{}\"", c)); }
            if self.r.chance(2, 5) {
                let d = self.decls(&decl_names);
                self.out.push_str(&format!(" style=\"{}\"", esc(&d)));
            }
        }
    }

    fn decls(&mut self, prefer: &[&'static str]) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.r.below(3) {
            let a = if !prefer.is_empty() && self.r.chance(1, 2) { *self.r.pick(prefer) } else { *self.r.pick(&["fill", "stroke", "opacity", "transform", "clip-path", "mask", "marker", "marker-end", "font-size", "x", "stroke-width", "unknown", "display", "filter"]) };
            let mut v = self.value_for(a);
            if v.contains(|c| ";{}\"'&<:!".contains(c)) || v.trim().is_empty() { v = "red".into(); }
            s.push_str(&format!("{}:{};", a, v));
        }
        s
    }

    fn simple_selector(&mut self) -> String {
        let t = *self.r.pick(&["*", "rect", "g", "svg", "text", "tspan", "notsvg", "foreign", "path", "use"]);
        let sub = match self.r.below(14) {
            0 | 1 => ":first-child", 2 => ".k1", 3 => ".k2", 4 => "#a", 5 => "#b", 6 => "[class='k1 k2']", 7 => "[class=k1]", 8 => "[class~=k2]",
            9 => "[fill]", 10 => "[fill=none]", 11 => "[id|=a]", 12 => ":hover", _ => "",
        };
        format!("{}{}", t, sub)
    }

    fn selector(&mut self) -> String {
        if self.r.chance(1, 2) {
            return (*self.r.pick(&["*", ".k1", ".k2", "rect", "#a", "g rect", "g, .k1", "svg"])).to_string();
        }
        let mut s = self.simple_selector();
        for _ in 0..self.r.below(3) {
            let c = *self.r.pick(&[" ", " > ", " + ", " + ", ", "]);
            s.push_str(c);
            let t = self.simple_selector();
            s.push_str(&t);
        }
        s
    }

    fn style_elem(&mut self, pfx: &str) {
        let mut s = String::new();
        for _ in 0..1 + self.r.below(3) {
            let sel = self.selector();
            let d = self.decls(&[]);
            s.push_str(&format!("{} {{ {} }}\n", sel, d));
        }
        let ty = *self.r.pick(&["", " type=\"text/css\"", "", " type=\"text/plain\""]);
        if self.c.exotic && self.r.chance(1, 6) {
            self.out.push_str(&format!("<{p}style{t} id=\"a\">{s}</{p}style>", p = pfx, t = ty, s = s));
        } else {
            self.out.push_str(&format!("<{p}style{t}>{s}</{p}style>", p = pfx, t = ty, s = s));
        }
    }
}
