//! Common parts of the checks of the dot and mermaid renderings: styled cases,
//! the views they are rendered through, and a small dot parser.

use std::collections::{BTreeMap, BTreeSet};

use portgraph::render::{EdgeStyle, NodeStyle, PortStyle, PresentationStyle};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::gen::{sized, spec, Spec, SpecParams};
use crate::model::{Hd, Model};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum View {
    Whole,
    Subgraph(u16),
    Region(u16),
    Flat(u16, bool),
    /// Nodes and ports kept.
    Filtered(u16, u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub g: Spec,
    /// Hierarchy over the nodes in a rotated order.
    pub forest: Option<(u8, Vec<(u16, u8)>)>,
    pub view: View,
    pub node: Vec<u8>,
    pub port: Vec<u8>,
    pub edge: Vec<u8>,
    /// Use `with_weights`: every n-th node and port has a weight.
    pub weights: Option<u8>,
    /// Labels, as lists of fragments.
    #[serde(default)]
    pub words: Vec<Vec<u8>>,
}

pub fn case(multi: bool, big: bool) -> impl Strategy<Value = Case> {
    let styles = || {
        prop_oneof![
            1 => prop::collection::vec(any::<u8>(), 0..=0),
            3 => prop::collection::vec(any::<u8>(), 1..=5),
        ]
    };
    let forest = || {
        prop_oneof![
            2 => (any::<u8>(), prop::collection::vec((any::<u16>(), any::<u8>()), 0..=if big { 40 } else { 9 })).prop_map(Some),
            1 => Just(None),
        ]
    };
    let view = prop_oneof![
        4 => Just(View::Whole),
        2 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| View::Subgraph(a | b)),
        2 => any::<u16>().prop_map(View::Region),
        2 => (any::<u16>(), any::<bool>()).prop_map(|(a, b)| View::Flat(a, b)),
        2 => (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(a, b, c, d)| View::Filtered(a | b, c | d)),
    ];
    (
        sized(big, None, spec(SpecParams { nodes: 8, links: if multi { 14 } else { 12 }, ..SpecParams::default() })),
        forest(),
        view,
        styles(),
        styles(),
        styles(),
        prop_oneof![4 => Just(None), 1 => (1u8..4).prop_map(Some)],
        prop::collection::vec(prop::collection::vec(0..FRAGMENTS.len() as u8, 0..5), 0..4),
    )
        .prop_map(|(g, forest, view, node, port, edge, weights, words)| Case { g, forest, view, node, port, edge, weights, words })
}

fn at(v: &[u8], i: usize) -> u8 {
    if v.is_empty() {
        255
    } else {
        v[i % v.len()]
    }
}

pub const LABELS: [&str; 6] = ["", "x", "in 1", "a \"b\"", "two\nlines", "Node [7]"];

/// Parts of random labels. Characters with a meaning in html are left to the user.
pub const FRAGMENTS: [&str; 24] = [
    " ", ":", ": ", "\"", "\n", "a", "0", "1", "é", "#", "[", "]", "(", ")", "--", "==", "end", "%%", "\\", "'", ";", "{}", "|", "#quot;",
];

pub struct Styles<'a>(pub &'a Case);

impl Styles<'_> {
    pub fn attrs(v: u8) -> PresentationStyle {
        let mut a = PresentationStyle::new();
        if v & 1 != 0 {
            a.color = Some("#f00".to_string());
        }
        if v & 2 != 0 {
            a.fill = Some("#0aF0aF".to_string());
        }
        if v & 4 != 0 {
            a.stroke = Some("#00f".to_string());
        }
        if v & 8 != 0 {
            a.stroke_width = Some("4px".to_string());
        }
        a
    }
    /// The k-th label.
    pub fn label(&self, k: usize) -> String {
        if self.0.words.is_empty() {
            LABELS[k % LABELS.len()].to_string()
        } else {
            let w = &self.0.words[k % self.0.words.len()];
            w.iter().map(|f| FRAGMENTS[*f as usize % FRAGMENTS.len()]).collect()
        }
    }
    pub fn node(&self, n: usize) -> NodeStyle {
        let v = at(&self.0.node, n);
        let label = self.label(v as usize / 16);
        match v % 16 {
            0..=2 => NodeStyle::Hidden,
            #[allow(deprecated)]
            3 => NodeStyle::Box(label),
            #[allow(deprecated)]
            4 => NodeStyle::new(label),
            5..=7 => NodeStyle::boxed(label),
            8 => NodeStyle::default().with_attrs(Self::attrs(v / 16)),
            _ => NodeStyle::boxed(label).with_attrs(Self::attrs(v / 16)),
        }
    }
    /// (label, attributes), or `None` if hidden.
    pub fn node_parts(&self, n: usize) -> Option<(String, PresentationStyle)> {
        if let Some(k) = self.0.weights {
            return Some((weight(k, n), PresentationStyle::new()));
        }
        match self.node(n) {
            NodeStyle::Hidden => None,
            #[allow(deprecated)]
            NodeStyle::Box(l) => Some((l, PresentationStyle::new())),
            s @ NodeStyle::Boxed { .. } => {
                let a = s.attrs().clone();
                match s {
                    NodeStyle::Boxed { label, .. } => Some((label, a)),
                    _ => unreachable!(),
                }
            }
            s => panic!("unknown style {s:?}"),
        }
    }
    pub fn port(&self, p: usize) -> PortStyle {
        let v = at(&self.0.port, p);
        let label = self.label(v as usize / 16);
        match v % 8 {
            0 | 1 => PortStyle::Hidden,
            2 | 3 => PortStyle::text(label, v & 64 != 0),
            4 | 5 => PortStyle::boxed(label, v & 64 != 0),
            6 => PortStyle::new(label),
            _ => PortStyle::default(),
        }
    }
    pub fn port_parts(&self, p: usize) -> PortStyle {
        match self.0.weights {
            Some(k) => PortStyle::Boxed(weight(k, p), true),
            None => self.port(p),
        }
    }
    pub fn edge(&self, a: Hd, b: Hd) -> EdgeStyle {
        let v = at(&self.0.edge, a.0 + 3 * a.1 + 5 * b.0 + 7 * b.1);
        let base = match v % 5 {
            0 => EdgeStyle::Dotted,
            1 => EdgeStyle::Dashed,
            2 => EdgeStyle::Custom("==>".to_string()),
            _ => EdgeStyle::Solid,
        };
        match v / 5 % 4 {
            0 => base.with_label(self.label(v as usize % 7)),
            1 => base.with_label("old").with_label(self.label(v as usize % 7)),
            2 if v & 64 != 0 => EdgeStyle::Labelled("outer".to_string(), Box::new(base.with_label("inner"))),
            _ => base,
        }
    }
}

/// Weight of a node or port when every k-th has one.
pub fn weight(k: u8, i: usize) -> String {
    if i % k as usize == 0 {
        format!("w{i}")
    } else {
        String::new()
    }
}

/// The label and the base of an edge style.
pub fn edge_parts(e: &EdgeStyle) -> (Option<String>, EdgeStyle) {
    match e {
        EdgeStyle::Labelled(l, e) => (Some(l.clone()), edge_parts(e).1),
        e => (None, e.clone()),
    }
}

/// Nodes that are drawn, and the links between them.
pub fn visible(m: &Model, s: &Styles) -> (BTreeSet<usize>, Vec<(Hd, Hd)>) {
    let nodes: BTreeSet<usize> = m.node_ids().into_iter().filter(|n| s.node_parts(*n).is_some()).collect();
    let links = m.edges().into_iter().filter(|(a, b)| nodes.contains(&m.owner(*a)) && nodes.contains(&m.owner(*b))).collect();
    (nodes, links)
}

// ---------------------------------------------------------------- dot

#[derive(Clone, Debug, PartialEq, Eq)]
enum Tok {
    Id(String),
    Html(String),
    Sym(char),
    Arrow,
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        match c[i] {
            x if x.is_whitespace() => i += 1,
            x @ ('{' | '}' | '[' | ']' | ';' | ',' | '=' | ':') => {
                out.push(Tok::Sym(x));
                i += 1;
            }
            '-' if c.get(i + 1) == Some(&'>') => {
                out.push(Tok::Arrow);
                i += 2;
            }
            '"' => {
                let mut t = String::new();
                i += 1;
                loop {
                    match c.get(i) {
                        None => return Err("unclosed string".to_string()),
                        Some('"') => break,
                        Some('\\') if c.get(i + 1) == Some(&'"') => {
                            t.push('"');
                            i += 2;
                        }
                        Some(x) => {
                            t.push(*x);
                            i += 1;
                        }
                    }
                }
                i += 1;
                out.push(Tok::Id(t));
            }
            '<' => {
                let mut depth = 0;
                let mut t = String::new();
                loop {
                    match c.get(i) {
                        None => return Err("unclosed html label".to_string()),
                        Some(x) => {
                            if *x == '<' {
                                depth += 1;
                            } else if *x == '>' {
                                depth -= 1;
                            }
                            t.push(*x);
                            i += 1;
                            if depth == 0 {
                                break;
                            }
                        }
                    }
                }
                out.push(Tok::Html(t[1..t.len() - 1].to_string()));
            }
            x if x.is_alphanumeric() || x == '_' || x == '.' => {
                let mut t = String::new();
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.') {
                    t.push(c[i]);
                    i += 1;
                }
                out.push(Tok::Id(t));
            }
            x => return Err(format!("unexpected character {x:?}")),
        }
    }
    Ok(out)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Text(String),
    Html(String),
}

impl Val {
    pub fn text(&self) -> &str {
        match self {
            Val::Text(s) | Val::Html(s) => s,
        }
    }
}

pub type Attrs = BTreeMap<String, Val>;
pub type End = (String, Option<String>);

#[derive(Debug, Default)]
pub struct Dot {
    pub nodes: Vec<(String, Attrs)>,
    pub edges: Vec<(End, End, Attrs)>,
}

pub fn parse_dot(s: &str) -> Result<Dot, String> {
    let t = lex(s)?;
    let mut i = 0;
    let mut dot = Dot::default();
    if t.first() != Some(&Tok::Id("digraph".to_string())) {
        return Err("does not start with digraph".to_string());
    }
    i += 1;
    if let Some(Tok::Id(_)) = t.get(i) {
        i += 1;
    }
    if t.get(i) != Some(&Tok::Sym('{')) {
        return Err("no { after digraph".to_string());
    }
    i += 1;
    let end = |i: &mut usize| -> Result<End, String> {
        let Some(Tok::Id(n)) = t.get(*i) else { return Err(format!("expected a node, got {:?}", t.get(*i))) };
        *i += 1;
        if t.get(*i) == Some(&Tok::Sym(':')) {
            let Some(Tok::Id(p)) = t.get(*i + 1) else { return Err("expected a port".to_string()) };
            *i += 2;
            return Ok((n.clone(), Some(p.clone())));
        }
        Ok((n.clone(), None))
    };
    loop {
        match t.get(i) {
            None => return Err("no closing }".to_string()),
            Some(Tok::Sym('}')) => {
                if i + 1 != t.len() {
                    return Err("text after the closing }".to_string());
                }
                return Ok(dot);
            }
            Some(Tok::Sym(';')) => i += 1,
            _ => {
                let a = end(&mut i)?;
                let mut b = None;
                if t.get(i) == Some(&Tok::Arrow) {
                    i += 1;
                    b = Some(end(&mut i)?);
                }
                let mut attrs = Attrs::new();
                while t.get(i) == Some(&Tok::Sym('[')) {
                    i += 1;
                    while t.get(i) != Some(&Tok::Sym(']')) {
                        let Some(Tok::Id(k)) = t.get(i) else { return Err(format!("expected an attribute, got {:?}", t.get(i))) };
                        if t.get(i + 1) != Some(&Tok::Sym('=')) {
                            return Err(format!("expected = after {k}"));
                        }
                        let v = match t.get(i + 2) {
                            Some(Tok::Id(v)) => Val::Text(v.clone()),
                            Some(Tok::Html(v)) => Val::Html(v.clone()),
                            x => return Err(format!("expected a value, got {x:?}")),
                        };
                        if attrs.insert(k.clone(), v).is_some() {
                            return Err(format!("attribute {k} given twice"));
                        }
                        i += 3;
                        if matches!(t.get(i), Some(Tok::Sym(',' | ';'))) {
                            i += 1;
                        }
                    }
                    i += 1;
                }
                match b {
                    Some(b) => dot.edges.push((a, b, attrs)),
                    None => {
                        if a.1.is_some() {
                            return Err(format!("statement for a port {a:?}"));
                        }
                        dot.nodes.push((a.0, attrs));
                    }
                }
            }
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Cell {
    pub attrs: BTreeMap<String, String>,
    pub text: String,
}

/// The rows of an html table label.
pub fn parse_table(s: &str) -> Result<Vec<Vec<Cell>>, String> {
    let mut rows: Vec<Vec<Cell>> = vec![];
    let mut open: Vec<String> = vec![];
    let mut rest = s.trim();
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('<') {
            let k = r.find('>').ok_or("unclosed tag")?;
            let tag = &r[..k];
            rest = &r[k + 1..];
            if let Some(name) = tag.strip_prefix('/') {
                if open.pop().as_deref() != Some(name.trim()) {
                    return Err(format!("unbalanced </{name}>"));
                }
                continue;
            }
            let (name, mut a) = tag.split_once(' ').unwrap_or((tag, ""));
            let mut attrs = BTreeMap::new();
            loop {
                a = a.trim();
                if a.is_empty() {
                    break;
                }
                let (k, v) = a.split_once('=').ok_or(format!("bad attribute in {tag}"))?;
                let v = v.trim_start().strip_prefix('"').ok_or(format!("unquoted attribute in {tag}"))?;
                let (v, r) = v.split_once('"').ok_or(format!("unclosed attribute in {tag}"))?;
                attrs.insert(k.trim().to_string(), v.to_string());
                a = r;
            }
            let want = match name {
                "table" => 0,
                "tr" => 1,
                "td" => 2,
                _ => return Err(format!("unknown tag {name}")),
            };
            if open.len() != want {
                return Err(format!("tag {name} inside {open:?}"));
            }
            match name {
                "tr" => rows.push(vec![]),
                "td" => rows.last_mut().unwrap().push(Cell { attrs, text: String::new() }),
                _ => {}
            }
            open.push(name.to_string());
        } else {
            let k = rest.find('<').unwrap_or(rest.len());
            let text = &rest[..k];
            rest = &rest[k..];
            if open.len() == 3 {
                rows.last_mut().unwrap().last_mut().unwrap().text.push_str(text);
            } else if !text.trim().is_empty() {
                return Err(format!("text {text:?} outside of a cell"));
            }
        }
    }
    if !open.is_empty() {
        return Err(format!("tags left open: {open:?}"));
    }
    Ok(rows)
}
