//! Running the code under test, and normal forms of what it returns.

use crate::engine::Src;
use ftml::data::{PageInfo, ScoreValue};
use ftml::layout::Layout;
use ftml::parsing::ParseError;
use ftml::render::html::{HtmlOutput, HtmlRender};
use ftml::render::text::TextRender;
use ftml::render::Render;
use ftml::settings::{WikitextMode, WikitextSettings};
use ftml::tree::SyntaxTree;
use serde_json::{json, Value};
use std::borrow::Cow;

pub const MODES: [WikitextMode; 5] = [
    WikitextMode::Page,
    WikitextMode::Draft,
    WikitextMode::ForumPost,
    WikitextMode::DirectMessage,
    WikitextMode::List,
];

pub fn info() -> PageInfo<'static> {
    PageInfo {
        page: Cow::Borrowed("some-page"),
        category: None,
        site: Cow::Borrowed("sandbox"),
        title: Cow::Borrowed("A page"),
        alt_title: None,
        score: ScoreValue::Integer(1),
        tags: vec![Cow::Borrowed("tale"), Cow::Borrowed("scp")],
        language: Cow::Borrowed("default"),
    }
}

pub fn gen_info(src: &mut Src) -> PageInfo<'static> {
    let mut i = info();
    if src.chance(1, 4) {
        i.category = Some(Cow::Borrowed(src.pick_str(&["fragment", "_default", "scp"])));
    }
    if src.chance(1, 4) {
        i.alt_title = Some(Cow::Borrowed(src.pick_str(&["Alt <title>", "x\"y", "é", "", " "])));
    }
    if src.chance(1, 4) {
        i.title = Cow::Borrowed(src.pick_str(&["", "<b>&", "A \"quoted\" title"]));
    }
    if src.chance(1, 4) {
        i.score = if src.bool() { ScoreValue::Float(1.5) } else { ScoreValue::Integer(-3) };
    }
    if src.chance(1, 4) {
        i.tags = vec![];
    }
    if src.chance(1, 8) {
        i.site = Cow::Borrowed("scp-wiki");
    }
    i
}

pub fn page_settings() -> WikitextSettings {
    WikitextSettings::from_mode(WikitextMode::Page, Layout::Wikidot)
}

pub fn gen_settings(src: &mut Src) -> WikitextSettings {
    let mode = MODES[src.weighted(&[6, 1, 1, 1, 1])];
    let layout = if src.chance(1, 4) { Layout::Wikijump } else { Layout::Wikidot };
    let mut s = WikitextSettings::from_mode(mode, layout);
    if src.chance(1, 4) {
        s.use_true_ids = src.bool();
        s.isolate_user_ids = src.bool();
        s.minify_css = src.bool();
        s.allow_local_paths = src.bool();
        s.enable_page_syntax = src.bool();
        s.use_include_compatibility = src.bool();
    }
    s
}

pub fn prep(text: &str) -> String {
    let mut s = text.to_string();
    ftml::preprocess(&mut s);
    s
}

/// Tokenizes and parses text that is preprocessed already; the tree no longer borrows.
pub fn parse_raw(
    text: &str,
    info: &PageInfo<'_>,
    settings: &WikitextSettings,
) -> (SyntaxTree<'static>, Vec<ParseError>) {
    let info = own_info(info);
    let tokens = ftml::tokenize(text);
    let (tree, errors) = ftml::parse(&tokens, &info, settings).into();
    (tree.to_owned(), errors)
}

fn own_info<'a>(i: &'a PageInfo<'_>) -> PageInfo<'a> {
    PageInfo {
        page: Cow::Borrowed(&i.page),
        category: i.category.as_deref().map(Cow::Borrowed),
        site: Cow::Borrowed(&i.site),
        title: Cow::Borrowed(&i.title),
        alt_title: i.alt_title.as_deref().map(Cow::Borrowed),
        score: i.score,
        tags: i.tags.iter().map(|t| Cow::Borrowed(t.as_ref())).collect(),
        language: Cow::Borrowed(&i.language),
    }
}

pub fn parse(
    text: &str,
    info: &PageInfo<'_>,
    settings: &WikitextSettings,
) -> (SyntaxTree<'static>, Vec<ParseError>) {
    parse_raw(&prep(text), info, settings)
}

pub fn parse_page(text: &str) -> (SyntaxTree<'static>, Vec<ParseError>) {
    parse(text, &info(), &page_settings())
}

pub fn html(tree: &SyntaxTree<'_>, info: &PageInfo<'_>, settings: &WikitextSettings) -> HtmlOutput {
    HtmlRender.render(tree, info, settings)
}

pub fn text(tree: &SyntaxTree<'_>, info: &PageInfo<'_>, settings: &WikitextSettings) -> String {
    TextRender.render(tree, info, settings)
}

pub fn to_value<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).expect("serialization failed")
}

/// Elements in a normal form: adjacent text elements are joined, empty ones dropped.
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Array(xs) => {
            let mut out: Vec<Value> = Vec::new();
            for x in xs {
                let x = norm(x);
                if is_text(&x) {
                    let s = x["data"].as_str().unwrap();
                    if s.is_empty() {
                        continue;
                    }
                    if let Some(last) = out.last_mut() {
                        if is_text(last) {
                            let joined = format!("{}{}", last["data"].as_str().unwrap(), s);
                            *last = text_el(&joined);
                            continue;
                        }
                    }
                }
                out.push(x);
            }
            Value::Array(out)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
        other => other.clone(),
    }
}

fn is_text(v: &Value) -> bool {
    v.get("element").and_then(|e| e.as_str()) == Some("text") && v["data"].is_string()
}

pub fn text_el(s: &str) -> Value {
    json!({ "element": "text", "data": s })
}

pub fn container(ctype: Value, attributes: Value, elements: Vec<Value>) -> Value {
    json!({ "element": "container", "data": { "type": ctype, "attributes": attributes, "elements": elements } })
}

pub fn footnote_block() -> Value {
    json!({ "element": "footnote-block", "data": { "title": null, "hide": false } })
}

/// The normalized top-level elements, without the implied footnote block.
pub fn elements(tree: &SyntaxTree<'_>) -> Vec<Value> {
    let v = norm(&to_value(&tree.elements));
    let mut xs = v.as_array().unwrap().clone();
    if xs.last() == Some(&footnote_block()) {
        xs.pop();
    }
    xs
}

/// First difference between two JSON values, for messages.
pub fn diff(a: &Value, b: &Value) -> String {
    fn go(path: String, a: &Value, b: &Value) -> Option<String> {
        match (a, b) {
            (Value::Array(x), Value::Array(y)) => {
                for i in 0..x.len().max(y.len()) {
                    match (x.get(i), y.get(i)) {
                        (Some(p), Some(q)) => {
                            if let Some(d) = go(format!("{path}[{i}]"), p, q) {
                                return Some(d);
                            }
                        }
                        (p, q) => {
                            return Some(format!(
                                "{path}[{i}]: expected {}, actual {}",
                                p.map(|v| v.to_string()).unwrap_or("nothing".into()),
                                q.map(|v| v.to_string()).unwrap_or("nothing".into())
                            ))
                        }
                    }
                }
                None
            }
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys()) {
                    match (x.get(k), y.get(k)) {
                        (Some(p), Some(q)) => {
                            if let Some(d) = go(format!("{path}.{k}"), p, q) {
                                return Some(d);
                            }
                        }
                        (p, q) => {
                            return Some(format!(
                                "{path}.{k}: expected {}, actual {}",
                                p.map(|v| v.to_string()).unwrap_or("nothing".into()),
                                q.map(|v| v.to_string()).unwrap_or("nothing".into())
                            ))
                        }
                    }
                }
                None
            }
            _ if a == b => None,
            _ => Some(format!("{path}: expected {a}, actual {b}")),
        }
    }
    go(String::new(), a, b).unwrap_or_else(|| "no difference".into())
}

/// The random parts of the HTML (element IDs) replaced by their number of
/// occurrence, and the clock-dependent date offset by a constant.
pub fn stable_html(body: &str) -> String {
    let mut out = String::with_capacity(body.len());
    let mut seen: Vec<&str> = Vec::new();
    let mut rest = body;
    loop {
        let a = rest.find("wj-id-");
        let b = rest.find(" data-delta=\"");
        match (a, b) {
            (None, None) => break,
            (Some(i), b) if b.is_none_or(|b| i < b) => {
                out.push_str(&rest[..i]);
                let r = &rest[i + 6..];
                let len = r.find(|c: char| !c.is_ascii_alphanumeric()).unwrap_or(r.len());
                let id = &r[..len];
                if len == 16 {
                    let n = seen.iter().position(|s| *s == id).unwrap_or_else(|| {
                        seen.push(id);
                        seen.len() - 1
                    });
                    out.push_str(&format!("wj-id-#{n}"));
                } else {
                    out.push_str("wj-id-");
                    out.push_str(id);
                }
                rest = &r[len..];
            }
            (_, Some(i)) => {
                out.push_str(&rest[..i]);
                let r = &rest[i + 13..];
                let len = r.find('"').unwrap_or(r.len());
                out.push_str(" data-delta=\"#");
                rest = &r[len..];
            }
            _ => unreachable!(),
        }
    }
    out.push_str(rest);
    out
}
