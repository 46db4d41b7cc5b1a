//! What HTML a syntax tree (in its JSON form) must be rendered to.

use crate::common::{html, to_value};
use crate::dates::Moment;
use crate::engine::Failure;
use crate::html::{self as strict, El, Node};
use crate::{check, fail};
use ftml::data::PageInfo;
use ftml::render::html::HtmlOutput;
use ftml::settings::WikitextSettings;
use ftml::tree::SyntaxTree;
use serde_json::Value;
use std::collections::HashMap;

/// Before a timestamp: the attribute must say how long ago that is.
const DELTA: &str = "\u{1}pbt-delta\u{1}";

/// Attribute value standing for a generated ID: each occurrence of the same
/// number must be the same ID, and different numbers different IDs.
fn id_mark(n: usize) -> String {
    format!("\u{1}pbt-id\u{1}{n}")
}

pub struct Model<'a> {
    info: &'a PageInfo<'a>,
    settings: &'a WikitextSettings,
    tree: &'a Value,
    scopes: Vec<&'a Value>,
    toc_index: usize,
    footnote_index: usize,
    equation_index: usize,
    in_tooltip: bool,
    next_id: usize,
    pub internal: Vec<(Option<String>, String)>,
    pub external: Vec<String>,
}

type Attrs<'x> = Vec<(&'x str, String)>;

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {v}"))
}

fn text(t: &str) -> Node {
    Node::Text(t.replace('\0', " "))
}

fn el(tag: &str, attrs: Attrs, children: Vec<Node>) -> Node {
    el_with(tag, attrs, &Value::Null, children)
}

/// Attributes of the renderer, with those of the user added to them. Where both
/// give the same attribute, the value is that of the renderer and then that of
/// the user.
fn el_with(tag: &str, attrs: Attrs, user: &Value, children: Vec<Node>) -> Node {
    let mut out: Vec<(String, Option<String>)> = Vec::new();
    let empty = serde_json::Map::new();
    let user = user.as_object().unwrap_or(&empty);
    for (k, v) in &attrs {
        let value = match user.get(*k) {
            Some(u) => format!("{v} {}", s(u)),
            None => v.clone(),
        };
        out.push((k.to_string(), (!value.is_empty()).then_some(value)));
    }
    for (k, v) in user {
        if !attrs.iter().any(|(a, _)| a == k) {
            let v = s(v);
            out.push((k.clone(), (!v.is_empty()).then(|| v.to_string())));
        }
    }
    for (_, v) in &mut out {
        if let Some(v) = v {
            *v = v.replace('\0', " ");
        }
    }
    Node::El(El { tag: tag.into(), attrs: out, children, raw: String::new() })
}

fn class(c: &str) -> (&'static str, String) {
    ("class", c.into())
}

fn normalize(path: &str) -> String {
    let mut p = path.to_string();
    wikidot_normalize::normalize(&mut p);
    p
}

pub const SCHEMES: &[&str] = &[
    "blob:", "chrome-extension://", "chrome://", "content://", "dns:", "feed:", "file://", "ftp://", "git://", "gopher://", "http://", "https://",
    "irc6://", "irc://", "ircs://", "mailto:", "resource://", "rtmp://", "sftp://",
];

pub fn is_url(u: &str) -> bool {
    SCHEMES.iter().any(|p| u.starts_with(p))
}

/// The address of a local page or path.
pub fn local_href(u: &str) -> String {
    if is_url(u) || u.starts_with('#') {
        return u.into();
    }
    if let Some((scheme, _)) = u.split_once(':') {
        let plain = !scheme.is_empty() && scheme.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric() || is_mark(c));
        if !plain || scheme.eq_ignore_ascii_case("javascript") || scheme.eq_ignore_ascii_case("data") {
            return "#invalid-url".into();
        }
    }
    let (path, anchor) = match u.split_once('#') {
        Some((p, a)) => (p, Some(a)),
        None => (u, None),
    };
    let path = path.strip_prefix('/').unwrap_or(path);
    let (page, rest) = match path.find('/') {
        Some(i) => path.split_at(i),
        None => (path, ""),
    };
    let mut out = format!("/{}{rest}", normalize(page));
    if let Some(a) = anchor {
        out.push('#');
        out.push_str(a);
    }
    out
}

/// Word characters in the sense of Unicode that are not alphanumeric.
fn is_mark(c: char) -> bool {
    ('\u{300}'..='\u{36f}').contains(&c) || c == '\u{203f}' || c == '\u{200c}' || c == '\u{200d}'
}

pub fn href(link: &Value) -> String {
    match link {
        Value::String(u) if u == "javascript:;" => u.clone(),
        Value::String(u) => local_href(u),
        page => match page["site"].as_str() {
            Some(site) => format!("https://{site}.wikijump.com/{}", normalize(s(&page["page"]))),
            None => local_href(s(&page["page"])),
        },
    }
}

pub fn align_class(a: &str, float: bool) -> String {
    format!("wj-{}-{a}", if float { "float" } else { "align" })
}

/// What a link shows.
pub fn label(site: &str, link: &Value, label: &Value) -> String {
    if let Some(t) = label["text"].as_str() {
        return t.into();
    }
    if let Some(t) = label["url"].as_str() {
        return t.into();
    }
    if let Some(u) = link.as_str() {
        return u.into();
    }
    let page = s(&link["page"]);
    if label == "page" {
        format!("TODO: actual title ({} {page})", link["site"].as_str().unwrap_or(site))
    } else {
        page.into()
    }
}

impl<'a> Model<'a> {
    pub fn new(tree: &'a Value, info: &'a PageInfo<'a>, settings: &'a WikitextSettings) -> Self {
        Model {
            info,
            settings,
            tree,
            scopes: vec![],
            toc_index: 0,
            footnote_index: 0,
            equation_index: 0,
            in_tooltip: false,
            next_id: 0,
            internal: vec![],
            external: vec![],
        }
    }

    pub fn body(&mut self) -> Vec<Node> {
        let tree = self.tree;
        let children = self.els(&tree["elements"]);
        vec![el("wj-body", vec![class("wj-body")], children)]
    }

    fn fresh(&mut self) -> String {
        self.next_id += 1;
        id_mark(self.next_id)
    }

    fn els(&mut self, v: &'a Value) -> Vec<Node> {
        v.as_array().unwrap().iter().flat_map(|e| self.element(e)).collect()
    }

    fn site(&self) -> String {
        self.info.site.to_string()
    }

    fn backlink(&mut self, link: &Value) {
        match link {
            Value::String(u) => {
                if u == "javascript:;" || u.starts_with('#') {
                    return;
                }
                let u = u.strip_prefix('/').unwrap_or(u);
                if is_url(u) {
                    self.external.push(u.into());
                } else {
                    self.internal.push((None, u.into()));
                }
            }
            p => self.internal.push((p["site"].as_str().map(str::to_string), s(&p["page"]).into())),
        }
    }

    fn sprite(&self, id: &str) -> Node {
        el(
            "svg",
            vec![class(&format!("wj-sprite sprite-{id}")), ("viewBox", if id == "wj-karma" { "0 0 64 114" } else { "0 0 24 24" }.into())],
            vec![el("use", vec![("href", format!("/files--static/media/ui.svg#{id}"))], vec![])],
        )
    }

    fn element(&mut self, e: &'a Value) -> Vec<Node> {
        let d = &e["data"];
        let kind = s(&e["element"]);
        vec![match kind {
            "text" => text(s(d)),
            "raw" => el("span", vec![class("wj-raw")], vec![text(s(d))]),
            "email" => el("span", vec![class("wj-email")], vec![text(s(d))]),
            "variable" => {
                let name = s(d);
                let value = self.scopes.iter().rev().find_map(|m| m.get(name)).and_then(|v| v.as_str());
                text(&value.map(str::to_string).unwrap_or(format!("{{${name}}}")))
            }
            "container" => return self.container(d),
            "module" => {
                let name = match s(&d["module"]) {
                    "backlinks" => "Backlinks",
                    "categories" => "Categories",
                    "join" => "Join",
                    "page-tree" => "PageTree",
                    "rate" => "Rate",
                    m => panic!("harness: unknown module {m}"),
                };
                el("p", vec![], vec![text(&format!("TODO: module {name}"))])
            }
            "table" => {
                let mut rows = Vec::new();
                for r in d["rows"].as_array().unwrap() {
                    let mut cells = Vec::new();
                    for c in r["cells"].as_array().unwrap() {
                        let mut attrs: Attrs = vec![];
                        let span = c["column-span"].as_u64().unwrap();
                        if span > 1 {
                            attrs.push(("colspan", span.to_string()));
                        }
                        if let Some(a) = c["align"].as_str() {
                            attrs.push(class(&align_class(a, false)));
                        }
                        let tag = if c["header"].as_bool().unwrap() { "th" } else { "td" };
                        let inner = self.els(&c["elements"]);
                        cells.push(el_with(tag, attrs, &c["attributes"], inner));
                    }
                    rows.push(el_with("tr", vec![], &r["attributes"], cells));
                }
                el_with("table", vec![], &d["attributes"], vec![el("tbody", vec![], rows)])
            }
            "tab-view" => {
                let tabs = d.as_array().unwrap();
                let ids: Vec<(String, String)> = tabs.iter().map(|_| (self.fresh(), self.fresh())).collect();
                let mut buttons = vec![];
                let mut panels = vec![];
                for (i, t) in tabs.iter().enumerate() {
                    let label = s(&t["label"]);
                    let (button, panel) = &ids[i];
                    buttons.push(el(
                        "wj-tabs-button",
                        vec![
                            class("wj-tabs-button"),
                            ("id", button.clone()),
                            ("role", "tab".into()),
                            ("aria-label", label.into()),
                            ("aria-selected", (i == 0).to_string()),
                            ("aria-controls", panel.clone()),
                            ("tabindex", if i == 0 { "0" } else { "-1" }.into()),
                        ],
                        vec![text(label)],
                    ));
                    let mut attrs = vec![
                        class("wj-tabs-panel"),
                        ("id", panel.clone()),
                        ("role", "tabpanel".into()),
                        ("aria-labelledby", button.clone()),
                        ("tabindex", "0".into()),
                    ];
                    if i > 0 {
                        attrs.push(("hidden", String::new()));
                    }
                    let inner = self.els(&t["elements"]);
                    panels.push(el("div", attrs, inner));
                }
                el(
                    "wj-tabs",
                    vec![class("wj-tabs")],
                    vec![
                        el("div", vec![class("wj-tabs-button-list"), ("role", "tablist".into())], buttons),
                        el("div", vec![class("wj-tabs-panel-list")], panels),
                    ],
                )
            }
            "anchor" => {
                let mut attrs = vec![class("wj-anchor")];
                self.target(&d["target"], &mut attrs);
                let inner = self.els(&d["elements"]);
                el_with("a", attrs, &d["attributes"], inner)
            }
            "anchor-name" => el("a", vec![("id", s(d).into())], vec![]),
            "link" => {
                let link = &d["link"];
                self.backlink(link);
                let mut c = String::from("wj-link ");
                c.push_str(match link {
                    Value::String(u) if u == "javascript:;" || u.starts_with('#') => "wj-link-anchor",
                    Value::String(u) if u.starts_with('/') => "wj-link-internal",
                    Value::String(_) => "wj-link-external",
                    _ => "wj-link-internal",
                });
                let ltype = s(&d["type"]);
                if ltype == "interwiki" {
                    c.push_str(" wj-link-interwiki");
                }
                let mut attrs = vec![("href", format!("{}{}", href(link), d["extra"].as_str().unwrap_or("")))];
                self.target(&d["target"], &mut attrs);
                attrs.push(class(&c));
                attrs.push(("data-link-type", ltype.into()));
                el("a", attrs, vec![text(&label(&self.info.site, link, &d["label"]))])
            }
            "image" => {
                let src = &d["source"];
                let x = &src["data"];
                let local = |site: &str, page: &str, file: &str| format!("https://{site}.wjfiles.com/local--files/{page}/{file}");
                let url = match s(&src["type"]) {
                    "url" => s(x).to_string(),
                    _ if !self.settings.allow_local_paths => {
                        return vec![el("div", vec![class("wj-error-block")], vec![text("No images in this context")])];
                    }
                    "file1" => local(&self.site(), &self.info.page, s(&x["file"])),
                    "file2" => local(&self.site(), s(&x["page"]), s(&x["file"])),
                    _ => local(s(&x["site"]), s(&x["page"]), s(&x["file"])),
                };
                let mut c = String::from("wj-image-container");
                if let Some(a) = d["alignment"].as_object() {
                    c.push(' ');
                    c.push_str(&align_class(s(&a["align"]), a["float"].as_bool().unwrap()));
                }
                let img = el_with("img", vec![class("wj-image"), ("src", url), ("crossorigin", String::new())], &d["attributes"], vec![]);
                let inner = match &d["link"] {
                    Value::Null => img,
                    l => el("a", vec![("href", href(l))], vec![img]),
                };
                el("div", vec![class(&c)], vec![inner])
            }
            "list" => return vec![self.list(d)],
            "definition-list" => {
                let mut items = vec![];
                for i in d.as_array().unwrap() {
                    let k = self.els(&i["key"]);
                    items.push(el("dt", vec![], k));
                    let v = self.els(&i["value"]);
                    items.push(el("dd", vec![], v));
                }
                el("dl", vec![], items)
            }
            "radio-button" | "check-box" => {
                let mut attrs = vec![];
                if kind == "radio-button" {
                    attrs.push(("name", s(&d["name"]).to_string()));
                }
                attrs.push(("type", if kind == "radio-button" { "radio" } else { "checkbox" }.into()));
                if d["checked"].as_bool().unwrap() {
                    attrs.push(("checked", String::new()));
                }
                el_with("input", attrs, &d["attributes"], vec![])
            }
            "collapsible" => {
                let mut attrs = vec![class("wj-collapsible")];
                for (key, attr) in [("start-open", "open"), ("show-top", "data-show-top"), ("show-bottom", "data-show-bottom")] {
                    if d[key].as_bool().unwrap() {
                        attrs.push((attr, String::new()));
                    }
                }
                let show = d["show-text"].as_str().unwrap_or("+ open block");
                let hide = d["hide-text"].as_str().unwrap_or("- hide block");
                let span = |c: &str, t: &str| el("span", vec![class(c)], vec![text(t)]);
                let mut inner = vec![el(
                    "summary",
                    vec![class("wj-collapsible-button wj-collapsible-button-top")],
                    vec![span("wj-collapsible-show-text", show), span("wj-collapsible-hide-text", hide)],
                )];
                let body = self.els(&d["elements"]);
                inner.push(el("div", vec![class("wj-collapsible-content")], body));
                if d["show-bottom"].as_bool().unwrap() {
                    inner.push(el(
                        "wj-collapsible-button-bottom",
                        vec![class("wj-collapsible-button wj-collapsible-button-bottom")],
                        vec![span("wj-collapsible-hide-text", hide)],
                    ));
                }
                el_with("details", attrs, &d["attributes"], inner)
            }
            "table-of-contents" => {
                let ids = self.settings.use_true_ids;
                let id = |name: &str| -> Attrs<'static> {
                    if ids {
                        vec![("id", name.to_string())]
                    } else {
                        vec![]
                    }
                };
                let mut attrs = id("wj-toc");
                if let Some(a) = d["align"].as_str() {
                    attrs.push(class(&align_class(a, true)));
                }
                let fold = el("a", vec![("href", "javascript:;".into()), ("onclick", "WIKIJUMP.page.listeners.foldToc(event)".into())], vec![]);
                let tree = self.tree;
                let bar = el("div", id("wj-toc-action-bar"), vec![fold]);
                let list = el("div", id("wj-toc-list"), self.els(&tree["table-of-contents"]));
                el_with("div", attrs, &d["attributes"], vec![bar, el("div", vec![class("title")], vec![text("Table of Contents")]), list])
            }
            "footnote" => {
                if self.in_tooltip {
                    return vec![];
                }
                self.footnote_index += 1;
                let n = self.footnote_index;
                let tree = self.tree;
                let label = format!("Footnote {n}.");
                let contents = self.els(&tree["footnotes"][n - 1]);
                reference("footnote", n, &label, contents, false, true)
            }
            "footnote-block" => {
                let tree = self.tree;
                let notes = tree["footnotes"].as_array().unwrap();
                if d["hide"].as_bool().unwrap() || notes.is_empty() {
                    return vec![];
                }
                let mut items = vec![];
                for (i, f) in notes.iter().enumerate() {
                    let n = (i + 1).to_string();
                    let contents = self.els(f);
                    items.push(el(
                        "li",
                        vec![class("wj-footnote-list-item"), ("data-id", n.clone())],
                        vec![
                            marker("wj-footnote-list-item-marker", "wj-footnote-sep", &n),
                            el("span", vec![class("wj-footnote-list-item-contents")], contents),
                        ],
                    ));
                }
                let title = d["title"].as_str().unwrap_or("Footnotes");
                el(
                    "div",
                    vec![class("wj-footnote-list")],
                    vec![el("div", vec![class("wj-title")], vec![text(title)]), el("ol", vec![], items)],
                )
            }
            "bibliography-cite" => {
                let label = s(&d["label"]);
                let tree = self.tree;
                let found = tree["bibliographies"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .find_map(|b| b.as_array().unwrap().iter().enumerate().find(|(_, e)| s(&e[0]) == label));
                let Some((i, entry)) = found else {
                    return vec![el("span", vec![class("wj-error-inline")], vec![text("Bibliography item not found")])];
                };
                let nested = self.in_tooltip;
                let mut contents = vec![];
                if !nested {
                    self.in_tooltip = true;
                    contents = self.els(&entry[1]);
                    self.in_tooltip = false;
                }
                reference("bibliography", i + 1, &format!("Reference {}.", i + 1), contents, d["brackets"].as_bool().unwrap(), !nested)
            }
            "bibliography-block" => {
                if d["hide"].as_bool().unwrap() {
                    return vec![];
                }
                let index = d["index"].as_u64().unwrap() as usize;
                let tree = self.tree;
                let mut rows = vec![el("div", vec![class("wj-bibliography-title title")], vec![text(d["title"].as_str().unwrap_or("Bibliography"))])];
                for (i, e) in tree["bibliographies"][index].as_array().unwrap().iter().enumerate() {
                    let (b, n) = (index + 1, i + 1);
                    let mut inner = vec![marker("wj-bibliography-item-marker", "wj-bibliography-sep", &n.to_string())];
                    inner.extend(self.els(&e[1]));
                    rows.push(el(
                        "div",
                        vec![class("wj-bibliography-item bibitem"), ("id", format!("wj-bibliography-item-{b}-{n} bibitem-{b}-{n}"))],
                        inner,
                    ));
                }
                el("div", vec![class("wj-bibliography bibitems")], rows)
            }
            "user" => {
                let name = s(&d["name"]);
                let mut inner = vec![];
                if d["show-avatar"].as_bool().unwrap() {
                    inner.push(el("span", vec![class("wj-karma"), ("data-karma", "5".into())], vec![self.sprite("wj-karma")]));
                    inner.push(el("img", vec![class("wj-user-info-avatar"), ("src", "\u{2}pbt-any\u{2}data:image/png;base64,".into())], vec![]));
                }
                inner.push(el("span", vec![class("wj-user-info-name")], vec![text(name)]));
                el(
                    "span",
                    vec![class("wj-user-info")],
                    vec![el("a", vec![class("wj-user-info-link"), ("href", format!("/user:info/{name}"))], inner)],
                )
            }
            "date" => {
                let c = if d["hover"].as_bool().unwrap() { "wj-date wj-date-hover" } else { "wj-date" };
                let m = Moment::from_json(s(&d["value"])).expect("harness: date in tree");
                let t = m.unix().to_string();
                el("span", vec![class(c), ("data-timestamp", t.clone()), ("data-delta", format!("{DELTA}{t}"))], vec![text(&m.shown())])
            }
            "color" => {
                let inner = self.els(&d["elements"]);
                el("span", vec![("style", format!("color: {};", s(&d["color"])))], inner)
            }
            "code" => {
                let lang = d["language"].as_str();
                el(
                    "wj-code",
                    vec![class(&format!("wj-code wj-language-{}", lang.unwrap_or("none")).to_ascii_lowercase())],
                    vec![
                        el(
                            "div",
                            vec![class("wj-code-panel")],
                            vec![
                                el(
                                    "wj-code-copy",
                                    vec![("type", "button".into()), class("wj-code-copy"), ("title", "Copy to Clipboard".into())],
                                    vec![self.sprite("wj-clipboard"), self.sprite("wj-clipboard-success")],
                                ),
                                el("span", vec![class("wj-code-language")], vec![text(lang.unwrap_or(""))]),
                            ],
                        ),
                        el("pre", vec![], vec![el("code", vec![], vec![text(s(&d["contents"]))])]),
                    ],
                )
            }
            "math" => {
                self.equation_index += 1;
                let n = self.equation_index.to_string();
                let paren = |p: &str, t: &str| el("span", vec![class(&format!("wj-equation-paren wj-equation-paren-{p}"))], vec![text(t)]);
                let number = el("span", vec![class("wj-equation-number")], vec![paren("open", "("), text(&n), paren("close", ")")]);
                let mut attrs = vec![class("wj-math wj-math-block")];
                if let Some(n) = d["name"].as_str() {
                    attrs.push(("data-name", n.into()));
                }
                el("div", attrs, vec![number, latex(s(&d["latex-source"])), el("?math", vec![class("wj-error-block")], vec![])])
            }
            "math-inline" => el(
                "span",
                vec![class("wj-math wj-math-inline")],
                vec![latex(s(&d["latex-source"])), el("?math", vec![class("wj-error-inline")], vec![])],
            ),
            "equation-reference" => {
                let name = s(d);
                el(
                    "span",
                    vec![class("wj-equation-ref")],
                    vec![
                        el(
                            "wj-equation-ref-marker",
                            vec![class("wj-equation-ref-marker"), ("type", "button".into()), ("data-name", name.into())],
                            vec![text(name)],
                        ),
                        el("span", vec![class("wj-equation-ref-tooltip"), ("aria-hidden", "true".into())], vec![]),
                    ],
                )
            }
            "embed" => {
                let x = &d["data"];
                let frame = |url: String, allow: &str| {
                    el("iframe", vec![("src", url), ("frameborder", "0".into()), ("allow", allow.into()), ("allowfullscreen", String::new())], vec![])
                };
                let inner = match s(&d["embed"]) {
                    "youtube" => frame(
                        format!("https://www.youtube.com/embed/{}", s(&x["video-id"])),
                        "accelerometer; autoplay; clipboard-write; encrypted-media; gyroscope; picture-in-picture",
                    ),
                    "vimeo" => frame(format!("https://player.vimeo.com/video/{}", s(&x["video-id"])), "autoplay; fullscreen; picture-inpicture"),
                    "github-gist" => el("script", vec![("src", format!("https://gist.github.com/{}/{}.js", s(&x["username"]), s(&x["hash"])))], vec![]),
                    "gitlab-snippet" => el("script", vec![("src", format!("https://gitlab.com/-/snippets/{}.js", s(&x["snippet-id"])))], vec![]),
                    e => panic!("harness: unknown embed {e}"),
                };
                el("div", vec![class("wj-embed")], vec![inner])
            }
            "html" => el("iframe", vec![("src", "https://example.com/".into()), ("crossorigin", String::new())], vec![]),
            "iframe" => el_with("iframe", vec![("src", s(&d["url"]).into()), ("crossorigin", String::new())], &d["attributes"], vec![]),
            "include" => {
                self.scopes.push(&d["variables"]);
                let inner = self.els(&d["elements"]);
                self.scopes.pop();
                return inner;
            }
            "style" => el("?style", vec![], vec![]),
            "line-break" => el("br", vec![], vec![]),
            "line-breaks" => return (0..d.as_u64().unwrap()).map(|_| el("br", vec![], vec![])).collect(),
            "clear-float" => el("div", vec![class(&format!("wj-clear-float wj-clear-float-{}", s(d)))], vec![]),
            "horizontal-rule" => el("hr", vec![], vec![]),
            k => panic!("harness: unknown element {k}"),
        }]
    }

    fn target(&self, t: &Value, attrs: &mut Attrs) {
        if let Some(t) = t.as_str() {
            let keyword = match t {
                "new-tab" => "_blank",
                "parent" => "_parent",
                "top" => "_top",
                "same" => "_self",
                t => panic!("harness: unknown target {t}"),
            };
            attrs.push(("target", keyword.into()));
        }
    }

    fn list(&mut self, d: &'a Value) -> Node {
        let tag = if d["type"] == "numbered" { "ol" } else { "ul" };
        let mut inner = vec![];
        for i in d["items"].as_array().unwrap() {
            if i["item-type"] == "sub-list" {
                inner.extend(self.element(i));
            } else {
                let e = self.els(&i["elements"]);
                inner.push(el_with("li", vec![], &i["attributes"], e));
            }
        }
        el_with(tag, vec![], &d["attributes"], inner)
    }

    fn container(&mut self, d: &'a Value) -> Vec<Node> {
        let user = &d["attributes"];
        let mut attrs: Attrs = vec![];
        let tag: String = match &d["type"] {
            Value::String(t) => match t.as_str() {
                "bold" => "strong",
                "italics" => "em",
                "underline" => "u",
                "superscript" => "sup",
                "subscript" => "sub",
                "strikethrough" => "s",
                "monospace" => {
                    attrs.push(class("wj-monospace"));
                    "code"
                }
                "span" | "size" => "span",
                "div" => "div",
                "mark" => "mark",
                "blockquote" => "blockquote",
                "insertion" => "ins",
                "deletion" => "del",
                "hidden" => {
                    attrs.push(class("wj-hidden"));
                    "span"
                }
                "invisible" => {
                    attrs.push(class("wj-invisible"));
                    "span"
                }
                "ruby" => "ruby",
                "ruby-text" => "rt",
                "paragraph" => "p",
                t => panic!("harness: unknown container {t}"),
            }
            .into(),
            t => {
                if let Some(a) = t["align"].as_str() {
                    attrs.push(class(&align_class(a, false)));
                    "div".into()
                } else {
                    let h = &t["header"];
                    if h["has-toc"].as_bool().unwrap() {
                        let n = self.toc_index;
                        self.toc_index += 1;
                        let id = if self.settings.use_true_ids { format!("toc{n}") } else { self.fresh() };
                        attrs.push(("id", id));
                    }
                    format!("h{}", h["level"].as_u64().unwrap())
                }
            }
        };
        let inner = self.els(&d["elements"]);
        let main = el_with(&tag, attrs, user, inner);
        if tag == "rt" {
            return vec![el("rp", vec![], vec![text("(")]), main, el("rp", vec![], vec![text(")")])];
        }
        vec![main]
    }
}

fn marker(name: &str, sep: &str, n: &str) -> Node {
    el(
        name,
        vec![class(name), ("type", "button".into()), ("role", "link".into())],
        vec![text(n), el("span", vec![class(sep)], vec![text(".")])],
    )
}

fn latex(source: &str) -> Node {
    el("code", vec![class("wj-math-source wj-hidden"), ("aria-hidden", "true".into())], vec![text(source)])
}

fn reference(kind: &str, n: usize, label: &str, contents: Vec<Node>, brackets: bool, tooltip: bool) -> Node {
    let id = n.to_string();
    let name = format!("wj-{kind}-ref-marker");
    let mark = el(&name, vec![class(&name), ("role", "link".into()), ("aria-label", label.into()), ("data-id", id.clone())], vec![text(&id)]);
    let mut inner = if brackets { vec![text("["), mark, text("]")] } else { vec![mark] };
    if tooltip {
        inner.push(el(
            "span",
            vec![class(&format!("wj-{kind}-ref-tooltip")), ("aria-hidden", "true".into())],
            vec![
                el("span", vec![class(&format!("wj-{kind}-ref-tooltip-label"))], vec![text(label)]),
                el("span", vec![class(&format!("wj-{kind}-ref-contents"))], contents),
            ],
        ));
    }
    el("span", vec![class(&format!("wj-{kind}-ref"))], inner)
}

// ------------------------------------------------------------------- comparison

/// Compares expected with actual HTML; attributes in any order, classes by word.
#[derive(Default)]
pub struct Compare {
    ids: HashMap<String, String>,
    used: HashMap<String, String>,
}

fn words(v: &str) -> Vec<&str> {
    v.split(' ').filter(|w| !w.is_empty()).collect()
}

fn show(n: Option<&Node>) -> String {
    match n {
        None => "nothing".into(),
        Some(Node::Text(t)) => format!("text {:?}", crate::html::clip(t)),
        Some(Node::El(e)) => format!("<{} {:?}> with {} children", e.tag, e.attrs, e.children.len()),
    }
}

impl Compare {
    fn value(&mut self, key: &str, want: &Option<String>, got: &Option<String>) -> bool {
        let (Some(w), Some(g)) = (want, got) else { return want == got || (want.is_none() && got.as_deref() == Some("")) };
        if let Some(t) = w.strip_prefix(DELTA) {
            // How long it is since then, in seconds.
            let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
            return g.parse::<i64>().is_ok_and(|g| (t.parse::<i64>().unwrap() - g - now).abs() <= 60);
        }
        if let Some(p) = w.strip_prefix("\u{2}pbt-any\u{2}") {
            return g.starts_with(p);
        }
        if w.starts_with("\u{1}pbt-id\u{1}") {
            // The ID may be followed by one of the user's.
            let (mark, rest) = w.split_once(' ').map(|(a, b)| (a, Some(b))).unwrap_or((w, None));
            let (id, grest) = g.split_once(' ').map(|(a, b)| (a, Some(b))).unwrap_or((g, None));
            if rest != grest {
                return false;
            }
            let ok = id.strip_prefix("wj-id-").is_some_and(|x| x.len() == 16 && x.bytes().all(|b| b.is_ascii_alphanumeric()));
            return ok
                && *self.ids.entry(mark.into()).or_insert(id.into()) == id
                && *self.used.entry(id.into()).or_insert(mark.into()) == mark;
        }
        if key == "class" {
            return words(w) == words(g);
        }
        w == g
    }

    pub fn nodes(&mut self, path: &str, want: &[Node], got: &[Node]) -> Result<(), String> {
        let mut j = 0;
        for w in want {
            let g = got.get(j);
            let err = || Err(format!("in {path}: expected {}, actual {}", show(Some(w)), show(g)));
            match (w, g) {
                (Node::El(w), _) if w.tag == "?style" => {
                    // CSS that cannot be printed is left out.
                    if let Some(Node::El(g)) = g {
                        if g.tag == "style" {
                            if !g.attrs.is_empty() {
                                return err();
                            }
                            j += 1;
                        }
                    }
                }
                (Node::Text(a), Some(Node::Text(b))) => {
                    if a != b && !a.starts_with("\u{2}pbt-any\u{2}") {
                        return err();
                    }
                    j += 1;
                }
                (Node::El(a), Some(Node::El(b))) if a.tag == "?math" => {
                    let ok = (b.tag == "wj-math-ml" && b.has_class("wj-math-ml")) || (b.tag == "span" && b.attr("class") == a.attr("class"));
                    if !ok {
                        return err();
                    }
                    j += 1;
                }
                (Node::El(a), Some(Node::El(b))) => {
                    if a.tag != b.tag || a.attrs.len() != b.attrs.len() {
                        return err();
                    }
                    for (k, v) in &a.attrs {
                        let Some((_, g)) = b.attrs.iter().find(|(x, _)| x == k) else { return err() };
                        if !self.value(k, v, g) {
                            return err();
                        }
                    }
                    self.nodes(&format!("{path}/{}", a.tag), &a.children, &b.children)?;
                    j += 1;
                }
                _ => return err(),
            }
        }
        if j < got.len() {
            return Err(format!("in {path}: unexpected {}", show(got.get(j))));
        }
        Ok(())
    }
}

/// Compares the HTML and the backlinks of a tree with those that the model gives.
pub fn judge(tree: &SyntaxTree<'_>, info: &PageInfo<'_>, settings: &WikitextSettings) -> Result<(HtmlOutput, Vec<Node>), Failure> {
    let out = html(tree, info, settings);
    let nodes = match strict::parse(&out.body) {
        Ok(n) => strict::merge_text(n),
        Err(e) => fail!("malformed-html", "{e}\nhtml: {}", out.body),
    };
    let v = to_value(tree);
    let mut m = Model::new(&v, info, settings);
    let want = strict::merge_text(m.body());
    if let Err(e) = Compare::default().nodes("", &want, &nodes) {
        fail!("html", "{e}\nhtml: {}\ntree: {v}", out.body);
    }
    let internal: Vec<_> = out.backlinks.internal_links.iter().map(|p| (p.site().map(str::to_string), p.page().to_string())).collect();
    check!(internal == m.internal, "backlinks", "internal links: expected {:?}, actual {internal:?}", m.internal);
    let external: Vec<_> = out.backlinks.external_links.iter().map(|p| p.to_string()).collect();
    check!(external == m.external, "backlinks", "external links: expected {:?}, actual {external:?}", m.external);
    Ok((out, nodes))
}
