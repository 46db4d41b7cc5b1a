//! Syntax trees generated directly, in their JSON form. They have elements and
//! values that no wikitext can give now, but that renderers must cope with.

use crate::common::{container, text_el};
use crate::engine::Src;
use serde_json::{json, Map, Value};

pub const STRINGS: &[&str] = &[
    "apple", "a b", "", " ", "<b>&amp;\"'", "x\ny", "日本語", "\0", "{$v}", "</style>", "a\\b", "]]", "é", "  two  ", "\t", "A-b_c", "</a><script>", "'", "\n", "a\n\nb", "<!--", "</STYLE>", "</Style x", "{$<b>", "{$v", "x{$w}<i>y", "&amp;lt;", "\u{a0}",
];

pub const LINKS: &[&str] = &[
    "https://example.com/", "javascript:;", "javascript:alert(1)", "#anchor", "#", "/local/Page X", "Some Page", "cat:Page/edit#x", "", "/", "//evil", "data:x", "mailto:a@b", "wiki pedia:x",
    "ftp://x y", "/a#b#c", ":x", "a:b:c", "irc6://x",
];

pub struct Tree<'s> {
    src: &'s mut Src,
    footnotes: usize,
    bibs: usize,
    budget: usize,
    in_note: bool,
    /// How many includes are open.
    includes: usize,
}

fn st(src: &mut Src) -> &'static str {
    if src.chance(1, 3) {
        src.pick_str(STRINGS)
    } else {
        src.pick_str(&["apple", "banana", "Cherry", "x1"])
    }
}

fn opt(src: &mut Src) -> Value {
    if src.bool() {
        json!(st(src))
    } else {
        Value::Null
    }
}

impl Tree<'_> {
    fn s(&mut self) -> Value {
        json!(st(self.src))
    }

    fn attrs(&mut self) -> Value {
        let mut m = Map::new();
        while self.src.chance(1, 3) && m.len() < 3 {
            let k = self.src.pick_str(&["class", "style", "title", "id", "data-x", "colspan", "alt", "href", "open", "type"]);
            let v = self.s();
            m.insert(k.into(), v);
        }
        Value::Object(m)
    }

    fn link(&mut self) -> Value {
        match self.src.below(3) {
            0 => json!(self.src.pick_str(LINKS)),
            1 => json!({"site": null, "page": self.src.pick_str(LINKS)}),
            _ => json!({"site": self.src.pick_str(&["wiki", "scp-ru"]), "page": self.src.pick_str(LINKS)}),
        }
    }

    fn target(&mut self) -> Value {
        match self.src.below(4) {
            0 | 1 => Value::Null,
            2 => json!("new-tab"),
            _ => json!(self.src.pick_str(&["parent", "top"])),
        }
    }

    pub fn elements(&mut self, depth: usize) -> Vec<Value> {
        let n = self.src.weighted(&[1, 4, 3, 2]);
        (0..n).map(|_| self.element(depth)).collect()
    }

    fn bool(&mut self) -> bool {
        self.src.bool()
    }

    fn container(&mut self, depth: usize) -> Value {
        let ctype = match self.src.below(3) {
            0 => json!(self.src.pick_str(&["bold", "italics", "underline", "superscript", "subscript", "strikethrough", "monospace", "span", "mark", "insertion", "deletion", "size"])),
            1 => json!(self.src.pick_str(&["div", "blockquote", "hidden", "invisible", "paragraph", "ruby", "ruby-text", "paragraph", "div"])),
            _ => match self.src.below(2) {
                0 => json!({"align": self.src.pick_str(&["left", "right", "center", "justify"])}),
                _ => json!({"header": {"level": self.src.range(1, 6), "has-toc": self.src.bool()}}),
            },
        };
        let a = if ctype.get("header").is_some() { json!({}) } else { self.attrs() };
        let e = self.elements(depth + 1);
        container(ctype, a, e)
    }

    fn list(&mut self, depth: usize) -> Value {
        let n = self.src.range(1, 3);
        let mut items = vec![];
        for _ in 0..n {
            if depth < 4 && self.src.chance(1, 4) {
                let sub = self.list(depth + 1);
                let mut i = sub.as_object().unwrap().clone();
                i.insert("item-type".into(), json!("sub-list"));
                items.push(Value::Object(i));
            } else {
                items.push(json!({"item-type": "elements", "attributes": self.attrs(), "elements": self.elements(depth + 1)}));
            }
        }
        json!({"element": "list", "data": {"type": self.src.pick_str(&["bullet", "numbered", "generic"]), "attributes": self.attrs(), "items": items}})
    }

    fn element(&mut self, depth: usize) -> Value {
        let el = |name: &str, data: Value| json!({"element": name, "data": data});
        if depth >= 4 || self.budget == 0 {
            return text_el(st(self.src));
        }
        self.budget -= 1;
        if self.includes > 0 && self.src.chance(1, 4) {
            return if self.includes < 3 && self.src.chance(1, 3) { self.include(depth) } else { el("variable", json!(self.src.pick_str(&["v", "w", "x"]))) };
        }
        match self.src.weighted(&[6, 8, 1, 1, 1, 2, 1, 2, 1, 3, 2, 2, 1, 1, 1, 2, 1, 2, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 1]) {
            0 => text_el(st(self.src)),
            1 => self.container(depth),
            2 => el("raw", self.s()),
            3 => el("email", self.s()),
            4 => el("variable", json!(self.src.pick_str(&["v", "w", "x"]))),
            5 => {
                let rows: Vec<Value> = (0..self.src.range(1, 2))
                    .map(|_| {
                        let cells: Vec<Value> = (0..self.src.range(1, 3))
                            .map(|_| {
                                let align = match self.src.below(3) {
                                    0 => json!(self.src.pick_str(&["left", "right", "center"])),
                                    _ => Value::Null,
                                };
                                json!({"header": self.bool(), "column-span": self.src.range(1, 3), "align": align, "attributes": self.attrs(), "elements": self.elements(depth + 1)})
                            })
                            .collect();
                        json!({"attributes": self.attrs(), "cells": cells})
                    })
                    .collect();
                el("table", json!({"attributes": self.attrs(), "rows": rows}))
            }
            6 => {
                let tabs: Vec<Value> = (0..self.src.range(1, 3)).map(|_| json!({"label": self.s(), "elements": self.elements(depth + 1)})).collect();
                el("tab-view", json!(tabs))
            }
            7 => el("anchor", json!({"target": self.target(), "attributes": self.attrs(), "elements": self.elements(depth + 1)})),
            8 => el("anchor-name", self.s()),
            9 => {
                let link = self.link();
                let label = match self.src.below(4) {
                    0 => json!("page"),
                    1 => json!({"url": null}),
                    2 => json!({"url": st(self.src)}),
                    _ => json!({"text": st(self.src)}),
                };
                let extra = match self.src.below(3) {
                    0 => json!(self.src.pick_str(&["#x", "/edit", "/a/b#c"])),
                    _ => Value::Null,
                };
                el("link", json!({"type": self.src.pick_str(&["direct", "page", "interwiki", "anchor", "table-of-contents"]), "link": link, "extra": extra, "label": label, "target": self.target()}))
            }
            10 => {
                let source = match self.src.below(4) {
                    0 => json!({"type": "url", "data": "https://example.com/i.png"}),
                    1 => json!({"type": "file1", "data": {"file": self.s()}}),
                    2 => json!({"type": "file2", "data": {"page": self.s(), "file": self.s()}}),
                    _ => json!({"type": "file3", "data": {"site": self.s(), "page": self.s(), "file": self.s()}}),
                };
                let link = if self.bool() { self.link() } else { Value::Null };
                let alignment = match self.bool() {
                    true => json!({"align": self.src.pick_str(&["left", "right", "center", "justify"]), "float": self.bool()}),
                    _ => Value::Null,
                };
                el("image", json!({"source": source, "link": link, "alignment": alignment, "attributes": self.attrs()}))
            }
            11 => self.list(depth),
            12 => {
                let items: Vec<Value> = (0..self.src.range(1, 3))
                    .map(|_| json!({"key_string": "k", "key": self.elements(depth + 1), "value": self.elements(depth + 1)}))
                    .collect();
                el("definition-list", json!(items))
            }
            13 => el("radio-button", json!({"name": self.s(), "checked": self.bool(), "attributes": self.attrs()})),
            14 => el("check-box", json!({"checked": self.bool(), "attributes": self.attrs()})),
            15 => el(
                "collapsible",
                json!({"elements": self.elements(depth + 1), "attributes": self.attrs(), "start-open": self.bool(), "show-text": opt(self.src),
                       "hide-text": opt(self.src), "show-top": self.bool(), "show-bottom": self.bool()}),
            ),
            16 => el("table-of-contents", json!({"attributes": self.attrs(), "align": match self.src.below(3) { 0 => json!("left"), 1 => json!("right"), _ => Value::Null }})),
            17 => {
                if self.in_note {
                    return text_el(st(self.src));
                }
                self.footnotes += 1;
                json!({"element": "footnote"})
            }
            18 => {
                if self.in_note {
                    return text_el(st(self.src));
                }
                el("footnote-block", json!({"title": opt(self.src), "hide": self.src.chance(1, 4)}))
            }
            19 => el("bibliography-cite", json!({"label": self.src.pick_str(&["a", "b", "c", "none"]), "brackets": self.bool()})),
            20 => {
                if self.in_note || self.bibs == 0 {
                    return text_el(st(self.src));
                }
                el("bibliography-block", json!({"index": self.src.below(self.bibs), "title": opt(self.src), "hide": self.src.chance(1, 4)}))
            }
            21 => el("user", json!({"name": self.s(), "show-avatar": self.bool()})),
            22 => el("date", json!({"value": self.date(), "format": null, "hover": self.bool()})),
            23 => el("color", json!({"color": self.s(), "elements": self.elements(depth + 1)})),
            24 => el("code", json!({"contents": self.s(), "language": opt(self.src)})),
            25 => el("math", json!({"name": opt(self.src), "latex-source": self.src.pick_str(&["x", "\\frac{1}{2}", "\\nope{", "a < b", "", " "])})),
            26 => el("math-inline", json!({"latex-source": self.src.pick_str(&["x", "\\frac{1}{2}", "\\nope{", "a > b", ""])})),
            27 => el("equation-reference", self.s()),
            28 => {
                let e = match self.src.below(4) {
                    0 => json!({"embed": "youtube", "data": {"video-id": self.s()}}),
                    1 => json!({"embed": "vimeo", "data": {"video-id": self.s()}}),
                    2 => json!({"embed": "github-gist", "data": {"username": self.s(), "hash": self.s()}}),
                    _ => json!({"embed": "gitlab-snippet", "data": {"snippet-id": self.s()}}),
                };
                el("embed", e)
            }
            29 => match self.src.below(7) {
                0 => el("html", json!({"contents": self.s()})),
                1 => el("iframe", json!({"url": self.src.pick_str(LINKS), "attributes": self.attrs()})),
                2 => el("style", json!(self.src.pick_str(&["a { color: red; }", "</style>", "</STYLE>", "a::before{content:\"</STYLE><b>\"}", "b{c:url(</sTyle >)}", "x", "", "b{c:\"</style><script>\"}"]))),
                3 => el("clear-float", json!(self.src.pick_str(&["left", "right", "both"]))),
                4 => json!({"element": "horizontal-rule"}),
                5 => json!({"element": "line-break"}),
                _ => el("line-breaks", json!(self.src.range(1, 4))),
            },
            30 => self.include(depth),
            31 => text_el("\n"),
            _ => el(
                "module",
                match self.src.below(5) {
                    0 => json!({"module": "rate"}),
                    1 => json!({"module": "backlinks", "data": {"page": opt(self.src)}}),
                    2 => json!({"module": "categories", "data": {"include-hidden": self.bool()}}),
                    3 => json!({"module": "join", "data": {"button-text": opt(self.src), "attributes": self.attrs()}}),
                    _ => json!({"module": "page-tree", "data": {"root": opt(self.src), "show-root": self.bool(), "depth": if self.bool() { json!(3) } else { Value::Null }}}),
                },
            ),
        }
    }

    fn include(&mut self, depth: usize) -> Value {
        self.includes += 1;
        let data = json!({"paragraph-safe": self.bool(), "variables": self.vars(), "location": {"site": null, "page": "inc"}, "elements": self.elements(depth + 1)});
        self.includes -= 1;
        json!({"element": "include", "data": data})
    }

    fn date(&mut self) -> String {
        let year = if self.src.chance(1, 8) { self.src.range(0, 9999) } else { self.src.range(1895, 2105) };
        let mut out = format!("{year:04}-{:02}-{:02}", self.src.range(1, 12), self.src.range(1, 28));
        if self.src.chance(2, 3) {
            out += &format!(" {:02}:{:02}:{:02}.0", self.src.range(0, 23), self.src.range(0, 59), self.src.range(0, 59));
            if self.src.bool() {
                out += &format!(" {}{:02}:{:02}:00", self.src.pick_str(&["+", "-"]), self.src.range(0, 14), self.src.range(0, 59));
            }
        }
        out
    }

    fn vars(&mut self) -> Value {
        let mut m = Map::new();
        for k in ["v", "w"] {
            if self.bool() {
                let v = self.s();
                m.insert(k.into(), v);
            }
        }
        Value::Object(m)
    }
}

pub fn tree(src: &mut Src) -> Value {
    let bibs = src.weighted(&[3, 2, 1]);
    let mut t = Tree { src, footnotes: 0, bibs, budget: 24, in_note: false, includes: 0 };
    let mut elements = t.elements(0);
    if t.src.chance(1, 100) {
        // Many of those that are numbered.
        let kind = t.src.below(4);
        for i in 0..t.src.range(90, 130) {
            elements.push(match kind {
                0 => {
                    t.footnotes += 1;
                    json!({"element": "footnote"})
                }
                1 => json!({"element": "math", "data": {"name": null, "latex-source": "x"}}),
                2 => container(json!({"header": {"level": 1 + i % 6, "has-toc": true}}), json!({}), vec![text_el("h")]),
                _ => json!({"element": "equation-reference", "data": "x"}),
            });
        }
    }
    t.in_note = true;
    t.budget = 8;
    let n = t.footnotes;
    let footnotes: Vec<Vec<Value>> = (0..n).map(|_| t.elements(2)).collect();
    let bibliographies: Vec<Value> = (0..bibs)
        .map(|_| {
            t.budget = 6;
            let n = t.src.range(0, 3);
            let labels = ["a", "b", "c"];
            json!((0..n).map(|i| json!([labels[i], t.elements(2)])).collect::<Vec<_>>())
        })
        .collect();
    let toc = if t.src.bool() {
        json!([{"element": "list", "data": {"type": "bullet", "attributes": {}, "items": [{"item-type": "elements", "attributes": {}, "elements": [
            {"element": "link", "data": {"type": "table-of-contents", "link": "#toc0", "extra": null, "label": {"text": "<H>"}, "target": null}}]}]}}])
    } else {
        json!([])
    };
    json!({"elements": elements, "table-of-contents": toc, "html-blocks": [], "code-blocks": [], "footnotes": footnotes, "bibliographies": bibliographies, "wikitext-len": 10})
}
