//! C22: which inline formatting a text has, against a reference interpreter.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen, htmlmodel};
use serde_json::{json, Value};
use std::collections::HashMap;

pub const PROP: Property = Property {
    id: "C22",
    quick_cases: 400_000,
    thorough_cases: 5_000_000,
    budget: 2_000_000,
    over_budget: OverBudget::Discard,
    rule: "at least four marks, some of them formatting and some of them text",
    assumptions: &["the marks are next to words, spaces, line ends and each other, as the tokens of the text say"],
    run,
};

#[derive(Clone, Debug, PartialEq)]
enum Item {
    /// Names of tokens that these are, and the text.
    Word(String),
    Space(usize),
    Line,
    Paragraph,
    /// Marks that are the same on both sides, with their element.
    Mark(&'static str),
    LeftMono,
    RightMono,
    Color,
    Bar,
    Open(&'static str),
    Close(&'static str),
    LeftComment,
    RightComment,
    Underscore,
    Raw(String),
    Link(String),
}

use Item::*;

const MARKS: &[(&str, &str, &str)] = &[
    ("**", "Bold", "bold"),
    ("//", "Italics", "italics"),
    ("__", "Underline", "underline"),
    ("^^", "Superscript", "superscript"),
    (",,", "Subscript", "subscript"),
    ("--", "DoubleDash", "strikethrough"),
    ("~~", "DoubleTilde", "strikethrough"),
];

const BLOCKS: &[(&str, &str)] = &[("b", "bold"), ("i", "italics"), ("span", "span"), ("del", "deletion"), ("s", "strikethrough"), ("mark", "mark")];

impl Item {
    fn text(&self) -> String {
        match self {
            Word(w) => w.clone(),
            Space(n) => " ".repeat(*n),
            Line => "\n".into(),
            Paragraph => "\n\n".into(),
            Mark(m) => m.to_string(),
            LeftMono => "{{".into(),
            RightMono => "}}".into(),
            Color => "##".into(),
            Bar => "|".into(),
            Open(n) => format!("[[{n}]]"),
            Close(n) => format!("[[/{n}]]"),
            LeftComment => "[!--".into(),
            RightComment => "--]".into(),
            Underscore => "_".into(),
            Raw(w) => format!("@@{w}@@"),
            Link(w) => format!("[[[{w}]]]"),
        }
    }

    fn tokens(&self) -> Vec<&'static str> {
        match self {
            Word(_) => vec!["Identifier"],
            Space(_) => vec!["Whitespace"],
            Line => vec!["LineBreak"],
            Paragraph => vec!["ParagraphBreak"],
            Mark(m) => vec![MARKS.iter().find(|(s, ..)| s == m).unwrap().1],
            LeftMono => vec!["LeftMonospace"],
            RightMono => vec!["RightMonospace"],
            Color => vec!["Color"],
            Bar => vec!["Pipe"],
            Open(_) => vec!["LeftBlock", "Identifier", "RightBlock"],
            Close(_) => vec!["LeftBlockEnd", "Identifier", "RightBlock"],
            LeftComment => vec!["LeftComment"],
            RightComment => vec!["RightComment"],
            Underscore => vec!["Underscore"],
            Raw(_) => vec!["Raw", "Identifier", "Raw"],
            Link(_) => vec!["LeftLink", "Identifier", "RightLink"],
        }
    }
}

/// What the items from each place on are, regardless of what is around them.
struct Reference<'a> {
    items: &'a [Item],
    known: HashMap<usize, (Vec<Value>, usize)>,
}

impl Reference<'_> {
    fn at(&self, p: usize) -> Option<&Item> {
        self.items.get(p)
    }

    /// The elements of the item at this place, and the place after it.
    fn element(&mut self, p: usize) -> (Vec<Value>, usize) {
        if let Some(r) = self.known.get(&p) {
            return r.clone();
        }
        let r = self.formatted(p).unwrap_or_else(|| {
            let item = &self.items[p];
            (vec![text_el(&if *item == Mark("--") { "\u{2014}".to_string() } else { item.text() })], p + 1)
        });
        self.known.insert(p, r.clone());
        r
    }

    fn formatted(&mut self, p: usize) -> Option<(Vec<Value>, usize)> {
        let item = self.items[p].clone();
        Some(match item {
            Mark(m) => {
                let name = MARKS.iter().find(|(s, ..)| *s == m).unwrap().2;
                let (e, end) = self.contents(p + 1, &Mark(m), true, None)?;
                (vec![container(json!(name), json!({}), e)], end)
            }
            LeftMono => {
                let (e, end) = self.contents(p + 1, &RightMono, true, Some(&LeftMono))?;
                (vec![container(json!("monospace"), json!({}), e)], end)
            }
            Color => {
                let bar = p + 1 + self.items[p + 1..].iter().position(|i| matches!(i, Bar | Line | Paragraph))?;
                if *self.at(bar)? != Bar {
                    return None;
                }
                let name: String = self.items[p + 1..bar].iter().map(Item::text).collect();
                let (e, end) = self.contents(bar + 1, &Color, false, None)?;
                let hex = matches!(name.len(), 3 | 6) && name.bytes().all(|b| b.is_ascii_hexdigit());
                (vec![json!({"element": "color", "data": {"color": if hex { format!("#{name}") } else { name }, "elements": e}})], end)
            }
            Open(n) => {
                let mut e = vec![];
                let mut q = p + 1;
                if matches!(self.at(q), Some(Space(_))) {
                    q += 1;
                }
                while *self.at(q)? != Close(n) {
                    let (more, next) = self.element(q);
                    e.extend(more);
                    q = next;
                }
                (vec![container(json!(BLOCKS.iter().find(|(b, _)| *b == n).unwrap().1), json!({}), e)], q + 1)
            }
            LeftComment => {
                let end = self.items[p..].iter().position(|i| *i == RightComment)?;
                (vec![], p + end + 1)
            }
            Space(_) if self.at(p + 1) == Some(&Underscore) && matches!(self.at(p + 2), Some(Line | Paragraph)) => (vec![json!({"element": "line-break"})], p + 3),
            Underscore if (p == 0 || matches!(self.items[p - 1], Line | Paragraph)) && matches!(self.at(p + 1), Some(Line | Paragraph)) => (vec![json!({"element": "line-break"})], p + 2),
            Line | Paragraph => (vec![json!({"element": "line-break"})], p + 1),
            Raw(w) => (vec![json!({"element": "raw", "data": w})], p + 1),
            Link(w) => (vec![json!({"element": "link", "data": {"type": "page", "link": {"site": null, "page": w}, "extra": null, "label": {"url": null}, "target": null}})], p + 1),
            _ => return None,
        })
    }

    /// Up to the end mark. If `tight`, then there is no space before the end; `inner` has no space after it.
    fn contents(&mut self, mut p: usize, end: &Item, tight: bool, inner: Option<&Item>) -> Option<(Vec<Value>, usize)> {
        let mut all = vec![];
        loop {
            let item = self.at(p)?;
            if item == end {
                return Some((all, p + 1));
            }
            let next = self.at(p + 1);
            if *item == Paragraph || tight && matches!(item, Space(_)) && next == Some(end) || Some(item) == inner && matches!(next, Some(Space(_))) {
                return None;
            }
            let (e, q) = self.element(p);
            all.extend(e);
            p = q;
        }
    }

    fn paragraphs(&mut self) -> Vec<Value> {
        let mut all = vec![];
        let mut current: Vec<Value> = vec![];
        let mut p = 0;
        while p < self.items.len() {
            if self.items[p] == Paragraph {
                if !current.is_empty() {
                    all.push(container(json!("paragraph"), json!({}), std::mem::take(&mut current)));
                }
                p += 1;
                continue;
            }
            let (e, q) = self.element(p);
            for e in e {
                if !(current.is_empty() && e["element"] == "line-break") {
                    current.push(e);
                }
            }
            p = q;
        }
        if !current.is_empty() {
            all.push(container(json!("paragraph"), json!({}), current));
        }
        all
    }
}

fn items(src: &mut Src) -> Vec<Item> {
    // A few kinds of marks, so that these pair.
    let kinds: Vec<usize> = (0..src.range(1, 3)).map(|_| src.below(11)).collect();
    let n = src.range(2, 24);
    let mut items: Vec<Item> = vec![];
    for _ in 0..n {
        let item = match src.weighted(&[10, 6, 2, 2, 16, 2, 2, 1]) {
            0 => Word(match src.below(6) {
                0 => "abc".into(),
                1 => src.pick_str(&["FF0000", "a1b2c3", "abcd", "12345", "ab", "0", "abcdef0", "12345678", "abcdeg", "xyz", "fFf"]).into(),
                _ => gen::ident(src),
            }),
            1 => Space(src.weighted(&[6, 1]) + 1),
            2 => Line,
            3 => Paragraph,
            4 => match *src.pick(&kinds) {
                k @ 0..=6 => Mark(MARKS[k].0),
                7 => {
                    if src.bool() {
                        LeftMono
                    } else {
                        RightMono
                    }
                }
                8 => {
                    if src.bool() {
                        Color
                    } else {
                        Bar
                    }
                }
                9 => {
                    if src.bool() {
                        LeftComment
                    } else {
                        RightComment
                    }
                }
                _ => {
                    let n = src.pick(BLOCKS).0;
                    if src.bool() {
                        Open(n)
                    } else {
                        Close(n)
                    }
                }
            },
            5 => Underscore,
            6 => Raw(gen::ident(src)),
            _ => Link(gen::ident(src)),
        };
        // What would be one token.
        match (items.last(), &item) {
            (Some(Word(_)), Word(_)) | (Some(Space(_)), Space(_)) | (Some(Line | Paragraph), Line | Paragraph) => items.push(Bar),
            (Some(Word(_)), Underscore | Mark("__")) | (Some(Underscore | Mark("__")), Word(_) | Underscore) => items.push(Space(1)),
            (Some(Paragraph | Line), Space(_)) => items.push(Word("x".into())),
            (Some(Space(_)), Paragraph | Line) => {
                items.push(Word("x".into()));
            }
            _ => {}
        }
        items.push(item);
    }
    // Not removed from the ends.
    for _ in 0..2 {
        if matches!(items.first(), Some(Space(_) | Line | Paragraph)) {
            items.remove(0);
        }
        if matches!(items.last(), Some(Space(_) | Line | Paragraph)) {
            items.pop();
        }
    }
    items
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let items = items(src);
    let inner: String = items.iter().map(Item::text).collect();
    let block = src.chance(1, 4) && items.last() != Some(&Underscore);
    let text = if block { format!("[[div]]\n{inner}\n[[/div]]") } else { inner.clone() };
    announce(src, cx, &text);
    // Only what has these tokens.
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    let tokens = ftml::tokenize(&inner);
    let actual: Vec<&'static str> = tokens.tokens().iter().map(|t| t.token.name()).filter(|t| !t.starts_with("Input")).collect();
    let expected: Vec<&'static str> = items.iter().flat_map(Item::tokens).collect();
    if actual.len() != expected.len() || actual.iter().zip(&expected).any(|(a, e)| *a != *e) {
        cx.discarded = true;
        return Ok(());
    }
    let (info, settings) = (info(), page_settings());
    let (tree, errors) = parse_raw(&text, &info, &settings);
    let mut want = Reference { items: &items, known: HashMap::new() }.paragraphs();
    if block {
        cx.label("in a block");
        want = vec![container(json!("div"), json!({}), want)];
    }
    let want = norm(&Value::Array(want));
    let actual = Value::Array(crate::common::elements(&tree));
    check!(want == actual, "formatting", "{}\nactual: {actual}\nerrors: {errors:?}", diff(&want, &actual));
    htmlmodel::judge(&tree, &info, &settings)?;
    let marks = items.iter().filter(|i| !matches!(i, Word(_) | Space(_) | Line | Paragraph | Underscore | Raw(_) | Link(_))).count();
    let formatted = want.to_string().matches("\"elements\"").count() > want.to_string().matches("\"paragraph\"").count();
    cx.nontrivial_if(marks >= 4 && formatted && !errors.is_empty());
    Ok(())
}
