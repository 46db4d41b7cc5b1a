//! Structured documents: wikitext generated together with the syntax tree that
//! it must give. The expected trees are written down here from the documentation
//! of the syntax, not taken from ftml.

use crate::common::{container, text_el};
use crate::engine::Src;
use serde_json::{json, Map, Value};

#[derive(Default)]
pub struct Doc {
    pub text: String,
    pub elements: Vec<Value>,
    pub footnotes: Vec<Vec<Value>>,
    /// (level, plain text of the heading)
    pub headings: Vec<(usize, String)>,
    /// (contents, name)
    pub code: Vec<(String, Option<String>)>,
    pub html: Vec<String>,
    pub kinds: Vec<&'static str>,
    pub max_depth: usize,
}

pub type Out = (String, Vec<Value>);

pub struct Model<'s> {
    pub src: &'s mut Src,
    pub footnotes: Vec<Vec<Value>>,
    pub headings: Vec<(usize, String)>,
    pub code: Vec<(String, Option<String>)>,
    pub html: Vec<String>,
    pub kinds: Vec<&'static str>,
    /// Inline formatting that is open, and must not be used again inside.
    active: Vec<&'static str>,
    in_footnote: bool,
    in_link: bool,
    /// Lines may end within inline content.
    multi: bool,
    pub max_inline: usize,
    pub max_block: usize,
    pub deepest: usize,
    /// Leave out anything with side tables (footnotes, headings, code, ...).
    pub plain: bool,
    /// Probability of an attribute, in eighths.
    pub attr_rate: usize,
}

/// Words that are text whatever stands around them.
pub const SAFE_WORDS: &[&str] = &[
    "apple", "banana", "cherry", "durian", "a", "x", "Foo", "SCP", "123", "7", "été", "日本語", "naïve", "word", "lorem", "Ωmega", "q1",
];

pub fn safe_word(src: &mut Src) -> &'static str {
    src.pick_str(SAFE_WORDS)
}

pub fn safe_words(src: &mut Src, max: usize) -> String {
    let n = src.range(1, max);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(safe_word(src));
    }
    s
}

/// Quotes an argument value.
pub fn quote(value: &str) -> String {
    let mut s = String::from("\"");
    for c in value.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\t' => s.push_str("\\t"),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

/// (opening, closing, container type)
const FORMATS: &[(&str, &str, &str)] = &[
    ("**", "**", "bold"),
    ("//", "//", "italics"),
    ("__", "__", "underline"),
    ("^^", "^^", "superscript"),
    (",,", ",,", "subscript"),
    ("{{", "}}", "monospace"),
    ("--", "--", "strikethrough"),
    ("~~", "~~", "strikethrough"),
];

/// (block names, container type)
pub const INLINE_BLOCKS: &[(&[&str], &str)] = &[
    (&["b", "bold", "strong"], "bold"),
    (&["i", "italics", "em", "emphasis"], "italics"),
    (&["u", "underline"], "underline"),
    (&["s", "strikethrough"], "strikethrough"),
    (&["sup", "super", "superscript"], "superscript"),
    (&["sub", "subscript"], "subscript"),
    (&["tt", "mono", "monospace"], "monospace"),
    (&["span"], "span"),
    (&["mark", "highlight"], "mark"),
    (&["ins", "insertion"], "insertion"),
    (&["del", "deletion"], "deletion"),
    (&["hidden"], "hidden"),
    (&["invisible"], "invisible"),
];

impl<'s> Model<'s> {
    pub fn new(src: &'s mut Src) -> Self {
        Model {
            src,
            footnotes: vec![],
            headings: vec![],
            code: vec![],
            html: vec![],
            kinds: vec![],
            active: vec![],
            in_footnote: false,
            in_link: false,
            multi: false,
            max_inline: 3,
            max_block: 3,
            deepest: 0,
            plain: false,
            attr_rate: 2,
        }
    }

    fn kind(&mut self, k: &'static str) {
        if !self.kinds.contains(&k) {
            self.kinds.push(k);
        }
    }

    /// Arguments of a block, with the attributes they become.
    pub fn attrs(&mut self) -> (String, Value) {
        let mut text = String::new();
        let mut map = Map::new();
        while self.src.chance(self.attr_rate, 8) && map.len() < 3 {
            let key = self.src.pick_str(&["class", "style", "title", "data-foo", "aria-label", "lang", "name"]);
            if map.contains_key(key) {
                continue;
            }
            let value = self.src.pick_str(&["x", "apple banana", "color: red;", "", "a \"quoted\" b", "back\\slash", "é <b> &amp;", "]] [[", "1 | 2"]);
            let spelled = match self.src.below(4) {
                0 => key.to_ascii_uppercase(),
                _ => key.to_string(),
            };
            // Prefixed attributes are only known in lower case.
            let spelled = if key.contains('-') { key.to_string() } else { spelled };
            text.push_str(self.src.pick_str(&[" ", "  "]));
            text.push_str(&format!("{spelled}={}", quote(value)));
            map.insert(key.into(), json!(value));
        }
        (text, Value::Object(map))
    }

    // ------------------------------------------------------------------ inline

    /// A non-empty line of inline content; starts and ends with a word.
    pub fn inline(&mut self, depth: usize) -> Out {
        self.deepest = self.deepest.max(depth);
        let n = self.src.range(1, 3);
        let mut text = String::new();
        let mut els = Vec::new();
        for i in 0..n {
            // These swallow the space after them.
            let box_before = els.last().is_some_and(|e: &Value| e["element"] == "check-box");
            if i > 0 && !box_before && self.src.chance(1, 12) {
                // A line break, then a word.
                let w = safe_word(self.src);
                text.push_str(if self.multi && self.src.bool() { "\n" } else { " _\n" });
                text.push_str(w);
                text.push(' ');
                els.extend([json!({"element": "line-break"}), text_el(w), text_el(" ")]);
            } else if i > 0 {
                text.push(' ');
                if !box_before {
                    els.push(text_el(" "));
                }
            }
            let (t, e) = self.inline_piece(depth);
            text.push_str(&t);
            els.extend(e);
        }
        (text, els)
    }

    /// The end of a block.
    fn end(&mut self, name: &str) -> String {
        match self.src.below(12) {
            0 => format!("[[/{name} ]]"),
            1 => format!("[[/ {name}]]"),
            2 => format!("[[/{}]]", name.to_ascii_uppercase()),
            _ => format!("[[/{name}]]"),
        }
    }

    fn word(&mut self) -> Out {
        let w = safe_word(self.src);
        (w.into(), vec![text_el(w)])
    }

    pub fn inline_piece(&mut self, depth: usize) -> Out {
        if depth >= self.max_inline {
            return self.word();
        }
        match self.src.weighted(&[10, 6, 6, 2, 2, 2, 2, 2, 2, 2, 1, 1, 2, 1, 5]) {
            0 => self.word(),
            14 => self.rarer(depth),
            13 => {
                self.kind("lines");
                let b = self.src.pick_str(&["lines", "newlines", "Lines"]);
                let n = self.src.pick_str(&["1", "2", "3", "12", "07"]);
                // It swallows a line break after it; have a word there.
                let w = safe_word(self.src);
                (format!("[[{b} {n}]]{w}"), vec![json!({"element": "line-breaks", "data": n.parse::<u32>().unwrap()}), text_el(w)])
            }
            1 => self.format(depth),
            2 => self.inline_block(depth),
            3 => self.color(depth),
            4 => {
                self.kind("raw");
                let body = self.src.pick_str(&["**x**", "a", "[[div]]", "//", "<b>x", "a  b", "&amp;", "__", "||x", "[[[l]]]", "日"]);
                let (a, b) = *self.src.pick(&[("@@", "@@"), ("@<", ">@")]);
                (format!("{a}{body}{b}"), vec![json!({"element": "raw", "data": body})])
            }
            5 => {
                let name = self.src.pick_str(&["foo", "Name1", "x"]);
                self.kind("variable");
                (format!("{{${name}}}"), vec![json!({"element": "variable", "data": name})])
            }
            6 => {
                self.kind("user");
                let star = self.src.bool();
                let name = self.src.pick_str(&["someone", "Some One", "a-b_c", "été"]);
                (
                    format!("[[{}user {name}]]", if star { "*" } else { "" }),
                    vec![json!({"element": "user", "data": {"name": name, "show-avatar": star}})],
                )
            }
            7 => {
                self.kind("math-inline");
                let body = self.src.pick_str(&["x", "x^2", "\\alpha + b", "a_1"]);
                (format!("[[$ {body} $]]"), vec![json!({"element": "math-inline", "data": {"latex-source": body}})])
            }
            8 => {
                self.kind("checkbox");
                let star = self.src.bool();
                let (a, m) = self.attrs();
                (
                    format!("[[{}checkbox{a}]]", if star { "*" } else { "" }),
                    vec![json!({"element": "check-box", "data": {"checked": star, "attributes": m}})],
                )
            }
            9 => {
                if self.plain || self.in_footnote {
                    return self.word();
                }
                self.kind("footnote");
                let was = std::mem::take(&mut self.active);
                self.in_footnote = true;
                let (t, e) = self.inline(depth + 1);
                self.in_footnote = false;
                self.active = was;
                self.footnotes.push(e);
                (format!("[[footnote]]{t}{}", self.end("footnote")), vec![json!({"element": "footnote"})])
            }
            10 => {
                let name = self.src.pick_str(&["foo", "bar1"]);
                self.kind("eref");
                let b = self.src.pick_str(&["eref", "eqref", "equation"]);
                (format!("[[{b} {name}]]"), vec![json!({"element": "equation-reference", "data": name})])
            }
            11 => {
                self.kind("anchor-name");
                let name = self.src.pick_str(&["foo", "bar1"]);
                let el = json!({"element": "anchor-name", "data": name});
                if self.src.bool() {
                    // This block swallows a line break after it; have a word there.
                    let b = self.src.pick_str(&["target", "anchortarget"]);
                    let w = safe_word(self.src);
                    return (format!("[[{b} {name}]] {w}"), vec![el, text_el(&format!(" {w}"))]);
                }
                (format!("[[# {name}]]"), vec![el])
            }
            _ => {
                if self.in_link {
                    return self.word();
                }
                self.link()
            }
        }
    }

    /// A word, with something between its halves.
    fn rarer(&mut self, depth: usize) -> Out {
        let (w, v) = (safe_word(self.src), safe_word(self.src));
        let (t, e) = match self.src.below(8) {
            0 => {
                self.kind("image");
                let (mark, align, float) = *self.src.pick(&[
                    ("", "", false),
                    ("=", "center", false),
                    ("<", "left", false),
                    (">", "right", false),
                    ("f<", "left", true),
                    ("f>", "right", true),
                ]);
                let align = if align.is_empty() { Value::Null } else { json!({"align": align, "float": float}) };
                let (text, source) = self.src.pick(&[
                    ("a.png", json!({"type": "file1", "data": {"file": "a.png"}})),
                    ("/some-page/a.png", json!({"type": "file2", "data": {"page": "some-page", "file": "a.png"}})),
                    ("/site/some-page/a.png", json!({"type": "file3", "data": {"site": "site", "page": "some-page", "file": "a.png"}})),
                    ("https://a.b/c.png", json!({"type": "url", "data": "https://a.b/c.png"})),
                ]).clone();
                let (a, m) = self.attrs();
                (format!("[[{mark}image {text}{a}]]"), vec![json!({"element": "image", "data": {"source": source, "link": null, "alignment": align, "attributes": m}})])
            }
            1 => {
                self.kind("radio");
                let name = self.src.pick_str(&["foo", "a-b"]);
                let star = self.src.bool();
                let (a, m) = self.attrs();
                let b = self.src.pick_str(&["radio", "radio-button"]);
                // It swallows the blanks after it, and there are none.
                (format!("[[{}{b} {name}{a}]]", if star { "*" } else { "" }), vec![json!({"element": "radio-button", "data": {"name": name, "checked": star, "attributes": m}})])
            }
            2 => {
                self.kind("char");
                let (name, text) = *self.src.pick(&[("amp", "&"), ("lt", "<"), ("hearts", "♥"), ("#65", "A"), ("#x2603", "☃")]);
                let b = self.src.pick_str(&["char", "character"]);
                (format!("[[{b} {name}]]"), vec![text_el(text)])
            }
            3 => {
                self.kind("comment");
                let body = self.src.pick_str(&["x", "**", "[[div]]", "a\n\nb", "--", "@@", "[[footnote]]x[[/footnote]]"]);
                (format!("[!-- {body} --]"), vec![])
            }
            4 => {
                self.kind("bibcite");
                let label = self.src.pick_str(&["foo", "b1"]);
                let brackets = self.src.bool();
                let t = if brackets { format!("[[bibcite {label}]]") } else { format!("((bibcite {label}))") };
                (t, vec![json!({"element": "bibliography-cite", "data": {"label": label, "brackets": brackets}})])
            }
            5 => {
                self.kind("conditional");
                let (open, close, yes) = *self.src.pick(&[
                    ("iftags +scp", "iftags", true),
                    ("iftags -scp", "iftags", false),
                    ("iftags tale hub", "iftags", true),
                    ("iftags +scp +hub", "iftags", false),
                    ("ifcategory _default", "ifcategory", true),
                    ("ifcategory other", "ifcategory", false),
                ]);
                let (footnotes, headings) = (self.footnotes.len(), self.headings.len());
                let (t, e) = self.inline(depth + 1);
                if !yes {
                    self.footnotes.truncate(footnotes);
                    self.headings.truncate(headings);
                }
                (format!("[[{open}]]{t}{}", self.end(close)), if yes { e } else { vec![] })
            }
            6 => {
                self.kind("date");
                let (value, is) = *self.src.pick(&[("1970-01-02", "1970-01-02"), ("1000", "1970-01-01 00:16:40.0 +00:00:00"), ("-1", "1969-12-31 23:59:59.0 +00:00:00")]);
                let format = self.src.pick_str(&["", "%Y", "%A, %d %B"]);
                let hover = self.src.pick_str(&["", "true", "no"]);
                let mut t = format!("[[date {value}");
                if !format.is_empty() {
                    t += &format!(" format=\"{format}\"");
                }
                if !hover.is_empty() {
                    t += &format!(" hover=\"{hover}\"");
                }
                (t + "]]", vec![json!({"element": "date", "data": {"value": is, "format": if format.is_empty() { Value::Null } else { json!(format) }, "hover": hover != "no"}})])
            }
            _ => {
                self.kind("anchor-here");
                (format!("[[# {w}]]"), vec![json!({"element": "anchor-name", "data": w})])
            }
        };
        let mut all = vec![text_el(w)];
        all.extend(e);
        all.push(text_el(v));
        (format!("{w}{t}{v}"), all)
    }

    fn format(&mut self, depth: usize) -> Out {
        let (a, b, ctype) = *self.src.pick(FORMATS);
        if self.active.contains(&a) {
            return self.word();
        }
        self.kind("format");
        self.active.push(a);
        let (t, e) = self.inline(depth + 1);
        self.active.pop();
        (format!("{a}{t}{b}"), vec![container(json!(ctype), json!({}), e)])
    }

    fn color(&mut self, depth: usize) -> Out {
        if self.active.contains(&"##") {
            return self.word();
        }
        self.kind("color");
        let (spec, color) = *self.src.pick(&[("red", "red"), ("blue", "blue"), ("ff8800", "#ff8800"), ("A0f", "#A0f"), ("abcd", "abcd")]);
        self.active.push("##");
        let (t, e) = self.inline(depth + 1);
        self.active.pop();
        (format!("##{spec}|{t}##"), vec![json!({"element": "color", "data": {"color": color, "elements": e}})])
    }

    fn inline_block(&mut self, depth: usize) -> Out {
        match self.src.weighted(&[8, 2, 2, 1]) {
            1 => {
                self.kind("size");
                let size = self.src.pick_str(&["120%", "2em", "x-large", "10px"]);
                let (t, e) = self.fresh(|m| m.inline(depth + 1));
                (
                    format!("[[size {size}]]{t}{}", self.end("size")),
                    vec![container(json!("size"), json!({"style": format!("font-size: {size};")}), e)],
                )
            }
            2 => {
                if self.in_link {
                    return self.word();
                }
                self.kind("anchor");
                let star = self.src.bool();
                let (a, m) = self.attrs();
                self.in_link = true;
                let (t, e) = self.fresh(|m| m.inline(depth + 1));
                self.in_link = false;
                let b = self.src.pick_str(&["a", "anchor"]);
                (
                    format!("[[{}{b}{a}]]{t}{}", if star { "*" } else { "" }, self.end(b)),
                    vec![json!({"element": "anchor", "data": {
                        "target": if star { json!("new-tab") } else { Value::Null },
                        "attributes": m, "elements": e}})],
                )
            }
            3 => {
                self.kind("ruby");
                let base = safe_word(self.src);
                let rt = safe_word(self.src);
                let inner = vec![text_el(base), container(json!("ruby-text"), json!({}), vec![text_el(rt)])];
                let t = match self.src.below(3) {
                    0 => format!("[[rb {base}|{rt}]]"),
                    1 => format!("[[ruby2 {base} | {rt}]]"),
                    _ => format!("[[ruby]]{base}[[rt]]{rt}[[/rt]][[/ruby]]"),
                };
                (t, vec![container(json!("ruby"), json!({}), inner)])
            }
            _ => {
                self.kind("inline-block");
                let (names, ctype) = *self.src.pick(INLINE_BLOCKS);
                let mut name = self.src.pick_str(names).to_string();
                let mut close = name.clone();
                if self.src.chance(1, 6) {
                    name = name.to_ascii_uppercase();
                }
                if self.src.chance(1, 6) {
                    close = close.to_ascii_uppercase();
                }
                let (a, m) = self.attrs();
                let (t, e) = self.fresh(|m| m.inline(depth + 1));
                (format!("[[{name}{a}]]{t}{}", self.end(&close)), vec![container(json!(ctype), m, e)])
            }
        }
    }

    /// Inside a block, surrounding inline formatting still ends at its token, so
    /// `active` stays.
    fn fresh(&mut self, f: impl FnOnce(&mut Self) -> Out) -> Out {
        f(self)
    }

    fn link(&mut self) -> Out {
        self.kind("link");
        let star = self.src.chance(1, 4);
        let target = if star { json!("new-tab") } else { Value::Null };
        let s = if star { "*" } else { "" };
        let label = safe_words(self.src, 2);
        match self.src.below(4) {
            0 => {
                let page = self.src.pick_str(&["some-page", "cat:page", "scp-173"]);
                (
                    format!("[[[{s}{page}|{label}]]]"),
                    vec![json!({"element": "link", "data": {
                        "type": "page", "link": {"site": null, "page": page}, "extra": null,
                        "label": {"text": label}, "target": target}})],
                )
            }
            1 => {
                let url = self.src.pick_str(&["https://example.com/", "http://a.b/c?d=e", "ftp://x.y"]);
                (
                    format!("[[[{s}{url} | {label}]]]"),
                    vec![json!({"element": "link", "data": {
                        "type": "direct", "link": url, "extra": null,
                        "label": {"text": label}, "target": target}})],
                )
            }
            2 => {
                let url = self.src.pick_str(&["https://example.com/", "http://a.b/c?d=e", "ftp://x.y"]);
                (
                    format!("[{s}{url} {label}]"),
                    vec![json!({"element": "link", "data": {
                        "type": "direct", "link": url, "extra": null,
                        "label": {"text": label}, "target": target}})],
                )
            }
            _ => {
                let url = self.src.pick_str(&["https://example.com/", "http://a.b/c?d=e", "ftp://x.y"]);
                // The word keeps whatever follows from becoming part of the URL.
                let w = safe_word(self.src);
                (
                    format!("{url} {w}"),
                    vec![
                        json!({"element": "link", "data": {
                            "type": "direct", "link": url, "extra": null,
                            "label": {"url": null}, "target": null}}),
                        text_el(&format!(" {w}")),
                    ],
                )
            }
        }
    }

    /// With lines ending in it.
    fn multi(&mut self, f: impl FnOnce(&mut Self) -> Out) -> Out {
        let was = std::mem::replace(&mut self.multi, true);
        let out = f(self);
        self.multi = was;
        out
    }

    /// Contents of cells and items of blocks: lines and paragraphs joined by
    /// line breaks.
    fn loose(&mut self) -> Out {
        let (mut text, mut els) = self.multi(|m| m.inline(1));
        while !els.last().is_some_and(|e| e["element"] == "check-box") && self.src.chance(1, 8) {
            let w = safe_word(self.src);
            text.push_str(self.src.pick_str(&["\n", "\n\n"]));
            text.push_str(&format!("{w} "));
            els.extend([json!({"element": "line-break"}), text_el(w), text_el(" ")]);
            let (t, e) = self.multi(|m| m.inline(1));
            text.push_str(&t);
            els.extend(e);
        }
        (text, els)
    }

    /// Lines joined by line breaks.
    pub fn lines(&mut self, max: usize) -> Out {
        self.multi(|m| m.plain_lines(max))
    }

    fn plain_lines(&mut self, max: usize) -> Out {
        let n = self.src.range(1, max);
        let mut text = String::new();
        let mut els = Vec::new();
        for i in 0..n {
            if i > 0 {
                els.push(json!({"element": "line-break"}));
                text.push('\n');
            }
            // Most lines start with a word.
            if self.src.chance(1, 4) {
                let (mut t, mut e) = self.inline_piece(0);
                if i > 0 && t.starts_with("[[") {
                    // Some blocks swallow the line break before them.
                    let w = safe_word(self.src);
                    t = format!("{w} {t}");
                    e.insert(0, text_el(&format!("{w} ")));
                }
                text.push_str(&t);
                els.extend(e);
                if els.last().is_some_and(|e| e["element"] == "check-box") {
                    continue;
                }
            } else {
                let w = safe_word(self.src);
                text.push_str(w);
                els.push(text_el(w));
            }
            if self.src.chance(3, 4) {
                let (t, e) = self.inline(0);
                text.push(' ');
                els.push(text_el(" "));
                text.push_str(&t);
                els.extend(e);
            }
        }
        (text, els)
    }

    // ------------------------------------------------------------------ blocks

    pub fn paragraph(&mut self) -> Out {
        let (t, e) = self.lines(3);
        (t, vec![container(json!("paragraph"), json!({}), e)])
    }

    /// Blocks separated by blank lines.
    pub fn blocks(&mut self, depth: usize, max: usize) -> Out {
        let n = self.src.range(1, max);
        let mut text = String::new();
        let mut els = Vec::new();
        for i in 0..n {
            let sep = self.src.pick_str(&["\n\n", "\n\n", "\n\n\n", "\n"]);
            let (t, e) = self.block(depth);
            let is_para = |e: Option<&Value>| e.is_some_and(|e| e["data"]["type"] == "paragraph");
            if i > 0 {
                // Only paragraphs need a blank line between them.
                let both = is_para(els.last()) && is_para(e.first());
                let same = els.last().is_some_and(|l: &Value| l["element"] == e[0]["element"] || l["data"]["type"] == e[0]["data"]["type"]);
                text.push_str(if (both || same) && sep.len() == 1 { "\n\n" } else { sep });
            }
            // Line-based constructs join across a blank line.
            if i > 0 && els.last().is_some_and(|l: &Value| l["element"] == e[0]["element"] || l["data"]["type"] == e[0]["data"]["type"]) {
                let w = safe_word(self.src);
                text.push_str(&format!("{w}\n\n"));
                els.push(container(json!("paragraph"), json!({}), vec![text_el(w)]));
            }
            text.push_str(&t);
            els.extend(e);
        }
        (text, els)
    }

    pub fn block(&mut self, depth: usize) -> Out {
        self.deepest = self.deepest.max(depth);
        if depth >= self.max_block {
            return self.paragraph();
        }
        match self.src.weighted(&[8, 3, 3, 3, 3, 2, 6, 3, 2, 2, 2, 2, 3, 2]) {
            0 => self.paragraph(),
            1 => self.heading(),
            2 => self.list(),
            3 => self.blockquote(),
            4 => self.table(),
            5 => self.rule(),
            6 => self.container_block(depth),
            7 => self.collapsible(depth),
            8 => self.tabview(depth),
            9 => self.table_block(),
            10 => self.list_block(0),
            11 => self.definition_list(),
            12 => self.raw_block(),
            _ => self.void_block(),
        }
    }

    pub fn heading(&mut self) -> Out {
        self.kind("heading");
        let level = self.src.range(1, 6);
        let toc = !self.src.chance(1, 4);
        let (t, e) = self.inline(1);
        if toc {
            self.headings.push((level, String::new()));
        }
        (
            format!("{}{} {t}", "+".repeat(level), if toc { "" } else { "*" }),
            vec![container(json!({"header": {"level": level, "has-toc": toc}}), json!({}), e)],
        )
    }

    pub fn list(&mut self) -> Out {
        self.kind("list");
        let bullet = self.src.bool();
        let (t, e) = self.list_level(bullet, 0);
        (t, vec![e])
    }

    fn list_level(&mut self, bullet: bool, depth: usize) -> (String, Value) {
        let n = self.src.range(1, 3);
        let mut text = String::new();
        let mut items = Vec::new();
        for i in 0..n {
            if i > 0 {
                text.push('\n');
            }
            let (t, e) = self.inline(1);
            text.push_str(&" ".repeat(depth));
            text.push_str(if bullet { "* " } else { "# " });
            text.push_str(&t);
            items.push(json!({"item-type": "elements", "attributes": {}, "elements": e}));
            // Lists of the other kind may follow a deeper list immediately.
            let mut kind = self.src.bool();
            let mut chance = 4;
            while depth < 3 && self.src.chance(1, chance) {
                let (t, list) = self.list_level(kind, depth + 1);
                text.push('\n');
                text.push_str(&t);
                let mut item = list.as_object().unwrap().clone();
                item.insert("item-type".into(), json!("sub-list"));
                items.push(Value::Object(item));
                kind = !kind;
                chance = 3;
            }
        }
        let ltype = if bullet { "bullet" } else { "numbered" };
        (text, json!({"element": "list", "data": {"type": ltype, "attributes": {}, "items": items}}))
    }

    pub fn blockquote(&mut self) -> Out {
        self.kind("blockquote");
        let (t, e) = self.quote_level(1);
        (t, vec![e])
    }

    fn quote_level(&mut self, depth: usize) -> (String, Value) {
        let mut lines: Vec<String> = Vec::new();
        let mut out = Vec::new();
        let mut para: Vec<Value> = Vec::new();
        let n = self.src.range(1, 3);
        let marks = ">".repeat(depth);
        for i in 0..n {
            if i > 0 && depth < 4 && self.src.chance(1, 4) {
                // A deeper quote in between ends the paragraph.
                if !para.is_empty() {
                    out.push(container(json!("paragraph"), json!({}), std::mem::take(&mut para)));
                }
                let (t, e) = self.quote_level(depth + 1);
                lines.push(t);
                out.push(e);
            }
            let (t, e) = self.inline(1);
            lines.push(format!("{marks}{}{t}", self.src.pick_str(&[" ", " ", "  "])));
            if !para.is_empty() {
                para.push(json!({"element": "line-break"}));
            }
            para.extend(e);
        }
        if !para.is_empty() {
            out.push(container(json!("paragraph"), json!({}), para));
        }
        (lines.join("\n"), container(json!("blockquote"), json!({}), out))
    }

    pub fn table(&mut self) -> Out {
        self.kind("table");
        let rows = self.src.range(1, 3);
        let mut text = String::new();
        let mut jrows = Vec::new();
        for r in 0..rows {
            if r > 0 {
                text.push('\n');
            }
            let cols = self.src.range(1, 3);
            let mut cells = Vec::new();
            for _ in 0..cols {
                let span = if self.src.chance(1, 5) { self.src.range(2, 3) } else { 1 };
                let (mark, header, align) = *self.src.pick(&[
                    ("||", false, None),
                    ("||", false, None),
                    ("||~", true, None),
                    ("||<", false, Some("left")),
                    ("||>", false, Some("right")),
                    ("||=", false, Some("center")),
                ]);
                text.push_str(&"||".repeat(span - 1));
                text.push_str(mark);
                let lead = self.src.pick_str(&[" ", "", "  "]);
                let (t, e) = self.inline(1);
                text.push_str(if t.starts_with('~') { " " } else { lead });
                text.push_str(&t);
                text.push_str(self.src.pick_str(&[" ", "", "  "]));
                cells.push(json!({"header": header, "column-span": span, "align": align, "attributes": {}, "elements": e}));
            }
            text.push_str("||");
            jrows.push(json!({"attributes": {}, "cells": cells}));
        }
        (text, vec![json!({"element": "table", "data": {"attributes": {"class": "wj-table"}, "rows": jrows}})])
    }

    fn rule(&mut self) -> Out {
        self.kind("rule");
        match self.src.below(5) {
            0 | 1 => ("-".repeat(self.src.range(4, 8)), vec![json!({"element": "horizontal-rule"})]),
            2 => ("~".repeat(self.src.range(4, 6)), vec![json!({"element": "clear-float", "data": "both"})]),
            3 => (format!("{}<", "~".repeat(self.src.range(4, 6))), vec![json!({"element": "clear-float", "data": "left"})]),
            _ => (format!("{}>", "~".repeat(self.src.range(4, 6))), vec![json!({"element": "clear-float", "data": "right"})]),
        }
    }

    fn container_block(&mut self, depth: usize) -> Out {
        self.kind("container-block");
        if self.src.chance(1, 4) {
            let (t, e) = self.inline(1);
            self.kind("center-line");
            return (format!("= {t}"), vec![container(json!({"align": "center"}), json!({}), e)]);
        }
        let (name, ctype, with_attrs) = match self.src.below(7) {
            0 | 1 => ("div", json!("div"), true),
            2 => (self.src.pick_str(&["blockquote", "quote"]), json!("blockquote"), true),
            3 => ("=", json!({"align": "center"}), false),
            4 => (">", json!({"align": "right"}), false),
            5 => ("<", json!({"align": "left"}), false),
            _ => ("==", json!({"align": "justify"}), false),
        };
        let (a, m) = if with_attrs { self.attrs() } else { (String::new(), json!({})) };
        let (t, e) = self.blocks(depth + 1, 2);
        (format!("[[{name}{a}]]\n{t}\n{}", self.end(name)), vec![container(ctype, m, e)])
    }

    fn collapsible(&mut self, depth: usize) -> Out {
        self.kind("collapsible");
        let (mut a, m) = self.attrs();
        let mut show = Value::Null;
        let mut hide = Value::Null;
        let mut open = false;
        let (mut top, mut bottom) = (true, false);
        if self.src.bool() {
            let v = self.src.pick_str(&["+ more", "a \"b\"", "x"]);
            a.push_str(&format!(" show={}", quote(v)));
            show = json!(v);
        }
        if self.src.bool() {
            let v = self.src.pick_str(&["- less", "<i>", "y"]);
            a.push_str(&format!(" hide={}", quote(v)));
            hide = json!(v);
        }
        if self.src.chance(1, 3) {
            let (v, o) = *self.src.pick(&[("no", true), ("false", true), ("yes", false), ("true", false), ("f", true), ("t", false)]);
            a.push_str(&format!(" folded=\"{v}\""));
            open = o;
        }
        if self.src.chance(1, 3) {
            let (v, t, b) = *self.src.pick(&[("top", true, false), ("bottom", false, true), ("both", true, true), ("neither", false, false)]);
            a.push_str(&format!(" hideLocation=\"{v}\""));
            (top, bottom) = (t, b);
        }
        let (t, e) = self.blocks(depth + 1, 2);
        (
            format!("[[collapsible{a}]]\n{t}\n{}", self.end("collapsible")),
            vec![json!({"element": "collapsible", "data": {
                "elements": e, "attributes": m, "start-open": open, "show-text": show, "hide-text": hide,
                "show-top": top, "show-bottom": bottom}})],
        )
    }

    fn tabview(&mut self, depth: usize) -> Out {
        self.kind("tabview");
        let name = self.src.pick_str(&["tabview", "tabs"]);
        let n = self.src.range(1, 3);
        let mut text = format!("[[{name}]]\n");
        let mut tabs = Vec::new();
        for _ in 0..n {
            let label = safe_words(self.src, 2);
            let (t, e) = self.blocks(depth + 1, 2);
            text.push_str(&format!("[[tab {label}]]\n{t}\n{}\n", self.end("tab")));
            tabs.push(json!({"label": label, "elements": e}));
        }
        text.push_str(&self.end(name));
        (text, vec![json!({"element": "tab-view", "data": tabs})])
    }

    fn table_block(&mut self) -> Out {
        self.kind("table-block");
        let (a, m) = self.attrs();
        let mut text = format!("[[table{a}]]\n");
        let mut rows = Vec::new();
        for _ in 0..self.src.range(1, 3) {
            let (a, rm) = self.attrs();
            text.push_str(&format!("[[row{a}]]\n"));
            let mut cells = Vec::new();
            for _ in 0..self.src.range(1, 3) {
                let header = self.src.bool();
                let (mut a, cm) = self.attrs();
                let mut span = 1;
                if self.src.chance(1, 4) {
                    span = self.src.range(1, 4);
                    a.push_str(&format!(" colspan=\"{span}\""));
                }
                let (t, e) = self.loose();
                let n = if header { "hcell" } else { "cell" };
                let nl = self.src.pick_str(&["", "\n"]);
                text.push_str(&format!("[[{n}{a}]]{nl}{t}{nl}{}\n", self.end(n)));
                cells.push(json!({"header": header, "column-span": span, "align": null, "attributes": cm, "elements": e}));
            }
            text.push_str(&format!("{}\n", self.end("row")));
            rows.push(json!({"attributes": rm, "cells": cells}));
        }
        text.push_str(&self.end("table"));
        (text, vec![json!({"element": "table", "data": {"attributes": m, "rows": rows}})])
    }

    fn list_block(&mut self, depth: usize) -> Out {
        self.kind("list-block");
        let (name, ltype) = *self.src.pick(&[("ul", "bullet"), ("ol", "numbered")]);
        let (a, m) = self.attrs();
        let mut text = format!("[[{name}{a}]]\n");
        let mut items = Vec::new();
        for i in 0..self.src.range(1, 3) {
            if i > 0 && depth < 2 && self.src.chance(1, 5) {
                let (t, e) = self.list_block(depth + 1);
                text.push_str(&t);
                text.push('\n');
                let mut item = e[0].as_object().unwrap().clone();
                item.insert("item-type".into(), json!("sub-list"));
                items.push(Value::Object(item));
                continue;
            }
            let (a, im) = self.attrs();
            let (t, e) = self.loose();
            text.push_str(&format!("[[li{a}]]{t}{}\n", self.end("li")));
            items.push(json!({"item-type": "elements", "attributes": im, "elements": e}));
        }
        text.push_str(&self.end(name));
        (text, vec![json!({"element": "list", "data": {"type": ltype, "attributes": m, "items": items}})])
    }

    fn definition_list(&mut self) -> Out {
        self.kind("definition-list");
        let mut text = String::new();
        let mut items = Vec::new();
        for i in 0..self.src.range(1, 3) {
            if i > 0 {
                text.push('\n');
            }
            let (key, k) = if self.src.chance(1, 3) {
                let (mut t, mut e) = self.inline(1);
                // A checkbox swallows the blank after it, which the key needs.
                let w = safe_word(self.src);
                t.push_str(w);
                e.push(text_el(w));
                (t, e)
            } else {
                let key = safe_words(self.src, 2);
                (key.clone(), vec![text_el(&key)])
            };
            let (t, e) = self.inline(1);
            text.push_str(&format!(": {key} : {t}"));
            items.push(json!({"key_string": key, "key": k, "value": e}));
        }
        (text, vec![json!({"element": "definition-list", "data": items})])
    }

    fn raw_block(&mut self) -> Out {
        let body = self.src.pick_str(&["x = 1;", "**no** //bold//\n[[div]]\n  indented", "<b>&amp;</b>", "line one\n\nline two", "@@ [!-- c --] {$v}", "* a\n> b"]);
        match self.src.below(4) {
            0 | 1 => {
                if self.plain {
                    return self.paragraph();
                }
                self.kind("code");
                let lang = *self.src.pick(&[None, Some("css"), Some("Rust"), Some("c++")]);
                let a = lang.map(|l| format!(" type=\"{l}\"")).unwrap_or_default();
                self.code.push((body.into(), None));
                (
                    format!("[[code{a}]]\n{body}\n{}", self.end("code")),
                    vec![json!({"element": "code", "data": {"contents": body, "language": lang.map(str::to_lowercase)}})],
                )
            }
            2 => {
                if self.plain {
                    return self.paragraph();
                }
                self.kind("html");
                self.html.push(body.into());
                (format!("[[html]]\n{body}\n{}", self.end("html")), vec![json!({"element": "html", "data": {"contents": body}})])
            }
            _ => {
                self.kind("math");
                let name = *self.src.pick(&[None, Some("eq1"), Some("E2")]);
                let latex = self.src.pick_str(&["x", "\\frac{1}{2}", "a + b = c\nd"]);
                (
                    format!("[[math{}]]\n{latex}\n[[/math]]", name.map(|n| format!(" {n}")).unwrap_or_default()),
                    vec![json!({"element": "math", "data": {"name": name, "latex-source": latex}})],
                )
            }
        }
    }

    fn void_block(&mut self) -> Out {
        self.kind("void-block");
        match self.src.below(5) {
            0 => {
                let (a, m) = self.attrs();
                let url = self.src.pick_str(&["https://example.com/x", "http://a.b/?c=d"]);
                (format!("[[iframe {url}{a}]]"), vec![json!({"element": "iframe", "data": {"attributes": m, "url": url}})])
            }
            1 => {
                let (a, m) = self.attrs();
                let (pre, align) = *self.src.pick(&[("", None), ("f<", Some("left")), ("f>", Some("right"))]);
                (format!("[[{pre}toc{a}]]"), vec![json!({"element": "table-of-contents", "data": {"attributes": m, "align": align}})])
            }
            2 => {
                let (t, e) = *self.src.pick(&[
                    ("[[module Rate]]", r#"{"module":"rate"}"#),
                    ("[[module Categories]]", r#"{"module":"categories","data":{"include-hidden":false}}"#),
                    ("[[module Backlinks page=\"foo\"]]", r#"{"module":"backlinks","data":{"page":"foo"}}"#),
                ]);
                (t.into(), vec![json!({"element": "module", "data": serde_json::from_str::<Value>(e).unwrap()})])
            }
            3 => {
                let (t, e) = *self.src.pick(&[
                    ("[[embed youtube video=\"abc\"]]", r#"{"embed":"youtube","data":{"video-id":"abc"}}"#),
                    ("[[embed vimeo video=\"12\"]]", r#"{"embed":"vimeo","data":{"video-id":"12"}}"#),
                ]);
                (t.into(), vec![json!({"element": "embed", "data": serde_json::from_str::<Value>(e).unwrap()})])
            }
            _ => {
                let css = self.src.pick_str(&["a { color: red; }", ".x > y {\n  b: c;\n}", "@import url(x);"]);
                (format!("[[module CSS]]\n{css}\n[[/module]]"), vec![json!({"element": "style", "data": css})])
            }
        }
    }

    pub fn into_doc(self, out: Out) -> Doc {
        Doc {
            text: out.0,
            elements: out.1,
            footnotes: self.footnotes,
            headings: self.headings,
            code: self.code,
            html: self.html,
            kinds: self.kinds,
            max_depth: self.deepest,
        }
    }
}

pub fn doc(src: &mut Src, max_blocks: usize) -> Doc {
    let mut m = Model::new(src);
    let out = m.blocks(0, max_blocks);
    m.into_doc(out)
}
