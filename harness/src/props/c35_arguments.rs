//! C35: the arguments of blocks are the values that they say.

use crate::common::*;
use crate::engine::*;
use crate::gen::letters;
use crate::{check, htmlmodel};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C35",
    quick_cases: 200_000,
    thorough_cases: 4_000_000,
    budget: 600_000,
    over_budget: OverBudget::Discard,
    rule: "an argument that is not just a word, or an invalid block",
    assumptions: &["invalid blocks have values without markup"],
    run,
};

/// Names with their characters, from the HTML standard (by way of Python's html.entities).
const ENTITIES: &str = include_str!("../../data/entities.txt");

/// A block with what it gives, or None if it is invalid.
struct Block {
    text: String,
    want: Option<Value>,
    label: &'static str,
}

fn simple(src: &mut Src) -> String {
    format!("{}{}", src.pick_str(&["a", "Bc", "q", "7", "é"]), letters(src))
}

/// Any value on a line, without whitespace around it.
fn value(src: &mut Src, bad: bool) -> String {
    if bad {
        return simple(src);
    }
    let mut v = String::new();
    let n = src.range(1, 3);
    for i in 0..n {
        if i > 0 && src.bool() {
            v += src.pick_str(&[" ", " ", "  "]);
        }
        v += &match src.below(4) {
            0 => src.pick_str(&["*", "_", "**", "//", ":", "{", "&", "&amp;", "<b>", "'", "日本", "@@", "[!--", "[[", "||", "##", "=", "-", "+", "(", ")", "1.5em", "150%", "/", "$", "!", "?", ".", ";", "é", "😀", "\"", "[[[", "]", "^^", "~", "%", "É", "ΣΩ", "İ", "\u{301}", "#", "`", "javascript:x"]).to_string(),
            _ => simple(src),
        };
    }
    v = v.replace("]]", "]x");
    // These are part of other brackets with the end of the block.
    if v.ends_with(['$', ']', '-']) {
        v.push('x');
    }
    v
}

/// Any value of an argument in quotes, and how it is written.
fn quoted(src: &mut Src, bad: bool) -> (String, String) {
    let mut v = match src.below(8) {
        0 if !bad => String::new(),
        _ => value(src, bad),
    };
    if !bad {
        match src.below(8) {
            0 => v.insert(0, ' '),
            1 => v.push(' '),
            2 => v += "]] x",
            3 => v += "\nx",
            4 => v += "\tx\\",
            _ => {}
        }
    }
    let mut w = String::new();
    for c in v.chars() {
        match c {
            '\\' => w += "\\\\",
            '"' => w += "\\\"",
            '\n' => w += "\\n",
            '\t' => w += "\\t",
            '\'' if src.bool() => w += "\\'",
            c => w.push(c),
        }
    }
    (v, w)
}

const TRUTHS: &[(&str, bool)] = &[("true", true), ("false", false), ("t", true), ("f", false), ("1", true), ("0", false), ("yes", true), ("no", false)];
const NOT_TRUTHS: &[&str] = &["", "2", "y", "n", "on", "off", "maybe", "truee", "yesno", "00", "10", "tr", "nope", "t f"];

fn any_case(src: &mut Src, s: &str) -> String {
    match src.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.chars().map(|c| if src.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}

/// The arguments of a block as they are written.
struct Args {
    written: Vec<(String, String)>,
    bad: bool,
    /// Whether something is wrong.
    wrong: bool,
}

impl Args {
    fn new(bad: bool) -> Args {
        Args { written: vec![], bad, wrong: false }
    }

    fn string(&mut self, src: &mut Src, key: &str) -> Option<String> {
        if !src.chance(2, 3) {
            return None;
        }
        let (v, w) = quoted(src, self.bad);
        self.written.push((key.to_string(), w));
        Some(v)
    }

    fn truth(&mut self, src: &mut Src, key: &str) -> Option<bool> {
        if self.bad && !self.wrong && src.chance(2, 3) {
            self.wrong = true;
            self.written.push((key.to_string(), src.pick_str(NOT_TRUTHS).to_string()));
            return None;
        }
        if !src.chance(2, 3) {
            return None;
        }
        let (name, b) = *src.pick(TRUTHS);
        let name = any_case(src, name);
        let w = match src.below(5) {
            0 => format!(" {name}"),
            1 => format!("{name} "),
            2 => format!("{}{name}{}", src.pick_str(&["\u{a0}", "\u{3000}", "\\n", "\\t"]), src.pick_str(&["", "\u{2003}", "\\r"])),
            _ => name,
        };
        self.written.push((key.to_string(), w));
        Some(b)
    }

    /// Attributes for the element.
    fn attributes(&mut self, src: &mut Src) -> Value {
        let mut map = serde_json::Map::new();
        for key in ["class", "title"] {
            if src.chance(1, 5) {
                let v = simple(src);
                self.written.push((key.to_string(), v.clone()));
                map.insert(key.to_string(), json!(v));
            }
        }
        if src.chance(1, 8) {
            self.written.push(("onclick".to_string(), simple(src)));
        }
        Value::Object(map)
    }

    /// In any order, and any case of the keys; earlier values of a key do not matter.
    fn write(mut self, src: &mut Src) -> String {
        for i in (1..self.written.len()).rev() {
            let j = src.below(i + 1);
            self.written.swap(i, j);
        }
        let mut all = vec![];
        for (k, w) in self.written {
            if !self.bad && src.chance(1, 10) {
                let k = any_case(src, &k);
                all.insert(src.below(all.len() + 1), (k, src.pick_str(&["maybe", "", "other"]).to_string()));
            }
            all.push((any_case(src, &k), w));
        }
        let mut s = String::new();
        for (k, w) in all {
            let space = if self.bad { " " } else { src.pick_str(&[" ", " ", " ", "  ", "\n", "\n  ", "\n\n", " \n"]) };
            let (a, b) = if self.bad { ("", "") } else { *src.pick(&[("", ""), ("", ""), ("", ""), (" ", ""), ("", " "), (" ", "  ")]) };
            s += &format!("{space}{k}{a}={b}\"{w}\"");
        }
        if !self.bad && !s.is_empty() {
            s += src.pick_str(&["", "", "", " ", "\n", "\n\n", "  \n"]);
        }
        s
    }
}

fn el(name: &str, data: Value) -> Value {
    json!({"element": name, "data": data})
}

fn block(src: &mut Src, which: usize, bad: bool, bibliographies: usize) -> Block {
    let mut a = Args::new(bad);
    match which {
        0 => {
            let lines: Vec<&str> = ENTITIES.lines().collect();
            let (name, text) = match src.below(if bad { 1 } else { 3 }) {
                0 => {
                    let (name, codes) = src.pick(&lines).split_once(' ').unwrap();
                    let text = codes.split(',').map(|c| char::from_u32(u32::from_str_radix(c, 16).unwrap()).unwrap()).collect::<String>();
                    (name.to_string(), text)
                }
                k => {
                    let c = match src.below(5) {
                        0 => char::from(32 + src.below(95) as u8),
                        1 => *src.pick(&['\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{ffff}', '\u{1}', '\u{80}', '\u{7f}']),
                        2 => char::from_u32(0x1f300 + src.below(500) as u32).unwrap(),
                        _ => char::from_u32(0xa0 + src.below(0x3000) as u32).unwrap(),
                    };
                    let zeros = src.pick_str(&["", "", "0", "000"]);
                    let code = c as u32;
                    (if k == 1 { format!("#{zeros}{code}") } else if src.bool() { format!("#x{zeros}{code:x}") } else { format!("#x{zeros}{code:X}") }, c.to_string())
                }
            };
            if bad {
                let arg = src.pick_str(&[" nonesuch", " AMP1", " #", " #x", " #1114112", " #x110000", " #xd800", " #57343", " #-1", " x41", " 65", " #6 5", " #x4g", " #99999999999", " amp lt", "", " &", " ;", " aMp", " eACUTE", " #X41", " &#X41;", " amp ;", " amp;;", " &&amp", " a mp", " @amp", " #65x", " amp.", " ampé"]);
                return Block { text: format!("[[char{arg}]]"), want: None, label: "char" };
            }
            let (pre, post) = (src.pick_str(&["", "&"]), src.pick_str(&["", ";"]));
            let sp = src.pick_str(&["", "", " "]);
            Block { text: format!("[[char {pre}{name}{post}{sp}]]"), want: Some(json!(text)), label: "char" }
        }
        1 => {
            let (w, n) = if bad {
                (src.pick_str(&[" 0", " 101", " -1", " 1.5", " x", " 1 2", "", " 4294967297", " 0x1", " 1000", " two"]).to_string(), 0)
            } else {
                let n = match src.below(4) {
                    0 => *src.pick(&[1, 2, 99, 100]),
                    _ => 1 + src.below(100),
                };
                (format!(" {}{n}{}", src.pick_str(&["", "", "+", "0", "00"]), src.pick_str(&["", " "])), n)
            };
            Block { text: format!("[[lines{w}]]"), want: (!bad).then(|| el("line-breaks", json!(n))), label: "lines" }
        }
        2 => {
            if bad {
                return Block { text: "[[size]]z[[/size]]".into(), want: None, label: "size" };
            }
            let v = value(src, false);
            Block { text: format!("[[size {v}]]z[[/size]]"), want: Some(container(json!("size"), json!({"style": format!("font-size: {v};")}), vec![text_el("z")])), label: "size" }
        }
        3 => {
            let show = a.string(src, "show");
            let hide = a.string(src, "hide");
            let mut place = (true, false);
            if bad && src.bool() {
                a.wrong = true;
                a.written.push(("hideLocation".into(), src.pick_str(&["", "left", "topbottom", "all", "bot", "true"]).into()));
            } else if src.chance(2, 3) {
                let (w, p) = *src.pick(&[("top", (true, false)), ("bottom", (false, true)), ("both", (true, true)), ("neither", (false, false)), ("none", (false, false))]);
                place = p;
                let w = any_case(src, w);
                a.written.push(("hideLocation".into(), format!("{}{w}{}", src.pick_str(&["", "", " ", "\u{3000}"]), src.pick_str(&["", "", " ", "\u{a0}"]))));
            }
            let folded = if bad && !a.wrong {
                a.wrong = true;
                a.written.push(("folded".into(), src.pick_str(NOT_TRUTHS).into()));
                None
            } else {
                a.truth(src, "folded")
            };
            let attributes = a.attributes(src);
            let want = el("collapsible", json!({"elements": [container(json!("paragraph"), json!({}), vec![text_el("z")])], "attributes": attributes, "start-open": !folded.unwrap_or(true), "show-text": show, "hide-text": hide, "show-top": place.0, "show-bottom": place.1}));
            Block { text: format!("[[collapsible{}]]\nz\n[[/collapsible]]", a.write(src)), want: (!bad).then_some(want), label: "collapsible" }
        }
        4 => {
            // Check boxes and radio buttons.
            let star = src.bool();
            let attributes = a.attributes(src);
            let s = if star { "*" } else { "" };
            if src.bool() && !bad {
                Block { text: format!("[[{s}checkbox{}]]", a.write(src)), want: Some(el("check-box", json!({"checked": star, "attributes": attributes}))), label: "checkbox" }
            } else {
                let name: String = if bad { String::new() } else { format!("{}{}", simple(src), src.pick_str(&["", "", "_x", "-y", "/z", ".1", "*", "é", "'"])) };
                let sep = if bad { "" } else { " " };
                Block { text: format!("[[{s}radio{sep}{name}{}]]", if bad { String::new() } else { a.write(src) }), want: (!bad).then(|| el("radio-button", json!({"name": name, "checked": star, "attributes": attributes}))), label: "radio" }
            }
        }
        5 => {
            let (name, title) = *src.pick(&[("youtube", "youtube"), ("vimeo", "vimeo")]);
            let name = any_case(src, name);
            let (v, w) = quoted(src, bad);
            if bad {
                let text = match src.below(8) {
                    6 => format!("[[embed {name}{} video=\"{w}\"]]", src.pick_str(&["_", "-", ".", "é", "/", "s", "/x", ":"])),
                    7 => format!("[[embed {}{name} video=\"{w}\"]]", src.pick_str(&["_", "-", ".", "é", "/", "+"])),
                    0 => "[[embed]]".to_string(),
                    1 => format!("[[embed {name}]]"),
                    2 => format!("[[embed {name} id=\"{w}\"]]"),
                    3 => format!("[[embed youtub video=\"{w}\"]]"),
                    4 => format!("[[embed x{name} video=\"{w}\"]]"),
                    _ => format!("[[embed {name} video={w}]]"),
                };
                return Block { text, want: None, label: "embed" };
            }
            a.written.push(("video".into(), w));
            if src.chance(1, 4) {
                a.written.push(("width".into(), "5".into()));
            }
            Block { text: format!("[[embed {name}{}]]", a.write(src)), want: Some(json!({"element": "embed", "data": {"embed": title, "data": {"video-id": v}}})), label: "embed" }
        }
        6 => {
            let star = src.bool();
            let s = if star { "*" } else { "" };
            let v = value(src, bad);
            let sp = src.pick_str(&["", "", " ", "  "]);
            match src.below(2) {
                _ if bad => Block { text: format!("[[{s}user]]"), want: None, label: "user" },
                0 => Block { text: format!("[[{s}user {v}{sp}]]"), want: Some(el("user", json!({"name": v, "show-avatar": star}))), label: "user" },
                _ => Block { text: format!("[[eref {v}{sp}]]"), want: Some(el("equation-reference", json!(v))), label: "equation reference" },
            }
        }
        7 => {
            let latex = format!("\\frac{{{}}}", simple(src));
            let (l, name) = if src.bool() { (format!(" {}", src.pick_str(&["eq1", "Eq 1 ", "x-y", "ö", "a.b"])), true) } else { (String::new(), false) };
            let body = match src.below(3) {
                _ if bad => src.pick_str(&["\n", "\n\n", "", " ", "\n  \n"]).to_string(),
                0 => format!("\n{latex}\n"),
                1 => format!(" {latex} "),
                _ => format!("\n\n{latex}\n\n"),
            };
            let want = el("math", json!({"name": name.then(|| l.trim().to_string()), "latex-source": latex}));
            Block { text: format!("[[math{l}]]{body}[[/math]]"), want: (!bad).then_some(want), label: "math" }
        }
        8 => {
            let url = format!("{}{}", src.pick_str(&["https://", "http://", "ftp://"]), src.pick_str(&["example.com/", "example.com/a?b=c&d=e#f", "é.org", "x"]));
            let attributes = a.attributes(src);
            if bad {
                let u = src.pick_str(&["", " example", " /a", " javascript:x", " httpsx", " data:x"]);
                return Block { text: format!("[[iframe{u}]]"), want: None, label: "iframe" };
            }
            Block { text: format!("[[iframe {url}{}]]", a.write(src)), want: Some(el("iframe", json!({"url": url, "attributes": attributes}))), label: "iframe" }
        }
        9 => {
            let m = src.below(if bad { 3 } else { 6 });
            let (name, data) = match m {
                0 => ("Categories", json!({"include-hidden": a.truth(src, "includeHidden").unwrap_or(false)})),
                1 => {
                    let root = a.string(src, "root");
                    let show = a.truth(src, "showRoot").unwrap_or(false);
                    let mut depth = None;
                    if bad && !a.wrong {
                        a.wrong = true;
                        a.written.push(("depth".into(), src.pick_str(&["0", "-1", "x", "", "1.5", " 2", "4294967296"]).into()));
                    } else if src.bool() {
                        let d = *src.pick(&[1u32, 2, 7, 4_294_967_295]);
                        depth = Some(d);
                        a.written.push(("depth".into(), format!("{}{d}", src.pick_str(&["", "", "0", "+"]))));
                    }
                    ("PageTree", json!({"root": root, "show-root": show, "depth": depth}))
                }
                2 if bad => ("Nonesuch", Value::Null),
                2 => ("Backlinks", json!({"page": a.string(src, "page")})),
                3 => {
                    let b = a.string(src, "button");
                    let attributes = a.attributes(src);
                    ("Join", json!({"button-text": b, "attributes": attributes}))
                }
                4 => ("Rate", Value::Null),
                _ => {
                    let v = src.pick_str(&["a { b: c }", "x{}\n  y", "[[div]]", "** é"]);
                    return Block { text: format!("[[module {}]]\n{v}\n[[/module]]", any_case(src, "CSS")), want: Some(el("style", json!(v))), label: "module" };
                }
            };
            let tag = match name {
                "Categories" => "categories",
                "PageTree" => "page-tree",
                "Backlinks" => "backlinks",
                "Join" => "join",
                _ => "rate",
            };
            if bad && !a.wrong && m != 2 {
                a.wrong = true;
                a.written.retain(|(k, _)| k != "includeHidden" && k != "showRoot");
                a.written.push((if m == 0 { "includeHidden" } else { "showRoot" }.into(), "maybe".into()));
            }
            if src.chance(1, 6) {
                a.written.push(("other".into(), "x".into()));
            }
            let want = if data.is_null() { json!({"module": tag}) } else { json!({"module": tag, "data": data}) };
            let name = any_case(src, name);
            Block { text: format!("[[module {name}{}]]", a.write(src)), want: (!bad).then(|| el("module", want)), label: "module" }
        }
        10 => {
            let title = a.string(src, "title");
            let hide = a.truth(src, "hide").unwrap_or(false);
            if bad && !a.wrong {
                a.written.push(("class".into(), "x".into()));
            }
            Block { text: format!("[[footnoteblock{}]]", a.write(src)), want: (!bad).then(|| el("footnote-block", json!({"title": title, "hide": hide}))), label: "footnote block" }
        }
        11 => {
            let title = a.string(src, "title");
            let hide = a.truth(src, "hide").unwrap_or(false);
            if bad && !a.wrong {
                a.written.retain(|(k, _)| k != "hide");
                a.written.push(("hide".into(), "x".into()));
            }
            let want = el("bibliography-block", json!({"index": bibliographies, "title": title, "hide": hide}));
            // Its contents would be another list if it fails.
            if bad {
                return Block { text: format!("[[bibliography{}]]", a.write(src)), want: None, label: "bibliography" };
            }
            Block { text: format!("[[bibliography{}]]\n: a : b\n[[/bibliography]]", a.write(src)), want: Some(want), label: "bibliography" }
        }
        12 => {
            let (x, y) = (value(src, bad).replace('|', "/"), value(src, bad).replace('|', "/"));
            if bad {
                let text = match src.below(4) {
                    0 => "[[rb]]".into(),
                    1 => format!("[[rb {x}]]"),
                    2 => format!("[[rb {x}|{y}|z]]"),
                    _ => format!("[[rb {x}||{y}]]"),
                };
                return Block { text, want: None, label: "ruby" };
            }
            let (s, t) = (src.pick_str(&["", " "]), src.pick_str(&["", " "]));
            let rt = container(json!("ruby-text"), json!({}), vec![text_el(&y)]);
            Block { text: format!("[[rb {x}{s}|{t}{y}{s}]]"), want: Some(container(json!("ruby"), json!({}), vec![text_el(&x), rt])), label: "ruby" }
        }
        13 => {
            let v = value(src, bad).replace(' ', "").replace("]]", "]x");
            if bad {
                return Block { text: src.pick_str(&["[[target]]", "[[target a b]]", "[[target a  b c]]"]).into(), want: None, label: "target" };
            }
            Block { text: format!("[[target {v}{}]]", src.pick_str(&["", " "])), want: Some(el("anchor-name", json!(v))), label: "target" }
        }
        14 => {
            let v = value(src, bad);
            if bad {
                return Block { text: "[[tabview]]\n[[tab]]\nz\n[[/tab]]\n[[/tabview]]".into(), want: None, label: "tabs" };
            }
            let w = value(src, false);
            let p = |t: &str| json!([container(json!("paragraph"), json!({}), vec![text_el(t)])]);
            Block { text: format!("[[tabview]]\n[[tab {v}]]\nz\n[[/tab]]\n[[tab {w}]]\nq\n[[/tab]]\n[[/tabview]]"), want: Some(el("tab-view", json!([{"label": v, "elements": p("z")}, {"label": w, "elements": p("q")}]))), label: "tabs" }
        }
        _ => {
            let lang = a.string(src, "type").map(|l| l.to_ascii_lowercase());
            if bad {
                return Block { text: "[[code type=x]]".into(), want: None, label: "code" };
            }
            Block { text: format!("[[code{}]]\n@@ **\n[[/code]]", a.write(src)), want: Some(el("code", json!({"contents": "@@ **", "language": lang}))), label: "code" }
        }
    }
}

/// Adds the elements, paragraphs opened and texts joined, without line breaks.
fn flatten(elements: &[Value], out: &mut Vec<Value>) {
    for e in elements {
        match e["element"].as_str() {
            Some("text") => push_text(out, e["data"].as_str().unwrap_or_default()),
            Some("line-break") => {}
            Some("container") if e["data"]["type"] == "paragraph" => flatten(e["data"]["elements"].as_array().map_or(&[][..], |v| v), out),
            _ => out.push(e.clone()),
        }
    }
}

fn push_text(out: &mut Vec<Value>, text: &str) {
    let text = text.replace('\n', "");
    if let Some(Value::String(s)) = out.last_mut() {
        s.push_str(&text);
    } else if !text.is_empty() {
        out.push(json!(text));
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut text = String::new();
    let mut want = vec![];
    let mut bibliographies = 0;
    let mut has_footnotes = false;
    let mut odd = false;
    for part in 0..src.range(1, 3) {
        let which = src.below(16);
        let bad = src.chance(1, 4);
        let b = block(src, which, bad, bibliographies);
        if part > 0 {
            text += "\n\n";
        }
        text += &format!("x{}y", b.text);
        push_text(&mut want, "x");
        match b.want {
            None => push_text(&mut want, &b.text),
            Some(Value::String(s)) => push_text(&mut want, &s),
            Some(e) => {
                bibliographies += usize::from(e["element"] == "bibliography-block");
                has_footnotes |= e["element"] == "footnote-block";
                want.push(norm(&e));
            }
        }
        push_text(&mut want, "y");
        odd |= bad || b.text.contains(['=', '#', '*', '&', '"', '[', '/']);
        cx.label(if bad { "invalid" } else { b.label });
    }
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    let mut settings = page_settings();
    settings.isolate_user_ids = false;
    let info = info();
    let (tree, errors) = parse_raw(&text, &info, &settings);
    let mut found = vec![];
    let all = norm(&to_value(&tree));
    let mut top = all["elements"].as_array().cloned().unwrap_or_default();
    if !has_footnotes {
        let last = top.pop().unwrap_or_default();
        check!(last["element"] == "footnote-block", "footnotes", "no footnote block at the end: {last}");
    }
    flatten(&top, &mut found);
    if found != want {
        let i = found.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(found.len().min(want.len()));
        return Err(Failure::new("value", format!("at {i}:\nfound  {}\nwanted {}\nerrors: {errors:?}", found.get(i).unwrap_or(&Value::Null), want.get(i).unwrap_or(&Value::Null))));
    }
    htmlmodel::judge(&tree, &info, &settings)?;
    cx.nontrivial_if(odd);
    Ok(())
}
