//! C20: lists and quotes nest by the depth of their lines.

use crate::common::*;
use crate::engine::*;
use crate::model::{safe_words, Model};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C20",
    quick_cases: 80_000,
    thorough_cases: 4_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "at least three lines of one list or quote, of different depth or kind",
    assumptions: &[],
    run,
};

struct Line {
    depth: usize,
    bullet: bool,
    elements: Vec<Value>,
}

/// The lists of these lines, all of them at least as deep as `level`.
fn lists(lines: &[Line], level: usize) -> Vec<Value> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        // A list goes on until a line of its own depth is of another kind.
        let mut kind = match (lines[i].depth > level && level == 0, lines[i].bullet) {
            (true, _) => None,
            (_, b) => Some(b),
        };
        let mut items = Vec::new();
        while i < lines.len() && (lines[i].depth > level || Some(lines[i].bullet) == kind) {
            if lines[i].depth == level {
                items.push(json!({"item-type": "elements", "attributes": {}, "elements": lines[i].elements}));
                i += 1;
                continue;
            }
            let start = i;
            while i < lines.len() && lines[i].depth > level {
                i += 1;
            }
            for sub in lists(&lines[start..i], level + 1) {
                let mut sub = sub.as_object().unwrap().clone();
                sub.insert("item-type".into(), json!("sub-list"));
                items.push(Value::Object(sub));
            }
        }
        let name = match kind.take() {
            None => "generic",
            Some(true) => "bullet",
            Some(false) => "numbered",
        };
        out.push(json!({"element": "list", "data": {"type": name, "attributes": {}, "items": items}}));
    }
    out
}

/// What is inside of a quote with these lines, all of them at least that deep.
fn quote(lines: &[Line], depth: usize) -> Value {
    let br = json!({"element": "line-break"});
    let mut out = Vec::new();
    let mut para: Vec<Value> = Vec::new();
    let mut i = 0;
    let finish = |para: &mut Vec<Value>, out: &mut Vec<Value>| {
        // The line break of the last line is not kept.
        if para.last().is_some_and(|e| e["element"] == "line-break") {
            para.pop();
        }
        if !para.is_empty() {
            out.push(container(json!("paragraph"), json!({}), std::mem::take(para)));
        }
    };
    while i < lines.len() {
        if lines[i].depth == depth {
            para.extend(lines[i].elements.iter().cloned());
            para.push(br.clone());
            i += 1;
            continue;
        }
        finish(&mut para, &mut out);
        let start = i;
        while i < lines.len() && lines[i].depth > depth {
            i += 1;
        }
        out.push(quote(&lines[start..i], depth + 1));
    }
    finish(&mut para, &mut out);
    container(json!("blockquote"), json!({}), out)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut text = String::new();
    let mut want: Vec<Value> = Vec::new();
    let mut nontrivial = false;
    for part in 0..src.range(1, 3) {
        if part > 0 || src.chance(1, 4) {
            // Words in between, on lines of their own.
            let words = safe_words(src, 2);
            text += &words;
            text += src.pick_str(&["\n", "\n\n"]);
            let mut els = Vec::new();
            for (i, w) in words.split(' ').enumerate() {
                if i > 0 {
                    els.push(text_el(" "));
                }
                els.push(text_el(w));
            }
            want.push(container(json!("paragraph"), json!({}), els));
        }
        let is_list = src.bool();
        let wide = src.chance(1, 6);
        let n = if wide { src.range(1, 12) } else { src.range(1, 6) };
        let (low, high) = if is_list { (0, 20) } else { (1, 30) };
        let mut depth = low + if src.chance(2, 3) { 0 } else { src.below(3) };
        let mut bullet = src.bool();
        let mut lines: Vec<Line> = Vec::new();
        for i in 0..n {
            if i > 0 {
                text += if is_list && src.chance(1, 8) { "\n\n" } else { "\n" };
                depth = match src.below(8) {
                    0 | 1 => depth,
                    2 | 3 => depth + 1,
                    4 => depth.saturating_sub(1),
                    5 => depth.saturating_sub(src.range(1, 3)),
                    6 => depth + src.range(1, 3),
                    _ if wide => src.range(low, high),
                    _ => src.range(low, low + 4),
                }
                .clamp(low, high);
                bullet ^= src.chance(1, 3);
            }
            let empty = src.chance(1, 16);
            let (t, elements) = if empty {
                (String::new(), vec![])
            } else {
                let mut m = Model::new(src);
                m.plain = true;
                m.max_inline = 2;
                m.inline(1)
            };
            if is_list {
                text += &" ".repeat(depth);
                text += if bullet { "* " } else { "# " };
            } else {
                text += &">".repeat(depth);
                let plain = t.chars().next().is_none_or(char::is_alphanumeric);
                text += src.pick_str(&[" ", if plain { "" } else { " " }, "  "]);
            }
            text += &t;
            lines.push(Line { depth, bullet, elements });
        }
        nontrivial |= n >= 3 && lines.iter().any(|l| l.depth != lines[0].depth || (is_list && l.bullet != lines[0].bullet));
        cx.label(if is_list { "list" } else { "quote" });
        if is_list {
            want.extend(lists(&lines, 0));
        } else {
            want.push(quote(&lines, 1));
        }
        // A line with nothing in it may end with a space, lists merge with what
        // follows over empty lines only if that is a list.
        text.push('\n');
        if src.bool() {
            text.push('\n');
        }
    }
    announce(src, cx, &text);
    let (tree, errors) = parse_page(&text);
    let actual = serde_json::Value::Array(elements(&tree));
    let expected = norm(&Value::Array(want));
    check!(expected == actual, "structure", "{}\nactual: {actual}\nerrors: {errors:?}", diff(&expected, &actual));
    check!(errors.is_empty(), "errors", "well-formed lists and quotes reported errors: {errors:?}");
    cx.nontrivial_if(nontrivial);
    Ok(())
}
