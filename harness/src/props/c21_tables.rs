//! C21: tables have the rows and cells that are written.

use crate::common::*;
use crate::engine::*;
use crate::model::{safe_words, Model};
use crate::{check, htmlmodel};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C21",
    quick_cases: 60_000,
    thorough_cases: 3_000_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "at least two complete rows and a line that is none, or nested or invalid block tables",
    assumptions: &["cells have inline markup that is complete, or one block"],
    run,
};

/// How deep block tables nest.
const DEPTH: usize = 2;

enum Line {
    Row(Value),
    /// In a paragraph.
    Text(Vec<Value>),
}

fn inline(src: &mut Src) -> (String, Vec<Value>) {
    let mut m = Model::new(src);
    m.plain = true;
    m.max_inline = 3;
    let (mut t, mut e) = m.inline(1);
    if m.src.chance(1, 8) {
        let (t2, e2) = m.inline(0);
        if t.ends_with("]]") {
            // Checkboxes include the space after them.
            t += "x";
            e.push(text_el("x"));
        }
        t += " _\n";
        t += &t2;
        e.push(json!({"element": "line-break"}));
        e.extend(e2);
    }
    (t, e)
}

fn words(src: &mut Src) -> (String, Vec<Value>) {
    let t = safe_words(src, 3);
    let e = vec![text_el(&t)];
    (t, e)
}

fn row(src: &mut Src) -> (String, Value) {
    let mut text = String::new();
    let mut cells = vec![];
    for _ in 0..src.range(1, 4) {
        let span = src.weighted(&[0, 6, 1, 1]).max(1);
        let (mark, header, align) = *src.pick(&[("||", false, None), ("||", false, None), ("||~", true, None), ("||<", false, Some("left")), ("||>", false, Some("right")), ("||=", false, Some("center"))]);
        text += &"||".repeat(span - 1);
        text += mark;
        let mut e = vec![];
        if src.chance(1, 8) {
            text.push(' ');
        } else {
            let (t, els) = inline(src);
            let plain = t.chars().next().is_some_and(char::is_alphanumeric);
            text += src.pick_str(&[" ", if plain { "" } else { " " }, "   "]);
            text += &t;
            text += src.pick_str(&[" ", "", "  "]);
            e = els;
        }
        cells.push(json!({"header": header, "column-span": span, "align": align, "attributes": {}, "elements": e}));
    }
    // Any of these may be the last one.
    text += src.pick_str(&["||", "||", "||", "||~", "||<", "||>", "||="]);
    (text, json!({"attributes": {}, "cells": cells}))
}

fn lines(src: &mut Src, want: &mut Vec<Value>) -> (String, bool) {
    let mut text = String::new();
    let mut paragraph: Vec<Value> = vec![];
    let mut rows: Vec<Value> = vec![];
    let (mut complete, mut other) = (0, 0);
    let n = src.range(1, 6);
    for i in 0..n {
        let (t, line) = match src.weighted(&[5, 2, 1]) {
            0 => {
                let (t, r) = row(src);
                complete += 1;
                (t, Line::Row(r))
            }
            1 => {
                // Without its end.
                other += 1;
                let (w, _) = words(src);
                let t = match src.below(7) {
                    0 => format!("||{w}"),
                    1 => format!("||{w}||x"),
                    2 => "||".to_string(),
                    3 => "||||".to_string(),
                    4 => format!("||~ {w} || y"),
                    5 => "||||=".to_string(),
                    _ => format!("||||{w}||||~ x"),
                };
                let e = vec![text_el(&t)];
                (t, Line::Text(e))
            }
            _ => {
                other += 1;
                let (t, e) = words(src);
                (t, Line::Text(e))
            }
        };
        text += &t;
        match line {
            Line::Row(r) => {
                finish(&mut paragraph, want);
                rows.push(r);
            }
            Line::Text(e) => {
                finish_rows(&mut rows, want);
                // The end of a line before what looks like a row is not a line break.
                if !paragraph.is_empty() && !t.starts_with("||") {
                    paragraph.push(json!({"element": "line-break"}));
                }
                paragraph.extend(e);
            }
        }
        if i + 1 < n {
            if src.chance(1, 3) {
                text += "\n\n";
                finish(&mut paragraph, want);
                finish_rows(&mut rows, want);
            } else {
                text.push('\n');
            }
        }
    }
    finish(&mut paragraph, want);
    finish_rows(&mut rows, want);
    (text, complete >= 2 && other > 0)
}

fn finish(p: &mut Vec<Value>, want: &mut Vec<Value>) {
    if !p.is_empty() {
        want.push(container(json!("paragraph"), json!({}), std::mem::take(p)));
    }
}

fn finish_rows(rows: &mut Vec<Value>, want: &mut Vec<Value>) {
    if !rows.is_empty() {
        want.push(json!({"element": "table", "data": {"attributes": {"class": "wj-table"}, "rows": std::mem::take(rows)}}));
    }
}

fn gap(src: &mut Src) -> &'static str {
    src.pick_str(&["\n", "\n", "\n", "\n\n", "", " ", "\n  "])
}

fn attrs(src: &mut Src) -> (String, Value) {
    let (t, v) = *src.pick(&[("", ""), ("", ""), (" class=\"a\"", "class"), (" id=\"a\"", "id"), (" STYLE=\"a\"", "style")]);
    (t.to_string(), if v.is_empty() { json!({}) } else { json!({v: "a"}) })
}

/// A table of blocks. None if it is not valid.
fn blocks(src: &mut Src, depth: usize, kinds: &mut Vec<&'static str>) -> (String, Value) {
    let (a, ja) = attrs(src);
    let mut text = format!("[[table{a}]]");
    let mut rows = vec![];
    for _ in 0..src.range(0, 3) {
        text += gap(src);
        let (a, ra) = attrs(src);
        text += &format!("[[row{a}]]");
        let mut cells = vec![];
        for _ in 0..src.range(0, 3) {
            text += gap(src);
            let (a, ca) = attrs(src);
            let name = src.pick_str(&["cell", "cell", "hcell"]);
            let (span, n) = *src.pick(&[("", 1), ("", 1), ("", 1), (" colspan=\"2\"", 2), (" colspan=\"0\"", 1), (" colspan=\"-1\"", 1), (" colspan=\"x\"", 1), (" COLSPAN=\"12\"", 12), (" colspan=\"4294967296\"", 1), (" colspan=\" 2\"", 1), (" colspan=\"2 \"", 1), (" colspan=\"2px\"", 1), (" colspan=\"2.0\"", 1), (" colspan=\"\"", 1), (" colspan=\"03\"", 3)]);
            let (mut t, e) = match src.below(if depth == 0 { 3 } else { 6 }) {
                0 => (String::new(), vec![]),
                1 | 2 => inline(src),
                3 => {
                    let (t, v) = blocks(src, depth - 1, kinds);
                    (t, vec![v])
                }
                4 => {
                    let (t, r) = row(src);
                    (format!("\n{t}\n"), vec![json!({"element": "table", "data": {"attributes": {"class": "wj-table"}, "rows": [r]}})])
                }
                _ => {
                    let (t, e) = inline(src);
                    (format!("[[div]]\n{t}\n[[/div]]"), vec![container(json!("div"), json!({}), vec![container(json!("paragraph"), json!({}), e)])])
                }
            };
            if src.bool() && !t.is_empty() && !t.starts_with('\n') {
                t = format!("\n{t}\n");
            }
            text += &format!("[[{name}{span}{a}]]{t}[[/{name}]]");
            cells.push(json!({"header": name == "hcell", "column-span": n, "align": null, "attributes": ca, "elements": e}));
        }
        if depth == DEPTH && src.chance(1, 16) {
            text += src.pick_str(&["x", "[[b]]x[[/b]]", "\n[[div]]\nx\n[[/div]]", "[[row]]x[[/row]]"]);
            kinds.push("TableRowContainsNonCell");
        }
        text += gap(src);
        text += "[[/row]]";
        rows.push(json!({"attributes": ra, "cells": cells}));
    }
    if depth == DEPTH && src.chance(1, 16) {
        text += src.pick_str(&["x", "\n\nx", "[[b]]x[[/b]]", "[[cell]]x[[/cell]]", "\n||a||"]);
        kinds.push("TableContainsNonRow");
    }
    text += gap(src);
    text += "[[/table]]";
    (text, json!({"element": "table", "data": {"attributes": ja, "rows": rows}}))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut want = vec![];
    let mut kinds = vec![];
    let (text, nontrivial) = if src.chance(2, 3) {
        cx.label("lines");
        lines(src, &mut want)
    } else {
        cx.label("blocks");
        let (t, v) = blocks(src, DEPTH, &mut kinds);
        want.push(v);
        let nested = t.matches("||").count() + t.matches("[[table").count() > 1;
        (t, nested || !kinds.is_empty())
    };
    announce(src, cx, &text);
    let (info, settings) = (info(), page_settings());
    let (tree, errors) = parse_raw(&text, &info, &settings);
    let actual = Value::Array(elements(&tree));
    if !kinds.is_empty() {
        cx.label("invalid");
        check!(actual[0]["element"] != "table", "invalid", "a table, although there is {kinds:?}: {actual}");
        check!(errors.iter().any(|e| kinds.contains(&format!("{:?}", e.kind()).as_str())), "invalid", "none of {kinds:?} in {errors:?}");
    } else {
        let expected = norm(&Value::Array(want));
        check!(expected == actual, "table", "{}\nactual: {actual}\nerrors: {errors:?}", diff(&expected, &actual));
    }
    htmlmodel::judge(&tree, &info, &settings)?;
    cx.nontrivial_if(nontrivial);
    Ok(())
}
