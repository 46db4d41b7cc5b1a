//! C23: what is separated by a blank line is parsed on its own.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen, model};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C23",
    quick_cases: 40_000,
    thorough_cases: 800_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "both parts have more than a paragraph of text",
    assumptions: &["nothing in the first part looks for an end that is not there", "lists and quotes do not follow each other"],
    run,
};

const KEYS: [&str; 4] = ["html-blocks", "code-blocks", "footnotes", "table-of-contents"];

fn part(src: &mut Src) -> String {
    let t = match src.weighted(&[3, 3, 2, 2, 1]) {
        0 => model::doc(src, 6).text,
        1 => gen::tidy(src),
        2 => gen::soup(src),
        3 => gen::mutant(src),
        _ => gen::tiny(src),
    };
    prep(&t)
}

/// Adds to the index of each bibliography.
fn shift(v: &mut Value, by: u64) {
    match v {
        Value::Array(xs) => xs.iter_mut().for_each(|x| shift(x, by)),
        Value::Object(m) => {
            if m.get("element").is_some_and(|e| e == "bibliography-block") {
                if let Some(i) = m.get("data").and_then(|d| d["index"].as_u64()) {
                    m["data"]["index"] = json!(i + by);
                }
            }
            m.values_mut().for_each(|x| shift(x, by));
        }
        _ => {}
    }
}

fn array(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

/// Headings of the table of contents without their nesting.
fn headings(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Array(xs) => xs.iter().for_each(|x| headings(x, out)),
        Value::Object(m) => {
            if m.get("element").is_some_and(|e| e == "link") {
                out.push(v["data"]["label"].clone());
            } else {
                m.values().for_each(|x| headings(x, out));
            }
        }
        _ => {}
    }
}

fn merges(a: &Value, b: &Value) -> bool {
    let list = |v: &Value| v["element"] == "list";
    let quote = |v: &Value| v["data"]["type"] == "blockquote";
    list(a) && list(b) || quote(a) && quote(b)
}

/// Whether something looks for an end that is not there without a report of that, as what tried to succeeded otherwise.
fn left_open(text: &str, elements: &[Value]) -> bool {
    const ENDS: [&str; 14] = ["**", "//", "__", "--", "^^", ",,", "}}", "##", "@@", ">@", "]]]", "]]", "]", "||"];
    const BLOCKS: &str = "z[[/div]]z[[/b]]z[[/i]]z[[/span]]z[[/size]]z[[/footnote]]z[[/li]]z[[/cell]]z[[/row]]z[[/tab]]z[[/iftags]]z[[/a]]z";
    let mut ends = vec![BLOCKS.repeat(2)];
    for a in ENDS {
        for b in ENDS {
            ends.push(format!("z{a}z{b}z").repeat(3));
        }
    }
    // Only asked if what follows made a difference.
    ends.iter().any(|end| {
        let (tree, _) = parse_raw(&format!("{text}\n\n{end}"), &info(), &page_settings());
        let found = array(&norm(&to_value(&tree)["elements"]));
        !found.starts_with(elements)
    })
}

/// Pieces of markup that leave something behind if anything does.
const SMALL: &[&str] = &[
    "a ]]\nb", "a\nb ]] c\nd", "[[nope]]\nx", "**a\nb", "x //y z\n//", "[[/div]]", "a @@b@@\n[[$ c", "x\n|| y ||", "[[li]]x[[/li]]", "[[row]]\nx\n[[/row]]", "> a", "> > b", "|| a || b ||", "+ h", "[[b]]x[[/b]]", "[[f>image]]", "((x", "[[date x]]",
    "[[footnote]]a[[/footnote]]", "[[footnote]]a [[footnote]]b[[/footnote]][[/footnote]]", "[[code]]\nx\n[[/code]]", "[[html]]\nx\n[[/html]]", "[[span]]x\n\ny[[/span]]", "[[div]]\n]] x\n[[/div]]", "[[iftags -x]]\ny ]]\n[[/iftags]]", "[[iftags +x]]y [[li]]z[[/li]][[/iftags]]",
    "[[tab A]]x[[/tab]]", "[[tabview]][[tab A]]\nx\n[[/tab]][[/tabview]]", "[[ruby]]a[[rt]]b[[/rt]][[/ruby]]", "= x", "----", "~~~~", "a _\nb", "[[math]]\nx\n[[/math]]", "[[user x y]]", "[[module Nope]]", "[[lines 2]]", "[[ul]][[li]]x[[/li]]y[[/ul]]", ": a : b", ": a\nb", "[[collapsible]]\n++ h\n[[/collapsible]]", "__a ^^b,, c",
];

/// The same over and over is that as often.
fn many(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut unit = String::new();
    for i in 0..src.weighted(&[0, 6, 3, 1]) {
        if i > 0 {
            unit.push_str(src.pick_str(&["\n", " ", "\n\n"]));
        }
        unit += &match src.weighted(&[6, 2, 1]) {
            0 => src.pick_str(SMALL).to_string(),
            1 => gen::tiny(src),
            _ => gen::soup(src),
        };
    }
    let unit = prep(&unit);
    let n = match src.below(3) {
        0 => src.range(2, 12),
        1 => src.range(95, 130),
        _ => src.range(30, 110),
    };
    let n = n.min(1 + 6000 / (unit.len() + 1));
    let end = "zzqzz";
    let (one, text) = (format!("{unit}\n\n{end}"), format!("{}{end}", format!("{unit}\n\n").repeat(n)));
    announce(src, cx, &format!("{n} times\n{one}"));
    if unit.is_empty() || prep(&text) != text || prep(&one) != one {
        cx.discarded = true;
        return Ok(());
    }
    cx.label("many");
    cx.label_if(n >= 100, "a hundred");
    let (info, settings) = (info(), page_settings());
    let (ta, ea) = parse_raw(&one, &info, &settings);
    let (tz, ez) = parse_raw(end, &info, &settings);
    let (ta, tz) = (to_value(&ta), to_value(&tz));
    let z = norm(&tz["elements"])[0].clone();
    let dash = unit.contains("--") && ta.to_string().contains('—');
    let ends = ea.iter().any(|e| matches!(to_value(&e.kind()).as_str(), Some("end-of-input")) || e.span().start >= one.len());
    let named = array(&ta["code-blocks"]).iter().any(|c| !c["name"].is_null());
    let mut xs = array(&norm(&ta["elements"]));
    if xs.last() == Some(&footnote_block()) {
        xs.pop();
    }
    if dash || ends || named || array(&ta["bibliographies"]).len() > 0 || xs.pop() != Some(z.clone()) || xs.is_empty() || merges(&xs[0], xs.last().unwrap()) || xs.last().unwrap()["element"] == "list" && unit.trim_start_matches(' ').starts_with(['*', '#']) {
        cx.discarded = true;
        return Ok(());
    }
    let (tj, ej) = parse_raw(&text, &info, &settings);
    let tj = to_value(&tj);
    let mut found = array(&norm(&tj["elements"]));
    if found.last() == Some(&footnote_block()) {
        found.pop();
    }
    let mut want: Vec<Value> = (0..n).flat_map(|_| xs.clone()).collect();
    want.push(z);
    if found != want && left_open(&unit, &xs) {
        cx.discarded = true;
        return Ok(());
    }
    check!(found == want, "many", "{n} times the same are not that: {}", diff(&json!(want), &json!(found)));
    for key in ["html-blocks", "code-blocks", "footnotes"] {
        let unit = array(&norm(&ta[key]));
        let want: Vec<Value> = (0..n).flat_map(|_| unit.clone()).collect();
        let found = array(&norm(&tj[key]));
        check!(found == want, key, "{n} times: {}", diff(&json!(want), &json!(found)));
    }
    let (mut want, mut found) = (vec![], vec![]);
    headings(&ta["table-of-contents"], &mut want);
    headings(&tj["table-of-contents"], &mut found);
    check!(found.len() == n * want.len(), "table-of-contents", "{n} times {} headings are {}", want.len(), found.len());
    check!(ej.len() == n * (ea.len() - ez.len()) + ez.len(), "many-errors", "{n} times {} errors (and {}) are {}", ea.len() - ez.len(), ez.len(), ej.len());
    cx.nontrivial_if(n > 20);
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    if src.chance(1, 10) {
        return many(src, cx);
    }
    let (a, mut b) = (part(src), part(src));
    if src.bool() {
        // Then the footnote block at the end is certainly not that of the text.
        b += "\n\nzzqzz";
    } else if b.to_lowercase().contains("footnoteblock") {
        cx.discarded = true;
        return Ok(());
    }
    let joined = format!("{a}\n\n{b}");
    let first = format!("{a}\n\nzzqzz");
    announce(src, cx, &joined);
    if a.is_empty() || b.is_empty() || prep(&joined) != joined {
        cx.discarded = true;
        return Ok(());
    }
    let (info, settings) = (info(), page_settings());
    let (ta, ea) = parse_raw(&first, &info, &settings);
    let (tb, eb) = parse_raw(&b, &info, &settings);
    let (tj, ej) = parse_raw(&joined, &info, &settings);
    let (ta, tb, tj) = (to_value(&ta), to_value(&tb), to_value(&tj));
    let (ea, eb, ej) = (array(&to_value(&ea)), array(&to_value(&eb)), array(&to_value(&ej)));
    // A dash may be one for the lack of the end of a strikethrough, which is not reported.
    let dash = a.contains("--") && ta.to_string().contains('—');
    if dash || ea.iter().any(|e| e["kind"] == "end-of-input" || e["token"] == "input-end") {
        cx.label("looks for an end");
        cx.discarded = true;
        return Ok(());
    }
    let all = |v: &Value| {
        let mut xs = array(&norm(&v["elements"]));
        let last = xs.last() == Some(&footnote_block());
        if last {
            xs.pop();
        }
        (xs, last)
    };
    let ((mut xa, fa), (xb, fb), (xj, fj)) = (all(&ta), all(&tb), all(&tj));
    let z = container(json!("paragraph"), json!({}), vec![text_el("zzqzz")]);
    if xa.pop() != Some(z) {
        cx.label("goes on");
        cx.discarded = true;
        return Ok(());
    }
    if let (Some(x), Some(y)) = (xa.last(), xb.first()) {
        // A list with an item that is too deep is no list.
        let item = b.trim_start_matches(' ').starts_with(['*', '#']);
        if merges(x, y) || x["element"] == "list" && item {
            cx.discarded = true;
            return Ok(());
        }
    }
    // Names of code blocks are those of the page.
    let names = |v: &Value| array(&v["code-blocks"]).iter().filter_map(|c| c["name"].as_str().map(String::from)).collect::<Vec<_>>();
    let na = names(&ta);
    if names(&tb).iter().any(|n| na.contains(n)) {
        cx.discarded = true;
        return Ok(());
    }
    let mut want = json!(xa.clone());
    let mut rest = json!(xb);
    shift(&mut rest, array(&ta["bibliographies"]).len() as u64);
    want.as_array_mut().unwrap().extend(array(&rest));
    let found = json!(xj);
    if found != want && left_open(&a, &xa) {
        cx.label("looks for an end");
        cx.discarded = true;
        return Ok(());
    }
    check!(found == want, "elements", "{}", diff(&want, &found));
    check!(fj == (fa && fb), "footnote-block", "a footnote block at the end: {fj}, of the parts: {fa}, {fb}");
    for key in KEYS {
        let (mut want, mut found) = (vec![], vec![]);
        if key == "table-of-contents" {
            headings(&ta[key], &mut want);
            headings(&tb[key], &mut want);
            headings(&tj[key], &mut found);
        } else {
            want.extend(array(&norm(&ta[key])));
            let mut rest = norm(&tb[key]);
            shift(&mut rest, array(&ta["bibliographies"]).len() as u64);
            want.extend(array(&rest));
            found = array(&norm(&tj[key]));
        }
        check!(found == want, key, "{}", diff(&json!(want), &json!(found)));
    }
    let mut errors: Vec<Value> = ea.clone();
    let by = a.len() as u64 + 2;
    // Errors of the first part may be at the first token of what follows, whatever that is.
    for (e, f) in errors.iter_mut().zip(&ej) {
        if e["span"]["start"] == json!(by) && f["span"]["start"] == json!(by) {
            e["span"]["end"] = f["span"]["end"].clone();
            e["token"] = f["token"].clone();
        }
    }
    for e in &eb {
        let mut e = e.clone();
        for k in ["start", "end"] {
            e["span"][k] = json!(e["span"][k].as_u64().unwrap_or(0) + by);
        }
        errors.push(e);
    }
    // Where raw text fails may depend on the next two tokens.
    let mut ej = ej;
    for e in ej.iter_mut().chain(&mut errors) {
        if e["rule"] == "raw" {
            e["span"] = Value::Null;
            e["token"] = Value::Null;
        }
    }
    check!(ej == errors, "errors", "{}", diff(&json!(errors), &json!(ej)));
    let rich = |xs: &[Value]| xs.len() > 1 || xs.iter().any(|x| x["data"]["type"] != "paragraph");
    cx.nontrivial_if(rich(&xa) && rich(&xb));
    Ok(())
}
