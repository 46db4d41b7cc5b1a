//! C30: nesting has limits, beyond which the text stays as it is.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C30",
    quick_cases: 16_000,
    thorough_cases: 600_000,
    budget: 3_000_000,
    over_budget: OverBudget::Violation,
    rule: "nested within ten levels of a limit, or beyond it",
    assumptions: &["the limits are those of the code: 100 levels with the innermost text, lists indented by 20 spaces, 30 marks of quotes"],
    run,
};

/// Start, end, how many constructs these are.
pub type Unit = (&'static str, &'static str, usize);

pub const BLOCKS: &[Unit] = &[
    ("[[div]]\n", "\n[[/div]]", 1),
    ("[[div class=\"x\"]]\n", "\n[[/div]]", 1),
    ("[[collapsible]]\n", "\n[[/collapsible]]", 1),
    ("[[blockquote]]\n", "\n[[/blockquote]]", 1),
    ("[[=]]\n", "\n[[/=]]", 1),
    ("[[>]]\n", "\n[[/>]]", 1),
    ("[[hidden]]\n", "\n[[/hidden]]", 1),
    ("[[div]]\nx\n", "\ny\n[[/div]]", 1),
    ("[[iftags +scp]]\n", "\n[[/iftags]]", 1),
    ("[[ul]]\n[[li]]\n", "\n[[/li]]\n[[/ul]]", 2),
    ("[[ol]]\n[[li]]x[[/li]]\n[[li]]\n", "\n[[/li]]\n[[/ol]]", 2),
    ("[[table]]\n[[row]]\n[[cell]]\n", "\n[[/cell]]\n[[/row]]\n[[/table]]", 3),
    ("[[tabview]]\n[[tab a]]\n", "\n[[/tab]]\n[[/tabview]]", 2),
    ("[[div]]\n* ", "\n[[/div]]", 2),
    ("[[div]]\n# a\n# ", "\n[[/div]]", 2),
    ("[[div]]\n> ", "\n[[/div]]", 2),
    ("[[div]]\n+ ", "\n[[/div]]", 2),
    ("[[div]]\n+ x\n++ ", "\n[[/div]]", 2),
    ("[[div]]\n= ", "\n[[/div]]", 2),
    ("[[div]]\n: k : ", "\n[[/div]]", 2),
    ("[[div]]\n: k : v\n: l : ", "\n[[/div]]", 2),
    ("[[div]]\n|| a || ", " ||\n[[/div]]", 2),
    ("[[div]]\n|| a ||\n|| ", " || b ||\n[[/div]]", 2),
];

pub const INLINES: &[Unit] = &[
    ("[[span]]", "[[/span]]", 1),
    ("[[span]]x ", " y[[/span]]", 1),
    ("[[b]]", "[[/b]]", 1),
    ("[[size 80%]]", "[[/size]]", 1),
    ("[[a href=\"/x\"]]", "[[/a]]", 1),
    ("[[mark]]", "[[/mark]]", 1),
    ("[[ins]]", "[[/ins]]", 1),
    ("**[[span]]", "[[/span]]**", 2),
    ("//[[span]]", "[[/span]]//", 2),
    ("__[[span]]", "[[/span]]__", 2),
    ("--[[span]]", "[[/span]]--", 2),
    ("~~[[span]]", "[[/span]]~~", 2),
    ("^^[[span]]", "[[/span]]^^", 2),
    (",,[[span]]", "[[/span]],,", 2),
    ("{{[[span]]", "[[/span]]}}", 2),
    ("##red|[[span]]", "[[/span]]##", 2),
    ("[[ruby]]", "[[/ruby]]", 1),
];

const AROUND: &[&str] = &[
    "a", "+ h", "[[code]]\nc\n[[/code]]", "[[html]]\nh\n[[/html]]", "a[[footnote]]f[[/footnote]]", "[[bibliography]]\n: a : b\n[[/bibliography]]", "* a\n* b", "**b**", "[[nope]]", "[[footnoteblock]]", "[[iftags +scp]]\n[[code]]\nd\n[[/code]]\n[[/iftags]]",
];

/// Constructs nested in each other around the word, with their number.
pub fn nest(src: &mut Src, levels: usize, units: &[Unit], inlines: &[Unit]) -> (String, usize) {
    let inline_levels = match src.below(3) {
        0 => 0,
        1 => src.range(0, levels),
        _ => src.range(0, levels.min(6)),
    };
    let (mut inside, mut n) = (String::from("zqq"), 0);
    while n < levels {
        let u = if n < inline_levels { *src.pick(inlines) } else { *src.pick(units) };
        if n + u.2 > levels && u.2 > 1 {
            let one: Vec<Unit> = if n < inline_levels { inlines } else { units }.iter().copied().filter(|u| u.2 == 1).collect();
            if one.is_empty() {
                break;
            }
            let u = *src.pick(&one);
            inside = format!("{}{inside}{}", u.0, u.1);
            n += u.2;
            continue;
        }
        inside = format!("{}{inside}{}", u.0, u.1);
        n += u.2;
    }
    (inside, n)
}

fn some(src: &mut Src, all: &[Unit]) -> Vec<Unit> {
    let n = src.range(1, 4);
    (0..n).map(|_| *src.pick(all)).collect()
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    if src.chance(1, 4) {
        return lines(src, cx);
    }
    let levels = match src.below(4) {
        0 => src.range(1, 90),
        1 => src.range(91, 99),
        2 => src.range(96, 103),
        _ => src.range(100, 220),
    };
    let (blocks, inlines) = (some(src, BLOCKS), some(src, INLINES));
    let (core, n) = nest(src, levels, &blocks, &inlines);
    let mut parts: Vec<String> = vec![];
    for _ in 0..src.below(3) {
        parts.push(src.pick_str(AROUND).into());
    }
    let at = src.range(0, parts.len());
    parts.insert(at, core);
    let text = parts.join("\n\n");
    announce(src, cx, &text);
    let (info, settings) = (info(), page_settings());
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    let (tree, errors) = parse_raw(&text, &info, &settings);
    let v = to_value(&tree);
    let errors = to_value(&errors);
    let exceeded = errors.as_array().unwrap().iter().filter(|e| e["kind"] == "recursion-depth-exceeded").count();
    cx.nontrivial_if(n + 1 > 90);
    if n + 1 <= 100 {
        cx.label("within");
        check!(exceeded == 0, "within", "{n} constructs are too many: {errors}");
        // All but the words of the text is markup.
        let shown = v["elements"].to_string();
        let unknown = errors.as_array().unwrap().iter().all(|e| text[e["span"]["start"].as_u64().unwrap() as usize..].starts_with("nope") || e["kind"] == "no-rules-match" || e["kind"] == "no-such-block");
        check!(unknown, "within-errors", "{errors}");
        for mark in ["[[div", "[[li", "[[span", "[[/", "**[", "||"] {
            check!(!shown.contains(mark), "within-text", "{mark} is text: {shown}");
        }
        check!(shown.matches("zqq").count() == 1, "within-word", "{shown}");
    } else {
        cx.label("beyond");
        check!(v["elements"] == json!([text_el(&text)]), "beyond", "{n} constructs, which are not text: {}", diff(&json!([text_el(&text)]), &v["elements"]));
        check!(exceeded == 1 && errors.as_array().unwrap().len() == 1, "beyond-errors", "{errors}");
        for key in ["html-blocks", "code-blocks", "footnotes", "table-of-contents", "bibliographies"] {
            check!(v[key].as_array().unwrap().is_empty(), "beyond-gathered", "{key}: {}", v[key]);
        }
        let out = html(&tree, &info, &settings);
        check!(out.backlinks.internal_links.is_empty() && out.backlinks.external_links.is_empty(), "beyond-links", "{:?}", out.backlinks);
    }
    Ok(())
}

/// Lists indented and quotes marked deeply.
fn lines(src: &mut Src, cx: &mut Cx) -> Outcome {
    let quotes = src.bool();
    let max = if quotes { 30 } else { 20 };
    let n = src.range(1, 4);
    let deep = src.bool();
    let mut depths = vec![];
    let mut text = String::new();
    for i in 0..n {
        let lo = if quotes { 1 } else { 0 };
        let d = match src.below(4) {
            0 => src.range(lo, 3),
            1 => src.range(max - 2, max),
            2 if deep => max + 1,
            _ if deep => src.range(max, max * 3),
            _ => src.range(lo, max),
        };
        depths.push(d);
        if i > 0 {
            text.push('\n');
        }
        if quotes {
            text += &">".repeat(d);
        } else {
            text += &" ".repeat(d);
            text += src.pick_str(&["*", "#"]);
        }
        text += &format!(" zq{i}q{}", gen::letters(src));
    }
    announce(src, cx, &text);
    let (info, settings) = (info(), page_settings());
    let (tree, errors) = parse_raw(&text, &info, &settings);
    let v = norm(&to_value(&tree)["elements"]);
    let first = depths.iter().rposition(|d| *d > max).map(|i| i + 1).unwrap_or(0);
    cx.nontrivial_if(first > 0 || depths.iter().any(|d| d + 3 > max));
    cx.label(if first > 0 { "lines beyond" } else { "lines within" });
    check!(errors.is_empty() || first > 0, "line-errors", "{errors:?}");
    let mut inside = vec![];
    words(&v, false, 0, &mut inside);
    check!(inside.len() == n, "line-words", "{n} lines, but {inside:?}");
    for (i, (at, depth)) in inside.iter().enumerate() {
        let want = i >= first;
        check!(*at == want, "line-nested", "line {i} of depths {depths:?} is {} of a list or quote", if *at { "part" } else { "no part" });
        if want {
            let want = if quotes { depths[i] } else { depths[i] + 1 };
            check!(*depth == want, "line-depth", "line {i} of depths {depths:?} is at depth {depth}");
        }
    }
    Ok(())
}

/// For each word, in order, whether it is in a list or quote, and in how many.
fn words(v: &Value, inside: bool, depth: usize, out: &mut Vec<(bool, usize)>) {
    match v {
        Value::String(s) => {
            for _ in 0..s.matches("zq").count() {
                out.push((inside, depth));
            }
        }
        Value::Array(a) => a.iter().for_each(|v| words(v, inside, depth, out)),
        Value::Object(o) => {
            let nested = v["element"] == "list" || v["element"] == "container" && v["data"]["type"] == "blockquote";
            for v in o.values() {
                words(v, inside || nested, depth + usize::from(nested), out);
            }
        }
        _ => {}
    }
}
