//! C09: what verbatim constructs contain is taken as it is, and does nothing.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C09",
    quick_cases: 200_000,
    thorough_cases: 4_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "the verbatim contents have at least two fragments of markup",
    assumptions: &[
        "contents that the tokenizer joins with the end of the construct are left out: those ending in @, >, | or - before it",
        "an odd quotation mark with another one behind the end of the construct is a string token, and left out",
    ],
    run,
};

fn fragment(src: &mut Src) -> String {
    match src.weighted(&[4, 6, 1, 2, 2, 1, 2]) {
        0 => gen::word(src).into(),
        1 => src.pick_str(gen::TOKENS).into(),
        2 => src.pick_str(gen::ODD).into(),
        3 => src
            .pick_str(&[
                "[[div]]", "[[/div]]", "[[footnote]]x[[/footnote]]", "[[>]]", "[[iftags +x]]", "[[include a]]", "[[code]]", "[[/html]]", "[[/code]]", "[[/math]]", "[[module rate]]", "[[/module]]", "[[user x]]", "[[# a]]",
                "[[collapsible]]", "[[/collapsible]]", "[[ul]]", "[[/li]]", "[[embed]]", "[[toc]]", "[[module css]]",
            ])
            .into(),
        4 => src.pick_str(&["**b**", "[[[page]]]", "[https://example.com x]", "##red|x##", "@@r@@", "[!-- c --]", "((bibcite a))", "{{m}}", "* a", "+ h", "> q", "|| a ||", ": k : v", "----", "= c"]).into(),
        5 => src.pick_str(gen::URLS).into(),
        _ => " ".into(),
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let kind = src.below(8);
    let multi = kind >= 2 && kind != 3;
    let n = src.range(0, 8);
    let mut body = String::new();
    for i in 0..n {
        if multi && i > 0 && src.chance(1, 4) {
            body += src.pick_str(&["\n", "\n", "\n\n"]);
        }
        body += &fragment(src);
    }
    let body = prep(&body);
    let lower = body.to_lowercase();
    let quotes = body.matches('"').count();
    // What would end the construct, or merge with its end.
    let closes = |name: &str| lower.match_indices("[[/").any(|(i, _)| lower[i..].trim_start_matches(|c: char| !c.is_alphanumeric()).starts_with(name));
    let bad = match kind {
        0 => body.contains("@@") || body.contains("://") || body.ends_with(['@', '>']) || body.is_empty() || body.contains('\n') || body.starts_with('@'),
        1 => {
            body.contains(">@") || body.contains("://") || body.ends_with(['@', '>', '|', '~', '=', '<']) || body.is_empty() || body.contains('\n')
        }
        2 => body.contains("--]"),
        3 => body.contains("$]]") || body.trim().is_empty() || body.contains('\n'),
        4 => closes("code"),
        5 => closes("html"),
        6 => closes("module"),
        _ => closes("math") || body.trim().is_empty(),
    };
    let outer = src.below(7);
    if bad || (outer == 3 && kind <= 3 && quotes > 0) {
        cx.discarded = true;
        return Ok(());
    }
    let word = gen::word(src);
    let inline = kind <= 3;
    let (mut code, mut htmls) = (vec![], vec![]);
    let (core, element) = match kind {
        0 => (format!("@@{body}@@"), Some(json!({"element": "raw", "data": body}))),
        1 => (format!("@<{body}>@"), Some(json!({"element": "raw", "data": body}))),
        2 => (format!("[!-- {body} --]"), None),
        3 => (format!("[[$ {body} $]]"), Some(json!({"element": "math-inline", "data": {"latex-source": body.trim()}}))),
        4 => {
            code.push(json!({"contents": body, "name": null}));
            let sep = if body.is_empty() { "" } else { "\n" };
            (format!("[[code]]\n{body}{sep}[[/code]]"), Some(json!({"element": "code", "data": {"contents": body, "language": null}})))
        }
        5 => {
            htmls.push(json!(body));
            let sep = if body.is_empty() { "" } else { "\n" };
            (format!("[[html]]\n{body}{sep}[[/html]]"), Some(json!({"element": "html", "data": {"contents": body}})))
        }
        6 => {
            let sep = if body.is_empty() { "" } else { "\n" };
            let name = src.pick_str(&["css", "CSS"]);
            (format!("[[module {name}]]\n{body}{sep}[[/module]]"), Some(json!({"element": "style", "data": body})))
        }
        _ => (format!("[[math]]\n{body}\n[[/math]]"), Some(json!({"element": "math", "data": {"name": null, "latex-source": body.trim()}}))),
    };
    let para = |e: Vec<Value>| container(json!("paragraph"), json!({}), e);
    let (text, want) = if inline {
        let (before, after) = (format!("{word} "), " end");
        let mut els = vec![text_el(&before)];
        els.extend(element);
        els.push(text_el(after));
        let t = format!("{before}{core}{after}");
        match outer {
            0 => (format!("**{t}**"), vec![para(vec![container(json!("bold"), json!({}), els)])]),
            1 => (
                format!("* {t}\n* x"),
                vec![json!({"element": "list", "data": {"type": "bullet", "attributes": {}, "items": [
                    {"item-type": "elements", "attributes": {}, "elements": els},
                    {"item-type": "elements", "attributes": {}, "elements": [text_el("x")]}]}})],
            ),
            2 => (format!("> {t}"), vec![container(json!("blockquote"), json!({}), vec![para(els)])]),
            3 => {
                let all: Vec<Value> = els.iter().cloned().chain([text_el(" and ")]).chain(els.iter().cloned()).collect();
                (format!("{t} and {t}"), vec![para(all)])
            }
            4 => (format!("[[div]]\n{t}\n[[/div]]"), vec![container(json!("div"), json!({}), vec![para(els)])]),
            6 if kind != 2 => {
                // What follows it is not at the start of a line.
                let m = src.pick_str(&["* a", "# a", "+ a", "> a", "= a", ": a : b"]);
                let before = src.pick_str(&["", "x\n", "x\n\n"]);
                let mut line = vec![els[1].clone(), text_el(m)];
                let want = match before.len() {
                    0 => vec![para(line)],
                    2 => {
                        line.splice(0..0, [text_el("x"), json!({"element": "line-break"})]);
                        vec![para(line)]
                    }
                    _ => vec![para(vec![text_el("x")]), para(line)],
                };
                (format!("{before}{core}{m}"), want)
            }
            _ => (t, vec![para(els)]),
        }
    } else {
        let els = vec![element.unwrap()];
        let w = |e: Vec<Value>| [vec![para(vec![text_el(word)])], e, vec![para(vec![text_el("end")])]].concat();
        match outer {
            0 => (format!("{word}\n\n{core}\n\nend"), w(els)),
            1 => (format!("{word}\n{core}\nend"), w(els)),
            2 => (format!("[[div]]\n{core}\n[[/div]]"), vec![container(json!("div"), json!({}), els)]),
            3 => (format!("[[div]]\n{word}\n\n{core}\n\nend\n[[/div]]"), vec![container(json!("div"), json!({}), w(els))]),
            _ => (core.clone(), els),
        }
    };
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    cx.label(["raw", "raw-angle", "comment", "math-inline", "code", "html", "css", "math"][kind]);
    let (tree, errors) = parse_raw(&text, &info(), &page_settings());
    let want = norm(&json!(want));
    let actual = Value::Array(elements(&tree));
    check!(want == actual, "tree", "{}\nactual: {actual}\nerrors: {errors:?}", diff(&want, &actual));
    check!(to_value(&tree.code_blocks) == json!(code), "code-blocks", "{:?}", tree.code_blocks);
    check!(to_value(&tree.html_blocks) == json!(htmls), "html-blocks", "{:?}", tree.html_blocks);
    check!(
        tree.footnotes.is_empty() && tree.table_of_contents.is_empty() && to_value(&tree.bibliographies) == json!([]),
        "side-tables",
        "verbatim contents left footnotes, headings or bibliographies"
    );
    check!(errors.is_empty(), "errors", "verbatim contents gave errors: {errors:?}");
    cx.nontrivial_if(n >= 2);
    Ok(())
}
