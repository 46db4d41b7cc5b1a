//! C14: footnotes are gathered, numbered and listed.

use crate::common::*;
use crate::contexts::place;
use crate::engine::*;
use crate::html::El;
use crate::{check, html as strict};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C14",
    quick_cases: 100_000,
    thorough_cases: 2_000_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "at least two footnotes, one of them within other constructs",
    assumptions: &["footnotes within bibliographies are left out: these are shown at each citation"],
    run,
};

fn contents(src: &mut Src, id: usize) -> String {
    match src.below(10) {
        0 => format!("f{id} **b** x"),
        1 => format!("f{id}\n\nsecond //p//"),
        2 => format!("f{id} [[footnote]] x"),
        3 => format!("f{id} @@[[/span]]@@ [!-- c --]z"),
        4 => format!("[[span class=\"a\"]]f{id}[[/span]]"),
        5 => format!("[[[page|f{id}]]] & <x>"),
        6 => format!("f{id}\n\n* a\n* b\n"),
        7 => format!("f{id} [[footnoteblock]] y"),
        _ => format!("f{id}"),
    }
}

fn class<'a>(nodes: &'a [strict::Node], c: &str) -> Vec<&'a El> {
    strict::find_all(nodes, |e| e.has_class(c))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut settings = page_settings();
    settings.use_true_ids = src.bool();
    let mut text = String::new();
    let mut want: Vec<String> = vec![];
    let mut blocks = vec![];
    let mut nested = false;
    let n = src.range(1, 5);
    if src.chance(1, 150) {
        cx.label("many");
        for i in 0..src.range(90, 130) {
            text += &format!("x[[footnote]]g{i}[[/footnote]]{}", src.pick_str(&[" ", "\n", "\n\n", "\n* "]));
            want.push(format!("g{i}"));
        }
        text += "x\n\n";
    }
    for i in 0..n {
        if i > 0 {
            text += "\n\n";
        }
        if src.chance(1, 8) {
            let (head, title, hide) = *src.pick(&[
                ("", None, false),
                (" title=\"T <1>\"", Some("T <1>"), false),
                (" hide=\"yes\"", None, true),
                (" hide=\"false\"", None, false),
                (" hide=\"true\" title=\"\"", Some(""), true),
            ]);
            let p = place(src, &format!("[[footnoteblock{head}]]"), true);
            text += &p.text;
            if p.live {
                blocks.push((title, hide));
            }
            cx.label(if p.live { "block" } else { "block not counted" });
            continue;
        }
        let body = contents(src, i);
        let name = src.pick_str(&["footnote", "footnote", "FOOTNOTE", "Footnote"]);
        let core = format!("[[{name}]]{body}[[/{name}]]");
        // A comment or raw text must not end before its end.
        let p = place(src, &core, core.contains('\n') || core.contains("--]"));
        if !p.live && core.contains("--]") {
            text += "x";
            continue;
        }
        text += &p.text;
        nested |= p.depth > 0;
        cx.label_if(p.failed, "in a failing construct");
        cx.label_if(!p.live, "not counted");
        if p.live {
            want.push(body);
        }
    }
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    let (tree, _) = parse_raw(&text, &info(), &settings);
    // The contents are those that they have on their own.
    let notes: Vec<Value> = tree.footnotes.iter().map(|f| norm(&to_value(f))).collect();
    let mut expected = vec![];
    for w in &want {
        let (alone, _) = parse_raw(w, &info(), &settings);
        let mut els = elements(&alone);
        if els.len() == 1 && els[0]["data"]["type"] == "paragraph" {
            els = els[0]["data"]["elements"].as_array().unwrap().clone();
        }
        // Blocks of footnotes are not allowed within footnotes.
        if w.contains("[[footnoteblock]]") {
            els = vec![text_el(w)];
        }
        expected.push(norm(&json!(els)));
    }
    check!(notes == expected, "footnotes", "footnotes {}\nwanted {}", json!(notes), json!(expected));
    let v = to_value(&tree.elements);
    let mut refs = 0;
    let mut found = vec![];
    count(&v, &mut refs, &mut found);
    check!(refs == want.len(), "references", "{refs} references to {} footnotes: {v}", want.len());
    let mut all: Vec<Value> = blocks.iter().map(|(t, h)| json!({"title": t, "hide": h})).collect();
    if blocks.is_empty() {
        all.push(json!({"title": null, "hide": false}));
    }
    check!(found == all, "blocks", "footnote blocks {found:?}, wanted {all:?}");
    if blocks.is_empty() {
        check!(v.as_array().unwrap().last().unwrap()["element"] == "footnote-block", "blocks", "the footnote block is not at the end");
    }
    // In the HTML.
    let out = html(&tree, &info(), &settings);
    let nodes = strict::parse(&out.body).map_err(|e| Failure::new("malformed-html", format!("{e}\n{}", out.body)))?;
    let texts: Vec<String> = expected.iter().map(|e| shown(e)).collect();
    let markers: Vec<_> = class(&nodes, "wj-footnote-ref-marker").iter().map(|e| (e.attr("data-id").unwrap_or("").to_string(), strict::text_of(&e.children))).collect();
    let numbers: Vec<_> = (1..=want.len()).map(|i| (i.to_string(), i.to_string())).collect();
    check!(markers == numbers, "numbers", "markers {markers:?}\nhtml: {}", out.body);
    let tips: Vec<_> = class(&nodes, "wj-footnote-ref-contents").iter().map(|e| words(&strict::text_of(&e.children))).collect();
    check!(tips == texts, "tooltips", "tooltips {tips:?}, wanted {texts:?}\nhtml: {}", out.body);
    let lists = class(&nodes, "wj-footnote-list");
    let visible: Vec<_> = all.iter().filter(|b| b["hide"] == false && !want.is_empty()).collect();
    check!(lists.len() == visible.len(), "lists", "{} lists of footnotes, wanted {}\nhtml: {}", lists.len(), visible.len(), out.body);
    for (list, b) in lists.iter().zip(&visible) {
        let titles: Vec<_> = class(&list.children, "wj-title").iter().map(|e| strict::text_of(&e.children)).collect();
        let title = b["title"].as_str().unwrap_or("Footnotes").to_string();
        check!(titles == [title.clone()], "title", "title {titles:?}, wanted {title:?}");
        let items: Vec<_> = class(&list.children, "wj-footnote-list-item")
            .iter()
            .map(|e| {
                let c = class(&e.children, "wj-footnote-list-item-contents");
                (e.attr("data-id").unwrap_or("").to_string(), c.iter().map(|c| words(&strict::text_of(&c.children))).collect::<String>())
            })
            .collect();
        let wanted: Vec<_> = texts.iter().enumerate().map(|(i, t)| ((i + 1).to_string(), t.clone())).collect();
        check!(items == wanted, "items", "items {items:?}, wanted {wanted:?}\nhtml: {}", out.body);
    }
    cx.nontrivial_if(want.len() >= 2 && nested);
    Ok(())
}

fn count(v: &Value, refs: &mut usize, blocks: &mut Vec<Value>) {
    match v {
        Value::Object(o) => {
            match o.get("element").and_then(|e| e.as_str()) {
                Some("footnote") => *refs += 1,
                Some("footnote-block") => blocks.push(o["data"].clone()),
                _ => (),
            }
            o.values().for_each(|x| count(x, refs, blocks));
        }
        Value::Array(a) => a.iter().for_each(|x| count(x, refs, blocks)),
        _ => (),
    }
}

fn words(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().concat()
}

/// The characters shown.
fn shown(v: &Value) -> String {
    match v {
        Value::Object(o) => match o.get("element").and_then(|e| e.as_str()) {
            Some("text" | "raw") => words(o["data"].as_str().unwrap()),
            Some("link") => words(o["data"]["label"]["text"].as_str().unwrap_or("")),
            _ => o.get("data").map(|d| if d.get("items").is_some() { shown(&d["items"]) } else { shown(&d["elements"]) }).unwrap_or_else(|| o.get("elements").map(shown).unwrap_or_default()),
        },
        Value::Array(a) => a.iter().map(shown).collect(),
        _ => String::new(),
    }
}
