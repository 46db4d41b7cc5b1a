//! C16: citations show the number of their entry.

use crate::common::*;
use crate::contexts::place;
use crate::engine::*;
use crate::{check, html as strict};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C16",
    quick_cases: 80_000,
    thorough_cases: 3_000_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "at least two bibliographies with entries, and a citation of one of them",
    assumptions: &["entries of bibliographies have no citations or footnotes of their own"],
    run,
};

const LABELS: &[&str] = &["a", "a", "b", "b", "c", "d", "A", "two words", "**x**", "日本", "a_b", "1", "a.b", "ab"];

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let settings = page_settings();
    let mut text = String::new();
    // Label and shown text of the entries.
    let mut bibs: Vec<Vec<(String, String)>> = vec![];
    let mut blocks = vec![];
    let mut cites: Vec<(String, bool)> = vec![];
    let mut id = 0;
    for part in 0..src.range(2, 7) {
        if part > 0 {
            text += "\n\n";
        }
        if src.chance(1, 2) {
            let label = src.pick_str(LABELS);
            let one = !label.contains(' ');
            let (t, valid, brackets) = match src.below(9) {
                0 | 1 => (format!("((bibcite {label}))"), one, false),
                2 => (format!("((BibCite {label}))"), one, false),
                3 => (format!("[[bibcite_ {label}]]"), true, false),
                4 => (format!("(( bibcite {label}))"), false, false),
                5 => (format!("((bibcites {label}))"), false, false),
                6 => (format!("[[bibcite  {label} ]]"), true, true),
                _ => (format!("[[bibcite {label}]]"), true, true),
            };
            let p = place(src, &t, false);
            text += &p.text;
            if p.live && valid {
                cites.push((label.to_string(), brackets));
            }
            cx.label_if(p.live && !valid, "not a citation");
            continue;
        }
        let (head, title, hide) = *src.pick(&[
            ("", None, Some(false)),
            ("", None, Some(false)),
            (" title=\"T <1>\"", Some("T <1>"), Some(false)),
            (" hide=\"yes\"", None, Some(true)),
            (" hide=\"false\" title=\"\"", Some(""), Some(false)),
            (" title=\"U\" hide=\"true\"", Some("U"), Some(true)),
            (" hide=\"maybe\"", None, None),
        ]);
        let mut valid = hide.is_some();
        let name = src.pick_str(&["bibliography", "bibliography", "BIBLIOGRAPHY", "Bibliography"]);
        let mut core = format!("[[{name}{head}]]\n");
        let mut entries: Vec<(String, String)> = vec![];
        for _ in 0..src.weighted(&[1, 3, 4, 3, 1]) {
            let label = src.pick_str(LABELS);
            let (t, shown) = *src.pick(&[("e{} text", "e{} text"), ("**e{}** x", "e{} x"), ("e{} [[[page|L]]]", "e{} L"), ("@@e{} **<@@", "e{} **<"), ("e{} : colon : s", "e{} : colon : s"), ("[[span]]e{}[[/span]]", "e{}")]);
            let pad = src.pick_str(&["", "", " "]);
            core += &format!(": {pad}{label} : {pad}{}", t.replace("{}", &id.to_string()));
            core += src.pick_str(&["\n", "\n", "\n\n"]);
            if !entries.iter().any(|(l, _)| l == label) {
                entries.push((label.to_string(), shown.replace("{}", &id.to_string())));
            }
            id += 1;
        }
        if src.chance(1, 10) {
            // No blocks other than definition lists.
            core += src.pick_str(&["x", "* item", "----", "+ h"]);
            core += "\n";
            valid = false;
        }
        core += &format!("[[/{name}]]");
        let comment = core.contains("@@") || core.contains("**");
        let p = if comment { crate::contexts::Placed { text: core.clone(), live: true, failed: false, depth: 0 } } else { place(src, &core, true) };
        text += &p.text;
        cx.label_if(!p.live, "bibliography not counted");
        cx.label_if(!valid, "not a bibliography");
        if p.live && valid {
            bibs.push(entries);
            blocks.push(json!({"index": blocks.len(), "title": title, "hide": hide.unwrap_or_default()}));
        }
    }
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    let (tree, _) = parse_raw(&text, &info(), &settings);
    let v = to_value(&tree);
    let mut found = vec![];
    let mut cited = vec![];
    collect(&v["elements"], &mut found, &mut cited);
    let labels = |b: &Value| -> Vec<String> { b.as_array().unwrap().iter().map(|e| e[0].as_str().unwrap_or("").to_string()).collect() };
    let actual: Vec<_> = v["bibliographies"].as_array().unwrap().iter().map(labels).collect();
    let want: Vec<Vec<String>> = bibs.iter().map(|b| b.iter().map(|(l, _)| l.clone()).collect()).collect();
    check!(actual == want, "entries", "entries {actual:?}, wanted {want:?}");
    check!(found == blocks, "blocks", "blocks {found:?}, wanted {blocks:?}");
    let want: Vec<_> = cites.iter().map(|(l, b)| json!({"label": l, "brackets": b})).collect();
    check!(cited == want, "citations", "citations {cited:?}, wanted {want:?}");
    // In the HTML.
    let out = html(&tree, &info(), &settings);
    let nodes = strict::parse(&out.body).map_err(|e| Failure::new("malformed-html", format!("{e}\n{}", out.body)))?;
    // Formulas have errors, too.
    let refs = strict::find_all(&nodes, |e| e.has_class("wj-bibliography-ref") || e.has_class("wj-error-inline") && strict::text_of(&e.children) == "Bibliography item not found");
    check!(refs.len() == cites.len(), "html", "{} references, wanted {}: {}", refs.len(), cites.len(), out.body);
    let mut hits = 0;
    for (e, (label, brackets)) in refs.iter().zip(&cites) {
        let entry = bibs.iter().find_map(|b| b.iter().position(|(l, _)| l == label).map(|i| (i + 1, &b[i].1)));
        let Some((n, shown)) = entry else {
            check!(e.has_class("wj-error-inline"), "html", "a reference to {label:?}, which does not exist");
            cx.label("no such entry");
            continue;
        };
        hits += 1;
        check!(!e.has_class("wj-error-inline"), "html", "{label:?} is an error: {}", out.body);
        let class = |c: &str| -> Vec<String> { strict::find_all(&e.children, |x| x.has_class(c)).iter().map(|x| strict::text_of(&x.children)).collect() };
        let number = if *brackets { format!("[{n}]") } else { n.to_string() };
        check!(strict::text_of(&e.children) == format!("{number}Reference {n}.{shown}"), "html", "{label:?} is {:?}, wanted {number} and {shown:?}", strict::text_of(&e.children));
        check!(class("wj-bibliography-ref-marker") == [n.to_string()] && class("wj-bibliography-ref-contents") == [shown.clone()], "html", "{label:?} is {:?} with {:?}, wanted {n} with {shown:?}", class("wj-bibliography-ref-marker"), class("wj-bibliography-ref-contents"));
        let id = strict::find_all(&e.children, |x| x.has_class("wj-bibliography-ref-marker"));
        check!(id[0].attr("data-id").unwrap_or("") == n.to_string(), "html", "data-id {:?}, wanted {n}", id[0].attr("data-id"));
    }
    let shown: Vec<_> = (0..bibs.len()).filter(|i| blocks[*i]["hide"] == false).collect();
    let lists = strict::find_all(&nodes, |e| e.has_class("wj-bibliography"));
    check!(lists.len() == shown.len(), "html", "{} bibliographies, wanted {}", lists.len(), shown.len());
    for (l, b) in lists.iter().zip(shown) {
        let title = blocks[b]["title"].as_str().unwrap_or("Bibliography");
        let titles: Vec<_> = strict::find_all(&l.children, |e| e.has_class("wj-bibliography-title")).iter().map(|e| strict::text_of(&e.children)).collect();
        check!(titles == [title], "html", "title {titles:?}, wanted {title:?}");
        let items: Vec<_> = strict::find_all(&l.children, |e| e.has_class("wj-bibliography-item")).iter().map(|e| (e.attr("id").unwrap_or("").to_string(), strict::text_of(&e.children))).collect();
        let want: Vec<_> = bibs[b].iter().enumerate().map(|(i, (_, s))| (format!("wj-bibliography-item-{0}-{1} bibitem-{0}-{1}", b + 1, i + 1), format!("{}.{s}", i + 1))).collect();
        check!(items == want, "html", "items {items:?}, wanted {want:?}");
    }
    cx.nontrivial_if(bibs.iter().filter(|b| !b.is_empty()).count() >= 2 && hits > 0);
    Ok(())
}

fn collect(v: &Value, blocks: &mut Vec<Value>, cites: &mut Vec<Value>) {
    match v {
        Value::Object(o) => {
            match o.get("element").and_then(|e| e.as_str()) {
                Some("bibliography-cite") => cites.push(o["data"].clone()),
                Some("bibliography-block") => blocks.push(o["data"].clone()),
                _ => (),
            }
            o.values().for_each(|x| collect(x, blocks, cites));
        }
        Value::Array(a) => a.iter().for_each(|x| collect(x, blocks, cites)),
        _ => (),
    }
}
