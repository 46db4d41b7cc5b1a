//! C12: of the arguments of a block exactly the safe attributes are left.

use crate::attrs::*;
use crate::common::*;
use crate::engine::*;
use crate::{check, fail, html as strict};
use ftml::tree::AttributeMap;
use serde_json::{json, Value};
use std::borrow::Cow;

pub const PROP: Property = Property {
    id: "C12",
    quick_cases: 200_000,
    thorough_cases: 5_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "at least two arguments, one of them not plainly kept (unsafe, boolean, address, id, repeated, or another case)",
    assumptions: &["the allow-list is that of the documentation at the commit under test"],
    run,
};

/// The attributes of the element that has the mark.
fn marked(v: &Value, mark: &str) -> Option<Value> {
    match v {
        Value::Object(o) => {
            if o.get("attributes").is_some_and(|a| a.get(mark).is_some()) {
                return Some(o["attributes"].clone());
            }
            o.values().find_map(|x| marked(x, mark))
        }
        Value::Array(a) => a.iter().find_map(|x| marked(x, mark)),
        _ => None,
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let (name, template) = *src.pick(HOSTS);
    let mut settings = page_settings();
    settings.isolate_user_ids = src.bool();
    let mut args: Vec<(String, String)> = vec![];
    for _ in 0..src.weighted(&[1, 4, 4, 3, 2, 1]) {
        let k = if !args.is_empty() && src.chance(1, 8) {
            let k = args[src.below(args.len())].0.clone();
            if src.chance(1, 3) { k.to_ascii_uppercase() } else { k }
        } else { key(src) };
        args.push((k, value(src)));
    }
    const MARK: &str = "data-mark";
    let at = src.range(0, args.len());
    args.insert(at, (MARK.into(), "m".into()));
    let written = write(src, &args);
    let text = template.replace("{}", &written);
    announce(src, cx, &text);
    if prep(&text) != text || args.iter().enumerate().any(|(i, a)| i != at && a.0.eq_ignore_ascii_case(MARK)) {
        cx.discarded = true;
        return Ok(());
    }
    cx.label(name);
    let mut want = filter(&args, settings.isolate_user_ids);
    if name.ends_with("cell") {
        // This one is the option of the cell.
        want.remove("colspan");
    }
    let (tree, errors) = parse_raw(&text, &info(), &settings);
    check!(errors.is_empty(), "errors", "{errors:?}");
    let v = to_value(&tree.elements);
    let Some(got) = marked(&v, MARK) else { fail!("lost", "the block has lost its attributes: {v}") };
    check!(got == json!(want), "tree", "attributes {got}, wanted {}", json!(want));
    // In the HTML there is nothing else than what is there without the arguments.
    let (plain, _) = parse_raw(&template.replace("{}", ""), &info(), &settings);
    let (with, without) = (html(&tree, &info(), &settings), html(&plain, &info(), &settings));
    let parsed = |h: &str| strict::parse(h).map_err(|e| Failure::new("malformed", format!("{e}\n{h}")));
    let (with_nodes, without_nodes) = (parsed(&with.body)?, parsed(&without.body)?);
    let (mut a, mut b) = (vec![], vec![]);
    strict::walk(&with_nodes, &mut |e| a.push(e));
    strict::walk(&without_nodes, &mut |e| b.push(e));
    check!(a.len() == b.len(), "html", "another structure of HTML with the attributes:\n{}\n{}", with.body, without.body);
    let mut found = false;
    for (a, b) in a.iter().zip(&b) {
        let host = a.attr(MARK).is_some();
        found |= host;
        for (k, value) in &a.attrs {
            if k == "colspan" && name.ends_with("cell") {
                continue;
            }
            if b.attr(k).is_some() {
                check!(
                    host || a.attr(k) == b.attr(k) || a.attr(k).is_some_and(|v| v.starts_with("wj-id-")),
                    "html",
                    "attribute {k} of {} has changed: {}",
                    a.tag,
                    with.body
                );
                continue;
            }
            check!(host && want.contains_key(k), "html", "attribute {k} of {} comes from nowhere: {}", a.tag, with.body);
            check!(want[k] == value.as_deref().unwrap_or(""), "html", "attribute {k} is {value:?}, wanted {:?}", want[k]);
        }
        for k in want.keys() {
            check!(!host || a.attr(k).is_some(), "html", "attribute {k} is lost: {}", with.body);
        }
    }
    check!(found || name == "module-join", "html", "the attributes are lost: {}", with.body);
    // The same filter holds for trees that are built otherwise.
    let name: &'static str = match src.bool() {
        true => src.pick_str(SAFE),
        false => src.pick_str(UNSAFE),
    };
    let mut map = AttributeMap::new();
    let inserted = map.insert(name, Cow::Borrowed("x"));
    check!(
        inserted == is_safe(name) && map.get().get(name).is_some() == inserted,
        "insert",
        "inserting {name} gives {inserted} and {map:?}"
    );
    let plainly = |k: &str| want.contains_key(k) && !BOOLEAN.contains(&k) && !["href", "src", "id"].contains(&k);
    cx.nontrivial_if(args.len() >= 3 && args.iter().any(|(k, _)| !plainly(k)));
    Ok(())
}
