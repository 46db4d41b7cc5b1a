//! C07: trees survive serialization and becoming owned.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen, model};
use ftml::data::PageInfo;
use ftml::parsing::ParseError;
use ftml::settings::WikitextSettings;
use ftml::tree::SyntaxTree;

pub const PROP: Property = Property {
    id: "C07",
    quick_cases: 100_000,
    thorough_cases: 1_000_000,
    budget: 200_000,
    over_budget: OverBudget::Discard,
    rule: "the tree has at least three different kinds of element",
    assumptions: &[],
    run,
};

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let input = match src.below(3) {
        0 => model::doc(src, 4).text,
        1 => gen::tidy(src),
        _ => gen::document(src),
    };
    let info = gen_info(src);
    let settings = gen_settings(src);
    announce(src, cx, &input);
    let pre = prep(&input);
    let tokens = ftml::tokenize(&pre);
    let (tree, errors) = ftml::parse(&tokens, &info, &settings).into();

    let owned: SyntaxTree<'static> = tree.to_owned();
    check!(owned == tree, "to-owned", "the owned tree differs");
    let json = serde_json::to_string(&tree).expect("serialization failed");
    check!(json == serde_json::to_string(&owned).unwrap() || to_value(&tree) == to_value(&owned), "to-owned-json", "the JSON of the owned tree differs");
    let back: SyntaxTree = match serde_json::from_str(&json) {
        Ok(t) => t,
        Err(e) => crate::fail!("deserialize", "{e}\njson: {json}"),
    };
    check!(back == tree, "round-trip", "the tree is different after a round trip\n{}", diff(&to_value(&tree), &to_value(&back)));
    let via_value: SyntaxTree = match serde_json::from_value(to_value(&tree)) {
        Ok(t) => t,
        Err(e) => crate::fail!("deserialize", "{e}\njson: {json}"),
    };
    check!(via_value == tree, "round-trip-value", "the tree is different after a round trip through a value");

    // What is rendered from it is the same, too.
    let h1 = html(&tree, &info, &settings);
    let t1 = text(&tree, &info, &settings);
    for (what, t) in [("owned", &owned), ("deserialized", &back)] {
        let h = html(t, &info, &settings);
        check!(stable_html(&h.body) == stable_html(&h1.body), "html", "the HTML of the {what} tree differs");
        check!(h.backlinks == h1.backlinks, "backlinks", "the backlinks of the {what} tree differ");
        check!(text(t, &info, &settings) == t1, "text", "the text of the {what} tree differs");
    }

    let ejson = serde_json::to_string(&errors).unwrap();
    let eback: Vec<ParseError> = serde_json::from_str(&ejson).map_err(|e| Failure::new("errors", e.to_string()))?;
    check!(eback == errors, "errors", "the errors are different after a round trip: {ejson}");
    let iback: PageInfo = serde_json::from_value(to_value(&info)).map_err(|e| Failure::new("info", e.to_string()))?;
    check!(iback == info, "info", "the page info is different after a round trip");
    let sback: WikitextSettings = serde_json::from_value(to_value(&settings)).map_err(|e| Failure::new("settings", e.to_string()))?;
    check!(sback == settings, "settings", "the settings are different after a round trip");

    let mut kinds: Vec<&str> = json.match_indices("\"element\":\"").filter_map(|(i, m)| json[i + m.len()..].split('"').next()).collect();
    kinds.sort();
    kinds.dedup();
    cx.nontrivial_if(kinds.len() >= 4);
    for k in ["table", "list", "tab-view", "collapsible", "link", "image", "definition-list", "radio-button", "module", "date", "bibliography-block", "embed", "style"] {
        cx.label_if(kinds.contains(&k), k);
    }
    Ok(())
}
