//! C27: the HTML is that of the tree.

use crate::common::*;
use crate::engine::*;
use crate::{check, fail, gen, html as strict, htmlmodel, model, treegen};
use ftml::tree::SyntaxTree;

pub const PROP: Property = Property {
    id: "C27",
    quick_cases: 100_000,
    thorough_cases: 3_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "the HTML has at least five elements",
    assumptions: &["MathML and CSS are made by other crates: only their places are judged here", "time between rendering and check is at most a minute"],
    run,
};

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let info = gen_info(src);
    let mut settings = gen_settings(src);
    let from_tree = src.bool();
    let tree: SyntaxTree<'static> = if from_tree {
        settings.allow_local_paths = src.bool();
        let t = treegen::tree(src);
        announce(src, cx, &t.to_string());
        match serde_json::from_value::<SyntaxTree>(t) {
            Ok(t) => t.to_owned(),
            Err(e) => fail!("harness", "the generated tree is not valid: {e}"),
        }
    } else {
        let text = match src.below(3) {
            0 => model::doc(src, 4).text,
            1 => gen::tidy(src),
            _ => gen::document(src),
        };
        announce(src, cx, &text);
        parse(&text, &info, &settings).0
    };
    cx.label(if from_tree { "tree" } else { "text" });
    let (out, nodes) = htmlmodel::judge(&tree, &info, &settings)?;
    // The metadata.
    let meta = to_value(&out.meta);
    let description = match &info.alt_title {
        Some(a) => format!("{} - {a}", info.title),
        None => info.title.to_string(),
    };
    let get = |name: &str| meta.as_array().unwrap().iter().find(|m| m["name"] == name).map(|m| m["value"].as_str().unwrap().to_string());
    check!(get("description").unwrap_or_default() == description, "meta", "{meta}");
    check!(get("keywords").unwrap_or_default() == info.tags.join(","), "meta", "{meta}");
    check!(get("Content-Type").as_deref() == Some("text/html"), "meta", "{meta}");
    cx.nontrivial_if(strict::find_all(&nodes, |_| true).len() >= 6);
    Ok(())
}
