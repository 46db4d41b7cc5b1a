//! C31: well-formed documents parse to the structure they spell out.

use crate::common::*;
use crate::engine::*;
use crate::model;
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C31",
    quick_cases: 120_000,
    thorough_cases: 1_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "the document uses at least three kinds of construct",
    assumptions: &["the structured generator covers well-formed documents only"],
    run,
};

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let doc = model::doc(src, 4);
    announce(src, cx, &doc.text);
    for k in &doc.kinds {
        cx.label(k);
    }
    cx.nontrivial_if(doc.kinds.len() >= 3);
    let (tree, errors) = parse_page(&doc.text);
    let expected = norm(&Value::Array(doc.elements));
    let actual = Value::Array(elements(&tree));
    check!(expected == actual, "structure", "{}\nerrors: {:?}\nactual: {actual}", diff(&expected, &actual), errors);
    let notes = norm(&to_value(&tree.footnotes));
    let want = norm(&json!(doc.footnotes));
    check!(notes == want, "footnotes", "{}", diff(&want, &notes));
    let code: Vec<Value> = doc.code.iter().map(|(c, n)| json!({"contents": c, "name": n})).collect();
    check!(to_value(&tree.code_blocks) == json!(code), "code-blocks", "{}", diff(&json!(code), &to_value(&tree.code_blocks)));
    check!(to_value(&tree.html_blocks) == json!(doc.html), "html-blocks", "{}", diff(&json!(doc.html), &to_value(&tree.html_blocks)));
    check!(errors.is_empty(), "errors", "well-formed document reported errors: {errors:?}");
    Ok(())
}
