//! C26: the plain text is that of the tree.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen, model, textmodel, treegen};
use ftml::render::text::TextRender;
use ftml::tree::SyntaxTree;

pub const PROP: Property = Property {
    id: "C26",
    quick_cases: 150_000,
    thorough_cases: 4_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "the text has at least ten characters",
    assumptions: &[],
    run,
};

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let info = gen_info(src);
    let settings = gen_settings(src);
    let from_tree = src.bool();
    let tree: SyntaxTree<'static> = if from_tree {
        let t = treegen::tree(src);
        announce(src, cx, &t.to_string());
        match serde_json::from_value::<SyntaxTree>(t) {
            Ok(t) => t.to_owned(),
            Err(e) => fail!("harness", "the generated tree is not valid: {e}"),
        }
    } else {
        let text = match src.below(3) {
            0 => model::doc(src, 4).text,
            1 => gen::tidy(src),
            _ => gen::document(src),
        };
        announce(src, cx, &text);
        parse(&text, &info, &settings).0
    };
    cx.label(if from_tree { "tree" } else { "text" });
    let got = text(&tree, &info, &settings);
    let v = to_value(&tree);
    let want = textmodel::render(&v["elements"], &info);
    check!(got == want, "text", "expected {want:?}\nactual   {got:?}\ntree: {v}");
    let partial = TextRender.render_partial(&tree.elements, &info, &settings, 0);
    check!(partial == want, "partial", "rendering the elements alone: expected {want:?}\nactual   {partial:?}\ntree: {v}");
    cx.nontrivial_if(got.chars().count() >= 10);
    Ok(())
}
