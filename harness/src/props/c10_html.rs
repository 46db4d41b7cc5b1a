//! C10: rendered HTML is well-formed, allow-listed and escaped.

use crate::common::*;
use crate::engine::*;
use crate::{gen, html as strict};
use ftml::render::html::{HtmlMeta, HtmlMetaType};
use std::borrow::Cow;

pub const PROP: Property = Property {
    id: "C10",
    quick_cases: 100_000,
    thorough_cases: 1_000_000,
    budget: 200_000,
    over_budget: OverBudget::Discard,
    rule: "the HTML has at least three elements and the input has a character that HTML must escape",
    assumptions: &[
        "the contents of <wj-math-ml> come from the latex2mathml crate; only markup that would leave MathML is judged there",
    ],
    run,
};

fn hostile(src: &mut Src) -> String {
    (0..src.below(6))
        .map(|_| src.pick_str(&["<", ">", "\"", "'", "&", "a", "é", "\0", "/>", " content=", "</", "&lt;", "\n", "😀", "{}"]))
        .collect()
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let input = gen::document(src);
    let mut info = gen_info(src);
    if src.chance(1, 4) {
        info.title = Cow::Owned(hostile(src));
        info.tags = (0..src.below(3)).map(|_| Cow::Owned(hostile(src))).collect();
    }
    let settings = gen_settings(src);
    announce(src, cx, &input);
    let (tree, _) = parse(&input, &info, &settings);
    let out = html(&tree, &info, &settings);
    let nodes = match strict::parse(&out.body) {
        Ok(n) => n,
        Err(e) => fail!("malformed-html", "{e}\nhtml: {}", out.body),
    };
    let n = strict::find_all(&nodes, |_| true).len();
    cx.nontrivial_if(n >= 3 && input.contains(['<', '>', '&', '"', '\'']));
    cx.label_if(out.body.contains("<style>"), "style");
    cx.label_if(out.body.contains("wj-math"), "math");
    cx.label_if(out.body.contains("<table"), "table");
    for m in &out.meta {
        if let Err(e) = strict::meta(m) {
            fail!("meta", "{e}");
        }
    }
    let m = HtmlMeta {
        tag_type: [HtmlMetaType::Name, HtmlMetaType::HttpEquiv, HtmlMetaType::Property][src.below(3)],
        name: hostile(src),
        value: hostile(src),
    };
    if let Err(e) = strict::meta(&m) {
        fail!("meta", "{e}");
    }
    Ok(())
}
