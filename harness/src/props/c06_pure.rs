//! C06: parsing and rendering are functions of their arguments.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen, model};
use ftml::data::PageInfo;
use ftml::settings::WikitextSettings;

pub const PROP: Property = Property {
    id: "C06",
    quick_cases: 40_000,
    thorough_cases: 300_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "the document gives at least four elements of HTML",
    assumptions: &["generated element IDs (wj-id-…) and the offset of dates from the current time are masked; nothing else is"],
    run,
};

#[derive(PartialEq, Debug, Clone)]
struct Result_ {
    preprocessed: String,
    tree: String,
    errors: String,
    html: String,
    meta: String,
    backlinks: String,
    text: String,
}

fn all(input: &str, info: &PageInfo, settings: &WikitextSettings) -> Result_ {
    let preprocessed = prep(input);
    let (tree, errors) = parse_raw(&preprocessed, info, settings);
    let out = html(&tree, info, settings);
    Result_ {
        tree: serde_json::to_value(&tree).unwrap().to_string(),
        errors: format!("{errors:?}"),
        html: stable_html(&out.body),
        meta: serde_json::to_string(&out.meta).unwrap(),
        backlinks: format!("{:?}", out.backlinks),
        text: text(&tree, info, settings),
        preprocessed,
    }
}

fn compare(what: &'static str, a: &Result_, b: &Result_) -> Outcome {
    for (name, x, y) in [
        ("preprocessed text", &a.preprocessed, &b.preprocessed),
        ("tree", &a.tree, &b.tree),
        ("errors", &a.errors, &b.errors),
        ("html", &a.html, &b.html),
        ("metadata", &a.meta, &b.meta),
        ("backlinks", &a.backlinks, &b.backlinks),
        ("text", &a.text, &b.text),
    ] {
        check!(x == y, what, "the {name} differs:\n  {x}\n  {y}");
    }
    Ok(())
}

fn doc(src: &mut Src) -> String {
    match src.below(3) {
        0 => model::doc(src, 4).text,
        1 => gen::tidy(src),
        _ => gen::soup(src),
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let a = doc(src);
    let b = doc(src);
    let info = gen_info(src);
    let other_info = gen_info(src);
    let settings = gen_settings(src);
    let other = gen_settings(src);
    announce(src, cx, &format!("{a}\n=====\n{b}"));
    let first = all(&a, &info, &settings);
    cx.nontrivial_if(first.html.matches("</").count() >= 4);
    // The same again, right away.
    compare("repeated", &first, &all(&a, &info, &settings))?;
    // The same after something else, with other settings.
    let b1 = all(&b, &other_info, &other);
    compare("after-another", &first, &all(&a, &info, &settings))?;
    // The same tokens parsed twice, the same tree rendered twice and in between others.
    {
        let t = prep(&a);
        let tokens = ftml::tokenize(&t);
        let (x, ex) = ftml::parse(&tokens, &info, &settings).into();
        let (y, ey) = ftml::parse(&tokens, &info, &settings).into();
        check!(x == y && ex == ey, "tokens-reused", "parsing the same tokens twice gives different trees");
        let h1 = html(&x, &info, &settings);
        let _ = html(&y, &info, &other);
        let t1 = text(&x, &info, &settings);
        let h2 = html(&x, &info, &settings);
        check!(stable_html(&h1.body) == stable_html(&h2.body), "tree-reused", "rendering the same tree twice differs");
        check!(t1 == text(&y, &info, &settings), "tree-reused", "rendering text of equal trees differs");
        check!(h1.backlinks == h2.backlinks, "tree-reused", "backlinks of the same tree differ");
    }
    if src.chance(1, 8) {
        // At the same time on several threads.
        cx.label("threads");
        let results: Vec<Result<(Result_, Result_), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3)
                .map(|i| {
                    let (a, b) = (&a, &b);
                    let (info, oi) = (clone_info(&info), clone_info(&other_info));
                    let (settings, other) = (&settings, &other);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || either(|| {
                            if i % 2 == 0 {
                                let x = all(a, &info, settings);
                                (x, all(b, &oi, other))
                            } else {
                                let y = all(b, &oi, other);
                                (all(a, &info, settings), y)
                            }
                        }))
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in &results {
            let (x, y) = match r {
                Ok(r) => r,
                Err(m) if m.starts_with(BUDGET_PANIC) => {
                    cx.discarded = true;
                    return Ok(());
                }
                Err(m) => crate::fail!("thread-panic", "{m}"),
            };
            compare("threads", &first, x)?;
            compare("threads", &b1, y)?;
        }
    }
    Ok(())
}

fn either<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn clone_info(i: &PageInfo<'static>) -> PageInfo<'static> {
    i.clone()
}
