//! C01: the whole pipeline accepts every input.

use crate::common::*;
use crate::engine::*;
use crate::gen;

pub const PROP: Property = Property {
    id: "C01",
    quick_cases: 100_000,
    thorough_cases: 1_500_000,
    budget: 200_000,
    over_budget: OverBudget::Discard,
    rule: "the parsed tree has an element other than plain text and containers of it, or the parser reported an error",
    assumptions: &["inputs that make ftml backtrack over more than 200000 parser steps are not judged (see C33)"],
    run,
};

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mode = src.weighted(&[5, 2, 1, 1]);
    let input = match mode {
        0 => gen::document(src),
        1 => gen::tiny(src),
        2 => {
            // Deep or long repetition of one construct.
            deep(src)
        }
        _ => {
            let mut s = gen::document(src);
            s.push('\n');
            s.push_str(&gen::document(src));
            s
        }
    };
    let info = gen_info(src);
    let settings = gen_settings(src);
    announce(src, cx, &input);
    cx.label(["document", "tiny", "deep", "double"][mode]);

    // Tokenizing and parsing must cope with text that was not preprocessed, too.
    let raw = src.chance(1, 5);
    let text_in = if raw { input.clone() } else { prep(&input) };
    cx.label_if(raw, "raw");
    {
        let tokens = ftml::tokenize(&text_in);
        let _ = tokens.tokens().len();
    }
    let (tree, errors) = parse_raw(&text_in, &info, &settings);
    let rendered = budgeted(5_000_000, || {
        let out = html(&tree, &info, &settings);
        let txt = text(&tree, &info, &settings);
        out.body.len() + txt.len()
    });
    check!(rendered.is_some(), "endless-rendering", "rendering did not end within 5000000 steps");
    let v = to_value(&tree);
    cx.label_if(!errors.is_empty(), "errors");
    let s = v["elements"].to_string();
    let fancy = ["\"table\"", "\"link\"", "\"list\"", "\"image\"", "\"footnote\"", "\"module\"", "\"collapsible\"", "\"html\""]
        .iter()
        .any(|k| s.contains(k));
    cx.nontrivial_if(fancy || !errors.is_empty());
    cx.label_if(fancy, "fancy");
    Ok(())
}

fn deep(src: &mut Src) -> String {
    let closed = [
        ("[[div]]\n", "\n[[/div]]"),
        ("[[span]]", "[[/span]]"),
        ("**", "**"),
        ("//", "//"),
        ("[[collapsible]]\n", "\n[[/collapsible]]"),
        ("> ", ""),
        ("[[blockquote]]\n", "\n[[/blockquote]]"),
        ("[[ul]]\n[[li]]", "[[/li]]\n[[/ul]]"),
        ("[[footnote]]", "[[/footnote]]"),
        ("[[iftags +tale]]\n", "\n[[/iftags]]"),
        ("[[size 1]]", "[[/size]]"),
        ("[[=]]\n", "\n[[/=]]"),
    ];
    match src.below(3) {
        0 => {
            let (a, b) = *src.pick(&closed);
            let n = src.range(1, 130);
            format!("{}x{}", a.repeat(n), b.repeat(n))
        }
        1 => {
            let n = src.range(1, 60);
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&" ".repeat(i));
                s.push_str(src.pick_str(&["* ", "# "]));
                s.push_str("x\n");
            }
            s
        }
        _ => {
            let n = src.range(1, 300);
            let piece = src.pick_str(&[
                "+ h\n", "* l\n", "> q\n", "|| c ||\n", ": k : v\n", "**b** ", "[[[l]]] ", "\n", "[[# a]]", "@@@@", "[[footnote]]f[[/footnote]] ",
                "[[code]]\nx\n[[/code]]\n", "[[toc]]\n", "----\n", "((bibcite a))", "(", "[", "{$x}", "[[lines 9]]\n", "[[module Rate]]\n",
            ]);
            piece.repeat(n)
        }
    }
}
