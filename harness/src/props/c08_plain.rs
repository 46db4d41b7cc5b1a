//! C08: text without markup stays as it is.

use crate::common::*;
use crate::engine::*;
use crate::{check, html as strict};
use serde_json::json;

pub const PROP: Property = Property {
    id: "C08",
    quick_cases: 120_000,
    thorough_cases: 4_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "at least three lines, one of them with a special character",
    assumptions: &[],
    run,
};

/// Characters that are markup only in other places than these (single, within a line).
const SPECIAL: &[char] = &[
    '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/', ':', ';', '<', '=', '>', '?', '[', '\\', ']', '^', '_', '{', '|', '}', '~', '\u{a0}', '…', '—', '«',
];

const WORDS: &[&str] = &[
    "apple", "x", "SCP-173", "don't", "a.b", "42", "3.14", "été", "日本語", "Ωmega", "👩\u{200d}👩\u{200d}👧", "e\u{301}", "שלום", "\u{1f3f3}\u{fe0f}", "a_b", "O'Neil", "(see", "note)", "end.", "why?", "yes;", "50%", "\u{feff}", "div", "include",
    "http", "module", "iftags", "AC/DC", "1+1", "R&D", "<b>", "</p>", "&amp;", "C#", "~5", "$x", "user", "[sic]", "{x}",
];

fn piece(src: &mut Src) -> String {
    match src.weighted(&[8, 4, 2, 1]) {
        0 => src.pick_str(WORDS).to_string(),
        1 => {
            let c = *src.pick(SPECIAL);
            match src.below(4) {
                0 => c.to_string(),
                1 => format!("a{c}b"),
                2 => format!("{c}b"),
                _ => format!("a{c}"),
            }
        }
        2 => {
            let n = src.range(1, 6);
            (0..n).filter_map(|_| char::from_u32(src.below(0x30000) as u32)).filter(|c| c.is_alphanumeric()).collect::<String>() + "x"
        }
        _ => src.range(0, 100_000).to_string(),
    }
}

fn line(src: &mut Src) -> String {
    // The first word decides whether a line is text.
    let mut out = src.pick_str(&["apple", "Banana", "日本", "7", "x"]).to_string();
    for _ in 0..src.range(0, 7) {
        out += src.pick_str(&[" ", " ", " ", " ", "  ", "   "]);
        out += &piece(src);
    }
    // So does what is at its end.
    out + src.pick_str(&[" end", ".", "!", "", "", " z"])
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut paragraphs: Vec<Vec<String>> = Vec::new();
    for _ in 0..src.range(1, 4) {
        let n = src.range(1, 3);
        paragraphs.push((0..n).map(|_| line(src)).collect());
    }
    let gap = src.pick_str(&["\n\n", "\n\n\n", "\n \n", "\n\n\n\n\n"]);
    let text = paragraphs.iter().map(|p| p.join("\n")).collect::<Vec<_>>().join(gap);
    announce(src, cx, &text);
    // Text that the typographic and whitespace substitutions change is judged by C04.
    // An underscore at the end of the page is no line break.
    let mut lines = paragraphs.iter().flatten().rev();
    let bad_end = lines.next().is_some_and(|l| l.ends_with('\\')) || lines.any(|l| l.ends_with('\\') || l.ends_with(" _") || l == "_");
    let double = |l: &String| {
        let c: Vec<char> = l.chars().collect();
        c.windows(2).any(|w| w[0] != ' ' && w[0] == w[1] && w[0].is_ascii_punctuation()) || l.contains("_ ") && l.ends_with("_")
    };
    if bad_end || paragraphs.iter().flatten().any(double) {
        cx.discarded = true;
        return Ok(());
    }
    let info = gen_info(src);
    let settings = gen_settings(src);
    let (tree, _) = parse(&text, &info, &settings);
    let want: Vec<_> = paragraphs
        .iter()
        .map(|p| {
            let mut els = Vec::new();
            for (i, l) in p.iter().enumerate() {
                if i > 0 {
                    els.push(json!({"element": "line-break"}));
                }
                els.push(text_el(l));
            }
            container(json!("paragraph"), json!({}), els)
        })
        .collect();
    let want = norm(&json!(want));
    let actual = serde_json::Value::Array(elements(&tree));
    check!(want == actual, "tree", "{}", diff(&want, &actual));
    let out = html(&tree, &info, &settings).body;
    let escape = |l: &String| l.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&#39;");
    let body: String = paragraphs.iter().map(|p| format!("<p>{}</p>", p.iter().map(escape).collect::<Vec<_>>().join("<br>"))).collect();
    let want = format!("<wj-body class=\"wj-body\">{body}</wj-body>");
    let same = match (strict::parse(&out), strict::parse(&want)) {
        (Ok(a), Ok(b)) => strict::merge_text(a) == strict::merge_text(b),
        _ => false,
    };
    check!(same, "html", "expected {want}\nactual   {out}");
    let plain = crate::common::text(&tree, &info, &settings);
    let want = paragraphs.iter().map(|p| p.join("\n")).collect::<Vec<_>>().join("\n\n");
    check!(plain == want, "text", "expected {want:?}\nactual   {plain:?}");
    let special = paragraphs.iter().flatten().any(|l| l.contains(SPECIAL));
    cx.nontrivial_if(special && paragraphs.iter().map(Vec::len).sum::<usize>() >= 3);
    Ok(())
}
