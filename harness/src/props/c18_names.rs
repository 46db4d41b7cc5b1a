//! C18: names of blocks, their aliases, flags and ends.

use crate::common::*;
use crate::engine::*;
use crate::check;
use serde_json::Value;

pub const PROP: Property = Property {
    id: "C18",
    quick_cases: 120_000,
    thorough_cases: 4_000_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "two blocks, one within the other, or a block that must not be one",
    assumptions: &["what a block that fails looks like is taken from a block of a name that does not exist"],
    run,
};

struct Family {
    names: &'static [&'static str],
    star: bool,
    score: bool,
    /// Lines of its own.
    lines: bool,
    /// N is the name, E that of the end, § is around argument names, X is what is inside.
    text: &'static str,
    /// Part of the JSON of the element.
    want: &'static str,
}

const fn f(names: &'static [&'static str], flags: &str, lines: bool, text: &'static str, want: &'static str) -> Family {
    let b = flags.as_bytes();
    let (mut star, mut score, mut i) = (false, false, 0);
    while i < b.len() {
        star |= b[i] == b'*';
        score |= b[i] == b'_';
        i += 1;
    }
    Family { names, star, score, lines, text, want }
}

const FAMILIES: &[Family] = &[
    f(&["="], "", true, "[[N]]\nX\n[[/E]]", r#""type":{"align":"center"}"#),
    f(&[">"], "", true, "[[N]]\nX\n[[/E]]", r#""type":{"align":"right"}"#),
    f(&["<"], "", true, "[[N]]\nX\n[[/E]]", r#""type":{"align":"left"}"#),
    f(&["=="], "", true, "[[N]]\nX\n[[/E]]", r#""type":{"align":"justify"}"#),
    f(&["a", "anchor"], "*_", false, "[[N §href§=\"/x\" §class§=\"a\"]]X[[/E]]", r#""element":"anchor""#),
    f(&["bibcite"], "_", false, "[[N a]]", r#""element":"bibliography-cite""#),
    f(&["bibliography"], "", true, "[[N §title§=\"T\" §hide§=\"yes\"]]\n: a : b\n[[/E]]", r#""element":"bibliography-block""#),
    f(&["blockquote", "quote"], "", true, "[[N §class§=\"a\"]]\nX\n[[/E]]", r#""type":"blockquote""#),
    f(&["b", "bold", "strong"], "", false, "[[N §id§=\"a\"]]X[[/E]]", r#""type":"bold""#),
    f(&["char", "character"], "", false, "[[N euro]]", r#"€"#),
    f(&["checkbox"], "*", false, "[[N §class§=\"a\"]]", r#""element":"check-box""#),
    f(&["code"], "", true, "[[N §type§=\"CSS\" §name§=\"y\"]]\nx **y**\n[[/E]]", r#""element":"code""#),
    f(&["collapsible"], "", true, "[[N §show§=\"s\" §hide§=\"h\" §folded§=\"no\" §hidelocation§=\"both\"]]\nX\n[[/E]]", r#""element":"collapsible""#),
    f(&["date"], "", false, "[[N 2024-02-03 §format§=\"%Y\" §tz§=\"+01:00\" §hover§=\"no\"]]", r#""element":"date""#),
    f(&["del", "deletion"], "", false, "[[N §class§=\"a\"]]X[[/E]]", r#""type":"deletion""#),
    f(&["div"], "_", true, "[[N §class§=\"a\" §style§=\"b\"]]\nX\n[[/E]]", r#""type":"div""#),
    f(&["embed"], "", true, "[[N YouTube §video§=\"abc\"]]", r#""element":"embed""#),
    f(&["equation", "eref", "eqref"], "", false, "[[N x]]", r#""element":"equation-reference""#),
    f(&["footnote"], "", false, "[[N]]X[[/E]]", r#""element":"footnote""#),
    f(&["footnoteblock"], "", true, "[[N §title§=\"T\" §hide§=\"false\"]]", r#"{"title":"T","hide":false}"#),
    f(&["hidden"], "", true, "[[N §class§=\"a\"]]\nX\n[[/E]]", r#""type":"hidden""#),
    f(&["html"], "", true, "[[N]]\n<b>\n[[/E]]", r#""element":"html""#),
    f(&["ifcategory"], "", true, "[[N +_default]]\n**cat** X\n[[/E]]", r#""data":"cat""#),
    f(&["iframe"], "", true, "[[N https://example.com/ §class§=\"a\"]]", r#""element":"iframe""#),
    f(&["iftags"], "", true, "[[N +scp]]\n**tag** X\n[[/E]]", r#""data":"tag""#),
    f(&["image", "=image", ">image", "<image", "f<image", "f>image"], "", true, "[[N a.png §link§=\"/x\" §alt§=\"b\" §width§=\"2\"]]", r#""element":"image""#),
    f(&["include-elements"], "", true, "[[N page]]", r#""element":"include""#),
    f(&["ins", "insertion"], "", false, "[[N]]X[[/E]]", r#""type":"insertion""#),
    f(&["invisible"], "", true, "[[N]]\nX\n[[/E]]", r#""type":"invisible""#),
    f(&["i", "italics", "em", "emphasis"], "", false, "[[N §title§=\"a\"]]X[[/E]]", r#""type":"italics""#),
    f(&["later"], "*", true, "[[N]]", "later."),
    f(&["lines", "newlines"], "", true, "[[N 3]]", r#""element":"line-breaks""#),
    f(&["ul"], "_", true, "[[N §class§=\"a\"]]\n[[li]]X[[/li]]\n[[/E]]", r#""type":"bullet""#),
    f(&["ol"], "_", true, "[[N §class§=\"a\"]]\n[[li]]X[[/li]]\n[[/E]]", r#""type":"numbered""#),
    f(&["li"], "_", true, "[[ul]]\n[[N §id§=\"a\"]]X[[/E]]\n[[/ul]]", r#""item-type":"elements""#),
    f(&["mark", "highlight"], "", false, "[[N]]X[[/E]]", r#""type":"mark""#),
    f(&["math"], "", true, "[[N name]]\nx\n[[/E]]", r#""element":"math""#),
    f(&["module"], "", true, "[[N Rate]]", r#""module":"rate""#),
    f(&["tt", "mono", "monospace"], "", false, "[[N]]X[[/E]]", r#""type":"monospace""#),
    f(&["p", "paragraph"], "", true, "[[N §class§=\"a\"]]\nX\n[[/E]]", r#"{"class":"a"}"#),
    f(&["radio", "radio-button"], "*", false, "[[N name §class§=\"a\"]]", r#""element":"radio-button""#),
    f(&["ruby"], "", true, "[[N]]a[[rt]]X[[/rt]][[/E]]", r#""type":"ruby""#),
    f(&["rt", "rubytext"], "", true, "[[ruby]]a[[N]]X[[/E]][[/ruby]]", r#""type":"ruby-text""#),
    f(&["rb", "ruby2"], "", true, "[[N a|b]]", r#""type":"ruby""#),
    f(&["size"], "", false, "[[N 80%]]X[[/E]]", r#""type":"size""#),
    f(&["span"], "_", false, "[[N §class§=\"a\"]]X[[/E]]", r#""type":"span""#),
    f(&["s", "strikethrough"], "", false, "[[N]]X[[/E]]", r#""type":"strikethrough""#),
    f(&["sub", "subscript"], "", false, "[[N]]X[[/E]]", r#""type":"subscript""#),
    f(&["sup", "super", "superscript"], "", false, "[[N]]X[[/E]]", r#""type":"superscript""#),
    f(&["table"], "", true, "[[N §class§=\"a\"]]\n[[row]]\n[[cell]]X[[/cell]]\n[[/row]]\n[[/E]]", r#""element":"table""#),
    f(&["row"], "", true, "[[table]]\n[[N]]\n[[cell]]X[[/cell]]\n[[/E]]\n[[/table]]", r#""element":"table""#),
    f(&["cell"], "", true, "[[table]]\n[[row]]\n[[N §colspan§=\"2\"]]X[[/E]]\n[[/row]]\n[[/table]]", r#""column-span":2"#),
    f(&["hcell"], "", true, "[[table]]\n[[row]]\n[[N §colspan§=\"2\"]]X[[/E]]\n[[/row]]\n[[/table]]", r#""header":true"#),
    f(&["tabview", "tabs"], "", true, "[[N]]\n[[tab A]]\nX\n[[/tab]]\n[[/E]]", r#""element":"tab-view""#),
    f(&["tab"], "", true, "[[tabview]]\n[[N A b]]\nX\n[[/E]]\n[[/tabview]]", r#""label":"A b""#),
    f(&["target", "anchortarget"], "", true, "[[N x]]", r#""element":"anchor-name""#),
    f(&["toc", "f<toc", "f>toc"], "", true, "[[N §class§=\"a\"]]", r#""element":"table-of-contents""#),
    f(&["u", "underline"], "", false, "[[N]]X[[/E]]", r#""type":"underline""#),
    f(&["user"], "*", false, "[[N bob]]", r#""element":"user""#),
];

/// Aliases that mean something.
fn special(name: &str) -> bool {
    name.contains("image") || name.contains("toc")
}

fn cased(src: &mut Src, s: &str) -> String {
    match src.below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        _ => s.chars().map(|c| if src.bool() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

/// With the names as given, or with these as they may be written.
fn write(src: &mut Src, t: &str, head: &str, end: &str, inside: &str, vary: bool) -> String {
    let mut out = String::new();
    for (i, part) in t.split('§').enumerate() {
        if i % 2 == 1 && vary {
            out += &cased(src, part);
        } else if i % 2 == 1 {
            out += part;
        } else {
            out += &part.replace("[[/E]]", "\u{1}").replace("[[N", "\u{2}").replace('X', "\u{3}");
        }
    }
    out.replace('\u{1}', end).replace('\u{2}', head).replace('\u{3}', inside)
}

const MISSING: &str = "zqzq";

fn rename_back(v: &Value, name: &str) -> Value {
    match v {
        Value::String(s) => Value::String(s.replace(MISSING, name)),
        Value::Array(a) => a.iter().filter(|e| e["element"].as_str() != Some("line-break")).map(|v| rename_back(v, name)).collect(),
        Value::Object(o) => o.iter().filter(|(k, _)| *k != "wikitext-len").map(|(k, v)| (k.clone(), rename_back(v, name))).collect(),
        other => other.clone(),
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut real = String::new();
    let mut plain = String::new();
    let mut want = vec![];
    let mut lines = false;
    let n = src.range(1, 3);
    let mut used: Vec<usize> = vec![];
    let (mut inner, mut inner_plain) = ("x **y** z".to_string(), "x **y** z".to_string());
    for level in 0..n {
        let i = src.below(FAMILIES.len());
        let fam = &FAMILIES[i];
        // Blocks with lines of their own are not for within a line; some are not allowed in themselves.
        if used.contains(&i) || level > 0 && (!fam.text.contains('X') || lines && !fam.lines) {
            continue;
        }
        // A paragraph, a footnote or a ruby text takes no blocks.
        if level > 0 && lines && !fam.text.contains("\nX\n") {
            continue;
        }
        used.push(i);
        lines |= fam.lines;
        let k = src.below(fam.names.len());
        let name = fam.names[k];
        let (a, b) = (src.pick_str(&["", "", " "]), cased(src, name));
        let mut flag = String::new();
        let mut star = "";
        if fam.star && src.chance(1, 3) {
            star = "*";
        }
        if fam.score && src.chance(1, 3) {
            flag = "_".into();
        }
        let ends = if special(name) { fam.names.to_vec() } else { fam.names.to_vec() };
        let e = *src.pick(&ends);
        let end = format!("[[/{}{}{}{}]]", src.pick_str(&["", "", " "]), cased(src, e), src.pick_str(&["", "", "_"]), src.pick_str(&["", "", " "]));
        // The space is part of other names after these signs.
        let a = if star.is_empty() { a } else { "" };
        let head = format!("[[{star}{a}{b}{flag}");
        real = write(src, fam.text, &head, &end, &inner, true);
        let main = if special(name) { name } else { fam.names[0] };
        plain = write(src, fam.text, &format!("[[{star}{main}{flag}"), &format!("[[/{main}]]"), &inner_plain, false);
        inner = real.clone();
        inner_plain = plain.clone();
        want.push(fam.want);
    }
    let info = info();
    let settings = page_settings();
    if used.len() > 1 || src.chance(1, 3) {
        let around = src.pick_str(&["{}", "{}", "[[div]]\n{}\n[[/div]]", "a\n\n{}\n\nb"]);
        let (real, plain) = (around.replace("{}", &real), around.replace("{}", &plain));
        announce(src, cx, &format!("{real}\n\nis to be the same as\n\n{plain}"));
        let (a, errors) = parse_raw(&real, &info, &settings);
        let (b, errors2) = parse_raw(&plain, &info, &settings);
        let strip = |t| rename_back(&to_value(t), "");
        let (a, b) = (strip(&a), strip(&b));
        check!(norm(&a) == norm(&b), "alias", "{}", diff(&norm(&b), &norm(&a)));
        check!(errors.len() == errors2.len(), "alias", "errors {errors:?} and {errors2:?}");
        if used.len() == 1 {
            let text = a.to_string();
            // The order of the fields of an object is not that of the struct.
            let w: Vec<_> = want.iter().filter(|w| !text.contains(**w) && !sorted(w).is_some_and(|s| text.contains(&s))).collect();
            check!(w.is_empty() && errors.is_empty(), "element", "no {w:?} in {text}, errors {errors:?}");
        }
        cx.label("alias");
        cx.nontrivial_if(used.len() > 1);
        return Ok(());
    }
    // Blocks that must not be.
    let fam = &FAMILIES[used[0]];
    let name = *src.pick(fam.names);
    let cased_name = cased(src, name);
    let mut kind = None;
    let has_end = fam.text.contains("[[/E]]");
    let (head, end, missing_head, missing_end);
    match src.below(4) {
        0 if !fam.star => {
            cx.label("star");
            kind = Some("BlockDisallowsStar");
            (head, missing_head) = (format!("[[*{cased_name}"), format!("[[*{MISSING}"));
            (end, missing_end) = (format!("[[/{name}]]"), format!("[[/{MISSING}]]"));
        }
        1 if !fam.score => {
            cx.label("score");
            kind = Some("BlockDisallowsScore");
            (head, missing_head) = (format!("[[{cased_name}_"), format!("[[{MISSING}_"));
            (end, missing_end) = (format!("[[/{name}]]"), format!("[[/{MISSING}]]"));
        }
        2 if has_end => {
            cx.label("other end");
            let other = &FAMILIES[src.below(FAMILIES.len())];
            let e = *src.pick(other.names);
            if fam.names.contains(&e) || e.is_empty() || fam.text.contains(&format!("[[/{e}]]")) {
                cx.discarded = true;
                return Ok(());
            }
            (head, missing_head) = (format!("[[{cased_name}"), format!("[[{MISSING}"));
            (end, missing_end) = (format!("[[/{e}]]"), format!("[[/{e}]]"));
        }
        _ => {
            cx.label("other name");
            // Not the name.
            let other = match src.below(5) {
                0 => format!("{name}x"),
                1 => format!("x{name}"),
                2 => format!("{name}_x"),
                3 => format!("{name}-{name}"),
                _ => format!("{name}."),
            };
            if FAMILIES.iter().any(|f| f.names.contains(&other.as_str())) || other.starts_with(['=', '<', '>']) {
                cx.discarded = true;
                return Ok(());
            }
            kind = Some("NoSuchBlock");
            (head, missing_head) = (format!("[[{other}"), format!("[[{MISSING}"));
            (end, missing_end) = (format!("[[/{other}]]"), format!("[[/{MISSING}]]"));
        }
    }
    // What replaces the missing name.
    let back = head.trim_start_matches("[[").trim_start_matches('*').to_string();
    let back = if kind == Some("BlockDisallowsScore") { back.trim_end_matches('_').to_string() } else { back };
    let end_same = end.trim_start_matches("[[/").trim_end_matches("]]").to_string();
    let real = write(src, fam.text, &head, &end, "x **y** z", false);
    let missing = write(src, fam.text, &missing_head, &missing_end.replace(MISSING, "zqz2"), "x **y** z", false);
    announce(src, cx, &real);
    if prep(&real) != real {
        cx.discarded = true;
        return Ok(());
    }
    let (a, errors) = parse_raw(&real, &info, &settings);
    let (b, _) = parse_raw(&missing, &info, &settings);
    let a = norm(&rename_back(&to_value(&a), ""));
    let b = rename_back(&to_value(&b), &back).to_string().replace("zqz2", &end_same);
    let b = norm(&serde_json::from_str(&b).unwrap());
    check!(a == b, "not-text", "{}", diff(&b, &a));
    if let Some(kind) = kind {
        check!(errors.iter().any(|e| format!("{:?}", e.kind()) == kind), "error", "no {kind} in {errors:?}");
    }
    cx.nontrivial_if(true);
    Ok(())
}

/// The object with its keys in order.
fn sorted(w: &str) -> Option<String> {
    serde_json::from_str::<Value>(w).ok().map(|v| v.to_string())
}
