//! C28: malformed markup is text, in place, and reported.

use crate::common::*;
use crate::contexts::place;
use crate::engine::*;
use crate::{check, gen};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C28",
    quick_cases: 120_000,
    thorough_cases: 2_000_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "malformed markup within another construct, or a text with at least three errors",
    assumptions: &["malformed markup is on one line, with words around it"],
    run,
};

/// Markup, the kind of its (outermost) error, and what may not be around it.
const MALFORMED: &[(&str, &str, &[&str])] = &[
    ("[[nope]]", "NoSuchBlock", &[]),
    ("[[nope x=\"y\" z]]", "NoSuchBlock", &[]),
    ("[[*nope x]]", "NoSuchBlock", &[]),
    ("[[nope]]z[[/nope]]", "NoSuchBlock", &[]),
    ("[[*div]]x[[/div]]", "BlockDisallowsStar", &["[[/div"]),
    ("[[*code]]", "BlockDisallowsStar", &[]),
    ("[[code_]]", "BlockDisallowsScore", &[]),
    ("[[image_ x.png]]", "BlockDisallowsScore", &[]),
    ("[[date never]]", "BlockMalformedArguments", &[]),
    ("[[date]]", "BlockMissingName", &[]),
    ("[[date 2020-01-01 tz=\"moon\"]]", "BlockMalformedArguments", &[]),
    ("[[user]]", "BlockMissingArguments", &[]),
    ("[[*user]]", "BlockMissingArguments", &[]),
    ("[[image]]", "BlockMissingName", &[]),
    ("[[=image]]", "BlockMissingName", &[]),
    ("[[image a/b/c/d]]", "BlockMalformedArguments", &[]),
    ("[[iframe]]", "BlockMissingName", &[]),
    ("[[iframe page]]", "BlockMalformedArguments", &[]),
    ("[[embed nope x=\"y\"]]", "NoSuchEmbed", &[]),
    ("[[embed]]", "BlockMissingName", &[]),
    ("[[embed youtube]]", "BlockMissingArguments", &[]),
    ("[[module]]", "BlockMissingName", &[]),
    ("[[module Nope]]", "NoSuchModule", &[]),
    ("[[module Nope x=\"y\"]]", "NoSuchModule", &[]),
    ("[[char]]", "BlockMissingArguments", &[]),
    ("[[char nope]]", "BlockMalformedArguments", &[]),
    ("[[lines x]]", "BlockMalformedArguments", &[]),
    ("[[lines -1]]", "BlockMalformedArguments", &[]),
    ("[[eref]]", "BlockMissingArguments", &[]),
    ("[[target]]x[[/target]]", "BlockMissingArguments", &[]),
    ("[[li]]x[[/li]]", "ListItemOutsideList", &["[[/li"]),
    ("[[li class=\"a\"]]x y[[/li]]", "ListItemOutsideList", &["[[/li"]),
    ("[[row]][[cell]]x[[/cell]][[/row]]", "TableRowOutsideTable", &["[[/row", "[[row", "[[/cell", "[[cell"]),
    ("[[row]]x[[/row]]", "TableRowContainsNonCell", &["[[/row", "[[row"]),
    ("[[cell]]x[[/cell]]", "TableCellOutsideTable", &["[[/cell", "[[cell"]),
    ("[[hcell]]x[[/hcell]]", "TableCellOutsideTable", &["[[/hcell", "[[hcell"]),
    ("[[tab A]]x[[/tab]]", "TabOutsideTabView", &["[[/tab"]),
    ("[[rt]]x[[/rt]]", "RubyTextOutsideRuby", &["[[/rt", "[[ruby"]),
    ("[[ul]][[/ul]]", "ListEmpty", &["[[/ul"]),
    ("[[ol]]x[[/ol]]", "ListContainsNonItem", &["[[/ol"]),
    ("[[ul]][[b]]x[[/ul]]", "ListContainsNonItem", &["[[/ul", "[[/b"]),
    ("[[table]]x[[/table]]", "TableContainsNonRow", &["[[/table"]),
    ("[[tabview]][[/tabview]]", "TabViewEmpty", &["[[/tabview"]),
    ("[[tabview]]x[[/tabview]]", "TabViewContainsNonTab", &["[[/tabview"]),
    ("[[bibliography]]x[[/bibliography]]", "BibliographyContainsNonDefinitionList", &["[[/bibliography"]),
    ("[[iftags]]x[[/iftags]]", "BlockMissingArguments", &["[[/iftags"]),
    ("[[ifcategory]]x[[/ifcategory]]", "BlockMissingArguments", &["[[/ifcategory"]),
    ("[[size]]x[[/size]]", "BlockMissingArguments", &["[[/size"]),
    ("[[radio]]", "BlockMissingName", &[]),
    ("[[footnote x]]y[[/footnote]]", "BlockMissingCloseBrackets", &["[[/footnote"]),
    ("[[footnote class=\"x\"]]y[[/footnote]]", "BlockMissingCloseBrackets", &["[[/footnote"]),
    ("[[html x]]y[[/html]]", "BlockMissingCloseBrackets", &["[[/html"]),
    ("[[later x]]", "BlockMissingCloseBrackets", &[]),
    ("[[= x]]y[[/=]]", "BlockMissingCloseBrackets", &["[[/="]),
    ("[[> x]]y[[/>]]", "BlockMissingCloseBrackets", &["[[/>"]),
    ("[[tabview x]][[tab A]]y[[/tab]][[/tabview]]", "BlockMissingCloseBrackets", &["[[/tab", "[[tab"]),
    ("[[div x=y]]z[[/div]]", "BlockMalformedArguments", &["[[/div"]),
    ("[[span class=\"a]]y[[/span]]", "BlockMalformedArguments", &["[[/span"]),
    ("[[collapsible folded=\"maybe\"]]y[[/collapsible]]", "BlockMalformedArguments", &["[[/collapsible"]),
    ("[[]]", "NoSuchBlock", &[]),
    ("[[ ]]", "NoSuchBlock", &[]),
    ("[[b x", "BlockMalformedArguments", &["[[/b]]"]),
    ("[[b]]x", "EndOfInput", &["[[/b]]"]),
    ("[[del]]x", "EndOfInput", &["[[/del"]),
    ("[[footnote]]x", "EndOfInput", &["[[/footnote"]),
    ("[[b]]x[[/i]]", "EndOfInput", &["[[/b]]", "[[/i]]"]),
    ("[[code]]x", "EndOfInput", &["[[/code"]),
    ("[[math]]x", "EndOfInput", &["[[/math"]),
    ("[[html]]x", "EndOfInput", &["[[/html"]),
    ("[[/div]]", "NoRulesMatch", &["[[/div"]),
    ("[[/nope]]", "NoRulesMatch", &[]),
    ("[[/", "NoRulesMatch", &[]),
    ("]]", "NoRulesMatch", &[]),
    ("]]]", "NoRulesMatch", &[]),
    ("}}", "NoRulesMatch", &["{{"]),
    ("--]", "NoRulesMatch", &["[!--"]),
    ("$]]", "NoRulesMatch", &["[[$"]),
    ("**x", "*", &["**"]),
    ("** x **", "*", &["**"]),
    ("//x", "*", &["//"]),
    ("__x", "*", &["__"]),
    ("^^x", "*", &["^^"]),
    (",,x", "*", &[",,"]),
    ("~~x", "*", &["~~"]),
    ("{{x", "*", &["{{", "}}"]),
    ("##x", "*", &["##", "|"]),
    ("##red|x", "*", &["##"]),
    ("[[[x", "*", &["]]]", "|"]),
    ("[[[]]]", "RuleFailed", &[]),
    ("[[[ ]]]", "RuleFailed", &[]),
    ("[[[!nope:x]]]", "RuleFailed", &[]),
    ("[[#]]", "RuleFailed", &[]),
    ("((bibcite))", "", &[]),
    ("((nope x))", "", &[]),
    ("((bibcite x", "", &["))"]),
    ("[[$ x", "*", &["$]]"]),
    ("@@x", "*", &["@@"]),
    ("@<x", "*", &[">@"]),
    ("[!-- x", "EndOfInput", &["--]"]),
    ("[x y", "", &[]),
    ("[nope y]", "", &[]),
    ("[#x y", "*", &[]),
    ("|| x", "NotStartOfLine", &["||"]),
    ("+ x", "", &[]),
    ("> x", "", &[]),
    ("* x", "", &[]),
    ("----", "NotStartOfLine", &[]),
    ("~~~~", "NotStartOfLine", &[]),
    ("= x", "", &[]),
    (": x : y", "", &[": "]),
];

/// Begin and end of markup which may not have a line end in it, and whether that is so for single ones too.
const LINE_BOUND: &[(&str, &str, bool)] = &[
    ("@@", "@@", true),
    ("@<", ">@", true),
    ("[[$ x", "y $]]", true),
    ("[[[page", "]]]", true),
    ("[[[page|", "]]]", true),
    ("[[[", "x]]]", true),
    ("[[*user a", "b]]", true),
    ("[[user a", "]]", true),
    ("[[char amp", "]]", true),
    ("[[lines 2", "]]", true),
    ("[[eref x", "]]", true),
    ("[[# a", "]]", true),
    ("((bibcite a", "))", true),
    ("[/page x", "y]", true),
    ("[/page", "y label]", true),
    ("[*/page", "y label]", true),
    ("[#a", "y label]", true),
    ("[#a x", "y]", true),
    ("##red", "|x##", true),
    ("##red|", "x##", false),
    ("##", "##", false),
    ("**", "x**", false),
    ("**a", "**", false),
    ("//a", "b//", false),
    ("__a", "b__", false),
    ("^^a", "b^^", false),
    (",,a", "b,,", false),
    ("{{a", "b}}", false),
];

/// Markup which is broken off by the end of the line.
fn broken(src: &mut Src, cx: &mut Cx) -> Outcome {
    let &(open, close, single) = src.pick(LINE_BOUND);
    let paragraph = !single || src.chance(1, 2);
    let a = *src.pick(&["", "", "m", " m", " m n"]);
    let b = *src.pick(&["", "", "m", "m ", "m n "]);
    let lines = if paragraph { "\n\n" } else { "\n" };
    let (first, last) = (format!("p {open}{a}"), format!("{b}{close} q"));
    let body = format!("{first}{lines}{last}");
    let parts = |lb: bool| if lb { vec![text_el(&first), json!({"element": "line-break"}), text_el(&last)] } else { vec![] };
    let para = |e: Vec<Value>| container(json!("paragraph"), json!({}), e);
    let paras = || if paragraph { vec![para(vec![text_el(&first)]), para(vec![text_el(&last)])] } else { vec![para(parts(true))] };
    let (text, want) = match src.below(6) {
        0 => (format!("[[div]]\n{body}\n[[/div]]"), vec![container(json!("div"), json!({}), paras())]),
        1 => (format!("[[mark]]{body}[[/mark]]"), vec![para(vec![container(json!("mark"), json!({}), parts(true))])]),
        2 => (format!("x [[i]]{body}[[/i]] z"), vec![para(vec![text_el("x "), container(json!("italics"), json!({}), parts(true)), text_el(" z")])]),
        3 => (format!("> a\n\n{body}\n\n* b"), [vec![container(json!("blockquote"), json!({}), vec![para(vec![text_el("a")])])], paras(), vec![json!({"element": "list", "data": {"type": "bullet", "attributes": {}, "items": [{"item-type": "elements", "attributes": {}, "elements": [text_el("b")]}]}})]].concat()),
        _ => (body.clone(), paras()),
    };
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    cx.label(if paragraph { "broken by a paragraph" } else { "broken by a line" });
    let (tree, errors) = parse_raw(&text, &info(), &page_settings());
    spans(&text, &errors)?;
    let (want, actual) = (norm(&json!(want)), Value::Array(elements(&tree)));
    check!(want == actual, "broken", "{open}...{close} over a line end is not text: {}\nactual: {actual}\nerrors: {errors:?}", diff(&want, &actual));
    check!(!errors.is_empty() || open.starts_with("[/") || open.starts_with("[*/") || open == "[#a" || open.starts_with("(("), "broken-reported", "{open}...{close} over a line end is not reported");
    cx.nontrivial_if(true);
    Ok(())
}

/// Blocks with something among their parts that is none.
fn misplaced(src: &mut Src) -> (String, &'static str, &'static [&'static str]) {
    let junk = src.pick_str(&[".", "x", "-", "&", "é", "1", "/", "'", "\u{3000}", "\u{200b}", "日"]);
    let junk = match src.below(4) {
        0 => format!(" {junk}"),
        1 => format!("{junk} "),
        _ => junk.into(),
    };
    let (open, part, close, kind, forbidden): (_, _, _, _, &[&str]) = *src.pick(&[
        ("[[tabview]]", "[[tab A]]x[[/tab]]", "[[/tabview]]", "TabViewContainsNonTab", &["[[/tab"] as &[&str]),
        ("[[ul]]", "[[li]]x[[/li]]", "[[/ul]]", "ListContainsNonItem", &["[[/ul", "[[/li"]),
        ("[[ol class=\"a\"]]", "[[li]]x[[/li]]", "[[/ol]]", "ListContainsNonItem", &["[[/ol", "[[/li"]),
        ("[[table]]", "[[row]][[cell]]x[[/cell]][[/row]]", "[[/table]]", "TableContainsNonRow", &["[[/table", "[[/row", "[[/cell", "[[row", "[[cell"]),
        ("[[table]][[row]]", "[[cell]]x[[/cell]]", "[[/row]][[/table]]", "TableRowContainsNonCell", &["[[/table", "[[/row", "[[/cell", "[[row", "[[cell"]),
        ("[[rb a|b", "|", "]]", "BlockMalformedArguments", &["|"]),
    ]);
    if open.starts_with("[[rb") {
        let more = src.pick_str(&["|", "||", "|c", "| ", " |", "|c|d"]);
        return (format!("{open}{more}{close}"), kind, forbidden);
    }
    if junk.trim().is_empty() {
        // Blanks are nothing.
        let (open, close, kind, forbidden): (_, _, _, &[&str]) = *src.pick(&[("[[ul]]", "[[/ul]]", "ListEmpty", &["[[/ul"] as &[&str]), ("[[ol class=\"a\"]]", "[[/ol]]", "ListEmpty", &["[[/ol"]), ("[[tabview]]", "[[/tabview]]", "TabViewEmpty", &["[[/tab"])]);
        return (format!("{open}{junk}{close}"), kind, forbidden);
    }
    let n = src.range(0, 2);
    let m = src.range(0, 2);
    (format!("{open}{}{junk}{}{close}", part.repeat(n), part.repeat(m)), kind, forbidden)
}

/// Replaced by the markup.
const WORD: &str = "zqz";

fn replaced(v: &Value, to: &str) -> Value {
    match v {
        Value::String(s) => Value::String(s.replace(WORD, to)),
        Value::Array(a) => Value::Array(a.iter().map(|v| replaced(v, to)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), replaced(v, to))).collect()),
        v => v.clone(),
    }
}

fn spans(text: &str, errors: &[ftml::parsing::ParseError]) -> Outcome {
    let tokens = ftml::tokenize(text);
    for e in errors {
        let found = tokens.tokens().iter().find(|t| t.span == e.span());
        check!(found.is_some_and(|t| t.token == e.token()), "span", "{e:?} has another token at its place: {found:?}");
        check!(!e.rule().is_empty(), "rule", "{e:?} has no rule");
        check!(text.get(e.span()).is_some(), "span", "{e:?} is not within the text");
    }
    Ok(())
}

/// Markup which is not closed, and what would close it (or part of that), in
/// lower case and without white space.
const OPENERS: &[(&str, &[&str])] = &[
    ("[[span]]", &["[[/span"]),
    ("[[span_ class=\"a\"]]", &["[[/span"]),
    ("[[footnote]]", &["[[/footnote"]),
    ("[[footnote]]a [[footnote]]b", &["[[/footnote"]),
    ("[[a href=\"x\"]]", &["[[/a"]),
    ("[[b]]", &["[[/b", "[[/strong"]),
    ("[[u]]", &["[[/u"]),
    ("[[mark]]", &["[[/mark", "[[/highlight"]),
    ("[[size 80%]]", &["[[/size"]),
    ("[[li]]", &["[[/li"]),
    ("[[row]]", &["[[/row"]),
    ("[[cell]]", &["[[/cell"]),
    ("[[tab A]]", &["[[/tab"]),
    ("[[rt]]", &["[[/rt", "[[/rubytext"]),
    ("[[ruby]]", &["[[/ruby"]),
    ("[[ruby]]a[[rt]]b", &["[[/ruby", "[[/rt"]),
    ("[[iftags +scp]]", &["[[/iftags"]),
    ("[[iftags -scp]]", &["[[/iftags"]),
    ("[[ifcategory x]]", &["[[/ifcategory"]),
    ("[[p]]", &["[[/p"]),
    ("[[hidden]]", &["[[/hidden"]),
    ("[[=]]", &["[[/="]),
    ("[[div]]", &["[[/div"]),
    ("[[collapsible]]", &["[[/collapsible"]),
    ("[[blockquote]]", &["[[/blockquote", "[[/quote"]),
    ("[[ul]]", &["[[/ul"]),
    ("[[ul]][[li]]b", &["[[/ul", "[[/li"]),
    ("[[ol]][[li]]b[[/li]]", &["[[/ol"]),
    ("[[table]][[row]][[cell]]b", &["[[/table", "[[/row", "[[/cell"]),
    ("[[table]]", &["[[/table"]),
    ("[[tabview]][[tab A]]b", &["[[/tab"]),
    ("[[tabview]]", &["[[/tabview", "[[/tabs"]),
    ("[[bibliography]]", &["[[/bibliography"]),
    ("[[code]]", &["[[/code"]),
    ("[[html]]", &["[[/html"]),
    ("[[math]]", &["[[/math"]),
    ("[[module CSS]]", &["[[/module"]),
    ("[!--", &["--]"]),
    ("@<", &[">@", "@@"]),
    ("[[$", &["$]]"]),
    ("{{a", &["}}", "{{"]),
    ("##red|a", &["##"]),
    ("^^a", &["^^"]),
    ("__a", &["__"]),
    ("**a", &["**"]),
    ("**a [[i]]b", &["**", "[[/i", "[[/em"]),
    ("[[b]]a ^^b", &["^^", "[[/b", "[[/strong"]),
    ("[[span]]a [[b]]b [[size 1em]]c", &["[[/span", "[[/b", "[[/strong", "[[/size"]),
    ("[[footnote]]a [[li]]b", &["[[/footnote", "[[/li"]),
    ("[[li]]a [[footnote]]b", &["[[/footnote", "[[/li"]),
    ("[[row]]a [[cell]]b", &["[[/row", "[[/cell"]),
];

/// Parts of blocks, in conditionals that are not in these blocks but in their parts.
fn inside(src: &mut Src, cx: &mut Cx) -> Outcome {
    let &(context, parts) = src.pick(&[
        ("[[ul]][[li]]a {}[[/li]][[/ul]]", &["[[li]]x[[/li]]", "[[li class=\"a\"]]x **y**[[/li]]"] as &[&str]),
        ("[[table]][[row]][[cell]]a {}[[/cell]][[/row]][[/table]]", &["[[cell]]x[[/cell]]", "[[hcell]]x[[/hcell]]", "[[row]][[cell]]x[[/cell]][[/row]]"]),
        ("[[table]][[row]][[hcell]]a {}[[/hcell]][[/row]][[/table]]", &["[[cell]]x[[/cell]]", "[[hcell]]x[[/hcell]]", "[[row]][[hcell]]x[[/hcell]][[/row]]"]),
        ("[[tabview]][[tab A]]a {}[[/tab]][[/tabview]]", &["[[tab B]]x[[/tab]]"]),
        ("[[ruby]]a[[rt]]b {}[[/rt]][[/ruby]]", &["[[rt]]x[[/rt]]"]),
        ("[[ul]][[li]]a[[/li]][[/ul]] {}", &["[[li]]x[[/li]]"]),
        ("[[ruby]]a[[rt]]b[[/rt]][[/ruby]] {}", &["[[rt]]x[[/rt]]"]),
        ("[[ul]][[li]][[ruby]]a {}[[rt]]b[[/rt]][[/ruby]][[/li]][[/ul]]", &["[[li]]x[[/li]]"]),
        ("[[tabview]][[tab A]][[ul]][[li]]a {}[[/li]][[/ul]][[/tab]][[/tabview]]", &["[[tab B]]x[[/tab]]", "[[li]]x[[/li]]", "[[cell]]x[[/cell]]"]),
    ]);
    let part = src.pick_str(parts);
    let mut inner = WORD.to_string();
    let tags = src.pick_str(&["[[iftags +scp]]{}[[/iftags]]", "[[ifcategory _default]]{}[[/ifcategory]]", "[[iftags -nope]]{}[[/iftags]]"]);
    for i in 0..src.range(1, 3) {
        let t = if i == 0 || src.bool() { tags } else { src.pick_str(&["[[span]]{}[[/span]]", "[[b]]y {}[[/b]]", "[[i]]{} z[[/i]]", "**y {}**"]) };
        // Nothing in the part may end it.
        let t = if part.contains("**") && t.contains("**") { tags } else { t };
        inner = t.replace("{}", &inner);
    }
    if src.bool() {
        inner = format!("{inner} w");
    }
    let plain = context.replace("{}", &inner);
    let text = plain.replace(WORD, part);
    announce(src, cx, &text);
    cx.label("inside a part");
    let (info, settings) = (info(), page_settings());
    let (tree, errors) = parse_raw(&text, &info, &settings);
    // It has markup of its own.
    let stars = part.contains("**");
    let (plain_tree, _) = parse_raw(&if stars { plain.replace(WORD, "[zq**y**qz]") } else { plain }, &info, &settings);
    let mut want = to_value(&plain_tree);
    want.as_object_mut().unwrap().remove("wikitext-len");
    let mut actual = to_value(&tree);
    actual.as_object_mut().unwrap().remove("wikitext-len");
    let want = norm(&match stars {
        false => replaced(&want, part),
        true => {
            let (a, b) = part.split_once("**y**").unwrap();
            serde_json::from_str(&norm(&want).to_string().replace("[zq", &a.replace('"', "\\\"")).replace("qz]", b)).unwrap()
        }
    });
    let actual = norm(&actual);
    check!(want == actual, "inside", "{part} is not text: {}\nactual: {actual}\nerrors: {errors:?}", diff(&want, &actual));
    check!(errors.iter().any(|e| format!("{:?}", e.kind()).contains("OutsideList") || format!("{:?}", e.kind()).contains("Outside")), "inside-reported", "{part} is not reported: {errors:?}");
    cx.nontrivial_if(true);
    Ok(())
}

/// What is not closed is text, and whatever follows is as it is after text.
fn open(src: &mut Src, cx: &mut Cx) -> Outcome {
    let (info, settings) = (info(), page_settings());
    let &(opener, closers) = src.pick(OPENERS);
    let rest = match src.weighted(&[3, 3, 1, 4]) {
        0 => gen::tidy(src),
        1 => gen::soup(src),
        2 => gen::mutant(src),
        _ => {
            // What depends on its surroundings.
            let mut s = String::new();
            for _ in 0..src.range(1, 4) {
                let core = src.pick_str(&[
                    "[[footnote]]f[[/footnote]]", "[[footnote]]f **b** [[footnote]]g[[/footnote]]", "[[li]]l[[/li]]", "[[cell]]c[[/cell]]", "[[row]][[cell]]c[[/cell]][[/row]]", "[[tab B]]t[[/tab]]", "[[rt]]r[[/rt]]", "[[footnoteblock]]",
                    "+ h", "* l", "> q", "|| t ||", "[[ul]][[li]]l[[/li]][[/ul]]", "[[ruby]]x[[rt]]r[[/rt]][[/ruby]]", "[[code name=\"n\"]]\nc\n[[/code]]", "[[html]]\nh\n[[/html]]", "[[table]][[row]][[cell]]c[[/cell]][[/row]][[/table]]",
                    "[[tabview]][[tab B]]t[[/tab]][[/tabview]]", "[[bibliography]]\n: a : b\n[[/bibliography]]", "((bibcite a))", "**b**", "[[iftags +scp]]x[[/iftags]]", "[[iftags -scp]]x[[/iftags]]", "[[math x]]\ny\n[[/math]]", "[[li]][[footnote]]x[[/footnote]][[/li]]",
                ]);
                s += src.pick_str(&[" ", "\n", "\n\n", " x "]);
                s += &place(src, core, core.contains('\n') || core.starts_with(['+', '*', '>', '|']) && !core.starts_with("**")).text;
            }
            s
        }
    };
    let rest = prep(&rest);
    let glue = src.pick_str(&[" y ", " y\n", " y\n\n", " y [[div]]\nm\n[[/div]]\n"]);
    let plain = format!("x {WORD}{glue}{rest}");
    let squeezed: String = plain.to_lowercase().split_whitespace().collect();
    if closers.iter().any(|c| squeezed.contains(c)) || plain.matches(WORD).count() != 1 || opener.contains('|') && rest.contains("##") {
        cx.discarded = true;
        return Ok(());
    }
    let text = plain.replace(WORD, opener);
    announce(src, cx, &text);
    if prep(&text) != text || prep(&plain) != plain {
        cx.discarded = true;
        return Ok(());
    }
    cx.label("open");
    let (tree, errors) = parse_raw(&text, &info, &settings);
    let (plain_tree, plain_errors) = parse_raw(&plain, &info, &settings);
    spans(&text, &errors)?;
    if [&errors, &plain_errors].iter().any(|l| l.iter().any(|e| format!("{:?}", e.kind()) == "RecursionDepthExceeded")) {
        cx.discarded = true;
        return Ok(());
    }
    let strip = |mut v: Value| {
        v.as_object_mut().unwrap().remove("wikitext-len");
        norm(&v)
    };
    let want = norm(&replaced(&strip(to_value(&plain_tree)), opener));
    let actual = strip(to_value(&tree));
    check!(want == actual, "open", "{opener} changes what follows: {}\nactual: {actual}\nerrors: {errors:?}", diff(&want, &actual));
    let at = plain.find(WORD).unwrap();
    let delta = opener.len() as isize - WORD.len() as isize;
    let mut rest = errors.clone();
    for e in &plain_errors {
        let shift = |i: usize| if i > at { (i as isize + delta) as usize } else { i };
        let span = shift(e.span().start)..shift(e.span().end);
        match rest.iter().position(|r| r.kind() == e.kind() && r.rule() == e.rule() && r.span() == span) {
            Some(i) => {
                rest.remove(i);
            }
            None => fail!("open-errors", "{e:?} (at {span:?} here) is not in {errors:?}"),
        }
    }
    cx.nontrivial_if(to_value(&plain_tree)["elements"].to_string().len() > 300);
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let (info, settings) = (info(), page_settings());
    if src.chance(1, 3) {
        cx.label("any text");
        let text = gen::document(src);
        let text = prep(&text);
        announce(src, cx, &text);
        let (_, errors) = parse_raw(&text, &info, &settings);
        spans(&text, &errors)?;
        cx.nontrivial_if(errors.len() >= 3);
        return Ok(());
    }
    match src.weighted(&[16, 4, 1, 8]) {
        0 => {}
        1 => return broken(src, cx),
        2 => return inside(src, cx),
        _ => return open(src, cx),
    }
    let (markup, kind, forbidden) = match src.chance(1, 6) {
        false => {
            let (m, k, f) = src.pick(MALFORMED);
            (m.to_string(), *k, *f)
        }
        true => misplaced(src),
    };
    let markup = markup.as_str();
    let core = *src.pick(&["x {} y", "x {} y", "{} y", "x {}"]);
    // Nothing may be at the start of a line, where it could be something else.
    let core = if core.starts_with("{}") && (!markup.starts_with("[[") || markup.starts_with(['|', '-', '~'])) { "x {} y" } else { core };
    let p = place(src, &core.replace("{}", WORD), false);
    let before = if src.chance(1, 3) { "p\n\n" } else { "" };
    let after = if src.chance(1, 3) { "\n\nq **r**" } else { "" };
    let plain = format!("{before}{}{after}", p.text);
    let at = plain.find(WORD).unwrap();
    // A line end before a block may be left out.
    if plain.contains(&format!("\n{WORD}")) || forbidden.iter().any(|f| plain.contains(f)) || plain.contains('|') && markup.contains("##") || markup.contains('|') && plain.contains("##") {
        cx.discarded = true;
        return Ok(());
    }
    let text = plain.replace(WORD, markup);
    announce(src, cx, &text);
    if prep(&text) != text || prep(&plain) != plain {
        cx.discarded = true;
        return Ok(());
    }
    cx.label_if(p.failed, "in a failing construct");
    cx.label_if(!p.live, "not parsed");
    let (tree, errors) = parse_raw(&text, &info, &settings);
    let (plain_tree, plain_errors) = parse_raw(&plain, &info, &settings);
    spans(&text, &errors)?;
    let strip = |mut v: Value| {
        v.as_object_mut().unwrap().remove("wikitext-len");
        norm(&v)
    };
    let want = norm(&replaced(&strip(to_value(&plain_tree)), markup));
    let actual = strip(to_value(&tree));
    check!(want == actual, "text", "{markup} is not text: {}\nactual: {actual}\nerrors: {errors:?}", diff(&want, &actual));
    // The errors of all else are still there.
    let delta = markup.len() as isize - WORD.len() as isize;
    let mut rest = errors.clone();
    for e in &plain_errors {
        let shift = |i: usize| if i > at { (i as isize + delta) as usize } else { i };
        let span = shift(e.span().start)..shift(e.span().end);
        match rest.iter().position(|r| r.kind() == e.kind() && r.rule() == e.rule() && (r.span() == span || r.span().contains(&span.start))) {
            Some(i) => {
                rest.remove(i);
            }
            None => fail!("errors", "{e:?} (at {span:?} here) is not in {errors:?}"),
        }
    }
    if p.live {
        check!(!rest.is_empty() || kind.is_empty(), "reported", "{markup} is not reported: {errors:?}");
        let own: Vec<_> = rest.iter().filter(|e| e.span().start >= at).collect();
        check!(["", "*"].contains(&kind) || own.iter().any(|e| format!("{:?}", e.kind()) == kind), "kind", "{markup} at {at} is not reported as {kind}: {rest:?}");
        if kind == "NoSuchBlock" && !markup.starts_with("[[embed") {
            let rule = if markup.starts_with("[[*") { "block-star" } else { "block" };
            check!(own.iter().any(|e| format!("{:?}", e.kind()) == kind && e.rule() == rule), "rule", "{markup} at {at} is not reported for {rule}: {rest:?}");
        }
    }
    cx.nontrivial_if(p.live && p.depth > 0);
    Ok(())
}
