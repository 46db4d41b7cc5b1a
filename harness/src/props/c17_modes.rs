//! C17: page syntax is text where it is not enabled, and nothing else differs.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen, html as strict};
use ftml::data::PageRef;
use ftml::includes::{FetchedPage, IncludeRef, Includer};
use ftml::layout::Layout;
use ftml::settings::{WikitextMode, WikitextSettings};
use serde_json::Value;
use std::borrow::Cow;

pub const PROP: Property = Property {
    id: "C17",
    quick_cases: 20_000,
    thorough_cases: 2_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "the document has an element of page syntax if that is enabled",
    assumptions: &["a block of page syntax that is not enabled is compared with a block of a name that does not exist, of the same length"],
    run,
};

const PIECES: &[&str] = &[
    "[[toc]]", "[[f>toc]]", "[[f<toc class=\"a\"]]", "[[TOC]]", "[[module Rate]]", "[[module CSS]]\nbody { color: red; }\n[[/module]]", "[[module Backlinks page=\"x\"]]", "[[Module Categories]]", "[[module PageTree root=\"a\"]]", "[[module Join]]",
    "[[include-elements some-page]]", "[[include-elements a x=\"1\"]]", "[[INCLUDE-ELEMENTS :s:p]]", "[[include some-page]]", "[[include-messy a |x=y]]", "[[module nope]]", "[[module]]", "[[toc x]]", "[[ toc ]]", "[[/toc]]", "[[toc_]]", "[[*toc]]",
];

/// Written instead of the real names, of the same length.
const NAMES: &[(&str, &str)] = &[("module", "moduqe"), ("toc", "tqc"), ("include", "inclqde")];

/// Replaces the names, also as parts of words, in whatever case.
fn rename(s: &str, back: bool) -> String {
    let mut out = s.to_string();
    for (name, other) in NAMES {
        let (from, to) = if back { (other, name) } else { (name, other) };
        let i = from.bytes().zip(to.bytes()).position(|(a, b)| a != b).unwrap();
        let lower = out.to_ascii_lowercase();
        let mut bytes = out.into_bytes();
        for (at, _) in lower.match_indices(from) {
            let c = to.as_bytes()[i];
            bytes[at + i] = if bytes[at + i].is_ascii_uppercase() { c.to_ascii_uppercase() } else { c };
        }
        out = String::from_utf8(bytes).unwrap();
    }
    out
}

fn rename_back(v: &Value) -> Value {
    match v {
        Value::String(s) => Value::String(rename(s, true)),
        Value::Array(a) => a.iter().map(rename_back).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| (rename(k, true), rename_back(v))).collect(),
        other => other.clone(),
    }
}

fn page_elements(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            if let Some(e) = o.get("element").and_then(|e| e.as_str()) {
                if matches!(e, "module" | "table-of-contents" | "include" | "style") {
                    out.push(e.into());
                }
            }
            o.values().for_each(|x| page_elements(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| page_elements(x, out)),
        _ => (),
    }
}

fn no_breaks(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().filter(|e| e["element"].as_str() != Some("line-break")).map(no_breaks).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), no_breaks(v))).collect(),
        // Names in the table of contents have them too.
        Value::String(s) => Value::String(s.replace('\n', "")),
        other => other.clone(),
    }
}

struct Never;

impl<'t> Includer<'t> for Never {
    type Error = String;
    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, String> {
        Err(format!("asked for {includes:?}"))
    }
    fn no_such_include(&mut self, page: &PageRef) -> Result<Cow<'t, str>, String> {
        Err(format!("no such include {page:?}"))
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut text = String::new();
    for i in 0..src.range(1, 5) {
        if i > 0 {
            text += src.pick_str(&["\n\n", "\n", " ", ""]);
        }
        text += &match src.below(6) {
            0 | 1 => src.pick_str(PIECES).to_string(),
            2 => {
                let t = src.pick_str(&["[[div]]\n{}\n[[/div]]", "* {}\n* b", "> {}", "||{}||b||", "+ {}", "**{}**", "[[span]]{}[[/span]]", "[[collapsible]]\n{}\n[[/collapsible]]", "[[footnote]]{}[[/footnote]]", "@@{}@@", "[!-- {} --]", "[[ul]]\n[[li]]{}[[/li]]\n[[/ul]]"]);
                t.replace("{}", src.pick_str(PIECES))
            }
            3 => src.pick_str(&["+ Heading\n++ Toc", "the module", "[[[include]]]", "[[image a.png]]", "[[image other/a.png]]", "[[image https://example.com/a.png]]", "[[code]]\n[[toc]]\n[[/code]]", "[[file a.png]]"]).to_string(),
            4 => gen::tidy(src),
            _ => gen::soup(src),
        };
    }
    let text = prep(&text);
    let layout = if src.bool() { Layout::Wikijump } else { Layout::Wikidot };
    let mode = *src.pick(&MODES);
    let settings = WikitextSettings::from_mode(mode, layout);
    announce(src, cx, &format!("{mode:?}\n{text}"));
    if text.to_ascii_lowercase().contains('q') && rename(&text, true) != text {
        cx.discarded = true;
        return Ok(());
    }
    let info = info();
    let (tree, errors) = parse_raw(&text, &info, &settings);
    let mut found = vec![];
    let v = to_value(&tree);
    page_elements(&v["elements"], &mut found);
    page_elements(&v["footnotes"], &mut found);
    page_elements(&v["bibliographies"], &mut found);
    let off = errors.iter().any(|e| format!("{:?}", e.kind()) == "NotSupportedMode");

    // The settings of a mode.
    let forum = matches!(mode, WikitextMode::ForumPost | WikitextMode::DirectMessage);
    if forum {
        check!(found.is_empty(), "page-syntax", "{found:?} in a {mode:?}");
        // The same as with blocks that do not exist.
        let mut on = settings.clone();
        on.enable_page_syntax = true;
        let (other, _) = parse_raw(&rename(&text, false), &info, &on);
        // Blocks on lines of their own take the line break before them, if their name exists.
        let (a, b) = (norm(&no_breaks(&v)), norm(&no_breaks(&rename_back(&to_value(&other)))));
        check!(a == b, "differs", "not the text of the block: {}", diff(&b, &a));
        let (_, errors) = parse_raw(&text, &info, &on);
        check!(errors.iter().all(|e| format!("{:?}", e.kind()) != "NotSupportedMode"), "error", "not supported, though it is enabled: {errors:?}");
        let (real, _) = parse_raw(&text, &info, &on);
        let mut enabled = vec![];
        page_elements(&to_value(&real)["elements"], &mut enabled);
        cx.nontrivial_if(!enabled.is_empty());
        check!(enabled.is_empty() || off, "error", "no error for {enabled:?}");
        // Includes are left alone.
        let (included, pages) = ftml::include(&text, &settings, Never, || "bad answer".into()).map_err(|e| Failure::new("include", e))?;
        check!(included == text && pages.is_empty(), "include", "{text:?} became {included:?} with {pages:?}");
    } else {
        check!(!off, "error", "not supported: {errors:?}");
        cx.nontrivial_if(!found.is_empty());
        // The mode itself does not matter but for the settings it stands for.
        let page = WikitextSettings::from_mode(WikitextMode::Page, layout);
        let (other, other_errors) = parse_raw(&text, &info, &page);
        check!(other == tree && other_errors == errors, "differs", "the tree is not that of a page: {}", diff(&to_value(&other), &v));
    }

    // Files of the page.
    let out = html(&tree, &info, &settings);
    let nodes = strict::parse(&out.body).map_err(|e| Failure::new("malformed-html", format!("{e}\n{}", out.body)))?;
    let local = strict::find_all(&nodes, |e| e.tag == "img" && e.attr("src").is_some_and(|s| s.contains("wjfiles.com/local--files/")));
    let mut images = 0;
    count_files(&v["elements"], &mut images);
    if forum {
        check!(local.is_empty(), "files", "images of local files in a {mode:?}: {}", out.body);
    } else {
        check!(local.len() >= images, "files", "{} of {images} images of local files: {}", local.len(), out.body);
    }
    cx.label_if(images > 0, "local image");
    // True IDs are only for pages.
    let true_ids = strict::find_all(&nodes, |e| e.attr("id").is_some_and(|i| i == "wj-toc-list"));
    check!(true_ids.is_empty() || mode == WikitextMode::Page, "ids", "true IDs in a {mode:?}: {}", out.body);
    cx.label(if forum { "disabled" } else { "enabled" });

    // Other modes with the same settings.
    let mut same = settings.clone();
    same.mode = *src.pick(&MODES);
    let (other, other_errors) = parse_raw(&text, &info, &same);
    check!(other == tree && other_errors == errors, "mode", "the mode {:?} makes a difference: {}", same.mode, diff(&to_value(&other), &v));
    let (a, b) = (stable_html(&out.body), stable_html(&html(&other, &info, &same).body));
    check!(a == b, "mode", "the mode {:?} makes a difference: {a}\n{b}", same.mode);
    Ok(())
}

fn count_files(v: &Value, n: &mut usize) {
    match v {
        Value::Object(o) => {
            // Not shown: the label of a link has no image, everything else is rendered.
            if o.get("element").is_some_and(|e| e.as_str() == Some("image")) && o["data"]["source"]["type"].as_str() != Some("url") {
                *n += 1;
            }
            o.values().for_each(|x| count_files(x, n));
        }
        Value::Array(a) => a.iter().for_each(|x| count_files(x, n)),
        _ => (),
    }
}
