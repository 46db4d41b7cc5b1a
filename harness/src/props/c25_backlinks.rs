//! C25: the backlinks are the links that are shown, in their order.

use crate::common::*;
use crate::contexts::{place, Placed};
use crate::engine::*;
use crate::{check, html as strict, htmlmodel, links};
use serde_json::Value;

pub const PROP: Property = Property {
    id: "C25",
    quick_cases: 100_000,
    thorough_cases: 2_000_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "at least three links that count, one of them within another construct",
    assumptions: &["a link within a footnote or a bibliography counts each time that it is shown"],
    run,
};

type Location = (Option<String>, String);

#[derive(Clone, Debug, PartialEq)]
enum Backlink {
    Internal(Location),
    External(String),
}

use Backlink::*;

fn of_url(u: &str) -> Backlink {
    let u = u.strip_prefix('/').unwrap_or(u);
    if htmlmodel::is_url(u) {
        External(u.into())
    } else {
        Internal((None, u.into()))
    }
}

fn link(src: &mut Src, cx: &mut Cx, n: usize) -> (String, Option<Backlink>) {
    let star = src.pick_str(&["", "", "", "*"]);
    let pages = ["a", "SCP-173", "scp 173", "Über", "a.b", "_x", "component:x", "system: y", "日本", "a_b", "a&b", "x:y:z", "some-page", "some page"];
    let more = ["", "", "", "/edit", "#top", "/a/b#c"];
    let label = match src.below(4) {
        0 => "|".to_string(),
        1 => String::new(),
        2 => format!("|l{n}"),
        _ => format!("| l{n} b "),
    };
    match src.weighted(&[6, 2, 2, 2, 2, 2, 1, 3]) {
        0 => {
            let (p, e) = (src.pick_str(&pages), src.pick_str(&more));
            (format!("[[[{star}{p}{e}{label}]]]"), Some(Internal((None, p.into()))))
        }
        1 => {
            let (s, p, e) = (src.pick_str(&["scp-wiki", "x", "Site-19", "sandbox"]), src.pick_str(&["a", "b c", "c:d", "É", "some-page"]), src.pick_str(&more));
            (format!("[[[{star}:{s}:{p}{e}{label}]]]"), Some(Internal((Some(s.into()), p.into()))))
        }
        2 => {
            let p = src.pick_str(&["/a", "/SCP-173", "/a/edit", "/a#b", "/c:d", "/", "/é", "//x", "/some-page", "/some-page#x"]);
            if src.bool() {
                (format!("[[[{star}{p}{label}]]]"), Some(of_url(p)))
            } else {
                (format!("[{star}{p} l{n}]"), Some(of_url(p)))
            }
        }
        3 => {
            let u = src.pick_str(&["https://example.com/", "http://x.y/a?b=c&d=e", "ftp://a.b/c", "https://wanderers.wiki/a#b", "https://日本.jp/é"]);
            if src.bool() {
                (format!("[[[{star}{u}{label}]]]"), Some(of_url(u)))
            } else {
                (format!("[{star}{u} l{n}]"), Some(of_url(u)))
            }
        }
        4 => {
            // The space ends it.
            let u = src.pick_str(&["https://example.com/x", "http://e.com/y", "ftp://a.b"]);
            (format!("z {u} z"), Some(of_url(u)))
        }
        5 => {
            let (p, w) = *src.pick(&[("wikipedia", "Apple"), ("wp", "a b"), ("google", "x"), ("none", "x"), ("wikipedia", "x/y")]);
            let settings = page_settings();
            let prefixes: Vec<(String, String)> = settings.interwiki.prefixes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            let b = links::interwiki(&prefixes, &format!("{p}:{w}")).map(|u| of_url(&u));
            (format!("[[[{star}!{p}:{w}{}]]]", if b.is_some() { label.as_str() } else { "" }), b)
        }
        6 => {
            let b = src.pick_str(&["mailto:a@b.c", "git://x", "irc://x/y"]);
            (format!("[[[{b}|l{n}]]]"), Some(of_url(b)))
        }
        _ => {
            cx.label("no backlink");
            let t = src.pick_str(&[
                "[#top l]", "[# l]", "[[[#x|l]]]", "[[a href=\"/page\"]]l[[/a]]", "[[image https://x.y/a.png link=\"page\"]]", "[[user someone]]", "[[module Backlinks page=\"x\"]]", "[[*user x]]", "[[image p/a.png]]", "[[[]]]",
                "[page l]", "@@[[[x]]]@@", "[!-- [[[x]]] --]", "[[module ListPages]]", "[[module Categories]]", "[[[#]]]", "[[toc]]", "[[equation x]]", "[[code]]\n[[[x]]]\n[[/code]]", "[[$ [[[x]]] $]]", "[[module CSS]]\n[[[x]]]\n[[/module]]", "[[html]]\n<a href=\"/x\">[[[x]]]</a>\n[[/html]]", "[[iframe https://x.y/z]]", "[[include x]]",
            ]);
            (t.to_string(), None)
        }
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut settings = page_settings();
    settings.minify_css = src.bool();
    let mut text = String::new();
    let mut body: Vec<Backlink> = vec![];
    // Shown again in the list of footnotes.
    let mut notes: Vec<Backlink> = vec![];
    let mut entries: Vec<(&str, Vec<Backlink>)> = vec![];
    let (mut cites, mut shown_block) = (vec![], None);
    let mut nested = false;
    let bibliography = src.chance(1, 4);
    let parts = src.range(1, 6);
    let at = bibliography.then(|| src.below(parts));
    for part in 0..parts {
        if part > 0 {
            text += "\n\n";
        }
        if at == Some(part) {
            text += "[[bibliography]]\n";
            for key in ["k", "m"] {
                let (t, b) = link(src, cx, part);
                if t.contains('\n') || t.contains("[[include") || t.contains("[[module") || t.contains("[[toc") {
                    cx.discarded = true;
                    return Ok(());
                }
                text += &format!(": {key} : x {t} y\n");
                entries.push((key, b.into_iter().collect()));
            }
            text += "[[/bibliography]]";
            shown_block = Some(body.len());
            continue;
        }
        let (t, b) = link(src, cx, part);
        let block = t.contains('\n') || t.starts_with("[[module") || t.starts_with("[[toc") || t.starts_with("[[include");
        if block {
            text += &t;
            continue;
        }
        if bibliography && src.chance(1, 4) {
            let key = src.pick_str(&["k", "m", "nope"]);
            let p = place(src, &format!("x ((bibcite {key})) y"), false);
            text += &p.text;
            if p.live {
                cites.push((body.len(), key));
            }
            continue;
        }
        let note = src.chance(1, 5);
        let core = if note { format!("x [[footnote]]a {t} b[[/footnote]] y") } else { t };
        let lines = core.starts_with("z ") && src.bool();
        let p = if part == 0 && src.chance(1, 8) { Placed { text: core, live: true, failed: false, depth: 0 } } else { place(src, &core, lines) };
        cx.label_if(p.failed, "in a failing construct");
        cx.label_if(!p.live, "not shown");
        cx.label_if(note, "in a footnote");
        text += &p.text;
        if p.live {
            if b.is_some() {
                nested |= p.depth > 0 || note;
            }
            if note {
                notes.extend(b.clone());
            }
            body.extend(b);
        }
    }
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    // Cites and the bibliography show the links of the entries, too.
    let mut inserts: Vec<(usize, Vec<Backlink>, bool)> = vec![];
    for (i, key) in cites {
        let e = entries.iter().find(|(k, _)| *k == key).map(|(_, b)| b.clone()).unwrap_or_default();
        inserts.push((i, e, false));
    }
    if let Some(i) = shown_block {
        inserts.push((i, entries.iter().flat_map(|(_, b)| b.clone()).collect(), true));
    }
    let (tree, errors) = parse_raw(&text, &info(), &settings);
    let out = html(&tree, &info(), &settings);
    let internal: Vec<Location> = out.backlinks.internal_links.iter().map(|p| (p.site().map(str::to_string), p.page().to_string())).collect();
    let external: Vec<String> = out.backlinks.external_links.iter().map(|p| p.to_string()).collect();
    check!(out.backlinks.included_pages.is_empty(), "included", "{:?}", out.backlinks);
    let mut want: Vec<Backlink> = vec![];
    for i in 0..=body.len() {
        // Several at the same place are in the order of the text; only these may
        // be ambiguous, as cites could be before or after the bibliography.
        let here: Vec<_> = inserts.iter().filter(|(j, ..)| *j == i).collect();
        if here.len() > 1 && here.iter().any(|(_, _, block)| *block) {
            cx.discarded = true;
            return Ok(());
        }
        for (_, b, _) in here {
            want.extend(b.iter().cloned());
        }
        want.extend(body.get(i).cloned());
    }
    want.extend(notes);
    let want_internal: Vec<Location> = want.iter().filter_map(|b| if let Internal(l) = b { Some(l.clone()) } else { None }).collect();
    let want_external: Vec<String> = want.iter().filter_map(|b| if let External(l) = b { Some(l.clone()) } else { None }).collect();
    check!(internal == want_internal, "internal", "internal {internal:?}, wanted {want_internal:?}\nerrors: {errors:?}\nhtml: {}", out.body);
    check!(external == want_external, "external", "external {external:?}, wanted {want_external:?}\nhtml: {}", out.body);
    // There is one for each link that is shown.
    let nodes = strict::parse(&out.body).map_err(|e| Failure::new("malformed-html", format!("{e}\n{}", out.body)))?;
    let shown = strict::find_all(&nodes, |e| e.tag == "a" && e.has_class("wj-link") && !e.has_class("wj-link-anchor")).len();
    check!(shown == want.len(), "shown", "{shown} links are shown, there are {} backlinks\nhtml: {}", want.len(), out.body);
    // The layout makes no difference.
    let v: Value = to_value(&tree);
    settings.layout = ftml::layout::Layout::Wikijump;
    let out2 = html(&tree, &info(), &settings);
    check!(out2.backlinks == out.backlinks, "layout", "{:?}, {:?}\ntree: {v}", out.backlinks, out2.backlinks);
    cx.nontrivial_if(nested && want.len() >= 3);
    Ok(())
}
