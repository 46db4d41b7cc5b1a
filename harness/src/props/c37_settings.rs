//! C37: settings and data of the page make no difference but where they are used.

use crate::common::*;
use crate::engine::*;
use crate::html::{El, Node};
use crate::{attrs, check, gen, html as strict, model};
use ftml::data::{Backlinks, PageInfo, ScoreValue};
use ftml::layout::Layout;
use ftml::parsing::ParseError;
use ftml::settings::{InterwikiSettings, WikitextSettings};
use ftml::tree::SyntaxTree;
use serde_json::{json, Value};
use std::borrow::Cow;

pub const PROP: Property = Property {
    id: "C37",
    quick_cases: 40_000,
    thorough_cases: 1_500_000,
    budget: 1_500_000,
    over_budget: OverBudget::Discard,
    rule: "the document has something that the changed setting or datum is about",
    assumptions: &["the names of pages and sites are ones that are not in the document otherwise", "values of the element IDs (wj-id-…) and offsets of dates from the current time are masked"],
    run,
};

const PIECES: &[&str] = &[
    "[[module CSS]]\nbody  {  color: red;  }\n\n.a, .b { margin: 0px 0px }\n[[/module]]", "[[css]]\n@import url(x.css);\n.x::after { content: \" a  b \" }\n[[/css]]", "[[toc]]", "[[f>toc]]", "+ Heading\n++ Second **one**\n+ Third",
    "[[tabview]]\n[[tab A]]\nx\n[[/tab]]\n[[tab B]]\n[[image a.png]]\n[[/tab]]\n[[/tabview]]", "[[image a.png]]", "[[image other/a.png link=\"some-page\"]]", "[[=image :site:page:a.png]]", "[[f<image /site/page/a.png alt=\"x\"]]", "[[image https://example.com/a.png]]", "[[[*some-page]]]", "[[[other page| ]]]",
    "[[[some-page|]]] [[[:scp-wiki:x|]]]", "[wikipedia:Apple apple]", "[[[wikipedia:Apple | x]]]", "[[# name]]", "[[target x]]y[[/target]]", "[[# top]] [[# toc0]] [[# 1]]", "[[target top]] [[target wj-x]]", "[[span id=\"toc1\"]]x[[/span]] [[span id=\"top\"]]x[[/span]]", "[[span id=\"a b\"]]x[[/span]]", "[[div id=\"u-x\" class=\"id\"]]\nx\n[[/div]]", "[[a name=\"x\" id=\"y\"]]z[[/a]]", "x [[footnote]]y [[image a.png]][[/footnote]]",
    "x ((bibcite y)) z\n\n[[bibliography]]\n: y : A [[image b.png]]\n[[/bibliography]]", "[[collapsible show=\"a\"]]\nx\n[[/collapsible]]", "[[iftags +scp -joke]]x[[/iftags]]", "[[ifcategory _default]]x[[/ifcategory]]", "[[date 2024-01-02 format=\"%Y\"]]", "[[user Someone]]", "[[*user Someone Else]]",
    "[[code type=\"css\"]]\na { b: c }\n[[/code]]", "[[html]]\n<b>\n[[/html]]", "[[math x]]\ny\n[[/math]]\n\nx [[eref x]]", "[[iframe https://example.com/]]", "[[module Rate]]", "[[module Join button=\"x\" id=\"q\"]]", "[[checkbox *]] [[radio x id=\"r\"]]", "{$x} [[include-elements y]]", "[[embed]]youtube abc[[/embed]]", "[[a href=\"/other\"]]x[[/a]]", "[#x y] [/other z]",
    "[[[zq-two]]] [[[:zq-two:x|]]] [[[:zq-two:zq-two | y]]]", "[[image zq-two/a.png]] [[image zq-two/zq-two/a.png]]", "[/zq-two x] [https://zq-two.wikijump.com/y z] [[a href=\"/zq-two\"]]x[[/a]]", "[[include-elements :zq-two:zq-two]]", "[[user zq-two]] zq-two", "[[[zq-two|]]] [[image x.png link=\"zq-two\"]]",
    "[[image a.png id=\"i\"]]", "[[ul id=\"l\"]]\n[[li id=\"m\"]]x[[/li]]\n[[/ul]]", "[[table id=\"t\"]]\n[[row id=\"r\"]]\n[[cell id=\"c\"]]x[[/cell]]\n[[/row]]\n[[/table]]",
];

struct All {
    tree: SyntaxTree<'static>,
    errors: Vec<ParseError>,
    body: String,
    meta: Value,
    backlinks: Backlinks<'static>,
    text: String,
}

fn all(t: &str, info: &PageInfo<'_>, settings: &WikitextSettings) -> All {
    let (tree, errors) = parse_raw(t, info, settings);
    let out = html(&tree, info, settings);
    All { body: stable_html(&out.body), meta: to_value(&out.meta), backlinks: out.backlinks, text: text(&tree, info, settings), tree, errors }
}

/// All but the metadata and HTML.
fn same(what: &'static str, a: &All, b: &All) -> Outcome {
    check!(a.tree == b.tree, what, "the tree differs: {}", diff(&to_value(&a.tree), &to_value(&b.tree)));
    check!(a.errors == b.errors, what, "the errors differ: {:?}, {:?}", a.errors, b.errors);
    check!(a.text == b.text, what, "the text differs: {:?}, {:?}", a.text, b.text);
    Ok(())
}

fn nodes(body: &str) -> Result<Vec<Node>, Failure> {
    strict::parse(body).map(strict::merge_text).map_err(|e| Failure::new("malformed", format!("{e}\n{body}")))
}

fn map(ns: Vec<Node>, f: &mut impl FnMut(El) -> El) -> Vec<Node> {
    ns.into_iter()
        .map(|n| match n {
            Node::El(e) => {
                let mut e = f(e);
                e.children = map(std::mem::take(&mut e.children), f);
                Node::El(e)
            }
            t => t,
        })
        .collect()
}

fn isolate(v: &mut Value, n: &mut usize) {
    match v {
        Value::Object(o) => {
            if let Some(id) = o.get_mut("attributes").and_then(|a| a.get_mut("id")) {
                *id = json!(attrs::isolate(id.as_str().unwrap_or("")));
                *n += 1;
            }
            if o.get("element").is_some_and(|e| e == "anchor-name") {
                o["data"] = json!(attrs::isolate(o["data"].as_str().unwrap_or("")));
                *n += 1;
            }
            o.values_mut().for_each(|x| isolate(x, n));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| isolate(x, n)),
        _ => (),
    }
}

fn local(e: &El) -> bool {
    e.has_class("wj-image-container") && !strict::find_all(&e.children, |i| i.attr("src").is_some_and(|s| s.contains(".wjfiles.com/local--files/"))).is_empty()
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut t = String::new();
    for i in 0..src.range(1, 5) {
        if i > 0 {
            t += "\n\n";
        }
        match src.weighted(&[12, 2, 2, 1]) {
            0 => {
                let piece = src.pick_str(PIECES);
                t += &crate::contexts::place(src, piece, piece.contains('\n') || piece.starts_with('+')).text;
            }
            1 => t += &model::doc(src, 2).text,
            2 => t += &gen::tidy(src),
            _ => t += &gen::soup(src),
        }
    }
    let t = prep(&t);
    let info = gen_info(src);
    let settings = gen_settings(src);
    let aspect = src.below(13);
    announce(src, cx, &format!("{aspect} {t}"));
    let lower = t.to_ascii_lowercase();
    let a = all(&t, &info, &settings);
    let mut s = settings.clone();
    let mut i = info.clone();
    match aspect {
        0 => {
            cx.label("minify");
            s.minify_css = !s.minify_css;
            let b = all(&t, &info, &s);
            same("minify", &a, &b)?;
            check!(a.meta == b.meta && a.backlinks == b.backlinks, "minify", "metadata or links differ");
            let mut styles = 0;
            let mut clear = |mut e: El| {
                if e.tag == "style" {
                    styles += 1;
                    e.children.clear();
                    e.raw.clear();
                }
                e
            };
            let (x, y) = (map(nodes(&a.body)?, &mut clear), map(nodes(&b.body)?, &mut clear));
            check!(x == y, "minify", "the HTML differs besides styles:\n{}\n{}", a.body, b.body);
            cx.nontrivial_if(styles > 0);
        }
        1 => {
            cx.label("true IDs");
            s.use_true_ids = !s.use_true_ids;
            let b = all(&t, &info, &s);
            same("true-ids", &a, &b)?;
            check!(a.meta == b.meta && a.backlinks == b.backlinks, "true-ids", "metadata or links differ");
            let mut ids = 0;
            let mut clear = |mut e: El| {
                let made = |v: &str| v.starts_with("wj-id-") || v.starts_with("wj-toc") || v.starts_with("toc");
                for (k, v) in &mut e.attrs {
                    let v = v.get_or_insert_default();
                    if matches!(k.as_str(), "id" | "aria-controls" | "aria-labelledby") || k == "href" && v.strip_prefix('#').is_some_and(made) {
                        let kept: Vec<&str> = v.split(' ').filter(|w| !made(w.trim_start_matches('#'))).collect();
                        ids += (kept.join(" ") != *v) as usize;
                        *v = kept.join(" ");
                    }
                }
                e.attrs.retain(|(k, v)| k != "id" || v.as_deref() != Some(""));
                e.attrs.sort();
                e
            };
            let (x, y) = (map(nodes(&a.body)?, &mut clear), map(nodes(&b.body)?, &mut clear));
            check!(x == y, "true-ids", "the HTML differs besides generated IDs:\n{}\n{}", a.body, b.body);
            cx.nontrivial_if(ids > 0);
        }
        2 => {
            cx.label("local paths");
            s.allow_local_paths = !s.allow_local_paths;
            let b = all(&t, &info, &s);
            same("local-paths", &a, &b)?;
            check!(a.meta == b.meta, "local-paths", "metadata differs");
            let (on, off) = if s.allow_local_paths { (&b, &a) } else { (&a, &b) };
            let mut files = 0;
            let x = map(nodes(&on.body)?, &mut |mut e: El| {
                if local(&e) {
                    files += 1;
                    e.attrs = vec![("class".into(), Some("wj-error-block".into()))];
                    e.children = vec![Node::Text("No images in this context".into())];
                }
                e
            });
            let y = nodes(&off.body)?;
            check!(x == y, "local-paths", "the HTML differs besides images of local files:\n{}\n{}", on.body, off.body);
            check!(on.backlinks.internal_links.len() >= off.backlinks.internal_links.len() && on.backlinks.included_pages == off.backlinks.included_pages, "local-paths", "links differ");
            cx.nontrivial_if(files > 0);
        }
        3 => {
            cx.label("layout");
            s.layout = match s.layout {
                Layout::Wikidot => Layout::Wikijump,
                Layout::Wikijump => Layout::Wikidot,
            };
            let b = all(&t, &info, &s);
            same("layout", &a, &b)?;
            check!(a.body == b.body && a.backlinks == b.backlinks, "layout", "the HTML differs:\n{}\n{}", a.body, b.body);
            check!(besides(&a.meta, "generator") == besides(&b.meta, "generator"), "layout", "metadata besides the generator differs: {} {}", a.meta, b.meta);
            cx.nontrivial_if(a.body.matches("</").count() >= 4);
        }
        4 => {
            cx.label("isolated IDs");
            let mut off = settings.clone();
            (off.isolate_user_ids, s.isolate_user_ids) = (false, true);
            let (x, y) = (all(&t, &info, &off), all(&t, &info, &s));
            let mut v = to_value(&x.tree);
            let mut n = 0;
            isolate(&mut v, &mut n);
            check!(v == to_value(&y.tree), "isolate", "the tree differs besides IDs of users: {}", diff(&v, &to_value(&y.tree)));
            check!(x.errors == y.errors && x.text == y.text && x.meta == y.meta && x.backlinks == y.backlinks, "isolate", "text, links or metadata differ");
            // It is for parsing only.
            let out = html(&y.tree, &info, &off);
            check!(stable_html(&out.body) == y.body, "isolate", "the HTML of the same tree differs:\n{}\n{}", out.body, y.body);
            cx.nontrivial_if(n > 0);
        }
        5 => {
            cx.label("syntax");
            // These are for parsing only.
            s.enable_page_syntax = !s.enable_page_syntax;
            s.use_include_compatibility = !s.use_include_compatibility;
            s.interwiki = InterwikiSettings::new();
            let out = html(&a.tree, &info, &s);
            check!(stable_html(&out.body) == a.body && to_value(&out.meta) == a.meta && out.backlinks == a.backlinks, "syntax", "the HTML of the same tree differs:\n{}\n{}", out.body, a.body);
            check!(text(&a.tree, &info, &s) == a.text, "syntax", "the text of the same tree differs");
            s = settings.clone();
            s.use_include_compatibility = !s.use_include_compatibility;
            let b = all(&t, &info, &s);
            same("syntax", &a, &b)?;
            cx.nontrivial_if(lower.contains("module") || lower.contains("toc") || lower.contains("include") || t.contains("wikipedia:"));
        }
        6 => {
            cx.label("interwiki");
            let kept: Vec<String> = s.interwiki.prefixes.keys().filter(|k| t.contains(&format!("{k}:"))).map(|k| k.to_string()).collect();
            s.interwiki.prefixes.retain(|k, _| kept.iter().any(|x| x == k));
            s.interwiki.prefixes.insert(Cow::Borrowed("zqzq"), Cow::Borrowed("https://zqzq.example.com/$$"));
            let b = all(&t, &info, &s);
            same("interwiki", &a, &b)?;
            check!(a.body == b.body && a.meta == b.meta && a.backlinks == b.backlinks, "interwiki", "the HTML differs:\n{}\n{}", a.body, b.body);
            cx.nontrivial_if(!kept.is_empty());
        }
        7 => {
            cx.label("title");
            i.title = Cow::Borrowed(src.pick_str(&["Title zq", "", "[[toc]]", "</wj-body>"]));
            i.alt_title = src.bool().then_some(Cow::Borrowed("Other <zq>"));
            let b = all(&t, &i, &settings);
            same("title", &a, &b)?;
            check!(a.body == b.body && a.backlinks == b.backlinks, "title", "the HTML differs:\n{}\n{}", a.body, b.body);
            check!(besides(&a.meta, "description") == besides(&b.meta, "description"), "title", "metadata besides the description differs: {} {}", a.meta, b.meta);
            cx.nontrivial_if(a.meta != b.meta && a.body.matches("</").count() >= 4);
        }
        8 => {
            cx.label("score");
            i.score = if src.bool() { ScoreValue::Float(-2.5) } else { ScoreValue::Integer(99) };
            i.language = Cow::Borrowed(src.pick_str(&["en", "de", "", "zq"]));
            let b = all(&t, &i, &settings);
            // In another language, messages may be different ones.
            same("score", &a, &b)?;
            check!(a.body == b.body && a.meta == b.meta && a.backlinks == b.backlinks, "score", "the HTML differs:\n{}\n{}", a.body, b.body);
            cx.nontrivial_if(a.body.matches("</").count() >= 4);
        }
        9 => {
            cx.label("tags");
            i.tags.push(Cow::Borrowed("zqtag"));
            if src.bool() {
                i.tags.reverse();
            }
            if src.bool() {
                let again = i.tags[0].clone();
                i.tags.push(again);
            }
            if !lower.contains("iftags") {
                i.tags.retain(|t| t != "scp");
            }
            let b = all(&t, &i, &settings);
            same("tags", &a, &b)?;
            check!(a.body == b.body && a.backlinks == b.backlinks, "tags", "the HTML differs:\n{}\n{}", a.body, b.body);
            check!(besides(&a.meta, "keywords") == besides(&b.meta, "keywords"), "tags", "metadata besides the keywords differs: {} {}", a.meta, b.meta);
            cx.nontrivial_if(lower.contains("iftags"));
        }
        10 => {
            cx.label("category");
            let mut j = info.clone();
            if src.bool() {
                let tag = src.pick_str(&["zqcat", "zqother", "_default"]);
                i.tags.push(Cow::Borrowed(tag));
                j.tags.push(Cow::Borrowed(tag));
            }
            i.category = Some(Cow::Borrowed("zqcat"));
            j.category = if lower.contains("ifcategory") { Some(Cow::Borrowed("zqother")) } else { None };
            let (x, y) = (all(&t, &i, &settings), all(&t, &j, &settings));
            same("category", &x, &y)?;
            check!(x.body == y.body && x.meta == y.meta && x.backlinks == y.backlinks, "category", "the HTML differs:\n{}\n{}", x.body, y.body);
            // The name of the default one.
            if info.category.is_none() {
                i.category = Some(Cow::Borrowed("_default"));
                j.category = None;
                let (a, b) = (all(&t, &j, &settings), all(&t, &i, &settings));
                same("category", &a, &b)?;
                check!(a.body == b.body && a.meta == b.meta, "category", "the HTML differs:\n{}\n{}", a.body, b.body);
            }
            cx.nontrivial_if(lower.contains("ifcategory"));
        }
        _ => {
            let site = aspect == 12;
            cx.label(if site { "site" } else { "page" });
            let mut j = info.clone();
            let (from, to) = ("zq-one", "zq-two");
            if site {
                i.site = Cow::Borrowed(from);
                j.site = Cow::Borrowed(to);
            } else {
                i.page = Cow::Borrowed(from);
                j.page = Cow::Borrowed(to);
            }
            let (x, y) = (all(&t, &i, &settings), all(&t, &j, &settings));
            // The table of contents has texts, of links as well.
            let mut v = to_value(&x.tree);
            let toc = &mut v["table-of-contents"];
            *toc = serde_json::from_str(&toc.to_string().replace(from, to)).unwrap();
            check!(v == to_value(&y.tree) && x.errors == y.errors, "page", "the tree differs: {}", diff(&v, &to_value(&y.tree)));
            check!(x.meta == y.meta && x.backlinks == y.backlinks, "page", "links or metadata differ: {:?} {:?}", x.backlinks, y.backlinks);
            check!(x.text.replace(from, to) == y.text, "page", "the text differs besides the name: {:?} {:?}", x.text, y.text);
            check!(x.body.replace(from, to) == y.body, "page", "the HTML differs besides the name:\n{}\n{}", x.body, y.body);
            if !site {
                check!(x.text == y.text, "page", "the text differs: {:?} {:?}", x.text, y.text);
                // It is only a part of addresses of files.
                let files = x.body.matches(&format!(".wjfiles.com/local--files/{from}/")).count();
                check!(x.body.matches(from).count() == files, "page", "the name of the page is shown elsewhere: {}", x.body);
            }
            cx.nontrivial_if(x.body.contains(from));
        }
    }
    Ok(())
}

fn besides(meta: &Value, name: &str) -> Vec<Value> {
    meta.as_array().unwrap().iter().filter(|m| m["name"] != name).cloned().collect()
}
