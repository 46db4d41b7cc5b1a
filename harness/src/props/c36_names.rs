//! C36: values are called by their names, and by no others.

use crate::common::*;
use crate::engine::*;
use crate::htmlmodel::is_url;
use crate::{check, fail, gen, treegen};
use ftml::data::{KarmaLevel, ScoreValue};
use ftml::layout::Layout;
use ftml::parsing::ParseOutcome;
use ftml::tree::*;
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C36",
    quick_cases: 150_000,
    thorough_cases: 2_000_000,
    budget: 200_000,
    over_budget: OverBudget::Discard,
    rule: "a text that is a name, or differs from one by one change",
    assumptions: &[],
    run,
};

/// Names that only differ in how their words are joined.
fn same(name: &str, json: &str) -> bool {
    let plain = |s: &str| s.chars().filter(|c| *c != '-').collect::<String>().to_ascii_lowercase();
    plain(name) == plain(json)
}

/// The type that an externally tagged JSON value has.
fn kind(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Object(m) => m.keys().next().cloned().unwrap_or_default(),
        _ => String::new(),
    }
}

fn near(src: &mut Src, names: &[&'static str]) -> (String, bool) {
    let name = src.pick_str(names);
    let mut chars: Vec<char> = name.chars().collect();
    let at = src.below(chars.len() + 1);
    match src.below(10) {
        0..=2 => {}
        3 => chars = chars.iter().map(|c| if src.bool() { c.to_ascii_uppercase() } else { *c }).collect(),
        4 => chars.insert(at, *src.pick(&['_', ' ', '<', '=', 'f', '+', '*', '-', '\u{212a}', 's', '\u{17f}', '1', '\0'])),
        5 if at < chars.len() => {
            chars.remove(at);
        }
        6 if at < chars.len() => chars[at] = *src.pick(&['_', ' ', '<', '=', '>', 'F', '+', '*', '-', 'k', '\u{212a}', '\u{17f}', 'ı']),
        7 => {
            let other = src.pick_str(names);
            chars.extend(other.chars());
        }
        8 => return (gen::letters(src), false),
        _ => chars.truncate(at),
    }
    (chars.into_iter().collect(), true)
}

fn lower(s: &str) -> String {
    s.chars().map(|c| c.to_ascii_lowercase()).collect()
}

fn texts(src: &mut Src, cx: &mut Cx) -> Outcome {
    let names = [
        "wikidot", "wikijump", "<", ">", "=", "==", "f<", "f>", "F<", "F>", "f=", "blank", "_blank", "parent", "_parent", "top", "_top",
        "self", "_self", "same", "_same", "direct", "page", "interwiki", "anchor", "table-of-contents", "+", "++", "+++", "++++", "+++++", "++++++",
        "+*", "++*", "++++++*", "*",
    ];
    let (t, close) = near(src, &names);
    cx.set_input(t.clone());
    cx.nontrivial_if(close);
    let l = lower(&t);

    let layout = match l.as_str() {
        "wikidot" => Some(Layout::Wikidot),
        "wikijump" => Some(Layout::Wikijump),
        _ => None,
    };
    check!(t.parse::<Layout>().ok() == layout, "layout", "{t:?}");
    let align = match t.as_str() {
        "<" => Some("left"),
        ">" => Some("right"),
        "=" => Some("center"),
        "==" => Some("justify"),
        _ => None,
    };
    check!(Alignment::try_from(t.as_str()).ok().map(Alignment::name) == align, "alignment", "{t:?}");
    let float = |t: &str| match t {
        "<" => Some(("left", false)),
        ">" => Some(("right", false)),
        "=" => Some(("center", false)),
        "f<" | "F<" => Some(("left", true)),
        "f>" | "F>" => Some(("right", true)),
        _ => None,
    };
    let of = |f: FloatAlignment| (f.align.name(), f.float);
    check!(FloatAlignment::try_from(t.as_str()).ok().map(of) == float(&t), "float", "{t:?}");
    // Of an image block it is what the name begins with.
    let first: String = t.chars().take(if t.starts_with(['f', 'F']) { 2 } else { 1 }).collect();
    let parsed = FloatAlignment::parse(&t).map(of);
    check!(parsed == float(&first), "float-prefix", "{t:?}: {parsed:?}");
    let target = match l.strip_prefix('_').unwrap_or(&l) {
        "blank" => Some(AnchorTarget::NewTab),
        "parent" => Some(AnchorTarget::Parent),
        "top" => Some(AnchorTarget::Top),
        "self" => Some(AnchorTarget::Same),
        _ => None,
    };
    check!(AnchorTarget::try_from(t.as_str()).ok() == target, "target", "{t:?}");
    if let Some(x) = target {
        check!(AnchorTarget::try_from(x.html_attr()) == Ok(x), "target-attribute", "{x:?}: {}", x.html_attr());
    }
    let ltypes = [LinkType::Direct, LinkType::Page, LinkType::Interwiki, LinkType::Anchor, LinkType::TableOfContents];
    let ltype = ltypes.into_iter().find(|x| to_value(x) == json!(t));
    check!(LinkType::try_from(t.as_str()).ok() == ltype, "link-type", "{t:?}");
    let plus = t.bytes().take_while(|b| *b == b'+').count();
    let rest = &t[plus..];
    if rest.is_empty() || rest == "*" {
        let h = Heading::try_from(t.as_str()).ok().map(|h| (h.level.value() as usize, h.has_toc));
        check!(h == (1..=6).contains(&plus).then_some((plus, rest.is_empty())), "heading", "{t:?}: {h:?}");
    }
    Ok(())
}

fn values(src: &mut Src, cx: &mut Cx) -> Outcome {
    let n = if src.bool() { src.below(9) } else { src.below(300) };
    cx.set_input(n.to_string());
    cx.nontrivial_if(n < 9);
    for l in [Layout::Wikidot, Layout::Wikijump] {
        check!(to_value(&l) == json!(l.value()) && l.value().parse::<Layout>().ok() == Some(l), "layout-name", "{l:?}");
        check!(l.legacy() == (l == Layout::Wikidot), "legacy", "{l:?}");
        check!(lower(l.description()).starts_with(l.value()), "description", "{l:?}");
    }
    for a in [Alignment::Left, Alignment::Right, Alignment::Center, Alignment::Justify] {
        check!(to_value(&a) == json!(a.name()), "alignment-name", "{a:?}");
        check!(a.html_class() == format!("wj-align-{}", a.name()), "alignment-class", "{a:?}");
        for float in [true, false] {
            let class = FloatAlignment { align: a, float }.html_class();
            check!(class == format!("wj-{}-{}", if float { "float" } else { "align" }, a.name()), "float-class", "{a:?} {float}: {class}");
        }
    }
    for c in [ClearFloat::Left, ClearFloat::Right, ClearFloat::Both] {
        check!(to_value(&c).as_str().map(|n| format!("wj-clear-float-{n}")).as_deref() == Some(c.html_class()), "clear", "{c:?}");
    }
    for t in [AnchorTarget::NewTab, AnchorTarget::Parent, AnchorTarget::Top, AnchorTarget::Same] {
        check!(same(t.name(), to_value(&t).as_str().unwrap_or("")), "target-name", "{t:?}");
        check!(AnchorTarget::try_from(t.html_attr()) == Ok(t) && t.html_attr().starts_with('_'), "target-attribute", "{t:?}: {}", t.html_attr());
    }
    for t in [ListType::Bullet, ListType::Numbered, ListType::Generic] {
        check!(same(t.name(), to_value(&t).as_str().unwrap_or("")), "list-name", "{t:?}");
    }
    let level = HeadingLevel::try_from(n).ok();
    check!(level.map(|l| l.value() as usize) == (1..=6).contains(&n).then_some(n), "level", "{n}");
    if let Some(l) = level {
        check!(HeadingLevel::try_from(n as u8) == Ok(l), "level-u8", "{n}");
        check!(l.prefix() == "+".repeat(n) && l.prefix_with_space() == format!("{} ", l.prefix()), "level-prefix", "{n}");
        check!(l.html_tag() == format!("h{n}") && to_value(&l) == json!(n), "level-tag", "{n}");
    } else if n < 256 {
        check!(HeadingLevel::try_from(n as u8).is_err(), "level-u8", "{n}");
    }
    if let Ok(b) = u8::try_from(n) {
        let k = KarmaLevel::new(b);
        check!(k.map(|k| k.value()) == (b <= 5).then_some(b), "karma", "{b}");
        check!(KarmaLevel::try_from(b) == k.ok_or(b), "karma-try", "{b}");
        if let Some(k) = k {
            check!(to_value(&k) == json!(b) && k.to_string() == b.to_string(), "karma-json", "{b}");
        }
        check!(serde_json::from_value::<KarmaLevel>(json!(b)).ok() == k, "karma-from-json", "{b}");
    }
    let i = src.below(1 << 30) as i64 - (1 << 29);
    let f = i as f64 / 64.0;
    for (s, j, x) in [(ScoreValue::from(i), json!(i), i as f64), (ScoreValue::from(f), json!(f), f)] {
        check!(s.to_f64() == x && to_value(&s) == j, "score", "{s:?} {x}");
        check!(serde_json::from_value::<ScoreValue>(j).ok() == Some(s), "score-json", "{s:?}");
    }
    let source: String = (0..src.below(7)).map(|_| src.pick_str(&["/", "/", "a", "é.png", "", "//", "https://x.y/z", "http://", ":", "b c"])).collect();
    cx.set_input(format!("{n} {source}"));
    let is = ImageSource::parse(&source).map(|s| to_value(&s));
    let parts: Vec<&str> = source.strip_prefix('/').unwrap_or(&source).split('/').collect();
    let expected = if is_url(&source) {
        Some(json!({"type": "url", "data": source}))
    } else {
        match parts.as_slice() {
            [f] => Some(json!({"type": "file1", "data": {"file": f}})),
            [p, f] => Some(json!({"type": "file2", "data": {"page": p, "file": f}})),
            [s, p, f] => Some(json!({"type": "file3", "data": {"site": s, "page": p, "file": f}})),
            _ => None,
        }
    };
    check!(is == expected, "image-source", "{source:?}\n  expected {expected:?}\n  actual {is:?}");
    if let Some(s) = ImageSource::parse(&source) {
        check!(same(s.name(), to_value(&s)["type"].as_str().unwrap_or("")), "source-name", "{source:?}");
    }
    Ok(())
}

fn named(e: &Element, count: &mut usize) -> Outcome {
    *count += 1;
    let v = to_value(e);
    let element = v["element"].as_str().unwrap_or("");
    let data = &v["data"];
    let json = match e {
        Element::Container(c) => {
            for e in c.elements() {
                named(e, count)?;
            }
            let k = kind(&data["type"]);
            check!(same(c.ctype().name(), &k), "container-name", "{} {v}", c.ctype().name());
            k
        }
        Element::Module(_) => data["module"].as_str().unwrap_or("").to_string(),
        Element::Embed(x) => {
            check!(same(x.name(), data["embed"].as_str().unwrap_or("")), "embed-name", "{} {v}", x.name());
            let d = &data["data"];
            let get = |k: &str| d[k].as_str().unwrap_or("");
            let url = match x {
                Embed::Youtube { .. } => format!("https://youtu.be/{}", get("video-id")),
                Embed::Vimeo { .. } => format!("https://vimeo.com/{}", get("video-id")),
                Embed::GithubGist { .. } => format!("https://gist.github.com/{}/{}", get("username"), get("hash")),
                Embed::GitlabSnippet { .. } => format!("https://gitlab.com/-/snippets/{}", get("snippet-id")),
            };
            check!(x.direct_url() == url, "embed-url", "{} {v}", x.direct_url());
            element.to_string()
        }
        Element::Image { source, .. } => {
            check!(same(source.name(), data["source"]["type"].as_str().unwrap_or("")), "source-name", "{} {v}", source.name());
            element.to_string()
        }
        Element::Link { ltype, .. } => {
            check!(json!(ltype.name()) == data["type"], "link-name", "{} {v}", ltype.name());
            element.to_string()
        }
        _ => element.to_string(),
    };
    if !same(e.name(), &json) {
        fail!("element-name", "{} {v}", e.name());
    }
    Ok(())
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    match src.weighted(&[6, 4, 1, 1]) {
        0 => texts(src, cx),
        1 => values(src, cx),
        2 => {
            let json = treegen::tree(src);
            let tree: SyntaxTree = match serde_json::from_value(json.clone()) {
                Ok(t) => t,
                Err(e) => fail!("harness", "{e} {json}"),
            };
            cx.set_input(json.to_string());
            let mut n = 0;
            for e in &tree.elements {
                named(e, &mut n)?;
            }
            cx.nontrivial_if(n > 2);
            cx.label("tree");
            Ok(())
        }
        _ => {
            let input = gen::document(src);
            announce(src, cx, &input);
            let text = prep(&input);
            let settings = page_settings();
            let info = info();
            let tokens = ftml::tokenize(&text);
            for t in tokens.tokens() {
                check!(same(t.token.name(), to_value(&t.token).as_str().unwrap_or("")), "token-name", "{:?}", t.token);
            }
            let outcome = ftml::parse(&tokens, &info, &settings);
            for e in outcome.errors() {
                check!(same(e.kind().name(), to_value(e)["kind"].as_str().unwrap_or("")), "error-name", "{e:?}");
            }
            for e in &outcome.value().elements {
                named(e, &mut 0)?;
            }
            cx.nontrivial_if(!outcome.errors().is_empty());
            cx.label("document");
            let copy = outcome.clone();
            check!(copy == outcome, "outcome-clone", "the copy of an outcome is not equal to it");
            let (value, errors) = (to_value(outcome.value()), outcome.errors().to_vec());
            let (tree, list) = outcome.into();
            check!(to_value(&tree) == value && list == errors, "outcome-parts", "the parts of an outcome are not what it has");
            let mut o = ParseOutcome::new(vec![1], list);
            o.push(2);
            check!(o.value() == &vec![1, 2] && o.errors() == errors, "outcome-push", "{o:?}");
            Ok(())
        }
    }
}
