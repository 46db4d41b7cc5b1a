//! C24: links and images lead to what is written in them.

use crate::attrs::quote;
use crate::common::*;
use crate::engine::*;
use crate::{check, gen, htmlmodel, links};
use serde_json::{json, Value};
use std::borrow::Cow;

pub const PROP: Property = Property {
    id: "C24",
    quick_cases: 150_000,
    thorough_cases: 4_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "at least two links or images, one of them with more than a plain page name",
    assumptions: &[],
    run,
};

fn target(src: &mut Src) -> String {
    let name = |src: &mut Src| -> String {
        match src.below(5) {
            0 => src.pick_str(&["SCP-173", "scp 173", "Über", "日本", "a_b", "_x", "_default", "a--b", "-a-", "x.y", "C++", "a:b", "A&B", "50%", "<b>", "'q'", "...", "!", "a,b", "u@v", "=", "*x", "$x", "{v}", "a  b", "some-page", "Some page"]).into(),
            1 => gen::words(src, 3),
            _ => gen::ident(src),
        }
    };
    let mut t = match src.weighted(&[4, 2, 2, 1, 2, 2, 2, 1, 1]) {
        0 => name(src),
        1 => format!("{}:{}", name(src), name(src)),
        2 => format!(":{}:{}", src.pick_str(&["scp-wiki", "x", "site-19", " s ", "sandbox"]), name(src)),
        3 => format!(":{}:{}:{}", src.pick_str(&["scp-wiki", "x"]), gen::ident(src), name(src)),
        4 => format!("/{}", name(src)),
        5 => format!(
            "{}{}",
            src.pick_str(&["https://", "http://", "ftp://", "mailto:", "blob:", "file://", "chrome-extension://", "dns:", "rtmp://", "ircs://", "irc6://", "sftp://", "feed:", "HTTP://", "https:", "tel:", "git://", "javascript:", "data:", "resource://"]),
            src.pick_str(&["example.com", "example.com/a?b=c&d", "a@b.c", "x/y#z", "", "é", "a'b"])
        ),
        6 => src
            .pick_str(&[":", "::", "::page", ":site", ":site:", " : a : b ", "#", "#top", "#Toc 1", "/", "//", "//x/y", "javascript:;", "javascript:;/x", "/javascript:x", "category: Page Name", "a:", ":a:b:c:d", "category :x", ": /x", ":site #y", ":: /", " :/"])
            .into(),
        7 => format!("_{}", name(src)),
        _ => "javascript:;".into(),
    };
    if src.chance(1, 3) {
        for _ in 0..src.range(1, 2) {
            t += src.pick_str(&["/edit", "/", "/a/b", "#top", "#", "/norender/true", "#a/b", "/a#b#c", "/ x", "# y"]);
        }
    }
    t
}

fn link(ltype: &str, link: Value, extra: Option<String>, label: Value, target: Option<&str>) -> Value {
    json!({"element": "link", "data": {"type": ltype, "link": link, "extra": extra, "label": label, "target": target}})
}

fn normalize(s: &str) -> String {
    let mut s = s.to_string();
    wikidot_normalize::normalize(&mut s);
    s
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut settings = page_settings();
    settings.allow_local_paths = src.bool();
    let mut prefixes: Vec<(String, String)> = vec![];
    if src.bool() {
        let pool = [("wp", "https://wikipedia.org/wiki/$$"), ("x", "http://x.y/$$?q=$$"), ("scp-wiki", "/wiki:$$"), ("é", "$$"), ("a b", "https://e.com/ $$"), ("W", "https://no.place/"), ("wp ", "https://blank.org/$$"), ("http", "https://h.org/$$")];
        for (k, v) in pool {
            if src.bool() {
                prefixes.push((k.into(), v.into()));
            }
        }
        settings.interwiki.prefixes = prefixes.iter().map(|(k, v)| (Cow::Owned(k.clone()), Cow::Owned(v.clone()))).collect();
    } else {
        prefixes = settings.interwiki.prefixes.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    }
    let mut text = String::from("x ");
    let mut want = vec![text_el("x ")];
    let n = src.range(1, 4);
    let mut special = false;
    for i in 0..n {
        let star = src.chance(1, 4);
        let new = star.then_some("new-tab");
        let mark = if star { "*" } else { "" };
        let label = src.pick_str(&["label", "a **b** c", "é", "[[x", "x|y", "\"q\"", "<b>", "@@r@@", "##red|x##", "a  b", "&amp;", "//i//", "*x", "#1", "/", "http://l.com"]).to_string();
        let pad = |src: &mut Src| src.pick_str(&["", "", " ", "  "]);
        match src.weighted(&[6, 3, 3, 3, 2, 2, 4]) {
            0 => {
                let t = target(src);
                let u = t.trim();
                let (l, r) = (pad(src), pad(src));
                special |= u.contains([':', '/', '#']);
                let blocked = u.is_empty() || u.starts_with('!') || u.contains(['|', ']', '[', '\n']) || (!star && l.is_empty() && t.starts_with(['*', '[']));
                if blocked || (l.is_empty() && t.starts_with('[')) {
                    cx.discarded = true;
                    return Ok(());
                }
                let (shown, l2) = match src.below(3) {
                    0 => (String::new(), json!({"url": links::bare_label(u)})),
                    1 => (format!("|{}", pad(src)), json!("page")),
                    _ => (format!("|{}{label}{}", pad(src), pad(src)), json!({"text": label})),
                };
                text += &format!("[[[{mark}{l}{t}{r}{shown}]]]");
                let loc = links::location(u);
                let ltype = if loc.is_string() { "direct" } else { "page" };
                want.push(link(ltype, loc, links::extra(u), l2, new));
            }
            1 => {
                // Interwiki.
                let prefix = src.pick_str(&["wp", "wikipedia", "x", "google", "scp-wiki", "é", "a b", "W", "WP", "none", "ddg", "commons", "", "wp ", "x ", " x", "http"]);
                let path = src.pick_str(&["Apple", "a b c", "x/y", "x#y", "a:b", ":", "", "é", "a//b#c#d", "$$x", "'", "<b>", "javascript:x"]);
                let u = format!("{prefix}:{path}");
                special = true;
                let (shown, l2) = match src.below(3) {
                    0 => (String::new(), json!({"url": links::bare_label(&format!("!{u}"))})),
                    1 => ("|".into(), json!("page")),
                    _ => (format!("|{label}"), json!({"text": label})),
                };
                match links::interwiki(&prefixes, u.trim_end()) {
                    Some(url) => {
                        text += &format!("[[[{mark}!{u}{shown}]]]");
                        want.push(link("interwiki", json!(url), None, l2, new));
                    }
                    None => {
                        cx.label("unknown interwiki");
                        if path.contains("//") || shown.len() > 1 {
                            cx.discarded = true;
                            return Ok(());
                        }
                        // Nothing to link to: the text stays.
                        let t = format!("[[[{mark}!{u}{shown}]]]");
                        want.push(text_el(&t));
                        text += &t;
                    }
                }
            }
            2 => {
                let t = target(src);
                let label = label.replace(']', "").replace('[', "");
                if t.contains([' ', ']', '[', '\n', '\t']) || !(htmlmodel::is_url(&t) || t.starts_with('/')) {
                    cx.discarded = true;
                    return Ok(());
                }
                special = true;
                text += &format!("[{mark}{t} {}{label}{}]", pad(src), pad(src));
                want.push(link("direct", json!(t), None, json!({"text": label.trim()}), new));
            }
            3 => {
                let name = src.pick_str(&["top", "Toc0", "a_b", "", "é x", "u-x", "A/B", "a:b", "javascript:x", "_a", "1", "-"]);
                let name = name.replace(' ', "");
                let url = if name.is_empty() { "javascript:;".to_string() } else { format!("#{}", normalize(&name)) };
                let label = label.replace(']', "").replace('[', "");
                text += &format!("[#{name} {}{label}{}]", pad(src), pad(src));
                want.push(link("anchor", json!(url), None, json!({"text": label.trim()}), None));
            }
            4 => {
                let u = src.pick_str(&["https://example.com/", "http://example.com/a?b=c&d=e#f", "ftp://x.y/z", "https://日本.jp/", "http://a.b/c_d/e~f", "https://x.y/(z)", "mailto:a", "https://a.b/%20"]);
                if u.starts_with("mailto") {
                    text += "y";
                    want.push(text_el("y"));
                } else {
                    text += u;
                    want.push(link("direct", json!(u), None, json!({"url": null}), None));
                }
            }
            5 => {
                // Not a link.
                let t = src.pick_str(&["[not a link]", "[page label]", "[[[]]]", "[[[ ]]]", "[*x y]", "[javascript:x y]", "[data:x y]", "[x.com y]", "[[[|x]]]"]);
                text += t;
                want.push(text_el(t));
                special = true;
            }
            _ => {
                let (align, float) = *src.pick(&[("", ""), ("=", "center"), ("<", "left"), (">", "right"), ("f<", "left+"), ("f>", "right+")]);
                let source = match src.below(5) {
                    0 => src.pick_str(&["https://example.com/a.png", "http://x.y/z/w/v.gif", "blob:x", "ftp://a/b"]).to_string(),
                    1 => format!("{}.png", gen::ident(src)),
                    2 => format!("{}/a.png", gen::ident(src)),
                    3 => format!("site/{}/b.png", gen::ident(src)),
                    _ => src.pick_str(&["/a.png", "/p/a.png", "/s/p/a.png", "a:b/c.png", "é.png", "//a.png", "javascript:x", "data:image/png;x", "a.png?x"]).to_string(),
                };
                let slot: Value = if htmlmodel::is_url(&source) {
                    json!({"type": "url", "data": source})
                } else {
                    let parts: Vec<&str> = source.strip_prefix('/').unwrap_or(&source).split('/').collect();
                    match parts[..] {
                        [f] => json!({"type": "file1", "data": {"file": f}}),
                        [p, f] => json!({"type": "file2", "data": {"page": p, "file": f}}),
                        [s, p, f] => json!({"type": "file3", "data": {"site": s, "page": p, "file": f}}),
                        _ => {
                            cx.discarded = true;
                            return Ok(());
                        }
                    }
                };
                let t = src.chance(1, 2).then(|| target(src));
                let t = t.map(|t| t[..t.find(['/', '#']).filter(|_| !htmlmodel::is_url(&t) && !t.starts_with(['/', '#'])).unwrap_or(t.len())].to_string());
                let at = match &t {
                    Some(t) => format!(" {}={}", src.pick_str(&["link", "LINK"]), quote(t)),
                    None => String::new(),
                };
                special = true;
                text += &format!("[[{align}{} {source}{at}]]", src.pick_str(&["image", "image", "Image"]));
                let alignment = match float {
                    "" => Value::Null,
                    f => json!({"align": f.trim_end_matches('+'), "float": f.ends_with('+')}),
                };
                want.push(json!({"element": "image", "data": {"source": slot, "link": t.as_deref().map(links::location), "alignment": alignment, "attributes": {}}}));
            }
        }
        let sep = if i + 1 < n { " y " } else { " z" };
        text += sep;
        want.push(text_el(sep));
    }
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    let (tree, errors) = parse_raw(&text, &info(), &settings);
    let want = norm(&json!([container(json!("paragraph"), json!({}), want)]));
    let actual = Value::Array(elements(&tree));
    check!(want == actual, "tree", "{}\nactual: {actual}\nerrors: {errors:?}", diff(&want, &actual));
    htmlmodel::judge(&tree, &info(), &settings)?;
    cx.nontrivial_if(n >= 2 && special);
    Ok(())
}
