//! C11: no address or attribute in the HTML runs a script.

use crate::attrs::{self, quote, HOSTS};
use crate::common::*;
use crate::engine::*;
use crate::html::El;
use crate::{check, gen, html as strict, treegen};
use ftml::tree::SyntaxTree;

pub const PROP: Property = Property {
    id: "C11",
    quick_cases: 350_000,
    thorough_cases: 5_000_000,
    budget: 1_500_000,
    over_budget: OverBudget::Discard,
    rule: "the HTML has an address, and the source a dangerous one",
    assumptions: &[
        "an address is judged as browsers read it: without tabs and newlines, and without control characters and spaces before it",
        "the handle of ftml itself (image, user and page addresses) is the one under test",
    ],
    run,
};

const SCHEMES: &[&str] = &["javascript", "data", "vbscript", "javascript", "data"];

/// An address that would run a script, or nearly so.
fn hostile(src: &mut Src) -> String {
    let scheme = src.pick_str(SCHEMES);
    let mut s = String::new();
    let (odd, upper) = (src.below(4), src.below(3));
    let n = scheme.len();
    let at = src.below(n + 1);
    for (i, c) in scheme.chars().enumerate() {
        if odd == 0 && i == at {
            s += src.pick_str(&["\t", "\n", "\r", " ", "\0", "\u{1}", "\u{200b}", "\u{ad}", "\u{feff}", "&#9;", "&#x6A;", "%0a", "\\", "/", "\u{301}"]);
        }
        match upper {
            0 => s.push(c),
            1 => s.push(c.to_ascii_uppercase()),
            _ => s.push(if i % 2 == 0 { c.to_ascii_uppercase() } else { c }),
        }
    }
    if odd == 1 {
        s = src.pick_str(&[" ", "\t", "\n", "\0", "\u{1f}", "\u{a0}", "\u{2028}", "*", ":", "/", "//", "\\", "#", "!", "&#32;", "\u{200e}", "./", "_"]).to_string() + &s;
    }
    s += src.pick_str(&[":", ":", ":", ":", " :", "&colon;", "\u{ff1a}", "\t:", "&#58;", "%3a"]);
    s += src.pick_str(&[
        "alert(1)", ";", ";alert(1)", "//%0aalert(1)", "text/html,<script>alert(1)</script>", "text/html;base64,PHNjcmlwdD4=", ";/x/;alert(1)", "image/svg+xml,<svg onload=alert(1)>", "", "/*#*/alert(1)", ";#;alert(1)", ";/;", "x",
    ]);
    match src.below(8) {
        0 => s + "/edit",
        1 => s + "#top",
        2 => format!("{}{s}", src.pick_str(gen::URLS)),
        _ => s,
    }
}

/// Whether a browser would run a script for it.
fn dangerous(url: &str) -> bool {
    let url: String = url.trim_start_matches(|c: char| c <= ' ').chars().filter(|c| !['\t', '\n', '\r'].contains(c)).collect();
    match url.split_once(':') {
        Some((scheme, _)) => ["javascript", "vbscript", "data"].iter().any(|s| scheme.eq_ignore_ascii_case(s)),
        None => false,
    }
}

const ADDRESSES: &[&str] = &[
    "href", "src", "action", "formaction", "data", "poster", "background", "cite", "longdesc", "profile", "codebase", "manifest", "ping", "xlink:href", "srcdoc", "icon", "lowsrc", "dynsrc", "classid", "usemap", "object",
];

/// Addresses that browsers follow or load.
const FOLLOWED: &[&str] = &["href", "src", "action", "formaction", "data", "xlink:href"];

fn judge(e: &El) -> Result<bool, String> {
    let mut addresses = false;
    for (k, v) in &e.attrs {
        let v = v.as_deref().unwrap_or("");
        let key = k.to_ascii_lowercase();
        if key.starts_with("on") && !(e.tag == "a" && key == "onclick" && v == "WIKIJUMP.page.listeners.foldToc(event)") {
            return Err(format!("handler {k}={v:?} on {}", e.tag));
        }
        if key == "srcdoc" || key == "formaction" || key == "action" {
            return Err(format!("attribute {k} on {}", e.tag));
        }
        addresses |= ADDRESSES.contains(&key.as_str());
        if FOLLOWED.contains(&key.as_str()) && dangerous(v) {
            let avatar = e.tag == "img" && e.has_class("wj-user-info-avatar") && v.starts_with("data:image/");
            if v != "javascript:;" && !avatar {
                return Err(format!("address {k}={v:?} on {}", e.tag));
            }
        }
    }
    if e.tag == "script" {
        let src = e.attr("src").unwrap_or("");
        if !["https://gist.github.com/", "https://gitlab.com/"].iter().any(|p| src.starts_with(p)) || !strict::text_of(&e.children).is_empty() {
            return Err(format!("script from {src:?}"));
        }
    }
    Ok(addresses)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let info = info();
    let mut settings = gen_settings(src);
    settings.enable_page_syntax |= src.bool();
    let form = src.weighted(&[4, 4, 3, 3, 3, 3, 2, 3, 2]);
    let u = hostile(src);
    let line = u.replace('\n', " ");
    let mut want_invalid = false;
    let text = match form {
        0 => format!("[[[{}{line}{}]]]", src.pick_str(&["", "*", " ", "!", "#", ":", ":x:", "!wp:", "a:"]), src.pick_str(&["", "|x", "|", "/x|y", "#a"])),
        1 => {
            let host = *src.pick(HOSTS);
            let key = src.pick_str(&["href", "href", "src", "HREF", "Src", "background", "poster", "cite", "action", "srcset", "style", "onclick", "link"]);
            let args = vec![("class".into(), "x".into()), (key.to_string(), u.clone())];
            if ["href", "src"].contains(&key.to_ascii_lowercase().as_str()) && dangerous(&u) && u != "javascript:;" && !u.trim_start().to_ascii_lowercase().starts_with("vb") {
                want_invalid = prep(&u) == u && ["a", "a*", "div", "span", "bold"].contains(&host.0);
            }
            host.1.replace("{}", &attrs::write(src, &args))
        }
        2 => format!("[{}{line} x]", src.pick_str(&["", "*", "/", "#"])),
        3 => {
            let block = src.pick_str(&["image", "=image", "f>image"]);
            let source = match src.below(3) {
                0 => "a.png".to_string(),
                1 => "https://e.com/a.png".into(),
                _ => line.replace(' ', ""),
            };
            format!("[[{block} {source} link={} src={}]]", quote(&u), quote(&line))
        }
        4 => format!("[[iframe {} src={}]]", src.pick_str(&["https://e.com/", "blob:x", "javascript:alert(1)", "data:text/html,x"]), quote(&u)),
        5 => {
            let kind = src.pick_str(&["youtube", "vimeo", "github-gist", "gitlab-snippet"]);
            let key = src.pick_str(&["video", "id", "username", "hash", "snippet", "src"]);
            format!("[[embed {kind} {key}={}]][[user {line}]]", quote(&u))
        }
        6 => {
            let d = gen::document(src);
            format!("{d}\n\n[[[{line}|x]]]")
        }
        7 => {
            // Through variables, verbatim text, colors, includes and styles.
            let t = src.pick_str(&[
                "[[include-elements x |v = U]]", "##U|x##", "[[# U]]", "[[size U]]x[[/size]]", "[[module CSS]]\n@import 'U';\n[[/module]]", "[[html]]\nU\n[[/html]]", "[[code type=\"U\"]]\nU\n[[/code]]",
                "[[date 0 format=\"U\"]]", "[[target U]]", "+ U\n\n[[toc]]", "[[footnote]]U[[/footnote]]", "U", "[[module Rate U]]", "[[a href=\"U\"]]x[[/a]]", "[[span style=\"background: url(U)\"]]x[[/span]]", "[[collapsible show=\"U\"]]\nx\n[[/collapsible]]",
            ]);
            t.replace('U', &line)
        }
        _ => treegen::tree(src).to_string(),
    };
    announce(src, cx, &text);
    cx.label(["triple link", "attribute", "single link", "image", "iframe", "embed", "document", "other", "tree"][form]);
    let tree: SyntaxTree<'static> = match form {
        8 => {
            // Links of trees that are made otherwise, with dangerous locations.
            let mut v: serde_json::Value = serde_json::from_str(&text).unwrap();
            let mut k = 0;
            replace_links(&mut v, &u, &mut k);
            match serde_json::from_value::<SyntaxTree>(v) {
                Ok(t) => t.to_owned(),
                Err(_) => {
                    cx.discarded = true;
                    return Ok(());
                }
            }
        }
        _ => parse(&text, &info, &settings).0,
    };
    let out = html(&tree, &info, &settings);
    let nodes = match strict::parse(&out.body) {
        Ok(n) => n,
        Err(e) => return Err(Failure::new("malformed-html", format!("{e}\nhtml: {}", out.body))),
    };
    let (mut found, mut bad, mut invalid) = (false, None, false);
    strict::walk(&nodes, &mut |e| {
        invalid |= e.attr("href").or(e.attr("src")) == Some("#invalid-url");
        match judge(e) {
            // What a tree made otherwise says is not judged other than by its links.
            Err(m) if form != 8 || m.starts_with("address href") && e.has_class("wj-link") => bad = bad.take().or(Some(m)),
            Err(_) => (),
            Ok(a) => found |= a,
        }
    });
    if let Some(m) = bad {
        return Err(Failure::new("script", format!("{m}\nhtml: {}", out.body)));
    }
    check!(!want_invalid || invalid, "not-rejected", "the address {u:?} is not replaced: {}", out.body);
    cx.nontrivial_if(found);
    Ok(())
}

fn replace_links(v: &mut serde_json::Value, u: &str, k: &mut usize) {
    match v {
        serde_json::Value::Object(o) => {
            if o.get("element").is_some_and(|e| e == "link") {
                *k += 1;
                if let Some(d) = o.get_mut("data") {
                    d["link"] = match *k % 2 {
                        0 => serde_json::json!(u),
                        _ => serde_json::json!({"site": null, "page": u}),
                    };
                    d["extra"] = match *k % 2 {
                        0 => serde_json::Value::Null,
                        _ => d["extra"].take(),
                    };
                }
            }
            o.values_mut().for_each(|x| replace_links(x, u, k));
        }
        serde_json::Value::Array(a) => a.iter_mut().for_each(|x| replace_links(x, u, k)),
        _ => (),
    }
}
