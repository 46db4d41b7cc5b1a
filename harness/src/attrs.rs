//! The attributes that users may set, and the blocks on which they may.

use crate::engine::Src;
use crate::gen;
use crate::htmlmodel::{is_url, local_href};
use std::collections::BTreeMap;

/// From the documentation of allowed attributes.
pub const SAFE: &[&str] = &[
    "accept", "align", "alt", "autocapitalize", "autoplay", "background", "bgcolor", "border", "buffered", "checked", "cite", "class", "cols", "colspan",
    "contenteditable", "controls", "coords", "datetime", "decoding", "default", "dir", "dirname", "disabled", "download", "draggable", "for", "form", "headers",
    "height", "hidden", "high", "href", "hreflang", "id", "inputmode", "ismap", "itemprop", "kind", "label", "lang", "list", "loop", "low", "max", "maxlength",
    "min", "minlength", "multiple", "muted", "name", "optimum", "pattern", "placeholder", "poster", "preload", "readonly", "required", "reversed", "role", "rows",
    "rowspan", "scope", "selected", "shape", "size", "sizes", "span", "spellcheck", "src", "srclang", "srcset", "start", "step", "style", "tabindex", "target",
    "title", "translate", "type", "usemap", "value", "width", "wrap",
];

pub const BOOLEAN: &[&str] = &[
    "autoplay", "checked", "controls", "default", "disabled", "hidden", "ismap", "loop", "multiple", "muted", "readonly", "required", "reversed", "selected",
];

pub const UNSAFE: &[&str] = &[
    "onclick", "onload", "onerror", "onmouseover", "onfocus", "ONCLICK", "onanimationstart", "ontoggle", "action", "formaction", "srcdoc", "sandbox", "allow", "data", "aria",
    "data-", "aria-", "xmlns", "is", "slot", "part", "nonce", "integrity", "http-equiv", "content", "charset", "rel", "ping", "manifest", "open", "async", "defer",
    "autofocus", "formnovalidate", "itemscope", "novalidate", "key", "code", "codebase", "archive", "classid", "xlink", "language", "event", "method", "enctype",
    "dataset", "ariax", "data-x_y", "aria-_", "data_x", "idx", "classs", "xclass", "styles", "on", "background-image", "href2", "xhref", "class-", "-class", "_class", "src-x", "x-data-y", "referrerpolicy", "attributename", "values", "from", "to", "by", "folder", "crossorigin", "as", "color", "face", "text", "vlink", "name2",
];

pub fn is_safe(key: &str) -> bool {
    let lower = key.to_ascii_lowercase();
    SAFE.contains(&lower.as_str())
        || ["aria-", "data-"].iter().any(|p| {
            key.strip_prefix(p).is_some_and(|s| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-'))
        })
}

fn boolean(v: &str) -> Option<bool> {
    match v.trim().to_ascii_lowercase().as_str() {
        "true" | "t" | "1" | "yes" => Some(true),
        "false" | "f" | "0" | "no" => Some(false),
        _ => None,
    }
}

pub fn isolate(id: &str) -> String {
    id.split_whitespace().map(|w| if w.starts_with("u-") { w.to_string() } else { format!("u-{w}") }).collect::<Vec<_>>().join(" ")
}

pub fn href(v: &str) -> String {
    if v == "javascript:;" || is_url(v) {
        v.into()
    } else {
        local_href(v)
    }
}

/// What is left of arguments (keys with their unescaped values).
pub fn filter(args: &[(String, String)], isolated: bool) -> BTreeMap<String, String> {
    let mut last: Vec<(String, String, String)> = vec![];
    for (k, v) in args {
        let lower = k.to_ascii_lowercase();
        match last.iter_mut().find(|(l, _, _)| *l == lower) {
            // The key stays as it was written first.
            Some(e) => e.2 = v.clone(),
            None => last.push((lower, k.clone(), v.clone())),
        }
    }
    let mut out = BTreeMap::new();
    for (lower, key, mut value) in last {
        if !is_safe(&key) {
            continue;
        }
        if BOOLEAN.contains(&lower.as_str()) {
            match boolean(&value) {
                Some(true) => value.clear(),
                Some(false) => continue,
                None => (),
            }
        }
        if lower == "href" || lower == "src" {
            value = href(&value);
        }
        if lower == "id" && isolated {
            value = isolate(&value);
        }
        out.insert(lower, value);
    }
    out
}

pub fn key(src: &mut Src) -> String {
    let k: String = match src.weighted(&[6, 2, 3, 3, 1]) {
        0 => src.pick_str(SAFE).into(),
        1 => src.pick_str(BOOLEAN).into(),
        2 => src.pick_str(UNSAFE).into(),
        3 => format!("{}{}", src.pick_str(&["data-", "aria-"]), src.pick_str(&["x", "label", "Foo", "a-b", "1", "-", "x-", "onclick", "A1-b2", "hidden", "host"])),
        _ => gen::ident(src),
    };
    match src.below(6) {
        0 => k.to_ascii_uppercase(),
        1 => k.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => k,
    }
}

pub fn value(src: &mut Src) -> String {
    match src.weighted(&[4, 2, 3, 3, 2, 2, 1]) {
        0 => gen::words(src, 3),
        1 => src.pick_str(&["true", "false", "yes", "no", "1", "0", "T", "f", "TRUE", " no ", "No", "truee", "2", "on", ""]).into(),
        2 => src.pick_str(gen::URLS).into(),
        3 => src.pick_str(&["apple  banana", " u-x  y ", "u-u-a", "U-x", "a\tb", "u-", "\n x", "a\u{a0}b", "#a", "u -x"]).into(),
        4 => src.pick_str(&["<b>", "\"", "'", "&amp;", "a\"b'c", "\\", "\\\\n", "x\\", "\r\n", "\" onclick=\"x", "\\\""]).into(),
        5 => src.pick_str(&["color: red;", "expression(alert(1))", "url(javascript:x)", "[[div]]", "]]", "{$v}", "@@", "[!-- x --]", "=", "||", "**x**"]).into(),
        _ => src.pick_str(gen::ODD).into(),
    }
}

/// The value as a string of wikitext.
pub fn quote(v: &str) -> String {
    let mut out = String::from("\"");
    let cs: Vec<char> = v.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        match c {
            '"' => out += "\\\"",
            '\n' => out += "\\n",
            '\r' => out += "\\r",
            '\t' => out += "\\t",
            // Before other characters a backslash stands for itself.
            '\\' if cs.get(i + 1).is_some_and(|n| !"\\\"'rnt\n\r\t".contains(*n)) => out.push('\\'),
            '\\' => out += "\\\\",
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

/// Writes arguments, each after some whitespace.
pub fn write(src: &mut Src, args: &[(String, String)]) -> String {
    let mut out = String::new();
    for (i, (k, v)) in args.iter().enumerate() {
        out += if i == 0 { " " } else { src.pick_str(&[" ", " ", "  ", "\n"]) };
        out += k;
        out += src.pick_str(&["=", "=", " = ", " =", "= "]);
        out += &quote(v);
    }
    if !args.is_empty() {
        out += src.pick_str(&["", "", " "]);
    }
    out
}

/// Blocks with attributes: `{}` is the place of the arguments.
pub const HOSTS: &[(&str, &str)] = &[
    ("a", "x [[a{}]]link[[/a]]"),
    ("a*", "x [[*a{}]]link[[/a]]"),
    ("anchor", "x [[anchor_{}]]link[[/anchor]]"),
    ("blockquote", "[[blockquote{}]]\nx\n[[/blockquote]]"),
    ("bold", "x [[b{}]]y[[/b]]"),
    ("checkbox", "x [[checkbox{}]]y"),
    ("collapsible", "[[collapsible{}]]\nx\n[[/collapsible]]"),
    ("del", "x [[del{}]]y[[/del]]"),
    ("div", "[[div{}]]\nx\n[[/div]]"),
    ("div_", "[[div_{}]]\nx\n[[/div]]"),
    ("hidden", "[[hidden{}]]x[[/hidden]]"),
    ("iframe", "[[iframe https://example.com/{}]]"),
    ("image", "x [[image https://example.com/a.png{}]] y"),
    ("=image", "[[=image b.png{}]]"),
    ("ins", "x [[ins{}]]y[[/ins]]"),
    ("invisible", "[[invisible{}]]x[[/invisible]]"),
    ("italics", "x [[i{}]]y[[/i]]"),
    ("ul", "[[ul{}]]\n[[li]]x[[/li]]\n[[/ul]]"),
    ("ol", "[[ol{}]]\n[[li]]x[[/li]]\n[[/ol]]"),
    ("li", "[[ul]]\n[[li{}]]x[[/li]]\n[[/ul]]"),
    ("li-sublist", "[[ul]]\n[[li]]x[[/li]]\n[[li{}]]y\n[[ul]]\n[[li]]z[[/li]]\n[[/ul]]\n[[/li]]\n[[/ul]]"),
    ("mark", "x [[mark{}]]y[[/mark]]"),
    ("monospace", "x [[tt{}]]y[[/tt]]"),
    ("paragraph", "[[p{}]]\nx\n[[/p]]"),
    ("radio", "x [[radio name{}]]y"),
    ("ruby", "x [[ruby{}]]y[[rt]]z[[/rt]][[/ruby]]"),
    ("rt", "x [[ruby]]y[[rt{}]]z[[/rt]][[/ruby]]"),
    ("span", "x [[span{}]]y[[/span]]"),
    ("span_", "x [[span_{}]]y[[/span]]"),
    ("strikethrough", "x [[s{}]]y[[/s]]"),
    ("sub", "x [[sub{}]]y[[/sub]]"),
    ("sup", "x [[sup{}]]y[[/sup]]"),
    ("table", "[[table{}]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]"),
    ("row", "[[table]]\n[[row{}]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]"),
    ("cell", "[[table]]\n[[row]]\n[[cell{}]]x[[/cell]]\n[[/row]]\n[[/table]]"),
    ("hcell", "[[table]]\n[[row]]\n[[cell]]x[[/cell]]\n[[hcell{}]]y[[/hcell]]\n[[/row]]\n[[/table]]"),
    ("toc", "[[toc{}]]\n\n+ x"),
    ("f>toc", "[[f>toc{}]]\n\n+ x"),
    ("underline", "x [[u{}]]y[[/u]]"),
    ("module-join", "[[module Join{}]]"),
];
