//! A strict parser of the HTML subset that ftml may emit. It is independent of
//! ftml: anything that it does not accept is reported as malformed.

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}

#[derive(Debug, Clone, PartialEq)]
pub struct El {
    pub tag: String,
    /// Decoded values; `None` for an attribute without a value.
    pub attrs: Vec<(String, Option<String>)>,
    pub children: Vec<Node>,
    /// Contents of <style> and <wj-math-ml>, as emitted.
    pub raw: String,
}

impl El {
    pub fn attr(&self, key: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|(k, _)| k == key)
            .map(|(_, v)| v.as_deref().unwrap_or(""))
    }
    pub fn has_class(&self, class: &str) -> bool {
        self.attr("class").is_some_and(|c| c.split(' ').any(|x| x == class))
    }
}

pub const VOID: &[&str] = &["br", "hr", "img", "input"];

/// Elements ftml is known to produce.
pub const ALLOWED_TAGS: &[&str] = &[
    "a", "b", "blockquote", "br", "code", "dd", "del", "details", "div", "dl", "dt", "em", "h1", "h2",
    "h3", "h4", "h5", "h6", "hr", "i", "iframe", "img", "input", "ins", "li", "mark", "ol", "p", "pre",
    "rp", "rt", "ruby", "s", "script", "span", "strong", "style", "sub", "summary", "sup", "svg", "table",
    "tbody", "td", "th", "tr", "tt", "u", "ul", "use",
];

fn allowed_tag(tag: &str) -> bool {
    ALLOWED_TAGS.contains(&tag)
        || (tag.starts_with("wj-")
            && tag.len() > 3
            && tag.chars().all(|c| c.is_ascii_lowercase() || c == '-'))
}

fn decode(s: &str) -> Result<String, String> {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find(['&', '<', '>', '"', '\'', '\0']) {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let table = [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&#39;", '\'')];
        match table.iter().find(|(e, _)| rest.starts_with(e)) {
            Some((e, c)) => {
                out.push(*c);
                rest = &rest[e.len()..];
            }
            None => return Err(format!("unescaped character {:?} in {:?}", &rest[..1], clip(s))),
        }
    }
    out.push_str(rest);
    Ok(out)
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 160 {
        s.chars().take(160).collect::<String>() + "…"
    } else {
        s.to_string()
    }
}

/// Parses a whole fragment.
pub fn parse(html: &str) -> Result<Vec<Node>, String> {
    let mut stack: Vec<El> = Vec::new();
    let mut top: Vec<Node> = Vec::new();
    let mut rest = html;

    fn push(stack: &mut [El], top: &mut Vec<Node>, n: Node) {
        match stack.last_mut() {
            Some(el) => el.children.push(n),
            None => top.push(n),
        }
    }

    while !rest.is_empty() {
        if !rest.starts_with('<') {
            let end = rest.find('<').unwrap_or(rest.len());
            let text = decode(&rest[..end])?;
            push(&mut stack, &mut top, Node::Text(text));
            rest = &rest[end..];
            continue;
        }
        if let Some(r) = rest.strip_prefix("</") {
            let end = r.find('>').ok_or("unterminated end tag")?;
            let name = &r[..end];
            let el = stack.pop().ok_or_else(|| format!("unexpected </{}>", clip(name)))?;
            if el.tag != name {
                return Err(format!("</{}> closes <{}>", clip(name), el.tag));
            }
            push(&mut stack, &mut top, Node::El(el));
            rest = &r[end + 1..];
            continue;
        }
        // Start tag.
        let r = &rest[1..];
        let name_len = r
            .find(|c: char| !(c.is_ascii_lowercase() || c.is_ascii_digit() || c == '-'))
            .unwrap_or(r.len());
        let tag = &r[..name_len];
        if !allowed_tag(tag) {
            return Err(format!("element not on the allow list at {:?}", clip(rest)));
        }
        let mut r = &r[name_len..];
        let mut attrs: Vec<(String, Option<String>)> = Vec::new();
        loop {
            if let Some(x) = r.strip_prefix('>') {
                r = x;
                break;
            }
            r = r
                .strip_prefix(' ')
                .ok_or_else(|| format!("malformed tag <{tag}> at {:?}", clip(r)))?;
            let len = r
                .find(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))
                .unwrap_or(r.len());
            if len == 0 {
                return Err(format!("malformed attribute of <{tag}> at {:?}", clip(r)));
            }
            let key = r[..len].to_string();
            r = &r[len..];
            let value = if let Some(x) = r.strip_prefix("=\"") {
                let end = x.find('"').ok_or("unterminated attribute value")?;
                r = &x[end + 1..];
                Some(decode(&x[..end])?)
            } else {
                None
            };
            if attrs.iter().any(|(k, _)| *k == key) {
                return Err(format!("duplicate attribute {key} of <{tag}>"));
            }
            attrs.push((key, value));
        }
        rest = r;
        let mut el = El { tag: tag.to_string(), attrs, children: Vec::new(), raw: String::new() };
        if VOID.contains(&tag) {
            push(&mut stack, &mut top, Node::El(el));
            continue;
        }
        if tag == "style" || tag == "wj-math-ml" {
            // A browser ends <style> at the first "</style", whatever follows.
            let close = format!("</{tag}");
            let lower = rest.to_ascii_lowercase();
            let end = lower.find(&close).ok_or_else(|| format!("unterminated <{tag}>"))?;
            el.raw = rest[..end].to_string();
            rest = rest[end + close.len()..]
                .strip_prefix('>')
                .ok_or_else(|| format!("malformed end of <{tag}>"))?;
            if tag == "wj-math-ml" {
                check_mathml(&el.raw)?;
            }
            push(&mut stack, &mut top, Node::El(el));
            continue;
        }
        stack.push(el);
    }
    if let Some(el) = stack.last() {
        return Err(format!("<{}> is never closed", el.tag));
    }
    Ok(top)
}

/// The MathML comes from another crate, which does not escape '<' as an
/// operator; a browser takes it for text unless a letter or '/' follows. So
/// only what would open an element is judged.
fn check_mathml(raw: &str) -> Result<(), String> {
    let b = raw.as_bytes();
    for (i, _) in raw.match_indices('<') {
        let mut j = i + 1;
        if b.get(j) == Some(&b'/') {
            j += 1;
        }
        let c = b.get(j).copied().unwrap_or(b' ');
        if c.is_ascii_alphabetic() && c != b'm' || c == b'!' || c == b'?' {
            return Err(format!("foreign markup in MathML: {:?}", clip(&raw[i..])));
        }
    }
    Ok(())
}

pub fn walk<'a>(nodes: &'a [Node], f: &mut impl FnMut(&'a El)) {
    for n in nodes {
        if let Node::El(el) = n {
            f(el);
            walk(&el.children, f);
        }
    }
}

pub fn find_all<'a>(nodes: &'a [Node], pred: impl Fn(&El) -> bool) -> Vec<&'a El> {
    let mut out = Vec::new();
    walk(nodes, &mut |el| {
        if pred(el) {
            out.push(el)
        }
    });
    out
}

/// All text, in document order.
pub fn text_of(nodes: &[Node]) -> String {
    let mut out = String::new();
    fn go(nodes: &[Node], out: &mut String) {
        for n in nodes {
            match n {
                Node::Text(t) => out.push_str(t),
                Node::El(el) => go(&el.children, out),
            }
        }
    }
    go(nodes, &mut out);
    out
}

/// Merges adjacent text and drops empty text.
pub fn merge_text(nodes: Vec<Node>) -> Vec<Node> {
    let mut out: Vec<Node> = Vec::new();
    for n in nodes {
        match n {
            Node::Text(t) => {
                if t.is_empty() {
                    continue;
                }
                if let Some(Node::Text(last)) = out.last_mut() {
                    last.push_str(&t);
                } else {
                    out.push(Node::Text(t));
                }
            }
            Node::El(mut el) => {
                el.children = merge_text(el.children);
                out.push(Node::El(el));
            }
        }
    }
    out
}

/// The value as it stands in a quoted attribute.
fn quoted(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '&' => out.push_str("&amp;"),
            '"' => out.push_str("&quot;"),
            '\'' => out.push_str("&#39;"),
            '\0' => out.push(' '),
            c => out.push(c),
        }
    }
    out
}

/// Whether metadata is one element with its name and value, escaped.
pub fn meta(m: &ftml::render::html::HtmlMeta) -> Result<(), String> {
    use ftml::render::html::HtmlMetaType::*;
    let kind = match m.tag_type {
        Name => "name",
        HttpEquiv => "http-equiv",
        Property => "property",
    };
    let mut actual = String::new();
    m.render(&mut actual);
    let expected = format!("<meta {kind}=\"{}\" content=\"{}\" />", quoted(&m.name), quoted(&m.value));
    match actual == expected {
        true => Ok(()),
        false => Err(format!("{m:?}\n  expected {expected}\n  actual   {actual}")),
    }
}
