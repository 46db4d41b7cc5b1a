//! Where links lead, from what is written in them.

use crate::htmlmodel::is_url;
use crate::props::page_ref;
use serde_json::{json, Value};

/// The location of a link: a URL or a page.
pub fn location(u: &str) -> Value {
    if is_url(u) || u.starts_with('#') || u.starts_with('/') {
        return json!(u);
    }
    let end = u.find(['#', '/']).unwrap_or(u.len());
    match page_ref(&u[..end]) {
        Some((site, page)) => json!({"site": site, "page": page}),
        None => json!(u[..end]),
    }
}

/// What follows the page.
pub fn extra(u: &str) -> Option<String> {
    if is_url(u) || u.starts_with('#') || u.starts_with('/') {
        return None;
    }
    u.find(['#', '/']).map(|i| u[i..].to_string())
}

/// The label of a link that has none: its target without category.
pub fn bare_label(u: &str) -> Option<String> {
    let strip = |u: &str| u.split_once(':').map(|(_, r)| r.trim_start().to_string());
    match u.strip_prefix(':') {
        None => strip(u),
        Some(r) => {
            let rest = strip(r)?;
            // The rest may have a site and a category of its own.
            Some(bare_label(&rest).unwrap_or(rest))
        }
    }
}

pub fn interwiki(prefixes: &[(String, String)], u: &str) -> Option<String> {
    let (prefix, path) = u.split_once(':')?;
    if prefix.is_empty() || path.is_empty() {
        return None;
    }
    let (_, template) = prefixes.iter().find(|(p, _)| p == prefix)?;
    Some(template.replace("$$", path).replace(' ', "%20"))
}
