//! C32: references to pages and interwiki addresses.

use crate::common::*;
use crate::engine::*;
use crate::{check, fail, gen};
use ftml::data::PageRef;
use ftml::settings::InterwikiSettings;
use serde_json::json;
use std::borrow::Cow;
use std::collections::HashMap;

pub const PROP: Property = Property {
    id: "C32",
    quick_cases: 250_000,
    thorough_cases: 4_000_000,
    budget: 200_000,
    over_budget: OverBudget::Discard,
    rule: "a reference with a colon or a space, or an interwiki address which has a prefix",
    assumptions: &[],
    run,
};

const PIECES: &[&str] = &[
    ":", ":", ":", " ", "  ", "\t", "\n", "\u{a0}", "\u{3000}", "a", "page", "scp-wiki", "component", "SCP-173", "ü", "日本", "$", "$$", "%20", "/", "#", "😀", ".", "_", "\u{301}", "\0", "\u{feff}",
];

fn piece(src: &mut Src, max: usize) -> String {
    let n = src.range(0, max);
    (0..n).map(|_| if src.chance(1, 6) { gen::letters(src) } else { src.pick_str(PIECES).to_string() }).collect()
}

/// What a reference means: at most one site, and the page.
fn meant(s: &str) -> Option<(Option<String>, String)> {
    let chars: Vec<char> = s.chars().collect();
    let white = |c: &char| c.is_whitespace();
    let first = chars.iter().position(|c| !white(c))?;
    let last = chars.iter().rposition(|c| !white(c))?;
    let chars = &chars[first..=last];
    let cut = |c: &[char]| c.iter().collect::<String>().trim_matches(char::is_whitespace).to_string();
    if chars[0] != ':' {
        return Some((None, cut(chars)));
    }
    let end = chars[1..].iter().position(|c| *c == ':')? + 1;
    let site = cut(&chars[1..end]);
    if site.is_empty() {
        return None;
    }
    Some((Some(site), cut(&chars[end + 1..])))
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    if src.chance(1, 3) {
        return interwiki(src, cx);
    }
    let mut s = piece(src, 7);
    if src.chance(1, 3) {
        s = format!(":{s}:{}", piece(src, 4));
    }
    cx.set_input(format!("{s:?}"));
    cx.nontrivial_if(s.contains(':') || s.contains(char::is_whitespace));
    let wanted = meant(&s);
    let parsed = PageRef::parse(&s);
    cx.label(match &wanted {
        None => "refused",
        Some((None, _)) => "local",
        Some(_) => "remote",
    });
    let (page, (site, name)) = match (&parsed, &wanted) {
        (Err(_), None) => return Ok(()),
        (Ok(page), Some(w)) => (page, w),
        _ => fail!("parse", "{parsed:?}, wanted {wanted:?}"),
    };
    check!(page.site() == site.as_deref() && page.page() == name, "parse", "{parsed:?}, wanted {wanted:?}");
    check!(page.fields() == (site.as_deref(), name.as_str()), "fields", "{:?}", page.fields());
    let here = src.pick_str(&["here", "", "scp-wiki"]);
    check!(page.fields_or(here) == (site.as_deref().unwrap_or(here), name.as_str()), "fields_or", "{:?}", page.fields_or(here));

    // Written out, it is read as the same again.
    let shown = page.to_string();
    let back = PageRef::parse(&shown);
    check!(back.as_ref() == Ok(page), "display", "{page:?} is shown as {shown:?}, which is {back:?}");
    let made = match site {
        Some(site) => PageRef::page_and_site(site.clone(), name.clone()),
        None => PageRef::page_only(name.clone()),
    };
    check!(made == *page && page.to_owned() == *page, "made", "{made:?} is not {page:?}");
    let json = to_value(page);
    check!(json == json!({"site": site, "page": name}), "json", "{json}");
    let read: Result<PageRef, _> = serde_json::from_value(json);
    check!(read.as_ref().ok() == Some(page), "json-read", "{read:?}");
    Ok(())
}

fn interwiki(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.label("interwiki");
    let n = src.range(0, 4);
    let mut table: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let prefix = match src.below(3) {
            0 => src.pick_str(&["wp", "wikipedia", "WP", "w p", "", "日本"]).to_string(),
            1 => gen::letters(src),
            _ => piece(src, 3).replace(':', ""),
        };
        let template = format!("{}{}", src.pick_str(&["https://x.org/$$", "https://$$.org/?q=$$#$$", "https://x.org/", "/a b/$$", "$$", ""]), piece(src, 2));
        if !table.iter().any(|t| t.0 == prefix) {
            table.push((prefix, template));
        }
    }
    let path = piece(src, 5);
    let link = match src.below(5) {
        0 => path.clone(),
        1 => format!("{}:{path}", gen::letters(src)),
        _ if !table.is_empty() => format!("{}:{path}", src.pick(&table).0),
        _ => format!("wp:{path}"),
    };
    cx.set_input(format!("{link:?} {table:?}"));
    let mut settings = InterwikiSettings::new();
    for (k, v) in &table {
        settings.prefixes.insert(Cow::Owned(k.clone()), Cow::Owned(v.clone()));
    }
    let as_map: HashMap<&str, &str> = table.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();

    let mut wanted = None;
    if let Some((prefix, path)) = link.split_once(':') {
        if let (false, false, Some(template)) = (prefix.is_empty(), path.is_empty(), as_map.get(prefix)) {
            wanted = Some(template.split("$$").collect::<Vec<_>>().join(path).split(' ').collect::<Vec<_>>().join("%20"));
        }
    }
    cx.nontrivial_if(wanted.is_some());
    let built = settings.build(&link);
    check!(built == wanted, "interwiki", "{built:?}, wanted {wanted:?}");
    let json = to_value(&settings);
    check!(json == json!(as_map), "interwiki-json", "{json}");
    let read: Result<InterwikiSettings, _> = serde_json::from_value(json);
    check!(read.as_ref().ok() == Some(&settings), "interwiki-read", "{read:?}");
    Ok(())
}
