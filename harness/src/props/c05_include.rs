//! C05: inclusion of pages, against a reference.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen};
use ftml::data::PageRef;
use ftml::includes::{DebugIncluder, NullIncluder, FetchedPage, IncludeRef, Includer};
use std::borrow::Cow;
use std::collections::BTreeMap;

pub const PROP: Property = Property {
    id: "C05",
    quick_cases: 1_500_000,
    thorough_cases: 4_000_000,
    budget: 1_000_000,
    over_budget: OverBudget::Discard,
    rule: "at least one include is substituted",
    assumptions: &[],
    run,
};

// ------------------------------------------------------------------- reference

#[derive(Clone, Debug, PartialEq)]
struct Include {
    site: Option<String>,
    page: String,
    vars: BTreeMap<String, String>,
}

fn space(s: &str) -> usize {
    s.len() - s.trim_start_matches([' ', '\n', '\t']).len()
}

fn at_end(s: &str) -> bool {
    s.strip_prefix("]]").is_some_and(|r| r.is_empty() || r.starts_with(['\n', '\r']))
}

/// Key, value and length of an argument.
fn argument(s: &str) -> Option<(&str, &str, usize)> {
    let k = s.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_').count();
    if k == 0 {
        return None;
    }
    let mut at = k + space(&s[k..]);
    if !s[at..].starts_with('=') {
        return None;
    }
    at += 1;
    at += space(&s[at..]);
    let start = at;
    for c in s[start..].chars() {
        if c == '|' || at_end(&s[at..]) {
            break;
        }
        at += c.len_utf8();
    }
    (at > start).then(|| (&s[..k], &s[start..at], at))
}

pub fn page_ref(s: &str) -> Option<(Option<String>, String)> {
    let s = s.trim();
    if s.is_empty() {
        return None;
    }
    match s.strip_prefix(':') {
        None => Some((None, s.into())),
        Some(r) => {
            let (site, page) = r.split_once(':')?;
            if site.is_empty() {
                return None;
            }
            Some((Some(site.trim().into()), page.trim().into()))
        }
    }
}

/// Parses the include block at the start of `s`.
fn block(s: &str) -> Option<(Include, usize)> {
    let mut at = s.strip_prefix("[[").map(|_| 2)?;
    at += space(&s[at..]);
    if !s.get(at..at + 7)?.eq_ignore_ascii_case("include") {
        return None;
    }
    at += 7;
    match space(&s[at..]) {
        0 => return None,
        n => at += n,
    }
    let len = s[at..].find([' ', '\n', '\t', '[', '|', ']']).unwrap_or(s.len() - at);
    if len == 0 {
        return None;
    }
    // A site without a page is none.
    if s[at..at + len].strip_prefix(':').and_then(|r| r.split_once(':')).is_some_and(|(site, page)| !site.is_empty() && page.is_empty()) {
        return None;
    }
    let (site, page) = page_ref(&s[at..at + len])?;
    at += len;
    at += space(&s[at..]);
    if s[at..].starts_with('|') {
        at += 1;
        at += space(&s[at..]);
    }
    let mut vars = BTreeMap::new();
    while let Some((k, v, n)) = argument(&s[at..]) {
        if !vars.contains_key(k) && v != format!("{{${k}}}") {
            vars.insert(k.to_string(), v.to_string());
        }
        at += n;
        at += space(&s[at..]);
        if !s[at..].starts_with('|') {
            break;
        }
        at += 1;
        at += space(&s[at..]);
    }
    at += space(&s[at..]);
    at_end(&s[at..]).then(|| (Include { site, page, vars }, at + 2))
}

/// Where include blocks may start: "[[include" at the start of a line.
fn candidates(text: &str) -> Vec<usize> {
    let mut out = Vec::new();
    let mut from = 0;
    for i in 0..text.len() {
        if i < from || !text.is_char_boundary(i) || !(i == 0 || text.as_bytes()[i - 1] == b'\n') {
            continue;
        }
        let Some(r) = text[i..].strip_prefix("[[") else { continue };
        let r2 = r.trim_start();
        let Some(head) = r2.get(..7) else { continue };
        if !head.eq_ignore_ascii_case("include") {
            continue;
        }
        let r3 = &r2[7..];
        let r4 = r3.trim_start();
        if r3.len() == r4.len() {
            continue;
        }
        out.push(i);
        // The next match cannot start within this one.
        from = text.len() - r4.len();
    }
    out
}

fn find_includes(text: &str) -> Vec<(Include, usize, usize)> {
    let mut out: Vec<(Include, usize, usize)> = Vec::new();
    for i in candidates(text) {
        if out.last().is_some_and(|(_, _, e)| i < *e) {
            continue;
        }
        if let Some((inc, len)) = block(&text[i..]) {
            out.push((inc, i, i + len));
        }
    }
    out
}

fn substitute(content: &str, vars: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut rest = content;
    while let Some(i) = rest.find("{$") {
        let r = &rest[i + 2..];
        let n = r.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_').count();
        if n > 0 && r[n..].starts_with('}') {
            let whole = &rest[i..i + n + 3];
            out.push_str(&rest[..i]);
            out.push_str(vars.get(&r[..n]).map(|s| s.as_str()).unwrap_or(whole));
            rest = &r[n + 1..];
        } else {
            out.push_str(&rest[..i + 2]);
            rest = r;
        }
    }
    out.push_str(rest);
    out
}

// -------------------------------------------------------------------- includer

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Short,
    Long,
    OtherPage,
    FetchError,
    MissingError,
}

struct Pages<'a> {
    pages: &'a BTreeMap<String, String>,
    fault: Fault,
    other: usize,
    which: usize,
    asked: &'a mut Vec<Include>,
    missing: &'a mut Vec<String>,
    calls: &'a mut usize,
}

fn key(site: Option<&str>, page: &str) -> String {
    match site {
        Some(s) => format!(":{s}:{page}"),
        None => page.into(),
    }
}

impl<'t> Includer<'t> for Pages<'_> {
    type Error = String;
    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, String> {
        *self.calls += 1;
        for i in includes {
            self.asked.push(Include {
                site: i.page_ref().site().map(str::to_string),
                page: i.page_ref().page().to_string(),
                vars: i.variables().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            });
        }
        if self.fault == Fault::FetchError {
            return Err("fetch".into());
        }
        let mut out: Vec<FetchedPage<'t>> = includes
            .iter()
            .map(|i| FetchedPage {
                page_ref: i.page_ref().clone(),
                content: self.pages.get(&i.page_ref().to_string()).map(|c| Cow::Owned(c.clone())),
            })
            .collect();
        match self.fault {
            Fault::Short => {
                out.pop();
            },
            Fault::Long => out.push(FetchedPage { page_ref: PageRef::page_only("extra"), content: None }),
            Fault::OtherPage => {
                let n = out.len().max(1);
                if let Some(p) = out.get_mut(self.which % n) {
                    let page = p.page_ref.page().to_string();
                    p.page_ref = match (self.other, p.page_ref.site()) {
                        (0, _) => PageRef::page_only("quite another page"),
                        (1, Some(_)) => PageRef::page_only(page),
                        (2, Some(s)) => PageRef::page_and_site(s.to_string(), "quite another page"),
                        _ => PageRef::page_and_site("quite-another-site", page),
                    };
                }
            }
            _ => {}
        }
        Ok(out)
    }
    fn no_such_include(&mut self, page: &PageRef<'t>) -> Result<Cow<'t, str>, String> {
        self.missing.push(page.to_string());
        if self.fault == Fault::MissingError {
            return Err("missing".into());
        }
        Ok(Cow::Owned(format!("<no page {page}>")))
    }
}

// ------------------------------------------------------------------- generator

const PAGES: &[&str] = &["a", "component:box", ":wiki:page", "missing", "é", ":wiki:missing", "x/y", ":", "::", ":w", "a:b:c", "\u{a0}a", ":wiki:a:b", ":wi ki:page", ":wiki: page", ":é:page", "::wiki:page", ":wiki::page", "a#b", "A"];
const KEYS: &[&str] = &["x", "y", "long-name", "a_b", "X", "1", "x_", "-x", "x-", "_x", "xx"];

fn content(src: &mut Src) -> String {
    let n = src.range(0, 5);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(src.pick_str(&[
            "text", "{$x}", "{$y}", "{$long-name}", "{$a_b}", "{$X}", "{$}", "{$x", "{$ x}", "\n", "[[include a]]", "**b**", "{{$x}}", "日", "{$none}", " ", "{$é}", "{$1}", "{$x_}", "{$-x}", "{$_x}", "{$x-}", "{$xx}", "{$x.}",
        ]));
    }
    s
}

fn value(src: &mut Src) -> String {
    let n = src.range(0, 3);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(src.pick_str(&["v", "two words", "{$x}", "{$y}", "]]", "]", "=", "\n", "é", "[[div]]", "\"q\"", "]]\n", "[[include a]]", "\n[[include a]]"]));
    }
    s
}

fn include_text(src: &mut Src) -> String {
    if src.bool() {
        // A well-formed one.
        let mut s = format!("[[include {}", src.pick_str(&PAGES[..6]));
        let n = src.weighted(&[2, 3, 2, 1]);
        for i in 0..n {
            s.push_str(if i == 0 { src.pick_str(&[" ", " |", "\n"]) } else { src.pick_str(&["|", " |\n"]) });
            s.push_str(&format!("{}={}", src.pick_str(KEYS), src.pick_str(&["v", "two words", " {$x}", "{$y}", "é", "{$x}", "a=b", "[[b]]", "1"])));
        }
        s.push_str(src.pick_str(&["]]", "]]", " ]]", "\n]]", "|]]"]));
        return s;
    }
    let sp = |src: &mut Src| src.pick_str(&["", "", " ", "\n", "  ", "\t", "\n\n "]);
    let mut s = String::from("[[");
    s.push_str(src.pick_str(&["", "", "", " ", "\n", "\u{a0}"]));
    s.push_str(src.pick_str(&["include", "include", "include", "INCLUDE", "Include", "includes", "include-elements", "incl"]));
    s.push_str(src.pick_str(&[" ", " ", "  ", "\n", "\t", "", "\u{a0}"]));
    s.push_str(src.pick_str(PAGES));
    s.push_str(src.pick_str(&[" ", " ", "|", " | ", "\n| ", "\n", "", " ||"]));
    let n = src.weighted(&[2, 3, 2, 1]);
    for i in 0..n {
        if i > 0 {
            s.push_str(sp(src));
            s.push_str(src.pick_str(&["|", "|", "|", "|", "||", ""]));
            s.push_str(sp(src));
        }
        s.push_str(src.pick_str(KEYS));
        s.push_str(sp(src));
        s.push_str(src.pick_str(&["=", "=", "=", "=", "==", ""]));
        s.push_str(sp(src));
        s.push_str(&value(src));
    }
    s.push_str(src.pick_str(&["", "", "|", "\n", " ", " | ", "||"]));
    s.push_str(src.pick_str(&["]]", "]]", "]]", "]]", "]", "]]]", ""]));
    s
}

fn gen_text(src: &mut Src) -> String {
    let n = src.range(1, 6);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(src.pick_str(&["\n", "\n", "\n\n", " ", "\r\n", "", "\r"]));
        }
        match src.weighted(&[6, 2, 1]) {
            0 => s.push_str(&include_text(src)),
            1 => s.push_str(src.pick_str(&["text", "é", "日本", "[[div]]", "[[", "]]", "{$x}"])),
            _ => s.push_str(&gen::tiny(src)),
        }
    }
    s
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let text = gen_text(src);
    let mut pages = BTreeMap::new();
    for p in ["a", "component:box", ":wiki:page", "é", "x/y", "a:b:c"] {
        pages.insert(p.to_string(), content(src));
    }
    let mut settings = gen_settings(src);
    settings.enable_page_syntax = !src.chance(1, 16);
    let fault = match src.below(24) {
        18 => Fault::OtherPage,
        19 => Fault::Short,
        20 => Fault::Long,
        21 => Fault::OtherPage,
        22 => Fault::FetchError,
        23 => Fault::MissingError,
        _ => Fault::None,
    };
    announce(src, cx, &text);
    let (mut asked, mut missing, mut calls) = (vec![], vec![], 0);
    let result = ftml::include(
        &text,
        &settings,
        Pages { pages: &pages, fault, other: src.below(4), which: src.below(8), asked: &mut asked, missing: &mut missing, calls: &mut calls },
        || "invalid".to_string(),
    )
    .map(|(t, p)| (t, p.iter().map(|p| p.to_owned()).collect::<Vec<_>>()));

    if !settings.enable_page_syntax {
        cx.label("disabled");
        check!(calls == 0, "disabled-call", "the includer was called although includes are disabled");
        check!(result == Ok((text.clone(), vec![])), "disabled", "{result:?}");
        return Ok(());
    }
    let found = find_includes(&text);
    let refs: Vec<Include> = found.iter().map(|f| f.0.clone()).collect();
    check!(asked == refs, "requested", "expected {refs:?}\n  actual {asked:?}");
    check!(calls == 1, "calls", "the includer was called {calls} times");
    let any_missing = refs.iter().any(|i| !pages.contains_key(&key(i.site.as_deref(), &i.page)));
    let expected = match fault {
        Fault::FetchError => Err("fetch".to_string()),
        Fault::Long => Err("invalid".into()),
        Fault::Short | Fault::OtherPage if !refs.is_empty() => Err("invalid".into()),
        Fault::MissingError if any_missing => Err("missing".into()),
        _ => {
            let mut out = String::new();
            let mut at = 0;
            for (inc, a, b) in &found {
                out.push_str(&text[at..*a]);
                let k = key(inc.site.as_deref(), &inc.page);
                match pages.get(&k) {
                    Some(c) => out.push_str(&substitute(c, &inc.vars)),
                    None => out.push_str(&format!("<no page {k}>")),
                }
                at = *b;
            }
            out.push_str(&text[at..]);
            let list = refs.iter().map(|i| PageRef { site: i.site.clone().map(Cow::Owned), page: Cow::Owned(i.page.clone()) }).collect::<Vec<_>>();
            cx.nontrivial_if(!refs.is_empty());
            cx.label_if(refs.len() > 1, "several");
            cx.label_if(any_missing, "missing");
            cx.label_if(refs.iter().any(|i| !i.vars.is_empty()), "variables");
            Ok((out, list))
        }
    };
    cx.label_if(fault != Fault::None, "fault");
    check!(result == expected, "result", "expected {expected:?}\n  actual {result:?}");

    // The includers of the library.
    let replaced = |with: &dyn Fn(usize, &Include) -> String| {
        let mut out = String::new();
        let mut at = 0;
        for (n, (inc, a, b)) in found.iter().enumerate() {
            out.push_str(&text[at..*a]);
            out.push_str(&with(n, inc));
            at = *b;
        }
        out.push_str(&text[at..]);
        out
    };
    let list = |p: Vec<PageRef>| p.iter().map(|p| key(p.site.as_deref(), &p.page)).collect::<Vec<_>>();
    let all = refs.iter().map(|i| key(i.site.as_deref(), &i.page)).collect::<Vec<_>>();
    let null = ftml::include(&text, &settings, NullIncluder, || unreachable!()).map(|(t, p)| (t, list(p)));
    check!(null == Ok((replaced(&|_, _| String::new()), all.clone())), "null-includer", "{null:?}");
    let debug = ftml::include(&text, &settings, DebugIncluder, || unreachable!()).map(|(t, p)| (t, list(p)));
    let expected = replaced(&|n, i| {
        let k = key(i.site.as_deref(), &i.page);
        if n == 0 && found.len() > 1 {
            return format!("<MISSING-PAGE {k}>");
        }
        let vars: Vec<String> = i.vars.iter().map(|(k, v)| format!("{k:?} => {v:?}")).collect();
        substitute(&format!("<INCLUDED-PAGE {k} {{{}}}>", vars.join(", ")), &i.vars)
    });
    check!(debug == Ok((expected.clone(), all)), "debug-includer", "expected {expected:?}\n  actual {debug:?}");
    Ok(())
}
