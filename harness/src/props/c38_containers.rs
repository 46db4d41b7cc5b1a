//! C38: containers of the tree are the sequences, maps and stacks that they stand for.

use crate::attrs::{self, isolate};
use crate::common::*;
use crate::engine::*;
use crate::{check, gen, treegen};
use ftml::data::{Backlinks, PageRef};
use ftml::includes::IncludeRef;
use ftml::parsing::{parse_boolean, ParseError, ParseOutcome, ParseSuccess};
use ftml::tree::{AttributeMap, Bibliography, BibliographyList, Element, Elements, VariableMap, VariableScopes};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

pub const PROP: Property = Property {
    id: "C38",
    quick_cases: 150_000,
    thorough_cases: 4_000_000,
    budget: 400_000,
    over_budget: OverBudget::Discard,
    rule: "a history of at least three operations, or at least three elements",
    assumptions: &["scopes are only popped if there are any, and bibliographies asked for exist"],
    run,
};

fn elements(src: &mut Src) -> Vec<Element<'static>> {
    let v = treegen::tree(src);
    let mut es: Vec<Element<'static>> = v["elements"].as_array().unwrap().iter().map(|e| serde_json::from_str::<Element>(&e.to_string()).map(|e| e.to_owned())).filter_map(Result::ok).collect();
    es.truncate(src.weighted(&[1, 2, 3, 3, 2, 1]));
    es
}

const WORDS: &[&str] = &["a", "b", "A", "", "a ", "é", "ab", "id"];

fn cow(src: &mut Src) -> Cow<'static, str> {
    let w = src.pick_str(WORDS);
    if src.bool() {
        Cow::Borrowed(w)
    } else {
        Cow::Owned(w.to_string())
    }
}

/// The names of elements that can be in a paragraph.
const INLINE: &[&str] = &[
    "text", "raw", "variable", "email", "anchor", "anchor-name", "link", "image", "radio-button", "check-box", "footnote", "bibliography-cite", "user", "date", "color", "math-inline", "equation-reference", "line-break", "line-breaks",
];

const INLINE_CONTAINERS: &[&str] = &[
    "bold", "italics", "underline", "superscript", "subscript", "strikethrough", "monospace", "span", "mark", "insertion", "deletion", "hidden", "invisible", "size", "ruby", "ruby-text",
];

fn is_inline(e: &Element) -> bool {
    let v = to_value(e);
    match v["element"].as_str().unwrap() {
        "container" => v["data"]["type"].as_str().is_some_and(|t| INLINE_CONTAINERS.contains(&t)),
        "include" => v["data"]["paragraph-safe"] == true,
        name => INLINE.contains(&name),
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    match src.below(7) {
        0 => sequences(src, cx),
        1 => bibliographies(src, cx),
        2 => scopes(src, cx),
        3 => attributes(src, cx),
        4 => outcomes(src, cx),
        5 => booleans(src, cx),
        _ => others(src, cx),
    }
}

fn sequences(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.label("elements");
    let es = elements(src);
    announce(src, cx, &format!("{} {}", es.len(), serde_json::to_string(&es).unwrap()));
    cx.nontrivial_if(es.len() >= 3);
    let mut forms: Vec<Elements> = vec![Elements::Multiple(es.clone()), es.clone().into()];
    match es.len() {
        0 => forms.extend([Elements::None, None.into()]),
        1 => forms.extend([Elements::Single(es[0].clone()), es[0].clone().into(), Some(es[0].clone()).into()]),
        _ => (),
    }
    for f in forms {
        check!(f.len() == es.len() && f.is_empty() == es.is_empty(), "elements", "length {} of {} elements: {f:?}", f.len(), es.len());
        check!(f.as_ref() == &es[..], "elements", "{f:?} is not {es:?}");
        let (mut a, mut b) = ((&f).into_iter(), f.clone().into_iter());
        for (i, e) in es.iter().enumerate() {
            let (x, y) = (a.next(), b.next());
            check!(x == Some(e) && y.as_ref() == Some(e), "elements", "element {i} is {x:?}, {y:?}, not {e:?}");
        }
        for _ in 0..3 {
            check!(a.next().is_none() && b.next().is_none(), "elements", "more than {} elements", es.len());
        }
        let safe = es.iter().all(is_inline);
        check!(f.paragraph_safe() == safe, "paragraph-safe", "{} for {f:?}", f.paragraph_safe());
        let text = serde_json::to_string(&f).unwrap();
        let again: Elements = serde_json::from_str(&text).map_err(|e| Failure::new("elements", format!("{e}: {text}")))?;
        check!(again == f, "elements", "{again:?} is not {f:?}");
    }
    for e in &es {
        check!(e.paragraph_safe() == is_inline(e), "paragraph-safe", "{} for {e:?}", e.paragraph_safe());
    }
    Ok(())
}

fn bibliographies(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.label("bibliographies");
    let mut list = BibliographyList::new();
    let mut model: Vec<Vec<(String, Vec<Element>)>> = vec![];
    let n = src.range(1, 12);
    announce(src, cx, &format!("{n} operations on bibliographies"));
    cx.nontrivial_if(n >= 3);
    let text = |s: usize| vec![Element::Text(Cow::Owned(format!("x{s}")))];
    for i in 0..n {
        let one = |src: &mut Src| {
            let (mut b, mut m): (Bibliography, Vec<(String, Vec<Element>)>) = (Bibliography::new(), vec![]);
            for j in 0..src.below(5) {
                let label = cow(src);
                if m.iter().all(|(l, _)| *l != label) {
                    m.push((label.to_string(), text(10 * i + j)));
                }
                b.add(label, text(10 * i + j));
            }
            (b, m)
        };
        match src.weighted(&[6, 2, 2]) {
            0 => {
                let (b, m) = one(src);
                check!(b.slice().iter().map(|(l, e)| (l.to_string(), e.clone())).collect::<Vec<_>>() == m, "bibliography", "{b:?} is not {m:?}");
                check!(b.to_owned() == b, "bibliography", "{:?} is not {b:?}", b.to_owned());
                for w in WORDS {
                    let want = m.iter().position(|(l, _)| l == w).map(|i| (i + 1, &m[i].1[..]));
                    check!(b.get(w) == want, "bibliography", "{w:?} is {:?}, not {want:?}", b.get(w));
                }
                list.push(b);
                model.push(m);
            }
            1 => {
                let mut other = BibliographyList::new();
                for _ in 0..src.below(3) {
                    let (b, m) = one(src);
                    other.push(b);
                    model.push(m);
                }
                list.append(&mut other);
                check!(other.next_index() == 0, "bibliography", "{other:?} is left over");
            }
            _ => {
                let len = src.below(5);
                list.truncate(len);
                model.truncate(len);
            }
        }
        cx.input += &format!("\n{model:?}");
        check!(list.next_index() == model.len(), "bibliography", "{} bibliographies, not {}", list.next_index(), model.len());
        for (i, m) in model.iter().enumerate() {
            let b = list.get_bibliography(i);
            check!(b.slice().iter().map(|(l, e)| (l.to_string(), e.clone())).collect::<Vec<_>>() == *m, "bibliography", "bibliography {i} is {b:?}, not {m:?}");
        }
        for w in WORDS {
            // Of the first one that has it.
            let want = model.iter().find_map(|m| m.iter().position(|(l, _)| l == w).map(|i| (i + 1, &m[i].1[..])));
            check!(list.get_reference(w) == want, "bibliography", "{w:?} is {:?}, not {want:?}", list.get_reference(w));
        }
        check!(list.to_owned() == list, "bibliography", "{:?} is not {list:?}", list.to_owned());
    }
    Ok(())
}

fn scopes(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.label("variables");
    let mut scopes = VariableScopes::new();
    let mut model: Vec<HashMap<String, String>> = vec![];
    let n = src.range(1, 12);
    announce(src, cx, &format!("{n} operations on scopes"));
    cx.nontrivial_if(n >= 3);
    for i in 0..n {
        let before = scopes.clone();
        if src.chance(2, 5) && !model.is_empty() {
            scopes.pop_scope();
            model.pop();
        } else {
            let mut map: VariableMap = HashMap::new();
            for j in 0..src.below(4) {
                map.insert(cow(src), Cow::Owned(if src.chance(1, 4) { String::new() } else { format!("v{i}.{j}") }));
            }
            scopes.push_scope(&map);
            model.push(map.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect());
            let mut again = scopes.clone();
            again.pop_scope();
            check!(again == before, "scopes", "{again:?} after a scope that was {before:?} before it");
        }
        cx.input += &format!("\n{:?}", model.iter().map(|m| m.iter().collect::<BTreeMap<_, _>>()).collect::<Vec<_>>());
        for w in WORDS {
            let want = model.iter().rev().find_map(|m| m.get(*w)).map(String::as_str);
            check!(scopes.get(w) == want, "scopes", "{w:?} is {:?}, not {want:?}", scopes.get(w));
        }
    }
    Ok(())
}

fn attributes(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.label("attributes");
    let mut map = AttributeMap::new();
    let mut model: BTreeMap<String, String> = BTreeMap::new();
    let n = src.range(1, 12);
    announce(src, cx, &format!("{n} operations on attributes"));
    cx.nontrivial_if(n >= 3);
    let mut settings = page_settings();
    for _ in 0..n {
        let key = match src.below(3) {
            0 => src.pick_str(&["id", "class", "style", "onclick", "data-x", "href", "title"]),
            1 => src.pick_str(attrs::SAFE),
            _ => src.pick_str(attrs::UNSAFE),
        };
        match src.weighted(&[8, 3, 1, 1, 1]) {
            0 => {
                let value = src.pick_str(&["x", "", "a b", "u-x", " y  u-z ", "javascript:x", "true"]);
                let safe = attrs::is_safe(key);
                check!(map.insert(key, Cow::Borrowed(value)) == safe, "attributes", "{key} is safe: {safe}");
                if safe {
                    model.insert(key.into(), value.into());
                }
            }
            1 => {
                let (a, b) = (map.remove(key), model.remove(key));
                check!(a.as_deref() == b.as_deref(), "attributes", "{key} was {a:?}, not {b:?}");
            }
            2 => {
                settings.isolate_user_ids = src.bool();
                map.isolate_id(&settings);
                if settings.isolate_user_ids {
                    if let Some(id) = model.get_mut("id") {
                        *id = isolate(id);
                    }
                }
            }
            3 => {
                map = map.to_owned();
            }
            _ => {
                let text = serde_json::to_string(&map).unwrap();
                check!(text == serde_json::to_string(&model).unwrap(), "attributes", "{text} is not {model:?}");
                map = serde_json::from_str::<AttributeMap>(&text).map_err(|e| Failure::new("attributes", format!("{e}: {text}")))?.to_owned();
            }
        }
        cx.input += &format!("\n{model:?}");
        let now: BTreeMap<String, String> = map.get().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        check!(now == model, "attributes", "{now:?} is not {model:?}");
        let same: AttributeMap = map.get().clone().into();
        check!(same == map, "attributes", "{same:?} is not {map:?}");
    }
    Ok(())
}

fn outcomes(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.label("results");
    let text = gen::soup(src);
    announce(src, cx, &text);
    let (_, errors) = parse_page(&text);
    cx.nontrivial_if(errors.len() >= 3);
    let mut all: Vec<ParseError> = vec![];
    let mut safe = true;
    let (mut want, mut want_safe) = (vec![], true);
    let mut rest = &errors[..];
    let mut value = 1;
    while !rest.is_empty() || value == 1 {
        let (now, later) = rest.split_at(src.range(0, rest.len().min(3)));
        let paragraph = src.chance(3, 4);
        let s: ParseSuccess<i32> = ParseSuccess::new(value, now.to_vec(), paragraph);
        let s = s.map(|x| x * 2);
        check!(s.item == 2 * value && s.errors == now && s.paragraph_safe == paragraph, "result", "{s:?}");
        let s = s.map_ok(|x| x + 1).unwrap();
        let (x, e, p) = s.clone().into();
        check!(x == 2 * value + 1 && e == now && p == paragraph, "result", "{s:?}");
        check!(ParseSuccess::<()>::new((), now.to_vec(), paragraph).into_errors() == now, "result", "{now:?}");
        let item = s.chain(&mut all, &mut safe);
        want.extend(now.iter().cloned());
        want_safe &= paragraph;
        check!(item == 2 * value + 1 && all == want && safe == want_safe, "result", "{all:?} is not {want:?}");
        rest = if value > 12 { &[] } else { later };
        value += 1;
    }
    // An outcome, with more that are pushed to it.
    let (a, b) = errors.split_at(src.range(0, errors.len()));
    let mut o = ParseOutcome::new(vec!["x"], a.to_vec());
    for e in b {
        o.push("y");
        check!(o.errors() == a, "outcome", "{o:?} after {e:?}");
    }
    let want: Vec<&str> = std::iter::once("x").chain(b.iter().map(|_| "y")).collect();
    check!(*o.value() == want && o.errors() == a, "outcome", "{o:?} is not {want:?}");
    let (value, left): (Vec<&str>, Vec<ParseError>) = o.into();
    check!(value == want && left == a, "outcome", "{value:?} is not {want:?}");
    Ok(())
}

fn booleans(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.label("booleans");
    let word = src.pick_str(&["true", "false", "t", "f", "1", "0", "yes", "no", "y", "n", "on", "off", "", "01", "tru", "truee", "nope", "ye", "ｔ"]);
    let mut t: String = word.chars().map(|c| if src.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect();
    if src.chance(1, 3) {
        t = format!("{}{t}{}", src.pick_str(&["", " ", "\t", "\n ", "\u{a0}", "\"", "-"]), src.pick_str(&["", " ", "  ", "\n", "\u{3000}", ".", "e"]));
    }
    announce(src, cx, &t);
    let want = match t.trim().to_ascii_lowercase().as_str() {
        "true" | "t" | "1" | "yes" => Some(true),
        "false" | "f" | "0" | "no" => Some(false),
        _ => None,
    };
    check!(parse_boolean(&t).ok() == want, "boolean", "{t:?} is {:?}, not {want:?}", parse_boolean(&t));
    cx.nontrivial_if(t != word);
    Ok(())
}

fn others(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.label("references");
    let site = src.bool().then(|| cow(src));
    let page = cow(src);
    let mut map: VariableMap = HashMap::new();
    for i in 0..src.below(4) {
        map.insert(cow(src), Cow::Owned(format!("v{i}")));
    }
    announce(src, cx, &format!("{site:?} {page:?} {map:?}"));
    let r = match &site {
        Some(s) => PageRef::page_and_site(s.clone(), page.clone()),
        None => PageRef::page_only(page.clone()),
    };
    check!(r.site() == site.as_deref() && r.page() == page && r.fields() == (site.as_deref(), &*page), "reference", "{r:?}");
    check!(r.fields_or("here") == (site.as_deref().unwrap_or("here"), &*page), "reference", "{r:?}");
    check!(r.to_owned() == r, "reference", "{r:?}");
    let i = IncludeRef::new(r.clone(), map.clone());
    check!(*i.page_ref() == r && *i.variables() == map, "include", "{i:?}");
    let (x, y): (PageRef, VariableMap) = i.clone().into();
    check!(x == r && y == map, "include", "{i:?}");
    let only = IncludeRef::page_only(r.clone());
    check!(*only.page_ref() == r && only.variables().is_empty(), "include", "{only:?}");
    check!((only == i) == map.is_empty(), "include", "{only:?} {i:?}");
    let b = Backlinks::new();
    check!(b.included_pages.is_empty() && b.internal_links.is_empty() && b.external_links.is_empty(), "backlinks", "{b:?}");
    cx.nontrivial_if(map.len() >= 2);
    Ok(())
}
