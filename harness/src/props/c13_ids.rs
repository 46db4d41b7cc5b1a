//! C13: IDs of users are kept apart from those that ftml makes.

use crate::attrs::{self, isolate, HOSTS};
use crate::common::*;
use crate::engine::*;
use crate::{check, gen, html as strict};

pub const PROP: Property = Property {
    id: "C13",
    quick_cases: 150_000,
    thorough_cases: 2_000_000,
    budget: 1_500_000,
    over_budget: OverBudget::Discard,
    rule: "at least two IDs of users that have no prefix of their own",
    assumptions: &["in free-form documents IDs of the form that ftml makes itself are not told apart from those of users"],
    run,
};

const NAMES: &[&str] = &[
    "apple", "toc0", "toc1", "wj-toc", "wj-toc-list", "wj-id-x", "u-apple", "u-", "u", "U-apple", "-", "x1", "é", "日本", "wj-body", "bibitem-1-1", "wj-bibliography-item-1-1", "u-u-x", "a-u-b", "ua",
    "a.b", "_x", "top", "id", "1", "main", "0-0", "toc", "tocs", "page-content", "u_x", "--u-x", "wj-",
];

/// An ID that ftml makes by itself.
fn generated(id: &str, true_ids: bool) -> bool {
    let digits = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
    let pair = |s: &str| s.split_once('-').is_some_and(|(a, b)| digits(a) && digits(b));
    match true_ids {
        true if ["wj-toc", "wj-toc-action-bar", "wj-toc-list"].contains(&id) => true,
        true if id.strip_prefix("toc").is_some_and(digits) => true,
        _ => {
            id.strip_prefix("wj-id-").is_some_and(|r| r.len() == 16 && r.chars().all(|c| c.is_ascii_alphanumeric()))
                || id.strip_prefix("wj-bibliography-item-").is_some_and(pair)
                || id.strip_prefix("bibitem-").is_some_and(pair)
        }
    }
}

fn ids(body: &str) -> Result<Vec<String>, Failure> {
    let nodes = strict::parse(body).map_err(|e| Failure::new("malformed", format!("{e}\n{body}")))?;
    let mut out = vec![];
    strict::walk(&nodes, &mut |e| out.extend(e.attr("id").unwrap_or("").split_whitespace().map(String::from)));
    Ok(out)
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut settings = page_settings();
    settings.use_true_ids = src.bool();
    if src.chance(1, 4) {
        // Any document.
        settings.isolate_user_ids = true;
        let text = gen::document(src);
        announce(src, cx, &text);
        cx.label("any document");
        let (tree, _) = parse(&text, &info(), &settings);
        let out = html(&tree, &info(), &settings);
        for id in ids(&out.body)? {
            check!(id.starts_with("u-") || generated(&id, settings.use_true_ids), "not-isolated", "ID {id:?} of a user is not isolated: {}", out.body);
        }
        return Ok(());
    }
    settings.isolate_user_ids = src.chance(3, 4);
    let mut text = String::new();
    // IDs in their order; `None` is one that ftml makes.
    let mut want: Vec<Option<String>> = vec![];
    let mut plain = 0;
    let (mut headings, mut bibs) = (0, 0);
    for i in 0..src.range(1, 5) {
        if i > 0 {
            text += "\n\n";
        }
        let name = src.pick_str(NAMES);
        let mut user = |v: &str, want: &mut Vec<Option<String>>| {
            let v = if settings.isolate_user_ids { isolate(v) } else { v.to_string() };
            plain += v.split_whitespace().filter(|w| *w != name || !w.starts_with("u-")).count();
            want.extend(v.split_whitespace().map(|w| Some(w.to_string())));
        };
        match src.weighted(&[3, 3, 8, 2, 1, 1, 1]) {
            0 => {
                text += &format!("x [[# {name}]] y");
                user(name, &mut want);
            }
            1 => {
                let block = src.pick_str(&["target", "anchortarget", "TARGET"]);
                text += &format!("x [[{block} {name}]]y");
                user(name, &mut want);
            }
            2 => {
                let (host, template) = *src.pick(HOSTS);
                if host == "module-join" || host.ends_with("toc") {
                    text += "x";
                    continue;
                }
                let n = src.weighted(&[1, 6, 3, 1]);
                let mut value = src.pick_str(&["", "", " "]).to_string();
                for _ in 0..n {
                    value += src.pick_str(NAMES);
                    value += src.pick_str(&[" ", " ", "  ", "\t"]);
                }
                if n > 0 && src.bool() {
                    value.truncate(value.trim_end().len());
                }
                let mut args = vec![(src.pick_str(&["id", "id", "ID", "Id"]).to_string(), value.clone())];
                if src.chance(1, 3) {
                    args.insert(src.below(2), (src.pick_str(&["class", "title", "data-id", "name"]).into(), "toc0".into()));
                }
                text += &template.replace("{}", &attrs::write(src, &args));
                user(&value, &mut want);
            }
            3 => {
                let level = src.range(1, 6);
                text += &format!("{} {}", "+".repeat(level), gen::word(src));
                want.push(settings.use_true_ids.then(|| format!("toc{headings}")));
                headings += 1;
            }
            4 => {
                text += "[[tabview]]\n[[tab A]]\nx\n[[/tab]]\n[[tab B]]\ny\n[[/tab]]\n[[/tabview]]";
                want.extend([None, None, None, None]);
            }
            5 => {
                bibs += 1;
                text += &format!("[[bibliography]]\n: b{bibs} : x\n: c{bibs} : y\n[[/bibliography]]");
                for n in 1..=2 {
                    want.push(Some(format!("wj-bibliography-item-{bibs}-{n}")));
                    want.push(Some(format!("bibitem-{bibs}-{n}")));
                }
            }
            _ => {
                text += "[[toc]]";
                if settings.use_true_ids {
                    want.extend(["wj-toc", "wj-toc-action-bar", "wj-toc-list"].map(|w| Some(w.to_string())));
                }
            }
        }
    }
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    cx.label(if settings.isolate_user_ids { "isolated" } else { "not isolated" });
    let (tree, errors) = parse_raw(&text, &info(), &settings);
    check!(errors.is_empty(), "errors", "{errors:?}");
    let out = html(&tree, &info(), &settings);
    let got = ids(&out.body)?;
    let fits = got.len() == want.len()
        && got.iter().zip(&want).all(|(g, w)| match w {
            Some(w) => g == w,
            None => g.starts_with("wj-id-") && generated(g, false),
        });
    check!(fits, "ids", "IDs {got:?}, wanted {want:?} (None for a random one)\n{}", out.body);
    cx.nontrivial_if(plain >= 2);
    Ok(())
}
