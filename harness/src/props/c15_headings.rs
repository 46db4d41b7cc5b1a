//! C15: headings and the table of contents.

use crate::common::*;
use crate::contexts::place_in;
use crate::engine::*;
use crate::{check, html as strict};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C15",
    quick_cases: 80_000,
    thorough_cases: 3_000_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "at least three headings with different levels, one of them within other constructs",
    assumptions: &["headings within footnotes are left out: these are shown twice"],
    run,
};

/// Headings with their plain text.
const NAMES: &[(&str, &str)] = &[
    ("{}", "{}"),
    ("{}", "{}"),
    ("{} two", "{} two"),
    ("**{}** x", "{} x"),
    ("x //{}//", "x {}"),
    ("[[[page|{}]]] y", "{} y"),
    ("[[[page-{}]]]", "page-{}"),
    ("[[span class=\"a\"]]{}[[/span]] t", "{} t"),
    ("@@{} **<@@", "{} **<"),
    ("{{{}}} ^^s^^ ,,t,,", "{} s t"),
    ("{} -- b << c", "{} — b « c"),
    ("https://example.com/ {}", "https://example.com/ {}"),
    ("{}[[footnote]]fn[[/footnote]] w", "{} w"),
    ("[[image a.png]] {}", " {}"),
    ("##red|{}## w", "{} w"),
    ("[[user bob]] {}", "bob {}"),
    ("{} [!-- c --] y", "{}  y"),
    ("[[ruby]]{}[[rt]]b[[/rt]][[/ruby]]", "{}(b)"),
    ("[[a href=\"/x\"]]l {}[[/a]]", "l {}"),
    ("+ {}", "+ {}"),
    ("* {}", "* {}"),
    ("{} [[char amp]] <b>", "{} & <b>"),
    ("[[iftags +scp]]{}[[/iftags]][[iftags -scp]]no[[/iftags]]", "{}"),
    ("[[span]]{}", "[[span]]{}"),
    ("[[collapsible]]{}[[/collapsible]]", "{}"),
    ("日本語 {}", "日本語 {}"),
    ("# {} #", "# {} #"),
    ("{} [[nothing]]", "{} [[nothing]]"),
    ("{} [[image a.png]]", "{} "),
    ("{} [[footnote]]a[[/footnote]]", "{} "),
    // With nothing to show.
    ("[[image {}.png]]", ""),
    ("[[footnote]]{}[[/footnote]]", ""),
    ("[[hidden]]{}[[/hidden]]", ""),
    ("[[span]][[/span]]", ""),
    ("[[iftags -scp]]{}[[/iftags]]", ""),
    ("[[# {}]]", ""),
    ("@@@@", ""),
    ("\u{3000}{}\u{3000}", "\u{3000}{}\u{3000}"),
    ("«{}» “q” <i> &amp;", "«{}» “q” <i> &amp;"),
];

struct Heading {
    level: usize,
    toc: bool,
    name: String,
}

/// The list of the table of contents. All are deeper than `level` or of that level.
fn list(items: &[(usize, usize, &str)], level: usize) -> Value {
    let mut out = vec![];
    let mut i = 0;
    while i < items.len() {
        let (l, n, name) = items[i];
        if l == level {
            let link = json!({"element": "link", "data": {"type": "table-of-contents", "link": format!("#toc{n}"), "extra": null, "label": {"text": name}, "target": null}});
            out.push(json!({"item-type": "elements", "attributes": {}, "elements": [link]}));
            i += 1;
        } else {
            let start = i;
            while i < items.len() && items[i].0 > level {
                i += 1;
            }
            let mut sub = list(&items[start..i], level + 1);
            sub["item-type"] = json!("sub-list");
            out.push(sub);
        }
    }
    json!({"element": "list", "data": {"type": "bullet", "attributes": {}, "items": out}})
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut settings = page_settings();
    settings.use_true_ids = src.bool();
    let mut text = String::new();
    let mut heads: Vec<Heading> = vec![];
    let mut tocs = 0;
    let mut nested = false;
    let mut id = 0;
    for part in 0..src.range(1, 6) {
        if part > 0 {
            text += "\n\n";
        }
        if src.chance(1, 6) {
            let t = src.pick_str(&["[[toc]]", "[[f>toc]]", "[[TOC]]", "[[f<toc class=\"a\"]]", "[[toc ]]"]);
            let p = place_in(src, t, true, false);
            tocs += p.live as usize;
            text += &p.text;
            cx.label("toc block");
            continue;
        }
        // A group of lines.
        let mut core = String::new();
        let mut group: Vec<Heading> = vec![];
        for line in 0..src.range(1, 3) {
            if line > 0 {
                core += src.pick_str(&["\n", "\n", "\n\n"]);
            }
            if src.chance(1, 4) {
                core += src.pick_str(&["words", "a\nb", "++++++* none", "+nospace", "+++++++ seven", "x + y", "++++++++* eight", "* item\n* item", "> quoted\n> + no", "@@+ x@@"]);
                // That one is a heading.
                if core.ends_with("none") {
                    group.push(Heading { level: 6, toc: false, name: "none".into() });
                }
                // What follows is another paragraph.
                core += "\n";
                continue;
            }
            let level = src.range(1, 6);
            let toc = src.chance(4, 5);
            let (t, n) = *src.pick(NAMES);
            let word = format!("h{id}");
            id += 1;
            core += &format!("{}{} {}", "+".repeat(level), if toc { "" } else { "*" }, t.replace("{}", &word));
            group.push(Heading { level, toc, name: n.replace("{}", &word) });
        }
        let comment = core.contains("--]") || core.contains("@@") || core.contains("**") || core.contains("//");
        let p = if comment { place_in(&mut Src::replay(vec![]), &core, true, false) } else { place_in(src, &core, true, false) };
        text += &p.text;
        nested |= p.depth > 0;
        cx.label_if(p.failed, "in a failing construct");
        if p.live {
            heads.extend(group);
        } else {
            cx.label("not counted");
        }
    }
    while text.contains("\n\n\n") {
        text = text.replace("\n\n\n", "\n\n");
    }
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    let (tree, _) = parse_raw(&text, &info(), &settings);
    let items: Vec<_> = heads.iter().filter(|h| h.toc).enumerate().map(|(n, h)| (h.level - 1, n, h.name.as_str())).collect();
    let want = if items.is_empty() { json!([]) } else { json!([list(&items, 0)]) };
    let actual = to_value(&tree.table_of_contents);
    check!(actual == want, "table", "{}\nactual: {actual}", diff(&want, &actual));
    // The headings.
    let v = to_value(&tree.elements);
    let mut levels = vec![];
    let mut blocks = 0;
    collect(&v, &mut levels, &mut blocks);
    let wanted: Vec<_> = heads.iter().map(|h| (h.level as u64, h.toc)).collect();
    check!(levels == wanted, "headings", "headings {levels:?}, wanted {wanted:?}");
    check!(blocks == tocs, "blocks", "{blocks} tables of contents, wanted {tocs}");
    // In the HTML.
    let out = html(&tree, &info(), &settings);
    let nodes = strict::parse(&out.body).map_err(|e| Failure::new("malformed-html", format!("{e}\n{}", out.body)))?;
    let found = strict::find_all(&nodes, |e| e.tag.len() == 2 && e.tag.starts_with('h') && e.tag != "hr");
    check!(found.len() == heads.len(), "html", "{} headings, wanted {}: {}", found.len(), heads.len(), out.body);
    let mut n = 0;
    for (e, h) in found.iter().zip(&heads) {
        check!(e.tag == format!("h{}", h.level), "html", "<{}> for {}", e.tag, h.level);
        match (h.toc, settings.use_true_ids) {
            (false, _) => check!(e.attr("id").is_none(), "html", "a heading that is not in the table of contents has the ID {:?}", e.attr("id")),
            (true, true) => check!(e.attr("id").unwrap_or("") == format!("toc{n}"), "html", "the heading number {n} has the ID {:?}", e.attr("id")),
            (true, false) => check!(e.attr("id").is_some_and(|i| !i.starts_with("toc")), "html", "the heading number {n} has the ID {:?}", e.attr("id")),
        }
        n += h.toc as usize;
    }
    let lists = strict::find_all(&nodes, |e| e.attr("href").is_some_and(|h| h.starts_with("#toc")));
    check!(lists.len() == tocs * items.len(), "html", "{} links in tables of contents, wanted {} times {}", lists.len(), tocs, items.len());
    for (i, e) in lists.iter().enumerate() {
        let (_, n, name) = items[i % items.len()];
        let label = strict::text_of(&e.children);
        check!(e.attr("href").unwrap_or("") == format!("#toc{n}") && label == name, "html", "link {i} leads to {:?} with {label:?}, wanted {n} {name:?}", e.attr("href"));
    }
    let depths: std::collections::BTreeSet<_> = heads.iter().map(|h| h.level).collect();
    cx.label_if(tocs > 0 && !items.is_empty(), "shown");
    cx.nontrivial_if(heads.len() >= 3 && nested && depths.len() > 1);
    Ok(())
}

fn collect(v: &Value, levels: &mut Vec<(u64, bool)>, blocks: &mut usize) {
    match v {
        Value::Object(o) => {
            *blocks += (o.get("element").is_some_and(|e| e.as_str() == Some("table-of-contents"))) as usize;
            if let Some(h) = o.get("type").and_then(|t| t.get("header")) {
                levels.push((h["level"].as_u64().unwrap_or(0), h["has-toc"].as_bool().unwrap_or(false)));
            }
            o.values().for_each(|x| collect(x, levels, blocks));
        }
        Value::Array(a) => a.iter().for_each(|x| collect(x, levels, blocks)),
        _ => (),
    }
}
