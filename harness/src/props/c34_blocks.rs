//! C34: code blocks and HTML blocks are gathered, names are unique.

use crate::common::*;
use crate::contexts::{place_in, Placed};
use crate::engine::*;
use crate::{check, html as strict};
use serde_json::{json, Value};

pub const PROP: Property = Property {
    id: "C34",
    quick_cases: 100_000,
    thorough_cases: 3_000_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "at least three gathered blocks, one of them within other constructs, or a name used twice",
    assumptions: &[],
    run,
};

/// Names and their normal form.
const NAMES: &[(&str, &str)] = &[("x", "x"), ("X", "x"), ("y", "y"), ("a b", "a-b"), ("a-b", "a-b"), ("A_B", "a-b"), ("x.py", "x-py"), ("", ""), ("日本", "日本"), ("-x-", "x"), ("cat:y", "cat:y"), ("y2", "y2")];
const LANGUAGES: &[(&str, &str)] = &[("css", "css"), ("CSS", "css"), ("Rust", "rust"), ("c++", "c++"), ("", ""), ("É", "É")];

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let settings = page_settings();
    let mut text = String::new();
    let mut codes: Vec<(String, Option<&str>)> = vec![];
    let mut htmls: Vec<String> = vec![];
    let mut shown: Vec<Value> = vec![];
    let mut nested = false;
    let mut twice = false;
    for part in 0..src.range(1, 6) {
        if part > 0 {
            text += "\n\n";
        }
        let body = match src.below(6) {
            0 => String::new(),
            1 => format!("b{part}"),
            2 => format!("b{part}\n\n  c"),
            3 => format!("b{part} [[span]]"),
            4 => format!("b{part} & <i> \"q\""),
            _ => format!("[[div]] b{part}\n+ x\n* y"),
        };
        // Newlines around the contents are not part of them.
        let (open, close) = if body.contains('\n') || !body.is_empty() && src.bool() { ("\n", "\n") } else { ("", "") };
        let mut name = None;
        let mut language = None;
        let mut live = true;
        let code = src.chance(2, 3);
        let core = if code {
            let mut args = vec![];
            if src.chance(2, 3) {
                let (w, n) = *src.pick(NAMES);
                args.push(format!("{}=\"{w}\"", src.pick_str(&["name", "name", "Name"])));
                name = Some(n);
            }
            if src.chance(1, 3) {
                let (w, n) = *src.pick(LANGUAGES);
                args.push(format!("{}=\"{w}\"", src.pick_str(&["type", "TYPE"])));
                language = Some(n);
            }
            if src.bool() {
                args.reverse();
            }
            let head: String = args.iter().map(|a| format!(" {a}")).collect();
            let n = src.pick_str(&["code", "code", "CODE", "Code"]);
            format!("[[{n}{head}]]{open}{body}{close}[[/{n}]]")
        } else {
            let head = if src.chance(1, 12) { " x" } else { "" };
            live = head.is_empty();
            let n = src.pick_str(&["html", "HTML"]);
            format!("[[{n}{head}]]{open}{body}{close}[[/{n}]]")
        };
        // Blocks that fail have contents that are parsed, these get no contexts.
        let duplicate = name.is_some_and(|n| codes.iter().any(|(_, o)| *o == Some(n)));
        let p = if duplicate || !live { Placed { text: core, live: true, failed: false, depth: 0 } } else { place_in(src, &core, true, false) };
        text += &p.text;
        if p.live {
            twice |= duplicate;
        }
        cx.label_if(p.live && duplicate, "duplicate name");
        cx.label_if(p.failed, "in a failing construct");
        cx.label_if(!p.live, "not counted");
        if p.live && live && !duplicate {
            nested |= p.depth > 0;
            if code {
                codes.push((body.clone(), name));
                shown.push(json!({"element": "code", "data": {"contents": body, "language": language}}));
            } else {
                htmls.push(body.clone());
                shown.push(json!({"element": "html", "data": {"contents": body}}));
            }
        }
    }
    announce(src, cx, &text);
    if prep(&text) != text {
        cx.discarded = true;
        return Ok(());
    }
    let (tree, _) = parse_raw(&text, &info(), &settings);
    let v = to_value(&tree);
    let want: Vec<_> = codes.iter().map(|(c, n)| json!({"contents": c, "name": n})).collect();
    check!(v["code-blocks"] == json!(want), "code-blocks", "code blocks {}, wanted {}", v["code-blocks"], json!(want));
    check!(v["html-blocks"] == json!(htmls), "html-blocks", "HTML blocks {}, wanted {}", v["html-blocks"], json!(htmls));
    let mut found = vec![];
    collect(&v["elements"], &mut found);
    check!(found == shown, "elements", "elements {found:?}, wanted {shown:?}");
    let out = html(&tree, &info(), &settings);
    let nodes = strict::parse(&out.body).map_err(|e| Failure::new("malformed-html", format!("{e}\n{}", out.body)))?;
    let sources: Vec<_> = strict::find_all(&nodes, |e| e.tag == "code" && !e.has_class("wj-math-source")).iter().map(|e| strict::text_of(&e.children)).collect();
    let want: Vec<_> = codes.iter().map(|(c, _)| c.clone()).collect();
    check!(sources == want, "html", "code {sources:?}, wanted {want:?}\n{}", out.body);
    cx.nontrivial_if(twice || nested && shown.len() >= 3);
    Ok(())
}

fn collect(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Object(o) => {
            if o.get("element").is_some_and(|e| matches!(e.as_str(), Some("code" | "html"))) {
                out.push(v.clone());
            }
            o.values().for_each(|x| collect(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| collect(x, out)),
        _ => (),
    }
}
