//! C19: conditional blocks show their contents, or nothing of them.

use crate::common::*;
use crate::engine::*;
use crate::{check, html as strict};
use ftml::data::PageInfo;
use serde_json::Value;
use std::borrow::Cow;

pub const PROP: Property = Property {
    id: "C19",
    quick_cases: 80_000,
    thorough_cases: 4_000_000,
    budget: 3_000_000,
    over_budget: OverBudget::Discard,
    rule: "at least two conditionals, one with several conditions, of which one is shown and one is hidden",
    assumptions: &[
        "contents of conditionals are inline markup within a line, or one block or item on lines of its own",
        "each line, list and table with conditionals starts with something unconditional",
    ],
    run,
};

const TAGS: &[&str] = &["scp", "tale", "joke", "hub", "_x", "SCP", "a:b", "ünï", "scp-x", "+scp", "-hub", "a\u{3000}b", "\u{a0}x", "-x"];

struct Gen<'s> {
    src: &'s mut Src,
    info: PageInfo<'static>,
    shown: usize,
    hidden: usize,
    many: bool,
    id: usize,
}

/// As written, and without its conditionals.
type Pair = (String, String);

impl Gen<'_> {
    /// The head of a conditional and whether it holds.
    fn condition(&mut self) -> (String, &'static str, bool) {
        let n = self.src.weighted(&[0, 20, 16, 12, 4, 1, 2, 1]);
        let category = self.src.chance(1, 4);
        let mut spec = vec![];
        let (mut required, mut some, mut none, mut any) = (true, false, true, false);
        for _ in 0..n {
            let word = if category { self.src.pick_str(&["_default", "scp", "fragment", "Scp", "nav"]) } else { self.src.pick_str(TAGS) };
            let has = if category { self.info.category.as_deref().unwrap_or("_default") == word } else { self.info.tags.iter().any(|t| t == word) };
            // A page has one category, so that requiring two of them makes no sense.
            match (self.src.below(3), category) {
                (0, _) => {
                    none &= !has;
                    spec.push(format!("-{word}"));
                }
                (1, false) => {
                    required &= has;
                    spec.push(format!("+{word}"));
                }
                (k, _) => {
                    if k == 2 && word.starts_with('+') {
                        // That is a required tag without its sign.
                        let has = self.info.tags.iter().any(|t| *t == word[1..]);
                        required &= has;
                        spec.push(word.to_string());
                        continue;
                    }
                    if k == 2 && word.starts_with('-') {
                        let has = self.info.tags.iter().any(|t| *t == word[1..]);
                        none &= !has;
                        spec.push(word.to_string());
                        continue;
                    }
                    any = true;
                    some |= has;
                    spec.push(if k == 1 { format!("+{word}") } else { word.to_string() });
                }
            }
        }
        let holds = required && none && (!any || some);
        if holds {
            self.shown += 1;
        } else {
            self.hidden += 1;
        }
        self.many |= n > 1;
        let (name, end) = if category { *self.src.pick(&[("ifcategory", "ifcategory"), ("IfCategory", "IFCATEGORY")]) } else { *self.src.pick(&[("iftags", "iftags"), ("IFTAGS", "iftags"), ("ifTags", "ifTags")]) };
        let gap = self.src.pick_str(&[" ", " ", "  "]);
        (format!("[[{name} {}]]", spec.join(gap)), end, holds)
    }

    fn wrap(&mut self, inner: Pair, lines: bool) -> Pair {
        let (head, end, holds) = self.condition();
        let nl = if lines { "\n" } else { "" };
        (format!("{head}{nl}{}{nl}[[/{end}]]", inner.0), if holds { inner.1 } else { String::new() })
    }

    fn same(&mut self, t: &str) -> Pair {
        self.id += 1;
        let t = t.replace("{}", &format!("w{}", self.id));
        (t.clone(), t)
    }

    fn atom(&mut self) -> Pair {
        let t = self.src.pick_str(&[
            "{}", "{}", "**{}**", "{} //i//", "[[footnote]]{} n[[/footnote]]", "[[span class=\"a\"]]{}[[/span]]", "[[$ {} $]]", "[[[page|{}]]]", "((bibcite a))", "##red|{}##", "@@{} <@@", "[[user {}]]", "[https://example.com/ {}]", "[[*user bob]]", "[[checkbox]].", "{} -- x",
        ]);
        self.same(t)
    }

    /// Without spaces around it.
    fn inline(&mut self, depth: usize) -> Pair {
        let mut out = (String::new(), String::new());
        for i in 0..self.src.range(1, 3) {
            if i > 0 {
                out.0.push(' ');
                out.1.push(' ');
            }
            let p = match self.src.below(if depth == 0 { 2 } else { 5 }) {
                0 | 1 => self.atom(),
                2 | 3 => {
                    let inner = self.inline(depth - 1);
                    self.wrap(inner, false)
                }
                _ => {
                    let t = self.src.pick_str(&["[[span]]w {} z[[/span]]", "[[b]]w {} z[[/b]]", "[[footnote]]w {} z[[/footnote]]", "[[size 80%]]w {} z[[/size]]"]);
                    let mut inner = self.inline(depth - 1);
                    if t.contains("footnote") {
                        // No footnotes in these.
                        let no = |s: &str| s.replace("[[footnote]]", "[[b]]").replace("[[/footnote]]", "[[/b]]");
                        inner = (no(&inner.0), no(&inner.1));
                    }
                    (t.replace("{}", &inner.0), t.replace("{}", &inner.1))
                }
            };
            out.0 += &p.0;
            out.1 += &p.1;
        }
        out
    }

    fn line(&mut self) -> Pair {
        let t = self.src.pick_str(&["w {} z", "w {} z", "w {} z", "* w {} z\n* x", "> w {} z", "+ w {} z", "||w {} z||x||", ": k : w {} z", "# w {} z"]);
        let inner = self.inline(2);
        (t.replace("{}", &inner.0), t.replace("{}", &inner.1))
    }

    fn block(&mut self, depth: usize) -> Pair {
        let items = |g: &mut Self, open: &str, close: &str, first: &str, item: &str| {
            let mut out = (format!("{open}\n{first}\n"), format!("{open}\n{first}\n"));
            for _ in 0..g.src.range(0, 3) {
                let inner = g.inline(1);
                let mut p = (item.replace("{}", &inner.0), item.replace("{}", &inner.1));
                for _ in 0..g.src.weighted(&[2, 3, 1]) {
                    p = g.wrap(p, true);
                }
                out.0 += &p.0;
                out.0.push('\n');
                if !p.1.is_empty() {
                    out.1 += &p.1;
                    out.1.push('\n');
                }
            }
            out.0 += close;
            out.1 += close;
            out
        };
        match self.src.below(if depth == 0 { 2 } else { 10 }) {
            0 => {
                let t = self.src.pick_str(&[
                    "[[code]]\n{}\n[[/code]]", "[[code name=\"x\"]]\n{}\n[[/code]]", "[[html]]\n{}\n[[/html]]", "[[footnoteblock title=\"{}\"]]", "[[bibliography]]\n: a : {}\n[[/bibliography]]", "[[toc]]", "[[math]]\n{}\n[[/math]]", "[[module CSS]]\n{}\n[[/module]]", "[[image {}.png]]",
                    "[[module Rate]]", "[[iframe https://example.com/{}]]",
                ]);
                self.same(t)
            }
            1 => self.same("[[div]]\n{}\n[[/div]]"),
            2 => items(self, "[[ul]]", "[[/ul]]", "[[li]]w[[/li]]", "[[li]]w {} z[[/li]]"),
            3 => items(self, "[[table]]", "[[/table]]", "[[row]]\n[[cell]]w[[/cell]]\n[[/row]]", "[[row]]\n[[cell]]w {} z[[/cell]]\n[[/row]]"),
            4 => items(self, "[[table]]\n[[row]]", "[[/row]]\n[[/table]]", "[[cell]]w[[/cell]]", "[[hcell]]w {} z[[/hcell]]"),
            5 => items(self, "[[tabview]]", "[[/tabview]]", "[[tab A]]\nw\n[[/tab]]", "[[tab B]]\nw {} z\n[[/tab]]"),
            6 => items(self, "[[ol]]", "[[/ol]]", "[[li]]w[[/li]]", "[[ul]]\n[[li]]w {} z[[/li]]\n[[/ul]]"),
            _ => {
                let t = self.src.pick_str(&["[[div class=\"a\"]]\nx\n\n{}\n[[/div]]", "[[collapsible]]\nx\n\n{}\n[[/collapsible]]", "[[blockquote]]\nx\n\n{}\n[[/blockquote]]"]);
                let mut inner = self.block(depth - 1);
                if self.src.bool() {
                    inner = self.wrap(inner, true);
                }
                (t.replace("{}", &inner.0), t.replace("\n\n{}", &if inner.1.is_empty() { String::new() } else { format!("\n\n{}", inner.1) }))
            }
        }
    }
}

fn strip(v: Value) -> Value {
    let mut v = norm(&v);
    v.as_object_mut().unwrap().remove("wikitext-len");
    v
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut info = info();
    let mut tags = vec![];
    for t in TAGS {
        if src.chance(1, 3) {
            tags.push(Cow::Borrowed(*t));
        }
    }
    info.tags = tags;
    info.category = match src.below(5) {
        0 | 1 => None,
        2 => Some(Cow::Borrowed("_default")),
        3 => Some(Cow::Borrowed("scp")),
        _ => Some(Cow::Borrowed("fragment")),
    };
    let mut g = Gen { src, info: info.clone(), shown: 0, hidden: 0, many: false, id: 0 };
    let mut texts = (String::new(), String::new());
    for _ in 0..g.src.range(1, 4) {
        let mut p = if g.src.bool() { g.line() } else { g.block(2) };
        let is_block = p.0.starts_with("[[");
        if is_block {
            for _ in 0..g.src.weighted(&[2, 4, 1]) {
                p = g.wrap(p, true);
            }
        }
        // Lists on both sides of something hidden must not join.
        texts.0 += "w\n\n";
        texts.1 += "w\n\n";
        for (t, p) in [(&mut texts.0, &p.0), (&mut texts.1, &p.1)] {
            if !p.is_empty() {
                *t += p;
                *t += "\n\n";
            }
        }
    }
    let (shown, hidden, many) = (g.shown, g.hidden, g.many);
    let settings = page_settings();
    announce(src, cx, &format!("tags {:?}, category {:?}:\n{}\n\nis to be the same as\n\n{}", info.tags, info.category, texts.0, texts.1));
    let (a, _) = parse_raw(&texts.0, &info, &settings);
    let (b, _) = parse_raw(&texts.1, &info, &settings);
    let (va, vb) = (strip(to_value(&a)), strip(to_value(&b)));
    check!(va == vb, "conditional", "{}", diff(&vb, &va));
    let (ha, hb) = (stable_html(&html(&a, &info, &settings).body), stable_html(&html(&b, &info, &settings).body));
    check!(ha == hb, "html", "{ha}\n{hb}");
    check!(strict::parse(&ha).is_ok(), "html", "{ha}");
    cx.label_if(shown > 0, "shown");
    cx.label_if(hidden > 0, "hidden");
    cx.nontrivial_if(shown > 0 && hidden > 0 && many);
    Ok(())
}
