//! C04: the preprocessor, against a reference written without regular expressions.

use crate::engine::*;
use crate::{check, gen};

pub const PROP: Property = Property {
    id: "C04",
    quick_cases: 1_500_000,
    thorough_cases: 5_000_000,
    budget: 1_000_000,
    over_budget: OverBudget::Discard,
    rule: "preprocessing changes the text in at least two ways",
    assumptions: &[],
    run,
};

/// Deletes, from the left, the longest stretch of whitespace that fills lines.
fn blank_lines(text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let mut at = 0;
    'search: loop {
        for p in at..c.len() {
            if p != 0 && c[p - 1] != '\n' {
                continue;
            }
            let mut e = p;
            while e < c.len() && c[e].is_whitespace() {
                e += 1;
            }
            let mut q = e;
            while q > p && !(q == c.len() || c[q] == '\n') {
                q -= 1;
            }
            if q > p {
                c.drain(p..q);
                at = p;
                continue 'search;
            }
        }
        return c.into_iter().collect();
    }
}

pub fn whitespace(text: &str) -> String {
    let mut t = text.replace("\r\n", "\n").replace('\r', "\n");
    t = t
        .split('\n')
        .map(|line| {
            let rest = line.trim_start_matches(['\u{a0}', '\u{2007}']);
            let n = line.chars().count() - rest.chars().count();
            format!("{}{rest}", " ".repeat(n))
        })
        .collect::<Vec<_>>()
        .join("\n");
    t = blank_lines(&t);
    t = t.replace("\\\n", "").replace('\t', "    ").replace('\0', " ");
    t.trim_matches('\n').to_string()
}

/// `open`..`close` within a line becomes `a`..`b`, from the left, not nested.
fn quotes(text: &str, open: &str, close: &str, a: &str, b: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find(open) {
        let body = &rest[i + open.len()..];
        let line = &body[..body.find('\n').unwrap_or(body.len())];
        match line.find(close) {
            Some(j) => {
                out.push_str(&rest[..i]);
                out.push_str(a);
                out.push_str(&line[..j]);
                out.push_str(b);
                rest = &body[j + close.len()..];
            }
            None => {
                let n = rest[i..].chars().next().unwrap().len_utf8();
                out.push_str(&rest[..i + n]);
                rest = &rest[i + n..];
            }
        }
    }
    out.push_str(rest);
    out
}

/// Three dots, spaced or not, with no further dot at either end. The character
/// before must not be an ellipsis made just now.
fn ellipsis(text: &str) -> String {
    let c: Vec<char> = text.chars().collect();
    let mut out: Vec<char> = Vec::new();
    let mut i = 0;
    let mut fresh = false;
    while i < c.len() {
        let before = i == 0 || (c[i - 1] != '.' && !fresh);
        fresh = false;
        if before {
            let forms: [&[char]; 2] = [&['.', '.', '.'], &['.', ' ', '.', ' ', '.']];
            if let Some(f) = forms.iter().find(|f| c[i..].starts_with(f)) {
                if c.get(i + f.len()) != Some(&'.') {
                    out.push('…');
                    i += f.len();
                    fresh = true;
                    continue;
                }
            }
        }
        out.push(c[i]);
        i += 1;
    }
    out.into_iter().collect()
}

pub fn typography(text: &str) -> String {
    let mut t = quotes(text, "``", "''", "“", "”");
    t = quotes(&t, ",,", "''", "„", "”");
    t = quotes(&t, "`", "'", "‘", "’");
    ellipsis(&t)
}

pub fn reference(text: &str) -> String {
    typography(&whitespace(text))
}

fn piece(src: &mut Src) -> String {
    match src.weighted(&[4, 4, 3, 2, 1]) {
        0 => src.pick_str(gen::WORDS).into(),
        1 => src
            .pick_str(&[
                "\n", "\n\n", "\r\n", "\r", "\t", "\0", " ", "  ", "\\\n", "\\", "\u{a0}", "\u{2007}", "\u{a0}\u{a0}", "\n \n", "\n\t\n", "\u{3000}", "\u{2028}", "\u{b}",
                "\n\u{a0}", "\n\u{2007} ", "\\\r\n", "\u{85}", "\u{200b}", "\n\u{202f}", "\n\u{2003}", "\n\u{3000}", "\u{202f}", "\u{2009}", "\n\u{a0}\u{202f}", "\u{feff}", "\u{1680}", "\u{c}",
            ])
            .into(),
        2 => src.pick_str(&["``", "''", "`", "'", ",,", "...", ". . .", ".", "..", ". .", "....", "…", "‘", "”", " ", ". . . .", "'''", "```"]).into(),
        3 => {
            let c = *src.pick(b".`',\n \\\t") as char;
            c.to_string().repeat(src.range(1, 7))
        }
        _ => src.pick_str(gen::TOKENS).into(),
    }
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let text = if src.chance(1, 6) {
        gen::document(src)
    } else {
        let n = src.range(0, 16);
        (0..n).map(|_| piece(src)).collect()
    };
    announce(src, cx, &text);
    let mut got = text.clone();
    ftml::preprocess(&mut got);
    let want = reference(&text);
    check!(got == want, "preprocess", "expected {want:?}\n  actual {got:?}");
    let ws = whitespace(&text);
    let mut got_ws = text.clone();
    ftml::preproc::whitespace::substitute(&mut got_ws);
    check!(got_ws == ws, "whitespace", "expected {ws:?}\n  actual {got_ws:?}");
    let mut got_ty = text.clone();
    ftml::preproc::typography::substitute(&mut got_ty);
    let ty = typography(&text);
    check!(got_ty == ty, "typography", "expected {ty:?}\n  actual {got_ty:?}");
    cx.label_if(ws != text, "whitespace");
    cx.label_if(want != ws, "typography");
    cx.nontrivial_if(ws != text && want != ws);
    Ok(())
}
