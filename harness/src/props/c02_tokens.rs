//! C02: tokenization, against a reference lexer.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen};

pub const PROP: Property = Property {
    id: "C02",
    quick_cases: 800_000,
    thorough_cases: 4_000_000,
    budget: 1_000_000,
    over_budget: OverBudget::Discard,
    rule: "the text has tokens of at least four different kinds",
    assumptions: &["the reference lexer follows the documented order of priority of the tokens"],
    run,
};

const NL: &[&str] = &["\r\n", "\n", "\r"];

fn newline(s: &str) -> usize {
    NL.iter().find(|n| s.starts_with(**n)).map_or(0, |n| n.len())
}

fn alnum(s: &str) -> usize {
    s.bytes().take_while(|b| b.is_ascii_alphanumeric()).count()
}

fn run_of(s: &str, c: char) -> usize {
    s.chars().take_while(|x| *x == c).count()
}

fn url(s: &str) -> Option<usize> {
    let scheme = ["https://", "http://", "ftp://"].iter().find(|p| s.starts_with(**p))?;
    let rest = &s[scheme.len()..];
    let len = rest.find([' ', '\n', '\r', '|', '[', ']']).unwrap_or(rest.len());
    (len > 0).then_some(scheme.len() + len)
}

fn string(s: &str) -> Option<usize> {
    let mut it = s.char_indices();
    if it.next()?.1 != '"' {
        return None;
    }
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some(i + 1),
            '\n' | '\r' => return None,
            '\\' => match it.next()?.1 {
                '\n' | '\r' => return None,
                _ => {}
            },
            _ => {}
        }
    }
    None
}

fn variable(s: &str) -> Option<usize> {
    let rest = s.strip_prefix("{$")?;
    let n = alnum(rest);
    (n > 0 && rest[n..].starts_with('}')).then_some(n + 3)
}

/// The token at the start of `s` (not empty), and its length in bytes.
fn next(s: &str) -> (&'static str, usize) {
    for (p, name) in [("@@", "Raw"), ("@<", "LeftRaw"), (">@", "RightRaw"), ("[!--", "LeftComment"), ("--]", "RightComment")] {
        if s.starts_with(p) {
            return (name, p.len());
        }
    }
    if let Some(n) = url(s) {
        return ("Url", n);
    }
    match alnum(s) {
        0 => {}
        n => return ("Identifier", n),
    }
    if let Some(n) = variable(s) {
        return ("Variable", n);
    }
    if let Some(n) = string(s) {
        return ("String", n);
    }
    // "[[[[" is a bracket before a link; "]]]]" one after it (see `lex`).
    if s.starts_with("[[[[") {
        return ("LeftBracket", 1);
    }
    for (p, name) in [
        ("[[[*", "LeftLinkStar"),
        ("[[[", "LeftLink"),
        ("[[$", "LeftMath"),
        ("[[#", "LeftBlockAnchor"),
        ("[[*", "LeftBlockStar"),
        ("[[/", "LeftBlockEnd"),
        ("[[", "LeftBlock"),
        ("[#", "LeftBracketAnchor"),
        ("[*", "LeftBracketStar"),
        ("[", "LeftBracket"),
        ("((", "LeftParentheses"),
        ("]]]", "RightLink"),
        ("$]]", "RightMath"),
        ("]]", "RightBlock"),
        ("]", "RightBracket"),
        ("))", "RightParentheses"),
        ("**", "Bold"),
        ("//", "Italics"),
        ("__", "Underline"),
        ("^^", "Superscript"),
        (",,", "Subscript"),
        ("##", "Color"),
        ("{{", "LeftMonospace"),
        ("}}", "RightMonospace"),
        ("||~", "TableColumnTitle"),
        ("||<", "TableColumnLeft"),
        ("||>", "TableColumnRight"),
        ("||=", "TableColumnCenter"),
        ("||", "TableColumn"),
    ] {
        if s.starts_with(p) {
            return (name, p.len());
        }
    }
    match run_of(s, '~') {
        n @ 3.. => {
            return match s[n..].chars().next() {
                Some('<') => ("ClearFloatLeft", n + 1),
                Some('>') => ("ClearFloatRight", n + 1),
                _ => ("ClearFloatBoth", n),
            }
        }
        2 => return ("DoubleTilde", 2),
        _ => {}
    }
    match run_of(s, '-') {
        n @ 3.. => return ("TripleDash", n),
        2 => return ("DoubleDash", 2),
        _ => {}
    }
    if s.starts_with("<<") {
        return ("LeftDoubleAngle", 2);
    }
    for (p, name) in [("|", "Pipe"), ("=", "Equals"), (":", "Colon"), ("_", "Underscore")] {
        if s.starts_with(p) {
            return (name, 1);
        }
    }
    match run_of(s, '>') {
        0 => {}
        n => return ("Quote", n),
    }
    match run_of(s, '+') {
        0 => {}
        n => {
            let n = n.min(6);
            let star = s[n..].starts_with('*') && !s[n + 1..].starts_with('*');
            return ("Heading", n + star as usize);
        }
    }
    // A second one would have been bold or color.
    if s.starts_with('*') {
        return ("BulletItem", 1);
    }
    if s.starts_with('#') {
        return ("NumberedItem", 1);
    }
    let mut n = 0;
    let mut count = 0;
    loop {
        match newline(&s[n..]) {
            0 => break,
            k => {
                n += k;
                count += 1;
            }
        }
    }
    match count {
        0 => {}
        1 => return ("LineBreak", n),
        _ => return ("ParagraphBreak", n),
    }
    match s.find(|c| c != ' ' && c != '\t').unwrap_or(s.len()) {
        0 => {}
        n => return ("Whitespace", n),
    }
    ("Other", s.chars().next().unwrap().len_utf8())
}

pub fn lex(text: &str) -> Vec<(&'static str, usize, usize)> {
    let mut out = vec![("InputStart", 0, 0)];
    let mut at = 0;
    while at < text.len() {
        let rest = &text[at..];
        // A pair with its own priority: the whole of it is recognized at once.
        if rest.starts_with("[[[[") {
            out.push(("LeftBracket", at, at + 1));
            out.push(("LeftLink", at + 1, at + 4));
            at += 4;
            continue;
        }
        if rest.starts_with("]]]]") {
            out.push(("RightLink", at, at + 3));
            out.push(("RightBracket", at + 3, at + 4));
            at += 4;
            continue;
        }
        let (name, len) = next(rest);
        out.push((name, at, at + len));
        at += len;
    }
    out.push(("InputEnd", text.len(), text.len()));
    out
}

/// Text over characters that start, extend or end tokens.
pub fn lexemes(src: &mut Src) -> String {
    let n = src.range(0, 14);
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[5, 3, 2, 2, 2]) {
            0 => s.push_str(src.pick_str(gen::TOKENS)),
            1 => s.push(*src.pick(b"[]*#|/_-+=~@{}$\"\\:<>^,.()! \n\tab1") as char),
            2 => {
                let c = *src.pick(b"[]~-+>*#=\n|@_\"") as char;
                let k = if src.chance(1, 12) { src.range(9, 130) } else { src.range(1, 8) };
                for _ in 0..k {
                    s.push(c);
                }
            }
            3 => s.push_str(src.pick_str(&["http://a", "https://x.y/z?q", "ftps://a", "xhttp://a", "sftp://b", "HTTP://a", "httpss://a", "http:///", "mailto:a@b", "//a", "://", "ftp://", "http:/", "https", "{$ab1}", "{$}", "{$a b}", "a@b.c", "\"a\\\"b\"", "\"\\", "\r\n", "\n\r", "\r"])),
            _ => s.push_str(src.pick_str(gen::ODD)),
        }
    }
    s
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mode = src.weighted(&[6, 2, 1]);
    let raw = match mode {
        0 => lexemes(src),
        1 => gen::soup(src),
        _ => gen::mutant(src),
    };
    let text = if src.chance(1, 4) { prep(&raw) } else { raw };
    announce(src, cx, &text);
    cx.label(["lexemes", "soup", "mutant"][mode]);
    let tokenization = ftml::tokenize(&text);
    let tokens = tokenization.tokens();
    let expected = lex(&text);
    for (i, (name, a, b)) in expected.iter().enumerate() {
        let Some(t) = tokens.get(i) else {
            crate::fail!("missing-token", "token {i} should be {name} at {a}..{b}, but there are only {}", tokens.len());
        };
        check!(
            format!("{:?}", t.token) == *name && t.span == (*a..*b),
            "wrong-token",
            "token {i} should be {name} at {a}..{b}, but is {:?} at {:?}",
            t.token,
            t.span
        );
        check!(t.slice == &text[*a..*b], "wrong-slice", "token {i} at {a}..{b} has the slice {:?}", t.slice);
        check!(t.token.name() == *name, "wrong-name", "the name of token {i} is {}", t.token.name());
    }
    check!(tokens.len() == expected.len(), "extra-token", "{} tokens instead of {}", tokens.len(), expected.len());
    let mut kinds: Vec<&str> = expected.iter().map(|t| t.0).collect();
    kinds.sort();
    kinds.dedup();
    cx.nontrivial_if(kinds.len() >= 6);
    let owned: Vec<ftml::parsing::ExtractedToken> = tokenization.clone().into();
    check!(owned == tokens, "into-vec", "the vector of tokens differs");
    Ok(())
}
