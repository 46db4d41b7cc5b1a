//! Generators of wikitext.
//!
//! `soup` makes text out of fragments of every construct, well-formed and not.
//! It bounds the number of openers that are never closed, since ftml backtracks
//! on these (see the known finding of C33).

use crate::engine::Src;
use std::sync::OnceLock;

pub const WORDS: &[&str] = &[
    "a", "foo", "Bar", "SCP-173", "x1", "the", "apple", "banana", "é", "日本", "Z", "42", "word", "lorem", "ipsum",
];

pub fn word(src: &mut Src) -> &'static str {
    src.pick_str(WORDS)
}

/// ASCII alphanumeric word.
pub fn ident(src: &mut Src) -> String {
    let n = src.range(1, 5);
    let mut s = String::new();
    for _ in 0..n {
        s.push(*src.pick(b"abcdefgxyzABQ0159") as char);
    }
    s
}

/// Lower-case ASCII letters.
pub fn letters(src: &mut Src) -> String {
    let n = src.range(1, 6);
    (0..n).map(|_| *src.pick(b"abcdefghklmnoprstuvwxyz") as char).collect()
}

/// A few words separated by single spaces.
pub fn words(src: &mut Src, max: usize) -> String {
    let n = src.range(1, max);
    let mut out = String::new();
    for i in 0..n {
        if i > 0 {
            out.push(' ');
        }
        out.push_str(word(src));
    }
    out
}

pub const TOKENS: &[&str] = &[
    "@@", "@<", ">@", "[!--", "--]", "[[[[", "]]]]", "[[[*", "[[[", "]]]", "[[$", "$]]", "[[#", "[[*", "[[/", "[[", "]]",
    "[#", "[*", "[", "]", "((", "))", "**", "//", "__", "^^", ",,", "##", "{{", "}}", "||", "||~", "||<", "||>", "||=",
    "~~~~", "~~~~<", "~~~~>", "---", "----", "--", "~~", "<<", ">>", "|", "=", ":", "_", ">", ">>>", "+", "++", "+++ ",
    "++++++*", "*", "#", "{$", "}", "{$var}", "\"", "\"str\"", "\\", "\\\"", "`", "``", "''", "'", "...", ". . .", "%%",
    "%%title%%", "&", "&amp;", "<", "<b>", "</style>", "(", ")", "!", "?", "$", "://", "@", ";", "/", "\t", " _", "_\n",
];

pub const ODD: &[&str] = &[
    "\0", "\u{7f}", "\u{1}", "\u{a0}", "\u{2007}", "\u{feff}", "\u{200b}", "\u{202e}", "😀", "👨‍👩‍👧", "e\u{301}", "\u{10ffff}",
    "ß", "İ", "ſ", "К", "\u{2028}", "\u{85}", "\r", "\r\n", "\u{b}", "\u{c}", "𝒳", "�", "\u{e000}", "ﬀ", "１",
];

pub const URLS: &[&str] = &[
    "https://example.com/",
    "http://example.com/a?b=c&d=e",
    "ftp://x.y/z",
    "https://",
    "http://a'b\"c<d>",
    "mailto:a@b.c",
    "javascript:alert(1)",
    "JavaScript:alert(1)",
    "data:text/html,<script>alert(1)</script>",
    "/local/page",
    "#anchor",
    "#",
    "page-name",
    "cat:page",
    "_template:x y",
    "wp:Article",
    "!wp:Article",
    "",
    "  ",
    "a b/c d#e",
    "javascript:;",
    "vbscript:x",
    "//evil.example/",
    "\\\\evil",
];

pub const ATTRS: &[&str] = &[
    "class=\"apple\"",
    "id=\"banana\"",
    "style=\"color: red;\"",
    "style=\"background:url(javascript:x)\"",
    "title=\"a \\\"b\\\" <c>\"",
    "onclick=\"alert(1)\"",
    "data-x=\"1\"",
    "aria-label=\"x\"",
    "data-=\"1\"",
    "DATA-Foo=\"2\"",
    "href=\"javascript:alert(1)\"",
    "href=\"https://e.com\"",
    "src=\"data:text/html,x\"",
    "target=\"_blank\"",
    "checked=\"true\"",
    "checked=\"no\"",
    "colspan=\"2\"",
    "colspan=\"0\"",
    "colspan=\"-1\"",
    "align=\"left\"",
    "width=\"50\"",
    "start=\"3\"",
    "type=\"css\"",
    "hide=\"yes\"",
    "show=\"+ more\"",
    "folded=\"no\"",
    "hideLocation=\"both\"",
    "name=\"n\"",
    "value=\"v\"",
    "alt=\"\"",
    "link=\"https://e.com\"",
    "link=\"*page\"",
    "size=\"thumbnail\"",
    "format=\"%d %m\"",
    "tz=\"+01:00\"",
    "hover=\"true\"",
    "x",
    "=",
    "\"",
    "key=unquoted",
    "class=\"",
    "srcdoc=\"<script>x</script>\"",
    "sandbox=\"\"",
    "class=\"\"",
    "id=\"\"",
    "style=\"\"",
    "type=\"\"",
    "CLASS=\" \"",
    "xmlns=\"x\"",
    "class=\"{$a}\"",
    "title=\"[[div]]\"",
    "order=\"name\"",
    "code=\"x\"",
];

/// Block names whose body is made of elements, with whether they take a value head.
pub const BODY_BLOCKS: &[(&str, u8)] = &[
    ("div", 0),
    ("span", 0),
    ("blockquote", 0),
    ("quote", 0),
    ("a", 0),
    ("b", 0),
    ("strong", 0),
    ("i", 0),
    ("em", 0),
    ("u", 0),
    ("underline", 0),
    ("s", 0),
    ("strikethrough", 0),
    ("sub", 0),
    ("sup", 0),
    ("super", 0),
    ("mark", 0),
    ("tt", 0),
    ("mono", 0),
    ("ins", 0),
    ("del", 0),
    ("hidden", 0),
    ("invisible", 0),
    ("paragraph", 0),
    ("p", 0),
    ("collapsible", 0),
    ("ruby", 0),
    ("footnote", 2),
    ("size", 1),
    ("iftags", 1),
    ("ifcategory", 1),
    ("anchor", 0),
    ("div_", 0),
    ("span_", 0),
    ("=", 2),
    ("<", 2),
    (">", 2),
    ("==", 2),
    ("DIV", 0),
    ("bibliography", 0),
];

pub const VALUES: &[&str] =
    &["1", "120%", "x-large", "+scp -tale", "tale", "scp", "foo", "", "-_default", "3em", "<b>\"", "50px;x:y", "99999999999999999999"];

pub fn attrs(src: &mut Src) -> String {
    let n = src.weighted(&[6, 4, 2, 1]);
    let mut out = String::new();
    for _ in 0..n {
        out.push(' ');
        out.push_str(src.pick_str(ATTRS));
    }
    out
}

pub struct Gen {
    pub unclosed: usize,
    pub max_depth: usize,
}

impl Default for Gen {
    fn default() -> Self {
        Gen { unclosed: 0, max_depth: 3 }
    }
}

impl Gen {
    pub fn url(&mut self, src: &mut Src) -> &'static str {
        src.pick_str(URLS)
    }

    /// Short inline content.
    pub fn inline(&mut self, src: &mut Src, depth: usize) -> String {
        let n = src.range(1, 3);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && src.chance(2, 3) {
                s.push(' ');
            }
            s.push_str(&self.inline_piece(src, depth));
        }
        s
    }

    pub fn inline_piece(&mut self, src: &mut Src, depth: usize) -> String {
        if depth >= self.max_depth {
            return word(src).into();
        }
        match src.weighted(&[8, 6, 3, 3, 2, 2, 2, 3, 2, 2]) {
            0 => word(src).into(),
            1 => {
                let (a, b) = *src.pick(&[
                    ("**", "**"),
                    ("//", "//"),
                    ("__", "__"),
                    ("^^", "^^"),
                    (",,", ",,"),
                    ("{{", "}}"),
                    ("--", "--"),
                    ("##red|", "##"),
                    ("##ff0000|", "##"),
                    ("@@", "@@"),
                    ("@<", ">@"),
                    ("[!--", "--]"),
                    ("[[$", "$]]"),
                    ("\"", "\""),
                    ("<<", ">>"),
                    ("``", "''"),
                ]);
                format!("{a}{}{b}", self.inline(src, depth + 1))
            }
            2 => self.link(src, depth),
            3 => {
                let (name, head) = *src.pick(BODY_BLOCKS);
                let star = if src.chance(1, 12) { "*" } else { "" };
                let arg = match head {
                    0 => attrs(src),
                    1 => format!(" {}", src.pick_str(VALUES)),
                    _ => String::new(),
                };
                format!("[[{star}{name}{arg}]]{}[[/{name}]]", self.inline(src, depth + 1))
            }
            4 => self.void_block(src),
            5 => src.pick_str(TOKENS).into(),
            6 => src.pick_str(ODD).into(),
            7 => format!("[[footnote]]{}[[/footnote]]", self.inline(src, depth + 1)),
            8 => src
                .pick_str(&["((bibcite foo))", "((bibcite nope))", "[[bibcite foo]]", "[[*user someone]]", "[[user x y]]", "[[eref eq1]]"])
                .into(),
            _ => src
                .pick_str(&[
                    "@<&amp;>@", "@<&#65;>@", "@<&bogus;>@", "a@b.com", "{$foo}", "%%title%%", "[[char nbsp]]", "[[char &#x41;]]",
                    "[[checkbox]]", "[[*checkbox]]", "[[radio g]]", "[[rb base|text]]", "&&gt;", "[[# anc]]", "[[target t]]",
                ])
                .into(),
        }
    }

    pub fn link(&mut self, src: &mut Src, depth: usize) -> String {
        let url = self.url(src);
        let star = if src.chance(1, 4) { "*" } else { "" };
        let label = match src.below(5) {
            0 => String::new(),
            1 => "|".into(),
            2 => format!("|{}", words(src, 2)),
            3 => format!("| {} ", self.inline_piece(src, depth + 1)),
            _ => "|#".into(),
        };
        match src.below(5) {
            0 | 1 => format!("[[[{star}{url}{label}]]]"),
            2 => format!("[{star}{url} {}]", words(src, 2)),
            3 => format!("[#{} {}]", word(src), words(src, 2)),
            _ => url.into(),
        }
    }

    pub fn void_block(&mut self, src: &mut Src) -> String {
        let a = attrs(src);
        match src.below(13) {
            0 => format!("[[{}image {}{a}]]", src.pick_str(&["", "=", "<", ">", "f<", "f>"]), {
                let u = self.url(src);
                if u.trim().is_empty() {
                    "img.png"
                } else {
                    u
                }
            }),
            1 => format!("[[image file.png{a}]]"),
            2 => format!("[[image some page/file name.png{a}]]"),
            3 => format!(
                "[[date {}{a}]]",
                src.pick_str(&["1700000000", "2009-08-07", "2009-08-07T19:23:12+02:00", "x", "-5", "0", "99999999999"])
            ),
            4 => format!("[[iframe {}{a}]]", self.url(src)),
            5 => format!("[[{}toc{a}]]", src.pick_str(&["", "f<", "f>"])),
            6 => format!("[[lines {}]]", src.pick_str(&["1", "3", "0", "-1", "x"])),
            7 => format!("[[footnoteblock{a}]]"),
            8 => format!("[[embed {}{a}]]", src.pick_str(&["youtube", "github-gist", "gitlab-snippet", "x", "vimeo"])),
            9 => format!("[[embed youtube video=\"{}\"]]", src.pick_str(&["abc", "\"", "a b", "<x>"])),
            10 => format!(
                "[[module {}{a}]]",
                src.pick_str(&["Rate", "Backlinks page=\"x\"", "Categories", "Join button=\"Join!\"", "PageTree", "rate", "Nope", "CSS"])
            ),
            11 => format!("[[equation {}]]", word(src)),
            _ => format!("[[checkbox{a}]]"),
        }
    }

    /// Content that starts on a line of its own, without trailing newline.
    pub fn block(&mut self, src: &mut Src, depth: usize) -> String {
        if depth >= self.max_depth {
            return words(src, 3);
        }
        match src.weighted(&[6, 3, 3, 2, 3, 4, 2, 2, 2, 2, 2, 2, 2, 1, 1]) {
            0 => self.inline(src, depth),
            1 => {
                let n = src.range(1, 7);
                let star = if src.chance(1, 5) { "*" } else { "" };
                format!("{}{star} {}", "+".repeat(n), self.inline(src, depth + 1))
            }
            2 => {
                let n = src.range(1, 4);
                let mut s = String::new();
                let mut d = 0usize;
                for i in 0..n {
                    if i > 0 {
                        s.push('\n');
                    }
                    s.push_str(&" ".repeat(d));
                    s.push_str(src.pick_str(&["* ", "# ", "*", "#  "]));
                    s.push_str(&self.inline(src, depth + 1));
                    d = match src.below(3) {
                        0 => d,
                        1 => d + 1,
                        _ => d.saturating_sub(1),
                    };
                }
                s
            }
            3 => {
                let n = src.range(1, 3);
                let mut s = String::new();
                for i in 0..n {
                    if i > 0 {
                        s.push('\n');
                    }
                    s.push_str(src.pick_str(&["> ", ">> ", ">", ">>> ", "> * ", "> + "]));
                    s.push_str(&self.inline(src, depth + 1));
                }
                s
            }
            4 => {
                let rows = src.range(1, 3);
                let mut s = String::new();
                for r in 0..rows {
                    if r > 0 {
                        s.push('\n');
                    }
                    let cols = src.range(1, 3);
                    for _ in 0..cols {
                        s.push_str(src.pick_str(&["||", "||~ ", "|| ", "||<", "||>", "||=", "||||"]));
                        if src.chance(4, 5) {
                            s.push_str(&self.inline(src, depth + 1));
                        }
                        if src.chance(1, 8) {
                            s.push_str(" _\n");
                            s.push_str(word(src));
                        }
                    }
                    s.push_str(src.pick_str(&["||", "||", "||", " ||", ""]));
                }
                s
            }
            5 => {
                let (name, head) = *src.pick(BODY_BLOCKS);
                let arg = match head {
                    0 => attrs(src),
                    1 => format!(" {}", src.pick_str(VALUES)),
                    _ => String::new(),
                };
                let nl = if src.chance(4, 5) { "\n" } else { "" };
                format!("[[{name}{arg}]]{nl}{}{nl}[[/{name}]]", self.blocks(src, depth + 1))
            }
            6 => {
                let a = attrs(src);
                let mut s = format!("[[tabview]]\n");
                for _ in 0..src.range(1, 3) {
                    s.push_str(&format!("[[tab {}]]\n{}\n[[/tab]]\n", words(src, 2), self.blocks(src, depth + 1)));
                }
                s.push_str("[[/tabview]]");
                let _ = a;
                s
            }
            7 => {
                let mut s = format!("[[table{}]]\n", attrs(src));
                for _ in 0..src.range(1, 2) {
                    s.push_str(&format!("[[row{}]]\n", attrs(src)));
                    for _ in 0..src.range(1, 2) {
                        let c = src.pick_str(&["cell", "hcell"]);
                        s.push_str(&format!("[[{c}{}]]{}[[/{c}]]\n", attrs(src), self.inline(src, depth + 1)));
                    }
                    s.push_str("[[/row]]\n");
                }
                s.push_str("[[/table]]");
                s
            }
            8 => {
                let l = src.pick_str(&["ul", "ol"]);
                let mut s = format!("[[{l}{}]]\n", attrs(src));
                for _ in 0..src.range(1, 2) {
                    s.push_str(&format!("[[li{}]]{}[[/li]]\n", attrs(src), self.inline(src, depth + 1)));
                }
                s.push_str(&format!("[[/{l}]]"));
                s
            }
            9 => {
                let body = src.pick_str(&["x = 1;", "<b>&", "**no**\n[[div]]", "", "\n\n", "[[/cod]]", "color: red; }</style><script>", "b { content: \"</STYLE ><b>\" }", "\\frac{1}{2} < 3"]);
                match src.below(6) {
                    0 => format!("[[code{}]]\n{body}\n[[/code]]", src.pick_str(&["", " type=\"CSS\"", " type=\"<x>\"", " type=\"rust\""])),
                    1 => format!("[[html]]\n{body}\n[[/html]]"),
                    2 => format!("[[math {}]]\n{body}\n[[/math]]", src.pick_str(&["", "eq1", "eq 2"])),
                    3 => format!("[[module CSS]]\n{body}\n[[/module]]"),
                    4 => format!("[[$ {body} $]]"),
                    _ => format!("[[css]]\n{body}\n[[/css]]"),
                }
            }
            10 => {
                let n = src.range(1, 3);
                let mut s = String::new();
                for i in 0..n {
                    if i > 0 {
                        s.push('\n');
                    }
                    s.push_str(&format!(": {} : {}", self.inline(src, depth + 1), self.inline(src, depth + 1)));
                }
                s
            }
            11 => {
                let mut s = format!("[[bibliography{}]]\n", attrs(src));
                for _ in 0..src.range(1, 3) {
                    s.push_str(&format!(": {} : {}\n", src.pick_str(&["foo", "bar", "a b"]), self.inline(src, depth + 1)));
                }
                s.push_str("[[/bibliography]]");
                s
            }
            12 => self.void_block(src),
            13 => src.pick_str(&["----", "------", "~~~~", "~~~~<", "~~~~>", "=", "= centered", "---", "~~~"]).into(),
            _ => format!("= {}", self.inline(src, depth + 1)),
        }
    }

    pub fn blocks(&mut self, src: &mut Src, depth: usize) -> String {
        let n = src.weighted(&[0, 6, 3, 1]);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push_str(src.pick_str(&["\n", "\n\n", "\n\n\n"]));
            }
            s.push_str(&self.block(src, depth));
        }
        s
    }

    /// Something malformed or unusual.
    pub fn junk(&mut self, src: &mut Src) -> String {
        match src.below(8) {
            0 | 1 => src.pick_str(TOKENS).into(),
            2 => src.pick_str(ODD).into(),
            3 => {
                if self.unclosed >= 3 {
                    return word(src).into();
                }
                self.unclosed += 1;
                let (name, head) = *src.pick(BODY_BLOCKS);
                match head {
                    0 => format!("[[{name}{}]]", attrs(src)),
                    1 => format!("[[{name} {}]]", src.pick_str(VALUES)),
                    _ => format!("[[{name}]]"),
                }
            }
            4 => format!("[[/{}]]", src.pick(BODY_BLOCKS).0),
            5 => {
                let t = src.pick_str(&["*", "#", ">", "|", "+", "-", "~", "[", "]", "=", "@", "`", ",", "\n", " ", "_", ".", "\\", "\"", ":"]);
                let n = if "[".contains(t) { src.range(1, 6) } else { src.range(1, 24) };
                t.repeat(n)
            }
            6 => format!("[[{} {}]]", src.pick_str(&["nope", "di v", "", "/", "*", "_", "tab", "row", "li", "cell", "rt", "module", "include x"]), src.pick_str(VALUES)),
            _ => {
                // Random characters.
                let n = src.range(1, 6);
                (0..n)
                    .map(|_| match src.below(4) {
                        0 => *src.pick(b"[]*#|/_-+=~@{}$\"\\:<>&'`.,() \n\t!%^;") as char,
                        1 => (0x20 + src.below(0x5f) as u8) as char,
                        2 => char::from_u32(0x80 + src.below(0x800) as u32).unwrap_or('x'),
                        _ => char::from_u32(src.below(0x30000) as u32).unwrap_or('y'),
                    })
                    .collect()
            }
        }
    }
}

/// A document mixing well-formed and malformed content.
pub fn soup(src: &mut Src) -> String {
    let mut g = Gen::default();
    let n = src.range(1, 8);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(src.pick_str(&["\n", "\n\n", " ", "", "\n"]));
        }
        match src.weighted(&[4, 2, 2]) {
            0 => s.push_str(&g.block(src, 0)),
            1 => s.push_str(&g.inline(src, 0)),
            _ => s.push_str(&g.junk(src)),
        }
    }
    s
}

/// A well-formed document (as far as single constructs go).
pub fn tidy(src: &mut Src) -> String {
    let mut g = Gen::default();
    let n = src.range(1, 5);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(src.pick_str(&["\n\n", "\n"]));
        }
        s.push_str(&g.block(src, 0));
    }
    s
}

pub fn fixtures() -> &'static [String] {
    static F: OnceLock<Vec<String>> = OnceLock::new();
    F.get_or_init(|| serde_json::from_str(include_str!("../corpus/fixtures.json")).unwrap())
}

/// A mutated example document.
pub fn mutant(src: &mut Src) -> String {
    let all = fixtures();
    let mut s: Vec<char> = all[src.below(all.len())].chars().collect();
    if s.len() > 1200 {
        let start = src.below(s.len() - 1000);
        s = s[start..start + 1000].to_vec();
    }
    let n = src.range(0, 4);
    for _ in 0..n {
        let at = src.below(s.len() + 1);
        match src.below(6) {
            0 => {
                let end = (at + src.range(1, 10)).min(s.len());
                s.drain(at.min(end)..end);
            }
            1 => {
                let t = src.pick_str(TOKENS);
                s.splice(at..at, t.chars());
            }
            2 => {
                let t = src.pick_str(ODD);
                s.splice(at..at, t.chars());
            }
            3 => {
                let mut g = Gen { unclosed: 1, max_depth: 2 };
                let t = g.block(src, 0);
                s.splice(at..at, t.chars());
            }
            4 => {
                // Splice a piece of another document.
                let other: Vec<char> = all[src.below(all.len())].chars().take(600).collect();
                if !other.is_empty() {
                    let a = src.below(other.len());
                    let b = (a + src.range(1, 60)).min(other.len());
                    s.splice(at..at, other[a..b].iter().copied());
                }
            }
            _ => {
                if !s.is_empty() {
                    let i = src.below(s.len());
                    let j = src.below(s.len());
                    s.swap(i, j);
                }
            }
        }
    }
    s.into_iter().collect()
}

/// Any document.
pub fn document(src: &mut Src) -> String {
    match src.weighted(&[5, 3, 3]) {
        0 => soup(src),
        1 => tidy(src),
        _ => mutant(src),
    }
}

/// Very short strings over the significant characters.
pub fn tiny(src: &mut Src) -> String {
    let n = src.range(0, 6);
    let mut s = String::new();
    for _ in 0..n {
        if src.chance(1, 3) {
            s.push_str(word(src));
        } else if src.chance(1, 8) {
            s.push_str(src.pick_str(ODD));
        } else {
            s.push_str(src.pick_str(TOKENS));
        }
    }
    s
}
