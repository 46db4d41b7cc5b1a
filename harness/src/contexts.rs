//! Puts a construct into contexts: where it counts, where it does not (false
//! conditionals, comments, verbatim text), and into constructs that fail.

use crate::engine::Src;

/// Within a line, still inline.
const INLINE: &[&str] = &[
    "x {} y", "{} y", "**x {} y**", "//{} z//", "__z {}__", "##red|x {}##", "[[span]]x {}[[/span]]", "[[size 80%]]{}[[/size]]", "[[b]]{}[[/b]]", "[[ruby]]a[[rt]]{}[[/rt]][[/ruby]]",
    "[[a href=\"/x\"]]{}[[/a]]", "[[mark]]y {}[[/mark]]", "{{x {} y}}", "^^{}^^", ",,{},,", "--{} x--", "[[span_ class=\"a\"]]{}[[/span]]", "[[iftags +scp]]{}[[/iftags]]", "[[ins]]{}[[/ins]]",
];

/// A line of its own.
const LINE: &[&str] = &[
    "* x {}\n* y", "# {}", "* a\n * b {}", "> x {} z", "> > {}", "|| a || {} ||", "||~ {} ||", "|| a ||\n|| {} || b ||", "+ x {}", "+++* {} y", ": k : v {}", ": k {} : v", "= x {}", "x\n{}\ny",
    "+ x {}\n++ y", "++ a\n+ {}\n+++ b", "+ a\n+ b\n++* {}", "|| a ||\n|| {} ||\n||> c ||", ": a : b\n: {} : c", ": k : {} v\n: l : w", "# x\n * {}\n# z", "> a\n> x {}\n>> b", "> a\n\n> {}\n\n> b",
];

const BLOCK: &[&str] = &[
    "[[div]]\n{}\n[[/div]]", "[[div_]]\n{}\n[[/div]]", "[[collapsible]]\n{}\n[[/collapsible]]", "[[tabview]]\n[[tab A]]\n{}\n[[/tab]]\n[[/tabview]]", "[[ul]]\n[[li]]\n{}\n[[/li]]\n[[/ul]]",
    "[[table]]\n[[row]]\n[[cell]]x[[/cell]]\n[[cell]]\n{}\n[[/cell]]\n[[/row]]\n[[/table]]", "[[blockquote]]\n{}\n[[/blockquote]]", "[[=]]\n{}\n[[/=]]", "[[>]]\n{}\n[[/>]]", "[[iftags +scp -x]]\n{}\n[[/iftags]]",
    "[[ifcategory +_default]]\n{}\n[[/ifcategory]]", "[[hidden]]\n{}\n[[/hidden]]", "[[div]]\nx\n\n{}\n\ny\n[[/div]]", "[[collapsible folded=\"no\"]]\nx\n{}\n[[/collapsible]]", "[[ol]]\n[[li]]\nx\n\n{}\n[[/li]]\n[[li]]y[[/li]]\n[[/ol]]", "[[invisible]]\n{}\n[[/invisible]]",
];

const DEAD_INLINE: &[&str] = &["[[iftags -scp]]x {} y[[/iftags]]", "[[iftags +nope]]{}[[/iftags]]", "[!-- {} --]", "[[ifcategory +x]]{}[[/ifcategory]]", "@@{}@@", "[[$ {} $]]"];

const DEAD_BLOCK: &[&str] = &[
    "[[iftags -scp]]\n{}\n[[/iftags]]", "[[iftags +nope]]\nx\n\n{}\n[[/iftags]]", "[!--\n{}\n--]", "[[ifcategory -_default]]\n{}\n[[/ifcategory]]", "[[math]]\n{}\n[[/math]]", "[[module CSS]]\n{}\n[[/module]]",
];

/// These fail, so that their markup is text.
const FAIL_INLINE: &[&str] = &[
    "**x {} y", "[[cell]]{}[[/cell]]", "[[li]]{}[[/li]]", "[[rt]]{}[[/rt]]", "##nocolor {}", "[[span bad]]{}[[/span]]", "[[nothing]]{}[[/nothing]]", "[[date never]]{}", "{{x {}", "[[size]]{}[[/size]]", "[[hcell]]x {}[[/hcell]]", "[[row]]{}[[/row]]", "[[tab]]{}[[/tab]]", "//{} x", "[[radio]]{}",
];

const FAIL_BLOCK: &[&str] = &[
    "[[ul]]\n{}\n[[/ul]]", "[[table]]\n{}\n[[/table]]", "[[tabview]]\n{}\n[[/tabview]]", "[[div bad]]\n{}\n[[/div]]", "[[ol]]\n[[li]]x[[/li]]\n{}\n[[/ol]]", "[[table]]\n[[row]]\n{}\n[[/row]]\n[[/table]]", "[[bibliography]]\nx\n\n{}\n[[/bibliography]]",
    "[[tabview]]\n[[tab A]]\nx\n[[/tab]]\n{}\n[[/tabview]]", "[[collapsible folded=\"maybe\"]]\n{}\n[[/collapsible]]", "[[ul]]\n[[cell]]\n{}\n[[/cell]]\n[[/ul]]", "[[iftags]]\n{}\n[[/iftags]]", "[[ul]]\n\n{}\n\n[[li]]x[[/li]]\n[[/ul]]",
];

pub struct Placed {
    pub text: String,
    pub live: bool,
    /// Whether some construct around it failed.
    pub failed: bool,
    /// How many constructs are around it.
    pub depth: usize,
}

/// `lines` is whether the construct needs lines of its own.
pub fn place(src: &mut Src, core: &str, lines: bool) -> Placed {
    place_in(src, core, lines, true)
}

/// If not `line_contexts`, lists, quotes, tables, headings and so on made of lines are left out.
pub fn place_in(src: &mut Src, core: &str, mut lines: bool, line_contexts: bool) -> Placed {
    let mut p = Placed { text: core.to_string(), live: true, failed: false, depth: 0 };
    lines |= core.contains('\n');
    let mut used: Vec<&str> = vec![];
    for _ in 0..src.weighted(&[2, 4, 4, 2]) {
        let kind = src.weighted(&[5, 4, 1, 2]);
        let t = match (kind, lines) {
            (0, false) => src.pick_str(INLINE),
            (1, false) if line_contexts => {
                lines = true;
                src.pick_str(LINE)
            }
            (0 | 1, _) => {
                lines = true;
                src.pick_str(BLOCK)
            }
            (2, false) => src.pick_str(DEAD_INLINE),
            (2, true) => src.pick_str(DEAD_BLOCK),
            (_, false) => src.pick_str(FAIL_INLINE),
            (_, true) => src.pick_str(FAIL_BLOCK),
        };
        if used.contains(&t) {
            continue;
        }
        // Verbatim contents may not have the end of the construct.
        if t.contains("@@") && p.text.contains("@@") || t.contains("--]") && p.text.contains("--]") || t.contains("$]]") && p.text.contains("$]]") || t.contains("[[math]]") && p.text.contains("[[math]]") || t.contains("[[module") && p.text.contains("[[/module]]") {
            continue;
        }
        // Any text before a bar may be a color.
        if t.contains("##nocolor") && p.text.contains('|') {
            continue;
        }
        // Formatting that is left open could be closed by another one.
        if ["**", "//", "{{", "##"].iter().any(|d| t.contains(d) && p.text.contains(d)) {
            continue;
        }
        used.push(t);
        p.text = t.replace("{}", &p.text);
        p.live &= kind != 2;
        p.failed |= kind == 3;
        p.depth += 1;
    }
    p
}
