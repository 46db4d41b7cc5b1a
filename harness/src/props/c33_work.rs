//! C33: the work grows with the text, not with what it is made of.

use super::c30_nesting::{BLOCKS, INLINES};
use crate::common::*;
use crate::engine::*;
use crate::{alloc, check, gen, model};

pub const PROP: Property = Property {
    id: "C33",
    quick_cases: 3_000,
    thorough_cases: 60_000,
    budget: 60_000_000,
    over_budget: OverBudget::Violation,
    rule: "the longer text takes over a thousand steps",
    assumptions: &["work is what ftml logs and what it allocates"],
    run,
};

const PHASES: [&str; 4] = ["preparing", "parsing", "rendering HTML", "rendering text"];

struct Work {
    steps: [u64; 4],
    bytes: [u64; 4],
    /// Lengths of what comes out of each phase.
    out: [usize; 4],
}

fn measure(text: &str) -> Work {
    let (info, settings) = (info(), page_settings());
    let mut w = Work { steps: [0; 4], bytes: [0; 4], out: [0; 4] };
    let mut last = (steps(), alloc::allocated());
    let mut lap = |i: usize, w: &mut Work| {
        let now = (steps(), alloc::allocated());
        w.steps[i] = now.0 - last.0;
        w.bytes[i] = now.1 - last.1;
        last = (steps(), alloc::allocated());
    };
    let mut text = text.to_string();
    lap(0, &mut w);
    ftml::preprocess(&mut text);
    let tokens = ftml::tokenize(&text);
    lap(0, &mut w);
    let (tree, errors) = ftml::parse(&tokens, &info, &settings).into();
    lap(1, &mut w);
    let out = html(&tree, &info, &settings);
    lap(2, &mut w);
    let shown = self::text(&tree, &info, &settings);
    lap(3, &mut w);
    w.out = [text.len(), to_value(&tree).to_string().len() + errors.len(), out.body.len(), shown.len()];
    w
}

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    // What is repeated, around what, how often at first, and by how much more.
    let (start, middle, end): (String, &str, String);
    let (n, times, power);
    let mode = src.weighted(&[3, 3, 3, 2, 4]);
    cx.label(["closed", "any", "nested", "too deep", "open"][mode]);
    match mode {
        0 | 1 => {
            let piece = if mode == 0 { model::doc(src, 4).text } else { gen::document(src) };
            start = format!("{piece}\n\n");
            (middle, end) = ("", String::new());
            (n, times) = if mode == 0 { (src.range(8, 24), 4) } else { (src.range(3, 5), 4) };
            power = if mode == 0 { 1 } else { 4 };
        }
        2 | 3 => {
            let units: Vec<_> = if src.chance(1, 3) {
                (0..src.range(1, 3)).map(|_| *src.pick(INLINES)).collect()
            } else {
                (0..src.range(1, 3)).map(|_| *src.pick(BLOCKS)).collect()
            };
            let levels: usize = units.iter().map(|u| u.2).sum();
            start = units.iter().map(|u| u.0).collect();
            end = units.iter().rev().map(|u| u.1).collect();
            middle = "x";
            n = if mode == 2 { 49 / levels } else { 110 / levels + 1 };
            (times, power) = (2, 1);
        }
        _ => {
            let k = src.range(1, 4);
            let mut s = String::new();
            for _ in 0..k {
                match src.below(4) {
                    0 => s += src.pick(BLOCKS).0,
                    1 => s += src.pick(INLINES).0,
                    2 => s += src.pick_str(OPEN),
                    _ => s += &format!("{} ", gen::letters(src)),
                }
            }
            start = s;
            (middle, end) = ("x", String::new());
            (n, times) = (src.range(3, 8), 4);
            power = 4;
        }
    }
    let (short, long) = (format!("{}{middle}{}", start.repeat(n), end.repeat(n)), format!("{}{middle}{}", start.repeat(n * times), end.repeat(n * times)));
    cx.set_input(&short);
    let a = measure(&short);
    let b = measure(&long);
    cx.nontrivial_if(b.steps.iter().sum::<u64>() > 1000);
    for (i, phase) in PHASES.iter().enumerate() {
        let grown = (b.out[i] as f64 / a.out[i].max(1) as f64).max(times as f64).powi(power);
        for (what, a, b, floor) in [("steps", a.steps[i], b.steps[i], 200), ("bytes", a.bytes[i], b.bytes[i], 20_000)] {
            let ratio = b as f64 / (a + floor) as f64;
            check!(ratio < grown * if mode == 2 || what == "bytes" { 1.8 } else { 1.5 }, "grows", "{phase} {n} repetitions takes {a} {what}, {times} times as many take {b}");
        }
    }
    Ok(())
}

const OPEN: &[&str] = &[
    "**", "//", "__", "--a", "^^", ",,", "{{", "##red|", "[[[a ", "[/x ", "[[*user ", "@@", "@<", "[!-- ", "[[code]]\n", "[[html]]\n", "[[module css]]\n", "[[footnote]]", "[[#", "((bibcite ", "[[$", "|| ", "||~ ", "> ", "* ", "+ ", ": a : ", "= ", "\n", "\n\n", "[[/div]]", "[[/span]]", "[[li]]", "[[cell]]", "[[row]]", "[[tab a]]", "[[math]]\n", "[[embed]]\n", "[[gallery]]\n", "[[image ", "[[bibliography]]\n", "[[a href=\"", "``", "\"", "<", "[*", "[[f>image a",
];
