//! C03: conversion of indices to UTF-16.

use crate::common::*;
use crate::engine::*;
use crate::{check, gen};
use ftml::Utf16IndexMap;

pub const PROP: Property = Property {
    id: "C03",
    quick_cases: 200_000,
    thorough_cases: 2_000_000,
    budget: 200_000,
    over_budget: OverBudget::Discard,
    rule: "the text has a character outside of ASCII before its last token",
    assumptions: &[],
    run,
};

fn run(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut text = match src.weighted(&[3, 2, 1]) {
        0 => gen::tiny(src),
        1 => gen::soup(src),
        _ => gen::mutant(src),
    };
    for _ in 0..src.range(0, 4) {
        let c = src.pick_str(gen::ODD);
        let mut at = src.below(text.len() + 1);
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        text.insert_str(at, c);
    }
    announce(src, cx, &text);
    let map = Utf16IndexMap::new(&text);
    let units: Vec<u16> = text.encode_utf16().collect();
    let expect = |i: usize| text[..i].encode_utf16().count();
    let bounds: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
    for &i in &bounds {
        let got = map.get_index(i);
        check!(got == expect(i), "index", "byte {i} is UTF-16 unit {}, not {got}", expect(i));
    }
    let tokens = ftml::tokenize(&text);
    for t in tokens.tokens() {
        let u = t.to_utf16_indices(&map);
        check!(u.token == t.token && u.slice == t.slice, "token-fields", "{t:?} became {u:?}");
        let slice = String::from_utf16(units.get(u.span.clone()).unwrap_or(&[0xD800]));
        check!(slice.is_ok_and(|s| s == t.slice), "token-span", "{t:?} became {u:?}");
    }
    let settings = page_settings();
    let (_, errors) = parse_raw(&text, &info(), &settings);
    for e in &errors {
        let u = e.to_utf16_indices(&map);
        check!(
            u.token() == e.token() && u.rule() == e.rule() && u.kind() == e.kind(),
            "error-fields",
            "{e:?} became {u:?}"
        );
        check!(u.span() == (expect(e.span().start)..expect(e.span().end)), "error-span", "{e:?} became {u:?}");
    }
    cx.label_if(!errors.is_empty(), "errors");
    cx.label_if(text.is_empty(), "empty");
    cx.nontrivial_if(!text.is_ascii() && text.trim_end().len() == text.len());
    Ok(())
}
