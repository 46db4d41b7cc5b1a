//! `ftml-pbt show [tree|html|all] [mode]`: what ftml does with standard input.

use crate::{common, engine, gen, model};
use ftml::layout::Layout;
use ftml::settings::*;
use std::io::Read;

pub fn show(args: &[String]) {
    let what = args.first().map(|s| s.as_str()).unwrap_or("all");
    let mode = match args.get(1).map(|s| s.as_str()).unwrap_or("page") {
        "draft" => WikitextMode::Draft,
        "forum" => WikitextMode::ForumPost,
        "dm" => WikitextMode::DirectMessage,
        "list" => WikitextMode::List,
        _ => WikitextMode::Page,
    };
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let settings = WikitextSettings::from_mode(mode, Layout::Wikidot);
    let info = common::info();
    let (tree, errors) = common::parse(&s, &info, &settings);
    if what != "html" {
        println!("TREE {}", serde_json::to_string(&tree).unwrap());
        println!("ERR {}", serde_json::to_string(&errors).unwrap());
        println!("TEXT {:?}", common::text(&tree, &info, &settings));
    }
    let h = common::html(&tree, &info, &settings);
    if what != "tree" {
        println!("HTML {}\nBL {:?}", h.body, h.backlinks);
    }
}

/// `ftml-pbt outputs FROM TO`: a hash of what ftml makes of each of many
/// generated texts, for comparing two builds.
pub fn outputs(args: &[String]) {
    let (from, to): (u64, u64) = (args[0].parse().unwrap(), args[1].parse().unwrap());
    engine::install_panic_hook();
    engine::init_logger();
    engine::with_stack(move || {
        for i in from..to {
            let mut src = engine::Src::random(i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
            let text = match src.below(6) {
                0 => gen::soup(&mut src),
                1 => gen::tidy(&mut src),
                2 => gen::mutant(&mut src),
                3 => gen::tiny(&mut src),
                4 => model::doc(&mut src, 8).text,
                _ => gen::document(&mut src),
            };
            let settings = common::gen_settings(&mut src);
            let info = common::info();
            let out = engine::budgeted(300_000, || {
                let (tree, errors) = common::parse(&text, &info, &settings);
                let html = common::html(&tree, &info, &settings);
                let mut all = serde_json::to_string(&tree).unwrap();
                all += &serde_json::to_string(&errors).unwrap();
                all += &common::stable_html(&html.body);
                all
            });
            match out {
                Some(all) => println!("{i} {:016x} {:?}", engine::hash64(all.as_bytes()), text),
                None => println!("{i} over {:?}", text),
            }
        }
    });
}
