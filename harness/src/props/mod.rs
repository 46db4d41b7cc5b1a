use crate::engine::Property;

mod c01_no_crash;
mod c02_tokens;
mod c03_utf16;
mod c04_preprocess;
mod c05_include;
mod c06_pure;
mod c07_json;
mod c08_plain;
mod c09_verbatim;
mod c10_html;
mod c11_scripts;
mod c12_attributes;
mod c13_ids;
mod c14_footnotes;
mod c15_headings;
mod c16_bibliographies;
mod c17_modes;
mod c18_names;
mod c19_conditionals;
mod c20_lists;
mod c21_tables;
mod c22_inline;
mod c23_composition;
mod c24_links;
mod c25_backlinks;
mod c26_render_text;
mod c27_render_html;
mod c28_malformed;
mod c29_dates;
mod c30_nesting;
mod c31_documents;
mod c32_references;
mod c33_work;
mod c34_blocks;
mod c35_arguments;
mod c36_names;
mod c37_settings;
mod c38_containers;

pub const ALL: &[Property] = &[
    c01_no_crash::PROP,
    c02_tokens::PROP,
    c03_utf16::PROP,
    c04_preprocess::PROP,
    c05_include::PROP,
    c06_pure::PROP,
    c07_json::PROP,
    c08_plain::PROP,
    c09_verbatim::PROP,
    c10_html::PROP,
    c11_scripts::PROP,
    c12_attributes::PROP,
    c13_ids::PROP,
    c14_footnotes::PROP,
    c15_headings::PROP,
    c16_bibliographies::PROP,
    c17_modes::PROP,
    c18_names::PROP,
    c19_conditionals::PROP,
    c20_lists::PROP,
    c21_tables::PROP,
    c22_inline::PROP,
    c23_composition::PROP,
    c24_links::PROP,
    c25_backlinks::PROP,
    c26_render_text::PROP,
    c27_render_html::PROP,
    c28_malformed::PROP,
    c29_dates::PROP,
    c30_nesting::PROP,
    c31_documents::PROP,
    c32_references::PROP,
    c33_work::PROP,
    c34_blocks::PROP,
    c35_arguments::PROP,
    c36_names::PROP,
    c37_settings::PROP,
    c38_containers::PROP,
];

pub use c05_include::page_ref;
