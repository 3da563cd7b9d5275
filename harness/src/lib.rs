//! Symbolic harnesses for the properties of magmaflow. See DESIGN.md.
pub mod sym;
#[macro_use]
pub mod util;
mod again;
mod api;
mod cfa;
mod display;
mod enc;
mod first;
mod ext;
mod header;
mod layout;
mod multi;
mod print;
mod reader;
mod selftest;
mod spec;
mod tables;
#[cfg(feature = "value")]
mod value;
// the check that needs it builds it: the others do not depend on these types
#[cfg(not(feature = "value"))]
mod value {
    pub fn h_text_value() {}
}

pub use cfa::reset;

macro_rules! entries {
    ($($m:ident::$f:ident),* $(,)?) => {
        pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    };
}
entries![
    header::h_header,
    header::h_header_cut,
    reader::h_inst,
    reader::h_inst_str,
    reader::h_string,
    reader::h_stream,
    reader::h_long,
    reader::h_order_header,
    reader::h_order_inst,
    reader::h_order_stream,
    reader::h_bytes,
    reader::h_words,
    reader::h_ext,
    reader::h_ext_name,
    multi::h_pair,
    multi::h_triple,
    multi::h_row,
    multi::h_among,
    multi::h_among_enum,
    multi::h_string_long,
    multi::h_list,
    multi::h_again,
    multi::h_ext_many,
    multi::h_header_body,
    multi::h_order_long,
    multi::h_order_pair,
    display::h_text_char,
    display::h_text_long,
    display::h_text_lines,
    display::h_text,
    display::h_text_module,
    display::h_column,
    display::h_number,
    layout::h_layout,
    layout::h_layout_edit,
    layout::h_layout_kind,
    layout::h_layout_stack,
    layout::h_layout_long,
    layout::h_layout_pair,
    cfa::h_cfg,
    cfa::h_cfg_dup,
    cfa::h_cfg_structured,
    cfa::h_cfg_fault,
    cfa::h_cfg_long,
    cfa::h_cfg_deep,
    cfa::h_cfg_stack,
    print::h_chain,
    print::h_print,
    print::h_print_long,
    print::h_print_deep,
    print::h_listing_kind,
    selftest::h_selftest,
    api::h_eq_inst,
    api::h_eq_ext,
    api::h_eq_module,
    api::h_eq_header,
    api::h_operands,
    api::h_operands_str,
    again::h_again_read,
    again::h_again_often,
    again::h_again_text,
    again::h_again_layout,
    again::h_again_cfg,
    again::h_again_name,
    again::h_again_any,
    again::h_again_hash,
    first::h_first,
    first::h_first_header,
    first::h_first_any,
    first::h_message,
    value::h_text_value,
];
