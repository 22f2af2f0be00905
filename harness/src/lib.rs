pub mod rsx;
pub mod util;
pub mod h_again;
pub mod h_derive;
pub mod fs;
pub mod h_files;
pub mod h_free;
pub mod h_geom;
pub mod h_parse;
pub mod h_symbols;
pub mod h_threads;

pub fn tables() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
    vec![h_derive::TABLE, h_again::TABLE, h_parse::TABLE, h_symbols::TABLE, h_threads::TABLE, h_geom::TABLE, h_files::TABLE, h_free::TABLE]
}
