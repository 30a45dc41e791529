include!("mods.rs");
mod native;
fn main() {
    let mut t: Vec<(&str, fn(&[usize]))> = vec![];
    for x in [board::TABLE, reveal::TABLE, laymines::TABLE, solver::TABLE, game::TABLE, advice::TABLE, caches::TABLE, evf::TABLE, video::TABLE, formats::TABLE, threads::TABLE, remarks::TABLE, exchange::TABLE] { t.extend_from_slice(x); }
    native::main(&t);
}
