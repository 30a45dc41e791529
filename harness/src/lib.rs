include!("mods.rs");
