/// Declares harness entry points: exported for the engine, listed for the replayer.
#[allow(unused_macros)]
macro_rules! entries {
    ($(fn $n:ident($($a:ident),*) $b:block)*) => {
        $( #[no_mangle] pub extern "C" fn $n($($a: usize),*) $b )*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, fn(&[usize]))] = &[ $( (stringify!($n), |_v: &[usize]| { let mut _k = 0; $( let $a = _v[_k]; _k += 1; )* $n($($a),*) }) ),* ];
    };
}
mod rt;
mod spec;
mod board;
mod reveal;
mod solver;
mod laymines;
mod game;
mod advice;
mod caches;
mod evf;
mod video;
mod formats;
mod threads;
mod remarks;
mod exchange;
