//! Names as clients make them: one kind of name per run, most often numbers.
use adapton::engine::*;

/// distinct ids give distinct names; none is one the library derives from another
pub fn user_name(id: u64) -> Name {
    let kind = crate::rng::mix(crate::core::run_seed(), 0x6e61) % 16;
    of_kind(if kind == 15 { 8 + id % 7 } else { kind }, id)
}
fn of_kind(kind: u64, id: u64) -> Name {
    match kind {
        8 => name_of_string(format!("n{}", id)),
        9 => name_pair(name_of_str("doc"), name_of_usize(id as usize)),
        // halves of a forked name
        10 => { let (l, r) = name_fork(name_of_usize(40_000_000 + (id / 2) as usize)); if id % 2 == 0 { l } else { r } }
        // pairs sharing their parts
        11 => name_pair(name_of_usize(50_000_000 + (id / 4) as usize), name_of_usize((id % 4) as usize)),
        12 => name_pair(name_of_usize((id % 4) as usize), name_of_usize(50_000_000 + (id / 4) as usize)),
        // large numbers, equal in their low halves
        13 => name_of_usize(((id + 1) << 40) as usize + 7),
        // different names that hash alike
        14 => if id % 2 == 0 { name_of_usize(60_000_000 + (id / 2) as usize) } else { name_of_isize(60_000_000 + (id / 2) as isize) },
        _ => name_of_usize(id as usize),
    }
}
