//! C03: the count_min_sketch aggregate of SQL and approx_count.
use crate::shim::*;

harnesses! {}

#[cfg(not(kani))]
pub mod ex {
    use super::*;
    pub fn item() -> String { match any_in(0, 3) { 0 => String::new(), 1 => format!("é{}", any_in(0, 300)), _ => format!("item {}", any_in(0, 20)) } }
}

executed! {
    fn aggregate() {
        use ex::*;
        use crate::sql::*;
        use timescaledb_toolkit::countminsketch::{*, toolkit_experimental::CountMinSketch, verif::agg::*};
        let (e, d) = ([0.9, 0.3, 0.05][any_in(0, 2) as usize], [0.9, 0.3, 0.01][any_in(0, 2) as usize]);
        let rows: Vec<Option<String>> = (0..any_in(0, 60)).map(|_| if any_in(0, 9) == 0 { None } else { Some(item()) }).collect();
        let s = history(&rows, &Agg {
            trans: &|s, x: &Option<String>| count_min_sketch_transition_fn_outer(s, x.clone(), e, d, NUL),
            combine: &|x, y| count_min_sketch_combine_fn_outer(x, y, NUL),
            moved: &|s| count_min_sketch_deserialize_fn_outer(count_min_sketch_serialize_fn_outer(s), none()),
            fin: &|s| { count_min_sketch_finally_fn_outer(s, NUL); },
            strict: false,
        });
        let items: Vec<&String> = rows.iter().flatten().collect();
        assert!(approx_count(item(), None).is_none(), "count in no sketch");
        match count_min_sketch_finally_fn_outer(st(s), NUL) {
            None => assert!(items.is_empty(), "no sketch of {} items", items.len()),
            Some(g) => {
                assert!(!items.is_empty(), "sketch of nothing");
                let g: CountMinSketch<'static> = match any_in(0, 2) { 0 => g, 1 => stored(g), _ => through_text(g) };
                let g = || Clone::clone(&g);
                let mut whole = ::countminsketch::CountMinSketch::with_prob(e, d);
                for x in &items { whole.add_value((*x).clone()) }
                let i = g().to_internal_countminsketch();
                assert!((i.width(), i.depth()) == (whole.width(), whole.depth()), "shape");
                assert!(i.counters() == whole.counters(), "counters differ from those of all items added to one sketch");
                for _ in 0..4 {
                    let x = if any_bool() { items[any_in(0, items.len() as u64 - 1) as usize].clone() } else { item() };
                    let t = items.iter().filter(|y| **y == &x).count() as i64;
                    let c = approx_count(x.clone(), Some(g())).unwrap();
                    assert!(t <= c && c <= items.len() as i64, "{x:?} occurs {t} times in {}, estimated {c}", items.len());
                    assert!(c == whole.estimate(x), "estimate");
                }
            }
        }
    }
}
