//! What all graphs have in common.

use crate::util::Res;
use rescan::verif::GraphView;
use std::collections::BTreeSet;

pub fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

/// What is said about the special vertices.
pub fn specials(g: &GraphView) -> Res {
    let [start, start_ds, accept, accept_eod] = g.specials;
    let all: BTreeSet<usize> = g.specials.iter().copied().collect();
    crate::ensure!(
        all.len() == 4 && sorted(&g.specials) == [0, 1, 2, 3],
        "special vertices are {:?}",
        g.specials
    );
    for v in [start, start_ds] {
        crate::ensure!(g.vertices[v].reach.len() == 256, "start {v} is not reached by all");
    }
    for v in [accept, accept_eod] {
        crate::ensure!(
            g.vertices[v].reach.is_empty(),
            "accept {v} is reached by {:?}",
            g.vertices[v].reach
        );
    }
    Ok(())
}

pub fn base_edges(g: &GraphView) -> Vec<(usize, usize)> {
    let [start, start_ds, accept, accept_eod] = g.specials;
    sorted(&[(start, start_ds), (start_ds, start_ds), (accept, accept_eod)])
}
