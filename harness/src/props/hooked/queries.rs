//! Queries about automata.

use super::graphs::{base_edges, sorted, specials};
use crate::engine::{enumerate, hash_u64s, random, Prop, Src};
use crate::util::{Res, MIB};
use rescan::verif::{graph_from, GraphSpec};
use std::collections::BTreeSet;

const START: usize = 0;
const START_DS: usize = 1;
const ACCEPT: usize = 2;
const ACCEPT_EOD: usize = 3;

fn query_check(spec: &GraphSpec) -> Res {
    let g = graph_from(spec);
    specials(&g)?;
    let mut edges: Vec<(usize, usize)> = base_edges(&g);
    edges.extend(&spec.edges);
    crate::ensure!(sorted(&g.edges) == sorted(&edges), "edges of {spec:?} are {:?}", g.edges);
    let vacuous = spec
        .edges
        .iter()
        .any(|&(a, b)| (a == START || a == START_DS) && (b == ACCEPT || b == ACCEPT_EOD));
    crate::ensure!(g.vacuous == vacuous, "{spec:?} is vacuous: {} instead of {vacuous}", g.vacuous);
    let mut want: BTreeSet<u32> = BTreeSet::new();
    for &(v, r) in &spec.reports {
        let fires = edges.iter().any(|&(a, b)| a == v && (b == ACCEPT || b == ACCEPT_EOD));
        if fires {
            want.insert(r);
        }
    }
    let got: BTreeSet<u32> = g.all_reports.iter().copied().collect();
    crate::ensure!(got == want, "reports of {spec:?} are {got:?} instead of {want:?}");
    crate::ensure!(got.len() == g.all_reports.len(), "reports {:?} repeat", g.all_reports);
    Ok(())
}

fn query_any(s: &mut Src) -> Res {
    let extra_vertices = s.size(30);
    let n = 4 + extra_vertices;
    let vertex = |s: &mut Src| {
        if s.chance(1, 2) {
            s.below(4)
        } else {
            s.below(n)
        }
    };
    let num_edges = s.size(40);
    let avoid = s.chance(1, 3);
    let edges: Vec<(usize, usize)> = (0..num_edges)
        .map(|_| (vertex(s), vertex(s)))
        .filter(|&(a, b)| !(avoid && a < 2 && (b == 2 || b == 3)))
        .collect();
    let num_reports = s.size(30);
    let reports: Vec<(usize, u32)> = (0..num_reports)
        .map(|_| {
            let r = if s.bool() { s.draw(5) as u32 } else { s.any_u32() };
            (vertex(s), r)
        })
        .collect();
    let spec = GraphSpec { extra_vertices, edges, reports };
    s.note(|| format!("{spec:?}"));
    s.nontrivial_if(!spec.edges.is_empty() && !spec.reports.is_empty());
    query_check(&spec)
}

/// All sets of edges among the special vertices, with a report on each.
fn query_specials(s: &mut Src) -> Res {
    let k = s.draw(1 << 16);
    let edges: Vec<(usize, usize)> =
        (0..16).filter(|i| k >> i & 1 != 0).map(|i| (i / 4, i % 4)).collect();
    let h = hash_u64s(&[k]);
    let reports: Vec<(usize, u32)> =
        (0..8).filter(|i| h >> i & 1 != 0).map(|i| (i / 2, 10 * (i / 2) as u32 + i as u32 % 2)).collect();
    let spec = GraphSpec { extra_vertices: 0, edges, reports };
    s.note(|| format!("{spec:?}"));
    s.nontrivial_if(k != 0);
    query_check(&spec)
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "All graphs on the special vertices alone, and generated graphs with up to 30 further \
               vertices, parallel edges, loops, and shared reports; both queries are compared with \
               their definition. Non-trivial: has generated edges (and reports).",
        stack: 64 * MIB,
        assumptions: &[],
        subs: vec![
            enumerate("specials", 1 << 16, 1 << 16, query_specials),
            random("any", 150_000, 8_000_000, query_any),
        ],
    }
}
