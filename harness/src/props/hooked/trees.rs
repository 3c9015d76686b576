//! Comparison of parse trees.

use crate::reference::Node;
use crate::util::Failure;
use rescan::verif::Tree;

/// The tree with classes as lists of bytes.
pub fn node(t: &Tree) -> Node {
    match t {
        Tree::Class(c) => Node::Class(c.clone()),
        Tree::Alternation(v) => Node::Alternation(v.iter().map(node).collect()),
        Tree::Sequence(i, v) => Node::Sequence(*i, v.iter().map(node).collect()),
    }
}

pub fn show_err(e: &rescan::CompileError) -> String {
    format!("{:?}", Failure::of(e))
}

/// The first place where two trees differ.
pub fn difference(want: &Node, got: &Node, path: &str) -> Option<String> {
    let lists = |a: &[Node], b: &[Node]| {
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            if let Some(d) = difference(x, y, &format!("{path}/{i}")) {
                return Some(d);
            }
        }
        (a.len() != b.len())
            .then(|| format!("at {path}: {} parts instead of {}", b.len(), a.len()))
    };
    match (want, got) {
        (Node::Class(a), Node::Class(b)) => {
            (a != b).then(|| format!("at {path}: class {b:?} instead of {a:?}"))
        }
        (Node::Alternation(a), Node::Alternation(b)) => lists(a, b),
        (Node::Sequence(i, a), Node::Sequence(j, b)) => {
            if i != j {
                return Some(format!("at {path}: capture index {j:?} instead of {i:?}"));
            }
            lists(a, b)
        }
        _ => {
            let kind = |n: &Node| match n {
                Node::Class(_) => "class",
                Node::Alternation(_) => "alternation",
                Node::Sequence(..) => "sequence",
            };
            Some(format!("at {path}: a {} instead of a {}", kind(got), kind(want)))
        }
    }
}
