// Written by tools/genlit.py.
use crate::util::Payload;
use dendron::*;

fn p(v: i64) -> Payload {
    Payload::new(v)
}

pub struct Literal {
    pub par: &'static [usize],
    pub node: fn() -> Node<Payload>,
    pub tree: fn() -> Tree<Payload>,
}

pub const LITERALS: &[Literal] = &[
    Literal { par: &[0], node: || tree_node! { p(1) }, tree: || tree! { p(1) } },
    Literal { par: &[0], node: || tree_node! { p(1), [] }, tree: || tree! { p(1), [] } },
    Literal { par: &[0], node: || tree_node! { p(1), [] }, tree: || tree! { p(1), [] } },
    Literal { par: &[0], node: || tree_node! { p(1) }, tree: || tree! { p(1) } },
    Literal { par: &[0, 1], node: || tree_node! { p(1), [p(2),], }, tree: || tree! { p(1), [p(2),], } },
    Literal { par: &[0, 1], node: || tree_node! { p(1), [/(p(2), [])] }, tree: || tree! { p(1), [/(p(2), [])] } },
    Literal { par: &[0, 1], node: || tree_node! { p(1), [/(p(2), []),] }, tree: || tree! { p(1), [/(p(2), []),] } },
    Literal { par: &[0, 1], node: || tree_node! { p(1), [p(2),] }, tree: || tree! { p(1), [p(2),] } },
    Literal { par: &[0, 1, 2], node: || tree_node! { p(1), [/(p(2), [p(3),]),], }, tree: || tree! { p(1), [/(p(2), [p(3),]),], } },
    Literal { par: &[0, 1, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), [])])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [])])] } },
    Literal { par: &[0, 1, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), [])]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [])]),] } },
    Literal { par: &[0, 1, 2], node: || tree_node! { p(1), [/(p(2), [p(3),]),] }, tree: || tree! { p(1), [/(p(2), [p(3),]),] } },
    Literal { par: &[0, 1, 1], node: || tree_node! { p(1), [p(2), p(3),], }, tree: || tree! { p(1), [p(2), p(3),], } },
    Literal { par: &[0, 1, 1], node: || tree_node! { p(1), [/(p(2), []), /(p(3), [])] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), [])] } },
    Literal { par: &[0, 1, 1], node: || tree_node! { p(1), [/(p(2), []), p(3),] }, tree: || tree! { p(1), [/(p(2), []), p(3),] } },
    Literal { par: &[0, 1, 1], node: || tree_node! { p(1), [p(2), p(3),] }, tree: || tree! { p(1), [p(2), p(3),] } },
    Literal { par: &[0, 1, 2, 3], node: || tree_node! { p(1), [/(p(2), [/(p(3), [p(4),]),]),], }, tree: || tree! { p(1), [/(p(2), [/(p(3), [p(4),]),]),], } },
    Literal { par: &[0, 1, 2, 3], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), [])])])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), [])])])] } },
    Literal { par: &[0, 1, 2, 3], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), []),])]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), []),])]),] } },
    Literal { par: &[0, 1, 2, 3], node: || tree_node! { p(1), [/(p(2), [/(p(3), [p(4),]),]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [p(4),]),]),] } },
    Literal { par: &[0, 1, 2, 2], node: || tree_node! { p(1), [/(p(2), [p(3), p(4),]),], }, tree: || tree! { p(1), [/(p(2), [p(3), p(4),]),], } },
    Literal { par: &[0, 1, 2, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), []), /(p(4), [])])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), []), /(p(4), [])])] } },
    Literal { par: &[0, 1, 2, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), []), p(4)]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), []), p(4)]),] } },
    Literal { par: &[0, 1, 2, 2], node: || tree_node! { p(1), [/(p(2), [p(3), p(4),]),] }, tree: || tree! { p(1), [/(p(2), [p(3), p(4),]),] } },
    Literal { par: &[0, 1, 2, 1], node: || tree_node! { p(1), [/(p(2), [p(3),]), p(4),], }, tree: || tree! { p(1), [/(p(2), [p(3),]), p(4),], } },
    Literal { par: &[0, 1, 2, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), [])]), /(p(4), [])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [])]), /(p(4), [])] } },
    Literal { par: &[0, 1, 2, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), [])]), p(4),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [])]), p(4),] } },
    Literal { par: &[0, 1, 2, 1], node: || tree_node! { p(1), [/(p(2), [p(3),]), p(4),] }, tree: || tree! { p(1), [/(p(2), [p(3),]), p(4),] } },
    Literal { par: &[0, 1, 1, 3], node: || tree_node! { p(1), [p(2), /(p(3), [p(4),]),], }, tree: || tree! { p(1), [p(2), /(p(3), [p(4),]),], } },
    Literal { par: &[0, 1, 1, 3], node: || tree_node! { p(1), [/(p(2), []), /(p(3), [/(p(4), [])])] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), [/(p(4), [])])] } },
    Literal { par: &[0, 1, 1, 3], node: || tree_node! { p(1), [/(p(2), []), /(p(3), [p(4)]),] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), [p(4)]),] } },
    Literal { par: &[0, 1, 1, 3], node: || tree_node! { p(1), [p(2), /(p(3), [p(4),]),] }, tree: || tree! { p(1), [p(2), /(p(3), [p(4),]),] } },
    Literal { par: &[0, 1, 1, 1], node: || tree_node! { p(1), [p(2), p(3), p(4),], }, tree: || tree! { p(1), [p(2), p(3), p(4),], } },
    Literal { par: &[0, 1, 1, 1], node: || tree_node! { p(1), [/(p(2), []), /(p(3), []), /(p(4), [])] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), []), /(p(4), [])] } },
    Literal { par: &[0, 1, 1, 1], node: || tree_node! { p(1), [/(p(2), []), p(3), /(p(4), []),] }, tree: || tree! { p(1), [/(p(2), []), p(3), /(p(4), []),] } },
    Literal { par: &[0, 1, 1, 1], node: || tree_node! { p(1), [p(2), p(3), p(4),] }, tree: || tree! { p(1), [p(2), p(3), p(4),] } },
    Literal { par: &[0, 1, 2, 3, 4], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), [p(5),]),]),]),], }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), [p(5),]),]),]),], } },
    Literal { par: &[0, 1, 2, 3, 4], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), [/(p(5), [])])])])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), [/(p(5), [])])])])] } },
    Literal { par: &[0, 1, 2, 3, 4], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), [/(p(5), [])]),])]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), [/(p(5), [])]),])]),] } },
    Literal { par: &[0, 1, 2, 3, 4], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), [p(5),]),]),]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), [p(5),]),]),]),] } },
    Literal { par: &[0, 1, 2, 3, 3], node: || tree_node! { p(1), [/(p(2), [/(p(3), [p(4), p(5),]),]),], }, tree: || tree! { p(1), [/(p(2), [/(p(3), [p(4), p(5),]),]),], } },
    Literal { par: &[0, 1, 2, 3, 3], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), []), /(p(5), [])])])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), []), /(p(5), [])])])] } },
    Literal { par: &[0, 1, 2, 3, 3], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), []), p(5),])]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), []), p(5),])]),] } },
    Literal { par: &[0, 1, 2, 3, 3], node: || tree_node! { p(1), [/(p(2), [/(p(3), [p(4), p(5),]),]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [p(4), p(5),]),]),] } },
    Literal { par: &[0, 1, 2, 3, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), [p(4),]), p(5),]),], }, tree: || tree! { p(1), [/(p(2), [/(p(3), [p(4),]), p(5),]),], } },
    Literal { par: &[0, 1, 2, 3, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), [])]), /(p(5), [])])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), [])]), /(p(5), [])])] } },
    Literal { par: &[0, 1, 2, 3, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), []),]), p(5)]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), []),]), p(5)]),] } },
    Literal { par: &[0, 1, 2, 3, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), [p(4),]), p(5),]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [p(4),]), p(5),]),] } },
    Literal { par: &[0, 1, 2, 3, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), [p(4),]),]), p(5),], }, tree: || tree! { p(1), [/(p(2), [/(p(3), [p(4),]),]), p(5),], } },
    Literal { par: &[0, 1, 2, 3, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), [])])]), /(p(5), [])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), [])])]), /(p(5), [])] } },
    Literal { par: &[0, 1, 2, 3, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), [/(p(4), []),])]), p(5),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [/(p(4), []),])]), p(5),] } },
    Literal { par: &[0, 1, 2, 3, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), [p(4),]),]), p(5),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [p(4),]),]), p(5),] } },
    Literal { par: &[0, 1, 2, 2, 4], node: || tree_node! { p(1), [/(p(2), [p(3), /(p(4), [p(5),]),]),], }, tree: || tree! { p(1), [/(p(2), [p(3), /(p(4), [p(5),]),]),], } },
    Literal { par: &[0, 1, 2, 2, 4], node: || tree_node! { p(1), [/(p(2), [/(p(3), []), /(p(4), [/(p(5), [])])])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), []), /(p(4), [/(p(5), [])])])] } },
    Literal { par: &[0, 1, 2, 2, 4], node: || tree_node! { p(1), [/(p(2), [/(p(3), []), /(p(4), [p(5),])]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), []), /(p(4), [p(5),])]),] } },
    Literal { par: &[0, 1, 2, 2, 4], node: || tree_node! { p(1), [/(p(2), [p(3), /(p(4), [p(5),]),]),] }, tree: || tree! { p(1), [/(p(2), [p(3), /(p(4), [p(5),]),]),] } },
    Literal { par: &[0, 1, 2, 2, 2], node: || tree_node! { p(1), [/(p(2), [p(3), p(4), p(5),]),], }, tree: || tree! { p(1), [/(p(2), [p(3), p(4), p(5),]),], } },
    Literal { par: &[0, 1, 2, 2, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), []), /(p(4), []), /(p(5), [])])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), []), /(p(4), []), /(p(5), [])])] } },
    Literal { par: &[0, 1, 2, 2, 2], node: || tree_node! { p(1), [/(p(2), [/(p(3), []), p(4), /(p(5), [])]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), []), p(4), /(p(5), [])]),] } },
    Literal { par: &[0, 1, 2, 2, 2], node: || tree_node! { p(1), [/(p(2), [p(3), p(4), p(5),]),] }, tree: || tree! { p(1), [/(p(2), [p(3), p(4), p(5),]),] } },
    Literal { par: &[0, 1, 2, 2, 1], node: || tree_node! { p(1), [/(p(2), [p(3), p(4),]), p(5),], }, tree: || tree! { p(1), [/(p(2), [p(3), p(4),]), p(5),], } },
    Literal { par: &[0, 1, 2, 2, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), []), /(p(4), [])]), /(p(5), [])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), []), /(p(4), [])]), /(p(5), [])] } },
    Literal { par: &[0, 1, 2, 2, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), []), p(4)]), /(p(5), []),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), []), p(4)]), /(p(5), []),] } },
    Literal { par: &[0, 1, 2, 2, 1], node: || tree_node! { p(1), [/(p(2), [p(3), p(4),]), p(5),] }, tree: || tree! { p(1), [/(p(2), [p(3), p(4),]), p(5),] } },
    Literal { par: &[0, 1, 2, 1, 4], node: || tree_node! { p(1), [/(p(2), [p(3),]), /(p(4), [p(5),]),], }, tree: || tree! { p(1), [/(p(2), [p(3),]), /(p(4), [p(5),]),], } },
    Literal { par: &[0, 1, 2, 1, 4], node: || tree_node! { p(1), [/(p(2), [/(p(3), [])]), /(p(4), [/(p(5), [])])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [])]), /(p(4), [/(p(5), [])])] } },
    Literal { par: &[0, 1, 2, 1, 4], node: || tree_node! { p(1), [/(p(2), [/(p(3), [])]), /(p(4), [p(5)]),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [])]), /(p(4), [p(5)]),] } },
    Literal { par: &[0, 1, 2, 1, 4], node: || tree_node! { p(1), [/(p(2), [p(3),]), /(p(4), [p(5),]),] }, tree: || tree! { p(1), [/(p(2), [p(3),]), /(p(4), [p(5),]),] } },
    Literal { par: &[0, 1, 2, 1, 1], node: || tree_node! { p(1), [/(p(2), [p(3),]), p(4), p(5),], }, tree: || tree! { p(1), [/(p(2), [p(3),]), p(4), p(5),], } },
    Literal { par: &[0, 1, 2, 1, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), [])]), /(p(4), []), /(p(5), [])] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [])]), /(p(4), []), /(p(5), [])] } },
    Literal { par: &[0, 1, 2, 1, 1], node: || tree_node! { p(1), [/(p(2), [/(p(3), [])]), p(4), /(p(5), []),] }, tree: || tree! { p(1), [/(p(2), [/(p(3), [])]), p(4), /(p(5), []),] } },
    Literal { par: &[0, 1, 2, 1, 1], node: || tree_node! { p(1), [/(p(2), [p(3),]), p(4), p(5),] }, tree: || tree! { p(1), [/(p(2), [p(3),]), p(4), p(5),] } },
    Literal { par: &[0, 1, 1, 3, 4], node: || tree_node! { p(1), [p(2), /(p(3), [/(p(4), [p(5),]),]),], }, tree: || tree! { p(1), [p(2), /(p(3), [/(p(4), [p(5),]),]),], } },
    Literal { par: &[0, 1, 1, 3, 4], node: || tree_node! { p(1), [/(p(2), []), /(p(3), [/(p(4), [/(p(5), [])])])] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), [/(p(4), [/(p(5), [])])])] } },
    Literal { par: &[0, 1, 1, 3, 4], node: || tree_node! { p(1), [/(p(2), []), /(p(3), [/(p(4), [p(5),])]),] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), [/(p(4), [p(5),])]),] } },
    Literal { par: &[0, 1, 1, 3, 4], node: || tree_node! { p(1), [p(2), /(p(3), [/(p(4), [p(5),]),]),] }, tree: || tree! { p(1), [p(2), /(p(3), [/(p(4), [p(5),]),]),] } },
    Literal { par: &[0, 1, 1, 3, 3], node: || tree_node! { p(1), [p(2), /(p(3), [p(4), p(5),]),], }, tree: || tree! { p(1), [p(2), /(p(3), [p(4), p(5),]),], } },
    Literal { par: &[0, 1, 1, 3, 3], node: || tree_node! { p(1), [/(p(2), []), /(p(3), [/(p(4), []), /(p(5), [])])] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), [/(p(4), []), /(p(5), [])])] } },
    Literal { par: &[0, 1, 1, 3, 3], node: || tree_node! { p(1), [/(p(2), []), /(p(3), [p(4), /(p(5), [])]),] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), [p(4), /(p(5), [])]),] } },
    Literal { par: &[0, 1, 1, 3, 3], node: || tree_node! { p(1), [p(2), /(p(3), [p(4), p(5),]),] }, tree: || tree! { p(1), [p(2), /(p(3), [p(4), p(5),]),] } },
    Literal { par: &[0, 1, 1, 3, 1], node: || tree_node! { p(1), [p(2), /(p(3), [p(4),]), p(5),], }, tree: || tree! { p(1), [p(2), /(p(3), [p(4),]), p(5),], } },
    Literal { par: &[0, 1, 1, 3, 1], node: || tree_node! { p(1), [/(p(2), []), /(p(3), [/(p(4), [])]), /(p(5), [])] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), [/(p(4), [])]), /(p(5), [])] } },
    Literal { par: &[0, 1, 1, 3, 1], node: || tree_node! { p(1), [/(p(2), []), /(p(3), [p(4)]), /(p(5), []),] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), [p(4)]), /(p(5), []),] } },
    Literal { par: &[0, 1, 1, 3, 1], node: || tree_node! { p(1), [p(2), /(p(3), [p(4),]), p(5),] }, tree: || tree! { p(1), [p(2), /(p(3), [p(4),]), p(5),] } },
    Literal { par: &[0, 1, 1, 1, 4], node: || tree_node! { p(1), [p(2), p(3), /(p(4), [p(5),]),], }, tree: || tree! { p(1), [p(2), p(3), /(p(4), [p(5),]),], } },
    Literal { par: &[0, 1, 1, 1, 4], node: || tree_node! { p(1), [/(p(2), []), /(p(3), []), /(p(4), [/(p(5), [])])] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), []), /(p(4), [/(p(5), [])])] } },
    Literal { par: &[0, 1, 1, 1, 4], node: || tree_node! { p(1), [/(p(2), []), p(3), /(p(4), [/(p(5), [])]),] }, tree: || tree! { p(1), [/(p(2), []), p(3), /(p(4), [/(p(5), [])]),] } },
    Literal { par: &[0, 1, 1, 1, 4], node: || tree_node! { p(1), [p(2), p(3), /(p(4), [p(5),]),] }, tree: || tree! { p(1), [p(2), p(3), /(p(4), [p(5),]),] } },
    Literal { par: &[0, 1, 1, 1, 1], node: || tree_node! { p(1), [p(2), p(3), p(4), p(5),], }, tree: || tree! { p(1), [p(2), p(3), p(4), p(5),], } },
    Literal { par: &[0, 1, 1, 1, 1], node: || tree_node! { p(1), [/(p(2), []), /(p(3), []), /(p(4), []), /(p(5), [])] }, tree: || tree! { p(1), [/(p(2), []), /(p(3), []), /(p(4), []), /(p(5), [])] } },
    Literal { par: &[0, 1, 1, 1, 1], node: || tree_node! { p(1), [/(p(2), []), p(3), /(p(4), []), p(5),] }, tree: || tree! { p(1), [/(p(2), []), p(3), /(p(4), []), p(5),] } },
    Literal { par: &[0, 1, 1, 1, 1], node: || tree_node! { p(1), [p(2), p(3), p(4), p(5),] }, tree: || tree! { p(1), [p(2), p(3), p(4), p(5),] } },
];
