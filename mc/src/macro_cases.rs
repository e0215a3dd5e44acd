// Generated by tools/gen_macros.py.

use dendron::{tree, tree_node, Node, Tree};
use mc::data::D;

type E<'a> = &'a mut dyn FnMut(u32) -> D;
pub struct NodeCase {
    pub par: &'static [usize],
    pub src: &'static str,
    pub f: fn(E) -> Node<D>,
}
pub struct TreeCase {
    pub par: &'static [usize],
    pub src: &'static str,
    pub f: fn(E) -> Tree<D>,
}

pub const NODES: &[NodeCase] = &[
    NodeCase { par: &[0], src: "e(0)", f: |e| tree_node! { e(0) } },
    NodeCase { par: &[0], src: "e(0), []", f: |e| tree_node! { e(0), [] } },
    NodeCase { par: &[0], src: "e(0), [],", f: |e| tree_node! { e(0), [], } },
    NodeCase { par: &[0, 0], src: "e(0), [e(1)]", f: |e| tree_node! { e(0), [e(1)] } },
    NodeCase { par: &[0, 0], src: "e(0), [e(1)],", f: |e| tree_node! { e(0), [e(1)], } },
    NodeCase { par: &[0, 0], src: "e(0), [e(1),]", f: |e| tree_node! { e(0), [e(1),] } },
    NodeCase { par: &[0, 0], src: "e(0), [e(1),],", f: |e| tree_node! { e(0), [e(1),], } },
    NodeCase { par: &[0, 0], src: "e(0), [/(e(1), [])]", f: |e| tree_node! { e(0), [/(e(1), [])] } },
    NodeCase { par: &[0, 0], src: "e(0), [/(e(1), [])],", f: |e| tree_node! { e(0), [/(e(1), [])], } },
    NodeCase { par: &[0, 0], src: "e(0), [/(e(1), []),]", f: |e| tree_node! { e(0), [/(e(1), []),] } },
    NodeCase { par: &[0, 0], src: "e(0), [/(e(1), []),],", f: |e| tree_node! { e(0), [/(e(1), []),], } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [e(1), e(2)]", f: |e| tree_node! { e(0), [e(1), e(2)] } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [e(1), e(2)],", f: |e| tree_node! { e(0), [e(1), e(2)], } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [e(1), e(2),]", f: |e| tree_node! { e(0), [e(1), e(2),] } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [e(1), e(2),],", f: |e| tree_node! { e(0), [e(1), e(2),], } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [e(1), /(e(2), [])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [])] } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [e(1), /(e(2), [])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [])], } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [e(1), /(e(2), []),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []),] } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [e(1), /(e(2), []),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []),], } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), e(2)]", f: |e| tree_node! { e(0), [/(e(1), []), e(2)] } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), e(2)],", f: |e| tree_node! { e(0), [/(e(1), []), e(2)], } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), e(2),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2),] } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), e(2),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2),], } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), [])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [])] } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), [])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [])], } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []),] } },
    NodeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []),], } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)])] } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2)])],", f: |e| tree_node! { e(0), [/(e(1), [e(2)])], } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2)]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]),] } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2)]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]),], } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2),])] } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2),])], } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]),] } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]),], } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])])] } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])])], } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]),] } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]),], } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),])] } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),])], } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]),] } },
    NodeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]),], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3)]", f: |e| tree_node! { e(0), [e(1), e(2), e(3)] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3)],", f: |e| tree_node! { e(0), [e(1), e(2), e(3)], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3),]", f: |e| tree_node! { e(0), [e(1), e(2), e(3),] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3),],", f: |e| tree_node! { e(0), [e(1), e(2), e(3),], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), [])]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [])] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), [])],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [])], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []),]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []),] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []),],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []),], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3)]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3)] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3)],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3)], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3),] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3),], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), [])]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [])] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), [])],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [])], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []),] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []),], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3)]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3)] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3)],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3)], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3),] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3),], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), [])]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [])] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), [])],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [])], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []),] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []),], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3)]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3)] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3)],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3)], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3),] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3),], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [])] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [])], } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []),] } },
    NodeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []),], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3)])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)])] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3)])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)])], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3)]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]),] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3)]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]),], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),])] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),])], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]),] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]),], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [/(e(3), [])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])])] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [/(e(3), [])])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])])], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [/(e(3), [])]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]),] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [/(e(3), [])]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]),], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),])] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),])], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]),] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]),], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3)])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)])] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3)])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)])], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3)]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]),] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3)]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]),], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),])] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),])], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]),] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]),], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])])] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])])], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]),] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]),], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),])] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),])], } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]),] } },
    NodeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]),], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), e(3)]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3)] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), e(3)],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3)], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), e(3),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3),] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), e(3),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3),], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [])] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [])], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []),] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []),], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2),]), e(3)]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3)] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2),]), e(3)],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3)], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2),]), e(3),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3),] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2),]), e(3),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3),], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [])] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [])], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []),] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []),], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3)] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3)], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3),] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3),], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [])] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [])], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []),] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []),], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3)] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3)], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3),] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3),], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [])] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [])], } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []),] } },
    NodeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []),], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)])] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3)])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)])], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3)]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]),] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3)]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]),], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),])] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),])], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]),] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]),], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), [])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])])] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), [])])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])])], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]),] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]),], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),])] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),])], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]),] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]),], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)])] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3)])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)])], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3)]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]),] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3)]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]),], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),])] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),])], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]),] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]),], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])])] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])])], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]),] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]),], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),])] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),])], } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]),] } },
    NodeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]),], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])])] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])])], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]),] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]),], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),])] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),])], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]),] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]),], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])])] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])])], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]),] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]),], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),])] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),])], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])])] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])])], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]),] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]),], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),])] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),])], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]),] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]),], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])])] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])])], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]),] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]),], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),])] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),])], } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), e(4)]", f: |e| tree_node! { e(0), [e(1), e(2), e(3), e(4)] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), e(4)],", f: |e| tree_node! { e(0), [e(1), e(2), e(3), e(4)], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), e(4),]", f: |e| tree_node! { e(0), [e(1), e(2), e(3), e(4),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), e(4),],", f: |e| tree_node! { e(0), [e(1), e(2), e(3), e(4),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), /(e(4), [])]", f: |e| tree_node! { e(0), [e(1), e(2), e(3), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), /(e(4), [])],", f: |e| tree_node! { e(0), [e(1), e(2), e(3), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), /(e(4), []),]", f: |e| tree_node! { e(0), [e(1), e(2), e(3), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), /(e(4), []),],", f: |e| tree_node! { e(0), [e(1), e(2), e(3), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []), e(4)]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []), e(4)] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []), e(4)],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []), e(4)], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []), e(4),]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []), e(4),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []), e(4),],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []), e(4),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []), /(e(4), [])]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []), /(e(4), [])],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []), /(e(4), []),]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []), /(e(4), []),],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), []), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3), e(4)]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3), e(4)] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3), e(4)],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3), e(4)], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3), e(4),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3), e(4),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3), e(4),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3), e(4),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3), /(e(4), [])]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3), /(e(4), [])],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3), /(e(4), []),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3), /(e(4), []),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), e(3), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), e(4)]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []), e(4)] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), e(4)],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []), e(4)], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), e(4),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []), e(4),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), e(4),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []), e(4),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), [])]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), [])],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), []),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), []),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3), e(4)]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3), e(4)] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3), e(4)],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3), e(4)], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3), e(4),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3), e(4),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3), e(4),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3), e(4),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), e(3), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []), e(4)]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []), e(4)] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []), e(4)],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []), e(4)], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []), e(4),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []), e(4),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []), e(4),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []), e(4),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3), e(4)]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3), e(4)] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3), e(4)],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3), e(4)], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3), e(4),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3), e(4),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3), e(4),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3), e(4),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4)]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4)] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4)],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4)], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4),], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4)])]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4)])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4)])],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4)])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4)]),]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4)]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4)]),],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4)]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4),])]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4),])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4),])],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4),])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4),]),]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4),]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4),]),],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), [])])]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [/(e(4), [])])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), [])])],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [/(e(4), [])])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), [])]),]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [/(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), [])]),],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [/(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), []),])]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [/(e(4), []),])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), []),])],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [/(e(4), []),])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), []),]),]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [/(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), []),]),],", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [/(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [e(4)])]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [e(4)])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [e(4)])],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [e(4)])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [e(4)]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [e(4)]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [e(4)]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [e(4)]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [e(4),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [e(4),])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [e(4),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [e(4),])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [e(4),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [e(4),]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [e(4),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [e(4),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])])],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [e(4)])]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [e(4)])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [e(4)])],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [e(4)])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [e(4)]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [e(4)]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [e(4),])]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [e(4),])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [e(4),])],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [e(4),])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [e(4),]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [e(4),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), [])])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), [])])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4)])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4)])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4)])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4)])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4)]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4)]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),])] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),])], } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), e(4)]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), e(4)] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), e(4)],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), e(4)], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), e(4),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), e(4),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), e(4),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), e(4),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), /(e(4), [])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), /(e(4), [])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), /(e(4), []),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), /(e(4), []),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3),]), e(4)]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]), e(4)] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3),]), e(4)],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]), e(4)], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3),]), e(4),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]), e(4),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3),]), e(4),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]), e(4),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3),]), /(e(4), [])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3),]), /(e(4), [])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3),]), /(e(4), []),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3),]), /(e(4), []),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [])]), e(4)]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]), e(4)] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [])]), e(4)],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]), e(4)], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [])]), e(4),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]), e(4),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [])]), e(4),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]), e(4),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [])]), /(e(4), [])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [])]), /(e(4), [])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [])]), /(e(4), []),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [])]), /(e(4), []),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [])]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), e(4)]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]), e(4)] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), e(4)],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]), e(4)], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), e(4),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]), e(4),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), e(4),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]), e(4),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), [])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), [])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), []),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), []),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3)]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]), e(4)] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3)]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]), e(4)], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3)]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]), e(4),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3)]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]), e(4),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]), e(4)] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]), e(4)], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]), e(4),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]), e(4),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), e(4)] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), e(4)], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), e(4),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), e(4),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4)] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4)], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4),], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4)])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4)])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4)])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4)])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4)]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4)]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4)]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4)]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4),])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4),])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), [])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), [])])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), [])]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), [])]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), []),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), []),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), []),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), []),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), e(4)])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), e(4)])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), e(4)])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), e(4)])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), e(4)]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), e(4)]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), e(4)]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), e(4)]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), e(4),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), e(4),])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), e(4),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), e(4),])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), e(4),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), e(4),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), e(4),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), e(4),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), e(4)])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), e(4)])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), e(4)]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), e(4)]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), e(4),])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), e(4),])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), e(4),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), e(4),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4)])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4)])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4)]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4)]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)])])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)])])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)])]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)])]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)]),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)]),])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)]),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)]),])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)]),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)]),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)]),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4),])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4),])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4),])])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4),])])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4),])]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4),])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4),])]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4),])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4),]),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4),]),])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4),]),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4),]),])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4),]),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4),]),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4),]),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4),]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])]),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])]),])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])]),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])]),])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])]),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])]),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])]),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),])],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),]),]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),]),],", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)])])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)])])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)])])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)])]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)])]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),])])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),])])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),])])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),])]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),])]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])])])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])])])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])])])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])])]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])])]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),])]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),])] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),])],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),])], } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]),]", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]),] } },
    NodeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), e(4)] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), e(4)], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), e(4),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), e(4),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []), e(4)] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []), e(4)], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []), e(4),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []), e(4),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), []), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), e(3), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3), e(4)] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), e(3), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3), e(4)], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), e(3), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3), e(4),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), e(3), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3), e(4),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), e(3), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), e(3), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), e(3), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), e(3), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), e(3), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []), e(4)] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []), e(4)], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []), e(4),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []), e(4),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3), e(4)] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3), e(4)], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3), e(4),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3), e(4),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), e(4)] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), e(4)], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), e(4),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), e(4),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3), e(4)] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3), e(4)], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3), e(4),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3), e(4),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4)] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4)], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4),], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4)])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4)])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4),])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4),])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [e(4)])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [e(4)])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [e(4),])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [e(4),])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4)])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4)])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4)])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4)])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [])]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [])]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [])]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [])]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [])]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [])]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [])]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [])]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [])]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3)]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3)]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3)]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3)]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),])]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),])]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),])]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),])]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),])]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),])]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),])]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),])]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),])]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4)] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4)],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4)], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4),], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), [])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), [])] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), [])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), [])], } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []),] } },
    NodeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4)])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4)])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4),])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4),])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), e(4)])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), e(4)])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), e(4),])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), e(4),])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), e(4)])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), e(4)])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), e(4),])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), e(4),])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4)])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4)])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)])])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)])])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)])]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)])]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)]),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)]),])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)]),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)]),])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)]),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)]),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)]),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4),])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4),])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4),])])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4),])])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4),])]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4),])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4),])]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4),])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4),]),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4),]),])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4),]),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4),]),])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4),]),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4),]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])]),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])]),])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])]),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])]),])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])]),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])]),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])]),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),])],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)])])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),])])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])])])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),])] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),])], } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]),] } },
    NodeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4)])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4)])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4),])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4),])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), e(4)])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), e(4)])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), e(4),])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), e(4),])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4)])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4)])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4)])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4)])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4)])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4)]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4)]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4)]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4)]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),])] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),])], } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)])])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4),])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4),])])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4),])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4),])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4),]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4),]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)])])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),])])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])])])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])])])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),])])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])])])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),])] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),])],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),])], } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]),]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]),] } },
    NodeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), e(4), e(5)]", f: |e| tree_node! { e(0), [e(1), e(2), e(3), e(4), e(5)] } },
    NodeCase { par: &[0, 0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 0, 4], src: "e(0), [e(1), e(2), e(3), /(e(4), [e(5)])]", f: |e| tree_node! { e(0), [e(1), e(2), e(3), /(e(4), [e(5)])] } },
    NodeCase { par: &[0, 0, 0, 0, 0, 4], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), [/(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), [/(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3, 0], src: "e(0), [e(1), e(2), /(e(3), [e(4)]), e(5)]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4)]), e(5)] } },
    NodeCase { par: &[0, 0, 0, 0, 3, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 0, 0, 3, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4), e(5)])]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [e(4), e(5)])] } },
    NodeCase { par: &[0, 0, 0, 0, 3, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []), /(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []), /(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 0, 0, 3, 4], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), [e(5)])])]", f: |e| tree_node! { e(0), [e(1), e(2), /(e(3), [/(e(4), [e(5)])])] } },
    NodeCase { par: &[0, 0, 0, 0, 3, 4], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [/(e(5), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [/(e(5), []),]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 0, 0], src: "e(0), [e(1), /(e(2), [e(3)]), e(4), e(5)]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), e(4), e(5)] } },
    NodeCase { par: &[0, 0, 0, 2, 0, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 0, 4], src: "e(0), [e(1), /(e(2), [e(3)]), /(e(4), [e(5)])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3)]), /(e(4), [e(5)])] } },
    NodeCase { par: &[0, 0, 0, 2, 0, 4], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), [/(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), [/(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2, 0], src: "e(0), [e(1), /(e(2), [e(3), e(4)]), e(5)]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4)]), e(5)] } },
    NodeCase { par: &[0, 0, 0, 2, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 3, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)])]), e(5)]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)])]), e(5)] } },
    NodeCase { par: &[0, 0, 0, 2, 3, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 0, 2, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4), e(5)])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), e(4), e(5)])] } },
    NodeCase { par: &[0, 0, 0, 2, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []), /(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []), /(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 2, 4], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), [e(5)])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [e(3), /(e(4), [e(5)])])] } },
    NodeCase { par: &[0, 0, 0, 2, 2, 4], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [/(e(5), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [/(e(5), []),]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3, 2], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)]), e(5)])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4)]), e(5)])] } },
    NodeCase { par: &[0, 0, 0, 2, 3, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]), /(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]), /(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4), e(5)])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [e(4), e(5)])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []), /(e(5), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []), /(e(5), []),]),]),], } },
    NodeCase { par: &[0, 0, 0, 2, 3, 4], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [e(5)])])])]", f: |e| tree_node! { e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [e(5)])])])] } },
    NodeCase { par: &[0, 0, 0, 2, 3, 4], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [/(e(5), []),]),]),]),],", f: |e| tree_node! { e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [/(e(5), []),]),]),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), e(4), e(5)]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), e(4), e(5)] } },
    NodeCase { par: &[0, 0, 1, 0, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 0, 4], src: "e(0), [/(e(1), [e(2)]), e(3), /(e(4), [e(5)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), e(3), /(e(4), [e(5)])] } },
    NodeCase { par: &[0, 0, 1, 0, 0, 4], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), [/(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), [/(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]), e(5)]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]), e(5)] } },
    NodeCase { par: &[0, 0, 1, 0, 3, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 1, 0, 3, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4), e(5)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [e(4), e(5)])] } },
    NodeCase { par: &[0, 0, 1, 0, 3, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []), /(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []), /(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 1, 0, 3, 4], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [e(5)])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [e(5)])])] } },
    NodeCase { par: &[0, 0, 1, 0, 3, 4], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [/(e(5), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [/(e(5), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 0, 0], src: "e(0), [/(e(1), [e(2), e(3)]), e(4), e(5)]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), e(4), e(5)] } },
    NodeCase { par: &[0, 0, 1, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 0, 4], src: "e(0), [/(e(1), [e(2), e(3)]), /(e(4), [e(5)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3)]), /(e(4), [e(5)])] } },
    NodeCase { par: &[0, 0, 1, 1, 0, 4], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), [/(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), [/(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 0, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), e(4), e(5)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), e(4), e(5)] } },
    NodeCase { par: &[0, 0, 1, 2, 0, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 0, 4], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), [e(5)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), [e(5)])] } },
    NodeCase { par: &[0, 0, 1, 2, 0, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), [/(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), [/(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3), e(4)]), e(5)]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4)]), e(5)] } },
    NodeCase { par: &[0, 0, 1, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 3, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)])]), e(5)]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)])]), e(5)] } },
    NodeCase { par: &[0, 0, 1, 1, 3, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 1, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]), e(5)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]), e(5)] } },
    NodeCase { par: &[0, 0, 1, 2, 1, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)])]), e(5)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)])]), e(5)] } },
    NodeCase { par: &[0, 0, 1, 2, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 1, 2, 3, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]), e(5)]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]), e(5)] } },
    NodeCase { par: &[0, 0, 1, 2, 3, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]), /(e(5), []),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]), /(e(5), []),], } },
    NodeCase { par: &[0, 0, 1, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4), e(5)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), e(4), e(5)])] } },
    NodeCase { par: &[0, 0, 1, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 1, 4], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), [e(5)])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), e(3), /(e(4), [e(5)])])] } },
    NodeCase { par: &[0, 0, 1, 1, 1, 4], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [/(e(5), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [/(e(5), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3, 1], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)]), e(5)])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4)]), e(5)])] } },
    NodeCase { par: &[0, 0, 1, 1, 3, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]), /(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]), /(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4), e(5)])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [e(4), e(5)])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []), /(e(5), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []), /(e(5), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 1, 3, 4], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [e(5)])])])]", f: |e| tree_node! { e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [e(5)])])])] } },
    NodeCase { par: &[0, 0, 1, 1, 3, 4], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [/(e(5), []),]),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [/(e(5), []),]),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4), e(5)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), e(4), e(5)])] } },
    NodeCase { par: &[0, 0, 1, 2, 1, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []), /(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []), /(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 1, 4], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [e(5)])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [e(5)])])] } },
    NodeCase { par: &[0, 0, 1, 2, 1, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [/(e(5), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [/(e(5), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)]), e(5)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4)]), e(5)])] } },
    NodeCase { par: &[0, 0, 1, 2, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]), e(5)])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]), e(5)])] } },
    NodeCase { par: &[0, 0, 1, 2, 3, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]), /(e(5), []),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]), /(e(5), []),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4), e(5)])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), e(4), e(5)])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []), /(e(5), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []), /(e(5), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 2, 4], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [e(5)])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [e(5)])])])] } },
    NodeCase { par: &[0, 0, 1, 2, 2, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [/(e(5), []),]),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [/(e(5), []),]),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]), e(5)])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]), e(5)])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]), /(e(5), []),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]), /(e(5), []),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4), e(5)])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [e(4), e(5)])])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []), /(e(5), []),]),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []), /(e(5), []),]),]),]),], } },
    NodeCase { par: &[0, 0, 1, 2, 3, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [e(5)])])])])]", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [e(5)])])])])] } },
    NodeCase { par: &[0, 0, 1, 2, 3, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), []),]),]),]),]),],", f: |e| tree_node! { e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), []),]),]),]),]),], } },
];

pub const TREES: &[TreeCase] = &[
    TreeCase { par: &[0], src: "e(0)", f: |e| tree!(e(0)) },
    TreeCase { par: &[0], src: "e(0), []", f: |e| tree!(e(0), []) },
    TreeCase { par: &[0], src: "e(0), [],", f: |e| tree!(e(0), [],) },
    TreeCase { par: &[0, 0], src: "e(0), [e(1)]", f: |e| tree!(e(0), [e(1)]) },
    TreeCase { par: &[0, 0], src: "e(0), [e(1)],", f: |e| tree!(e(0), [e(1)],) },
    TreeCase { par: &[0, 0], src: "e(0), [e(1),]", f: |e| tree!(e(0), [e(1),]) },
    TreeCase { par: &[0, 0], src: "e(0), [e(1),],", f: |e| tree!(e(0), [e(1),],) },
    TreeCase { par: &[0, 0], src: "e(0), [/(e(1), [])]", f: |e| tree!(e(0), [/(e(1), [])]) },
    TreeCase { par: &[0, 0], src: "e(0), [/(e(1), [])],", f: |e| tree!(e(0), [/(e(1), [])],) },
    TreeCase { par: &[0, 0], src: "e(0), [/(e(1), []),]", f: |e| tree!(e(0), [/(e(1), []),]) },
    TreeCase { par: &[0, 0], src: "e(0), [/(e(1), []),],", f: |e| tree!(e(0), [/(e(1), []),],) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [e(1), e(2)]", f: |e| tree!(e(0), [e(1), e(2)]) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [e(1), e(2)],", f: |e| tree!(e(0), [e(1), e(2)],) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [e(1), e(2),]", f: |e| tree!(e(0), [e(1), e(2),]) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [e(1), e(2),],", f: |e| tree!(e(0), [e(1), e(2),],) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [e(1), /(e(2), [])]", f: |e| tree!(e(0), [e(1), /(e(2), [])]) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [e(1), /(e(2), [])],", f: |e| tree!(e(0), [e(1), /(e(2), [])],) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [e(1), /(e(2), []),]", f: |e| tree!(e(0), [e(1), /(e(2), []),]) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [e(1), /(e(2), []),],", f: |e| tree!(e(0), [e(1), /(e(2), []),],) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), e(2)]", f: |e| tree!(e(0), [/(e(1), []), e(2)]) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), e(2)],", f: |e| tree!(e(0), [/(e(1), []), e(2)],) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), e(2),]", f: |e| tree!(e(0), [/(e(1), []), e(2),]) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), e(2),],", f: |e| tree!(e(0), [/(e(1), []), e(2),],) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), [])]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [])]) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), [])],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [])],) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []),]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []),]) },
    TreeCase { par: &[0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []),],) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2)])]", f: |e| tree!(e(0), [/(e(1), [e(2)])]) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2)])],", f: |e| tree!(e(0), [/(e(1), [e(2)])],) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2)]),]", f: |e| tree!(e(0), [/(e(1), [e(2)]),]) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2)]),],", f: |e| tree!(e(0), [/(e(1), [e(2)]),],) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2),])]", f: |e| tree!(e(0), [/(e(1), [e(2),])]) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2),])],", f: |e| tree!(e(0), [/(e(1), [e(2),])],) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2),]),]", f: |e| tree!(e(0), [/(e(1), [e(2),]),]) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [e(2),]),],", f: |e| tree!(e(0), [/(e(1), [e(2),]),],) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), [])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [])])]) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), [])])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [])])],) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), [])]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [])]),]) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), [])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [])]),],) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), []),])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),])]) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), []),])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),])],) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), []),]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]),]) },
    TreeCase { par: &[0, 0, 1], src: "e(0), [/(e(1), [/(e(2), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]),],) },
    TreeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3)]", f: |e| tree!(e(0), [e(1), e(2), e(3)]) },
    TreeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3),],", f: |e| tree!(e(0), [e(1), e(2), e(3),],) },
    TreeCase { par: &[0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3),]", f: |e| tree!(e(0), [e(1), /(e(2), []), e(3),]) },
    TreeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3)],", f: |e| tree!(e(0), [/(e(1), []), e(2), e(3)],) },
    TreeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3)]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), e(3)]) },
    TreeCase { par: &[0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []),],) },
    TreeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3)])]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3)])]) },
    TreeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [e(3)]),],", f: |e| tree!(e(0), [e(1), /(e(2), [e(3)]),],) },
    TreeCase { par: &[0, 0, 0, 2], src: "e(0), [e(1), /(e(2), [/(e(3), [])]),]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [])]),]) },
    TreeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3)])],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [e(3)])],) },
    TreeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])])]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [])])]) },
    TreeCase { par: &[0, 0, 0, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []),]),],) },
    TreeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), e(3)]", f: |e| tree!(e(0), [/(e(1), [e(2)]), e(3)]) },
    TreeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2)]), e(3),],", f: |e| tree!(e(0), [/(e(1), [e(2)]), e(3),],) },
    TreeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [e(2),]), e(3),]", f: |e| tree!(e(0), [/(e(1), [e(2),]), e(3),]) },
    TreeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3)],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [])]), e(3)],) },
    TreeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3)]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), e(3)]) },
    TreeCase { par: &[0, 0, 1, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), []),],) },
    TreeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3)])]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)])]) },
    TreeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), e(3)]),],", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]),],) },
    TreeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), [])]),]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [])]),]) },
    TreeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3)])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), e(3)])],) },
    TreeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [])])]) },
    TreeCase { par: &[0, 0, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]),],) },
    TreeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)])])]) },
    TreeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3)])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)])]),],) },
    TreeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [e(3),])]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3),])]),]) },
    TreeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [])])])],) },
    TreeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),])])]) },
    TreeCase { par: &[0, 0, 1, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]),],) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), e(4)]", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4)]) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), e(4),],", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4),],) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), /(e(3), []), e(4),]", f: |e| tree!(e(0), [e(1), e(2), /(e(3), []), e(4),]) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), e(3), e(4)],", f: |e| tree!(e(0), [e(1), /(e(2), []), e(3), e(4)],) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), e(4)]", f: |e| tree!(e(0), [e(1), /(e(2), []), /(e(3), []), e(4)]) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), []),],", f: |e| tree!(e(0), [e(1), /(e(2), []), /(e(3), []), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), e(3), /(e(4), []),]", f: |e| tree!(e(0), [/(e(1), []), e(2), e(3), /(e(4), []),]) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), [])],", f: |e| tree!(e(0), [/(e(1), []), e(2), /(e(3), []), /(e(4), [])],) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), [])]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), e(3), /(e(4), [])]) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), e(4),],) },
    TreeCase { par: &[0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4)])]", f: |e| tree!(e(0), [e(1), e(2), /(e(3), [e(4)])]) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4)]),],", f: |e| tree!(e(0), [e(1), e(2), /(e(3), [e(4)]),],) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), [])]),]", f: |e| tree!(e(0), [e(1), e(2), /(e(3), [/(e(4), [])]),]) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [e(4)])],", f: |e| tree!(e(0), [e(1), /(e(2), []), /(e(3), [e(4)])],) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])])]", f: |e| tree!(e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), [])])]) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),]),],", f: |e| tree!(e(0), [e(1), /(e(2), []), /(e(3), [/(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [e(4),]),]", f: |e| tree!(e(0), [/(e(1), []), e(2), /(e(3), [e(4),]),]) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),])],", f: |e| tree!(e(0), [/(e(1), []), e(2), /(e(3), [/(e(4), []),])],) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),])]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), [e(4),])]) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [])]),],) },
    TreeCase { par: &[0, 0, 0, 0, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), e(4)]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3)]), e(4)]) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3)]), e(4),],", f: |e| tree!(e(0), [e(1), /(e(2), [e(3)]), e(4),],) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [e(3),]), e(4),]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3),]), e(4),]) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [])]), e(4)],", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [])]), e(4)],) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), e(4)]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), []),]), e(4)]) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), []),],", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), []),]), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), []),]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [e(3)]), /(e(4), []),]) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), [])],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [e(3),]), /(e(4), [])],) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), [])]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [])]), /(e(4), [])]) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), e(4),],) },
    TreeCase { par: &[0, 0, 0, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4)])]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4)])]) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4)]),],", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4)]),],) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), [])]),]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), /(e(4), [])]),]) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), e(4)])],", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), []), e(4)])],) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])])]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), [])])]) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),]),],", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), []), /(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), e(4),]),]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [e(3), e(4),]),]) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),])],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [e(3), /(e(4), []),])],) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),])]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), e(4),])]) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [])]),],) },
    TreeCase { par: &[0, 0, 0, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)])])]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [e(4)])])]) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)])]),],", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [e(4)])]),],) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4),])]),]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [e(4),])]),]) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])])],", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [])])])],) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])])]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),])])]) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),]),],", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [/(e(4), []),]),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),]),]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4)]),]),]) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),])],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [e(4),]),])],) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),])]", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [])]),])]) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),])]),],) },
    TreeCase { par: &[0, 0, 0, 2, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), e(4)]", f: |e| tree!(e(0), [/(e(1), [e(2)]), e(3), e(4)]) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), e(4),],", f: |e| tree!(e(0), [/(e(1), [e(2)]), e(3), e(4),],) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), []), e(4),]", f: |e| tree!(e(0), [/(e(1), [e(2)]), /(e(3), []), e(4),]) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), e(3), e(4)],", f: |e| tree!(e(0), [/(e(1), [e(2),]), e(3), e(4)],) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), e(4)]", f: |e| tree!(e(0), [/(e(1), [e(2),]), /(e(3), []), e(4)]) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), []),],", f: |e| tree!(e(0), [/(e(1), [e(2),]), /(e(3), []), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), []),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [])]), e(3), /(e(4), []),]) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), [])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [])]), /(e(3), []), /(e(4), [])],) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), [])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), e(3), /(e(4), [])]) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), e(4),],) },
    TreeCase { par: &[0, 0, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4)])]", f: |e| tree!(e(0), [/(e(1), [e(2)]), /(e(3), [e(4)])]) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]),],", f: |e| tree!(e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]),],) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])]),]", f: |e| tree!(e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [])]),]) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [e(4)])],", f: |e| tree!(e(0), [/(e(1), [e(2),]), /(e(3), [e(4)])],) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])])]", f: |e| tree!(e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), [])])]) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),]),],", f: |e| tree!(e(0), [/(e(1), [e(2),]), /(e(3), [/(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [])]), /(e(3), [e(4),]),]) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [])]), /(e(3), [/(e(4), []),])],) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), [e(4),])]) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [])]),],) },
    TreeCase { par: &[0, 0, 1, 0, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), e(4)]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), e(4)]) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3)]), e(4),],", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), e(4),],) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3),]), e(4),]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3),]), e(4),]) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [])]), e(4)],", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [])]), e(4)],) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), e(4)]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), []),]), e(4)]) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), []),],", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), []),]), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), []),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), e(3)]), /(e(4), []),]) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), [])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), e(3),]), /(e(4), [])],) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), [])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [])]), /(e(4), [])]) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), e(4),],) },
    TreeCase { par: &[0, 0, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), e(4)]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)])]), e(4)]) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), e(4),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)])]), e(4),],) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)]),]), e(4),]) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),])]), e(4)],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3),])]), e(4)],) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4)]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3),]),]), e(4)]) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3),]),]), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), []),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [])])]), /(e(4), []),]) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), [])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [])]),]), /(e(4), [])],) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), [])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),])]), /(e(4), [])]) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), e(4),],) },
    TreeCase { par: &[0, 0, 1, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []),],) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4)])]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3), e(4)])]) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4)]),],", f: |e| tree!(e(0), [/(e(1), [e(2), e(3), e(4)]),],) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), [])]),]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3), /(e(4), [])]),]) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), e(4)])],", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), []), e(4)])],) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])])]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), [])])]) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),]),],", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), []), /(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), e(4),]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), e(3), e(4),]),]) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), e(3), /(e(4), []),])],) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []), e(4),])]) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [])]),],) },
    TreeCase { par: &[0, 0, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)])])]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [e(4)])])]) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)])]),],", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [e(4)])]),],) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4),])]),]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [e(4),])]),]) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])])],", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [])])])],) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])])]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),])])]) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [/(e(4), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4)]),]),]) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [e(4),]),])],) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [])]),])]) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),])]),],) },
    TreeCase { par: &[0, 0, 1, 1, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4)])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)]), e(4)])]) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]),],) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [])]),]) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), e(4)])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3),]), e(4)])],) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), [])])]) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3),]), /(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [])]), e(4),]),]) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [])]), /(e(4), []),])],) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]), e(4),])]) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [])]),],) },
    TreeCase { par: &[0, 0, 1, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), e(4)])])]) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), e(4)])]),],) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4),])]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), e(4),])]),]) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [])])])],) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),])])]) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), /(e(4), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4)]),]),]) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []), e(4),]),])],) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [])]),])]) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),])]),],) },
    TreeCase { par: &[0, 0, 1, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]),])]),]) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),])])])],) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),]),]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])])]),]),]) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),])],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [])]),]),])],) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),])]),])]) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),])]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0], src: "e(0), [e(1), e(2), e(3), e(4), e(5)]", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 4], src: "e(0), [e(1), e(2), e(3), /(e(4), [e(5)])]", f: |e| tree!(e(0), [e(1), e(2), e(3), /(e(4), [e(5)])]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 4], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), [/(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), [/(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 0, 0, 3, 0], src: "e(0), [e(1), e(2), /(e(3), [e(4)]), e(5)]", f: |e| tree!(e(0), [e(1), e(2), /(e(3), [e(4)]), e(5)]) },
    TreeCase { par: &[0, 0, 0, 0, 3, 0], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []),]), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 3, 3], src: "e(0), [e(1), e(2), /(e(3), [e(4), e(5)])]", f: |e| tree!(e(0), [e(1), e(2), /(e(3), [e(4), e(5)])]) },
    TreeCase { par: &[0, 0, 0, 0, 3, 3], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []), /(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []), /(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 0, 0, 3, 4], src: "e(0), [e(1), e(2), /(e(3), [/(e(4), [e(5)])])]", f: |e| tree!(e(0), [e(1), e(2), /(e(3), [/(e(4), [e(5)])])]) },
    TreeCase { par: &[0, 0, 0, 0, 3, 4], src: "e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [/(e(5), []),]),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), [/(e(5), []),]),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 0, 0], src: "e(0), [e(1), /(e(2), [e(3)]), e(4), e(5)]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3)]), e(4), e(5)]) },
    TreeCase { par: &[0, 0, 0, 2, 0, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), []), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 0, 2, 0, 4], src: "e(0), [e(1), /(e(2), [e(3)]), /(e(4), [e(5)])]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3)]), /(e(4), [e(5)])]) },
    TreeCase { par: &[0, 0, 0, 2, 0, 4], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), [/(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []),]), /(e(4), [/(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0], src: "e(0), [e(1), /(e(2), [e(3), e(4)]), e(5)]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4)]), e(5)]) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 0, 2, 3, 0], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)])]), e(5)]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [e(4)])]), e(5)]) },
    TreeCase { par: &[0, 0, 0, 2, 3, 0], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]),]), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 0, 2, 2, 2], src: "e(0), [e(1), /(e(2), [e(3), e(4), e(5)])]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4), e(5)])]) },
    TreeCase { par: &[0, 0, 0, 2, 2, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []), /(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []), /(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 2, 4], src: "e(0), [e(1), /(e(2), [e(3), /(e(4), [e(5)])])]", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), /(e(4), [e(5)])])]) },
    TreeCase { par: &[0, 0, 0, 2, 2, 4], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [/(e(5), []),]),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), [/(e(5), []),]),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 3, 2], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4)]), e(5)])]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [e(4)]), e(5)])]) },
    TreeCase { par: &[0, 0, 0, 2, 3, 2], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]), /(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []),]), /(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 3, 3], src: "e(0), [e(1), /(e(2), [/(e(3), [e(4), e(5)])])]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [e(4), e(5)])])]) },
    TreeCase { par: &[0, 0, 0, 2, 3, 3], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []), /(e(5), []),]),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []), /(e(5), []),]),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 3, 4], src: "e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [e(5)])])])]", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [/(e(4), [e(5)])])])]) },
    TreeCase { par: &[0, 0, 0, 2, 3, 4], src: "e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [/(e(5), []),]),]),]),],", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), [/(e(5), []),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 0, 0, 0], src: "e(0), [/(e(1), [e(2)]), e(3), e(4), e(5)]", f: |e| tree!(e(0), [/(e(1), [e(2)]), e(3), e(4), e(5)]) },
    TreeCase { par: &[0, 0, 1, 0, 0, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), []), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 1, 0, 0, 4], src: "e(0), [/(e(1), [e(2)]), e(3), /(e(4), [e(5)])]", f: |e| tree!(e(0), [/(e(1), [e(2)]), e(3), /(e(4), [e(5)])]) },
    TreeCase { par: &[0, 0, 1, 0, 0, 4], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), [/(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), []), /(e(4), [/(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 1, 0, 3, 0], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]), e(5)]", f: |e| tree!(e(0), [/(e(1), [e(2)]), /(e(3), [e(4)]), e(5)]) },
    TreeCase { par: &[0, 0, 1, 0, 3, 0], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []),]), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 1, 0, 3, 3], src: "e(0), [/(e(1), [e(2)]), /(e(3), [e(4), e(5)])]", f: |e| tree!(e(0), [/(e(1), [e(2)]), /(e(3), [e(4), e(5)])]) },
    TreeCase { par: &[0, 0, 1, 0, 3, 3], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []), /(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), []), /(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 1, 0, 3, 4], src: "e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [e(5)])])]", f: |e| tree!(e(0), [/(e(1), [e(2)]), /(e(3), [/(e(4), [e(5)])])]) },
    TreeCase { par: &[0, 0, 1, 0, 3, 4], src: "e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [/(e(5), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []),]), /(e(3), [/(e(4), [/(e(5), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0], src: "e(0), [/(e(1), [e(2), e(3)]), e(4), e(5)]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), e(4), e(5)]) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 1, 1, 0, 4], src: "e(0), [/(e(1), [e(2), e(3)]), /(e(4), [e(5)])]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), /(e(4), [e(5)])]) },
    TreeCase { par: &[0, 0, 1, 1, 0, 4], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), [/(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), [/(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 0, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), e(4), e(5)]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)])]), e(4), e(5)]) },
    TreeCase { par: &[0, 0, 1, 2, 0, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), []), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 1, 2, 0, 4], src: "e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), [e(5)])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)])]), /(e(4), [e(5)])]) },
    TreeCase { par: &[0, 0, 1, 2, 0, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), [/(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]),]), /(e(4), [/(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 1, 0], src: "e(0), [/(e(1), [e(2), e(3), e(4)]), e(5)]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3), e(4)]), e(5)]) },
    TreeCase { par: &[0, 0, 1, 1, 1, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []),]), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 1, 1, 3, 0], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)])]), e(5)]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [e(4)])]), e(5)]) },
    TreeCase { par: &[0, 0, 1, 1, 3, 0], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]),]), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 1, 2, 1, 0], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]), e(5)]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)]), e(4)]), e(5)]) },
    TreeCase { par: &[0, 0, 1, 2, 1, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []),]), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 1, 2, 2, 0], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)])]), e(5)]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), e(4)])]), e(5)]) },
    TreeCase { par: &[0, 0, 1, 2, 2, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]),]), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]), e(5)]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])])]), e(5)]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 0], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]), /(e(5), []),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]),]), /(e(5), []),],) },
    TreeCase { par: &[0, 0, 1, 1, 1, 1], src: "e(0), [/(e(1), [e(2), e(3), e(4), e(5)])]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3), e(4), e(5)])]) },
    TreeCase { par: &[0, 0, 1, 1, 1, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 1, 4], src: "e(0), [/(e(1), [e(2), e(3), /(e(4), [e(5)])])]", f: |e| tree!(e(0), [/(e(1), [e(2), e(3), /(e(4), [e(5)])])]) },
    TreeCase { par: &[0, 0, 1, 1, 1, 4], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [/(e(5), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []), /(e(4), [/(e(5), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 3, 1], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4)]), e(5)])]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [e(4)]), e(5)])]) },
    TreeCase { par: &[0, 0, 1, 1, 3, 1], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]), /(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []),]), /(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 3, 3], src: "e(0), [/(e(1), [e(2), /(e(3), [e(4), e(5)])])]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [e(4), e(5)])])]) },
    TreeCase { par: &[0, 0, 1, 1, 3, 3], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []), /(e(5), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), []), /(e(5), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 3, 4], src: "e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [e(5)])])])]", f: |e| tree!(e(0), [/(e(1), [e(2), /(e(3), [/(e(4), [e(5)])])])]) },
    TreeCase { par: &[0, 0, 1, 1, 3, 4], src: "e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [/(e(5), []),]),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), [/(e(4), [/(e(5), []),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 1, 1], src: "e(0), [/(e(1), [/(e(2), [e(3)]), e(4), e(5)])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)]), e(4), e(5)])]) },
    TreeCase { par: &[0, 0, 1, 2, 1, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []), /(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), []), /(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 1, 4], src: "e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [e(5)])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3)]), /(e(4), [e(5)])])]) },
    TreeCase { par: &[0, 0, 1, 2, 1, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [/(e(5), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []),]), /(e(4), [/(e(5), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 2, 1], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4)]), e(5)])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), e(4)]), e(5)])]) },
    TreeCase { par: &[0, 0, 1, 2, 2, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]), e(5)])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)])]), e(5)])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 1], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]), /(e(5), []),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]),]), /(e(5), []),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 2, 2], src: "e(0), [/(e(1), [/(e(2), [e(3), e(4), e(5)])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), e(4), e(5)])])]) },
    TreeCase { par: &[0, 0, 1, 2, 2, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []), /(e(5), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), []), /(e(5), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 2, 4], src: "e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [e(5)])])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [e(3), /(e(4), [e(5)])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 2, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [/(e(5), []),]),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), []), /(e(4), [/(e(5), []),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]), e(5)])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4)]), e(5)])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 2], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]), /(e(5), []),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []),]), /(e(5), []),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [e(4), e(5)])])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [e(4), e(5)])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 3], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []), /(e(5), []),]),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), []), /(e(5), []),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [e(5)])])])])]", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [e(5)])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4], src: "e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), []),]),]),]),]),],", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), []),]),]),]),]),],) },
];

pub struct S {
    pub v: i32,
}
pub fn same<X>(x: X) -> X {
    x
}
pub struct ExprCase {
    pub kind: &'static str,
    pub hole: &'static str,
    pub want: &'static str,
    pub f: fn(i32) -> Option<Node<i32>>,
}
#[allow(unused_variables, unused_parens, unused_unsafe, clippy::all)]
pub const EXPRS: &[ExprCase] = &[
    ExprCase { kind: "literal", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(103); Some(r) } },
    ExprCase { kind: "literal", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(103, [1, 2]); Some(r) } },
    ExprCase { kind: "literal", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [103]); Some(r) } },
    ExprCase { kind: "literal", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [103,]); Some(r) } },
    ExprCase { kind: "literal", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [103, 2]); Some(r) } },
    ExprCase { kind: "literal", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, 103]); Some(r) } },
    ExprCase { kind: "literal", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [103, /(2, [3])]); Some(r) } },
    ExprCase { kind: "literal", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), 103]); Some(r) } },
    ExprCase { kind: "literal", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(103, [2])]); Some(r) } },
    ExprCase { kind: "literal", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(103, [2]), 3]); Some(r) } },
    ExprCase { kind: "literal", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(103, [3, 4])]); Some(r) } },
    ExprCase { kind: "literal", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(103, []), 2]); Some(r) } },
    ExprCase { kind: "literal", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [103])]), 4]); Some(r) } },
    ExprCase { kind: "negated", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(-(-103)); Some(r) } },
    ExprCase { kind: "negated", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(-(-103), [1, 2]); Some(r) } },
    ExprCase { kind: "negated", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [-(-103)]); Some(r) } },
    ExprCase { kind: "negated", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [-(-103),]); Some(r) } },
    ExprCase { kind: "negated", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [-(-103), 2]); Some(r) } },
    ExprCase { kind: "negated", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, -(-103)]); Some(r) } },
    ExprCase { kind: "negated", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [-(-103), /(2, [3])]); Some(r) } },
    ExprCase { kind: "negated", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), -(-103)]); Some(r) } },
    ExprCase { kind: "negated", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(-(-103), [2])]); Some(r) } },
    ExprCase { kind: "negated", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(-(-103), [2]), 3]); Some(r) } },
    ExprCase { kind: "negated", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(-(-103), [3, 4])]); Some(r) } },
    ExprCase { kind: "negated", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(-(-103), []), 2]); Some(r) } },
    ExprCase { kind: "negated", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [-(-103)])]), 4]); Some(r) } },
    ExprCase { kind: "quotient", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(206 / 2); Some(r) } },
    ExprCase { kind: "quotient", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(206 / 2, [1, 2]); Some(r) } },
    ExprCase { kind: "quotient", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [206 / 2]); Some(r) } },
    ExprCase { kind: "quotient", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [206 / 2,]); Some(r) } },
    ExprCase { kind: "quotient", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [206 / 2, 2]); Some(r) } },
    ExprCase { kind: "quotient", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, 206 / 2]); Some(r) } },
    ExprCase { kind: "quotient", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [206 / 2, /(2, [3])]); Some(r) } },
    ExprCase { kind: "quotient", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), 206 / 2]); Some(r) } },
    ExprCase { kind: "quotient", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(206 / 2, [2])]); Some(r) } },
    ExprCase { kind: "quotient", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(206 / 2, [2]), 3]); Some(r) } },
    ExprCase { kind: "quotient", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(206 / 2, [3, 4])]); Some(r) } },
    ExprCase { kind: "quotient", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(206 / 2, []), 2]); Some(r) } },
    ExprCase { kind: "quotient", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [206 / 2])]), 4]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!((1, 103).1); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!((1, 103).1, [1, 2]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(1, 103).1]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(1, 103).1,]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(1, 103).1, 2]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, (1, 103).1]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(1, 103).1, /(2, [3])]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), (1, 103).1]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((1, 103).1, [2])]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((1, 103).1, [2]), 3]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /((1, 103).1, [3, 4])]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((1, 103).1, []), 2]); Some(r) } },
    ExprCase { kind: "field of a tuple", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [(1, 103).1])]), 4]); Some(r) } },
    ExprCase { kind: "block", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!({ let root = 100; let node = 3; root + node }); Some(r) } },
    ExprCase { kind: "block", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!({ let root = 100; let node = 3; root + node }, [1, 2]); Some(r) } },
    ExprCase { kind: "block", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [{ let root = 100; let node = 3; root + node }]); Some(r) } },
    ExprCase { kind: "block", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [{ let root = 100; let node = 3; root + node },]); Some(r) } },
    ExprCase { kind: "block", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [{ let root = 100; let node = 3; root + node }, 2]); Some(r) } },
    ExprCase { kind: "block", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, { let root = 100; let node = 3; root + node }]); Some(r) } },
    ExprCase { kind: "block", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [{ let root = 100; let node = 3; root + node }, /(2, [3])]); Some(r) } },
    ExprCase { kind: "block", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), { let root = 100; let node = 3; root + node }]); Some(r) } },
    ExprCase { kind: "block", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/({ let root = 100; let node = 3; root + node }, [2])]); Some(r) } },
    ExprCase { kind: "block", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/({ let root = 100; let node = 3; root + node }, [2]), 3]); Some(r) } },
    ExprCase { kind: "block", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /({ let root = 100; let node = 3; root + node }, [3, 4])]); Some(r) } },
    ExprCase { kind: "block", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/({ let root = 100; let node = 3; root + node }, []), 2]); Some(r) } },
    ExprCase { kind: "block", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [{ let root = 100; let node = 3; root + node }])]), 4]); Some(r) } },
    ExprCase { kind: "if", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(if one == 1 { 103 } else { 4 }); Some(r) } },
    ExprCase { kind: "if", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(if one == 1 { 103 } else { 4 }, [1, 2]); Some(r) } },
    ExprCase { kind: "if", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [if one == 1 { 103 } else { 4 }]); Some(r) } },
    ExprCase { kind: "if", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [if one == 1 { 103 } else { 4 },]); Some(r) } },
    ExprCase { kind: "if", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [if one == 1 { 103 } else { 4 }, 2]); Some(r) } },
    ExprCase { kind: "if", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, if one == 1 { 103 } else { 4 }]); Some(r) } },
    ExprCase { kind: "if", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [if one == 1 { 103 } else { 4 }, /(2, [3])]); Some(r) } },
    ExprCase { kind: "if", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), if one == 1 { 103 } else { 4 }]); Some(r) } },
    ExprCase { kind: "if", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(if one == 1 { 103 } else { 4 }, [2])]); Some(r) } },
    ExprCase { kind: "if", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(if one == 1 { 103 } else { 4 }, [2]), 3]); Some(r) } },
    ExprCase { kind: "if", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(if one == 1 { 103 } else { 4 }, [3, 4])]); Some(r) } },
    ExprCase { kind: "if", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(if one == 1 { 103 } else { 4 }, []), 2]); Some(r) } },
    ExprCase { kind: "if", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [if one == 1 { 103 } else { 4 }])]), 4]); Some(r) } },
    ExprCase { kind: "match", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(match one { 1 => 103, _ => 0 }); Some(r) } },
    ExprCase { kind: "match", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(match one { 1 => 103, _ => 0 }, [1, 2]); Some(r) } },
    ExprCase { kind: "match", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [match one { 1 => 103, _ => 0 }]); Some(r) } },
    ExprCase { kind: "match", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [match one { 1 => 103, _ => 0 },]); Some(r) } },
    ExprCase { kind: "match", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [match one { 1 => 103, _ => 0 }, 2]); Some(r) } },
    ExprCase { kind: "match", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, match one { 1 => 103, _ => 0 }]); Some(r) } },
    ExprCase { kind: "match", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [match one { 1 => 103, _ => 0 }, /(2, [3])]); Some(r) } },
    ExprCase { kind: "match", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), match one { 1 => 103, _ => 0 }]); Some(r) } },
    ExprCase { kind: "match", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(match one { 1 => 103, _ => 0 }, [2])]); Some(r) } },
    ExprCase { kind: "match", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(match one { 1 => 103, _ => 0 }, [2]), 3]); Some(r) } },
    ExprCase { kind: "match", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(match one { 1 => 103, _ => 0 }, [3, 4])]); Some(r) } },
    ExprCase { kind: "match", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(match one { 1 => 103, _ => 0 }, []), 2]); Some(r) } },
    ExprCase { kind: "match", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [match one { 1 => 103, _ => 0 }])]), 4]); Some(r) } },
    ExprCase { kind: "index", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!([1, 2, 103][2]); Some(r) } },
    ExprCase { kind: "index", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!([1, 2, 103][2], [1, 2]); Some(r) } },
    ExprCase { kind: "index", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [[1, 2, 103][2]]); Some(r) } },
    ExprCase { kind: "index", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [[1, 2, 103][2],]); Some(r) } },
    ExprCase { kind: "index", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [[1, 2, 103][2], 2]); Some(r) } },
    ExprCase { kind: "index", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, [1, 2, 103][2]]); Some(r) } },
    ExprCase { kind: "index", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [[1, 2, 103][2], /(2, [3])]); Some(r) } },
    ExprCase { kind: "index", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), [1, 2, 103][2]]); Some(r) } },
    ExprCase { kind: "index", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/([1, 2, 103][2], [2])]); Some(r) } },
    ExprCase { kind: "index", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/([1, 2, 103][2], [2]), 3]); Some(r) } },
    ExprCase { kind: "index", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /([1, 2, 103][2], [3, 4])]); Some(r) } },
    ExprCase { kind: "index", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/([1, 2, 103][2], []), 2]); Some(r) } },
    ExprCase { kind: "index", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [[1, 2, 103][2]])]), 4]); Some(r) } },
    ExprCase { kind: "struct", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(S { v: 103 }.v); Some(r) } },
    ExprCase { kind: "struct", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(S { v: 103 }.v, [1, 2]); Some(r) } },
    ExprCase { kind: "struct", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [S { v: 103 }.v]); Some(r) } },
    ExprCase { kind: "struct", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [S { v: 103 }.v,]); Some(r) } },
    ExprCase { kind: "struct", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [S { v: 103 }.v, 2]); Some(r) } },
    ExprCase { kind: "struct", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, S { v: 103 }.v]); Some(r) } },
    ExprCase { kind: "struct", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [S { v: 103 }.v, /(2, [3])]); Some(r) } },
    ExprCase { kind: "struct", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), S { v: 103 }.v]); Some(r) } },
    ExprCase { kind: "struct", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(S { v: 103 }.v, [2])]); Some(r) } },
    ExprCase { kind: "struct", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(S { v: 103 }.v, [2]), 3]); Some(r) } },
    ExprCase { kind: "struct", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(S { v: 103 }.v, [3, 4])]); Some(r) } },
    ExprCase { kind: "struct", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(S { v: 103 }.v, []), 2]); Some(r) } },
    ExprCase { kind: "struct", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [S { v: 103 }.v])]), 4]); Some(r) } },
    ExprCase { kind: "generic call", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(same::<i32>(103)); Some(r) } },
    ExprCase { kind: "generic call", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(same::<i32>(103), [1, 2]); Some(r) } },
    ExprCase { kind: "generic call", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [same::<i32>(103)]); Some(r) } },
    ExprCase { kind: "generic call", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [same::<i32>(103),]); Some(r) } },
    ExprCase { kind: "generic call", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [same::<i32>(103), 2]); Some(r) } },
    ExprCase { kind: "generic call", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, same::<i32>(103)]); Some(r) } },
    ExprCase { kind: "generic call", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [same::<i32>(103), /(2, [3])]); Some(r) } },
    ExprCase { kind: "generic call", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), same::<i32>(103)]); Some(r) } },
    ExprCase { kind: "generic call", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(same::<i32>(103), [2])]); Some(r) } },
    ExprCase { kind: "generic call", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(same::<i32>(103), [2]), 3]); Some(r) } },
    ExprCase { kind: "generic call", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(same::<i32>(103), [3, 4])]); Some(r) } },
    ExprCase { kind: "generic call", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(same::<i32>(103), []), 2]); Some(r) } },
    ExprCase { kind: "generic call", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [same::<i32>(103)])]), 4]); Some(r) } },
    ExprCase { kind: "loop", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(loop { break 103 }); Some(r) } },
    ExprCase { kind: "loop", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(loop { break 103 }, [1, 2]); Some(r) } },
    ExprCase { kind: "loop", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [loop { break 103 }]); Some(r) } },
    ExprCase { kind: "loop", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [loop { break 103 },]); Some(r) } },
    ExprCase { kind: "loop", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [loop { break 103 }, 2]); Some(r) } },
    ExprCase { kind: "loop", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, loop { break 103 }]); Some(r) } },
    ExprCase { kind: "loop", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [loop { break 103 }, /(2, [3])]); Some(r) } },
    ExprCase { kind: "loop", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), loop { break 103 }]); Some(r) } },
    ExprCase { kind: "loop", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(loop { break 103 }, [2])]); Some(r) } },
    ExprCase { kind: "loop", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(loop { break 103 }, [2]), 3]); Some(r) } },
    ExprCase { kind: "loop", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(loop { break 103 }, [3, 4])]); Some(r) } },
    ExprCase { kind: "loop", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(loop { break 103 }, []), 2]); Some(r) } },
    ExprCase { kind: "loop", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [loop { break 103 }])]), 4]); Some(r) } },
    ExprCase { kind: "closure call", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!((|x: i32| x + 3)(100)); Some(r) } },
    ExprCase { kind: "closure call", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!((|x: i32| x + 3)(100), [1, 2]); Some(r) } },
    ExprCase { kind: "closure call", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(|x: i32| x + 3)(100)]); Some(r) } },
    ExprCase { kind: "closure call", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(|x: i32| x + 3)(100),]); Some(r) } },
    ExprCase { kind: "closure call", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(|x: i32| x + 3)(100), 2]); Some(r) } },
    ExprCase { kind: "closure call", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, (|x: i32| x + 3)(100)]); Some(r) } },
    ExprCase { kind: "closure call", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(|x: i32| x + 3)(100), /(2, [3])]); Some(r) } },
    ExprCase { kind: "closure call", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), (|x: i32| x + 3)(100)]); Some(r) } },
    ExprCase { kind: "closure call", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((|x: i32| x + 3)(100), [2])]); Some(r) } },
    ExprCase { kind: "closure call", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((|x: i32| x + 3)(100), [2]), 3]); Some(r) } },
    ExprCase { kind: "closure call", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /((|x: i32| x + 3)(100), [3, 4])]); Some(r) } },
    ExprCase { kind: "closure call", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((|x: i32| x + 3)(100), []), 2]); Some(r) } },
    ExprCase { kind: "closure call", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [(|x: i32| x + 3)(100)])]), 4]); Some(r) } },
    ExprCase { kind: "cast", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(103u8 as i32); Some(r) } },
    ExprCase { kind: "cast", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(103u8 as i32, [1, 2]); Some(r) } },
    ExprCase { kind: "cast", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [103u8 as i32]); Some(r) } },
    ExprCase { kind: "cast", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [103u8 as i32,]); Some(r) } },
    ExprCase { kind: "cast", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [103u8 as i32, 2]); Some(r) } },
    ExprCase { kind: "cast", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, 103u8 as i32]); Some(r) } },
    ExprCase { kind: "cast", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [103u8 as i32, /(2, [3])]); Some(r) } },
    ExprCase { kind: "cast", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), 103u8 as i32]); Some(r) } },
    ExprCase { kind: "cast", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(103u8 as i32, [2])]); Some(r) } },
    ExprCase { kind: "cast", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(103u8 as i32, [2]), 3]); Some(r) } },
    ExprCase { kind: "cast", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(103u8 as i32, [3, 4])]); Some(r) } },
    ExprCase { kind: "cast", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(103u8 as i32, []), 2]); Some(r) } },
    ExprCase { kind: "cast", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [103u8 as i32])]), 4]); Some(r) } },
    ExprCase { kind: "reference", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(*&103); Some(r) } },
    ExprCase { kind: "reference", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(*&103, [1, 2]); Some(r) } },
    ExprCase { kind: "reference", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [*&103]); Some(r) } },
    ExprCase { kind: "reference", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [*&103,]); Some(r) } },
    ExprCase { kind: "reference", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [*&103, 2]); Some(r) } },
    ExprCase { kind: "reference", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, *&103]); Some(r) } },
    ExprCase { kind: "reference", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [*&103, /(2, [3])]); Some(r) } },
    ExprCase { kind: "reference", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), *&103]); Some(r) } },
    ExprCase { kind: "reference", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(*&103, [2])]); Some(r) } },
    ExprCase { kind: "reference", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(*&103, [2]), 3]); Some(r) } },
    ExprCase { kind: "reference", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(*&103, [3, 4])]); Some(r) } },
    ExprCase { kind: "reference", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(*&103, []), 2]); Some(r) } },
    ExprCase { kind: "reference", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [*&103])]), 4]); Some(r) } },
    ExprCase { kind: "macro", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(vec![1, 103, 2][1]); Some(r) } },
    ExprCase { kind: "macro", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(vec![1, 103, 2][1], [1, 2]); Some(r) } },
    ExprCase { kind: "macro", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [vec![1, 103, 2][1]]); Some(r) } },
    ExprCase { kind: "macro", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [vec![1, 103, 2][1],]); Some(r) } },
    ExprCase { kind: "macro", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [vec![1, 103, 2][1], 2]); Some(r) } },
    ExprCase { kind: "macro", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, vec![1, 103, 2][1]]); Some(r) } },
    ExprCase { kind: "macro", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [vec![1, 103, 2][1], /(2, [3])]); Some(r) } },
    ExprCase { kind: "macro", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), vec![1, 103, 2][1]]); Some(r) } },
    ExprCase { kind: "macro", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(vec![1, 103, 2][1], [2])]); Some(r) } },
    ExprCase { kind: "macro", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(vec![1, 103, 2][1], [2]), 3]); Some(r) } },
    ExprCase { kind: "macro", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(vec![1, 103, 2][1], [3, 4])]); Some(r) } },
    ExprCase { kind: "macro", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(vec![1, 103, 2][1], []), 2]); Some(r) } },
    ExprCase { kind: "macro", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [vec![1, 103, 2][1]])]), 4]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(tree_node!(103, [4, /(5, [6])]).borrow_data().clone()); Some(r) } },
    ExprCase { kind: "nested tree", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(tree_node!(103, [4, /(5, [6])]).borrow_data().clone(), [1, 2]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [tree_node!(103, [4, /(5, [6])]).borrow_data().clone()]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [tree_node!(103, [4, /(5, [6])]).borrow_data().clone(),]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [tree_node!(103, [4, /(5, [6])]).borrow_data().clone(), 2]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, tree_node!(103, [4, /(5, [6])]).borrow_data().clone()]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [tree_node!(103, [4, /(5, [6])]).borrow_data().clone(), /(2, [3])]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), tree_node!(103, [4, /(5, [6])]).borrow_data().clone()]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(tree_node!(103, [4, /(5, [6])]).borrow_data().clone(), [2])]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(tree_node!(103, [4, /(5, [6])]).borrow_data().clone(), [2]), 3]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(tree_node!(103, [4, /(5, [6])]).borrow_data().clone(), [3, 4])]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(tree_node!(103, [4, /(5, [6])]).borrow_data().clone(), []), 2]); Some(r) } },
    ExprCase { kind: "nested tree", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [tree_node!(103, [4, /(5, [6])]).borrow_data().clone()])]), 4]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data()); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data(), [1, 2]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data()]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data(),]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data(), 2]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, *tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data()]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data(), /(2, [3])]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), *tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data()]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data(), [2])]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data(), [2]), 3]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data(), [3, 4])]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data(), []), 2]); Some(r) } },
    ExprCase { kind: "nested tree of the tree", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data()])]), 4]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(root); Some(r) } },
    ExprCase { kind: "variable named root", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(root, [1, 2]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [root]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [root,]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [root, 2]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, root]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [root, /(2, [3])]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), root]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(root, [2])]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(root, [2]), 3]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(root, [3, 4])]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(root, []), 2]); Some(r) } },
    ExprCase { kind: "variable named root", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [root])]), 4]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(node); Some(r) } },
    ExprCase { kind: "variable named node", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(node, [1, 2]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [node]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [node,]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [node, 2]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, node]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [node, /(2, [3])]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), node]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(node, [2])]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(node, [2]), 3]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(node, [3, 4])]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(node, []), 2]); Some(r) } },
    ExprCase { kind: "variable named node", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [node])]), 4]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(parent); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(parent, [1, 2]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [parent]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [parent,]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [parent, 2]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, parent]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [parent, /(2, [3])]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), parent]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(parent, [2])]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(parent, [2]), 3]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(parent, [3, 4])]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(parent, []), 2]); Some(r) } },
    ExprCase { kind: "variable named parent", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [parent])]), 4]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(data); Some(r) } },
    ExprCase { kind: "variable named data", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(data, [1, 2]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [data]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [data,]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [data, 2]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, data]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [data, /(2, [3])]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), data]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(data, [2])]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(data, [2]), 3]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(data, [3, 4])]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(data, []), 2]); Some(r) } },
    ExprCase { kind: "variable named data", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [data])]), 4]); Some(r) } },
    ExprCase { kind: "method chain", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(Some(102).map(|x| x + 1).unwrap_or(0)); Some(r) } },
    ExprCase { kind: "method chain", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(Some(102).map(|x| x + 1).unwrap_or(0), [1, 2]); Some(r) } },
    ExprCase { kind: "method chain", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [Some(102).map(|x| x + 1).unwrap_or(0)]); Some(r) } },
    ExprCase { kind: "method chain", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [Some(102).map(|x| x + 1).unwrap_or(0),]); Some(r) } },
    ExprCase { kind: "method chain", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [Some(102).map(|x| x + 1).unwrap_or(0), 2]); Some(r) } },
    ExprCase { kind: "method chain", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, Some(102).map(|x| x + 1).unwrap_or(0)]); Some(r) } },
    ExprCase { kind: "method chain", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [Some(102).map(|x| x + 1).unwrap_or(0), /(2, [3])]); Some(r) } },
    ExprCase { kind: "method chain", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), Some(102).map(|x| x + 1).unwrap_or(0)]); Some(r) } },
    ExprCase { kind: "method chain", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(Some(102).map(|x| x + 1).unwrap_or(0), [2])]); Some(r) } },
    ExprCase { kind: "method chain", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(Some(102).map(|x| x + 1).unwrap_or(0), [2]), 3]); Some(r) } },
    ExprCase { kind: "method chain", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(Some(102).map(|x| x + 1).unwrap_or(0), [3, 4])]); Some(r) } },
    ExprCase { kind: "method chain", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(Some(102).map(|x| x + 1).unwrap_or(0), []), 2]); Some(r) } },
    ExprCase { kind: "method chain", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [Some(102).map(|x| x + 1).unwrap_or(0)])]), 4]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(if (1 < 2) as i32 == 1 { 103 } else { 0 }); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(if (1 < 2) as i32 == 1 { 103 } else { 0 }, [1, 2]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [if (1 < 2) as i32 == 1 { 103 } else { 0 }]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [if (1 < 2) as i32 == 1 { 103 } else { 0 },]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [if (1 < 2) as i32 == 1 { 103 } else { 0 }, 2]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, if (1 < 2) as i32 == 1 { 103 } else { 0 }]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [if (1 < 2) as i32 == 1 { 103 } else { 0 }, /(2, [3])]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), if (1 < 2) as i32 == 1 { 103 } else { 0 }]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(if (1 < 2) as i32 == 1 { 103 } else { 0 }, [2])]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(if (1 < 2) as i32 == 1 { 103 } else { 0 }, [2]), 3]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(if (1 < 2) as i32 == 1 { 103 } else { 0 }, [3, 4])]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(if (1 < 2) as i32 == 1 { 103 } else { 0 }, []), 2]); Some(r) } },
    ExprCase { kind: "comparison chain", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [if (1 < 2) as i32 == 1 { 103 } else { 0 }])]), 4]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!((103)); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!((103), [1, 2]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(103)]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(103),]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(103), 2]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, (103)]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(103), /(2, [3])]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), (103)]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((103), [2])]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((103), [2]), 3]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /((103), [3, 4])]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((103), []), 2]); Some(r) } },
    ExprCase { kind: "parenthesised", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [(103)])]), 4]); Some(r) } },
    ExprCase { kind: "shift", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!((103 << 1) >> 1); Some(r) } },
    ExprCase { kind: "shift", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!((103 << 1) >> 1, [1, 2]); Some(r) } },
    ExprCase { kind: "shift", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(103 << 1) >> 1]); Some(r) } },
    ExprCase { kind: "shift", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(103 << 1) >> 1,]); Some(r) } },
    ExprCase { kind: "shift", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(103 << 1) >> 1, 2]); Some(r) } },
    ExprCase { kind: "shift", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, (103 << 1) >> 1]); Some(r) } },
    ExprCase { kind: "shift", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [(103 << 1) >> 1, /(2, [3])]); Some(r) } },
    ExprCase { kind: "shift", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), (103 << 1) >> 1]); Some(r) } },
    ExprCase { kind: "shift", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((103 << 1) >> 1, [2])]); Some(r) } },
    ExprCase { kind: "shift", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((103 << 1) >> 1, [2]), 3]); Some(r) } },
    ExprCase { kind: "shift", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /((103 << 1) >> 1, [3, 4])]); Some(r) } },
    ExprCase { kind: "shift", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/((103 << 1) >> 1, []), 2]); Some(r) } },
    ExprCase { kind: "shift", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [(103 << 1) >> 1])]), 4]); Some(r) } },
    ExprCase { kind: "question mark", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(Some(103)?); Some(r) } },
    ExprCase { kind: "question mark", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(Some(103)?, [1, 2]); Some(r) } },
    ExprCase { kind: "question mark", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [Some(103)?]); Some(r) } },
    ExprCase { kind: "question mark", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [Some(103)?,]); Some(r) } },
    ExprCase { kind: "question mark", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [Some(103)?, 2]); Some(r) } },
    ExprCase { kind: "question mark", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, Some(103)?]); Some(r) } },
    ExprCase { kind: "question mark", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [Some(103)?, /(2, [3])]); Some(r) } },
    ExprCase { kind: "question mark", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), Some(103)?]); Some(r) } },
    ExprCase { kind: "question mark", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(Some(103)?, [2])]); Some(r) } },
    ExprCase { kind: "question mark", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(Some(103)?, [2]), 3]); Some(r) } },
    ExprCase { kind: "question mark", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(Some(103)?, [3, 4])]); Some(r) } },
    ExprCase { kind: "question mark", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(Some(103)?, []), 2]); Some(r) } },
    ExprCase { kind: "question mark", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [Some(103)?])]), 4]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "single root", want: "103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(unsafe { std::hint::black_box(103) }); Some(r) } },
    ExprCase { kind: "unsafe", hole: "root", want: "103 1 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(unsafe { std::hint::black_box(103) }, [1, 2]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "only leaf", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [unsafe { std::hint::black_box(103) }]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "only leaf with a comma", want: "0 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [unsafe { std::hint::black_box(103) },]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "first leaf", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [unsafe { std::hint::black_box(103) }, 2]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "last leaf", want: "0 1 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, unsafe { std::hint::black_box(103) }]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "leaf before an inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [unsafe { std::hint::black_box(103) }, /(2, [3])]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "leaf after an inner node", want: "0 1 2 103", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [2]), unsafe { std::hint::black_box(103) }]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "only inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(unsafe { std::hint::black_box(103) }, [2])]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "first inner node", want: "0 103 2 3", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(unsafe { std::hint::black_box(103) }, [2]), 3]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "last inner node", want: "0 1 103 3 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [1, /(unsafe { std::hint::black_box(103) }, [3, 4])]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "childless inner node", want: "0 103 2", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(unsafe { std::hint::black_box(103) }, []), 2]); Some(r) } },
    ExprCase { kind: "unsafe", hole: "deep leaf", want: "0 1 2 103 4", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(0, [/(1, [/(2, [unsafe { std::hint::black_box(103) }])]), 4]); Some(r) } },
];

pub const LARGE: &[TreeCase] = &[
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0], src: "star of 7 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 8 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 9 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 15 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 16 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 17 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 31 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 32 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 33 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32), e(33)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 40 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32), e(33), e(34), e(35), e(36), e(37), e(38), e(39), e(40)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 56 leaves", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32), e(33), e(34), e(35), e(36), e(37), e(38), e(39), e(40), e(41), e(42), e(43), e(44), e(45), e(46), e(47), e(48), e(49), e(50), e(51), e(52), e(53), e(54), e(55), e(56)]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6], src: "chain of 8 nodes", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [e(7)])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7], src: "chain of 8 nodes with 3 leaves", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [e(8), e(9), e(10)])])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14], src: "chain of 16 nodes", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [e(15)])])])])])])])])])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 15], src: "chain of 16 nodes with 3 leaves", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [e(16), e(17), e(18)])])])])])])])])])])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22], src: "chain of 24 nodes", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [e(23)])])])])])])])])])])])])])])])])])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 23, 23], src: "chain of 24 nodes with 3 leaves", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [e(24), e(25), e(26)])])])])])])])])])])])])])])])])])])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30], src: "chain of 32 nodes", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [/(e(24), [/(e(25), [/(e(26), [/(e(27), [/(e(28), [/(e(29), [/(e(30), [e(31)])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 31, 31], src: "chain of 32 nodes with 3 leaves", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [/(e(24), [/(e(25), [/(e(26), [/(e(27), [/(e(28), [/(e(29), [/(e(30), [/(e(31), [e(32), e(33), e(34)])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38], src: "chain of 40 nodes", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [/(e(24), [/(e(25), [/(e(26), [/(e(27), [/(e(28), [/(e(29), [/(e(30), [/(e(31), [/(e(32), [/(e(33), [/(e(34), [/(e(35), [/(e(36), [/(e(37), [/(e(38), [e(39)])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 39, 39], src: "chain of 40 nodes with 3 leaves", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [/(e(24), [/(e(25), [/(e(26), [/(e(27), [/(e(28), [/(e(29), [/(e(30), [/(e(31), [/(e(32), [/(e(33), [/(e(34), [/(e(35), [/(e(36), [/(e(37), [/(e(38), [/(e(39), [e(40), e(41), e(42)])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])])]) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0], src: "8 children, every other one with 2 leaves, from 0", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), e(4), /(e(5), [e(6), e(7)]), e(8), /(e(9), [e(10), e(11)]), e(12), /(e(13), [e(14), e(15)]), e(16)]) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14], src: "8 children, every other one with 2 leaves, from 1", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4)]), e(5), /(e(6), [e(7), e(8)]), e(9), /(e(10), [e(11), e(12)]), e(13), /(e(14), [e(15), e(16)])]) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0, 0, 17, 17], src: "9 children, every other one with 2 leaves, from 0", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), e(4), /(e(5), [e(6), e(7)]), e(8), /(e(9), [e(10), e(11)]), e(12), /(e(13), [e(14), e(15)]), e(16), /(e(17), [e(18), e(19)])]) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14, 0], src: "9 children, every other one with 2 leaves, from 1", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4)]), e(5), /(e(6), [e(7), e(8)]), e(9), /(e(10), [e(11), e(12)]), e(13), /(e(14), [e(15), e(16)]), e(17)]) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0, 0, 17, 17, 0, 0, 21, 21, 0, 0, 25, 25, 0, 0, 29, 29, 0], src: "16 children, every other one with 2 leaves, from 0", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), e(4), /(e(5), [e(6), e(7)]), e(8), /(e(9), [e(10), e(11)]), e(12), /(e(13), [e(14), e(15)]), e(16), /(e(17), [e(18), e(19)]), e(20), /(e(21), [e(22), e(23)]), e(24), /(e(25), [e(26), e(27)]), e(28), /(e(29), [e(30), e(31)]), e(32)]) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14, 0, 0, 18, 18, 0, 0, 22, 22, 0, 0, 26, 26, 0, 0, 30, 30], src: "16 children, every other one with 2 leaves, from 1", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4)]), e(5), /(e(6), [e(7), e(8)]), e(9), /(e(10), [e(11), e(12)]), e(13), /(e(14), [e(15), e(16)]), e(17), /(e(18), [e(19), e(20)]), e(21), /(e(22), [e(23), e(24)]), e(25), /(e(26), [e(27), e(28)]), e(29), /(e(30), [e(31), e(32)])]) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0, 0, 17, 17, 0, 0, 21, 21, 0, 0, 25, 25, 0, 0, 29, 29, 0, 0, 33, 33], src: "17 children, every other one with 2 leaves, from 0", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), e(4), /(e(5), [e(6), e(7)]), e(8), /(e(9), [e(10), e(11)]), e(12), /(e(13), [e(14), e(15)]), e(16), /(e(17), [e(18), e(19)]), e(20), /(e(21), [e(22), e(23)]), e(24), /(e(25), [e(26), e(27)]), e(28), /(e(29), [e(30), e(31)]), e(32), /(e(33), [e(34), e(35)])]) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14, 0, 0, 18, 18, 0, 0, 22, 22, 0, 0, 26, 26, 0, 0, 30, 30, 0], src: "17 children, every other one with 2 leaves, from 1", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4)]), e(5), /(e(6), [e(7), e(8)]), e(9), /(e(10), [e(11), e(12)]), e(13), /(e(14), [e(15), e(16)]), e(17), /(e(18), [e(19), e(20)]), e(21), /(e(22), [e(23), e(24)]), e(25), /(e(26), [e(27), e(28)]), e(29), /(e(30), [e(31), e(32)]), e(33)]) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0, 0, 17, 17, 0, 0, 21, 21, 0, 0, 25, 25, 0, 0, 29, 29, 0, 0, 33, 33, 0, 0, 37, 37, 0, 0, 41, 41, 0, 0, 45, 45, 0], src: "24 children, every other one with 2 leaves, from 0", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), e(4), /(e(5), [e(6), e(7)]), e(8), /(e(9), [e(10), e(11)]), e(12), /(e(13), [e(14), e(15)]), e(16), /(e(17), [e(18), e(19)]), e(20), /(e(21), [e(22), e(23)]), e(24), /(e(25), [e(26), e(27)]), e(28), /(e(29), [e(30), e(31)]), e(32), /(e(33), [e(34), e(35)]), e(36), /(e(37), [e(38), e(39)]), e(40), /(e(41), [e(42), e(43)]), e(44), /(e(45), [e(46), e(47)]), e(48)]) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14, 0, 0, 18, 18, 0, 0, 22, 22, 0, 0, 26, 26, 0, 0, 30, 30, 0, 0, 34, 34, 0, 0, 38, 38, 0, 0, 42, 42, 0, 0, 46, 46], src: "24 children, every other one with 2 leaves, from 1", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4)]), e(5), /(e(6), [e(7), e(8)]), e(9), /(e(10), [e(11), e(12)]), e(13), /(e(14), [e(15), e(16)]), e(17), /(e(18), [e(19), e(20)]), e(21), /(e(22), [e(23), e(24)]), e(25), /(e(26), [e(27), e(28)]), e(29), /(e(30), [e(31), e(32)]), e(33), /(e(34), [e(35), e(36)]), e(37), /(e(38), [e(39), e(40)]), e(41), /(e(42), [e(43), e(44)]), e(45), /(e(46), [e(47), e(48)])]) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 0", f: |e| tree!(e(0), [/(e(1), [e(2), e(3)]), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12)]) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 1", f: |e| tree!(e(0), [e(1), /(e(2), [e(3), e(4)]), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12)]) },
    TreeCase { par: &[0, 0, 0, 0, 3, 3, 0, 0, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 2", f: |e| tree!(e(0), [e(1), e(2), /(e(3), [e(4), e(5)]), e(6), e(7), e(8), e(9), e(10), e(11), e(12)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 4, 4, 0, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 3", f: |e| tree!(e(0), [e(1), e(2), e(3), /(e(4), [e(5), e(6)]), e(7), e(8), e(9), e(10), e(11), e(12)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 5, 5, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 4", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), /(e(5), [e(6), e(7)]), e(8), e(9), e(10), e(11), e(12)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 6, 6, 0, 0, 0, 0], src: "9 leaves around an inner node at 5", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), /(e(6), [e(7), e(8)]), e(9), e(10), e(11), e(12)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 7, 7, 0, 0, 0], src: "9 leaves around an inner node at 6", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), /(e(7), [e(8), e(9)]), e(10), e(11), e(12)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 8, 0, 0], src: "9 leaves around an inner node at 7", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), /(e(8), [e(9), e(10)]), e(11), e(12)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 0], src: "9 leaves around an inner node at 8", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), /(e(9), [e(10), e(11)]), e(12)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 10], src: "9 leaves around an inner node at 9", f: |e| tree!(e(0), [e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), /(e(10), [e(11), e(12)])]) },
    TreeCase { par: &[0, 0, 0, 2, 3, 3, 5, 6, 6, 8, 9, 9, 11, 12, 12, 14, 15, 15, 17, 18, 18, 20, 21, 21, 23, 23, 21, 20, 18, 17, 15, 14, 12, 11, 9, 8, 6, 5, 3, 2, 0], src: "comb of 16 levels", f: |e| tree!(e(0), [e(1), /(e(2), [/(e(3), [e(4), /(e(5), [/(e(6), [e(7), /(e(8), [/(e(9), [e(10), /(e(11), [/(e(12), [e(13), /(e(14), [/(e(15), [e(16), /(e(17), [/(e(18), [e(19), /(e(20), [/(e(21), [e(22), /(e(23), [e(24), e(25)]), e(26)]), e(27)]), e(28)]), e(29)]), e(30)]), e(31)]), e(32)]), e(33)]), e(34)]), e(35)]), e(36)]), e(37)]), e(38)]), e(39)]), e(40)]) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0], src: "star of 7 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 8 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 9 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 15 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []), /(e(13), []), /(e(14), []), /(e(15), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 16 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []), /(e(13), []), /(e(14), []), /(e(15), []), /(e(16), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 17 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []), /(e(13), []), /(e(14), []), /(e(15), []), /(e(16), []), /(e(17), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 31 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []), /(e(13), []), /(e(14), []), /(e(15), []), /(e(16), []), /(e(17), []), /(e(18), []), /(e(19), []), /(e(20), []), /(e(21), []), /(e(22), []), /(e(23), []), /(e(24), []), /(e(25), []), /(e(26), []), /(e(27), []), /(e(28), []), /(e(29), []), /(e(30), []), /(e(31), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 32 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []), /(e(13), []), /(e(14), []), /(e(15), []), /(e(16), []), /(e(17), []), /(e(18), []), /(e(19), []), /(e(20), []), /(e(21), []), /(e(22), []), /(e(23), []), /(e(24), []), /(e(25), []), /(e(26), []), /(e(27), []), /(e(28), []), /(e(29), []), /(e(30), []), /(e(31), []), /(e(32), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 33 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []), /(e(13), []), /(e(14), []), /(e(15), []), /(e(16), []), /(e(17), []), /(e(18), []), /(e(19), []), /(e(20), []), /(e(21), []), /(e(22), []), /(e(23), []), /(e(24), []), /(e(25), []), /(e(26), []), /(e(27), []), /(e(28), []), /(e(29), []), /(e(30), []), /(e(31), []), /(e(32), []), /(e(33), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 40 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []), /(e(13), []), /(e(14), []), /(e(15), []), /(e(16), []), /(e(17), []), /(e(18), []), /(e(19), []), /(e(20), []), /(e(21), []), /(e(22), []), /(e(23), []), /(e(24), []), /(e(25), []), /(e(26), []), /(e(27), []), /(e(28), []), /(e(29), []), /(e(30), []), /(e(31), []), /(e(32), []), /(e(33), []), /(e(34), []), /(e(35), []), /(e(36), []), /(e(37), []), /(e(38), []), /(e(39), []), /(e(40), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "star of 56 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []), /(e(13), []), /(e(14), []), /(e(15), []), /(e(16), []), /(e(17), []), /(e(18), []), /(e(19), []), /(e(20), []), /(e(21), []), /(e(22), []), /(e(23), []), /(e(24), []), /(e(25), []), /(e(26), []), /(e(27), []), /(e(28), []), /(e(29), []), /(e(30), []), /(e(31), []), /(e(32), []), /(e(33), []), /(e(34), []), /(e(35), []), /(e(36), []), /(e(37), []), /(e(38), []), /(e(39), []), /(e(40), []), /(e(41), []), /(e(42), []), /(e(43), []), /(e(44), []), /(e(45), []), /(e(46), []), /(e(47), []), /(e(48), []), /(e(49), []), /(e(50), []), /(e(51), []), /(e(52), []), /(e(53), []), /(e(54), []), /(e(55), []), /(e(56), []),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6], src: "chain of 8 nodes (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), []),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7], src: "chain of 8 nodes with 3 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), []), /(e(9), []), /(e(10), []),]),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14], src: "chain of 16 nodes (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), []),]),]),]),]),]),]),]),]),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 15], src: "chain of 16 nodes with 3 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), []), /(e(17), []), /(e(18), []),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22], src: "chain of 24 nodes (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), []),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 23, 23], src: "chain of 24 nodes with 3 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [/(e(24), []), /(e(25), []), /(e(26), []),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30], src: "chain of 32 nodes (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [/(e(24), [/(e(25), [/(e(26), [/(e(27), [/(e(28), [/(e(29), [/(e(30), [/(e(31), []),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 31, 31], src: "chain of 32 nodes with 3 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [/(e(24), [/(e(25), [/(e(26), [/(e(27), [/(e(28), [/(e(29), [/(e(30), [/(e(31), [/(e(32), []), /(e(33), []), /(e(34), []),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38], src: "chain of 40 nodes (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [/(e(24), [/(e(25), [/(e(26), [/(e(27), [/(e(28), [/(e(29), [/(e(30), [/(e(31), [/(e(32), [/(e(33), [/(e(34), [/(e(35), [/(e(36), [/(e(37), [/(e(38), [/(e(39), []),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 39, 39], src: "chain of 40 nodes with 3 leaves (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), [/(e(3), [/(e(4), [/(e(5), [/(e(6), [/(e(7), [/(e(8), [/(e(9), [/(e(10), [/(e(11), [/(e(12), [/(e(13), [/(e(14), [/(e(15), [/(e(16), [/(e(17), [/(e(18), [/(e(19), [/(e(20), [/(e(21), [/(e(22), [/(e(23), [/(e(24), [/(e(25), [/(e(26), [/(e(27), [/(e(28), [/(e(29), [/(e(30), [/(e(31), [/(e(32), [/(e(33), [/(e(34), [/(e(35), [/(e(36), [/(e(37), [/(e(38), [/(e(39), [/(e(40), []), /(e(41), []), /(e(42), []),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0], src: "8 children, every other one with 2 leaves, from 0 (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), [/(e(6), []), /(e(7), []),]), /(e(8), []), /(e(9), [/(e(10), []), /(e(11), []),]), /(e(12), []), /(e(13), [/(e(14), []), /(e(15), []),]), /(e(16), []),],) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14], src: "8 children, every other one with 2 leaves, from 1 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []), /(e(6), [/(e(7), []), /(e(8), []),]), /(e(9), []), /(e(10), [/(e(11), []), /(e(12), []),]), /(e(13), []), /(e(14), [/(e(15), []), /(e(16), []),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0, 0, 17, 17], src: "9 children, every other one with 2 leaves, from 0 (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), [/(e(6), []), /(e(7), []),]), /(e(8), []), /(e(9), [/(e(10), []), /(e(11), []),]), /(e(12), []), /(e(13), [/(e(14), []), /(e(15), []),]), /(e(16), []), /(e(17), [/(e(18), []), /(e(19), []),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14, 0], src: "9 children, every other one with 2 leaves, from 1 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []), /(e(6), [/(e(7), []), /(e(8), []),]), /(e(9), []), /(e(10), [/(e(11), []), /(e(12), []),]), /(e(13), []), /(e(14), [/(e(15), []), /(e(16), []),]), /(e(17), []),],) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0, 0, 17, 17, 0, 0, 21, 21, 0, 0, 25, 25, 0, 0, 29, 29, 0], src: "16 children, every other one with 2 leaves, from 0 (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), [/(e(6), []), /(e(7), []),]), /(e(8), []), /(e(9), [/(e(10), []), /(e(11), []),]), /(e(12), []), /(e(13), [/(e(14), []), /(e(15), []),]), /(e(16), []), /(e(17), [/(e(18), []), /(e(19), []),]), /(e(20), []), /(e(21), [/(e(22), []), /(e(23), []),]), /(e(24), []), /(e(25), [/(e(26), []), /(e(27), []),]), /(e(28), []), /(e(29), [/(e(30), []), /(e(31), []),]), /(e(32), []),],) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14, 0, 0, 18, 18, 0, 0, 22, 22, 0, 0, 26, 26, 0, 0, 30, 30], src: "16 children, every other one with 2 leaves, from 1 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []), /(e(6), [/(e(7), []), /(e(8), []),]), /(e(9), []), /(e(10), [/(e(11), []), /(e(12), []),]), /(e(13), []), /(e(14), [/(e(15), []), /(e(16), []),]), /(e(17), []), /(e(18), [/(e(19), []), /(e(20), []),]), /(e(21), []), /(e(22), [/(e(23), []), /(e(24), []),]), /(e(25), []), /(e(26), [/(e(27), []), /(e(28), []),]), /(e(29), []), /(e(30), [/(e(31), []), /(e(32), []),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0, 0, 17, 17, 0, 0, 21, 21, 0, 0, 25, 25, 0, 0, 29, 29, 0, 0, 33, 33], src: "17 children, every other one with 2 leaves, from 0 (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), [/(e(6), []), /(e(7), []),]), /(e(8), []), /(e(9), [/(e(10), []), /(e(11), []),]), /(e(12), []), /(e(13), [/(e(14), []), /(e(15), []),]), /(e(16), []), /(e(17), [/(e(18), []), /(e(19), []),]), /(e(20), []), /(e(21), [/(e(22), []), /(e(23), []),]), /(e(24), []), /(e(25), [/(e(26), []), /(e(27), []),]), /(e(28), []), /(e(29), [/(e(30), []), /(e(31), []),]), /(e(32), []), /(e(33), [/(e(34), []), /(e(35), []),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14, 0, 0, 18, 18, 0, 0, 22, 22, 0, 0, 26, 26, 0, 0, 30, 30, 0], src: "17 children, every other one with 2 leaves, from 1 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []), /(e(6), [/(e(7), []), /(e(8), []),]), /(e(9), []), /(e(10), [/(e(11), []), /(e(12), []),]), /(e(13), []), /(e(14), [/(e(15), []), /(e(16), []),]), /(e(17), []), /(e(18), [/(e(19), []), /(e(20), []),]), /(e(21), []), /(e(22), [/(e(23), []), /(e(24), []),]), /(e(25), []), /(e(26), [/(e(27), []), /(e(28), []),]), /(e(29), []), /(e(30), [/(e(31), []), /(e(32), []),]), /(e(33), []),],) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 5, 5, 0, 0, 9, 9, 0, 0, 13, 13, 0, 0, 17, 17, 0, 0, 21, 21, 0, 0, 25, 25, 0, 0, 29, 29, 0, 0, 33, 33, 0, 0, 37, 37, 0, 0, 41, 41, 0, 0, 45, 45, 0], src: "24 children, every other one with 2 leaves, from 0 (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), [/(e(6), []), /(e(7), []),]), /(e(8), []), /(e(9), [/(e(10), []), /(e(11), []),]), /(e(12), []), /(e(13), [/(e(14), []), /(e(15), []),]), /(e(16), []), /(e(17), [/(e(18), []), /(e(19), []),]), /(e(20), []), /(e(21), [/(e(22), []), /(e(23), []),]), /(e(24), []), /(e(25), [/(e(26), []), /(e(27), []),]), /(e(28), []), /(e(29), [/(e(30), []), /(e(31), []),]), /(e(32), []), /(e(33), [/(e(34), []), /(e(35), []),]), /(e(36), []), /(e(37), [/(e(38), []), /(e(39), []),]), /(e(40), []), /(e(41), [/(e(42), []), /(e(43), []),]), /(e(44), []), /(e(45), [/(e(46), []), /(e(47), []),]), /(e(48), []),],) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 6, 6, 0, 0, 10, 10, 0, 0, 14, 14, 0, 0, 18, 18, 0, 0, 22, 22, 0, 0, 26, 26, 0, 0, 30, 30, 0, 0, 34, 34, 0, 0, 38, 38, 0, 0, 42, 42, 0, 0, 46, 46], src: "24 children, every other one with 2 leaves, from 1 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []), /(e(6), [/(e(7), []), /(e(8), []),]), /(e(9), []), /(e(10), [/(e(11), []), /(e(12), []),]), /(e(13), []), /(e(14), [/(e(15), []), /(e(16), []),]), /(e(17), []), /(e(18), [/(e(19), []), /(e(20), []),]), /(e(21), []), /(e(22), [/(e(23), []), /(e(24), []),]), /(e(25), []), /(e(26), [/(e(27), []), /(e(28), []),]), /(e(29), []), /(e(30), [/(e(31), []), /(e(32), []),]), /(e(33), []), /(e(34), [/(e(35), []), /(e(36), []),]), /(e(37), []), /(e(38), [/(e(39), []), /(e(40), []),]), /(e(41), []), /(e(42), [/(e(43), []), /(e(44), []),]), /(e(45), []), /(e(46), [/(e(47), []), /(e(48), []),]),],) },
    TreeCase { par: &[0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 0 (fullest)", f: |e| tree!(e(0), [/(e(1), [/(e(2), []), /(e(3), []),]), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []),],) },
    TreeCase { par: &[0, 0, 0, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 1 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), []), /(e(4), []),]), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 3, 3, 0, 0, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 2 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), [/(e(4), []), /(e(5), []),]), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 4, 4, 0, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 3 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), [/(e(5), []), /(e(6), []),]), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 5, 5, 0, 0, 0, 0, 0], src: "9 leaves around an inner node at 4 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), [/(e(6), []), /(e(7), []),]), /(e(8), []), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 6, 6, 0, 0, 0, 0], src: "9 leaves around an inner node at 5 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), [/(e(7), []), /(e(8), []),]), /(e(9), []), /(e(10), []), /(e(11), []), /(e(12), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 7, 7, 0, 0, 0], src: "9 leaves around an inner node at 6 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), [/(e(8), []), /(e(9), []),]), /(e(10), []), /(e(11), []), /(e(12), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 8, 0, 0], src: "9 leaves around an inner node at 7 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), [/(e(9), []), /(e(10), []),]), /(e(11), []), /(e(12), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9, 0], src: "9 leaves around an inner node at 8 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), [/(e(10), []), /(e(11), []),]), /(e(12), []),],) },
    TreeCase { par: &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 10, 10], src: "9 leaves around an inner node at 9 (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), []), /(e(3), []), /(e(4), []), /(e(5), []), /(e(6), []), /(e(7), []), /(e(8), []), /(e(9), []), /(e(10), [/(e(11), []), /(e(12), []),]),],) },
    TreeCase { par: &[0, 0, 0, 2, 3, 3, 5, 6, 6, 8, 9, 9, 11, 12, 12, 14, 15, 15, 17, 18, 18, 20, 21, 21, 23, 23, 21, 20, 18, 17, 15, 14, 12, 11, 9, 8, 6, 5, 3, 2, 0], src: "comb of 16 levels (fullest)", f: |e| tree!(e(0), [/(e(1), []), /(e(2), [/(e(3), [/(e(4), []), /(e(5), [/(e(6), [/(e(7), []), /(e(8), [/(e(9), [/(e(10), []), /(e(11), [/(e(12), [/(e(13), []), /(e(14), [/(e(15), [/(e(16), []), /(e(17), [/(e(18), [/(e(19), []), /(e(20), [/(e(21), [/(e(22), []), /(e(23), [/(e(24), []), /(e(25), []),]), /(e(26), []),]), /(e(27), []),]), /(e(28), []),]), /(e(29), []),]), /(e(30), []),]), /(e(31), []),]), /(e(32), []),]), /(e(33), []),]), /(e(34), []),]), /(e(35), []),]), /(e(36), []),]), /(e(37), []),]), /(e(38), []),]), /(e(39), []),]), /(e(40), []),],) },
];
