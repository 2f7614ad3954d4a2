"""Contracts for the accessors of src/node.rs, src/name.rs and src/attribute.rs."""
from vc import Contract as C


def contracts():
    out = []
    S = [('shared', 'Some(self_)')]
    M = [('mut', 'Some(self_)')]
    N = 'self_: int'
    out.append(C('Node::node_type', N, ret='int', pure='h0.node_type[self_]', footprint=S))
    for f, v in (('root', 'Root'), ('element', 'Element'), ('comment', 'Comment'), ('text', 'Text')):
        out.append(C('Node::is_' + f, N, ret='bool', pure='h0.node_type[self_] == NT_' + v, footprint=S))
    out.append(C('Node::is_detached', N, ret='bool', pure='h0.storage_key[self_] is None', footprint=S))
    out.append(C('Node::has_parent', N, ret='bool', pure='h0.parent[self_] is Some && h0.node_type[h0.parent[self_]->0] != NT_Root', footprint=S + [('shared', 'h0.parent[self_]')]))
    out.append(C('Node::has_id', N, ret='bool', pure='h0.id[self_].len() > 0', footprint=S))
    out.append(C('Node::tag_id', N, ret='Option<int>', pure='match h0.tag_name[self_] { QName::Id(i) => Some(i), _ => None }', footprint=S))
    out.append(C('Node::is_svg_element', N, ret='bool', pure='h0.node_type[self_] == NT_Element && h0.tag_name[self_] is Id', footprint=S))
    out.append(C('Node::has_tag_name', N + ', tag_name: QName', ret='bool', pure='h0.tag_name[self_] == tag_name', footprint=S))
    out.append(C('Node::set_id', N + ', id: Seq<char>', heap=True, requires=['h0.node_type[self_] == NT_Element'], footprint=M,
                 ensures=['h == (Heap { id: h0.id.insert(self_, id), ..h0 })']))
    out.append(C('Node::set_text', N + ', text: Seq<char>', heap=True, requires=['h0.node_type[self_] != NT_Element'], footprint=M,
                 ensures=['h == (Heap { text: h0.text.insert(self_, text), ..h0 })']))
    out.append(C('Node::set_tag_name', N + ', tag_name: QName', heap=True, requires=['h0.node_type[self_] == NT_Element', 'tag_ok(tag_name)'], footprint=M,
                 ensures=['h == (Heap { tag_name: h0.tag_name.insert(self_, tag_name), ..h0 })']))
    # ---- src/name.rs, src/attribute.rs
    out.append(C('QName::eq', 'self_: QName, other: QName', ret='bool', pure='self_ == other', footprint=[]))
    out.append(C('QNameRef::eq', 'self_: QName, other: QName', ret='bool', pure='self_ == other', footprint=[]))
    out.append(C('QName::clone', 'self_: QName', ret='QName', pure='self_', footprint=[]))
    out.append(C('QName::from', 'value: QName', ret='QName', pure='value', footprint=[]))
    out.append(C('QNameRef::from#0', 'value: int', ret='QName', pure='QName::Id(value)', footprint=[]))
    out.append(C('QNameRef::from#1', 'value: Seq<char>', ret='QName', pure='QName::Name(value)', footprint=[]))
    out.append(C('Attribute::new', 'name: QName, value: AttributeValue', ret='Attribute', pure='attr_of(name, value)', footprint=[]))
    out.append(C('Attribute::from#0', 'v: (QName, AttributeValue)', ret='Attribute', pure='attr_of(v.0, v.1)', footprint=[]))
    out.append(C('Attribute::from#1', 'v: (QName, int)', ret='Attribute', pure='attr_of(v.0, link_value(v.0, v.1, None))', footprint=[]))
    out.append(C('Attribute::from#2', 'v: (QName, (int, Option<PaintFallback>))', ret='Attribute', pure='attr_of(v.0, AttributeValue::Paint(v.1.0, v.1.1))', footprint=[]))
    out.append(C('Attribute::id', 'self_: Attribute', ret='Option<int>', pure='match self_.name { QName::Id(i) => Some(i), _ => None }', footprint=[]))
    out.append(C('Attribute::has_id', 'self_: Attribute, id: int', ret='bool', pure='self_.name == QName::Id(id)', footprint=[]))
    out.append(C('Attribute::is_svg', 'self_: Attribute', ret='bool', pure='self_.name is Id', footprint=[]))
    out.append(C('Attribute::clone', 'self_: Attribute', ret='Attribute', pure='self_', footprint=[]))
    return {c.key: c for c in out}
