"""Contracts for src/attributes.rs, src/attribute.rs, src/name.rs and the attribute part of src/node.rs."""
from vc import Contract as C, Loop


def contracts():
    out = []
    A = 'self_: Seq<Attribute>'
    S = [('shared', 'Some(self_)')]
    out.append(C('QName::as_ref', 'self_: QName', ret='QName', pure='self_', footprint=[]))
    out.append(C('QName::has_id', 'self_: QName, id: int', ret='bool', pure='self_ == QName::Id(id)', footprint=[]))
    out.append(C('QNameRef::has_id', 'self_: QName, id: int', ret='bool', pure='self_ == QName::Id(id)', footprint=[]))
    out.append(C('Attributes::new', '', ret='Seq<Attribute>', pure='Seq::<Attribute>::empty()', footprint=[]))
    out.append(C('Attributes::len', A, ret='int', pure='self_.len() as int', footprint=[]))
    out.append(C('Attributes::is_empty', A, ret='bool', pure='self_.len() == 0', footprint=[]))
    out.append(C('Attributes::contains', A + ', name: QName', ret='bool', pure='has_name(self_, name)', footprint=[], entry=['lemma_at_name(self_, name);']))
    for f, fn in (('get', 'lookup_attr'), ('get_value', 'lookup')):
        out.append(C('Attributes::' + f, A + ', name: QName', ret='Option<%s>' % ('Attribute' if f == 'get' else 'AttributeValue'), pure='%s(self_, name)' % fn, footprint=[],
                     entry=['lemma_at_name(self_, name);']))
    out.append(C('Attributes::insert', 'self_: mut Seq<Attribute>, attr: Attribute', ensures=['new_self_ == put(self_, attr)'], footprint=[],
                 entry=['lemma_at_name(self_, attr.name);']))
    out.append(C('Attributes::remove', 'self_: mut Seq<Attribute>, name: QName', ensures=['new_self_ == without(self_, name)'], footprint=[],
                 entry=['lemma_at_name(self_, name);']))
    out.append(C('Attributes::clear', 'self_: mut Seq<Attribute>', ensures=['new_self_.len() == 0'], footprint=[]))

    out.append(C('AttributeValue::is_link_container', 'self_: AttributeValue', ret='bool', pure='target(self_) is Some', footprint=[]))
    out.append(C('Attribute::is_link_container', 'self_: Attribute', ret='bool', pure='target(self_.value) is Some', footprint=[]))
    # ---- src/node.rs
    out.append(C('Node::has_attribute', 'self_: int, name: QName', ret='bool', pure='has_name(h0.attributes[self_], name)', footprint=S))
    out.append(C('Node::is_used', 'self_: int', ret='bool', pure='h0.linked_nodes[self_].len() > 0', footprint=S))
    out.append(C('Node::uses_count', 'self_: int', ret='int', pure='h0.linked_nodes[self_].len() as int', footprint=S))
    ALL = 'all_mut'

    def FP(nm, *more):
        return [('mut', 'Some(self_)'), ('mut', 'old_target(h0, self_, %s)' % nm)] + [('mut', m) for m in more]
    val = 'lookup(h0.attributes[self_], name)'
    out.append(C('Node::remove_attribute', 'self_: int, name: QName', heap=True, requires=['lk(h0)'], footprint=FP('name'),
                 ensures=['unset(h0, h, self_, name)', 'lk(h)'],
                 entry=['lemma_at_name(h0.attributes[self_], name);', 'assert(lk_node(h0, self_));', 'lemma_lk_target(h0, self_, name);'],
                 exit=['lemma_occ_all();', 'lemma_unset(h0, h, self_, name);']))
    out.append(C('Node::set_simple_attribute', 'self_: int, attr: Attribute', heap=True, requires=['lk(h0)', 'target(attr.value) is None'], footprint=FP('attr.name'),
                 ensures=['set_to(h0, h, self_, attr)', 'lk(h)'], entry=['assert(lk_node(h0, self_));', 'lemma_without(h0.attributes[self_], attr.name);'],
                 exit=['lemma_set_to(h0, h, self_, attr);']))
    link = ['no_id(h0, node) ==> ret == Err::<(), Error>(Error::ElementMustHaveAnId) && h == h0',
            '!no_id(h0, node) && crosslink(h0, self_, node) ==> ret == Err::<(), Error>(Error::ElementCrosslink) && h == h0',
            '!no_id(h0, node) && !crosslink(h0, self_, node) ==> ret is Ok && set_to(h0, h, self_, Attribute { name: name, value: link_value(name, node, fallback) })',
            'lk(h)']
    out.append(C('Node::set_link_attribute', 'self_: int, name: QName, node: int, fallback: Option<PaintFallback>', ret='Result<(), Error>', heap=True, requires=['lk(h0)'],
                 footprint=FP('name', 'Some(node)'), ensures=link, entry=['assert(lk_node(h0, self_));', 'lemma_without(h0.attributes[self_], name);', 'lemma_occ_exists(h0.linked_nodes[self_], node);'],
                 exit=['if ret is Ok { lemma_occ_all(); lemma_set_to(h0, h, self_, Attribute { name: name, value: link_value(name, node, fallback) }); }']))
    chk = ['attr_refused(h0, self_, attr) ==> h == h0 && ret == Err::<(), Error>(if no_id(h0, target(attr.value)->0) { Error::ElementMustHaveAnId } else { Error::ElementCrosslink })',
           '!attr_refused(h0, self_, attr) ==> ret is Ok && set_to(h0, h, self_, stored(attr))', 'lk(h)']
    for k in ('set_attribute_checked_impl', 'set_attribute_checked'):
        out.append(C('Node::' + k, 'self_: int, attr: Attribute', ret='Result<(), Error>', heap=True, requires=['lk(h0)', 'h0.node_type[self_] == NT_Element'], footprint=FP('attr.name', 'target(attr.value)'), ensures=chk))
    out.append(C('Node::set_attribute', 'self_: int, attr: Attribute', heap=True, requires=['lk(h0)', 'h0.node_type[self_] == NT_Element', '!attr_refused(h0, self_, attr)'], footprint=FP('attr.name', 'target(attr.value)'),
                 ensures=['set_to(h0, h, self_, stored(attr))', 'lk(h)']))
    out.append(C('Node::set_attribute_if_none', 'self_: int, attr: Attribute', heap=True, requires=['lk(h0)', 'h0.node_type[self_] == NT_Element', '!attr_refused(h0, self_, attr)'], footprint=FP('attr.name', 'target(attr.value)'),
                 ensures=['has_name(h0.attributes[self_], attr.name) ==> h == h0', '!has_name(h0.attributes[self_], attr.name) ==> set_to(h0, h, self_, stored(attr))', 'lk(h)']))
    return {c.key: c for c in out}
