// Step-level behaviour of the interpreter: transition systems, pruning, lifeline removal.
use crate::core::execution::semantics::frontier::global_frontier;
use crate::core::execution::semantics::execute::execute_interaction;
use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;

// {"op":"lts","t":T,"aff":bool,"delayed":bool,"max":N} : nodes reached breadth first, at most N expanded
pub fn op_lts(q: &J) -> J {
    let aff = q.get("aff").boolean();
    let delayed = q.get("delayed").boolean();
    let max = q.get("max").us();
    let depth = q.get("depth").int_or(1000) as usize;
    let mut nodes: Vec<(Interaction, usize)> = vec![(term_of(q.get("t")), 0)];
    let mut known: HashMap<Interaction, usize> = HashMap::new();
    known.insert(nodes[0].0.clone(), 0);
    let mut out = vec![];
    let mut i = 0;
    while i < nodes.len() {
        let (t, d) = nodes[i].clone();
        let mut edges = vec![];
        let expanded = i < max && d < depth;
        if expanded {
            for fe in global_frontier(&t, delayed) {
                let r = execute_interaction(&t, &fe.position, &fe.target_lf_ids, aff);
                let id = match known.get(&r.interaction) {
                    Some(x) => *x,
                    None => { let k = nodes.len(); known.insert(r.interaction.clone(), k); nodes.push((r.interaction.clone(), d + 1)); k }
                };
                edges.push(J::A(vec![acts_j(&fe.target_actions), J::I(id as i64 + 1), J::I(fe.max_loop_depth as i64), ids_j(&fe.target_lf_ids), ids_j(&r.affected_lifelines)]));
            }
        }
        out.push(o(vec![("e", J::B(t.express_empty())), ("x", J::B(expanded)), ("s", J::A(edges))]));
        i += 1;
    }
    let terms = if q.get("terms").boolean() { J::A(nodes.iter().map(|n| term_j(&n.0)).collect()) } else { J::N };
    o(vec![("nodes", J::A(out)), ("terms", terms)])
}
// {"op":"elim","t":T,"lfs":[..]}
pub fn op_elim(q: &J) -> J {
    o(vec![("t", term_j(&term_of(q.get("t")).eliminate_lifelines(&set_of(q.get("lfs")))))])
}
