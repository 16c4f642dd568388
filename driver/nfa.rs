// Automata of an interaction.
use crate::nfa_translation::alphabet::get_alphabet_from_gen_ctx;
use crate::nfa_translation::get_nfa_from_logger::get_nfa_from_interaction_exploration;
use crate::nfa_translation::compositional::get_nfa_from_interaction_via_composition;
use autour_core::nfa::nfa::AutNFA;
use autour_core::traits::transform::AutTransformable;
use autour_core::traits::translate::AutTranslatable;

fn nfa_j(n: &AutNFA<usize>) -> J {
    let set = |x: &HashSet<usize>| { let mut v: Vec<usize> = x.iter().cloned().collect(); v.sort(); J::A(v.into_iter().map(|y| J::I(y as i64 + 1)).collect()) };
    let tr = n.transitions.iter().map(|m| {
        let mut es: Vec<(usize, usize)> = m.iter().flat_map(|(l, ts)| ts.iter().map(move |t| (*l, *t))).collect();
        es.sort();
        J::A(es.into_iter().map(|(l, t)| J::A(vec![J::I(l as i64 + 1), J::I(t as i64 + 1)])).collect())
    }).collect();
    o(vec![("init", set(&n.initials)), ("fin", set(&n.finals)), ("tr", J::A(tr)), ("alpha", set(&n.alphabet))])
}
// {"op":"nfa","t":T,"lf":..,"ms":..,"compo":bool,"kw":N} : the automata, with the letters they are over;
// the state-minimal nfa is computed only below N states
pub fn op_nfa(q: &J) -> J {
    let c = ctx_of(q);
    let t = term_of(q.get("t"));
    let (op, printer, _) = get_nfa_from_interaction_exploration(&c, &t, get_alphabet_from_gen_ctx(&c));
    let letters = printer.index_to_action_map.clone();
    let kw = q.get("kw").us();
    let dfa = op.to_dfa();
    let min = dfa.clone().minimize();
    let mut out = vec![("letters", J::A(letters.iter().map(|x| acts_j(x)).collect())), ("op", nfa_j(&op)), ("dfa", nfa_j(&dfa.to_nfa())), ("min", nfa_j(&min.to_nfa()))];
    if op.transitions.len() < kw { out.push(("kw", nfa_j(&op.clone().minimize()))); }
    if q.get("compo").boolean() {
        let (co, _) = get_nfa_from_interaction_via_composition(&c, &t, letters);
        out.push(("co", nfa_j(&co)));
        out.push(("comin", nfa_j(&co.to_dfa().minimize().to_nfa())));
        if co.transitions.len() < kw { out.push(("cokw", nfa_j(&co.minimize()))); }
    }
    o(out)
}
