// Metrics of an interaction.
use crate::core::language::syntax::metrics::InteractionMetrics;
// {"op":"metrics","t":T} : [[name, number], ..]
pub fn op_metrics(q: &J) -> J {
    let m = InteractionMetrics::extract_from_interaction(&term_of(q.get("t")));
    let mut v: Vec<J> = m.symbols.iter().map(|(k, n)| { let x: &'static str = (*k).into(); J::A(vec![s(x), J::I(*n as i64)]) }).collect();
    v.push(J::A(vec![s("symbols"), J::I(m.get_num_symbols() as i64)]));
    v.push(J::A(vec![s("depth"), J::I(m.depth as i64)]));
    v.push(J::A(vec![s("loop depth"), J::I(m.max_nested_loop_depth as i64)]));
    v.push(J::A(vec![s("lifelines"), J::I(m.lifelines.len() as i64)]));
    J::A(v)
}
