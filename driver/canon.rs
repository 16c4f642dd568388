// Canonization: offered rewritings, whole process, term order.
use crate::process::canon::handling::handler::CanonizationProcessHandler;
use crate::process::canon::node::CanonizationNodeKind;
use crate::process::canon::context::CanonizationContext;
use crate::process::canon::step::CanonizationStepKind;
use crate::process::canon::param::phase::CanonizationParameterization;
use crate::process::canon::param::default::DefaultCanonizationProcess;
use crate::nfa_translation::canonize::canonize_interaction;
use graph_process_manager_core::handler::handler::AbstractProcessHandler;

fn proc_of(x: &str) -> DefaultCanonizationProcess {
    match x { "five" => DefaultCanonizationProcess::FivePhases, "basic" => DefaultCanonizationProcess::Basic,
        "toseq" => DefaultCanonizationProcess::BasicWithToSeq, _ => DefaultCanonizationProcess::BasicWithUnfoldActions }
}
// {"op":"canon","t":T,"proc":P,"all":bool,"max":N,"lf":..,"ms":..} : the search graph of the canonization process
pub fn op_canon(q: &J) -> J {
    let ctx = CanonizationContext::new(ctx_of(q));
    let param = CanonizationParameterization::from_default(proc_of(q.get("proc").str()), q.get("all").boolean());
    let max = q.get("max").us();
    let mut nodes: Vec<CanonizationNodeKind> = vec![CanonizationNodeKind::new(term_of(q.get("t")), 0)];
    let mut out = vec![];
    let mut i = 0;
    while i < nodes.len() && i < max {
        let n = nodes[i].clone();
        let mut edges = vec![];
        for st in CanonizationProcessHandler::collect_next_steps(&ctx, &param, &n) {
            let (kind, m) = match st {
                CanonizationStepKind::GoToNextPhase => ("".to_string(), CanonizationNodeKind::new(n.interaction.clone(), n.phase + 1)),
                CanonizationStepKind::Transform(r) => (r.kind.to_string(), CanonizationNodeKind::new(r.result.clone(), n.phase)),
            };
            let id = match nodes.iter().position(|x| *x == m) { Some(k) => k, None => { nodes.push(m); nodes.len() - 1 } };
            edges.push(J::A(vec![s(&kind), J::I(id as i64)]));
        }
        out.push(o(vec![("p", J::I(n.phase as i64)), ("t", term_j(&n.interaction)), ("s", J::A(edges))]));
        i += 1;
    }
    let rest = nodes[i..].iter().map(|n| o(vec![("p", J::I(n.phase as i64)), ("t", term_j(&n.interaction))])).collect();
    o(vec![("nodes", J::A(out)), ("open", J::A(rest))])
}
fn branches<'a>(i: &'a Interaction, alt: bool, out: &mut Vec<&'a Interaction>) {
    match i {
        Interaction::Alt(a, b) if alt => { branches(a, alt, out); branches(b, alt, out); }
        Interaction::Par(a, b) if !alt => { branches(a, alt, out); branches(b, alt, out); }
        x => out.push(x),
    }
}
fn ord_i(x: Option<std::cmp::Ordering>) -> i64 {
    match x { Some(std::cmp::Ordering::Less) => -1, Some(std::cmp::Ordering::Equal) => 0, Some(_) => 1, None => 9 }
}
fn adjacents(i: &Interaction, out: &mut Vec<J>) {
    let mut bs = vec![];
    match i {
        Interaction::Alt(_, _) => branches(i, true, &mut bs),
        Interaction::Par(_, _) => branches(i, false, &mut bs),
        Interaction::Seq(a, b) | Interaction::Strict(a, b) | Interaction::CoReg(_, a, b) | Interaction::Sync(_, a, b) => { adjacents(a, out); adjacents(b, out); }
        Interaction::Loop(_, a) => adjacents(a, out),
        _ => {}
    }
    // the standard library sorts with the partial order; both are reported
    for w in bs.windows(2) { out.push(J::A(vec![J::I(ord_i(w[0].partial_cmp(w[1]))), J::I(ord_i(Some(w[0].cmp(w[1]))))])); }
    for x in bs { adjacents(x, out); }
}
// {"op":"canonize","t":T,"proc":P} : result of the whole process, and how neighbouring branches compare in it
pub fn op_canonize(q: &J) -> J {
    let r = canonize_interaction(&ctx_of(q), &term_of(q.get("t")), proc_of(q.get("proc").str()));
    let mut adj = vec![];
    adjacents(&r, &mut adj);
    o(vec![("t", term_j(&r)), ("adj", J::A(adj))])
}
// {"op":"cmp","ts":[T..]} : comparison matrices (order, partial order used by sort), -1/0/1, and equality
pub fn op_cmp(q: &J) -> J {
    let ts: Vec<Interaction> = q.get("ts").arr().iter().map(term_of).collect();
    let mat = |f: &dyn Fn(&Interaction, &Interaction) -> J| J::A(ts.iter().map(|a| J::A(ts.iter().map(|b| f(a, b)).collect())).collect());
    o(vec![("m", mat(&|a, b| J::I(ord_i(Some(a.cmp(b)))))), ("pm", mat(&|a, b| J::I(ord_i(a.partial_cmp(b))))), ("eq", mat(&|a, b| J::B(a == b)))])
}
