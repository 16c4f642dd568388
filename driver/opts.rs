// The options a command gets from a configuration file.
use crate::io::input::hcf::ana::interface::parse_hcf_file_for_ana;
use crate::io::input::hcf::explo::interface::parse_hcf_file_for_explore;
use crate::io::input::hcf::canon::interface::parse_hcf_file_for_canonize;
use crate::process::ana::param::anakind::{AnalysisKind, SimulationLoopCriterion, SimulationActionCriterion};
use crate::process::ana::param::param::LocalAnalysisLifelineSelectionPolicy;
use crate::process::ana::filter::filter::AnalysisFilterCriterion;
use crate::process::explo::filter::filter::ExplorationFilterCriterion;
use crate::process::ana::verdict::global::AnalysisGlobalVerdict;

// which measure a filter looks at and up to which value it lets pass (nodes: which value it no longer lets pass)
fn filter_j(cut: &dyn Fn(u32, u32, u32) -> bool) -> J {
    let m = u32::MAX;
    let (what, by): (&str, Box<dyn Fn(u32) -> bool>) =
        if cut(m, 0, 0) && !cut(0, m, m) { ("depth", Box::new(|x| cut(x, 0, 0))) }
        else if cut(0, m, 0) { ("nodes", Box::new(|x| cut(0, x, 0))) }
        else if cut(0, 0, m) { ("loop", Box::new(|x| cut(0, 0, x))) }
        else { return J::A(vec![s("never"), s("")]); };
    let (mut lo, mut hi) = (0u64, m as u64);                       // the least value cut
    while lo < hi { let mid = (lo + hi) / 2; if by(mid as u32) { hi = mid } else { lo = mid + 1 } }
    J::A(vec![s(what), s(&(if what == "nodes" { lo } else if lo == 0 { return J::A(vec![s("always"), s("")]) } else { lo - 1 }).to_string())])
}
fn strategy_j(x: &graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy) -> J {
    use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy as Q;
    s(match x { Q::BFS => "BFS", Q::DFS => "DFS", Q::HCS => "HCS" })
}
fn levels(v: Vec<(&str, i32)>) -> J { o(v.into_iter().map(|(k, x)| (k, s(&x.to_string()))).collect()) }

// {"op":"read_hcf","cmd":..,"text":..,"lf":..}
pub fn op_read_hcf(q: &J) -> J {
    let c = ctx_of(q);
    let p = format!("drv{}.hcf", std::process::id());
    std::fs::write(&p, q.get("text").str()).unwrap();
    let refused = |e: String| o(vec![("ok", J::I(0)), ("why", s(&e))]);
    let ok = |v: Vec<(&str, J)>| o(vec![("ok", J::I(1)), ("opts", o(v))]);
    match q.get("cmd").str() {
        "explore" => match parse_hcf_file_for_explore(&c, &p) { Err(e) => refused(e.to_string()), Ok(x) => {
            let pr = &x.priorities.specific;
            ok(vec![("loggers", J::I(x.loggers.len() as i64)), ("strategy", strategy_j(&x.strategy)), ("memoize", J::B(x.use_memoization)),
                ("filters", J::A(x.filters.iter().map(|f| filter_j(&|d, n, l| f.apply_filter(d, n, &ExplorationFilterCriterion { loop_depth: l }).is_some())).collect())),
                ("levels", levels(vec![("emission", pr.emission), ("reception", pr.reception), ("multi_rdv", pr.multi_rdv), ("loop", pr.in_loop)])),
                ("randomize", J::B(x.priorities.randomize))]) } },
        "canonize" => match parse_hcf_file_for_canonize(&c, &p) { Err(e) => refused(e.to_string()), Ok(x) =>
            ok(vec![("loggers", J::I(x.loggers.len() as i64)), ("search_all", J::B(x.search_all))]) },
        _ => match parse_hcf_file_for_ana(&c, &p) { Err(e) => refused(e.to_string()), Ok(x) => {
            let pr = &x.priorities.specific;
            let kind = match &x.ana_param.ana_kind {
                AnalysisKind::Accept => o(vec![("kind", s("accept"))]),
                AnalysisKind::Prefix => o(vec![("kind", s("prefix"))]),
                AnalysisKind::Eliminate => o(vec![("kind", s("eliminate"))]),
                AnalysisKind::Simulate(g) => o(vec![("kind", s("simulate")), ("before", J::B(g.sim_before)), ("reset", J::B(g.reset_crit_after_exec)),
                    ("multiply", J::B(g.multiply_by_multitrace_length)),
                    ("loop", match g.loop_crit { SimulationLoopCriterion::MaxDepth => s("maxdepth"), SimulationLoopCriterion::MaxNum => s("maxnum"),
                        SimulationLoopCriterion::SpecificNum(n) => s(&n.to_string()), SimulationLoopCriterion::None => s("none") }),
                    ("act", match g.act_crit { SimulationActionCriterion::MaxNumOutsideLoops => s("maxnum"),
                        SimulationActionCriterion::SpecificNum(n) => s(&n.to_string()), SimulationActionCriterion::None => s("none") })]),
            };
            let local = match &x.ana_param.locana { None => o(vec![("on", J::B(false))]), Some(l) => o(vec![("on", J::B(true)),
                ("select", s(if l.on_lifeline_policy == LocalAnalysisLifelineSelectionPolicy::SelectAll { "all" } else { "dirty" })),
                ("ahead", match l.max_look_ahead_depth { None => s("none"), Some(n) => s(&n.to_string()) }),
                ("modulo", s(&l.modulo_each_X_steps.to_string()))]) };
            ok(vec![("loggers", J::I(x.loggers.len() as i64)), ("strategy", strategy_j(&x.strategy)), ("memoize", J::B(x.use_memoization)),
                ("filters", J::A(x.filters.iter().map(|f| filter_j(&|d, n, l| f.apply_filter(d, n, &AnalysisFilterCriterion { loop_depth: l }).is_some())).collect())),
                ("levels", levels(vec![("emission", pr.emission), ("reception", pr.reception), ("multi_rdv", pr.multi_rdv), ("loop", pr.in_loop), ("elim", pr.elim), ("simu", pr.simu)])),
                ("randomize", J::B(x.priorities.randomize)), ("kind", kind),
                ("goal", s(match x.goal { None => "none", Some(AnalysisGlobalVerdict::Pass) => "Pass", Some(AnalysisGlobalVerdict::WeakPass) => "WeakPass", _ => "other" })),
                ("local", local), ("por", J::B(x.ana_param.partial_order_reduction))]) } },
    }
}
