// The searches themselves: every decision of a run of the exploration or analysis process, in order.
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
use graph_process_manager_core::delegate::delegate::GenericProcessDelegate;
use graph_process_manager_core::delegate::priorities::GenericProcessPriorities;
use graph_process_manager_core::handler::filter::AbstractFilter;
use graph_process_manager_core::handler::handler::AbstractProcessHandler as HandlerTrait;
use graph_process_manager_core::manager::config::AbstractProcessConfiguration;
use graph_process_manager_core::manager::logger::AbstractProcessLogger;
use graph_process_manager_core::manager::manager::GenericProcessManager;
use graph_process_manager_core::queued_steps::queue::strategy::QueueSearchStrategy;
use crate::process::explo::conf::ExplorationConfig;
use crate::process::explo::context::{ExplorationContext, ExplorationParameterization};
use crate::process::explo::node::ExplorationNodeKind;
use crate::process::explo::step::ExplorationStepKind;
use crate::process::explo::filter::elim::ExplorationFilterEliminationKind;
use crate::process::explo::verdict::local::ExplorationLocalVerdict;
use crate::process::ana::conf::AnalysisConfig;
use crate::process::ana::context::AnalysisContext;
use crate::process::ana::node::node::AnalysisNodeKind;
use crate::process::ana::node::flags::MultiTraceAnalysisFlags;
use crate::process::ana::step::AnalysisStepKind;
use crate::process::ana::filter::elim::AnalysisFilterEliminationKind;
use crate::process::ana::verdict::local::AnalysisLocalVerdict;
use crate::core::execution::semantics::frontier::FrontierElement;
use crate::core::execution::trace::multitrace::multi_trace_length;
use crate::io::input::hcf::explo::interface::parse_hcf_file_for_explore as hcf_explo;
use crate::io::input::hcf::ana::interface::parse_hcf_file_for_ana as hcf_ana;
use crate::io::input::htf::interface::parse_htf_file as htf_of;

type Feat = [i64; 6];                                    // emissions, receptions, actions, loop depth, eliminated, simulated
#[derive(Clone)]
struct SNode { key: i64, vec: Vec<i64>, eps: bool, steps: Vec<Feat>, verdict: String, stat: bool, term: i64 }
struct Log { nodes: Vec<SNode>, ids: HashMap<u32, usize>, keys: HashMap<String, i64>, ops: Vec<J>, cap: usize, capped: bool }
impl Log {
    fn new(cap: usize) -> Log { Log { nodes: vec![], ids: HashMap::new(), keys: HashMap::new(), ops: vec![], cap, capped: false } }
    fn key(&mut self, k: String) -> i64 { let n = self.keys.len() as i64; *self.keys.entry(k).or_insert(n) }
    fn id(&self, x: u32) -> i64 { self.ids.get(&x).map(|i| *i as i64 + 1).unwrap_or(0) }
}
fn exec_feat(fe: &FrontierElement, sim: usize) -> Feat {
    let em = fe.target_actions.iter().filter(|a| a.act_kind == TraceActionKind::Emission).count() as i64;
    let n = fe.target_actions.len() as i64;
    [em, n - em, n, fe.max_loop_depth as i64, 0, sim as i64]
}
fn nums(v: &[i64]) -> J { J::A(v.iter().map(|x| J::I(*x)).collect()) }

trait Seen: AbstractProcessConfiguration {
    fn feat(s: &Self::StepKind) -> Feat;
    fn acts(s: &Self::StepKind) -> J;
    fn key(n: &Self::NodeKind) -> (String, Vec<i64>, bool);
    fn elim(e: &Self::FilterEliminationKind) -> &'static str;
    fn too_many() -> Self::FilterEliminationKind;
    fn verdict(v: &Self::LocalVerdict) -> String;
}
impl Seen for ExplorationConfig {
    fn feat(s: &ExplorationStepKind) -> Feat { match s { ExplorationStepKind::Execute(fe) => exec_feat(fe, 0) } }
    fn acts(s: &ExplorationStepKind) -> J { match s { ExplorationStepKind::Execute(fe) => acts_j(&fe.target_actions) } }
    fn key(n: &ExplorationNodeKind) -> (String, Vec<i64>, bool) { (format!("{:?}", n.interaction), vec![n.loop_depth as i64], n.interaction.express_empty()) }
    fn elim(e: &ExplorationFilterEliminationKind) -> &'static str { match e {
        ExplorationFilterEliminationKind::MaxLoopInstanciation => "loop", ExplorationFilterEliminationKind::MaxProcessDepth => "depth", ExplorationFilterEliminationKind::MaxNodeNumber => "nodes" } }
    fn too_many() -> ExplorationFilterEliminationKind { ExplorationFilterEliminationKind::MaxNodeNumber }
    fn verdict(v: &ExplorationLocalVerdict) -> String { match v { ExplorationLocalVerdict::Accepting => "Accepting", ExplorationLocalVerdict::DeadLocked => "DeadLocked" }.to_string() }
}
impl Seen for AnalysisConfig {
    fn feat(s: &AnalysisStepKind) -> Feat { match s { AnalysisStepKind::Execute(fe, _, sm) => exec_feat(fe, sm.len()), AnalysisStepKind::EliminateNoLongerObserved(x) => [0, 0, 0, 0, x.len() as i64, 0] } }
    fn acts(s: &AnalysisStepKind) -> J { match s { AnalysisStepKind::Execute(fe, _, _) => acts_j(&fe.target_actions), _ => J::A(vec![]) } }
    fn key(n: &AnalysisNodeKind) -> (String, Vec<i64>, bool) {
        let mut v = vec![n.ana_loop_depth as i64, -(n.flags.rem_loop_in_sim as i64), -(n.flags.rem_act_in_sim as i64)];
        for c in &n.flags.canals { v.push(c.simulated_before as i64); v.push(c.simulated_after as i64); }
        let k: Vec<(usize, bool)> = n.flags.canals.iter().map(|c| (c.consumed, c.no_longer_observed)).collect();
        (format!("{:?} {:?}", n.interaction, k), v, n.interaction.express_empty())
    }
    fn elim(e: &AnalysisFilterEliminationKind) -> &'static str { match e {
        AnalysisFilterEliminationKind::MaxLoopInstanciation => "loop", AnalysisFilterEliminationKind::MaxProcessDepth => "depth", AnalysisFilterEliminationKind::MaxNodeNumber => "nodes" } }
    fn too_many() -> AnalysisFilterEliminationKind { AnalysisFilterEliminationKind::MaxNodeNumber }
    fn verdict(v: &AnalysisLocalVerdict) -> String { match v {
        AnalysisLocalVerdict::Cov => "Cov", AnalysisLocalVerdict::TooShort => "TooShort", AnalysisLocalVerdict::MultiPref => "MultiPref", AnalysisLocalVerdict::Slice => "Slice",
        AnalysisLocalVerdict::Inconc(_) => "Inconc", AnalysisLocalVerdict::Out(_) => "Out", AnalysisLocalVerdict::OutSim(_) => "OutSim" }.to_string() }
}

struct SpyLog(Rc<RefCell<Log>>);
impl<C: Seen + 'static> AbstractProcessLogger<C> for SpyLog {
    fn as_any(&self) -> &dyn Any { self }
    fn log_initialize(&mut self) {}
    fn log_parameterization(&mut self, _: &QueueSearchStrategy, _: &GenericProcessPriorities<C::Priorities>,
        _: &[Box<dyn AbstractFilter<C::FilterCriterion, C::FilterEliminationKind>>], _: &Option<C::GlobalVerdict>, _: bool, _: &C::Parameterization) {}
    fn log_filtered(&mut self, _: &C::Context, parent: u32, _: u32, e: &C::FilterEliminationKind) {
        let mut l = self.0.borrow_mut(); let p = l.id(parent);
        l.ops.push(o(vec![("p", J::I(p)), ("cut", s(C::elim(e))), ("to", J::I(0)), ("new", J::B(false)), ("f", nums(&[])), ("d", J::I(0)), ("k", J::I(0)), ("v", nums(&[])), ("a", J::A(vec![]))]));
    }
    fn log_new_node(&mut self, c: &C::Context, p: &C::Parameterization, id: u32, n: &C::NodeKind) {
        let steps = C::ProcessHandler::collect_next_steps(c, p, n);
        let (k, vec, eps) = C::key(n);
        let mut l = self.0.borrow_mut();
        let key = l.key(k);
        let at = l.nodes.len(); l.ids.insert(id, at);
        l.nodes.push(SNode { key, vec, eps, steps: steps.iter().map(|x| C::feat(x)).collect(), verdict: String::new(), stat: false, term: 0 });
    }
    fn log_new_step(&mut self, _: &C::Context, _: &C::Parameterization, from: u32, to: u32, st: &C::StepKind, n: &C::NodeKind, depth: u32) {
        let (k, vec, _) = C::key(n);
        let mut l = self.0.borrow_mut();
        let (p, t, key) = (l.id(from), l.id(to), l.key(k));
        let fresh = t > 1 && t == l.nodes.len() as i64 && !l.ops.iter().any(|x| x.get("to").int() == t);
        l.ops.push(o(vec![("p", J::I(p)), ("cut", s("")), ("to", J::I(t)), ("new", J::B(fresh)), ("f", nums(&C::feat(st))), ("d", J::I(depth as i64)), ("k", J::I(key)), ("v", nums(&vec)), ("a", C::acts(st))]));
    }
    fn log_verdict_on_no_child(&mut self, _: &C::Context, _: &C::Parameterization, id: u32, v: &C::LocalVerdict) {
        let mut l = self.0.borrow_mut(); let i = l.id(id) as usize - 1; l.nodes[i].verdict = C::verdict(v);
    }
    fn log_verdict_on_static_analysis(&mut self, _: &C::Context, _: &C::Parameterization, id: u32, v: &C::LocalVerdict, _: &C::StaticLocalVerdictAnalysisProof) {
        let mut l = self.0.borrow_mut(); let i = l.id(id) as usize - 1; l.nodes[i].verdict = C::verdict(v); l.nodes[i].stat = true;
    }
    fn log_terminate(&mut self, _: &C::GlobalVerdict) {}
    fn log_notify_terminal_node_reached(&mut self, _: &C::Context, id: u32) { let mut l = self.0.borrow_mut(); let i = l.id(id) as usize - 1; l.nodes[i].term += 1; }
    fn log_notify_last_child_of_node_processed(&mut self, _: &C::Context, _: u32) {}
}
// a filter that only stops a search that has become too long to be recorded
struct Stop(Rc<RefCell<Log>>);
impl std::fmt::Display for Stop { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "") } }
impl<K> AbstractFilter<K, ExplorationFilterEliminationKind> for Stop { fn apply_filter(&self, _: u32, _: u32, _: &K) -> Option<ExplorationFilterEliminationKind> {
    let mut l = self.0.borrow_mut(); if l.ops.len() >= l.cap { l.capped = true; Some(ExplorationFilterEliminationKind::MaxNodeNumber) } else { None } } }
impl<K> AbstractFilter<K, AnalysisFilterEliminationKind> for Stop { fn apply_filter(&self, _: u32, _: u32, _: &K) -> Option<AnalysisFilterEliminationKind> {
    let mut l = self.0.borrow_mut(); if l.ops.len() >= l.cap { l.capped = true; Some(AnalysisFilterEliminationKind::MaxNodeNumber) } else { None } } }

fn log_j(l: &Log, count: u32, verdict: String) -> J {
    if l.capped { return o(vec![("ok", J::I(0)), ("why", s("long"))]); }
    o(vec![("ok", J::I(1)), ("count", J::I(count as i64)), ("verdict", s(&verdict)), ("ops", J::A(l.ops.clone())),
        ("nodes", J::A(l.nodes.iter().map(|n| o(vec![("k", J::I(n.key)), ("v", nums(&n.vec)), ("e", J::B(n.eps)), ("s", J::A(n.steps.iter().map(|x| nums(x)).collect())),
            ("w", s(&n.verdict)), ("stat", J::B(n.stat)), ("t", J::I(n.term))])).collect()))])
}
fn conf_file(q: &J, ext: &str) -> String { let p = format!("drv{}.{}", std::process::id(), ext); std::fs::write(&p, q.get(ext).str()).unwrap(); p }

// {"op":"search_explo","t":..,"hcf":..,"cap":..,"lf":..,"ms":..}
pub fn op_search_explo(q: &J) -> J {
    let c = ctx_of(q);
    let opts = match hcf_explo(&c, &conf_file(q, "hcf")) { Ok(x) => x, Err(e) => return o(vec![("ok", J::I(0)), ("why", s(&e.to_string()))]) };
    let log = Rc::new(RefCell::new(Log::new(q.get("cap").us())));
    let mut filters = opts.filters; filters.insert(0, Box::new(Stop(log.clone())));
    let mut m: GenericProcessManager<ExplorationConfig> = GenericProcessManager::new(ExplorationContext::new(c), ExplorationParameterization {},
        GenericProcessDelegate::new(opts.strategy, opts.priorities), filters, vec![Box::new(SpyLog(log.clone()))], None, opts.use_memoization);
    let (n, v) = m.start_process(ExplorationNodeKind::new(term_of(q.get("t")), 0));
    let l = log.borrow(); log_j(&l, n, v.to_string())
}
// {"op":"search_ana","t":..,"hcf":..,"htf":..,"cap":..,"lf":..,"ms":..}
pub fn op_search_ana(q: &J) -> J {
    let c = ctx_of(q);
    let no = |e: String| o(vec![("ok", J::I(0)), ("why", s(&e))]);
    let opts = match hcf_ana(&c, &conf_file(q, "hcf")) { Ok(x) => x, Err(e) => return no(e.to_string()) };
    let (col, mu) = match htf_of(&c, &conf_file(q, "htf")) { Ok(x) => x, Err(e) => return no(e.to_string()) };
    let log = Rc::new(RefCell::new(Log::new(q.get("cap").us())));
    let mut filters = opts.filters; filters.insert(0, Box::new(Stop(log.clone())));
    let int = term_of(q.get("t"));
    let len = multi_trace_length(&mu);
    let nc = col.num_colocs();
    let flags = match opts.ana_param.ana_kind.get_sim_config() { None => MultiTraceAnalysisFlags::new_init(nc, 0, 0),
        Some(g) => MultiTraceAnalysisFlags::new_init(nc, g.get_reset_rem_loop(len, &int), g.get_reset_rem_act(len, &int)) };
    let mut m: GenericProcessManager<AnalysisConfig> = GenericProcessManager::new(AnalysisContext::new(c, col, mu, len), opts.ana_param,
        GenericProcessDelegate::new(opts.strategy, opts.priorities), filters, vec![Box::new(SpyLog(log.clone()))], opts.goal, opts.use_memoization);
    let (n, v) = m.start_process(AnalysisNodeKind::new(int, flags, 0));
    let l = log.borrow(); log_j(&l, n, v.to_string())
}
