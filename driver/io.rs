// Reading and writing files, through the tool's own file level entry points.
use crate::io::input::hsf::interface::parse_hsf_file;
use crate::io::input::hif::interface::parse_hif_file;
use crate::io::input::htf::interface::parse_htf_file;
use crate::io::output::to_hfiles::interaction::to_hif::interaction_to_hif;
use crate::io::output::to_hfiles::trace::to_htf::write_multi_trace_into_file;
use crate::core::colocalizations::CoLocalizations;

fn scratch(ext: &str) -> String { format!("drv{}.{}", std::process::id(), ext) }
fn with_text(q: &J, ext: &str) -> String {
    let p = scratch(ext);
    std::fs::write(&p, q.get("text").str()).unwrap();
    p
}
fn refused(e: String) -> J { o(vec![("ok", J::I(0)), ("why", s(&e))]) }
fn mt_j(c: &CoLocalizations, m: &Vec<Vec<BTreeSet<TraceAction>>>) -> J {
    J::A(c.locs_lf_ids.iter().zip(m.iter()).map(|(l, t)| J::A(vec![ids_j(l), J::A(t.iter().map(|x| acts_j(x)).collect())])).collect())
}
pub fn mt_of(j: &J) -> (CoLocalizations, Vec<Vec<BTreeSet<TraceAction>>>) {
    (CoLocalizations::new(j.arr().iter().map(|x| set_of(&x.arr()[0])).collect()),
     j.arr().iter().map(|x| x.arr()[1].arr().iter().map(|ma| ma.arr().iter().map(act_of).collect()).collect()).collect())
}
// {"op":"read_hsf","text":..}
pub fn op_read_hsf(q: &J) -> J {
    match parse_hsf_file(&with_text(q, "hsf")) {
        Err(e) => refused(e.to_string()),
        Ok(c) => {
            let names = |f: &dyn Fn(usize) -> Option<String>| J::A((0..).map_while(|i| f(i)).map(|x| s(&x)).collect());
            o(vec![("ok", J::I(1)), ("lf", names(&|i| c.get_lf_name(i).ok())), ("ms", names(&|i| c.get_ms_name(i).ok())), ("gt", names(&|i| c.get_gt_name(i).ok()))])
        }
    }
}
// {"op":"read_hif","text":..,"lf":..,"ms":..,"gt":..}
pub fn op_read_hif(q: &J) -> J {
    match parse_hif_file(&ctx_of(q), &with_text(q, "hif")) { Err(e) => refused(e.to_string()), Ok(i) => o(vec![("ok", J::I(1)), ("t", term_j(&i))]) }
}
pub fn op_read_htf(q: &J) -> J {
    match parse_htf_file(&ctx_of(q), &with_text(q, "htf")) { Err(e) => refused(e.to_string()), Ok((c, m)) => {
        if c.locs_lf_ids.len() != m.len() { panic!("components without traces") }
        o(vec![("ok", J::I(1)), ("mt", mt_j(&c, &m))]) } }
}
// {"op":"write_hif","t":T,..} and reading the result back
pub fn op_write_hif(q: &J) -> J {
    let c = ctx_of(q);
    let p = scratch("hif");
    interaction_to_hif(std::path::Path::new(&p), &c, &term_of(q.get("t")));
    let text = std::fs::read_to_string(&p).unwrap();
    let back = match parse_hif_file(&c, &p) { Err(e) => refused(e.to_string()), Ok(i) => o(vec![("ok", J::I(1)), ("t", term_j(&i))]) };
    o(vec![("text", s(&text)), ("back", back)])
}
pub fn op_write_htf(q: &J) -> J {
    let c = ctx_of(q);
    let p = scratch("htf");
    let (l, m) = mt_of(q.get("mt"));
    write_multi_trace_into_file(std::path::Path::new(&p), &c, &l, &m);
    let text = std::fs::read_to_string(&p).unwrap();
    let back = match parse_htf_file(&c, &p) { Err(e) => refused(e.to_string()), Ok((c, m)) => o(vec![("ok", J::I(1)), ("mt", mt_j(&c, &m))]) };
    o(vec![("text", s(&text)), ("back", back)])
}
