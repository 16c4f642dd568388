// Distributions of the symbols of random interactions.
use crate::experiments::interaction_random_gen::probas::{InteractionGenerationSymbol, InteractionSymbolsProbabilities};
use rand::SeedableRng;
fn gensym(x: &str) -> InteractionGenerationSymbol {
    use InteractionGenerationSymbol::*;
    for y in [Empty, Action, Strict, Seq, Coreg, Par, LoopS, LoopW, LoopP, Alt, Basic, Transmission, Broadcast] { if format!("{:?}", y) == x { return y; } }
    panic!("driver: unknown symbol")
}
// {"op":"probas","map":[[symbol, permille],..],"draws":n,"seed":k} : {"ok":b,"freq":[[symbol, count],..]}
pub fn op_probas(q: &J) -> J {
    let map: HashMap<InteractionGenerationSymbol, f32> = q.get("map").arr().iter().map(|e| (gensym(e.arr()[0].str()), e.arr()[1].int() as f32 / 1000.0)).collect();
    match InteractionSymbolsProbabilities::from_map(map) {
        Err(_) => J::O(vec![("ok".to_string(), J::B(false))]),
        Ok(p) => {
            let mut rng = rand::rngs::StdRng::seed_from_u64(q.get("seed").int() as u64);
            let mut count: BTreeMap<String, i64> = BTreeMap::new();
            for _ in 0..q.get("draws").int() { *count.entry(format!("{:?}", p.get_random_symbol(&mut rng))).or_insert(0) += 1; }
            J::O(vec![("ok".to_string(), J::B(true)), ("freq".to_string(), J::A(count.into_iter().map(|(k, n)| J::A(vec![s(&k), J::I(n)])).collect()))])
        }
    }
}
