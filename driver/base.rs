// Verification driver, common part: a tiny JSON codec, terms <-> JSON, request loop.
// Included in the crate as `mod verif` by `--cfg hibou_verif` (see /repo/src/main.rs).
#![allow(warnings)]
use std::collections::{BTreeSet, BTreeMap, HashMap, HashSet};
use std::io::{BufRead, Write};
use crate::core::language::syntax::interaction::{Interaction, LoopKind};
use crate::core::language::syntax::action::{EmissionAction, ReceptionAction, EmissionTargetRef, CommunicationSynchronicity};
use crate::core::execution::trace::trace::{TraceAction, TraceActionKind};
use crate::core::general_context::GeneralContext;

#[derive(Clone, Debug, PartialEq)]
pub enum J { N, B(bool), I(i64), S(String), A(Vec<J>), O(Vec<(String, J)>) }

impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::O(v) = self { for (n, x) in v { if n == k { return x; } } }
        &J::N
    }
    pub fn arr(&self) -> &Vec<J> { if let J::A(v) = self { v } else { panic!("driver: array expected") } }
    pub fn int(&self) -> i64 { if let J::I(i) = self { *i } else { panic!("driver: int expected") } }
    pub fn int_or(&self, d: i64) -> i64 { if let J::I(i) = self { *i } else { d } }
    pub fn us(&self) -> usize { self.int() as usize }
    pub fn str(&self) -> &str { if let J::S(s) = self { s } else { panic!("driver: string expected") } }
    pub fn boolean(&self) -> bool { match self { J::B(b) => *b, J::I(i) => *i != 0, _ => false } }
    pub fn write(&self, out: &mut String) {
        match self {
            J::N => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => out.push_str(&i.to_string()),
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c { '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"), '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"), '\t' => out.push_str("\\t"),
                        c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)), c => out.push(c) }
                }
                out.push('"');
            }
            J::A(v) => { out.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { out.push(','); } x.write(out); } out.push(']'); }
            J::O(v) => { out.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { out.push(','); }
                J::S(k.clone()).write(out); out.push(':'); x.write(out); } out.push('}'); }
        }
    }
}
pub fn o(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect()) }
pub fn s(x: &str) -> J { J::S(x.to_string()) }

struct P<'a> { b: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.b.len() && (self.b[self.i] as char).is_whitespace() { self.i += 1; } }
    fn val(&mut self) -> J {
        self.ws();
        match self.b[self.i] {
            b'[' => { self.i += 1; let mut v = vec![]; self.ws();
                while self.b[self.i] != b']' { v.push(self.val()); self.ws(); if self.b[self.i] == b',' { self.i += 1; } self.ws(); }
                self.i += 1; J::A(v) }
            b'{' => { self.i += 1; let mut v = vec![]; self.ws();
                while self.b[self.i] != b'}' { let k = self.val(); self.ws(); self.i += 1; let x = self.val();
                    v.push((k.str().to_string(), x)); self.ws(); if self.b[self.i] == b',' { self.i += 1; } self.ws(); }
                self.i += 1; J::O(v) }
            b'"' => { self.i += 1; let mut r: Vec<u8> = vec![];
                while self.b[self.i] != b'"' {
                    if self.b[self.i] == b'\\' { self.i += 1; match self.b[self.i] {
                        b'n' => r.push(b'\n'), b't' => r.push(b'\t'), b'r' => r.push(b'\r'),
                        b'u' => { let h = std::str::from_utf8(&self.b[self.i+1..self.i+5]).unwrap();
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                            let mut buf = [0u8; 4]; r.extend_from_slice(c.encode_utf8(&mut buf).as_bytes()); self.i += 4; }
                        c => r.push(c) } }
                    else { r.push(self.b[self.i]); }
                    self.i += 1; }
                self.i += 1; J::S(String::from_utf8_lossy(&r).to_string()) }
            b't' => { self.i += 4; J::B(true) }
            b'f' => { self.i += 5; J::B(false) }
            b'n' => { self.i += 4; J::N }
            _ => { let st = self.i; while self.i < self.b.len() && (self.b[self.i] == b'-' || self.b[self.i].is_ascii_digit()) { self.i += 1; }
                J::I(std::str::from_utf8(&self.b[st..self.i]).unwrap().parse().unwrap()) }
        }
    }
}
pub fn parse(t: &str) -> J { P { b: t.as_bytes(), i: 0 }.val() }

// ------------------------------------------------------------------ terms
fn sy(j: &J) -> CommunicationSynchronicity { if j.int() == 1 { CommunicationSynchronicity::Synchronous } else { CommunicationSynchronicity::Asynchronous } }
fn syi(c: &CommunicationSynchronicity) -> J { J::I(match c { CommunicationSynchronicity::Synchronous => 1, _ => 0 }) }
pub fn act_of(j: &J) -> TraceAction {
    let v = j.arr();
    TraceAction::new(v[0].us(), if v[1].str() == "!" { TraceActionKind::Emission } else { TraceActionKind::Reception }, v[2].us())
}
pub fn act_j(a: &TraceAction) -> J {
    J::A(vec![J::I(a.lf_id as i64), s(match a.act_kind { TraceActionKind::Emission => "!", _ => "?" }), J::I(a.ms_id as i64)])
}
pub fn acts_j<'a, I: IntoIterator<Item=&'a TraceAction>>(a: I) -> J { J::A(a.into_iter().map(act_j).collect()) }
pub fn set_of(j: &J) -> BTreeSet<usize> { j.arr().iter().map(|x| x.us()).collect() }
pub fn ids_j<'a, I: IntoIterator<Item=&'a usize>>(a: I) -> J { J::A(a.into_iter().map(|x| J::I(*x as i64)).collect()) }

pub fn term_of(j: &J) -> Interaction {
    let v = j.arr();
    let b = |i: usize| Box::new(term_of(&v[i]));
    match v[0].str() {
        "o" => Interaction::Empty,
        "em" => Interaction::Emission(EmissionAction::new(v[1].us(), v[2].us(), sy(&v[3]), v[4].arr().iter().map(|x| {
            let i = x.int(); if i >= 0 { EmissionTargetRef::Lifeline(i as usize) } else { EmissionTargetRef::Gate((-i - 1) as usize) } }).collect())),
        "rc" => Interaction::Reception(ReceptionAction::new(if v[1].int() < 0 { Some((-v[1].int() - 1) as usize) } else { None },
            v[2].us(), sy(&v[3]), v[4].arr().iter().map(|x| x.us()).collect())),
        "strict" => Interaction::Strict(b(1), b(2)),
        "seq" => Interaction::Seq(b(1), b(2)),
        "alt" => Interaction::Alt(b(1), b(2)),
        "par" => Interaction::Par(b(1), b(2)),
        "cr" => Interaction::CoReg(v[1].arr().iter().map(|x| x.us()).collect(), b(2), b(3)),
        "lp" => Interaction::Loop(match v[1].str() { "S" => LoopKind::SStrictSeq, "H" => LoopKind::HHeadFirstWS, "W" => LoopKind::WWeakSeq, _ => LoopKind::PInterleaving }, b(2)),
        "sy" => Interaction::Sync(v[1].arr().iter().map(act_of).collect(), b(2), b(3)),
        x => panic!("driver: unknown operator {}", x),
    }
}
pub fn term_j(t: &Interaction) -> J {
    let two = |n: &str, l: &Interaction, r: &Interaction| J::A(vec![s(n), term_j(l), term_j(r)]);
    match t {
        Interaction::Empty => J::A(vec![s("o")]),
        Interaction::Emission(e) => J::A(vec![s("em"), J::I(e.origin_lf_id as i64), J::I(e.ms_id as i64), syi(&e.synchronicity),
            J::A(e.targets.iter().map(|x| J::I(match x { EmissionTargetRef::Lifeline(l) => *l as i64, EmissionTargetRef::Gate(g) => -(*g as i64) - 1 })).collect())]),
        Interaction::Reception(r) => J::A(vec![s("rc"), J::I(match r.origin_gt_id { None => 0, Some(g) => -(g as i64) - 1 }), J::I(r.ms_id as i64),
            syi(&r.synchronicity), ids_j(&r.recipients)]),
        Interaction::Strict(l, r) => two("strict", l, r),
        Interaction::Seq(l, r) => two("seq", l, r),
        Interaction::Alt(l, r) => two("alt", l, r),
        Interaction::Par(l, r) => two("par", l, r),
        Interaction::And(l, r) => two("and", l, r),
        Interaction::CoReg(c, l, r) => J::A(vec![s("cr"), ids_j(c), term_j(l), term_j(r)]),
        Interaction::Loop(k, b) => J::A(vec![s("lp"), s(match k { LoopKind::SStrictSeq => "S", LoopKind::HHeadFirstWS => "H", LoopKind::WWeakSeq => "W", LoopKind::PInterleaving => "P" }), term_j(b)]),
        Interaction::Sync(a, l, r) => J::A(vec![s("sy"), acts_j(a), term_j(l), term_j(r)]),
    }
}
pub fn ctx_of(j: &J) -> GeneralContext {
    let mut c = GeneralContext::new();
    for x in j.get("lf").arr() { c.add_lf(x.str().to_string()); }
    for x in j.get("ms").arr() { c.add_msg(x.str().to_string()); }
    if let J::A(g) = j.get("gt") { for x in g { c.add_gt(x.str().to_string()); } }
    c
}

// ------------------------------------------------------------------ request loop
pub fn run() -> bool {
    let inp = match std::env::var("HIBOU_VERIF_IN") { Ok(x) => x, Err(_) => return false };
    let outp = std::env::var("HIBOU_VERIF_OUT").unwrap();
    let skip: usize = std::env::var("HIBOU_VERIF_SKIP").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    std::panic::set_hook(Box::new(|_| {}));
    let th = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let f = std::io::BufReader::new(std::fs::File::open(&inp).unwrap());
        let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&outp).unwrap();
        for (n, line) in f.lines().enumerate() {
            if n < skip { continue; }
            let req = parse(&line.unwrap());
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(req.get("op").str(), &req)));
            let ans = match res {
                Ok(x) => x,
                Err(e) => {
                    let m = if let Some(x) = e.downcast_ref::<String>() { x.clone() } else if let Some(x) = e.downcast_ref::<&str>() { x.to_string() } else { "panic".to_string() };
                    o(vec![("panic", s(&m))])
                }
            };
            let mut t = String::new();
            ans.write(&mut t);
            t.push('\n');
            out.write_all(t.as_bytes()).unwrap();
        }
    }).unwrap();
    let _ = th.join();
    true
}
