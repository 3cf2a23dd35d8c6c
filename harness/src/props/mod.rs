use crate::report::Cx;
pub struct Prop {
    pub id: &'static str,
    pub case: fn(u64, &mut Cx),
    pub directed: Option<fn(&mut Cx)>,
    pub rule: &'static str,
    pub workers: usize,
    pub secs: u64,
    pub secs_thorough: u64,
    pub max_cases: u64,
    pub max_cases_thorough: u64,
    pub min_judged: u64,
    pub stack_mb: usize,
    pub stall_secs: u64,
}
pub const DEF: Prop = Prop { id: "", case: |_, _| {}, directed: None, rule: "", workers: 8, secs: 35, secs_thorough: 400,
    max_cases: u64::MAX, max_cases_thorough: u64::MAX, min_judged: 1000, stack_mb: 256, stall_secs: 60 };
pub mod eval;
pub mod batch;
pub mod simp;
mod templates;
pub mod text;
pub mod deriv;
pub mod print;
pub mod structure;
pub mod histories;
pub mod mixed;
pub mod races;
pub mod dual;
pub mod special;
pub mod limits;
pub mod replicas;
pub mod python;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(eval::props());
    v.extend(batch::props());
    v.extend(simp::props());
    v.extend(text::props());
    v.extend(deriv::props());
    v.extend(print::props());
    v.extend(structure::props());
    v.extend(histories::props());
    v.extend(races::props());
    v.extend(mixed::props());
    v.extend(dual::props());
    v.extend(special::props());
    v.extend(limits::props());
    v.extend(replicas::props());
    v.extend(python::props());
    v
}
pub fn get(id: &str) -> Prop {
    all().into_iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) })
}
