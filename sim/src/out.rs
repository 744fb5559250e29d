use std::collections::BTreeMap;
use serde::{Deserialize, Serialize};
/// what one simulated run reports
#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Out {
    /// (kind, detail) of the first violation
    pub viol: Option<(String, String)>,
    /// the plan was not executable (too large, not lexable, ill-formed after shrinking)
    pub skipped: bool,
    pub nontrivial: bool,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// hash of the full event log
    pub digest: u64,
    /// logical steps (callbacks into simulated code)
    pub steps: u64,
}
impl Out {
    pub fn skip() -> Out { Out { skipped: true, ..Out::default() } }
    pub fn bad(&mut self, kind: &str, detail: String) { if self.viol.is_none() { self.viol = Some((kind.to_string(), detail)) } }
    pub fn fire(&mut self, k: &str, n: u64) { *self.fired.entry(k.to_string()).or_insert(0) += n }
    pub fn probe(&mut self, k: &str, n: u64) { *self.probes.entry(k.to_string()).or_insert(0) += n }
    pub fn log(&mut self, s: &str) { self.digest = crate::rng::fnv(self.digest ^ 0x9E37, s.as_bytes()) }
}
pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "<payload>".into())
}
