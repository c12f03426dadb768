// ---- HashMap / HashSet with field-element keys ----
impl Eq for F { }
#[verifier::external] impl std::hash::Hash for F { fn hash<H: std::hash::Hasher>(&self, state: &mut H) { unimplemented!() } }
#[verifier::external_body] pub broadcast proof fn ax_fkey() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<F>() { }
/// m.entry(k).or_insert(d): the entry's value, in place
#[verifier::external_body] pub fn zk_entry_or<'a, V>(m: &'a mut HashMap<F, V>, k: F, d: V) -> (ret: &'a mut V) ensures *ret == (if old(m)@.contains_key(k) { old(m)@[k] } else { d }), final(m)@ == old(m)@.insert(k, *final(ret)) { unimplemented!() }
