// ---- shared cells: the tracker behind Rc<RefCell<..>> is passed along as zk_tr; what remains of the Rc is its identity ----
#[derive(Clone, Copy)] pub struct ZkCell { pub who: u64 }
impl ZkClone for ZkCell { fn zk_clone(&self) -> (r: ZkCell) { *self } }
pub fn zk_ptr_eq(a: &ZkCell, b: &ZkCell) -> (r: bool) ensures r == (a.who == b.who) { a.who == b.who }
// HashMap contents in an arbitrary order, each key once
pub open spec fn lists_map<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool { s.len() == m.dom().len() && (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0) && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k) }
pub trait ZkEntries<K, V> { spec fn zk_lists(&self, s: Seq<(K, V)>) -> bool; fn zk_entry_list(&self) -> (r: Vec<(K, V)>) ensures self.zk_lists(r@); }
impl<K: ZkClone, V: ZkClone> ZkEntries<K, V> for HashMap<K, V> { open spec fn zk_lists(&self, s: Seq<(K, V)>) -> bool { lists_map(self@, s) } #[verifier::external_body] fn zk_entry_list(&self) -> (r: Vec<(K, V)>) { unimplemented!() } }
pub fn zk_entries<K, V, M: ZkEntries<K, V>>(m: &M) -> (r: Vec<(K, V)>) ensures m.zk_lists(r@) { m.zk_entry_list() }
#[verifier::external_body] pub fn zk_keys<K: ZkClone, V>(m: &HashMap<K, V>) -> (r: Vec<K>) ensures r@.len() == m@.dom().len(), r@.no_duplicates(), r@.to_set() == m@.dom() { unimplemented!() }
pub trait ZkEmpty: Sized { spec fn zk_is_empty(&self) -> bool; fn zk_mk_empty() -> (r: Self) ensures r.zk_is_empty(); }
impl<K, V> ZkEmpty for HashMap<K, V> { open spec fn zk_is_empty(&self) -> bool { self@ == Map::<K, V>::empty() } #[verifier::external_body] fn zk_mk_empty() -> (r: Self) { unimplemented!() } }
pub fn zk_empty_map<M: ZkEmpty>() -> (r: M) ensures r.zk_is_empty() { M::zk_mk_empty() }
pub fn zk_opt_max(o: Option<usize>, x: usize) -> (r: Option<usize>) ensures r == Some(match o { None => x, Some(y) => if y > x { y } else { x } }) { match o { None => Some(x), Some(y) => if y > x { Some(y) } else { Some(x) } } }
