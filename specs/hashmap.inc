// ---- std's HashMap, as a map of what the keys say (own stand-in)
pub trait Key { type K; spec fn key(&self) -> Self::K; }
impl Key for String { type K = Seq<char>; open spec fn key(&self) -> Seq<char> { self@ } }
impl Key for ObjectType { type K = Name; open spec fn key(&self) -> Name { as_name(*self) } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K: Key, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::K, V>;
    #[verifier::external_body] pub fn new() -> (r: HashMap<K, V>) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(k.key()) && *v == self@[k.key()], None => !self@.contains_key(k.key()) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    /// every entry once, in an order of its own
    pub uninterp spec fn order(&self) -> Seq<(K, V)>;
    #[verifier::external_body] pub proof fn all_listed(&self) ensures entries(self@, self.order()) { }
    #[verifier::external_body] pub fn into_iter(self) -> (r: Vec<(K, V)>) ensures r@ == self.order(), entries(self@, r@) { unimplemented!() }
}
pub open spec fn entries<K: Key, V>(m: Map<K::K, V>, r: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key((#[trigger] r[i]).0.key()) && m[r[i].0.key()] == r[i].1
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.key() != (#[trigger] r[j]).0.key()
    &&& forall|k: K::K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.key() == k
}
