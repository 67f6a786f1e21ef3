// ---- locks hand out the value they guard (one holder at a time: assumed); maps with text keys (std contract, assumed)
pub struct RwLock<T> { pub v: T }
impl<T> RwLock<T> {
    pub fn new(v: T) -> (r: RwLock<T>) ensures r.v == v { RwLock { v } }
    pub fn read(&self) -> (r: &T) ensures *r == self.v { &self.v }
    pub fn write(&mut self) -> (r: &mut T) ensures *r == old(self).v, *final(r) == final(self).v { &mut self.v }
}
pub trait TextKey { spec fn key(&self) -> Seq<char>; }
impl TextKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
impl TextKey for str { open spec fn key(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<V> View for HashMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<String, V>) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K: TextKey + ?Sized>(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(k.key()) && *v == self@[k.key()], None => !self@.contains_key(k.key()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<K: TextKey + ?Sized>(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<K: TextKey + ?Sized>(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.key()), match r { Some(v) => old(self)@.contains_key(k.key()) && v == old(self)@[k.key()], None => !old(self)@.contains_key(k.key()) } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Values<V> { v: core::marker::PhantomData<V> }
impl<V> Values<V> { pub uninterp spec fn m(&self) -> Map<Seq<char>, V>; }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn values(&self) -> (r: Values<V>) ensures r.m() == self@ { unimplemented!() }
}
impl Values<Label> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Values<Label>) ensures r.m() == self.m() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<Label>) requires keyed(self.m()) ensures lists(r@, self.m()) { unimplemented!() }
}
/// the labels of `m`, each once
pub open spec fn lists(v: Seq<Label>, m: Map<Seq<char>, Label>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i])@.name) && v[i]@ == m[v[i]@.name]@
    &&& forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@.name == n
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@.name != (#[trigger] v[j])@.name
}
/// every label is kept under its own name
pub open spec fn keyed(m: Map<Seq<char>, Label>) -> bool { forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> m[n]@.name == n }
pub open spec fn opt_view(o: Result<Option<Label>, std::io::Error>) -> Option<LV> { match o { Ok(Some(l)) => Some(l@), _ => None } }
pub open spec fn get_view(m: Map<Seq<char>, Label>, n: Seq<char>) -> Option<LV> { if m.contains_key(n) { Some(m[n]@) } else { None } }
/// `b` is `a` with the label `l` under its name
pub open spec fn view_insert(a: Map<Seq<char>, Label>, b: Map<Seq<char>, Label>, l: LV) -> bool {
    &&& b.contains_key(l.name) && b[l.name]@ == l
    &&& forall|n: Seq<char>| n != l.name ==> (#[trigger] b.contains_key(n) == a.contains_key(n)) && (a.contains_key(n) ==> b[n] == a[n])
}
