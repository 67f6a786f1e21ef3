// Labels in memory.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::io;
verus! {
global size_of usize == 8;
@@include text.inc
@@include label.inc
@@include lock.inc

@@item storage/memory.rs :: struct MemoryLabelStore
@flag pub
@subst futures_locks :: RwLock < HashMap < String , Label > > => RwLock<HashMap<String, Label>>
@@end
impl MemoryLabelStore {
    /// the labels it holds; each is kept under its own name
    pub open spec fn m(&self) -> Map<Seq<char>, Label> { self.labels.v@ }
    pub open spec fn wf(&self) -> bool { keyed(self.m()) }

@@fn storage/memory.rs :: impl LabelStore for MemoryLabelStore :: labels
@ret r
@props A13
@spec
    requires self.wf()
    ensures r is Ok, lists(r.unwrap()@, self.m())
@@end
@@fn storage/memory.rs :: impl LabelStore for MemoryLabelStore :: create_label
@ret r
@flag fmt
@props A13
@subst & self => & mut self
@spec
    requires old(self).wf()
    ensures final(self).wf(),
        match r {
            Ok(l) => !old(self).m().contains_key(name@) && l@ == (LV { name: name@, layer: None, version: 0 }) && view_insert(old(self).m(), final(self).m(), l@),
            Err(_) => old(self).m().contains_key(name@) && final(self).m() == old(self).m() }
@@end
@@fn storage/memory.rs :: impl LabelStore for MemoryLabelStore :: get_label
@ret r
@props A13
@spec
    requires self.wf()
    ensures opt_view(r) == get_view(self.m(), name@)
@@end
@@fn storage/memory.rs :: impl LabelStore for MemoryLabelStore :: set_label_option
@ret r
@props A13
@subst & self => & mut self
@spec
    requires old(self).wf(), label.version < u64::MAX, forall|n: Seq<char>| old(self).m().contains_key(n) ==> (#[trigger] old(self).m()[n]).version < u64::MAX
    ensures final(self).wf(),
        match r {
            Ok(Some(l)) => old(self).m().contains_key(label.name@) && old(self).m()[label.name@].version == label.version
                && l@ == (LV { name: label.name@, layer: layer, version: label.version as nat + 1 }) && view_insert(old(self).m(), final(self).m(), l@),
            Ok(None) => old(self).m().contains_key(label.name@) && old(self).m()[label.name@].version != label.version && final(self).m() == old(self).m(),
            Err(_) => !old(self).m().contains_key(label.name@) && final(self).m() == old(self).m() }
@@end
@@fn storage/memory.rs :: impl LabelStore for MemoryLabelStore :: delete_label
@ret r
@props A13
@subst & self => & mut self
@spec
    requires old(self).wf()
    ensures final(self).wf(), r is Ok, r.unwrap() == old(self).m().contains_key(name@), final(self).m() == old(self).m().remove(name@)
@@end
}
fn main() {}
}
