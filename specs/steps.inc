/// what a loop steps through
pub trait Src: Sized { type It; spec fn gives(self, i: Self::It) -> bool; fn steps(self) -> (r: Self::It) ensures self.gives(r); }
fn __into_iter<T: Src>(x: T) -> (r: T::It) ensures x.gives(r) { x.steps() }
impl<T> Src for Vec<T> { type It = Steps<T>; open spec fn gives(self, i: Steps<T>) -> bool { i.left() == self@ } #[verifier::external_body] fn steps(self) -> (r: Steps<T>) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Steps<T> { t: core::marker::PhantomData<T> }
impl<T> Steps<T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(k) => old(self).left().len() > 0 && k == old(self).left()[0] && final(self).left() == old(self).left().drop_first(), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
