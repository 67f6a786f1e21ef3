@@item layer/internal/subject_iterator.rs :: struct OptInternalLayerTripleSubjectIterator
@flag pub
@@end
impl OptInternalLayerTripleSubjectIterator {
    pub open spec fn wf(&self) -> bool { match self.0 { Some(i) => i.wf(), None => true } }
    pub open spec fn view(&self) -> Seq<IdTriple> { match self.0 { Some(i) => i@, None => Seq::empty() } }
    pub open spec fn all(&self) -> Seq<IdTriple> { match self.0 { Some(i) => i.all(), None => Seq::empty() } }
    pub open spec fn sought(&self, s: u64, p: u64) -> bool {
        forall|t: IdTriple| #[trigger] self@.contains(t) <==> self.all().contains(t) && (t.subject > s || (t.subject == s && t.predicate >= p))
    }
    pub proof fn strict_view(&self) requires self.wf() ensures strict(self@), strict(self.all())
    { match self.0 { Some(i) => { rest_members(i.subjects, i.s_p_adjacency_list, i.sp_o_adjacency_list, i.pos()); rest_members(i.subjects, i.s_p_adjacency_list, i.sp_o_adjacency_list, 0); }, None => {} } }
@@fn layer/internal/subject_iterator.rs :: impl OptInternalLayerTripleSubjectIterator :: seek_subject_ref
@props A01 A02
@spec requires old(self).wf() ensures final(self).wf(), final(self).all() == old(self).all(), final(self).sought(subject, 0)
@@end
@@fn layer/internal/subject_iterator.rs :: impl OptInternalLayerTripleSubjectIterator :: seek_subject
@ret r
@props A01 A02
@spec requires self.wf() ensures r.wf(), r.all() == self.all(), r.sought(subject, 0)
@@end
@@fn layer/internal/subject_iterator.rs :: impl OptInternalLayerTripleSubjectIterator :: seek_subject_predicate_ref
@props A01 A02
@spec requires old(self).wf() ensures final(self).wf(), final(self).all() == old(self).all(), final(self).sought(subject, predicate)
@@end
@@fn layer/internal/subject_iterator.rs :: impl OptInternalLayerTripleSubjectIterator :: seek_subject_predicate
@ret r
@props A01 A02
@spec requires self.wf() ensures r.wf(), r.all() == self.all(), r.sought(subject, predicate)
@@end
@@fn layer/internal/subject_iterator.rs :: impl OptInternalLayerTripleSubjectIterator :: peek
@ret r
@props A01 A02 A11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).all() == old(self).all(),
        match r { None => old(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && *t == old(self)@[0] },
@@end
@@fn layer/internal/subject_iterator.rs :: impl Iterator for OptInternalLayerTripleSubjectIterator :: next
@ret r
@props A01 A02 A11
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).all() == old(self).all(),
        match r { None => old(self)@.len() == 0 && final(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.drop_first() },
@@end
}
