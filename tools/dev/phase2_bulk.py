T='''@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: %(fn)s
@ret r
@thread w : & mut World ; %(un)s
@props A03 A04
@spec
    requires old(self).ready(old(w).disk()), parent_ok(old(self).parent()), asc_nz(triples@), forall|i: int| 0 <= i < triples@.len() ==> old(self).next_ok(#[trigger] triples@[i], old(w).disk()) && (nonzero(triples@[i]) ==> tlt(old(self).%(b)s().last(), triples@[i]))
    ensures final(self).same(old(self)), final(self).%(o)s() == old(self).%(o)s(),
        match r { Ok(_) => final(self).ready(final(w).disk()) && final(self).c(final(w).disk()) == (Content { %(b)s: final(self).%(b)s().said(), ..old(self).c(old(w).disk()) }) && (forall|t: IdTriple| #[trigger] final(self).%(b)s().said().contains(t) <==> old(self).%(b)s().said().contains(t) || (triples@.contains(t) && nonzero(t) && %(neg)shas_t(old(self).parent(), t))), Err(_) => final(w).fault() }
@at start
let ghost w0 = *w; let ghost b0 = *self; let ghost ts = triples@; let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| child_parts(f, g);
proof { assert(child_parts(f, g)); }
let ghost mut pos: Seq<int> = seq![]; let ghost mut k: int = 0; let ghost mut n: int = 0;
@loop c0
invariant
    0 <= k <= ts.len(), __c0_i.left() == ts.skip(k), pos.len() == __c0_acc@.len(), *parent == b0.parent(), b0.parent().triples_wf(),
    forall|i: int| 0 <= i < pos.len() ==> 0 <= #[trigger] pos[i] < k && __c0_acc@[i] == ts[pos[i]] && %(neg)shas_t(b0.parent(), ts[pos[i]]),
    forall|i: int, j: int| 0 <= i < j < pos.len() ==> pos[i] < pos[j],
    forall|m: int| 0 <= m < k && %(neg)shas_t(b0.parent(), #[trigger] ts[m]) ==> pos.contains(m),
ensures k == ts.len()
decreases ts.len() - k
@at loopstart c0
proof { k = k + 1; n = __c0_acc@.len() as int; }
@at loopend c0
proof { let p0 = pos; if __c0_acc@.len() > n { pos = pos.push(k - 1); assert(pos[pos.len() - 1] == k - 1); assert forall|m: int| p0.contains(m) implies #[trigger] pos.contains(m) by { let i = choose|i: int| 0 <= i < p0.len() && p0[i] == m; assert(pos[i] == m); } } }
@at let filtered
let ghost fs = filtered@; let ghost mut q: int = 0;
proof {
    assert forall|i: int, j: int| 0 <= i < j < fs.len() && nonzero(#[trigger] fs[i]) && nonzero(#[trigger] fs[j]) implies tlt(fs[i], fs[j]) by { assert(ts[pos[i]] == fs[i] && ts[pos[j]] == fs[j]); }
    assert forall|i: int| 0 <= i < fs.len() implies b0.next_ok(#[trigger] fs[i], w0.disk()) && (nonzero(fs[i]) ==> tlt(b0.%(b)s().last(), fs[i])) && %(neg)shas_t(b0.parent(), fs[i]) && ts.contains(fs[i]) by { assert(ts[pos[i]] == fs[i]); }
    assert forall|t: IdTriple| ts.contains(t) && %(neg)shas_t(b0.parent(), t) implies #[trigger] fs.contains(t) by { let m = choose|m: int| 0 <= m < ts.len() && ts[m] == t; assert(pos.contains(m)); let i = choose|i: int| 0 <= i < pos.len() && pos[i] == m; assert(fs[i] == t); }
}
let ghost al: spec_fn(IdTriple) -> bool = |t: IdTriple| ts.contains(t) && %(neg)shas_t(b0.parent(), t); proof { assert(forall|t: IdTriple| #[trigger] fs.contains(t) <==> al(t)); }
@loop 0
invariant
    self.same(&b0), self.%(o)s() == b0.%(o)s(), b0 == *old(self), w0 == *old(w), changed(w0, *w, |l: Loc| b0.%(b)s().at(l)), self.%(b)s().wf(), 0 <= q <= fs.len(), __f0.left() == fs.skip(q), asc_nz(fs), fs == filtered@,
    b0.ready(w0.disk()), forall|i: int| 0 <= i < fs.len() ==> b0.next_ok(#[trigger] fs[i], w0.disk()),
    forall|i: int| q <= i < fs.len() && nonzero(#[trigger] fs[i]) ==> tlt(self.%(b)s().last(), fs[i]),
    forall|t: IdTriple| #[trigger] fs.contains(t) <==> al(t),
    forall|t: IdTriple| #[trigger] self.%(b)s().said().contains(t) <==> b0.%(b)s().said().contains(t) || (fs.take(q).contains(t) && nonzero(t)),
ensures q == fs.len()
decreases fs.len() - q
@at loopstart 0
let ghost s1 = self.%(b)s().said(); proof { assert(triple == fs[q]); assert(b0.next_ok(fs[q], w0.disk())); width_fits(b0.nv(w0.disk()), triple.object); width_fits(b0.np(w0.disk()), triple.predicate); q = q + 1; }
@at loopend 0
proof { assert forall|t: IdTriple| #[trigger] fs.take(q).contains(t) <==> fs.take(q - 1).contains(t) || t == fs[q - 1] by { if fs.take(q - 1).contains(t) { let i = choose|i: int| 0 <= i < q - 1 && #[trigger] fs.take(q - 1)[i] == t; assert(fs.take(q)[i] == t); } assert(fs.take(q)[q - 1] == fs[q - 1]); } }
@at tail
proof { assert(fs.take(q) =~= fs); assert(changed(w0, *w, |l: Loc| b0.%(b)s().at(l))); }
@@end
'''
import sys
p='/tmp/ws/phase2_child.inc'; s=open(p).read()
i=s.index("@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: finalize")
j=s.find("@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: add_id_triples")
if j>=0: s=s[:j]+s[i:]; i=j
s=s[:i]+T%dict(fn='add_id_triples',un='add_triple_unchecked',b='pos',o='neg',neg='!')+T%dict(fn='remove_id_triples',un='remove_triple_unchecked',b='neg',o='pos',neg='')+s[i:]
open(p,'w').write(s)
