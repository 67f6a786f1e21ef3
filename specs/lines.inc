// ---- the lines of a text (what str::lines gives: assumed)
/// position of the first line feed, or the length
pub open spec fn eol(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || s[0] == '\n' { 0 } else { 1 + eol(s.subrange(1, s.len() as int)) } }
pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() via lines_ends {
    if s.len() == 0 { seq![] }
    else if eol(s) >= s.len() { seq![s] }
    else { seq![strip_cr(s.subrange(0, eol(s) as int))] + lines(s.subrange(eol(s) as int + 1, s.len() as int)) }
}
#[via_fn]
proof fn lines_ends(s: Seq<char>) { }
#[verifier::external_body]
pub fn __lines<'a>(s: &'a String) -> (r: Vec<&'a str>) ensures r@.len() == lines(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines(s@)[i] { unimplemented!() }
pub proof fn lemma_eol(a: Seq<char>, b: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != '\n'
    ensures eol(a + seq!['\n'] + b) == a.len()
    decreases a.len()
{
    let s = a + seq!['\n'] + b;
    if a.len() > 0 {
        let t = a.subrange(1, a.len() as int);
        assert(s[0] == a[0]);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '\n' by { assert(t[i] == a[i + 1]); }
        lemma_eol(t, b);
        assert(s.subrange(1, s.len() as int) =~= t + seq!['\n'] + b);
    } else { assert(s[0] == '\n'); }
}
