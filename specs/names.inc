/// the text of a name
pub open spec fn name_text(n: [u32; 5]) -> Seq<char> {
    hexw(n[0] as nat, 8) + hexw(n[1] as nat, 8) + hexw(n[2] as nat, 8) + hexw(n[3] as nat, 8) + hexw(n[4] as nat, 8)
}
pub open spec fn hexchar(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
/// what a text of 40 hexadecimal digits denotes
pub open spec fn text_name(s: Seq<char>) -> Option<[u32; 5]> {
    if s.len() == 40 && forall|i: int| 0 <= i < 40 ==> hexchar(#[trigger] s[i]) { Some([part(s, 0), part(s, 1), part(s, 2), part(s, 3), part(s, 4)]) } else { None }
}
pub open spec fn part(s: Seq<char>, k: int) -> u32 { val(s.subrange(8 * k, 8 * k + 8), 16) as u32 }

pub proof fn lemma_val_bound(s: Seq<char>)
    requires all_digits(s, 16)
    ensures val(s, 16) < pow16(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(all_digits(t, 16)) by { assert forall|i: int| 0 <= i < t.len() implies dv(#[trigger] t[i]) < 16 by { assert(t[i] == s[i]); } }
        lemma_val_bound(t);
        assert(dv(s.last()) < 16);
    }
}
pub proof fn lemma_pow16_8() ensures pow16(8) == 0x1_0000_0000 { assert(pow16(8) == 0x1_0000_0000) by (compute); }
pub proof fn lemma_part(s: Seq<char>, k: int)
    requires s.len() == 40, 0 <= k < 5, forall|i: int| 0 <= i < 40 ==> hexchar(#[trigger] s[i]),
    ensures parse(s.subrange(8 * k, 8 * k + 8), 16) == Some(part(s, k) as nat), val(s.subrange(8 * k, 8 * k + 8), 16) <= u32::MAX,
{
    let t = s.subrange(8 * k, 8 * k + 8);
    assert forall|i: int| 0 <= i < t.len() implies dv(#[trigger] t[i]) < 16 && t[i] != '+' by { assert(t[i] == s[8 * k + i]); }
    lemma_val_bound(t);
    lemma_pow16_8();
    assert(t[0] != '+');
}
pub proof fn lemma_name_text(n: [u32; 5])
    ensures name_text(n).len() == 40, plain(name_text(n)), text_name(name_text(n)) == Some(n)
{
    lemma_pow16_8();
    lemma_hexw(n[0] as nat, 8); lemma_hexw(n[1] as nat, 8); lemma_hexw(n[2] as nat, 8); lemma_hexw(n[3] as nat, 8); lemma_hexw(n[4] as nat, 8);
    let s = name_text(n);
    assert(s.subrange(0, 8) =~= hexw(n[0] as nat, 8));
    assert(s.subrange(8, 16) =~= hexw(n[1] as nat, 8));
    assert(s.subrange(16, 24) =~= hexw(n[2] as nat, 8));
    assert(s.subrange(24, 32) =~= hexw(n[3] as nat, 8));
    assert(s.subrange(32, 40) =~= hexw(n[4] as nat, 8));
    assert forall|i: int| 0 <= i < 40 implies plainc(#[trigger] s[i]) by {
        if i < 8 { assert(s[i] == hexw(n[0] as nat, 8)[i]); } else if i < 16 { assert(s[i] == hexw(n[1] as nat, 8)[i - 8]); }
        else if i < 24 { assert(s[i] == hexw(n[2] as nat, 8)[i - 16]); } else if i < 32 { assert(s[i] == hexw(n[3] as nat, 8)[i - 24]); }
        else { assert(s[i] == hexw(n[4] as nat, 8)[i - 32]); }
    }
    let b = [part(s, 0), part(s, 1), part(s, 2), part(s, 3), part(s, 4)];
    assert(b@ =~= n@);
    assert(b == n);
}
/// different names have different texts
pub proof fn lemma_name_text_injective(a: [u32; 5], b: [u32; 5]) requires name_text(a) == name_text(b) ensures a == b { lemma_name_text(a); lemma_name_text(b); }

pub proof fn lemma_fmt5(a: Seq<FA>)
    requires a.len() == 5
    ensures fmt("{:08x}{:08x}{:08x}{:08x}{:08x}"@, a) == hex8(a[0]) + hex8(a[1]) + hex8(a[2]) + hex8(a[3]) + hex8(a[4])
{
    reveal_strlit("{:08x}{:08x}{:08x}{:08x}{:08x}");
    let t = "{:08x}{:08x}{:08x}{:08x}{:08x}"@;
    lemma_fmt_hex(t, a, 5);
    let t1 = t.subrange(6, 30); let a1 = a.subrange(1, 5);
    lemma_fmt_hex(t1, a1, 4);
    let t2 = t1.subrange(6, 24); let a2 = a1.subrange(1, 4);
    lemma_fmt_hex(t2, a2, 3);
    let t3 = t2.subrange(6, 18); let a3 = a2.subrange(1, 3);
    lemma_fmt_hex(t3, a3, 2);
    let t4 = t3.subrange(6, 12); let a4 = a3.subrange(1, 2);
    lemma_fmt_hex(t4, a4, 1);
    let t5 = t4.subrange(6, 6);
    assert(fmt(t5, a4.subrange(1, 1)) =~= seq![]);
    assert(fmt(t, a) =~= hex8(a[0]) + hex8(a[1]) + hex8(a[2]) + hex8(a[3]) + hex8(a[4]));
}
pub proof fn lemma_fmt_hex(t: Seq<char>, a: Seq<FA>, n: nat)
    requires t.len() >= 6, t[0] == '{', t[1] == ':', t[2] == '0', t[3] == '8', t[4] == 'x', t[5] == '}', a.len() >= 1
    ensures fmt(t, a) == hex8(a[0]) + fmt(t.subrange(6, t.len() as int), a.subrange(1, a.len() as int))
{ }

