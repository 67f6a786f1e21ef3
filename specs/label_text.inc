// ---- the text of a label
pub open spec fn label_text(layer: Option<[u32; 5]>, version: nat) -> Seq<char> {
    digits(version, 10) + seq!['\n'] + (match layer { Some(n) => name_text(n), None => seq![] }) + seq!['\n']
}
/// what a label file's text says
pub open spec fn label_of(s: Seq<char>) -> Option<(Option<[u32; 5]>, nat)> {
    let l = lines(s);
    if l.len() != 2 { None } else {
        match parse(l[0], 10) {
            Some(v) if v <= u64::MAX => if l[1].len() == 0 { Some((None, v)) } else { match text_name(l[1]) { Some(n) => Some((Some(n), v)), None => None } },
            _ => None } }
}
/// bytes as text: what is no UTF-8 becomes replacement characters
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub axiom fn axiom_lossy(b: Seq<u8>) ensures if valid_utf8(b) { lossy(b) == decode_utf8(b) } else { lossy(b).contains('\u{fffd}') };
pub open spec fn file_label(b: Seq<u8>) -> Option<(Option<[u32; 5]>, nat)> { label_of(lossy(b)) }

#[verifier::external_body]
pub fn __lossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }

/// every label reads back from its text
pub proof fn lemma_label_text(layer: Option<[u32; 5]>, version: nat)
    requires version <= u64::MAX
    ensures label_of(label_text(layer, version)) == Some((layer, version)), is_ascii_chars(label_text(layer, version))
{
    let a = digits(version, 10);
    let b = match layer { Some(n) => name_text(n), None => seq![] };
    lemma_digits(version, 10);
    if layer is Some { lemma_name_text(layer->0); }
    assert(plain(b));
    let s = label_text(layer, version);
    let rest = b + seq!['\n'];
    assert(s =~= a + seq!['\n'] + rest);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '\n' by { assert(plainc(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '\n' by { assert(plainc(b[i])); }
    lemma_eol(a, rest);
    lemma_eol(b, Seq::empty());
    assert(rest =~= b + seq!['\n'] + Seq::<char>::empty());
    assert(s.subrange(0, a.len() as int) =~= a);
    assert(plainc(a.last()));
    assert(strip_cr(a) == a);
    assert(s.subrange(a.len() as int + 1, s.len() as int) =~= rest);
    assert(rest.subrange(0, b.len() as int) =~= b);
    assert(strip_cr(b) == b) by { if b.len() > 0 { assert(plainc(b.last())); } }
    assert(rest.subrange(b.len() as int + 1, rest.len() as int) =~= Seq::<char>::empty());
    assert(lines(Seq::<char>::empty()) =~= seq![]);
    assert(lines(rest) =~= seq![b]);
    assert(lines(s) =~= seq![a, b]);
    assert(plainc(a[0]));
    assert(parse(a, 10) == Some(version));
    assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\u{7f}' by {
        if i < a.len() { assert(s[i] == a[i]); assert(plainc(a[i])); } else if i > a.len() && i < a.len() + 1 + b.len() { assert(s[i] == b[i - a.len() - 1]); assert(plainc(b[i - a.len() - 1])); }
    }
}
/// ... and from the bytes of its text
pub proof fn lemma_label_bytes(layer: Option<[u32; 5]>, version: nat)
    requires version <= u64::MAX
    ensures file_label(encode_utf8(label_text(layer, version))) == Some((layer, version))
{
    lemma_label_text(layer, version);
    let s = label_text(layer, version);
    let b = encode_utf8(s);
    encode_utf8_valid_utf8(s);
    encode_utf8_decode_utf8(s);
    axiom_lossy(b);
}
pub proof fn lemma_text_none(v: nat, a: Seq<FA>)
    requires a.len() == 1, a[0] == FA::N(v)
    ensures fmt("{}\n\n"@, a) == label_text(None, v)
{
    reveal_strlit("{}\n\n");
    let rest = seq!['\n', '\n'];
    lemma_fmt_one("{}\n\n"@, rest, a);
    lemma_fmt_lit(rest, a.subrange(1, 1));
    assert(label_text(None, v) =~= digits(v, 10) + rest);
}
pub proof fn lemma_text_some(v: nat, n: [u32; 5], a: Seq<FA>)
    requires a.len() == 2, a[0] == FA::N(v), a[1] == FA::S(name_text(n))
    ensures fmt("{}\n{}\n"@, a) == label_text(Some(n), v)
{
    reveal_strlit("{}\n{}\n");
    let r1 = seq!['\n', '{', '}', '\n'];
    let r2 = seq!['{', '}', '\n'];
    let r3 = seq!['\n'];
    let b = a.subrange(1, 2);
    lemma_fmt_one("{}\n{}\n"@, r1, a);
    assert(r1.subrange(1, 4) =~= r2);
    assert(fmt(r1, b) == seq!['\n'] + fmt(r2, b));
    lemma_fmt_one(r2, r3, b);
    lemma_fmt_lit(r3, b.subrange(1, 1));
    assert(label_text(Some(n), v) =~= digits(v, 10) + (seq!['\n'] + (name_text(n) + r3)));
}
