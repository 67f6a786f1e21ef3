@@fn storage/layer.rs :: fn name_to_string
@ret r
@flag fmt
@props A17 A14
@spec
    ensures r@ == name_text(name)
@at start
broadcast use fmt_args;
proof {
    assert forall|x: [FArg; 5]| (forall|i: int| 0 <= i < 5 ==> (#[trigger] x@[i])@ == FA::N(name[i] as nat)) implies fmt("{:08x}{:08x}{:08x}{:08x}{:08x}"@, #[trigger] fargs(x@)) == name_text(name) by {
        lemma_fmt5(fargs(x@));
    }
}
@@end

@@fn storage/layer.rs :: fn string_to_name
@ret r
@flag fmt
@flag str-slice
@subst string . len ( ) => string . as_bytes ( ) . len ( )
@props A17 A14
@spec
    ensures match text_name(string@) { Some(n) => r == Ok::<[u32; 5], io::Error>(n), None => r is Err && err_kind(r->Err_0) != io::ErrorKind::NotFound }
@at start
broadcast use fmt_args;
proof {
    if text_name(string@) is Some {
        assert(is_ascii_chars(string@));
        lemma_ascii(string@);
        assert forall|i: int| 0 <= i < 40 implies hexbyte(#[trigger] encode_utf8(string@)[i]) by { assert(hexchar(string@[i])); }
    }
    if (forall|i: int| 0 <= i < encode_utf8(string@).len() ==> encode_utf8(string@)[i] < 128) { lemma_hexbytes_ascii(string@); lemma_ascii(string@); }
}
@loop c0
invariant
    __c0_b@ == encode_utf8(string@),
    0 <= __c0_i <= __c0_b.len(),
    __c0_acc ==> forall|i: int| 0 <= i < __c0_i ==> hexbyte(#[trigger] __c0_b@[i]),
    !__c0_acc ==> exists|i: int| 0 <= i < __c0_i && !hexbyte(#[trigger] __c0_b@[i]),
ensures
    __c0_acc ==> forall|i: int| 0 <= i < __c0_b.len() ==> hexbyte(#[trigger] __c0_b@[i]),
    !__c0_acc ==> exists|i: int| 0 <= i < __c0_b.len() && !hexbyte(#[trigger] __c0_b@[i]),
decreases __c0_b.len() - __c0_i
@at call from_str_radix
proof {
    let b = encode_utf8(string@);
    assert(forall|i: int| 0 <= i < b.len() ==> hexbyte(#[trigger] b[i]));
    lemma_hexbytes_ascii(string@); lemma_ascii(string@);
    assert forall|i: int| 0 <= i < 40 implies hexchar(#[trigger] string@[i]) by { assert(hexbyte(b[i])); assert(b[i] == string@[i] as u8); assert('\0' <= string@[i] <= '\u{7f}'); }
    lemma_part(string@, 0); lemma_part(string@, 1); lemma_part(string@, 2); lemma_part(string@, 3); lemma_part(string@, 4);
}
@@end

