// ---- text: digits, format!, parsing, UTF-8. Assumed: what format!, from_str_radix and str slicing do (stated below).
pub enum FA { S(Seq<char>), N(nat) }

pub open spec fn dig(d: nat) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' }
    else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else if d == 9 { '9' } else if d == 10 { 'a' } else if d == 11 { 'b' }
    else if d == 12 { 'c' } else if d == 13 { 'd' } else if d == 14 { 'e' } else { 'f' }
}
/// value of a digit, 99 for anything that is none
pub open spec fn dv(c: char) -> nat {
    if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 } else if c == '5' { 5 }
    else if c == '6' { 6 } else if c == '7' { 7 } else if c == '8' { 8 } else if c == '9' { 9 }
    else if c == 'a' || c == 'A' { 10 } else if c == 'b' || c == 'B' { 11 } else if c == 'c' || c == 'C' { 12 }
    else if c == 'd' || c == 'D' { 13 } else if c == 'e' || c == 'E' { 14 } else if c == 'f' || c == 'F' { 15 } else { 99 }
}
pub open spec fn digits(n: nat, r: nat) -> Seq<char> decreases n via digits_ends {
    if r < 2 || n < r { seq![dig(n)] } else { digits(n / r, r).push(dig(n % r)) }
}
#[via_fn]
proof fn digits_ends(n: nat, r: nat) { if !(r < 2 || n < r) { assert(n / r < n) by (nonlinear_arith) requires n >= r, r >= 2; } }
pub open spec fn hexw(n: nat, w: nat) -> Seq<char> decreases w {
    if w == 0 { seq![] } else { hexw(n / 16, (w - 1) as nat).push(dig(n % 16)) }
}
pub open spec fn all_digits(s: Seq<char>, r: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> dv(#[trigger] s[i]) < r }
pub open spec fn val(s: Seq<char>, r: nat) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { val(s.drop_last(), r) * r + dv(s.last()) }
}
/// what from_str_radix accepts: an optional plus sign and at least one digit
pub open spec fn parse(s: Seq<char>, r: nat) -> Option<nat> {
    let d = if s.len() > 1 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    if d.len() == 0 || !all_digits(d, r) { None } else { Some(val(d, r)) }
}
pub open spec fn pow16(w: nat) -> nat decreases w { if w == 0 { 1 } else { 16 * pow16((w - 1) as nat) } }

pub open spec fn disp(a: FA) -> Seq<char> { match a { FA::S(s) => s, FA::N(n) => digits(n, 10) } }
pub open spec fn hex8(a: FA) -> Seq<char> { match a { FA::S(_) => arbitrary(), FA::N(n) => if n < 0x1_0000_0000 { hexw(n, 8) } else { digits(n, 16) } } }
/// the text format! produces; templates with other placeholders are not described
pub open spec fn fmt(t: Seq<char>, a: Seq<FA>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { seq![] }
    else if t[0] == '{' {
        if a.len() == 0 { arbitrary() }
        else if t.len() >= 2 && t[1] == '}' { disp(a[0]) + fmt(t.subrange(2, t.len() as int), a.subrange(1, a.len() as int)) }
        else if t.len() >= 6 && t[1] == ':' && t[2] == '0' && t[3] == '8' && t[4] == 'x' && t[5] == '}' { hex8(a[0]) + fmt(t.subrange(6, t.len() as int), a.subrange(1, a.len() as int)) }
        else { arbitrary() }
    }
    else if t[0] == '}' { arbitrary() }
    else { seq![t[0]] + fmt(t.subrange(1, t.len() as int), a) }
}
pub uninterp spec fn farg<T>(x: T) -> FA;
pub broadcast axiom fn farg_u32(x: u32) ensures #[trigger] farg::<u32>(x) == FA::N(x as nat);
pub broadcast axiom fn farg_i32(x: i32) requires x >= 0 ensures #[trigger] farg::<i32>(x) == FA::N(x as nat);
pub broadcast axiom fn farg_u64(x: u64) ensures #[trigger] farg::<u64>(x) == FA::N(x as nat);
pub broadcast axiom fn farg_usize(x: usize) ensures #[trigger] farg::<usize>(x) == FA::N(x as nat);
pub broadcast axiom fn farg_string(x: String) ensures #[trigger] farg::<String>(x) == FA::S(x@);
pub broadcast axiom fn farg_str(x: &str) ensures #[trigger] farg::<&str>(x) == FA::S(x@);
pub broadcast group fmt_args { farg_u32, farg_i32, farg_u64, farg_usize, farg_string, farg_str }
#[verifier::external_body]
pub fn __a<T>(x: &T) -> (r: FArg) ensures r@ == farg::<T>(*x) { unimplemented!() }
#[verifier::external_body]
pub struct FArg { }
impl View for FArg { type V = FA; uninterp spec fn view(&self) -> FA; }
pub open spec fn fargs(a: Seq<FArg>) -> Seq<FA> { a.map_values(|x: FArg| x@) }
#[verifier::external_body]
pub fn __fmt<const N: usize>(t: &str, a: [FArg; N]) -> (r: String) ensures r@ == fmt(t@, fargs(a@)) { unimplemented!() }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);
pub assume_specification [u32::from_str_radix](s: &str, r: u32) -> (x: Result<u32, core::num::ParseIntError>)
    requires 2 <= r <= 16,
    ensures match parse(s@, r as nat) { Some(v) if v <= u32::MAX => x == Ok::<u32, core::num::ParseIntError>(v as u32), _ => x is Err };
pub assume_specification [u64::from_str_radix](s: &str, r: u32) -> (x: Result<u64, core::num::ParseIntError>)
    requires 2 <= r <= 16,
    ensures match parse(s@, r as nat) { Some(v) if v <= u64::MAX => x == Ok::<u64, core::num::ParseIntError>(v as u64), _ => x is Err };
pub assume_specification [u8::is_ascii_hexdigit](b: &u8) -> (r: bool)
    ensures r == (48 <= *b <= 57 || 65 <= *b <= 70 || 97 <= *b <= 102);
pub open spec fn hexbyte(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 70 || 97 <= b <= 102 }
/// slicing a text by byte offsets panics unless they are character boundaries
#[verifier::external_body]
pub fn __sub(s: &str, lo: usize, hi: usize) -> (r: &str)
    requires is_ascii_chars(s@), lo <= hi <= s@.len(),
    ensures r@ == s@.subrange(lo as int, hi as int) { unimplemented!() }

// ---- lemmas about text (proved)
pub proof fn lemma_dig(d: nat) requires d < 16 ensures dv(dig(d)) == d, dig(d) != '+', dig(d) != '\n', dig(d) != '\r', ('0' <= dig(d) <= '9' || 'a' <= dig(d) <= 'f') { }
pub proof fn lemma_hexw(n: nat, w: nat)
    requires n < pow16(w)
    ensures hexw(n, w).len() == w, all_digits(hexw(n, w), 16), val(hexw(n, w), 16) == n,
        forall|i: int| 0 <= i < w ==> ('0' <= #[trigger] hexw(n, w)[i] <= '9' || 'a' <= hexw(n, w)[i] <= 'f'),
    decreases w
{
    if w > 0 {
        let m = (w - 1) as nat;
        assert(n / 16 < pow16(m)) by (nonlinear_arith) requires n < 16 * pow16(m);
        lemma_hexw(n / 16, m);
        lemma_dig(n % 16);
        let h = hexw(n / 16, m);
        assert(hexw(n, w).drop_last() =~= h);
        assert(n == (n / 16) * 16 + n % 16);
        assert forall|i: int| 0 <= i < w implies dv(#[trigger] hexw(n, w)[i]) < 16 && ('0' <= hexw(n, w)[i] <= '9' || 'a' <= hexw(n, w)[i] <= 'f') by {
            if i < m { assert(hexw(n, w)[i] == h[i]); } else { assert(hexw(n, w)[i] == dig(n % 16)); }
        }
    }
}
pub proof fn lemma_digits(n: nat, r: nat)
    requires 2 <= r <= 16
    ensures digits(n, r).len() >= 1, all_digits(digits(n, r), r), val(digits(n, r), r) == n, plain(digits(n, r)),
    decreases n
{
    if n < r {
        lemma_dig(n);
        assert(digits(n, r) =~= seq![dig(n)]);
        assert(seq![dig(n)].drop_last() =~= Seq::<char>::empty());
        assert(val(seq![dig(n)], r) == val(Seq::<char>::empty(), r) * r + dv(dig(n)));
        assert(val(Seq::<char>::empty(), r) * r == 0) by (nonlinear_arith) requires val(Seq::<char>::empty(), r) == 0;
    } else {
        assert(n / r < n) by (nonlinear_arith) requires n >= r, r >= 2;
        lemma_digits(n / r, r);
        assert(n % r < r) by (nonlinear_arith) requires r >= 2;
        lemma_dig(n % r);
        let h = digits(n / r, r);
        assert(digits(n, r).drop_last() =~= h);
        assert(n == (n / r) * r + n % r) by (nonlinear_arith) requires r >= 2;
        assert forall|i: int| 0 <= i < digits(n, r).len() implies dv(#[trigger] digits(n, r)[i]) < r && plainc(digits(n, r)[i]) by {
            if i < h.len() { assert(digits(n, r)[i] == h[i]); }
        }
    }
}
/// a template without placeholders stands for itself
pub proof fn lemma_fmt_lit(t: Seq<char>, a: Seq<FA>)
    requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '{' && t[i] != '}'
    ensures fmt(t, a) == t
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.subrange(1, t.len() as int);
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != '{' && u[i] != '}' by { assert(u[i] == t[i + 1]); }
        lemma_fmt_lit(u, a);
        assert(fmt(t, a) =~= t);
    } else { assert(t =~= seq![]); }
}
pub proof fn lemma_fmt_one(t: Seq<char>, rest: Seq<char>, a: Seq<FA>)
    requires t =~= seq!['{', '}'] + rest, a.len() >= 1
    ensures fmt(t, a) == disp(a[0]) + fmt(rest, a.subrange(1, a.len() as int))
{ assert(t.subrange(2, t.len() as int) =~= rest); }
pub open spec fn plainc(c: char) -> bool { c != '+' && c != '\n' && c != '\r' && ('0' <= c <= '9' || 'a' <= c <= 'f') }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plainc(#[trigger] s[i]) }
pub proof fn lemma_hexbytes_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < encode_utf8(s).len() ==> encode_utf8(s)[i] < 128
    ensures is_ascii_chars(s)
    decreases s.len()
{
    if s.len() > 0 {
        reveal(encode_utf8);
        let t = s.drop_first();
        assert(encode_utf8(s) =~= encode_scalar(s[0] as u32) + encode_utf8(t));
        assert forall|i: int| 0 <= i < encode_utf8(t).len() implies encode_utf8(t)[i] < 128 by { assert(encode_utf8(s)[i + encode_scalar(s[0] as u32).len()] == encode_utf8(t)[i]); }
        lemma_hexbytes_ascii(t);
        assert(encode_utf8(s)[0] == encode_scalar(s[0] as u32)[0]);
        assert(forall|x: u8| #[trigger] (0xC0u8 | x) >= 128) by (bit_vector);
        assert(forall|x: u8| #[trigger] (0xE0u8 | x) >= 128) by (bit_vector);
        assert(forall|x: u8| #[trigger] (0xF0u8 | x) >= 128) by (bit_vector);
        let z = s[0] as u32;
        if z >= 0x800 && z < 0x10000 { assert(encode_scalar(z)[0] >= 128); } else if z >= 0x10000 { assert(encode_scalar(z)[0] >= 128); } else if z >= 128 { assert(encode_scalar(z)[0] >= 128); }
        assert(z < 128);
        assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\u{7f}' by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}
/// on ASCII text bytes and characters coincide
pub proof fn lemma_ascii(s: Seq<char>)
    requires is_ascii_chars(s)
    ensures encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] encode_utf8(s)[i] == s[i] as u8
{ is_ascii_chars_encode_utf8(s); }

// ---- io::Error
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
pub struct ExIoErrorKind(std::io::ErrorKind);
pub uninterp spec fn err_kind(e: std::io::Error) -> std::io::ErrorKind;
pub assume_specification [std::io::Error::kind](e: &std::io::Error) -> (r: std::io::ErrorKind) ensures r == err_kind(*e);
#[verifier::external_body]
pub fn __io_error<E>(k: std::io::ErrorKind, e: E) -> (r: std::io::Error) ensures err_kind(r) == k { unimplemented!() }
#[verifier::external_body]
pub fn __format() -> (r: String) { unimplemented!() }
pub assume_specification [String::into_bytes](s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@);
