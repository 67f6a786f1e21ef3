// proved in unit u_names
#[verifier::external_body]
pub fn name_to_string(name: [u32; 5]) -> (r: String) ensures r@ == name_text(name) { unimplemented!() }
#[verifier::external_body]
pub fn string_to_name(string: &str) -> (r: Result<[u32; 5], io::Error>)
    ensures match text_name(string@) { Some(n) => r == Ok::<[u32; 5], io::Error>(n), None => r is Err && err_kind(r->Err_0) != io::ErrorKind::NotFound } { unimplemented!() }
