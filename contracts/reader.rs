// ---- readers: what std::io::Read and BufReader deliver (assumed)
pub trait VRead: Sized {
    /// the text of all bytes the reader delivers, however they are chunked;
    /// none if reading fails or the bytes are not UTF-8
    spec fn rd(&self) -> Option<Str>;
    fn v_read_to_string(&mut self, b: &mut String) -> (r: core::result::Result<usize, VIoError>)
        ensures match r { Ok(_) => old(self).rd() is Some && final(b)@ == old(b)@ + old(self).rd()->Some_0, Err(_) => old(self).rd() is None };
}
#[verifier::external_body] #[verifier::reject_recursive_types(R)] pub struct BufReader<R> { x: R }
impl<R: VRead> BufReader<R> {
    #[verifier::external_body] pub fn new(r: R) -> (b: BufReader<R>) ensures b.rd() == r.rd() { unimplemented!() }
}
impl<R: VRead> VRead for BufReader<R> {
    uninterp spec fn rd(&self) -> Option<Str>;
    #[verifier::external_body] fn v_read_to_string(&mut self, b: &mut String) -> (r: core::result::Result<usize, VIoError>) { unimplemented!() }
}
/// what parse_dockerfile returns for a text (assumed: it is a function of the text)
pub uninterp spec fn pr(t: Str) -> core::result::Result<Dockerfile, Error>;
