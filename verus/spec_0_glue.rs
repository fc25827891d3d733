// the conversions `?` makes
impl vx::Conv<crate::error::Error> for crate::vx::io::Error {
    open spec fn conv_ok(self, r: crate::error::Error) -> bool { r.kind == crate::error::ErrorKind::Io }
    fn conv(self) -> (r: crate::error::Error) { let r = crate::error::Error::From__from(self); assert(self.conv_ok(r)); r }
}
impl vx::Conv<crate::error::Error> for crate::error::Error {
    open spec fn conv_ok(self, r: crate::error::Error) -> bool { r == self }
    fn conv(self) -> (r: crate::error::Error) { assert(self.conv_ok(self)); self }
}
// (the function itself is verified as `Error::From__from`, against the same contract)
impl From<crate::vx::io::Error> for crate::error::Error {
    #[verifier::external_body]
    fn from(error: crate::vx::io::Error) -> (r: crate::error::Error) ensures r.kind == crate::error::ErrorKind::Io { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<crate::vx::io::Error> for crate::error::Error {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(e: crate::vx::io::Error) -> crate::error::Error;
}
