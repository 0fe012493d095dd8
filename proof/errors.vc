#file scutiger-core/src/errors.rs errors
#derive ExitStatus Clone Copy
#derive ErrorKind Clone Copy
#drop Error@Error : std::error::Error marker impl
#drop PartialEq@Error : only used by the tests
#text
use core::convert;
/// the text of an error message is left open
impl XDisplay for Error {
    uninterp spec fn dv(&self) -> Seq<u8>;
    uninterp spec fn nv(&self) -> int;
    #[verifier::external_body] fn xdisplay(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xdisplay03(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xhex4(&self) -> (r: Vec<u8>) { unimplemented!() }
}
#[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl XDisplay for BoxErr {
    uninterp spec fn dv(&self) -> Seq<u8>;
    uninterp spec fn nv(&self) -> int;
    #[verifier::external_body] fn xdisplay(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xdisplay03(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xhex4(&self) -> (r: Vec<u8>) { unimplemented!() }
}
/// The boxed cause of an error: an I/O error, or anything else.
pub enum BoxErr { Io(io::Error), Other }
pub trait XDown: Sized { spec fn down(b: &BoxErr) -> Option<Self>; }
impl XDown for io::Error { open spec fn down(b: &BoxErr) -> Option<Self> { match *b { BoxErr::Io(e) => Some(e), BoxErr::Other => None } } }
impl BoxErr {
    #[verifier::external_body]
    pub fn xdowncast_ref<T: XDown>(&self) -> (r: Option<&T>) ensures r.is_some() == T::down(self).is_some(), r.is_some() ==> *r.unwrap() == T::down(self).unwrap() { unimplemented!() }
}
impl XInto<BoxErr> for io::Error {
    open spec fn iv(self) -> BoxErr { BoxErr::Io(self) }
    open spec fn iok(self, r: BoxErr) -> bool { r == BoxErr::Io(self) }
    fn xinto(self) -> (r: BoxErr) { BoxErr::Io(self) }
}
impl XInto<BoxErr> for Error {
    open spec fn iv(self) -> BoxErr { BoxErr::Other }
    open spec fn iok(self, r: BoxErr) -> bool { r == BoxErr::Other }
    fn xinto(self) -> (r: BoxErr) { BoxErr::Other }
}
impl XInto<Error> for io::Error {
    open spec fn iv(self) -> Error { io_err(self) }
    open spec fn iok(self, r: Error) -> bool { r == io_err(self) }
    fn xinto(self) -> (r: Error) { Error::from(self) }
}
impl XInto<io::Error> for Error {
    open spec fn iv(self) -> io::Error { io::Error { k: self.iok_kind() } }
    open spec fn iok(self, r: io::Error) -> bool { r.k == self.iok_kind() }
    fn xinto(self) -> (r: io::Error) { io::Error::from(self) }
}
impl XInto<BoxErr> for git2::Error {
    open spec fn iv(self) -> BoxErr { BoxErr::Other }
    open spec fn iok(self, r: BoxErr) -> bool { r == BoxErr::Other }
    fn xinto(self) -> (r: BoxErr) { BoxErr::Other }
}
impl XInto<Error> for git2::Error {
    open spec fn iv(self) -> Error { git_err(self) }
    open spec fn iok(self, r: Error) -> bool { r == git_err(self) }
    fn xinto(self) -> (r: Error) { Error::from(self) }
}
impl XInto<BoxErr> for pcre2::Error {
    open spec fn iv(self) -> BoxErr { BoxErr::Other }
    open spec fn iok(self, r: BoxErr) -> bool { r == BoxErr::Other }
    fn xinto(self) -> (r: BoxErr) { BoxErr::Other }
}
impl XInto<Error> for pcre2::Error {
    open spec fn iv(self) -> Error { pcre_err(self) }
    open spec fn iok(self, r: Error) -> bool { r == pcre_err(self) }
    fn xinto(self) -> (r: Error) { Error::from(self) }
}
/// the kind of a failure reported by git
pub open spec fn git_kind(c: git2::ErrorCode) -> ErrorKind { match c { git2::ErrorCode::NotFound => ErrorKind::NoSuchRevision, git2::ErrorCode::Conflict => ErrorKind::Conflict, _ => ErrorKind::GitError } }
pub open spec fn git_err(e: git2::Error) -> Error { Error { kind: git_kind(e.c), internal: Some(BoxErr::Other), message: None } }
impl vstd::std_specs::convert::FromSpecImpl<git2::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: git2::Error) -> Error { git_err(e) }
}
impl XFrom<git2::Error> for Error { open spec fn fv(t: git2::Error) -> Self { git_err(t) } fn xxfrom(t: git2::Error) -> (r: Self) { Error::from(t) } }
pub open spec fn pcre_err(e: pcre2::Error) -> Error { Error { kind: ErrorKind::PCREError, internal: Some(BoxErr::Other), message: None } }
impl vstd::std_specs::convert::FromSpecImpl<pcre2::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: pcre2::Error) -> Error { pcre_err(e) }
}
impl XFrom<pcre2::Error> for Error { open spec fn fv(t: pcre2::Error) -> Self { pcre_err(t) } fn xxfrom(t: pcre2::Error) -> (r: Self) { Error::from(t) } }
impl XFrom<io::Error> for Error { open spec fn fv(t: io::Error) -> Self { io_err(t) } fn xxfrom(t: io::Error) -> (r: Self) { Error::from(t) } }
pub open spec fn io_err(e: io::Error) -> Error { Error { kind: ErrorKind::IOError, internal: Some(BoxErr::Io(e)), message: None } }
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> Error { io_err(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<Error> for io::Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Error) -> io::Error { io::Error { k: e.iok_kind() } }
}
impl Error {
    /// the kind reported by io_kind
    pub open spec fn iok_kind(&self) -> io::ErrorKind {
        match self.internal { Some(BoxErr::Io(e)) => e.k, _ => io::ErrorKind::InvalidData }
    }
}
impl PartialEq for ErrorKind { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
}
impl PartialEq for ExitStatus { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ExitStatus {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ExitStatus) -> bool { *self == *o }
}
/// exit status of a failure (C19)
pub open spec fn exit_of(k: ErrorKind) -> int {
    if k == ErrorKind::NoSuchRevision || k == ErrorKind::Conflict { 1 } else { 2 }
}
pub open spec fn st_code(s: ExitStatus) -> int { s.disc() }
#end
#fn Display@Error::fmt
:props C19 C06
:ens final(f).refuses() == old(f).refuses()
:ens match r { Ok(_) => final(f).out().len() > old(f).out().len() && final(f).out().take(old(f).out().len() as int) =~= old(f).out(), Err(_) => old(f).refuses() }
#fn Error::new
:sig fn new<E: XInto<BoxErr>>(kind: ErrorKind, error: Option<E>) -> (r: Self)
:opt error
:props C06 C19
:ens r.kind == kind
:ens r.message.is_none()
:ens match error { Some(e) => r.internal.is_some() && e.iok(r.internal.unwrap()), None => r.internal.is_none() }
#fn Error::new_simple
:props C06 C19
:ens r.kind == kind && r.internal.is_none() && r.message.is_none()
#fn Error::from_message
:sig fn from_message<M: XInto<Vec<u8>>>(kind: ErrorKind, msg: M) -> (r: Self)
:props C06 C19
:ens r.kind == kind && r.internal.is_none()
#fn Error::kind
:props C06 C19
:ens r == self.kind
#fn Error::io_kind
:props C06 C09
:ens r == self.iok_kind()
#fn Error::fatal
:ens [C19] r == (exit_of(self.kind) == 2)
#fn Error::exit_status
:ens [C19] st_code(r) == exit_of(self.kind)
#fn From<Error>@Error::from
:props C06
#fn From<io::Error>@Error::from
:props C06 C19
#fn From<git2::Error>@Error::from
:props C19
#fn From<pcre2::Error>@Error::from
:props C19
