#file scutiger-bin/src/bin/pager/mod.rs pager
#ftype Box<io::Write+'a> => OutBox<'a>
#ftype Box<io::Write> => OutBox<'_>
#text
use crate::errors::*;
use crate::errors::Error;
use crate::prelude::git2::*;
use crate::prelude::process::*;
use crate::prelude::process;
use crate::prelude::env::var_of;
use crate::prelude::io::Write as _;
broadcast use crate::ax::from;
/// where the listing goes: `Box<dyn Write>` of one of these
pub enum OutBox<'a> { Pipe(&'a mut ChildStdin), Std(io::StdStream) }
pub trait XBox<'a>: Sized {
    #[verifier::prophetic] spec fn boxed(self, r: OutBox<'a>) -> bool;
    fn xbox(self) -> (r: OutBox<'a>) ensures self.boxed(r);
}
impl<'a> XBox<'a> for &'a mut ChildStdin {
    #[verifier::prophetic] open spec fn boxed(self, r: OutBox<'a>) -> bool { match r { OutBox::Pipe(p) => *p == *self && *final(p) == *final(self), OutBox::Std(_) => false } }
    fn xbox(self) -> (r: OutBox<'a>) { OutBox::Pipe(self) }
}
impl<'a> XBox<'a> for io::StdStream {
    #[verifier::prophetic] open spec fn boxed(self, r: OutBox<'a>) -> bool { r == OutBox::<'a>::Std(self) }
    fn xbox(self) -> (r: OutBox<'a>) { OutBox::Std(self) }
}
impl<'a> io::Write for OutBox<'a> {
    type WG = Option<ChildStdin>;
    #[verifier::prophetic] open spec fn wident(&self) -> Option<ChildStdin> { match self { OutBox::Pipe(p) => Some(*final(*p)), OutBox::Std(_) => None } }
    open spec fn out(&self) -> Seq<u8> { match self { OutBox::Pipe(p) => (**p).data@, OutBox::Std(s) => s.data@ } }
    open spec fn flushed(&self) -> bool { match self { OutBox::Pipe(p) => (**p).fl@, OutBox::Std(s) => s.fl@ } }
    open spec fn framed(&self) -> bool { false }
    open spec fn wfailed(&self) -> bool { match self { OutBox::Pipe(p) => (**p).bad@, OutBox::Std(s) => s.bad@ } }
    open spec fn winv(&self) -> bool { match self { OutBox::Pipe(_) => true, OutBox::Std(s) => s.winv() } }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
}
/// the first of the settings that is there
pub open spec fn first_of(a: Option<Seq<u8>>, b: Option<Seq<u8>>) -> Option<Seq<u8>> { match a { Some(x) => Some(x), None => b } }
/// the pager asked for: GIT_PAGER, core.pager, PAGER, or less
pub open spec fn pager_asked(r: Repository) -> Seq<u8> {
    match first_of(first_of(var_of(b"GIT_PAGER"), conf_path(r, b"core.pager")), var_of(b"PAGER")) { Some(x) => x, None => b"less" }
}
/// the pager to use: none if standard output is not a terminal or no pager is asked for
pub open spec fn pager_for(r: Repository) -> Option<Seq<u8>> { if !libc::tty(1) || pager_asked(r).len() == 0 || pager_asked(r) =~= b"cat" { None } else { Some(pager_asked(r)) } }
#end
#fn Pager::find_pager
:props C24
:ens match r { Some(p) => pager_for(*repo) == Some(p@), None => pager_for(*repo).is_none() }
#fn Pager::new
:props C24
:ens match r { Ok(p) => match pager_for(*repo) { Some(x) => p.process matches Some(c) && c.argv@ =~= seq![b"sh"].push(b"-c").push(x) && (c.stdin matches Some(i) && i.data@ =~= Seq::<u8>::empty()) && !c.ended@, None => p.process.is_none() }, Err(_) => !startable(b"sh") }
#fn Pager::stdout
:props C24
:ens match old(self).process { Some(c) => match c.stdin { Some(i) => match r { OutBox::Pipe(p) => *p == i && *final(self) == (Pager { process: Some(Child { stdin: Some(*final(p)), ..c }) }), OutBox::Std(_) => false }, None => true }, None => final(self).process.is_none() && (match r { OutBox::Std(s) => s.fd@ == 1 && s.winv() && s.data@ =~= Seq::<u8>::empty(), OutBox::Pipe(_) => false }) }
#fn Pager::wait
:props C24
:ens match old(self).process { Some(c) => final(self).process matches Some(d) && d.ended@ && d.argv == c.argv && (c.stdin matches Some(i) ==> d.given == i.data), None => final(self).process.is_none() }
