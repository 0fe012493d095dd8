#file scutiger-bin/src/bin/git-at.rs gitat
#ident Program AtProgram
#ident Oid GOid
#ftype App<'a,'a> => App
#text
use crate::errors::*;
use crate::prelude::git2::*;
use crate::prelude::clap::*;
use crate::prelude::libgit2;
use crate::prelude::git2;
use crate::prelude::pcre2::bytes::Regex;
use crate::prelude::pcre2::{valid, matches, re_limit, is_fixup};
use crate::prelude::io::{Read as _, Write as _, reliable};
use crate::errors::Error;
use crate::prelude::process::{startable, ran};
use crate::prelude::process;
broadcast use {crate::ax::from, crate::prelude::pcre2::fixup_pattern, crate::prelude::pcre2::fixup_valid, crate::prelude::clap::defs, crate::prelude::clap::fitting};
/// the first line of a message
pub open spec fn first_line(m: Seq<u8>) -> Seq<u8> { split(m, 10)[0] }
impl<'a> AtProgram<'a> {
    /// the commit is one to be found
    pub open spec fn hit(&self, c: GOid) -> bool {
        let m = message(*self.repo, c);
        (self.fixup || !is_fixup(m)) && matches(self.text@, if self.summary { first_line(m) } else { m })
    }
    /// the commits to search, in order
    pub open spec fn list(&self, h: GOid) -> Seq<GOid> { walk(*self.repo, Sort::time(), seq![h]) }
    /// what a search yields
    pub open spec fn found(&self, h: GOid, r: GOid) -> bool { exists|i: int| 0 <= i < self.list(h).len() && #[trigger] self.list(h)[i] == r && self.hit(r) && forall|j: int| 0 <= j < i ==> !self.hit(#[trigger] self.list(h)[j]) }
    pub open spec fn nothing(&self, h: GOid) -> bool { forall|j: int| 0 <= j < self.list(h).len() ==> !self.hit(#[trigger] self.list(h)[j]) }
    /// what is printed, and the exit status
    pub open spec fn told(&self, a: Result<GOid, Error>, o: Seq<u8>, o1: Seq<u8>, e: Seq<u8>, e1: Seq<u8>, r: int) -> bool {
        match a {
            Ok(c) => e1 == e && if self.show { o1 == o && r == (match ran(seq![b"git"].push(b"show").push(oid_hex(c))) { Some(x) => x as int, None => 3 }) } else { o1 =~= o + (oid_hex(c) + b"\n") && r == 0 },
            Err(x) => o1 == o && r == exit_of(x.kind) && e1 =~= (if r == 1 && self.quiet { e } else { e + (x.dv() + b"\n") }),
        }
    }
    pub open spec fn answer(&self, r: Result<GOid, Error>) -> bool {
        match r {
            Ok(c) => match revision(*self.repo, self.head@) { Some(h) => self.found(h, c), None => false },
            Err(e) => gfault() || if e.kind == ErrorKind::NoSuchRevision { match revision(*self.repo, self.head@) { Some(h) => self.nothing(h), None => true } } else { !valid(self.text@) || re_limit() || match revision(*self.repo, self.head@) { Some(h) => !commitish(*self.repo, h), None => true } },
        }
    }
}
/// the definition of the command line
pub open spec fn cli(s: Seq<ArgS>, gap: bool) -> bool {
    &&& gap && npos(s) == 2 && has_pos(s, 0, b"revision", false) && has_pos(s, 1, b"pattern", true)
    &&& has_flag(s, b"summary", b"summary") && has_flag(s, b"show", b"show") && has_flag(s, b"quiet", b"quiet") && has_flag(s, b"no-fixup", b"no-fixup")
}
/// what the command line asks for
pub open spec fn asked<'a>(p: AtProgram<'a>) -> bool {
    &&& p.summary == flag(b"summary") && p.show == flag(b"show") && p.quiet == flag(b"quiet") && p.fixup == !flag(b"no-fixup")
    &&& operand(1, 2, true) == Some(p.text@) && p.head@ == (match operand(0, 2, true) { Some(h) => h, None => b"HEAD" }) && found_from(b".") == Some(*p.repo)
}
#end
#fn parse_options
:ens [C20,C21,C19] cli(r.args@, r.gap@)
#fn repo
:ens [C20] found_from(b".") == Some(r)
#fn main
:req [C23] reliable::<io::StdStream>() && startable(b"git")
:after program#0 assert(/*[C20,C21,C19]*/ asked(prog));
:ens [C19] exists|p: AtProgram, a: Result<GOid, Error>, o1: Seq<u8>, e1: Seq<u8>| #[trigger] asked(p) && p.answer(a) && #[trigger] p.told(a, Seq::empty(), o1, Seq::empty(), e1, r as int)
#fn AtProgram::new
:props C20
:ens r.repo == repo && r.summary == summary && r.show == show && r.quiet == quiet && r.fixup == fixup && r.text == text && r.head@ == (match head { Some(h) => h@, None => b"HEAD" })
#fn program
:props C20
:req [C23] arg_value(*matches, b"pattern").is_some()
:ens r.repo == repo && r.head@ == (match arg_value(*matches, b"revision") { Some(h) => h, None => b"HEAD" })
:ens [C20] arg_value(*matches, b"pattern") == Some(r.text@)
:ens [C20] r.fixup == !arg_given(*matches, b"no-fixup")
:ens [C21,C20] r.summary == arg_given(*matches, b"summary")
:ens [C19] r.quiet == arg_given(*matches, b"quiet")
:ens [C19] r.show == arg_given(*matches, b"show")
#fn AtProgram::pattern
:props C20
:ens match r { Ok(x) => x.pat@ == pattern@, Err(e) => !valid(pattern@) && e.kind == ErrorKind::PCREError }
#fn AtProgram::run
:ens [C20,C21] self.answer(r)
:loop 1
:inv [C20,C21] $it.inv() && match revision(*self.repo, self.head@) { Some(h) => $it.all@ == self.list(h), None => false } && forall|j: int| 0 <= j < $it.i@ ==> !self.hit(#[trigger] $it.all@[j])
:dec $it.all@.len() - $it.i@
#fn AtProgram::main
:req [C23] (*old(output)).winv() && !(*old(output)).framed() && (*old(error)).winv() && !(*old(error)).framed() && reliable::<O>() && reliable::<E>() && (self.show ==> startable(b"git"))
:ens [C19] exists|a: Result<GOid, Error>| #[trigger] self.answer(a) && self.told(a, (*old(output)).out(), (*final(output)).out(), (*old(error)).out(), (*final(error)).out(), r as int)
