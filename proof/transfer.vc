#file scutiger-lfs/src/bin/git-lfs-transfer.rs transfer
#ftype App<'a,'a> => App
#text
use crate::errors::*;
use crate::pktline;
use crate::pktline::*;
use crate::processor::*;
use crate::local::*;
use crate::prelude::io::{Read as _, Write as _, reliable};
use crate::prelude::git2::{Repository, found_at};
use crate::prelude::clap::*;
use crate::prelude::git2;
use crate::prelude::process;
use crate::prelude::io::{stdin_data, std_fails};
broadcast use {crate::ax::from, crate::prelude::clap::defs, crate::prelude::clap::fitting};
/// the mode asked for by a value of core.sharedRepository (None: the one the mask gives)
pub open spec fn shared_mode(v: Option<ConfVal>) -> Option<u16> {
    match v {
        None => None,
        Some(c) => match parse_oct16(c.text) {
            Some(n) => if n == 0 { None } else if n == 1 { Some(0o660u16) } else if n == 2 { Some(0o664u16) } else { Some(n) },
            None => if c.truth == Some(true) || c.text == b"group" { Some(0o660u16) }
                else if c.truth == Some(false) || c.text == b"umask" { None }
                else if c.text == b"all" || c.text == b"world" || c.text == b"everybody" { Some(0o664u16) }
                else { None },
        },
    }
}
/// execute permission where there is read permission
pub open spec fn with_exec(m: u16) -> u16 { m | ((m & 0o444) >> 2) }
/// the mask for a configuration when started with the mask u
pub open spec fn mask_of(v: Option<ConfVal>, u: u32) -> u32 { match shared_mode(v) { None => u, Some(m) => 0o777u32 & (!with_exec(m)) as u32 } }
pub open spec fn setting(r: git2::Repository) -> Option<ConfVal> { match r.conf@ { Some(m) => if m.contains_key(b"core.sharedrepository") { Some(m[b"core.sharedrepository"]) } else { None }, None => None } }
/// what the server says first
pub open spec fn greeting() -> Seq<Item> { seq![Item::Data(b"version=1\n"), Item::Flush] }
/// the state with the file creation mask that the configuration asks for
pub open spec fn masked<'p>(p: &Program<'p>, w: World) -> World { World { g: Ghost(FsState { umask: mask_of(setting(*p.repo), w.g@.umask), ..w.g@ }) } }
/// the configuration cannot be read
pub open spec fn settled<'p>(p: &Program<'p>, failed: bool, a: World, b: World) -> bool { failed && a.g@.files == b.g@.files && (p.repo.conf@.is_none() || match setting(*p.repo) { Some(c) => !is_utf8(c.text), None => false }) }
/// a failure was reported: its text on a line of its own, and the exit status for its kind
pub open spec fn told(o: Seq<u8>, o1: Seq<u8>, r: int) -> bool { exists|e: Error| o1 == o + (#[trigger] e.dv() + b"\n") && r == exit_of(e.kind) }
/// what a run does with its input and output
pub open spec fn served(op: Seq<u8>, k: u32, s: Seq<u8>, o: Seq<u8>, w: World, o1: Seq<u8>, w1: World, ok: bool, lost: bool) -> bool {
    ||| !ok && lost && unchanged(w, w1)
    ||| exists|m: Seq<u8>| #[trigger] sent(o, m, greeting()) && (if op == b"upload" { session(Mode::Upload, k, s, m, w, o1, w1, ok, lost) } else if op == b"download" { session(Mode::Download, k, s, m, w, o1, w1, ok, lost) } else { !ok && o1 == m && unchanged(w, w1) })
}
/// the definition of the command line
pub open spec fn cli(s: Seq<ArgS>, gap: bool) -> bool { !gap && npos(s) == 2 && has_pos(s, 0, b"path", true) && has_pos(s, 1, b"operation", true) }
/// what the command line asks for
pub open spec fn wanted<'p>(p: Program<'p>) -> bool { operand(1, 2, false) == Some(p.operation@) && (operand(0, 2, false) matches Some(x) && found_at(x) == Some(*p.repo)) && p.lfs_path.p@ == pjoin(p.repo.dir@, b"lfs") }
#end
#fn parse_options
:ens [C03,C05] cli(r.args@, r.gap@)
#fn repo
:sig fn repo<P: XBytes>(path: P) -> (r: Repository)
:ens [C03] found_at(path.bv()) == Some(r)
#fn setup
#fn main
:req [C23] reliable::<io::StdStream>() && old(w).g@.umask <= 0o777
:req [C03] operand(0, 2, false) matches Some(x) && found_at(x) matches Some(q) ==> pjoin(q.dir@, b"lfs") == old(w).g@.root
:req [C04] operand(1, 2, false) == Some(b"upload") <==> old(w).g@.writable
:after program#0 assert(/*[C03,C05]*/ wanted(prog));
:ens [C04] operand(1, 2, false) != Some(b"upload") ==> final(w).g@.files == old(w).g@.files
:ens [C05,C19] std_fails() || (exists|p: Program| #[trigger] wanted(p) && settled(&p, r != 0, *old(w), *final(w)))
    || exists|p: Program, o1: Seq<u8>, ok: bool, lost: bool| #[trigger] wanted(p) && (lost ==> fault()) && ok == (r == 0) && #[trigger] served(p.operation@, mask_of(setting(*p.repo), old(w).g@.umask), stdin_data(), Seq::empty(), masked(&p, *old(w)), o1, *final(w), ok, lost)
#fn program
:req [C23] arg_value(*matches, b"operation").is_some()
:ret p
:ens [C03,C05] p.repo == r && arg_value(*matches, b"operation") == Some(p.operation@) && p.lfs_path.p@ == pjoin(r.dir@, b"lfs")
#fn Program::new
:props C03 C18
:ens r.repo == repo && r.operation == operation && r.lfs_path.p@ == pjoin(repo.dir@, b"lfs") && r.umask == 0o077
#fn Program::set_permissions
:start assert(forall|x: u32| #[trigger] ((0o777u32 & x) & 0o777u32) == (0o777u32 & x)) by (bit_vector); assert(forall|x: u32| x <= 0o777u32 ==> #[trigger] (x & 0o777u32) == x) by (bit_vector);
:props C18
:req old(w).g@.umask <= 0o777
:ens final(w).g@ == (FsState { umask: final(w).g@.umask, ..old(w).g@ })
:ens match r { Ok(m) => m == mask_of(setting(*self.repo), old(w).g@.umask) && final(w).g@.umask == m, Err(e) => self.repo.conf@.is_none() || (setting(*self.repo) matches Some(c) && !is_utf8(c.text)) }
#fn Program::create_directories
:props C03
:start let ghost w0 = *w;
:req self.lfs_path.p@ == old(w).g@.root
:ens unchanged(*old(w), *final(w)) && (r.is_err() ==> fault() && r.unwrap_err().kind == ErrorKind::IOError)
:loop 1
:inv [C03] unchanged(w0, *w) && $it.inv() && forall|i: int| 0 <= i < $it.s@.len() ==> is_dir(w0.g@.root, pjoin(w0.g@.root, #[trigger] $it.s@[i]@))
:dec $it.s@.len() - $it.i
#fn Program::send_capabilities
:props C05
:start broadcast use lemma_sent_push; let ghost o0 = handler.wrtr.out(); proof { assert(sent(o0, o0, Seq::empty())); assert(greeting() =~= Seq::<Item>::empty().push(Item::Data(b"version=1\n")).push(Item::Flush)); }
:req [C23] old(handler).inv()
:ens final(handler).inv() && final(handler).rdr == old(handler).rdr && io::wkept(&old(handler).wrtr, &final(handler).wrtr)
:ens [C05] match r { Ok(_) => sent(old(handler).wrtr.out(), final(handler).wrtr.out(), greeting()), Err(_) => final(handler).wrtr.wfailed() }
#fn Program::run
:req [C23] (*old(input)).rinv() && (*old(input)).plain() && (*old(output)).winv() && !(*old(output)).framed() && self.lfs_path.p@ == old(w).g@.root && (*old(input)).budget() <= u64::MAX && (timestamp matches Some(t) ==> representable(t as int))
:req [C04] self.operation@ == b"upload" <==> old(w).g@.writable
:start broadcast use lemma_still, lemma_grew;
:ens [C19] (*final(input)).rinv() && (*final(output)).winv()
:ens wframe(*old(w), *final(w)) && *final(_error) == *old(_error)
:ens [C04] self.operation@ != b"upload" ==> unchanged(*old(w), *final(w))
:ens [C01,C02] grew(*old(w), *final(w))
:ens [C05] (*final(input)).failed() || served(self.operation@, self.umask, (*old(input)).rest(), (*old(output)).out(), *old(w), (*final(output)).out(), *final(w), r.is_ok(), fault() || (*final(output)).wfailed())
#fn Program::main_internal
:start broadcast use lemma_still, lemma_grew;
:req [C23] (*old(input)).rinv() && (*old(input)).plain() && (*old(output)).winv() && !(*old(output)).framed() && old(self).lfs_path.p@ == old(w).g@.root && (*old(input)).budget() <= u64::MAX && old(w).g@.umask <= 0o777
:req [C04] old(self).operation@ == b"upload" <==> old(w).g@.writable
:ens [C19] (*final(input)).rinv() && (*final(output)).winv()
:ens final(self).repo == old(self).repo && final(self).operation == old(self).operation && final(self).lfs_path == old(self).lfs_path && *final(error) == *old(error)
:ens [C04] old(self).operation@ != b"upload" ==> final(w).g@.files == old(w).g@.files
:ens [C05] (*final(input)).failed() || settled(old(self), r.is_err(), *old(w), *final(w)) && (*final(output)).out() == (*old(output)).out()
    || served(old(self).operation@, mask_of(setting(*old(self).repo), old(w).g@.umask), (*old(input)).rest(), (*old(output)).out(), masked(old(self), *old(w)), (*final(output)).out(), *final(w), r.is_ok(), fault() || (*final(output)).wfailed())
#fn Program::main
:req [C23] (*old(input)).rinv() && (*old(input)).plain() && (*old(output)).winv() && !(*old(output)).framed() && old(self).lfs_path.p@ == old(w).g@.root && (*old(input)).budget() <= u64::MAX && old(w).g@.umask <= 0o777
:req [C23] (*old(error)).winv() && !(*old(error)).framed() && reliable::<E>()
:req [C04] old(self).operation@ == b"upload" <==> old(w).g@.writable
:ens [C19] (*final(input)).rinv() && (*final(output)).winv()
:ens [C04] old(self).operation@ != b"upload" ==> final(w).g@.files == old(w).g@.files
:ens [C05,C19] (*final(input)).failed() || settled(old(self), r != 0, *old(w), *final(w)) && (*final(output)).out() == (*old(output)).out()
    || served(old(self).operation@, mask_of(setting(*old(self).repo), old(w).g@.umask), (*old(input)).rest(), (*old(output)).out(), masked(old(self), *old(w)), (*final(output)).out(), *final(w), r == 0, fault() || (*final(output)).wfailed())
:ens [C19] (r == 0 ==> *final(error) == *old(error)) && (r != 0 ==> told((*old(error)).out(), (*final(error)).out(), r as int))
