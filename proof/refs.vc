#file scutiger-bin/src/bin/git-recent-refs.rs refs
#ident Program RefsProgram
#ident Oid GOid
#ftype App<'a,'a> => App
#ftype Box<Iterator<Item=String>+'a> => Vec<Vec<u8>>
#text
use crate::errors::*;
use crate::errors::Error;
use crate::prelude::git2::*;
use crate::prelude::clap::*;
use crate::prelude::libgit2;
use crate::prelude::git2;
use crate::prelude::process;
use crate::prelude::process::{startable, Child};
use crate::pager;
use crate::pager::pager_for;
use crate::prelude::io::{Read as _, Write as _, reliable};
broadcast use {crate::ax::from, crate::prelude::clap::defs, crate::prelude::clap::fitting};
/// how git names what the n-th revision to list stands for: HEAD, @{-1}, @{-2}, ...
pub open spec fn rev(n: int) -> Seq<u8> { if n <= 0 { b"HEAD" } else { b"@{-" + dec_int(n) + b"}" } }
/// what is listed for a revision: the full name of the reference or the object's identifier
pub open spec fn label(r: Repository, n: int) -> Option<Seq<u8>> {
    match revision(r, rev(n)) { Some(o) => match revision_ref(r, rev(n)) { Some(x) => if is_utf8(ref_name(r, x)) { Some(ref_name(r, x)) } else { None }, None => Some(oid_hex(o)) }, None => None }
}
pub open spec fn visited(r: Repository, v: Seq<Vec<u8>>) -> bool {
    (forall|j: int| 0 <= j < v.len() ==> label(r, j) == Some((#[trigger] v[j])@)) && (gfault() || label(r, v.len() as int).is_none())
}
/// some checkout is the oldest one recorded
pub open spec fn bounded_log(r: Repository) -> bool { exists|n: int| 0 <= n < i32::MAX && (#[trigger] label(r, n)).is_none() }
/// a direct reference that resolves to a commit
pub open spec fn good(r: Repository, x: RefId) -> bool { ref_target(r, x).is_some() && ref_commit(r, x).is_some() }
/// those among the first n references
pub open spec fn kept(r: Repository, n: int) -> Seq<RefId> decreases n { if n <= 0 { Seq::empty() } else if good(r, refs(r)[n - 1]) { kept(r, n - 1).push(refs(r)[n - 1]) } else { kept(r, n - 1) } }
pub open spec fn date(r: Repository, authors: bool, x: RefId) -> Option<Time> { Some(if authors { authored(r, ref_commit(r, x).unwrap()) } else { committed(r, ref_commit(r, x).unwrap()) }) }
pub open spec fn dates(r: Repository, authors: bool, s: Seq<RefId>) -> Seq<Option<Time>> { s.map_values(|x: RefId| date(r, authors, x)) }
/// the names of the first n of these (a name that is not UTF-8 is left out)
pub open spec fn names(r: Repository, s: Seq<RefId>, n: int) -> Seq<Seq<u8>> decreases n { if n <= 0 { Seq::empty() } else if is_utf8(ref_name(r, s[n - 1])) { names(r, s, n - 1).push(ref_name(r, s[n - 1])) } else { names(r, s, n - 1) } }
pub open spec fn texts(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { v.map_values(|x: Vec<u8>| x@) }
/// newest first, references with the same date in the order git enumerates them
pub open spec fn dated(r: Repository, authors: bool, v: Seq<Vec<u8>>) -> bool {
    let k = kept(r, refs(r).len() as int);
    exists|s: Seq<RefId>| #[trigger] sorted_keys(k, s, dates(r, authors, k), true, true) && texts(v) == names(r, s, s.len() as int)
}
pub open spec fn listed(r: Repository, k: SortKind, v: Seq<Vec<u8>>) -> bool {
    match k { SortKind::Visited => visited(r, v), SortKind::Committed => gfault() || dated(r, false, v), SortKind::Authored => gfault() || dated(r, true, v) }
}
/// one name a line
pub open spec fn lines(v: Seq<Vec<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { lines(v, n - 1) + v[n - 1]@ + b"\n" } }
/// what there is to print
pub open spec fn answer<'p>(p: &RefsProgram<'p>, repo: &Repository, a: Result<Vec<Vec<u8>>, Error>) -> bool { match a { Ok(v) => listed(*repo, p.kind, v@), Err(_) => gfault() } }
/// what the program prints and the exit status it ends with
pub open spec fn told(a: Result<Vec<Vec<u8>>, Error>, o: Seq<u8>, o1: Seq<u8>, e: Seq<u8>, e1: Seq<u8>, r: int) -> bool {
    match a {
        Ok(v) => o1 =~= o + lines(v@, v@.len() as int) && e1 == e && r == 0,
        Err(x) => o1 == o && e1 =~= e + (x.dv() + b"\n") && r == exit_of(x.kind),
    }
}
/// what is known of a reference when sorting
pub type Known<'a> = (Option<GOid>, Option<Time>, Reference<'a>);
pub open spec fn ids<'a>(v: Seq<Known<'a>>) -> Seq<RefId> { v.map_values(|x: Known<'a>| x.2.x@) }
pub open spec fn known<'a>(r: &Repository, authors: bool, v: Seq<Known<'a>>) -> bool { forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).2.repo == r && v[j].1 == date(*r, authors, v[j].2.x@) }
pub broadcast proof fn lemma_sorted_ids<'a>(r: &Repository, authors: bool, a: Seq<Known<'a>>, b: Seq<Known<'a>>, k: Seq<Option<Time>>)
    requires #[trigger] sorted_keys(a, b, k, true, true), k.len() == a.len(), forall|j: int| 0 <= j < k.len() ==> #[trigger] k[j] == a[j].1, #[trigger] known(r, authors, a)
    ensures sorted_keys(ids(a), ids(b), dates(*r, authors, ids(a)), true, true), known(r, authors, b)
{
    let p = choose|p: Seq<int>| is_perm(p, k.len() as int) && #[trigger] key_ordered(p, k, true, true) && b == Seq::new(k.len(), |i: int| a[p[i]]);
    let d = dates(*r, authors, ids(a));
    assert forall|j: int| 0 <= j < k.len() implies d[j] == k[j] by { assert(ids(a)[j] == a[j].2.x@); assert(a[j].1 == date(*r, authors, a[j].2.x@)); }
    assert(d =~= k);
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < k.len() by {}
    assert(ids(b) =~= Seq::new(d.len(), |i: int| ids(a)[p[i]]));
}
/// the order asked for by name
pub open spec fn kind_named(k: Seq<u8>) -> Option<SortKind> { if k == b"visitdate" { Some(SortKind::Visited) } else if k == b"authordate" { Some(SortKind::Authored) } else if k == b"committerdate" { Some(SortKind::Committed) } else { None } }
pub open spec fn kind_asked(m: ArgMatches) -> Option<SortKind> { match arg_value(m, b"sort") { Some(k) => kind_named(k), None => Some(SortKind::Visited) } }
/// the kinds of sorting offered
pub open spec fn kinds() -> Set<Seq<u8>> { set![b"visitdate", b"committerdate", b"authordate"] }
/// what the command line asks for
pub open spec fn wanted<'p>(p: RefsProgram<'p>) -> bool { kind_named(match option(b"sort") { Some(v) => v, None => b"visitdate" }) == Some(p.kind) && found_from(b".") == Some(*p.repo) }
/// this is the pager asked for, it has been given exactly the listing, and it has ended
pub open spec fn paged<'p>(p: RefsProgram<'p>, x: Option<Seq<u8>>, g: Option<Child>, r: int) -> bool {
    match (x, g) {
        (Some(x), Some(c)) => c.argv@ =~= seq![b"sh"].push(b"-c").push(x) && c.ended@ && exists|a: Result<Vec<Vec<u8>>, Error>, e1: Seq<u8>| #[trigger] answer(&p, p.repo, a) && #[trigger] told(a, Seq::empty(), c.given@, Seq::empty(), e1, r),
        (None, None) => true,
        _ => false,
    }
}
#end
#fn parse_options
:ens [C22] has_opt(r.args@, b"sort", b"sort", kinds())
#fn repo
:ens [C22] found_from(b".") == Some(r)
#fn setup
#fn main
:req [C23] forall|x: Repository| found_from(b".") == Some(x) ==> #[trigger] bounded_log(x)
:req [C23] reliable::<crate::pager::OutBox<'static>>()
:req [C23] reliable::<io::StdStream>() && startable(b"sh")
:after program#0 assert(/*[C22]*/ wanted(prog));
:before exit#0 assert(/*[C24]*/ paged(prog, pager_for(repo), pager.process, status as int));
:ens [C19,C22] exists|p: RefsProgram, a: Result<Vec<Vec<u8>>, Error>, o1: Seq<u8>, e1: Seq<u8>| #[trigger] wanted(p) && answer(&p, p.repo, a) && #[trigger] told(a, Seq::empty(), o1, Seq::empty(), e1, r as int)
#fn sort_type
:props C22
:req [C23] kind_named(kind@).is_some()
:ens r matches Ok(k) && kind_named(kind@) == Some(k)
#fn program
:props C22
:req [C23] kind_asked(*matches).is_some()
:ens r.repo == repo && kind_asked(*matches) == Some(r.kind)
#fn RefsProgram::new
:props C22
:ens r.repo == repo && r.kind == kind
#fn RefsProgram::stringify
:props C22
:ens match obj { Some((o, Some(x))) => (match r { Some(t) => t@ == ref_name(*x.repo, x.x@) && is_utf8(t@), None => !is_utf8(ref_name(*x.repo, x.x@)) }), Some((o, None)) => r matches Some(t) && t@ == oid_hex(o.o), None => r.is_none() }
#fn RefsProgram::commit_date_for
:props C22
:ens match r_ { Some(t) => ref_commit(*r.repo, r.x@) matches Some(c) && t == committed(*r.repo, c), None => gfault() || ref_commit(*r.repo, r.x@).is_none() }
:ret r_
#fn RefsProgram::author_date_for
:props C22
:ens match r_ { Some(t) => ref_commit(*r.repo, r.x@) matches Some(c) && t == authored(*r.repo, c), None => gfault() || ref_commit(*r.repo, r.x@).is_none() }
:ret r_
#fn RefsProgram::run
:props C22
:start broadcast use lemma_sorted_ids;
:req [C23] self.kind is Visited ==> bounded_log(*repo)
:ens answer(self, repo, r)
:loop 1
:lbefore let ghost last = choose|n: int| 0 <= n < i32::MAX && (#[trigger] label(*repo, n)).is_none();
:inv $it.inv() && $it.orig@.len() == 1 && $it.orig@[0]@ == b"HEAD" && 0 <= last < i32::MAX && label(*repo, last).is_none()
:invx $acc@.len() <= last && (if $it.i@ == 0 { $acc@.len() == 0 && $nxt.n == 1 } else { $nxt.n == $acc@.len() && $nxt.n >= 1 })
:inv forall|j: int| 0 <= j < $acc@.len() ==> label(*repo, j) == Some((#[trigger] $acc@[j])@)
:lens visited(*repo, $acc@)
:dec last - $acc@.len()
:loop 2
:inv $it.inv() && $it.repo == repo && known(repo, false, $acc@) && (gfault() || ids($acc@) =~= kept(*repo, $it.i@))
:lens gfault() || ids($acc@) == kept(*repo, refs(*repo).len() as int)
:dec refs(*repo).len() - $it.i@
:loop 3
:lbefore let ghost src3 = $it.s@;
:inv $it.s@ == src3 && $it.inv() && $acc@.len() == $it.i@ && forall|j: int| 0 <= j < $acc@.len() ==> #[trigger] $acc@[j] == src3[j].1
:lens $acc@.len() == src3.len()
:dec $it.s@.len() - $it.i@
:loop 4
:lbefore let ghost src4 = $it.orig@;
:inv $it.orig@ == src4 && $it.inv() && known(repo, false, src4) && (gfault() || texts($acc@) =~= names(*repo, ids(src4), $it.i@))
:lens gfault() || texts($acc@) =~= names(*repo, ids(src4), src4.len() as int)
:dec src4.len() - $it.i@
:loop 5
:inv $it.inv() && $it.repo == repo && known(repo, true, $acc@) && (gfault() || ids($acc@) =~= kept(*repo, $it.i@))
:lens gfault() || ids($acc@) == kept(*repo, refs(*repo).len() as int)
:dec refs(*repo).len() - $it.i@
:loop 6
:lbefore let ghost src6 = $it.s@;
:inv $it.s@ == src6 && $it.inv() && $acc@.len() == $it.i@ && forall|j: int| 0 <= j < $acc@.len() ==> #[trigger] $acc@[j] == src6[j].1
:lens $acc@.len() == src6.len()
:dec $it.s@.len() - $it.i@
:loop 7
:lbefore let ghost src7 = $it.orig@;
:inv $it.orig@ == src7 && $it.inv() && known(repo, true, src7) && (gfault() || texts($acc@) =~= names(*repo, ids(src7), $it.i@))
:lens gfault() || texts($acc@) =~= names(*repo, ids(src7), src7.len() as int)
:dec src7.len() - $it.i@
#fn RefsProgram::main
:req [C23] (*old(output)).winv() && !(*old(output)).framed() && (*old(error)).winv() && !(*old(error)).framed() && reliable::<O>() && reliable::<E>() && (self.kind is Visited ==> bounded_log(*self.repo))
:ens [C22,C19] exists|a: Result<Vec<Vec<u8>>, Error>| #[trigger] answer(self, self.repo, a) && told(a, (*old(output)).out(), (*final(output)).out(), (*old(error)).out(), (*final(error)).out(), r as int)
:ens [C24] (*final(output)).wident() == (*old(output)).wident()
:start let ghost o0 = (*output).out(); let ghost d0 = (*output).wident(); let ghost e0 = (*error).out();
:loop 1
:lbefore let ghost all = $it.s@;
:inv $it.inv() && $it.s@ == all && (*output).winv() && !(*output).framed() && (*error).winv() && !(*error).framed() && (*error).out() == e0 && (*output).wident() == d0 && (*output).out() =~= o0 + lines(all, $it.i as int)
:lens (*output).out() =~= o0 + lines(all, all.len() as int)
:dec all.len() - $it.i
