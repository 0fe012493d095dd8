// Prelude: the specifications assumed for the standard library and other dependencies.
// Everything marked `external_body` here is an assumption (listed in the evidence).
pub mod prelude {
#[allow(unused_imports)] use vstd::prelude::*;

// ------------------------------------------------------------------ byte strings
/// Iterator over a slice, yielding references in order.
pub struct It<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> It<'a, T> {
    pub open spec fn inv(&self) -> bool { self.i <= self.s@.len() }
    pub fn xnext(&mut self) -> (r: Option<&'a T>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).s == old(self).s,
            match r {
                Some(x) => old(self).i < old(self).s@.len() && *x == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1,
                None => old(self).i == old(self).s@.len() && final(self).i == old(self).i,
            }
    { if self.i < self.s.len() { let x = &self.s[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
/// Owning iterator over a vector.
pub struct IntoIt<T> { pub v: Vec<T>, pub i: Ghost<int>, pub orig: Ghost<Seq<T>> }
impl<T> IntoIt<T> {
    pub open spec fn inv(&self) -> bool { 0 <= self.i@ <= self.orig@.len() && self.v@ == self.orig@.skip(self.i@) }
    #[verifier::external_body]
    pub fn xnext(&mut self) -> (r: Option<T>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).orig == old(self).orig,
            match r {
                Some(x) => old(self).i@ < old(self).orig@.len() && x == old(self).orig@[old(self).i@] && final(self).i@ == old(self).i@ + 1,
                None => old(self).i@ == old(self).orig@.len() && final(self).i@ == old(self).i@,
            }
    { unimplemented!() }
}
pub trait XIter<T> {
    spec fn sq(&self) -> Seq<T>;
    fn xiter<'a>(&'a self) -> (r: It<'a, T>) ensures r.s@ == self.sq(), r.i == 0;
}
impl<T> XIter<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ } fn xiter<'a>(&'a self) -> (r: It<'a, T>) { It { s: self, i: 0 } } }
impl<T> XIter<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ } fn xiter<'a>(&'a self) -> (r: It<'a, T>) { It { s: self.as_slice(), i: 0 } } }
impl<T, const N: usize> XIter<T> for [T; N] { open spec fn sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn xiter<'a>(&'a self) -> (r: It<'a, T>) { It { s: self, i: 0 } } }
pub trait XIntoIter<T>: Sized {
    spec fn isq(&self) -> Seq<T>;
    fn xinto_iter(self) -> (r: IntoIt<T>) ensures r.inv(), r.orig@ == self.isq(), r.i@ == 0;
}
impl<T> XIntoIter<T> for Vec<T> { open spec fn isq(&self) -> Seq<T> { self@ } fn xinto_iter(self) -> (r: IntoIt<T>) { let ghost o = self@; proof { assert(self@.skip(0) =~= self@); } IntoIt { v: self, i: Ghost(0), orig: Ghost(o) } } }

#[verifier::external_body] pub fn xonce<T>(x: T) -> (r: IntoIt<T>) ensures r.inv(), r.orig@ == seq![x], r.i@ == 0 { unimplemented!() }
pub fn xbytes_from<B: XBytes>(b: B) -> (r: Vec<u8>) ensures r@ == b.bv() { b.xto_vec() }
/// Iterator over chunks of at most n bytes.
pub struct Chunks<'a> { pub s: &'a [u8], pub pos: usize, pub n: usize }
impl<'a> Chunks<'a> {
    pub open spec fn inv(&self) -> bool { self.pos <= self.s@.len() && self.n > 0 }
    #[verifier::external_body]
    pub fn xnext(&mut self) -> (r: Option<&'a [u8]>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).s == old(self).s, final(self).n == old(self).n,
            match r {
                Some(c) => old(self).pos < old(self).s@.len() && 0 < c@.len() <= old(self).n && final(self).pos == old(self).pos + c@.len()
                    && c@ == old(self).s@.subrange(old(self).pos as int, final(self).pos as int)
                    && (c@.len() == old(self).n || final(self).pos == old(self).s@.len()),
                None => old(self).pos == old(self).s@.len() && final(self).pos == old(self).pos,
            }
    { unimplemented!() }
}

/// Split at each occurrence of a byte.
pub open spec fn find(s: Seq<u8>, b: u8) -> int decreases s.len() {
    if s.len() == 0 { -1 } else if s[0] == b { 0 } else { let r = find(s.skip(1), b); if r < 0 { -1 } else { r + 1 } }
}
pub open spec fn split(s: Seq<u8>, b: u8) -> Seq<Seq<u8>> decreases s.len() {
    let i = find(s, b);
    if i < 0 || i >= s.len() { seq![s] } else { seq![s.take(i)] + split(s.skip(i + 1), b) }
}
/// At most n parts; the last one is not split any further.
pub open spec fn splitn(s: Seq<u8>, n: int, b: u8) -> Seq<Seq<u8>> decreases s.len() {
    let i = find(s, b);
    if n <= 0 { Seq::empty() } else if n == 1 || i < 0 || i >= s.len() { seq![s] } else { seq![s.take(i)] + splitn(s.skip(i + 1), n - 1, b) }
}
pub proof fn lemma_find(s: Seq<u8>, b: u8)
    ensures -1 <= find(s, b) < s.len(),
        find(s, b) >= 0 ==> s[find(s, b)] == b && forall|j: int| 0 <= j < find(s, b) ==> s[j] != b,
        find(s, b) < 0 ==> forall|j: int| 0 <= j < s.len() ==> s[j] != b,
    decreases s.len()
{
    if s.len() > 0 && s[0] != b {
        lemma_find(s.skip(1), b);
        assert forall|j: int| 0 <= j < s.len() && (find(s, b) < 0 || j < find(s, b)) implies s[j] != b by {
            if j > 0 { assert(s.skip(1)[j - 1] == s[j]); }
        }
    }
}
/// `find` is determined by the first occurrence.
pub proof fn lemma_find_is(s: Seq<u8>, b: u8, i: int)
    requires 0 <= i < s.len(), s[i] == b, forall|j: int| 0 <= j < i ==> s[j] != b,
    ensures find(s, b) == i
{ lemma_find(s, b); }
pub proof fn lemma_find_none(s: Seq<u8>, b: u8)
    requires forall|j: int| 0 <= j < s.len() ==> s[j] != b,
    ensures find(s, b) == -1
{ lemma_find(s, b); }
pub struct SplitIt<'a> { pub s: &'a [u8], pub parts: Ghost<Seq<Seq<u8>>>, pub i: Ghost<int> }
impl<'a> SplitIt<'a> {
    pub open spec fn inv(&self) -> bool { 0 <= self.i@ <= self.parts@.len() }
    #[verifier::external_body]
    pub fn xnext(&mut self) -> (r: Option<&'a [u8]>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).parts == old(self).parts,
            match r {
                Some(c) => old(self).i@ < old(self).parts@.len() && c@ == old(self).parts@[old(self).i@] && final(self).i@ == old(self).i@ + 1,
                None => old(self).i@ == old(self).parts@.len() && final(self).i@ == old(self).i@,
            }
    { unimplemented!() }
}

pub open spec fn lower_ascii(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| if 65 <= s[i] <= 90 { (s[i] + 32) as u8 } else { s[i] }) }
/// A text without the white space (whatever Unicode says it is) at its start / at its end.
pub uninterp spec fn trimmed(s: Seq<u8>, start: bool, end: bool) -> Seq<u8>;
pub trait XBytes {
    spec fn bv(&self) -> Seq<u8>;
    fn xslice(&self) -> (r: &[u8]) ensures r@ == self.bv();
    fn xlen(&self) -> (r: usize) ensures r == self.bv().len();
    #[verifier::external_body]
    fn xto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.bv() { unimplemented!() }
    #[verifier::external_body]
    fn xstarts_with(&self, p: &[u8]) -> (r: bool) ensures r == (p@.len() <= self.bv().len() && self.bv().take(p@.len() as int) =~= p@), p@.len() == 1 ==> r == (self.bv().len() > 0 && self.bv()[0] == p@[0]) { unimplemented!() }
    #[verifier::external_body]
    fn xends_with(&self, p: &[u8]) -> (r: bool) ensures r == (p@.len() <= self.bv().len() && self.bv().skip(self.bv().len() - p@.len()) =~= p@), p@.len() == 1 ==> r == (self.bv().len() > 0 && self.bv().last() == p@[0]) { unimplemented!() }
    #[verifier::external_body]
    fn xstrip_prefix<'a>(&'a self, p: &[u8]) -> (r: Option<&'a [u8]>)
        ensures r.is_some() == (p@.len() <= self.bv().len() && self.bv().take(p@.len() as int) =~= p@), r matches Some(x) ==> x@ == self.bv().skip(p@.len() as int), p@.len() == 1 ==> r.is_some() == (self.bv().len() > 0 && self.bv()[0] == p@[0]) { unimplemented!() }
    #[verifier::external_body]
    fn xstrip_suffix<'a>(&'a self, p: &[u8]) -> (r: Option<&'a [u8]>)
        ensures r.is_some() == (p@.len() <= self.bv().len() && self.bv().skip(self.bv().len() - p@.len()) =~= p@), r matches Some(x) ==> x@ == self.bv().take(self.bv().len() - p@.len()), p@.len() == 1 ==> r.is_some() == (self.bv().len() > 0 && self.bv().last() == p@[0]) { unimplemented!() }
    #[verifier::external_body]
    fn xcontains(&self, b: u8) -> (r: bool) ensures r == self.bv().contains(b) { unimplemented!() }
    #[verifier::external_body]
    fn xeq_ignore_ascii_case(&self, p: &[u8]) -> (r: bool) ensures r == (lower_ascii(self.bv()) =~= lower_ascii(p@)) { unimplemented!() }
    #[verifier::external_body]
    fn xto_ascii_lowercase(&self) -> (r: Vec<u8>) ensures r@ =~= lower_ascii(self.bv()) { unimplemented!() }
    #[verifier::external_body]
    fn trim<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == trimmed(self.bv(), true, true) { unimplemented!() }
    #[verifier::external_body]
    fn trim_start<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == trimmed(self.bv(), true, false) { unimplemented!() }
    #[verifier::external_body]
    fn trim_end<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == trimmed(self.bv(), false, true) { unimplemented!() }
    #[verifier::external_body]
    fn xchunks<'a>(&'a self, n: usize) -> (r: Chunks<'a>) requires n > 0 ensures r.inv(), r.s@ == self.bv(), r.pos == 0, r.n == n { unimplemented!() }
    #[verifier::external_body]
    fn xsplit<'a>(&'a self, b: u8) -> (r: SplitIt<'a>) ensures r.inv(), r.i@ == 0, r.parts@ == split(self.bv(), b) { unimplemented!() }
    #[verifier::external_body]
    fn xsplitn<'a>(&'a self, n: usize, b: u8) -> (r: SplitIt<'a>) ensures r.inv(), r.i@ == 0, r.parts@ == splitn(self.bv(), n as int, b) { unimplemented!() }
}
impl XBytes for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } fn xslice(&self) -> (r: &[u8]) { self } fn xlen(&self) -> (r: usize) { self.len() } }
impl XBytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } fn xslice(&self) -> (r: &[u8]) { self.as_slice() } fn xlen(&self) -> (r: usize) { self.len() } }
impl<'b> XBytes for &'b [u8] { open spec fn bv(&self) -> Seq<u8> { (*self)@ } fn xslice(&self) -> (r: &[u8]) { *self } fn xlen(&self) -> (r: usize) { (*self).len() } }
impl<'b> XBytes for &'b &'b [u8] { open spec fn bv(&self) -> Seq<u8> { (**self)@ } fn xslice(&self) -> (r: &[u8]) { **self } fn xlen(&self) -> (r: usize) { (**self).len() } }
impl<'b> XBytes for &'b Vec<u8> { open spec fn bv(&self) -> Seq<u8> { (*self)@ } fn xslice(&self) -> (r: &[u8]) { (*self).as_slice() } fn xlen(&self) -> (r: usize) { (*self).len() } }
/// `is_empty`, of texts and of lists of anything
pub trait XEmpty { spec fn xcount(&self) -> nat; fn xis_empty(&self) -> (r: bool) ensures r == (self.xcount() == 0); }
impl<T> XEmpty for [T] { open spec fn xcount(&self) -> nat { self@.len() } fn xis_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> XEmpty for Vec<T> { open spec fn xcount(&self) -> nat { self@.len() } fn xis_empty(&self) -> (r: bool) { self.len() == 0 } }
#[verifier::external_body]
pub fn xeq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) { unimplemented!() }

#[verifier::external_body]
pub fn xlt(a: &[u8], b: &[u8]) -> (r: bool) ensures r == lex_lt(a@, b@) { unimplemented!() }

pub trait XCopy {
    spec fn cv(&self) -> Seq<u8>;
    fn xrange_copy_from_slice(&mut self, a: usize, b: usize, src: &[u8])
        requires a <= b <= old(self).cv().len(), src@.len() == b - a
        ensures final(self).cv() == old(self).cv().take(a as int) + src@ + old(self).cv().skip(b as int);
}
impl XCopy for [u8] {
    open spec fn cv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn xrange_copy_from_slice(&mut self, a: usize, b: usize, src: &[u8]) { unimplemented!() }
}

#[verifier::external_body]
pub fn xvec_repeat(x: u8, n: usize) -> (r: Vec<u8>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
/// a panic: must be unreachable
#[verifier::external_body]
pub fn xpanic<T>() -> (r: T) requires false { unimplemented!() }
pub fn xassert(b: bool) requires b {}

// ------------------------------------------------------------------ formatting
pub open spec fn hexdigit(v: int) -> u8 { if v < 10 { (48 + v) as u8 } else { (87 + v) as u8 } }
pub open spec fn hex4(v: int) -> Seq<u8> { seq![hexdigit(v / 4096 % 16), hexdigit(v / 256 % 16), hexdigit(v / 16 % 16), hexdigit(v % 16)] }
pub open spec fn dec_of(n: nat) -> Seq<u8> decreases n {
    if n < 10 { seq![(48 + n) as u8] } else { dec_of(n / 10).push((48 + n % 10) as u8) }
}
pub open spec fn dec_int(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + dec_of((-n) as nat) } else { dec_of(n as nat) } }
pub open spec fn dec03(n: int) -> Seq<u8> {
    if 0 <= n < 10 { seq![48u8, 48u8] + dec_int(n) } else if 0 <= n < 100 { seq![48u8] + dec_int(n) } else { dec_int(n) }
}
/// The body of a function that left the verifier's reach on this tree (tools/vx.py reports it undecided).
#[verifier::external_body] pub fn xundecided<T>() -> (r: T) ensures false { unimplemented!() }
pub trait XDisplay {
    spec fn dv(&self) -> Seq<u8>;
    spec fn nv(&self) -> int;
    fn xdisplay(&self) -> (r: Vec<u8>) ensures r@ == self.dv();
    fn xdisplay03(&self) -> (r: Vec<u8>) ensures r@ == dec03(self.nv());
    fn xhex4(&self) -> (r: Vec<u8>) ensures 0 <= self.nv() < 65536 ==> r@ == hex4(self.nv());
}
macro_rules! xdisplay_int {
    ($t:ty) => { verus! {
        impl XDisplay for $t {
            open spec fn dv(&self) -> Seq<u8> { dec_int(*self as int) }
            open spec fn nv(&self) -> int { *self as int }
            #[verifier::external_body] fn xdisplay(&self) -> (r: Vec<u8>) { unimplemented!() }
            #[verifier::external_body] fn xdisplay03(&self) -> (r: Vec<u8>) { unimplemented!() }
            #[verifier::external_body] fn xhex4(&self) -> (r: Vec<u8>) { unimplemented!() }
        }
    } }
}
xdisplay_int!(usize);
xdisplay_int!(u64);
xdisplay_int!(u32);
xdisplay_int!(i64);
xdisplay_int!(i32);
macro_rules! xdisplay_bytes {
    ($t:ty) => { verus! {
        impl<'b> XDisplay for $t {
            open spec fn dv(&self) -> Seq<u8> { self.bv() }
            uninterp spec fn nv(&self) -> int;
            #[verifier::external_body] fn xdisplay(&self) -> (r: Vec<u8>) { unimplemented!() }
            #[verifier::external_body] fn xdisplay03(&self) -> (r: Vec<u8>) { unimplemented!() }
            #[verifier::external_body] fn xhex4(&self) -> (r: Vec<u8>) { unimplemented!() }
        }
    } }
}
xdisplay_bytes!([u8]);
xdisplay_bytes!(Vec<u8>);
xdisplay_bytes!(&'b [u8]);
impl<'b, T: XDisplay> XDisplay for &'b T {
    open spec fn dv(&self) -> Seq<u8> { (**self).dv() }
    open spec fn nv(&self) -> int { (**self).nv() }
    #[verifier::external_body] fn xdisplay(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xdisplay03(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xhex4(&self) -> (r: Vec<u8>) { unimplemented!() }
}
/// `{:?}`: only used in messages; the text is left unspecified.
pub trait XDebug { fn xdebug(&self) -> (r: Vec<u8>); }
impl XDebug for Vec<u8> { #[verifier::external_body] fn xdebug(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl<'b> XDebug for &'b Vec<u8> { #[verifier::external_body] fn xdebug(&self) -> (r: Vec<u8>) { unimplemented!() } }
#[verifier::external_body]
pub fn xcat0(a: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn xcat(a: Vec<u8>, b: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ { unimplemented!() }

// ------------------------------------------------------------------ conversions
pub trait XInto<T>: Sized {
    spec fn iv(self) -> T;
    spec fn iok(self, r: T) -> bool;
    fn xinto(self) -> (r: T) ensures self.iok(r);
}
macro_rules! xinto_int {
    ($a:ty => $($b:ty),*) => { verus! { $(
        impl XInto<$b> for $a { open spec fn iv(self) -> $b { self as $b } open spec fn iok(self, r: $b) -> bool { r as int == self as int } fn xinto(self) -> (r: $b) { self as $b } }
    )* } }
}
xinto_int!(u8 => u16, u32, u64, i16, i32, i64, usize);
xinto_int!(u16 => u32, u64, i32, i64, usize);
xinto_int!(u32 => u64, i64);
xinto_int!(i32 => i64);
macro_rules! xinto_bytes {
    ($t:ty) => { verus! {
        impl<'b> XInto<Vec<u8>> for $t {
            uninterp spec fn iv(self) -> Vec<u8>;
            open spec fn iok(self, r: Vec<u8>) -> bool { r@ == self.bv() }
            #[verifier::external_body] fn xinto(self) -> (r: Vec<u8>) { unimplemented!() }
        }
    } }
}
impl XInto<Vec<u8>> for PathBuf {
    uninterp spec fn iv(self) -> Vec<u8>;
    open spec fn iok(self, r: Vec<u8>) -> bool { r@ == self.p@ }
    #[verifier::external_body] fn xinto(self) -> (r: Vec<u8>) { unimplemented!() }
}
xinto_bytes!(Vec<u8>);
xinto_bytes!(&'b [u8]);
xinto_bytes!(&'b Vec<u8>);
pub assume_specification<T, E> [Option::<core::result::Result<T, E>>::transpose] (o: Option<core::result::Result<T, E>>) -> (r: core::result::Result<Option<T>, E>)
    ensures r == (match o { Some(Ok(x)) => Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => Err::<Option<T>, E>(e), None => Ok::<Option<T>, E>(None) });
/// `Box::new`: boxes are transparent.
pub trait XBox: Sized { fn xbox(self) -> (r: Self) ensures r == self; }
impl<T> XBox for T { #[verifier::external_body] fn xbox(self) -> (r: T) { self } }
pub trait XFrom<T>: Sized { spec fn fv(t: T) -> Self; fn xxfrom(t: T) -> (r: Self) ensures r == Self::fv(t); }
pub fn xfrom<A, B: XFrom<A>>(a: A) -> (r: B) ensures r == B::fv(a) { B::xxfrom(a) }
impl XFrom<crate::errors::Error> for crate::errors::Error { open spec fn fv(t: crate::errors::Error) -> Self { t } fn xxfrom(t: crate::errors::Error) -> (r: Self) { t } }

pub use cmp::XOrd;
pub mod cmp {
    use vstd::prelude::*;
    pub trait XOrd: Sized {
        spec fn le(self, o: Self) -> bool;
        fn xmin(self, o: Self) -> (r: Self) ensures r == if self.le(o) { self } else { o };
        fn xmax(self, o: Self) -> (r: Self) ensures r == if self.le(o) { o } else { self };
    }
    macro_rules! xord { ($($t:ty),*) => { verus! { $(
        impl XOrd for $t {
            open spec fn le(self, o: $t) -> bool { self <= o }
            fn xmin(self, o: $t) -> (r: $t) { if self <= o { self } else { o } }
            fn xmax(self, o: $t) -> (r: $t) { if self <= o { o } else { self } }
        }
    )* } } }
    xord!(u8, u16, u32, u64, usize, i16, i32, i64);
    pub fn min<T: XOrd>(a: T, b: T) -> (r: T) ensures r == if a.le(b) { a } else { b } { a.xmin(b) }
    pub fn max<T: XOrd>(a: T, b: T) -> (r: T) ensures r == if a.le(b) { b } else { a } { a.xmax(b) }
}

/// the lists in a list, one after the other
pub open spec fn flatv(v: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flatv(v.drop_last()) + v.last() } }
pub open spec fn vv2(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
/// `.iter().flatten().cloned().collect()`
#[verifier::external_body]
pub fn xflatten(v: &Vec<Vec<Vec<u8>>>) -> (r: Vec<Vec<u8>>) ensures vv2(r@) == flat_of(v@) { unimplemented!() }
pub open spec fn flat_of(v: Seq<Vec<Vec<u8>>>) -> Seq<Seq<u8>> { flatv(Seq::new(v.len(), |i: int| vv2(v[i]@))) }


/// `std::fmt`: what a Display implementation writes to.
pub mod fmt {
    use vstd::prelude::*;
    use super::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    pub trait Display { fn fmt(&self, f: &mut Formatter) -> (r: Result); }
    pub struct Formatter { pub o: Ghost<Seq<u8>>, pub sink: Ghost<bool> }
    impl Formatter {
        /// everything written so far
        pub open spec fn out(&self) -> Seq<u8> { self.o@ }
        /// the destination can refuse text (a String never does)
        pub open spec fn refuses(&self) -> bool { self.sink@ }
        #[verifier::external_body] pub fn xbuffer() -> (r: Self) ensures r.out() == Seq::<u8>::empty(), !r.refuses() { unimplemented!() }
        #[verifier::external_body] pub fn xtext(self, k: Result) -> (r: Vec<u8>) requires k.is_ok() ensures r@ == self.out() { unimplemented!() }
        #[verifier::external_body]
        pub fn xwrite_fmt(&mut self, b: Vec<u8>) -> (r: Result)
            ensures final(self).refuses() == old(self).refuses(), match r { Ok(_) => final(self).out() == old(self).out() + b@, Err(_) => old(self).refuses() } { unimplemented!() }
        #[verifier::external_body]
        pub fn write_str(&mut self, b: &[u8]) -> (r: Result)
            ensures final(self).refuses() == old(self).refuses(), match r { Ok(_) => final(self).out() == old(self).out() + b@, Err(_) => old(self).refuses() } { unimplemented!() }
    }
}
// ------------------------------------------------------------------ std::io
pub mod io {
    use vstd::prelude::*;
    use super::*;
    #[derive(Clone, Copy)]
    pub enum ErrorKind { NotFound, PermissionDenied, AlreadyExists, UnexpectedEof, InvalidData, InvalidInput, Interrupted, WriteZero, Other }
    impl PartialEq for ErrorKind { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
    }
    pub struct Error { pub k: ErrorKind }
    #[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
    impl Error {
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
        #[verifier::external_body]
        pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) ensures r.k == k { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;

    /// What every read operation keeps: failures stick, and the position at which the underlying
    /// stream continues after the current request does not move.
    #[verifier::prophetic]
    pub open spec fn kept<R: Read + ?Sized>(a: &R, b: &R) -> bool {
        &&& b.rinv()
        &&& (a.failed() ==> b.failed())
        &&& (b.failed() || a.resume().is_none() || !a.mid() || b.resume() == a.resume())
        &&& (a.tracks() == b.tracks())
        &&& b.budget() <= a.budget()
    }
    /// A source of bytes.
    pub trait Read {
        type G;
        /// identity of a borrowed underlying reader
        #[verifier::prophetic] spec fn ident(&self) -> Self::G;
        /// the bytes still to come, up to the end of data
        spec fn rest(&self) -> Seq<u8>;
        /// an input/output failure has happened
        spec fn failed(&self) -> bool;
        /// bytes handed out so far, where the reader keeps track of that
        spec fn seen(&self) -> Seq<u8>;
        spec fn tracks(&self) -> bool;
        /// where the underlying stream continues after the current request, if it is well-framed
        spec fn resume(&self) -> Option<Seq<u8>>;
        /// the current request has not been read to its end
        spec fn mid(&self) -> bool;
        spec fn rinv(&self) -> bool;
        /// the number of bytes of the underlying stream not consumed yet
        spec fn budget(&self) -> nat;
        fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, Error>)
            requires (*old(self)).rinv(),
            ensures
                final(buf)@.len() == old(buf)@.len(),
                (*final(self)).ident() == (*old(self)).ident(),
                (*final(self)).rinv(), (*old(self)).failed() ==> (*final(self)).failed(), (*old(self)).tracks() == (*final(self)).tracks(),
                (*final(self)).budget() + (match r { Ok(n) => n as int, Err(_) => 0 }) <= (*old(self)).budget(),
                (*final(self)).failed() || (*old(self)).resume().is_none() || !(*old(self)).mid() || (*final(self)).resume() == (*old(self)).resume(),
                match r {
                    Ok(n) => {
                        &&& n <= old(buf)@.len() && n <= (*old(self)).rest().len() && ((*old(self)).mid() ==> (*final(self)).resume() == (*old(self)).resume())
                        &&& final(buf)@.take(n as int) =~= (*old(self)).rest().take(n as int)
                        &&& ((*old(self)).tracks() ==> (*final(self)).seen() == (*old(self)).seen() + (*old(self)).rest().take(n as int))
                        &&& (n > 0 ==> (*final(self)).rest() =~= (*old(self)).rest().skip(n as int) && ((*old(self)).mid() ==> (*final(self)).mid()))
                        &&& (n == 0 ==> old(buf)@.len() == 0 || (*old(self)).rest().len() == 0 && (*old(self)).whole())
                        &&& (n > 0 ==> (*final(self)).whole() == (*old(self)).whole())
                    },
                    Err(e) => (*final(self)).failed() || (*old(self)).resume().is_none() || !(*old(self)).mid(),
                };
        /// the data ends as it should (with an end mark)
        spec fn whole(&self) -> bool;
        /// a plain stream, as opposed to a packet reader
        spec fn plain(&self) -> bool;
        /// `Read::read_exact`: the provided method of the trait, used on plain streams only
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: core::result::Result<(), Error>)
            requires (*old(self)).rinv(), (*old(self)).plain(),
            ensures final(buf)@.len() == old(buf)@.len(), (*final(self)).ident() == (*old(self)).ident(), (*final(self)).rinv(), (*final(self)).plain(),
                (*old(self)).failed() ==> (*final(self)).failed(),
                (*final(self)).budget() + (if r.is_ok() { old(buf)@.len() } else { 0 }) <= (*old(self)).budget(),
                match r {
                    Ok(_) => (*old(self)).rest().len() >= old(buf)@.len() && final(buf)@ == (*old(self)).rest().take(old(buf)@.len() as int)
                        && (*final(self)).rest() == (*old(self)).rest().skip(old(buf)@.len() as int) && (*final(self)).failed() == (*old(self)).failed(),
                    Err(e) => ((*final(self)).failed() && e.k != ErrorKind::UnexpectedEof)
                        || (e.k == ErrorKind::UnexpectedEof && (*old(self)).rest().len() < old(buf)@.len() && (*final(self)).rest().len() == 0 && (*final(self)).failed() == (*old(self)).failed()),
                }
        { unimplemented!() }
    }
    /// `Read::take`: the reader's data up to a number of bytes
    pub struct Take<R> { pub r: R, pub n: u64 }
    impl<R: Read> Read for Take<R> {
        type G = R::G;
        #[verifier::prophetic] open spec fn ident(&self) -> R::G { self.r.ident() }
        open spec fn rest(&self) -> Seq<u8> { if self.n < self.r.rest().len() { self.r.rest().take(self.n as int) } else { self.r.rest() } }
        open spec fn failed(&self) -> bool { self.r.failed() }
        open spec fn seen(&self) -> Seq<u8> { self.r.seen() }
        open spec fn tracks(&self) -> bool { self.r.tracks() }
        open spec fn resume(&self) -> Option<Seq<u8>> { self.r.resume() }
        open spec fn mid(&self) -> bool { self.r.mid() }
        open spec fn whole(&self) -> bool { self.r.whole() || self.n <= self.r.rest().len() }
        open spec fn rinv(&self) -> bool { self.r.rinv() }
        open spec fn plain(&self) -> bool { self.r.plain() }
        open spec fn budget(&self) -> nat { self.r.budget() }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
    }
    /// f is a sequence of data packets (at most 65516 bytes each) whose payloads concatenate to d
    pub open spec fn frames(f: Seq<u8>, d: Seq<u8>) -> bool decreases f.len() {
        if f.len() == 0 { d.len() == 0 } else {
            match crate::pktline::dec(f) {
                crate::pktline::Pk::Data(x) => 1 <= x.len() <= d.len() && x == d.take(x.len() as int) && frames(f.skip(4 + x.len() as int), d.skip(x.len() as int)),
                _ => false,
            }
        }
    }
    pub open spec fn wrote(framed: bool, a: Seq<u8>, b: Seq<u8>, d: Seq<u8>) -> bool {
        if framed { b.len() >= a.len() && b.take(a.len() as int) == a && frames(b.skip(a.len() as int), d) } else { b =~= a + d }
    }
    /// a short text is written as a single packet
    pub open spec fn one_packet(framed: bool, a: Seq<u8>, b: Seq<u8>, d: Seq<u8>) -> bool {
        framed && d.len() <= 65516 ==> b =~= a + crate::pktline::one(d)
    }
    /// what every write operation keeps
    #[verifier::prophetic]
    pub open spec fn wkept<W: Write + ?Sized>(a: &W, b: &W) -> bool {
        b.framed() == a.framed() && b.winv() && (a.wfailed() ==> b.wfailed()) && b.wident() == a.wident()
    }
    pub trait Write {
        type WG;
        #[verifier::prophetic] spec fn wident(&self) -> Self::WG;
        /// everything written so far
        spec fn out(&self) -> Seq<u8>;
        /// everything written so far has been handed on (flushed)
        spec fn flushed(&self) -> bool;
        spec fn framed(&self) -> bool;
        spec fn wfailed(&self) -> bool;
        spec fn winv(&self) -> bool;
        fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, Error>)
            requires (*old(self)).winv(),
            ensures (*final(self)).framed() == (*old(self)).framed(), (*final(self)).winv(), (*old(self)).wfailed() ==> (*final(self)).wfailed(), (*final(self)).wident() == (*old(self)).wident(),
                match r { Ok(n) => n <= buf@.len() && wrote((*old(self)).framed(), (*old(self)).out(), (*final(self)).out(), buf@.take(n as int)) && ((*old(self)).framed() ==> n == buf@.len()), Err(_) => (*final(self)).wfailed() },
                r.is_ok() ==> one_packet((*old(self)).framed(), (*old(self)).out(), (*final(self)).out(), buf@); // [C05]
        fn flush(&mut self) -> (r: core::result::Result<(), Error>)
            requires (*old(self)).winv(),
            ensures (*final(self)).framed() == (*old(self)).framed(), (*final(self)).winv(), (*old(self)).wfailed() ==> (*final(self)).wfailed(), (*final(self)).wident() == (*old(self)).wident(), (*final(self)).out() == (*old(self)).out(),
                match r { Ok(_) => (*final(self)).flushed(), Err(_) => (*final(self)).wfailed() };
        /// `write!` and `writeln!`: the formatted text is written like `write_all`.
        #[verifier::external_body]
        fn xwrite_fmt(&mut self, buf: Vec<u8>) -> (r: core::result::Result<(), Error>)
            requires (*old(self)).winv(),
            ensures (*final(self)).framed() == (*old(self)).framed(), (*final(self)).winv(), (*old(self)).wfailed() ==> (*final(self)).wfailed(), (*final(self)).wident() == (*old(self)).wident(),
                match r { Ok(_) => wrote((*old(self)).framed(), (*old(self)).out(), (*final(self)).out(), buf@) && one_packet((*old(self)).framed(), (*old(self)).out(), (*final(self)).out(), buf@), Err(_) => (*final(self)).wfailed() },
                reliable::<Self>() ==> r.is_ok(),
        { unimplemented!() }
        /// `Write::write_all`: the provided method of the trait
        #[verifier::external_body]
        fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), Error>)
            requires (*old(self)).winv(),
            ensures (*final(self)).framed() == (*old(self)).framed(), (*final(self)).winv(), (*old(self)).wfailed() ==> (*final(self)).wfailed(), (*final(self)).wident() == (*old(self)).wident(),
                match r { Ok(_) => wrote((*old(self)).framed(), (*old(self)).out(), (*final(self)).out(), buf@) && one_packet((*old(self)).framed(), (*old(self)).out(), (*final(self)).out(), buf@), Err(_) => (*final(self)).wfailed() }
        { unimplemented!() }
    }
    /// Writing to streams of this type never fails (assumed for standard error).
    pub uninterp spec fn reliable<W: ?Sized>() -> bool;
    /// a standard stream: its descriptor, and what this handle has written
    pub struct StdStream { pub fd: Ghost<int>, pub data: Ghost<Seq<u8>>, pub fl: Ghost<bool>, pub bad: Ghost<bool> }
    impl StdStream {
        #[verifier::external_body] pub fn as_raw_fd(&self) -> (r: i32) ensures r == self.fd@ { unimplemented!() }
    }
    pub fn stdout() -> (r: StdStream) ensures r.fd@ == 1, !r.bad@, r.data@ =~= Seq::<u8>::empty() { StdStream { fd: Ghost(1int), data: Ghost(Seq::empty()), fl: Ghost(true), bad: Ghost(false) } }
    pub fn stderr() -> (r: StdStream) ensures r.fd@ == 2, !r.bad@, r.data@ =~= Seq::<u8>::empty() { StdStream { fd: Ghost(2int), data: Ghost(Seq::empty()), fl: Ghost(true), bad: Ghost(false) } }
    /// reading or writing a standard stream fails during the run
    pub uninterp spec fn std_fails() -> bool;
    /// everything standard input holds
    pub uninterp spec fn stdin_data() -> Seq<u8>;
    pub struct Stdin { pub left: Ghost<Seq<u8>>, pub bad: Ghost<bool> }
    #[verifier::external_body] pub fn stdin() -> (r: Stdin) ensures r.left@ == stdin_data(), !r.bad@, r.budget() <= u64::MAX { unimplemented!() }
    /// `eprint!` of a formatted text: a panic if standard error cannot be written to
    #[verifier::external_body] pub fn xeprint(b: Vec<u8>) { unimplemented!() }
    impl Write for StdStream {
        type WG = ();
        #[verifier::prophetic] open spec fn wident(&self) -> () { () }
        open spec fn out(&self) -> Seq<u8> { self.data@ }
        open spec fn flushed(&self) -> bool { self.fl@ }
        open spec fn framed(&self) -> bool { false }
        open spec fn wfailed(&self) -> bool { self.bad@ }
        open spec fn winv(&self) -> bool { self.bad@ ==> std_fails() }
        #[verifier::external_body]
        fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: core::result::Result<(), Error>) { unimplemented!() }
    }
    impl Read for Stdin {
        type G = ();
        #[verifier::prophetic] open spec fn ident(&self) -> () { () }
        open spec fn rest(&self) -> Seq<u8> { self.left@ }
        open spec fn failed(&self) -> bool { self.bad@ }
        open spec fn seen(&self) -> Seq<u8> { Seq::empty() }
        open spec fn tracks(&self) -> bool { false }
        open spec fn resume(&self) -> Option<Seq<u8>> { Some(Seq::empty()) }
        open spec fn whole(&self) -> bool { true }
        open spec fn mid(&self) -> bool { true }
        open spec fn rinv(&self) -> bool { self.bad@ ==> std_fails() }
        uninterp spec fn budget(&self) -> nat;
        open spec fn plain(&self) -> bool { true }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
    }
    /// Reading and writing through references; the identity is the value the referent finally has.
    impl<'r, R: Read> Read for &'r mut R {
        type G = R;
        #[verifier::prophetic] open spec fn ident(&self) -> R { *final(*self) }
        open spec fn rest(&self) -> Seq<u8> { (**self).rest() }
        open spec fn failed(&self) -> bool { (**self).failed() }
        open spec fn seen(&self) -> Seq<u8> { (**self).seen() }
        open spec fn tracks(&self) -> bool { (**self).tracks() }
        open spec fn resume(&self) -> Option<Seq<u8>> { (**self).resume() }
        open spec fn mid(&self) -> bool { (**self).mid() }
        open spec fn whole(&self) -> bool { (**self).whole() }
        open spec fn rinv(&self) -> bool { (**self).rinv() }
        open spec fn plain(&self) -> bool { (**self).plain() }
        open spec fn budget(&self) -> nat { (**self).budget() }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
    }
    impl<'r, W: Write> Write for &'r mut W {
        type WG = W;
        #[verifier::prophetic] open spec fn wident(&self) -> W { *final(*self) }
        open spec fn out(&self) -> Seq<u8> { (**self).out() }
        open spec fn flushed(&self) -> bool { (**self).flushed() }
        open spec fn framed(&self) -> bool { (**self).framed() }
        open spec fn wfailed(&self) -> bool { (**self).wfailed() }
        open spec fn winv(&self) -> bool { (**self).winv() }
        #[verifier::external_body]
        fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, Error>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: core::result::Result<(), Error>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn copy<R: Read, W: Write>(rdr: &mut R, wrtr: &mut W) -> (r: core::result::Result<u64, Error>)
        requires (*old(rdr)).rinv(), (*old(wrtr)).winv(),
        ensures (*final(rdr)).ident() == (*old(rdr)).ident(), kept(old(rdr), final(rdr)), wkept(old(wrtr), final(wrtr)),
            match r {
                Ok(n) => n == (*old(rdr)).rest().len() && wrote((*old(wrtr)).framed(), (*old(wrtr)).out(), (*final(wrtr)).out(), (*old(rdr)).rest())
                    && (*old(rdr)).whole() && ((*old(rdr)).mid() ==> (*final(rdr)).resume() == (*old(rdr)).resume()) && ((*old(rdr)).tracks() ==> (*final(rdr)).seen() == (*old(rdr)).seen() + (*old(rdr)).rest()),
                Err(e) => (*final(rdr)).failed() || (*final(wrtr)).wfailed() || (*old(rdr)).resume().is_none() || !(*old(rdr)).mid(),
            },
    { unimplemented!() }
}
/// The provided methods of `Read` that work on any reader.
pub trait XRead: io::Read + Sized {
        /// `Read::read_to_end`
        #[verifier::external_body]
        fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: core::result::Result<usize, io::Error>)
            requires (*old(self)).rinv(),
            ensures (*final(self)).ident() == (*old(self)).ident(), io::kept(old(self), final(self)),
                match r {
                    Ok(n) => n == (*old(self)).rest().len() && final(v)@ == old(v)@ + (*old(self)).rest() && (*final(self)).rest().len() == 0
                        && (*old(self)).whole() && ((*old(self)).mid() ==> (*final(self)).resume() == (*old(self)).resume()) && ((*old(self)).tracks() ==> (*final(self)).seen() == (*old(self)).seen() + (*old(self)).rest()),
                    Err(e) => (*final(self)).failed() || (*old(self)).resume().is_none() || !(*old(self)).mid(),
                }
        { unimplemented!() }
        fn take(self, n: u64) -> (r: io::Take<Self>) ensures r.r == self, r.n == n { io::Take { r: self, n } }
        fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self }
}
impl<R: io::Read> XRead for R {}
// ------------------------------------------------------------------ text and numbers
/// `String::from_utf8_lossy`: only its effect on ASCII and non-ASCII text is specified.
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<u8>;
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] < 128 }
#[verifier::external_body]
pub broadcast proof fn lossy_ascii(s: Seq<u8>) ensures ascii(s) == ascii(#[trigger] lossy(s)), ascii(s) ==> lossy(s) == s {}
pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;
#[verifier::external_body]
pub broadcast proof fn utf8_ascii(s: Seq<u8>) ensures ascii(s) ==> #[trigger] is_utf8(s) {}
#[verifier::external_body]
pub fn xutf8_lossy(s: &[u8]) -> (r: Vec<u8>) ensures r@ == lossy(s@) { unimplemented!() }
pub trait XLossy { spec fn lsv(&self) -> Seq<u8>; fn xto_string_lossy(&self) -> (r: Vec<u8>) ensures r@ == lossy(self.lsv()); }
impl XLossy for Vec<u8> { open spec fn lsv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn xto_string_lossy(&self) -> (r: Vec<u8>) { unimplemented!() } }
pub struct Utf8Error { pub x: u8 }
impl Utf8Error { pub fn ok(self) {} }
#[verifier::external_body]
pub fn xutf8_string(s: Vec<u8>) -> (r: core::result::Result<Vec<u8>, Utf8Error>) ensures r.is_ok() == is_utf8(s@), r matches Ok(v) ==> v == s { unimplemented!() }
#[verifier::external_body]
pub fn xutf8_str(s: &[u8]) -> (r: core::result::Result<&[u8], Utf8Error>) ensures r.is_ok() == is_utf8(s@), r matches Ok(v) ==> v == s { unimplemented!() }
/// The value of a nonempty string of decimal digits.
pub open spec fn digits(s: Seq<u8>) -> Option<nat> decreases s.len() {
    if s.len() == 0 { None }
    else if s.len() == 1 { if 48 <= s[0] <= 57 { Some((s[0] - 48) as nat) } else { None } }
    else {
        match digits(s.drop_last()) { Some(v) => if 48 <= s.last() <= 57 { Some(v * 10 + (s.last() - 48) as nat) } else { None }, None => None }
    }
}
/// A decimal integer as `FromStr` accepts it: an optional sign ('-' for signed types only), digits.
pub open spec fn parse_dec(s: Seq<u8>, signed: bool) -> Option<int> {
    if s.len() > 0 && s[0] == 43 { match digits(s.skip(1)) { Some(v) => Some(v as int), None => None } }
    else if s.len() > 0 && s[0] == 45 && signed { match digits(s.skip(1)) { Some(v) => Some(-(v as int)), None => None } }
    else { match digits(s) { Some(v) => Some(v as int), None => None } }
}
pub proof fn lemma_digits_ascii(s: Seq<u8>) ensures digits(s).is_some() ==> ascii(s) decreases s.len()
{
    if s.len() > 1 {
        lemma_digits_ascii(s.drop_last());
        if digits(s).is_some() {
            assert forall|i: int| 0 <= i < s.len() implies s[i] < 128 by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } }
        }
    }
}
pub proof fn lemma_dec_ascii(s: Seq<u8>, signed: bool) ensures parse_dec(s, signed).is_some() ==> ascii(s)
{
    lemma_digits_ascii(s);
    if s.len() > 0 {
        lemma_digits_ascii(s.skip(1));
        if parse_dec(s, signed).is_some() && (s[0] == 43 || s[0] == 45) {
            assert forall|i: int| 0 <= i < s.len() implies s[i] < 128 by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
        }
    }
}
pub struct ParseErr { pub x: u8 }
pub trait FromStr: Sized {
    spec fn ps(s: Seq<u8>) -> Option<Self>;
    proof fn ps_ascii(s: Seq<u8>) ensures Self::ps(s).is_some() ==> ascii(s);
    fn xfrom_str(s: &[u8]) -> (r: core::result::Result<Self, ParseErr>)
        ensures match r { Ok(v) => Self::ps(s@) == Some(v), Err(_) => Self::ps(s@).is_none() };
}
macro_rules! fromstr_int {
    ($t:ty, $signed:expr) => { verus! {
        impl FromStr for $t {
            open spec fn ps(s: Seq<u8>) -> Option<$t> { match parse_dec(s, $signed) { Some(v) => if <$t>::MIN <= v <= <$t>::MAX { Some(v as $t) } else { None }, None => None } }
            proof fn ps_ascii(s: Seq<u8>) { lemma_dec_ascii(s, $signed); }
            #[verifier::external_body]
            fn xfrom_str(s: &[u8]) -> (r: core::result::Result<$t, ParseErr>) { unimplemented!() }
        }
    } }
}
fromstr_int!(u64, false);
fromstr_int!(usize, false);
fromstr_int!(u32, false);
fromstr_int!(i64, true);
fromstr_int!(isize, true);
fromstr_int!(i32, true);
pub broadcast proof fn ps_utf8<F: FromStr>(s: Seq<u8>) ensures (#[trigger] F::ps(s)).is_some() ==> is_utf8(s) { broadcast use utf8_ascii; F::ps_ascii(s); }
/// Parsing a lossy conversion is parsing the bytes.
pub proof fn lemma_lossy_ps<F: FromStr>(s: Seq<u8>) ensures F::ps(lossy(s)) == F::ps(s)
{ broadcast use lossy_ascii; F::ps_ascii(s); F::ps_ascii(lossy(s)); }
pub trait XParse {
    spec fn pv(&self) -> Seq<u8>;
    fn parse<F: FromStr>(&self) -> (r: core::result::Result<F, ParseErr>) ensures match r { Ok(v) => F::ps(self.pv()) == Some(v), Err(_) => F::ps(self.pv()).is_none() };
}
impl XParse for [u8] { open spec fn pv(&self) -> Seq<u8> { self@ } fn parse<F: FromStr>(&self) -> (r: core::result::Result<F, ParseErr>) { F::xfrom_str(self) } }
impl XParse for Vec<u8> { open spec fn pv(&self) -> Seq<u8> { self@ } fn parse<F: FromStr>(&self) -> (r: core::result::Result<F, ParseErr>) { F::xfrom_str(self.as_slice()) } }
#[derive(Clone, Copy)]
pub enum Ordering { Less, Equal, Greater }
pub open spec fn ord_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub trait XCmp { spec fn xcmp_spec(&self, o: &Self) -> Ordering; fn xcmp(&self, o: &Self) -> (r: Ordering) ensures r == self.xcmp_spec(o); }
macro_rules! xcmp_int {
    ($t:ty) => { verus! { impl XCmp for $t { open spec fn xcmp_spec(&self, o: &$t) -> Ordering { ord_int(*self as int, *o as int) } fn xcmp(&self, o: &$t) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } } } } }
}
xcmp_int!(u8);
xcmp_int!(u16);
xcmp_int!(u32);
xcmp_int!(i32);
xcmp_int!(u64);
xcmp_int!(usize);
xcmp_int!(i64);
/// Bytewise comparison.
pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { lex_lt(a.skip(1), b.skip(1)) }
}

// ------------------------------------------------------------------ BTreeMap<Bytes, Bytes>
pub struct BTreeMap<K, V> { pub m: Ghost<Map<Seq<u8>, Seq<u8>>>, pub k: core::marker::PhantomData<K>, pub v: core::marker::PhantomData<V> }
impl BTreeMap<Vec<u8>, Vec<u8>> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m@ == Map::<Seq<u8>, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: Option<Vec<u8>>)
        ensures final(self).m@ == old(self).m@.insert(k@, v@), r.is_some() == old(self).m@.contains_key(k@), r matches Some(x) ==> x@ == old(self).m@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &[u8]) -> (r: Option<&Vec<u8>>)
        ensures r.is_some() == self.m@.contains_key(k@), r matches Some(x) ==> x@ == self.m@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &[u8]) -> (r: bool) ensures r == self.m@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn xis_empty(&self) -> (r: bool) ensures r == (self.m@ =~= Map::<Seq<u8>, Seq<u8>>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &[u8]) -> (r: Option<Vec<u8>>)
        ensures final(self).m@ == old(self).m@.remove(k@), r.is_some() == old(self).m@.contains_key(k@), r matches Some(x) ==> x@ == old(self).m@[k@] { unimplemented!() }
}

// ------------------------------------------------------------------ copies
pub trait XClone: Sized { spec fn same(&self, r: &Self) -> bool; fn xclone(&self) -> (r: Self) ensures self.same(&r); }
impl XClone for Vec<u8> { open spec fn same(&self, r: &Self) -> bool { r@ == self@ } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
pub trait XDigit { spec fn dgv(&self) -> u8; fn xis_ascii_digit(&self) -> (r: bool) ensures r == (48 <= self.dgv() <= 57);
    #[verifier::external_body] fn xis_ascii_hexdigit(&self) -> (r: bool) ensures r == (48 <= self.dgv() <= 57 || 65 <= self.dgv() <= 70 || 97 <= self.dgv() <= 102) { unimplemented!() }
    #[verifier::external_body] fn xis_ascii_lowercase(&self) -> (r: bool) ensures r == (97 <= self.dgv() <= 122) { unimplemented!() }
    #[verifier::external_body] fn xis_ascii_uppercase(&self) -> (r: bool) ensures r == (65 <= self.dgv() <= 90) { unimplemented!() }
    #[verifier::external_body] fn xis_ascii_whitespace(&self) -> (r: bool) ensures r == (self.dgv() == 32 || self.dgv() == 9 || self.dgv() == 10 || self.dgv() == 12 || self.dgv() == 13) { unimplemented!() }
    #[verifier::external_body] fn xto_ascii_lowercase(&self) -> (r: u8) ensures r == (if 65 <= self.dgv() <= 90 { (self.dgv() + 32) as u8 } else { self.dgv() }) { unimplemented!() }
}
impl XDigit for u8 { open spec fn dgv(&self) -> u8 { *self } fn xis_ascii_digit(&self) -> (r: bool) { 48 <= *self && *self <= 57 } }
// ------------------------------------------------------------------ SHA-256
pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn sha256_len(s: Seq<u8>) ensures (#[trigger] sha256(s)).len() == 32 {}
pub open spec fn hexs(s: Seq<u8>) -> Seq<u8> { Seq::new(2 * s.len(), |i: int| hexdigit(if i % 2 == 0 { s[i / 2] as int / 16 } else { s[i / 2] as int % 16 })) }
/// 64 lowercase hexadecimal digits
pub open spec fn is_id(s: Seq<u8>) -> bool { s.len() == 64 && forall|i: int| 0 <= i < 64 ==> 48 <= #[trigger] s[i] <= 57 || 97 <= s[i] <= 102 }
pub broadcast proof fn hexs_sha(s: Seq<u8>) ensures is_id(#[trigger] hexs(sha256(s)))
{ broadcast use sha256_len; }
pub mod digest {
    use vstd::prelude::*;
    use super::*;
    pub trait Digest: io::Write {
        spec fn dg(s: Seq<u8>) -> Seq<u8>;
        fn finalize(self) -> (r: Vec<u8>) where Self: Sized ensures r@ == Self::dg(self.out());
    }
}
pub struct Sha256 { pub fed: Ghost<Seq<u8>> }
impl Sha256 {
    #[verifier::external_body]
    pub fn new() -> (r: Sha256) ensures r.fed@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update<B: XBytes + ?Sized>(&mut self, b: &B) ensures final(self).fed@ == old(self).fed@ + b.bv() { unimplemented!() }
}
impl digest::Digest for Sha256 {
    open spec fn dg(s: Seq<u8>) -> Seq<u8> { sha256(s) }
    #[verifier::external_body]
    fn finalize(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl io::Write for Sha256 {
    type WG = ();
    #[verifier::prophetic] open spec fn wident(&self) -> () { () }
    open spec fn out(&self) -> Seq<u8> { self.fed@ }
    open spec fn flushed(&self) -> bool { true }
    open spec fn framed(&self) -> bool { false }
    open spec fn wfailed(&self) -> bool { false }
    open spec fn winv(&self) -> bool { true }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
}
pub mod hex {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn encode<B: XBytes>(s: B) -> (r: Vec<u8>) ensures r@ == hexs(s.bv()) { unimplemented!() }
}
// ------------------------------------------------------------------ paths
/// A path is its bytes.
pub struct PathBuf { pub p: Ghost<Seq<u8>> }
/// `Path::join`: an absolute second part replaces the first.
pub open spec fn pjoin(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> {
    if b.len() > 0 && b[0] == 47 { b } else if a.len() == 0 || a.last() == 47 { a + b } else { a.push(47) + b }
}
pub trait XPath { spec fn path(&self) -> Seq<u8>; }
impl XPath for PathBuf { open spec fn path(&self) -> Seq<u8> { self.p@ } }
impl<'b> XPath for &'b PathBuf { open spec fn path(&self) -> Seq<u8> { self.p@ } }
impl<'b, 'c> XPath for &'c &'b PathBuf { open spec fn path(&self) -> Seq<u8> { self.p@ } }
impl XPath for Vec<u8> { open spec fn path(&self) -> Seq<u8> { self@ } }
impl<'b> XPath for &'b Vec<u8> { open spec fn path(&self) -> Seq<u8> { (*self)@ } }
impl<'b> XPath for &'b [u8] { open spec fn path(&self) -> Seq<u8> { (*self)@ } }
impl<'b, 'c> XPath for &'c &'b [u8] { open spec fn path(&self) -> Seq<u8> { (**self)@ } }
/// position after the last '/', or 0
pub open spec fn base_at(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s.last() == 47 { s.len() as int } else { base_at(s.drop_last()) } }
/// the last component is not empty and does not begin with '.', and there is another one before it
pub open spec fn has_parent(s: Seq<u8>) -> bool { 2 <= base_at(s) < s.len() && s[base_at(s) - 2] != 47 && s[base_at(s)] != 46 }
impl PathBuf {
    #[verifier::external_body] pub fn from<P: XPath>(x: P) -> (r: PathBuf) ensures r.p@ == x.path() { unimplemented!() }
    #[verifier::external_body] pub fn new<P: XPath>(x: P) -> (r: PathBuf) ensures r.p@ == x.path() { unimplemented!() }
    #[verifier::external_body] pub fn push<P: XPath>(&mut self, x: P) ensures final(self).p@ == pjoin(old(self).p@, x.path()) { unimplemented!() }
    #[verifier::external_body] pub fn join<P: XPath>(&self, x: P) -> (r: PathBuf) ensures r.p@ == pjoin(self.p@, x.path()) { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.p@ == self.p@ { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: PathBuf) ensures r.p@ == self.p@ { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &PathBuf) ensures r.p@ == self.p@ { unimplemented!() }
    /// for a path whose last component has no '.' and is not empty
    #[verifier::external_body] pub fn set_extension<P: XPath>(&mut self, x: P) -> (r: bool)
        ensures base_at(old(self).p@) < old(self).p@.len() && !old(self).p@.skip(base_at(old(self).p@)).contains(46u8) && x.path().len() > 0 && !x.path().contains(47u8)
            ==> final(self).p@ == old(self).p@.push(46) + x.path() { unimplemented!() }
    #[verifier::external_body] pub fn with_extension<P: XPath>(&self, x: P) -> (r: PathBuf)
        ensures base_at(self.p@) < self.p@.len() && !self.p@.skip(base_at(self.p@)).contains(46u8) && x.path().len() > 0 && !x.path().contains(47u8)
            ==> r.p@ == self.p@.push(46) + x.path() { unimplemented!() }
    /// for a path whose last component is not empty, '.' or '..' and that has another one before it
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<PathBuf>)
        ensures has_parent(self.p@) ==> r.is_some() && r.unwrap().p@ == self.p@.take(base_at(self.p@) - 1) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: bool)
        ensures has_parent(old(self).p@) ==> r && final(self).p@ == old(self).p@.take(base_at(old(self).p@) - 1) { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&[u8]>)
        ensures has_parent(self.p@) ==> r.is_some() && r.unwrap()@ == self.p@.skip(base_at(self.p@)) { unimplemented!() }
    #[verifier::external_body] pub fn set_file_name<P: XPath>(&mut self, x: P)
        ensures has_parent(old(self).p@) ==> final(self).p@ == pjoin(old(self).p@.take(base_at(old(self).p@) - 1), x.path()) { unimplemented!() }
    #[verifier::external_body] pub fn with_file_name<P: XPath>(&self, x: P) -> (r: PathBuf)
        ensures has_parent(self.p@) ==> r.p@ == pjoin(self.p@.take(base_at(self.p@) - 1), x.path()) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with<P: XPath>(&self, x: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with<P: XPath>(&self, x: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == (self.p@.len() > 0 && self.p@[0] == 47) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self, w: &mut World) -> (r: bool)
        requires old(w).may_read(self.p@), // [C03]
        ensures unchanged(*old(w), *final(w)), r ==> old(w).has(self.p@), !r ==> !old(w).has(self.p@) || fault() { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self, w: &mut World) -> (r: bool)
        requires old(w).may_read(self.p@), // [C03]
        ensures unchanged(*old(w), *final(w)), r ==> old(w).has(self.p@), !r ==> !old(w).has(self.p@) || fault() { unimplemented!() }
    /// directories are not part of the model: the answer is left open
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self, w: &mut World) -> (r: core::result::Result<fs::Metadata, io::Error>)
        requires old(w).may_read(self.p@), // [C03]
        ensures unchanged(*old(w), *final(w)), fs::meta_of(*old(w), *final(w), self.p@, r) { unimplemented!() }
}
impl XClone for PathBuf { open spec fn same(&self, r: &Self) -> bool { r.p@ == self.p@ } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
impl<'b> XInto<PathBuf> for &'b PathBuf { uninterp spec fn iv(self) -> PathBuf; open spec fn iok(self, r: PathBuf) -> bool { r.p@ == self.p@ } #[verifier::external_body] fn xinto(self) -> (r: PathBuf) { unimplemented!() } }
// ------------------------------------------------------------------ the store
/// A regular file.
pub struct Node { pub data: Seq<u8>, pub mode: int, pub uid: int }
pub struct FsState {
    /// the lfs directory
    pub root: Seq<u8>,
    /// the stored objects, lock records and lock temporaries, by path
    pub files: Map<Seq<u8>, Node>,
    /// the session may change the store
    pub writable: bool,
    /// the file mode creation mask of the process
    pub umask: u32,
}
pub struct World { pub g: Ghost<FsState> }
pub open spec fn objpath(root: Seq<u8>, o: Seq<u8>) -> Seq<u8> { pjoin(pjoin(pjoin(pjoin(root, b"objects"), o.subrange(0, 2)), o.subrange(2, 4)), o) }
pub open spec fn lockdir(root: Seq<u8>) -> Seq<u8> { pjoin(root, b"locks") }
pub open spec fn lockpath(root: Seq<u8>, id: Seq<u8>) -> Seq<u8> { pjoin(lockdir(root), id) }
pub open spec fn locktmp(root: Seq<u8>, id: Seq<u8>) -> Seq<u8> { lockpath(root, id).push(46) + tmpext() }
/// The extension of this process's own temporary files: no other process uses it.
pub open spec fn tmpext() -> Seq<u8> { dec_int(process::pid() as int) + b".lock" }
pub proof fn lemma_dec_digits(n: nat) ensures dec_of(n).len() > 0, forall|i: int| 0 <= i < dec_of(n).len() ==> 48 <= #[trigger] dec_of(n)[i] <= 57 decreases n
{
    if n >= 10 {
        lemma_dec_digits(n / 10);
        assert forall|i: int| 0 <= i < dec_of(n).len() implies 48 <= #[trigger] dec_of(n)[i] <= 57 by { if i < dec_of(n / 10).len() { assert(dec_of(n)[i] == dec_of(n / 10)[i]); } }
    }
}
pub proof fn lemma_tmpext() ensures tmpext().len() > 5, tmpext().last() == 107, !tmpext().contains(47u8)
{
    let n = process::pid() as nat; let l = b".lock";
    lemma_dec_digits(n);
    assert(l.len() == 5 && l[0] == 46 && l[1] == 108 && l[2] == 111 && l[3] == 99 && l[4] == 107);
    assert(tmpext() == dec_of(n) + l);
    assert forall|i: int| 0 <= i < tmpext().len() implies tmpext()[i] != 47 by { if i < dec_of(n).len() { assert(tmpext()[i] == dec_of(n)[i]); } }
}
pub open spec fn is_obj(root: Seq<u8>, p: Seq<u8>) -> bool { exists|o: Seq<u8>| is_id(o) && p == #[trigger] objpath(root, o) }
pub open spec fn is_lock(root: Seq<u8>, p: Seq<u8>) -> bool { exists|o: Seq<u8>| is_id(o) && p == #[trigger] lockpath(root, o) }
pub open spec fn is_tmp(root: Seq<u8>, p: Seq<u8>) -> bool { exists|o: Seq<u8>| is_id(o) && p == #[trigger] locktmp(root, o) }
/// the directories the server may create
pub open spec fn is_dir(root: Seq<u8>, p: Seq<u8>) -> bool {
    ||| p == pjoin(root, b"objects") || p == pjoin(root, b"incomplete") || p == pjoin(root, b"tmp") || p == lockdir(root)
    ||| exists|o: Seq<u8>| is_id(o) && objpath(root, o) == pjoin(p, o)
}
/// the text stored for a lock
pub open spec fn record(time: int, path: Seq<u8>) -> Seq<u8> { b"v1:" + dec_int(time) + b":" + path }
pub open spec fn lock_id(path: Seq<u8>) -> Seq<u8> { hexs(sha256(b"v1:" + path)) }
impl World {
    pub open spec fn has(&self, p: Seq<u8>) -> bool { self.g@.files.contains_key(p) }
    pub open spec fn may_read(&self, p: Seq<u8>) -> bool { is_obj(self.g@.root, p) || is_lock(self.g@.root, p) }
}
pub open spec fn wframe(a: World, b: World) -> bool { a.g@.root == b.g@.root && a.g@.writable == b.g@.writable && a.g@.umask == b.g@.umask }
pub open spec fn unchanged(a: World, b: World) -> bool { wframe(a, b) && a.g@.files == b.g@.files }
/// Some operation on the store's files fails during the run for a reason other than their contents.
pub uninterp spec fn fault() -> bool;
/// length and end of a path below the root
pub proof fn lemma_join(a: Seq<u8>, b: Seq<u8>)
    requires b.len() > 0, b[0] != 47
    ensures pjoin(a, b).len() == a.len() + b.len() + (if a.len() == 0 || a.last() == 47 { 0int } else { 1int }), pjoin(a, b).skip(pjoin(a, b).len() - b.len()) =~= b, pjoin(a, b).last() == b.last(), pjoin(a, b).len() > 0
{ }
pub proof fn lemma_obj(root: Seq<u8>, o: Seq<u8>)
    requires is_id(o)
    ensures objpath(root, o).len() == root.len() + 78 + (if root.len() == 0 || root.last() == 47 { 0int } else { 1int }), objpath(root, o).skip(objpath(root, o).len() - 64) =~= o
{
    let a = o.subrange(0, 2); let b = o.subrange(2, 4); let l = b"objects";
    assert(a[0] == o[0] && b[0] == o[2] && a.last() == o[1] && b.last() == o[3]);
    assert(l.len() == 7 && l[0] == 111 && l[6] == 115);
    lemma_join(root, b"objects"); lemma_join(pjoin(root, b"objects"), a); lemma_join(pjoin(pjoin(root, b"objects"), a), b); lemma_join(pjoin(pjoin(pjoin(root, b"objects"), a), b), o);
}
pub proof fn lemma_lock(root: Seq<u8>, o: Seq<u8>)
    requires is_id(o)
    ensures lockpath(root, o).len() == root.len() + 70 + (if root.len() == 0 || root.last() == 47 { 0int } else { 1int }), lockpath(root, o).skip(lockpath(root, o).len() - 64) =~= o,
        locktmp(root, o).len() == lockpath(root, o).len() + 1 + tmpext().len(), locktmp(root, o).last() == 107, lockpath(root, o).last() == o[63], locktmp(root, o).take(lockpath(root, o).len() as int) =~= lockpath(root, o)
{
    let l = b"locks";
    assert(l.len() == 5 && l[0] == 108 && l[4] == 115);
    lemma_join(root, l); 
    assert(o[0] != 47 && o.len() == 64);
    lemma_join(lockdir(root), o);
    assert(lockdir(root).last() == 115);
    let p = lockpath(root, o); let e = tmpext();
    lemma_tmpext();
    assert(p.push(46).len() == p.len() + 1);
    assert((p.push(46) + e).take(p.len() as int) =~= p);
}
/// paths of different objects and locks differ
pub broadcast proof fn lemma_obj_obj(root: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires is_id(a), is_id(b)
    ensures #![trigger objpath(root, a), objpath(root, b)] objpath(root, a) == objpath(root, b) ==> a == b
{ lemma_obj(root, a); lemma_obj(root, b); }
pub broadcast proof fn lemma_lock_lock(root: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires is_id(a), is_id(b)
    ensures #![trigger lockpath(root, a), lockpath(root, b)] lockpath(root, a) == lockpath(root, b) ==> a == b
{ lemma_lock(root, a); lemma_lock(root, b); }
pub broadcast proof fn lemma_tmp_tmp(root: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires is_id(a), is_id(b)
    ensures #![trigger locktmp(root, a), locktmp(root, b)] locktmp(root, a) == locktmp(root, b) ==> a == b
{ lemma_lock(root, a); lemma_lock(root, b); }
pub broadcast proof fn lemma_obj_lock(root: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires is_id(a), is_id(b)
    ensures #![trigger objpath(root, a), lockpath(root, b)] objpath(root, a) != lockpath(root, b)
{ lemma_obj(root, a); lemma_lock(root, b); }
pub broadcast proof fn lemma_obj_tmp(root: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires is_id(a), is_id(b)
    ensures #![trigger objpath(root, a), locktmp(root, b)] objpath(root, a) != locktmp(root, b)
{ lemma_obj(root, a); lemma_lock(root, b); assert(objpath(root, a).last() == a[63]) by { let p = objpath(root, a); assert(p.skip(p.len() - 64)[63] == p.last()); } }
pub broadcast proof fn lemma_lock_tmp(root: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires is_id(a), is_id(b)
    ensures #![trigger lockpath(root, a), locktmp(root, b)] lockpath(root, a) != locktmp(root, b)
{ lemma_lock(root, a); lemma_lock(root, b); }
pub broadcast proof fn lossy_id(s: Seq<u8>) ensures is_id(#[trigger] lossy(s)) || is_id(s) ==> lossy(s) == s { broadcast use lossy_ascii; }
/// naming a lock's file by joining
pub broadcast proof fn lemma_lockpath(root: Seq<u8>, d: Seq<u8>, id: Seq<u8>) requires is_id(id), d == lockdir(root)
    ensures #![trigger pjoin(d, id), lockdir(root)] pjoin(d, id) == lockpath(root, id), is_lock(root, pjoin(d, id)) { assert(pjoin(d, id) == lockpath(root, id)); }
pub broadcast proof fn lemma_locktmp(root: Seq<u8>, p: Seq<u8>, id: Seq<u8>) requires is_id(id), p =~= lockpath(root, id).push(46) + tmpext()
    ensures #![trigger is_tmp(root, p), lockpath(root, id)] is_tmp(root, p), p == locktmp(root, id) {}
pub broadcast group paths { lemma_lockpath, lemma_locktmp, lemma_obj_obj, lemma_lock_lock, lemma_tmp_tmp, lemma_obj_lock, lemma_obj_tmp, lemma_lock_tmp }

pub mod fs {
    use vstd::prelude::*;
    use super::*;
    type IoResult<T> = core::result::Result<T, io::Error>;
    pub use super::dir::*;
    pub struct Metadata { pub n: Ghost<Node> }
    pub struct Permissions { pub m: Ghost<int> }
    impl Metadata {
        #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r as int == self.n@.data.len() { unimplemented!() }
        #[verifier::external_body] pub fn permissions(&self) -> (r: Permissions) ensures r.m@ == self.n@.mode { unimplemented!() }
        #[verifier::external_body] pub fn uid(&self) -> (r: u32) ensures r as int == self.n@.uid { unimplemented!() }
    }
    impl Permissions {
        #[verifier::external_body] pub fn set_mode(&mut self, m: u32) ensures final(self).m@ == m as int { unimplemented!() }
        #[verifier::external_body] pub fn mode(&self) -> (r: u32) ensures r as int == self.m@ { unimplemented!() }
        #[verifier::external_body] pub fn from_mode(m: u32) -> (r: Permissions) ensures r.m@ == m as int { unimplemented!() }
    }
    pub open spec fn meta_of(a: World, b: World, p: Seq<u8>, r: IoResult<Metadata>) -> bool {
        match r { Ok(m) => a.has(p) && m.n@ == a.g@.files[p], Err(e) => if e.k == io::ErrorKind::NotFound { !a.has(p) } else { fault() } }
    }
    #[verifier::external_body]
    pub fn metadata<P: XPath>(w: &mut World, p: P) -> (r: IoResult<Metadata>)
        requires old(w).may_read(p.path()), // [C03]
        ensures unchanged(*old(w), *final(w)), meta_of(*old(w), *final(w), p.path(), r)
    { unimplemented!() }
    pub struct Buf { pub d: Ghost<Seq<u8>> }
    /// An open file: `left` is what reading yields, `wrote` what was written through it.
    pub struct File { pub left: Ghost<Seq<u8>>, pub fail: Ghost<bool>, pub n: Ghost<Node>, pub h: &'static mut Buf }
    impl File {
        pub open spec fn wrote(&self) -> Seq<u8> { self.h.d@ }
        /// what will have been written when the file is closed
        #[verifier::prophetic] pub open spec fn fin(&self) -> Seq<u8> { final(self.h).d@ }
        #[verifier::external_body]
        pub fn xopen<P: XPath>(w: &mut World, p: P) -> (r: IoResult<File>)
            requires old(w).may_read(p.path()), // [C03]
            ensures unchanged(*old(w), *final(w)),
                match r { Ok(f) => old(w).has(p.path()) && f.n@ == old(w).g@.files[p.path()] && f.left@ == f.n@.data && !f.fail@, Err(e) => if e.k == io::ErrorKind::NotFound { !old(w).has(p.path()) } else { fault() } }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn metadata(&self, w: &mut World) -> (r: IoResult<Metadata>)
            ensures unchanged(*old(w), *final(w)), match r { Ok(m) => m.n@ == self.n@, Err(e) => fault() && e.k != io::ErrorKind::NotFound }
        { unimplemented!() }
        /// creating or truncating a file in place is never right here
        #[verifier::external_body]
        pub fn create<P: XPath>(w: &mut World, p: P) -> (r: IoResult<File>)
            requires false, // [C02, C03, C14]
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: IoResult<usize>)
            ensures final(self).n == old(self).n, match r { Ok(n) => final(v)@ == old(v)@ + old(self).left@, Err(e) => fault() && e.k != io::ErrorKind::NotFound }
        { unimplemented!() }
        /// `drop`: the file is closed, its contents are final
        #[verifier::external_body]
        pub fn xdrop(self, w: &mut World) ensures self.fin() == self.wrote(), *final(w) == *old(w) { unimplemented!() }
    }
    impl io::Read for File {
        type G = ();
        #[verifier::prophetic] open spec fn ident(&self) -> () { () }
        open spec fn rest(&self) -> Seq<u8> { self.left@ }
        open spec fn failed(&self) -> bool { self.fail@ }
        open spec fn seen(&self) -> Seq<u8> { Seq::empty() }
        open spec fn tracks(&self) -> bool { false }
        open spec fn resume(&self) -> Option<Seq<u8>> { Some(Seq::empty()) }
        open spec fn whole(&self) -> bool { true }
        open spec fn mid(&self) -> bool { true }
        open spec fn rinv(&self) -> bool { self.fail@ ==> fault() }
        uninterp spec fn budget(&self) -> nat;
        open spec fn plain(&self) -> bool { true }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
    }
    impl io::Write for File {
        type WG = Seq<u8>;
        #[verifier::prophetic] open spec fn wident(&self) -> Seq<u8> { self.fin() }
        open spec fn out(&self) -> Seq<u8> { self.wrote() }
        open spec fn flushed(&self) -> bool { true }
        open spec fn framed(&self) -> bool { false }
        open spec fn wfailed(&self) -> bool { self.fail@ }
        open spec fn winv(&self) -> bool { self.fail@ ==> fault() }
        #[verifier::external_body]
        fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    }
    pub struct OpenOptions { pub rd: bool, pub wr: bool, pub crn: bool, pub other: bool }
    impl OpenOptions {
        pub fn new() -> (r: OpenOptions) ensures !r.rd && !r.wr && !r.crn && !r.other { OpenOptions { rd: false, wr: false, crn: false, other: false } }
        pub fn read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { rd: b, ..self }) { OpenOptions { rd: b, ..self } }
        pub fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { wr: b, ..self }) { OpenOptions { wr: b, ..self } }
        pub fn create_new(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { crn: b, ..self }) { OpenOptions { crn: b, ..self } }
        pub fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { other: b || self.other, ..self }) { OpenOptions { other: b || self.other, ..self } }
        pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { other: b || self.other, ..self }) { OpenOptions { other: b || self.other, ..self } }
        pub fn append(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { other: b || self.other, ..self }) { OpenOptions { other: b || self.other, ..self } }
        #[verifier::external_body]
        pub fn xopen<P: XPath>(self, w: &mut World, p: P) -> (r: IoResult<File>)
            requires
                self.wr || self.crn || self.other ==> is_tmp(old(w).g@.root, p.path()), // [C02, C03]
                !(self.wr || self.crn || self.other) ==> old(w).may_read(p.path()), // [C03]
                self.wr || self.crn || self.other ==> old(w).g@.writable, // [C04]
                self.wr || self.crn || self.other ==> self.crn && self.wr, // [C14]
            ensures wframe(*old(w), *final(w)),
                !(self.wr || self.crn || self.other) ==> unchanged(*old(w), *final(w)) && (match r {
                    Ok(f) => old(w).has(p.path()) && f.n@ == old(w).g@.files[p.path()] && f.left@ == f.n@.data && !f.fail@,
                    Err(e) => if e.k == io::ErrorKind::NotFound { !old(w).has(p.path()) } else { fault() } }),
                self.crn ==> (match r {
                    Ok(f) => !old(w).has(p.path()) && f.wrote() == Seq::<u8>::empty() && !f.fail@ && final(w).g@.files == old(w).g@.files.insert(p.path(), f.n@) && f.n@.data == f.fin(),
                    Err(e) => unchanged(*old(w), *final(w)) && (if e.k == io::ErrorKind::AlreadyExists { old(w).has(p.path()) } else { fault() }) }),
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn create_dir_all<P: XPath>(w: &mut World, p: P) -> (r: IoResult<()>)
        requires is_dir(old(w).g@.root, p.path()), // [C03]
        ensures unchanged(*old(w), *final(w)), r.is_err() ==> fault()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_permissions<P: XPath>(w: &mut World, p: P, m: Permissions) -> (r: IoResult<()>)
        requires
            is_obj(old(w).g@.root, p.path()), // [C03]
            old(w).g@.writable, // [C04]
        ensures wframe(*old(w), *final(w)),
            match r { Ok(_) => old(w).has(p.path()) && final(w).g@.files == old(w).g@.files.insert(p.path(), Node { mode: m.m@, ..old(w).g@.files[p.path()] }), Err(e) => unchanged(*old(w), *final(w)) && (fault() || !old(w).has(p.path())) }
    { unimplemented!() }
    /// a lock record may appear under this name
    pub open spec fn link_ok(w: World, a: Seq<u8>, b: Seq<u8>) -> bool {
        exists|path: Seq<u8>, t: int| a == locktmp(w.g@.root, lock_id(path)) && b == #[trigger] lockpath(w.g@.root, lock_id(path)) && (w.has(a) ==> w.g@.files[a].data =~= b"v1:" + #[trigger] dec_int(t) + b":" + path)
    }
    #[verifier::external_body]
    pub fn hard_link<P: XPath, Q: XPath>(w: &mut World, a: P, b: Q) -> (r: IoResult<()>)
        requires
            link_ok(*old(w), a.path(), b.path()), // [C03, C14, C17]
            old(w).g@.writable, // [C04]
        ensures wframe(*old(w), *final(w)),
            match r {
                Ok(_) => old(w).has(a.path()) && !old(w).has(b.path()) && final(w).g@.files == old(w).g@.files.insert(b.path(), old(w).g@.files[a.path()]),
                Err(e) => unchanged(*old(w), *final(w)) && (if e.k == io::ErrorKind::AlreadyExists { old(w).has(b.path()) } else { fault() || !old(w).has(a.path()) }),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file<P: XPath>(w: &mut World, p: P) -> (r: IoResult<()>)
        requires
            is_lock(old(w).g@.root, p.path()) || is_tmp(old(w).g@.root, p.path()), // [C02, C03]
            old(w).g@.writable, // [C04]
        ensures wframe(*old(w), *final(w)),
            match r {
                Ok(_) => old(w).has(p.path()) && final(w).g@.files == old(w).g@.files.remove(p.path()),
                // a fault includes another process removing the file first
                Err(e) => unchanged(*old(w), *final(w)) && (fault() || e.k == io::ErrorKind::NotFound && !old(w).has(p.path())),
            }
    { unimplemented!() }
    // operations that could replace or remove stored files non-atomically, or replace locks
    #[verifier::external_body]
    pub fn write<P: XPath, Q: XBytes>(w: &mut World, p: P, b: Q) -> (r: IoResult<()>)
        requires false, // [C02, C03, C14]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copy<P: XPath, Q: XPath>(w: &mut World, a: P, b: Q) -> (r: IoResult<u64>)
        requires false, // [C02, C03, C14]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rename<P: XPath, Q: XPath>(w: &mut World, a: P, b: Q) -> (r: IoResult<()>)
        requires false, // [C02, C03, C14]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir_all<P: XPath>(w: &mut World, a: P) -> (r: IoResult<()>)
        requires false, // [C02, C03]
    { unimplemented!() }
}
// ------------------------------------------------------------------ temporary files
/// The `tempfile` crate: a fresh file that is removed when its handle is dropped.
pub struct Builder { pub pre: Ghost<Seq<u8>>, pub rnd: Ghost<int> }
impl Builder {
    #[verifier::external_body] pub fn new() -> (r: Builder) ensures r.pre@ == Seq::<u8>::empty() && r.rnd@ == 6 { unimplemented!() }
    #[verifier::external_body] pub fn prefix(self, p: &[u8]) -> (r: Builder) ensures r.pre@ == p@ && r.rnd == self.rnd { unimplemented!() }
    #[verifier::external_body] pub fn rand_bytes(self, n: usize) -> (r: Builder) ensures r.pre == self.pre && r.rnd@ == n { unimplemented!() }
    #[verifier::external_body]
    pub fn tempfile_in<P: XPath>(self, w: &mut World, p: P) -> (r: core::result::Result<NamedTempFile, io::Error>)
        requires
            p.path() == pjoin(old(w).g@.root, b"incomplete"), // [C02, C03]
            !self.pre@.contains(47u8), // [C03]
            self.rnd@ >= 6, // [C02]
            old(w).g@.writable, // [C04]
        ensures unchanged(*old(w), *final(w)), match r { Ok(t) => t.file.wrote() == Seq::<u8>::empty() && !t.file.fail@, Err(e) => fault() && e.k != io::ErrorKind::NotFound }
    { unimplemented!() }
}
pub struct NamedTempFile { pub file: fs::File }
pub struct TempPath { pub data: Ghost<Seq<u8>> }
pub struct PersistError { pub x: u8 }
pub open spec fn persisted(a: World, b: World, d: Seq<u8>, p: Seq<u8>, ok: bool) -> bool {
    wframe(a, b) && if ok { b.has(p) && b.g@.files[p].data == d && b.g@.files =~= a.g@.files.insert(p, b.g@.files[p]) } else { unchanged(a, b) && fault() }
}
/// an object may appear under this name with these contents
pub open spec fn obj_ok(w: World, d: Seq<u8>, p: Seq<u8>) -> bool { p == objpath(w.g@.root, hexs(sha256(d))) }
impl NamedTempFile {
    pub fn as_file_mut(&mut self) -> (r: &mut fs::File) ensures *r == old(self).file, *final(r) == final(self).file { &mut self.file }
    #[verifier::external_body] pub fn into_temp_path(self) -> (r: TempPath) ensures r.data@ == self.file.wrote() { unimplemented!() }
    #[verifier::external_body]
    pub fn persist<P: XPath>(self, w: &mut World, p: P) -> (r: core::result::Result<fs::File, PersistError>)
        requires
            obj_ok(*old(w), self.file.wrote(), p.path()), // [C01, C02, C03]
            old(w).g@.writable, // [C04]
        ensures persisted(*old(w), *final(w), self.file.wrote(), p.path(), r.is_ok())
    { unimplemented!() }
}
impl TempPath {
    #[verifier::external_body]
    pub fn persist<P: XPath>(self, w: &mut World, p: P) -> (r: core::result::Result<(), PersistError>)
        requires
            obj_ok(*old(w), self.data@, p.path()), // [C01, C02, C03]
            old(w).g@.writable, // [C04]
        ensures persisted(*old(w), *final(w), self.data@, p.path(), r.is_ok())
    { unimplemented!() }
}
// ------------------------------------------------------------------ directories
/// The names in the lock directory: anything, but each once, and exactly the stored lock names among the ids.
pub open spec fn listing(w: World, names: Seq<Seq<u8>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < names.len() ==> names[i] != names[j]
    &&& forall|id: Seq<u8>| is_id(id) ==> (names.contains(id) <==> w.has(#[trigger] lockpath(w.g@.root, id)))
}
pub mod dir {
    use vstd::prelude::*;
    use super::*;
    pub struct DirEntry { pub name: Ghost<Seq<u8>> }
    impl DirEntry {
        #[verifier::external_body] pub fn file_name(&self) -> (r: Vec<u8>) ensures r@ == self.name@ { unimplemented!() }
    }
    pub struct ReadDir { pub names: Ghost<Seq<Seq<u8>>>, pub i: Ghost<int> }
    impl ReadDir {
        pub open spec fn inv(&self) -> bool { 0 <= self.i@ <= self.names@.len() }
        #[verifier::external_body]
        pub fn xnext(&mut self) -> (r: Option<core::result::Result<DirEntry, io::Error>>)
            requires old(self).inv()
            ensures final(self).inv(), final(self).names == old(self).names,
                match r {
                    Some(Ok(d)) => old(self).i@ < old(self).names@.len() && d.name@ == old(self).names@[old(self).i@] && final(self).i@ == old(self).i@ + 1,
                    Some(Err(e)) => fault() && final(self).i@ >= old(self).i@,
                    None => old(self).i@ == old(self).names@.len() && final(self).i@ == old(self).i@,
                }
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn read_dir<P: XPath>(w: &mut World, p: P) -> (r: core::result::Result<ReadDir, io::Error>)
        requires p.path() == lockdir(old(w).g@.root), // [C03]
        ensures unchanged(*old(w), *final(w)), match r { Ok(d) => d.i@ == 0 && d.inv() && listing(*old(w), d.names@), Err(e) => fault() }
    { unimplemented!() }
}
/// p is a permutation of 0..n
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j]
    &&& forall|k: int| 0 <= k < n ==> p.contains(k)
}
pub open spec fn sorted_by(p: Seq<int>, a: Seq<Vec<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> !lex_lt(a[p[j]]@, a[p[i]]@) }
/// b is a in the order of the keys k
pub open spec fn sorted_with<T>(a: Seq<T>, b: Seq<T>, k: Seq<Vec<u8>>) -> bool { exists|p: Seq<int>| is_perm(p, k.len() as int) && #[trigger] sorted_by(p, k) && b == Seq::new(k.len(), |i: int| a[p[i]]) }
pub proof fn lex_total(a: Seq<u8>, b: Seq<u8>) ensures lex_lt(a, b) || a == b || lex_lt(b, a), !(lex_lt(a, b) && lex_lt(b, a)), !lex_lt(a, a) decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lex_total(a.skip(1), b.skip(1)); lex_total(a.skip(1), a.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); } } assert(a.len() == b.len()) by { assert(a.skip(1).len() == b.skip(1).len()); } assert(a =~= b); }
    } else if a.len() > 0 { lex_total(a.skip(1), a.skip(1)); } else if b.len() == 0 { assert(a =~= b); }
}
pub proof fn lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires lex_lt(a, b), lex_lt(b, c) ensures lex_lt(a, c) decreases a.len()
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_trans(a.skip(1), b.skip(1), c.skip(1)); } }
/// `sort_by_key`: a sort by the given keys (one for each element)
pub trait XSort<T> {
    spec fn sv(&self) -> Seq<T>;
    fn xsort_with(&mut self, k: Vec<Vec<u8>>)
        requires k@.len() == old(self).sv().len()
        ensures sorted_with(old(self).sv(), final(self).sv(), k@);
}
impl<T> XSort<T> for Vec<T> { open spec fn sv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn xsort_with(&mut self, k: Vec<Vec<u8>>) { unimplemented!() } }
/// `sort_by` with a comparison of keys: a permutation p, sorted by the keys in this direction; equal keys
/// stay in their order if the sort is stable
pub trait XKey: Sized { spec fn before(a: Self, b: Self) -> bool; }
pub open spec fn key_ordered<K: XKey>(p: Seq<int>, k: Seq<K>, desc: bool, stable: bool) -> bool {
    forall|i: int, j: int| 0 <= i < j < p.len() ==> {
        let (a, b) = (#[trigger] k[p[i]], #[trigger] k[p[j]]);
        (if desc { !K::before(a, b) } else { !K::before(b, a) }) && (stable && !K::before(a, b) && !K::before(b, a) ==> p[i] < p[j])
    }
}
pub open spec fn sorted_keys<T, K: XKey>(a: Seq<T>, b: Seq<T>, k: Seq<K>, desc: bool, stable: bool) -> bool {
    exists|p: Seq<int>| is_perm(p, k.len() as int) && #[trigger] key_ordered(p, k, desc, stable) && b == Seq::new(k.len(), |i: int| a[p[i]])
}
pub trait XSortKeys<T> {
    spec fn skv(&self) -> Seq<T>;
    fn xsort_keys<K: XKey>(&mut self, k: Vec<K>, desc: bool, stable: bool)
        requires k@.len() == old(self).skv().len()
        ensures sorted_keys(old(self).skv(), final(self).skv(), k@, desc, stable);
}
impl<T> XSortKeys<T> for Vec<T> { open spec fn skv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn xsort_keys<K: XKey>(&mut self, k: Vec<K>, desc: bool, stable: bool) { unimplemented!() } }
pub trait XReverse<T> {
    spec fn rvv(&self) -> Seq<T>;
    fn xreverse(&mut self) ensures final(self).rvv() == old(self).rvv().reverse();
}
impl<T> XReverse<T> for Vec<T> { open spec fn rvv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn xreverse(&mut self) { unimplemented!() } }
pub struct RangeI32 { pub n: i32, pub end: i32 }
#[verifier::external_body] pub fn xrange_i32(a: i32, z: i32) -> (r: RangeI32) ensures r.n == a, r.end == z { unimplemented!() }
impl RangeI32 {
    #[verifier::external_body] pub fn xnext(&mut self) -> (r: Option<i32>)
        ensures final(self).end == old(self).end, if old(self).n < old(self).end { r == Some(old(self).n) && final(self).n == old(self).n + 1 } else { r.is_none() && final(self).n == old(self).n } { unimplemented!() }
}
/// the numbers from a on; counting past the largest one panics
pub struct FromI32 { pub n: i32 }
#[verifier::external_body] pub fn xfrom_i32(a: i32) -> (r: FromI32) ensures r.n == a { unimplemented!() }
impl FromI32 {
    #[verifier::external_body] pub fn xnext(&mut self) -> (r: Option<i32>)
        requires old(self).n < i32::MAX
        ensures r == Some(old(self).n), final(self).n == old(self).n + 1 { unimplemented!() }
}
// ------------------------------------------------------------------ users and times
pub uninterp spec fn user_name(uid: int) -> Option<Seq<u8>>;
pub uninterp spec fn my_uid() -> int;
/// the name shown for the owner of a file
pub open spec fn owner_name(uid: int) -> Seq<u8> { match user_name(uid) { Some(n) => n, None => b"uid " + dec_int(uid) } }
pub mod passwd {
    use vstd::prelude::*;
    use super::*;
    pub struct Passwd { pub name: Vec<u8> }
    impl Passwd {
        #[verifier::external_body] pub fn from_uid(uid: u32) -> (r: Option<Passwd>) ensures match r { Some(p) => user_name(uid as int) == Some(p.name@), None => user_name(uid as int).is_none() } { unimplemented!() }
    }
}
pub mod libc {
    use vstd::prelude::*;
    use super::*;
    /// the descriptor is a terminal
    pub uninterp spec fn tty(fd: int) -> bool;
    #[verifier::external_body] pub fn isatty(fd: i32) -> (r: i32) ensures r == (if tty(fd as int) { 1i32 } else { 0i32 }) { unimplemented!() }
    #[verifier::external_body] pub fn signal(s: i32, h: usize) -> (r: usize) { unimplemented!() }
    pub const SIGPIPE: i32 = 13;
    pub const SIG_DFL: usize = 0;
    pub const STDIN_FILENO: i32 = 0;
    pub const STDOUT_FILENO: i32 = 1;
    pub const STDERR_FILENO: i32 = 2;
    #[verifier::external_body] pub fn getuid() -> (r: u32) ensures r as int == my_uid() { unimplemented!() }
    /// sets the mask and returns the one it replaces
    #[verifier::external_body] pub fn umask(w: &mut World, m: u32) -> (r: u32)
        ensures r == old(w).g@.umask, final(w).g@ == (FsState { umask: m & 0o777, ..old(w).g@ }) { unimplemented!() }
}
/// a time (in seconds since the epoch) that can be represented as a date, and its RFC 3339 form in UTC
pub uninterp spec fn representable(t: int) -> bool;
pub uninterp spec fn rfc3339(t: int) -> Seq<u8>;
/// years 1 to 9999
#[verifier::external_body]
pub broadcast proof fn representable_years(t: int) ensures -62135596800 <= t <= 253402300799 ==> #[trigger] representable(t) {}
pub struct Utc;
pub struct LocalResult { pub t: Ghost<int> }
pub struct DateTime { pub t: Ghost<int> }
impl Utc {
    #[verifier::external_body] pub fn timestamp_opt(&self, t: i64, n: u32) -> (r: LocalResult) requires n == 0 ensures r.t@ == t as int { unimplemented!() }
}
impl LocalResult {
    #[verifier::external_body] pub fn single(self) -> (r: Option<DateTime>) ensures match r { Some(d) => representable(self.t@) && d.t == self.t, None => !representable(self.t@) } { unimplemented!() }
    #[verifier::external_body] pub fn unwrap(self) -> (r: DateTime)
        requires representable(self.t@), // [C23]
        ensures r.t == self.t { unimplemented!() }
}
impl DateTime {
    #[verifier::external_body] pub fn to_rfc3339(&self) -> (r: Vec<u8>) ensures r@ == rfc3339(self.t@) { unimplemented!() }
}
/// The clock; assumed to show a time in the years 1 to 9999.
pub struct SystemTime { pub s: i64 }
pub struct Duration { pub s: u64 }
pub struct SystemTimeError { pub d: Duration }
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime { s: 0 };
    #[verifier::external_body] pub fn now() -> (r: SystemTime) ensures -62135596800 <= r.s <= 253402300799 { unimplemented!() }
    #[verifier::external_body] pub fn duration_since(&self, o: SystemTime) -> (r: core::result::Result<Duration, SystemTimeError>)
        ensures match r { Ok(d) => d.s as int == self.s - o.s, Err(e) => e.d.s as int == o.s - self.s } { unimplemented!() }
}
impl SystemTimeError { pub fn duration(&self) -> (r: &Duration) ensures *r == self.d { &self.d } }
impl Duration { pub fn as_secs(&self) -> (r: u64) ensures r == self.s { self.s } }
// ------------------------------------------------------------------ git
/// the value of an octal number (as `from_str_radix` reads it)
pub open spec fn octal(s: Seq<u8>) -> Option<nat> decreases s.len() {
    if s.len() == 0 { None } else if !(48 <= s.last() <= 55) { None } else if s.len() == 1 { Some((s.last() - 48) as nat) }
    else { match octal(s.drop_last()) { Some(v) => Some((v * 8 + s.last() - 48) as nat), None => None } }
}
pub open spec fn parse_oct16(s: Seq<u8>) -> Option<u16> {
    match octal(if s.len() > 1 && s[0] == 43 { s.skip(1) } else { s }) { Some(v) => if v < 65536 { Some(v as u16) } else { None }, None => None }
}
#[verifier::external_body]
pub fn xradix_u16(s: &[u8], base: u32) -> (r: core::result::Result<u16, ParseErr>)
    requires 2 <= base <= 36, // [C23]
    ensures base == 8 ==> r.ok() == parse_oct16(s@)
{ unimplemented!() }
/// A configuration value: its text, and whether git reads it as a boolean.
pub struct ConfVal { pub text: Seq<u8>, pub truth: Option<bool> }
pub mod git2 {
    use vstd::prelude::*;
    use super::*;
    #[derive(Clone, Copy)]
    pub enum ErrorCode { GenericError, NotFound, Exists, Ambiguous, BufSize, User, BareRepo, UnbornBranch, Unmerged, NotFastForward, InvalidSpec, Conflict, Locked, Modified, Auth, Certificate, Applied, Peel, Eof, Invalid, Uncommitted, Directory, MergeConflict, HashsumMismatch, IndexDirty, ApplyFail, Owner }
    #[derive(Clone, Copy)]
    pub struct ErrorClass { pub c: u8 }
    impl PartialEq for ErrorCode { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorCode {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &ErrorCode) -> bool { *self == *o }
    }
    pub struct Error { pub c: ErrorCode }
    #[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
    impl Error {
        pub fn code(&self) -> (r: ErrorCode) ensures r == self.c { self.c }
        #[verifier::external_body] pub fn class(&self) -> (r: ErrorClass) { unimplemented!() }
        #[verifier::external_body] pub fn message(&self) -> (r: &[u8]) { unimplemented!() }
        #[verifier::external_body] pub fn new(c: ErrorCode, k: ErrorClass, m: &[u8]) -> (r: Error) ensures r.c == c { unimplemented!() }
    }
    type GResult<T> = core::result::Result<T, Error>;
    /// the repository's configuration (None if it cannot be read)
    pub struct Repository { pub dir: Ghost<Seq<u8>>, pub conf: Ghost<Option<Map<Seq<u8>, ConfVal>>> }
    pub struct Config { pub vals: Ghost<Map<Seq<u8>, ConfVal>> }
    impl Repository {
        #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r.p@ == self.dir@ { unimplemented!() }
        #[verifier::external_body] pub fn config(&self) -> (r: GResult<Config>)
            ensures match r { Ok(c) => self.conf@ == Some(c.vals@), Err(e) => self.conf@.is_none() } { unimplemented!() }
    }
    impl Config {
        /// may fail on a value that is not UTF-8
        #[verifier::external_body] pub fn get_string(&self, k: &[u8]) -> (r: GResult<Vec<u8>>)
            ensures match r { Ok(v) => self.vals@.contains_key(k@) && v@ == self.vals@[k@].text && is_utf8(v@), Err(e) => if e.c == ErrorCode::NotFound { !self.vals@.contains_key(k@) } else { self.vals@.contains_key(k@) && !is_utf8(self.vals@[k@].text) } } { unimplemented!() }
        /// true for some ASCII texts only
        #[verifier::external_body] pub fn get_bool(&self, k: &[u8]) -> (r: GResult<bool>)
            ensures match r { Ok(v) => self.vals@.contains_key(k@) && self.vals@[k@].truth == Some(v) && is_utf8(self.vals@[k@].text), Err(e) => !self.vals@.contains_key(k@) || self.vals@[k@].truth.is_none() } { unimplemented!() }
    }
    /// the path a configuration value stands for (a leading `~` is the home directory)
    pub uninterp spec fn path_value(v: Seq<u8>) -> Option<Seq<u8>>;
    /// a configuration value taken as a path
    pub open spec fn conf_path(r: Repository, k: Seq<u8>) -> Option<Seq<u8>> {
        match r.conf@ { Some(m) => if m.contains_key(k) { path_value(m[k].text) } else { None }, None => None }
    }
    /// the repository of a directory (one of its parents), and the repository at a path
    pub uninterp spec fn found_from(p: Seq<u8>) -> Option<Repository>;
    pub uninterp spec fn found_at(p: Seq<u8>) -> Option<Repository>;
    impl Repository {
        #[verifier::external_body] pub fn discover<P: XBytes>(p: P) -> (r: GResult<Repository>) ensures match r { Ok(x) => found_from(p.bv()) == Some(x), Err(_) => gfault() || found_from(p.bv()).is_none() } { unimplemented!() }
        #[verifier::external_body] pub fn open<P: XBytes>(p: P) -> (r: GResult<Repository>) ensures match r { Ok(x) => found_at(p.bv()) == Some(x), Err(_) => gfault() || found_at(p.bv()).is_none() } { unimplemented!() }
    }
    impl XDisplay for Error {
        uninterp spec fn dv(&self) -> Seq<u8>;
        uninterp spec fn nv(&self) -> int;
        #[verifier::external_body] fn xdisplay(&self) -> (r: Vec<u8>) { unimplemented!() }
        #[verifier::external_body] fn xdisplay03(&self) -> (r: Vec<u8>) { unimplemented!() }
        #[verifier::external_body] fn xhex4(&self) -> (r: Vec<u8>) { unimplemented!() }
    }
    impl Config {
        #[verifier::external_body] pub fn get_path(&self, k: &[u8]) -> (r: GResult<PathBuf>)
            ensures match r { Ok(v) => self.vals@.contains_key(k@) && path_value(self.vals@[k@].text) == Some(v.p@), Err(_) => !self.vals@.contains_key(k@) || path_value(self.vals@[k@].text).is_none() } { unimplemented!() }
    }
    /// Some git operation fails during the run for a reason other than what the repository contains.
    pub uninterp spec fn gfault() -> bool;
    #[derive(Clone, Copy)]
    pub struct GOid { pub k: Ghost<int> }
    /// the object identifier in hexadecimal
    pub uninterp spec fn oid_hex(o: GOid) -> Seq<u8>;
    impl XDisplay for GOid {
        open spec fn dv(&self) -> Seq<u8> { oid_hex(*self) }
        uninterp spec fn nv(&self) -> int;
        #[verifier::external_body] fn xdisplay(&self) -> (r: Vec<u8>) { unimplemented!() }
        #[verifier::external_body] fn xdisplay03(&self) -> (r: Vec<u8>) { unimplemented!() }
        #[verifier::external_body] fn xhex4(&self) -> (r: Vec<u8>) { unimplemented!() }
    }
    /// the object a revision names
    pub uninterp spec fn revision(r: Repository, name: Seq<u8>) -> Option<GOid>;
    pub uninterp spec fn commitish(r: Repository, o: GOid) -> bool;
    /// the commits reachable from these, in the order git lists them with this sorting
    pub uninterp spec fn walk(r: Repository, s: Sort, from: Seq<GOid>) -> Seq<GOid>;
    /// the message of a commit (raw bytes)
    pub uninterp spec fn message(r: Repository, c: GOid) -> Seq<u8>;
    #[derive(Clone, Copy)]
    pub struct Sort { pub bits: u32 }
    impl Sort {
        pub open spec fn time() -> Sort { Sort { bits: 2 } }
        pub const NONE: Sort = Sort { bits: 0 };
        pub const TOPOLOGICAL: Sort = Sort { bits: 1 };
        pub const TIME: Sort = Sort { bits: 2 };
        pub const REVERSE: Sort = Sort { bits: 4 };
        pub fn from_bits(b: u32) -> (r: Option<Sort>) ensures b <= 7 <==> r.is_some(), r matches Some(s) ==> s.bits == b { if b <= 7 { Some(Sort { bits: b }) } else { None } }
    }
    pub struct Object<'a> { pub repo: &'a Repository, pub o: GOid }
    impl<'a> Object<'a> { pub fn id(&self) -> (r: GOid) ensures r == self.o { self.o } }
    pub struct Commit<'a> { pub repo: &'a Repository, pub o: GOid }
    impl<'a> Commit<'a> {
        pub fn id(&self) -> (r: GOid) ensures r == self.o { self.o }
        #[verifier::external_body] pub fn message_bytes(&self) -> (r: &[u8]) ensures r@ == message(*self.repo, self.o) { unimplemented!() }
    }
    pub struct Revwalk<'a> { pub repo: &'a Repository, pub sort: Ghost<Sort>, pub from: Ghost<Seq<GOid>> }
    impl<'a> Revwalk<'a> {
        #[verifier::external_body] pub fn set_sorting(&mut self, s: Sort) -> (r: GResult<()>)
            ensures match r { Ok(_) => *final(self) == (Revwalk { sort: Ghost(s), ..*old(self) }), Err(_) => gfault() } { unimplemented!() }
        #[verifier::external_body] pub fn push(&mut self, o: GOid) -> (r: GResult<()>)
            ensures match r { Ok(_) => commitish(*old(self).repo, o) && *final(self) == (Revwalk { from: Ghost(old(self).from@.push(o)), ..*old(self) }), Err(e) => gfault() || !commitish(*old(self).repo, o) && e.c != ErrorCode::NotFound } { unimplemented!() }
        #[verifier::external_body] pub fn xiter(self) -> (r: RevIt<'a>)
            ensures r.inv(), r.repo == self.repo, r.all@ == walk(*self.repo, self.sort@, self.from@), r.i@ == 0 { unimplemented!() }
    }
    pub struct RevIt<'a> { pub repo: &'a Repository, pub all: Ghost<Seq<GOid>>, pub i: Ghost<int> }
    impl<'a> RevIt<'a> {
        pub open spec fn inv(&self) -> bool { 0 <= self.i@ <= self.all@.len() }
        #[verifier::external_body] pub fn xnext(&mut self) -> (r: Option<GResult<GOid>>)
            requires old(self).inv()
            ensures final(self).inv(), final(self).repo == old(self).repo, final(self).all == old(self).all,
                match r { None => old(self).i@ == old(self).all@.len(), Some(Ok(o)) => old(self).i@ < old(self).all@.len() && o == old(self).all@[old(self).i@] && final(self).i@ == old(self).i@ + 1, Some(Err(_)) => gfault() } { unimplemented!() }
    }
    impl Repository {
        #[verifier::external_body] pub fn revparse_single<'a>(&'a self, name: &[u8]) -> (r: GResult<Object<'a>>)
            ensures match r { Ok(o) => o.repo == self && revision(*self, name@) == Some(o.o), Err(_) => gfault() || revision(*self, name@).is_none() } { unimplemented!() }
        #[verifier::external_body] pub fn revwalk<'a>(&'a self) -> (r: GResult<Revwalk<'a>>)
            ensures match r { Ok(x) => x.repo == self && x.from@ == Seq::<GOid>::empty(), Err(_) => gfault() } { unimplemented!() }
        #[verifier::external_body] pub fn find_commit<'a>(&'a self, o: GOid) -> (r: GResult<Commit<'a>>)
            ensures match r { Ok(c) => c.repo == self && c.o == o, Err(_) => gfault() } { unimplemented!() }
    }
    // references
    #[derive(Clone, Copy)]
    pub struct RefId { pub k: int }
    /// a point in time with its time zone
    #[derive(Clone, Copy)]
    pub struct Time { pub t: i64, pub z: i32 }
    impl XKey for Option<Time> {
        open spec fn before(a: Self, b: Self) -> bool { match (a, b) { (None, Some(_)) => true, (Some(x), Some(y)) => x.t < y.t || x.t == y.t && x.z < y.z, _ => false } }
    }
    /// all references, in the order git enumerates them
    pub uninterp spec fn refs(r: Repository) -> Seq<RefId>;
    /// the full name of a reference (raw bytes)
    pub uninterp spec fn ref_name(r: Repository, x: RefId) -> Seq<u8>;
    /// the object a direct reference names
    pub uninterp spec fn ref_target(r: Repository, x: RefId) -> Option<GOid>;
    /// the commit a reference resolves to
    pub uninterp spec fn ref_commit(r: Repository, x: RefId) -> Option<GOid>;
    /// the reference a revision names
    pub uninterp spec fn revision_ref(r: Repository, name: Seq<u8>) -> Option<RefId>;
    pub uninterp spec fn committed(r: Repository, c: GOid) -> Time;
    pub uninterp spec fn authored(r: Repository, c: GOid) -> Time;
    pub struct Reference<'a> { pub repo: &'a Repository, pub x: Ghost<RefId> }
    pub struct Signature<'a> { pub repo: &'a Repository, pub at: Ghost<Time> }
    impl<'a> Signature<'a> { #[verifier::external_body] pub fn when(&self) -> (r: Time) ensures r == self.at@ { unimplemented!() } }
    impl<'a> Commit<'a> {
        #[verifier::external_body] pub fn committer(&self) -> (r: Signature<'a>) ensures r.at@ == committed(*self.repo, self.o) { unimplemented!() }
        #[verifier::external_body] pub fn author(&self) -> (r: Signature<'a>) ensures r.at@ == authored(*self.repo, self.o) { unimplemented!() }
        #[verifier::external_body] pub fn time(&self) -> (r: Time) ensures r == committed(*self.repo, self.o) { unimplemented!() }
    }
    impl<'a> Reference<'a> {
        #[verifier::external_body] pub fn name(&self) -> (r: Option<&[u8]>)
            ensures match r { Some(n) => n@ == ref_name(*self.repo, self.x@) && is_utf8(n@), None => !is_utf8(ref_name(*self.repo, self.x@)) } { unimplemented!() }
        #[verifier::external_body] pub fn shorthand(&self) -> (r: Option<&[u8]>) { unimplemented!() }
        #[verifier::external_body] pub fn target(&self) -> (r: Option<GOid>) ensures r == ref_target(*self.repo, self.x@) { unimplemented!() }
        #[verifier::external_body] pub fn peel_to_commit(&self) -> (r: GResult<Commit<'a>>)
            ensures match r { Ok(c) => c.repo == self.repo && ref_commit(*self.repo, self.x@) == Some(c.o), Err(_) => gfault() || ref_commit(*self.repo, self.x@).is_none() } { unimplemented!() }
    }
    pub struct References<'a> { pub repo: &'a Repository, pub i: Ghost<int> }
    impl<'a> References<'a> {
        pub open spec fn inv(&self) -> bool { 0 <= self.i@ <= refs(*self.repo).len() }
        #[verifier::external_body] pub fn xnext(&mut self) -> (r: Option<GResult<Reference<'a>>>)
            requires old(self).inv()
            ensures final(self).inv(), final(self).repo == old(self).repo,
                match r {
                    None => old(self).i@ == refs(*old(self).repo).len() && final(self).i@ == old(self).i@,
                    Some(x) => old(self).i@ < refs(*old(self).repo).len() && final(self).i@ == old(self).i@ + 1 && match x { Ok(y) => y.repo == old(self).repo && y.x@ == refs(*old(self).repo)[old(self).i@], Err(_) => gfault() },
                } { unimplemented!() }
    }
    impl Repository {
        #[verifier::external_body] pub fn references<'a>(&'a self) -> (r: GResult<References<'a>>)
            ensures match r { Ok(x) => x.repo == self && x.i@ == 0, Err(_) => gfault() } { unimplemented!() }
        #[verifier::external_body] pub fn revparse_ext<'a, B: XBytes>(&'a self, name: B) -> (r: GResult<(Object<'a>, Option<Reference<'a>>)>)
            ensures match r {
                Ok(p) => p.0.repo == self && revision(*self, name.bv()) == Some(p.0.o) && (match p.1 { Some(x) => x.repo == self && revision_ref(*self, name.bv()) == Some(x.x@), None => revision_ref(*self, name.bv()).is_none() }),
                Err(_) => gfault() || revision(*self, name.bv()).is_none() } { unimplemented!() }
    }
}
// ------------------------------------------------------------------ command lines
pub mod clap {
    use vstd::prelude::*;
    use super::*;
    /// the arguments of a command line that was accepted (its option values are UTF-8)
    #[verifier::external_body] pub struct ArgMatches { x: u8 }
    pub uninterp spec fn arg_given(m: ArgMatches, name: Seq<u8>) -> bool;
    pub uninterp spec fn arg_value(m: ArgMatches, name: Seq<u8>) -> Option<Seq<u8>>;
    impl ArgMatches {
        #[verifier::external_body] pub fn is_present<B: XBytes>(&self, name: B) -> (r: bool) ensures r == arg_given(*self, name.bv()) { unimplemented!() }
        #[verifier::external_body] pub fn value_of<B: XBytes>(&self, name: B) -> (r: Option<&[u8]>)
            ensures match r { Some(v) => arg_value(*self, name.bv()) == Some(v@) && is_utf8(v@), None => arg_value(*self, name.bv()).is_none() } { unimplemented!() }
        #[verifier::external_body] pub fn value_of_os<B: XBytes>(&self, name: B) -> (r: Option<&[u8]>)
            ensures match r { Some(v) => arg_value(*self, name.bv()) == Some(v@), None => arg_value(*self, name.bv()).is_none() } { unimplemented!() }
    }
    /// the command line: the option is given (in its long or short form), its value, and the operands
    pub uninterp spec fn flag(long: Seq<u8>) -> bool;
    pub uninterp spec fn option(long: Seq<u8>) -> Option<Seq<u8>>;
    pub uninterp spec fn operands() -> Seq<Seq<u8>>;
    /// the k-th of n operands (if `gap`, the last one is required and the one before it may be left out)
    pub open spec fn operand(k: int, n: int, gap: bool) -> Option<Seq<u8>> {
        let c = operands();
        if gap && c.len() == n - 1 && k >= n - 2 { if k == n - 1 && n >= 2 { Some(c[n - 2]) } else { None } } else if 0 <= k < c.len() { Some(c[k]) } else { None }
    }
    /// the definition of an option (with a long form) or operand
    pub struct ArgS { pub name: Seq<u8>, pub long: Option<Seq<u8>>, pub short: Option<Seq<u8>>, pub takes: bool, pub required: bool, pub possible: Option<Seq<Seq<u8>>> }
    pub struct Arg { pub s: Ghost<ArgS> }
    impl Arg {
        #[verifier::external_body] pub fn with_name(n: &[u8]) -> (r: Arg) ensures r.s@ == (ArgS { name: n@, long: None, short: None, takes: false, required: false, possible: None }) { unimplemented!() }
        #[verifier::external_body] pub fn long(self, l: &[u8]) -> (r: Arg) ensures r.s@ == (ArgS { long: Some(l@), ..self.s@ }) { unimplemented!() }
        #[verifier::external_body] pub fn short(self, l: &[u8]) -> (r: Arg) ensures r.s@ == (ArgS { short: Some(l@), ..self.s@ }) { unimplemented!() }
        #[verifier::external_body] pub fn help(self, l: &[u8]) -> (r: Arg) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn value_name(self, l: &[u8]) -> (r: Arg) ensures r == (Arg { s: Ghost(ArgS { takes: true, ..self.s@ }) }) { unimplemented!() }
        #[verifier::external_body] pub fn takes_value(self, b: bool) -> (r: Arg) ensures r.s@ == (ArgS { takes: b, ..self.s@ }) { unimplemented!() }
        #[verifier::external_body] pub fn required(self, b: bool) -> (r: Arg) ensures r.s@ == (ArgS { required: b, ..self.s@ }) { unimplemented!() }
        #[verifier::external_body] pub fn possible_values<const N: usize>(self, v: &[&[u8]; N]) -> (r: Arg)
            ensures r.s@ == (ArgS { takes: true, possible: Some(Seq::new(N as nat, |i: int| v@[i]@)), ..self.s@ }) { unimplemented!() }
    }
    pub enum AppSettings { AllowMissingPositional, ArgRequiredElseHelp, ColoredHelp }
    pub struct App { pub args: Ghost<Seq<ArgS>>, pub gap: Ghost<bool> }
    impl App {
        #[verifier::external_body] pub fn new(n: &[u8]) -> (r: App) ensures r.args@ == Seq::<ArgS>::empty(), !r.gap@ { unimplemented!() }
        #[verifier::external_body] pub fn about(self, n: &[u8]) -> (r: App) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn author(self, n: &[u8]) -> (r: App) ensures r == self { unimplemented!() }
        #[verifier::external_body] pub fn setting(self, x: AppSettings) -> (r: App) ensures r.args == self.args, r.gap@ == (self.gap@ || x == AppSettings::AllowMissingPositional) { unimplemented!() }
        #[verifier::external_body] pub fn arg(self, a: Arg) -> (r: App) ensures r.args@ == self.args@.push(a.s@), r.gap == self.gap { unimplemented!() }
        /// ends the process unless the command line fits the definition
        #[verifier::external_body] pub fn get_matches(self) -> (r: ArgMatches) ensures fits(self.args@, self.gap@, r) { unimplemented!() }
    }
    pub open spec fn is_flag(a: ArgS, n: Seq<u8>, l: Seq<u8>) -> bool { a.name =~= n && (a.long matches Some(x) && x =~= l) && !a.takes && !a.required }
    pub open spec fn is_opt(a: ArgS, n: Seq<u8>, l: Seq<u8>, p: Set<Seq<u8>>) -> bool { a.name =~= n && (a.long matches Some(x) && x =~= l) && a.takes && !a.required && (a.possible matches Some(s) && forall|i: int| 0 <= i < s.len() ==> p.contains(#[trigger] s[i])) }
    pub open spec fn is_pos(a: ArgS) -> bool { a.long.is_none() && a.short.is_none() }
    pub open spec fn has_flag(s: Seq<ArgS>, n: Seq<u8>, l: Seq<u8>) -> bool decreases s.len() { s.len() > 0 && (is_flag(s.last(), n, l) || has_flag(s.drop_last(), n, l)) }
    pub open spec fn has_opt(s: Seq<ArgS>, n: Seq<u8>, l: Seq<u8>, p: Set<Seq<u8>>) -> bool decreases s.len() { s.len() > 0 && (is_opt(s.last(), n, l, p) || has_opt(s.drop_last(), n, l, p)) }
    pub open spec fn npos(s: Seq<ArgS>) -> int decreases s.len() { if s.len() == 0 { 0 } else { npos(s.drop_last()) + if is_pos(s.last()) { 1int } else { 0 } } }
    /// the k-th operand has this name
    pub open spec fn has_pos(s: Seq<ArgS>, k: int, n: Seq<u8>, required: bool) -> bool decreases s.len() { s.len() > 0 && (is_pos(s.last()) && npos(s.drop_last()) == k && s.last().name =~= n && s.last().required == required || has_pos(s.drop_last(), k, n, required)) }
    pub broadcast proof fn push_flag(s: Seq<ArgS>, a: ArgS, n: Seq<u8>, l: Seq<u8>) ensures #[trigger] has_flag(s.push(a), n, l) == (is_flag(a, n, l) || has_flag(s, n, l)) { assert(s.push(a).drop_last() =~= s); }
    pub broadcast proof fn push_opt(s: Seq<ArgS>, a: ArgS, n: Seq<u8>, l: Seq<u8>, p: Set<Seq<u8>>) ensures #[trigger] has_opt(s.push(a), n, l, p) == (is_opt(a, n, l, p) || has_opt(s, n, l, p)) { assert(s.push(a).drop_last() =~= s); }
    pub broadcast proof fn push_npos(s: Seq<ArgS>, a: ArgS) ensures #[trigger] npos(s.push(a)) == npos(s) + (if is_pos(a) { 1int } else { 0 }) { assert(s.push(a).drop_last() =~= s); }
    pub broadcast proof fn push_pos(s: Seq<ArgS>, a: ArgS, k: int, n: Seq<u8>, q: bool) ensures #[trigger] has_pos(s.push(a), k, n, q) == (is_pos(a) && npos(s) == k && a.name =~= n && a.required == q || has_pos(s, k, n, q)) { assert(s.push(a).drop_last() =~= s); }
    pub broadcast group defs { push_flag, push_opt, push_npos, push_pos }
    /// what the matches are for a definition and the command line
    pub uninterp spec fn fits(s: Seq<ArgS>, gap: bool, m: ArgMatches) -> bool;
    #[verifier::external_body]
    pub broadcast proof fn fits_flag(s: Seq<ArgS>, gap: bool, m: ArgMatches, n: Seq<u8>, l: Seq<u8>)
        requires #[trigger] fits(s, gap, m), #[trigger] has_flag(s, n, l) ensures arg_given(m, n) == flag(l) {}
    #[verifier::external_body]
    pub broadcast proof fn fits_opt(s: Seq<ArgS>, gap: bool, m: ArgMatches, n: Seq<u8>, l: Seq<u8>, p: Set<Seq<u8>>)
        requires #[trigger] fits(s, gap, m), #[trigger] has_opt(s, n, l, p) ensures arg_value(m, n) == option(l), option(l) matches Some(v) ==> p.contains(v) {}
    #[verifier::external_body]
    pub broadcast proof fn fits_pos(s: Seq<ArgS>, gap: bool, m: ArgMatches, k: int, n: Seq<u8>, q: bool)
        requires #[trigger] fits(s, gap, m), #[trigger] has_pos(s, k, n, q) ensures arg_value(m, n) == operand(k, npos(s), gap), q ==> operand(k, npos(s), gap).is_some() {}
    pub broadcast group fitting { fits_flag, fits_opt, fits_pos }
}
pub mod libgit2 { pub fn init() {} }
// ------------------------------------------------------------------ other programs
pub mod process {
    use vstd::prelude::*;
    use super::*;
    /// this process's id (assumed to differ from those of all other running servers)
    pub uninterp spec fn pid() -> u32;
    #[verifier::external_body] pub fn id() -> (r: u32) ensures r == pid() { unimplemented!() }
    /// the end of `main` with this status
    pub fn exit(c: i32) -> (r: i32) ensures r == c { c }
    /// the end of the process elsewhere
    #[verifier::external_body] pub fn xexit(c: i32) -> ! { unimplemented!() }
    /// the program can be started (and waited for)
    pub uninterp spec fn startable(prog: Seq<u8>) -> bool;
    /// the exit status of running a program with these arguments (None: ended by a signal)
    pub uninterp spec fn ran(argv: Seq<Seq<u8>>) -> Option<i32>;
    /// what a stream of a program started is connected to
    pub enum Stdio { Inherit, Piped, Null }
    impl Stdio {
        pub fn piped() -> (r: Stdio) ensures r == Stdio::Piped { Stdio::Piped }
        pub fn inherit() -> (r: Stdio) ensures r == Stdio::Inherit { Stdio::Inherit }
        pub fn null() -> (r: Stdio) ensures r == Stdio::Null { Stdio::Null }
    }
    pub struct Command { pub argv: Ghost<Seq<Seq<u8>>>, pub inp: Ghost<Stdio> }
    /// the standard input of a program started: what has been written to it
    pub struct ChildStdin { pub data: Ghost<Seq<u8>>, pub fl: Ghost<bool>, pub bad: Ghost<bool> }
    impl io::Write for ChildStdin {
        type WG = ();
        #[verifier::prophetic] open spec fn wident(&self) -> () { () }
        open spec fn out(&self) -> Seq<u8> { self.data@ }
        open spec fn flushed(&self) -> bool { self.fl@ }
        open spec fn framed(&self) -> bool { false }
        open spec fn wfailed(&self) -> bool { self.bad@ }
        open spec fn winv(&self) -> bool { true }
        #[verifier::external_body]
        fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    }
    pub struct Child { pub argv: Ghost<Seq<Seq<u8>>>, pub stdin: Option<ChildStdin>, pub given: Ghost<Seq<u8>>, pub ended: Ghost<bool> }
    pub struct ExitCode { pub argv: Ghost<Seq<Seq<u8>>> }
    impl Command {
        #[verifier::external_body] pub fn new(p: &[u8]) -> (r: Command) ensures r.argv@ == seq![p@], r.inp@ == Stdio::Inherit { unimplemented!() }
        #[verifier::external_body] pub fn arg<Q: XBytes>(self, q: Q) -> (r: Command) ensures r.argv@ == self.argv@.push(q.bv()), r.inp == self.inp { unimplemented!() }
        #[verifier::external_body] pub fn args<Q: XBytes, const N: usize>(self, q: &[Q; N]) -> (r: Command) ensures r.argv@ =~= self.argv@ + Seq::new(N as nat, |i: int| q@[i].bv()), r.inp == self.inp { unimplemented!() }
        #[verifier::external_body] pub fn stdin(self, s: Stdio) -> (r: Command) ensures r.argv == self.argv, r.inp@ == s { unimplemented!() }
        #[verifier::external_body] pub fn spawn(self) -> (r: core::result::Result<Child, io::Error>) ensures self.argv@.len() > 0 && startable(self.argv@[0]) ==> r.is_ok(), r matches Ok(c) ==> c.argv@ == self.argv@ && !c.ended@ && (if self.inp@ is Piped { c.stdin matches Some(i) && i.data@ =~= Seq::<u8>::empty() } else { c.stdin.is_none() }) { unimplemented!() }
        #[verifier::external_body] pub fn status(self) -> (r: core::result::Result<ExitCode, io::Error>) ensures self.argv@.len() > 0 && startable(self.argv@[0]) ==> r.is_ok(), r matches Ok(c) ==> c.argv@ == self.argv@ { unimplemented!() }
    }
    impl Child {
        #[verifier::external_body] /// closes the standard input and waits for the end
        pub fn wait(&mut self) -> (r: core::result::Result<ExitCode, io::Error>) ensures old(self).argv@.len() > 0 && startable(old(self).argv@[0]) ==> r.is_ok(), r matches Ok(c) ==> c.argv@ == old(self).argv@, final(self).argv == old(self).argv, final(self).stdin.is_none(), old(self).stdin matches Some(i) ==> final(self).given == i.data, final(self).ended@ { unimplemented!() }
    }
    impl ExitCode {
        #[verifier::external_body] pub fn code(&self) -> (r: Option<i32>) ensures r == ran(self.argv@) { unimplemented!() }
        #[verifier::external_body] pub fn success(&self) -> (r: bool) ensures r == (ran(self.argv@) == Some(0i32)) { unimplemented!() }
    }
}
pub mod env {
    use vstd::prelude::*;
    use super::*;
    /// the environment the program was started with
    pub uninterp spec fn var_of(k: Seq<u8>) -> Option<Seq<u8>>;
    #[verifier::external_body] pub fn var_os(k: &[u8]) -> (r: Option<Vec<u8>>) ensures match r { Some(v) => var_of(k@) == Some(v@), None => var_of(k@).is_none() } { unimplemented!() }
    #[verifier::external_body] pub fn var(k: &[u8]) -> (r: core::result::Result<Vec<u8>, VarError>)
        ensures match r { Ok(v) => var_of(k@) == Some(v@) && is_utf8(v@), Err(_) => match var_of(k@) { Some(v) => !is_utf8(v), None => true } } { unimplemented!() }
    pub struct VarError { pub x: u8 }
    #[verifier::external] impl core::fmt::Debug for VarError { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
}
// ------------------------------------------------------------------ regular expressions
pub mod pcre2 {
    use vstd::prelude::*;
    use super::*;
    pub struct Error { pub x: u8 }
    #[verifier::external] impl core::fmt::Debug for Error { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
    /// the pattern is well formed
    pub uninterp spec fn valid(p: Seq<u8>) -> bool;
    /// the pattern (taken as it is) matches somewhere in the text
    pub uninterp spec fn matches(p: Seq<u8>, t: Seq<u8>) -> bool;
    /// Matching exceeds the limits of the library at some point during the run.
    pub uninterp spec fn re_limit() -> bool;
    pub open spec fn is_white(b: u8) -> bool { b == 32 || 9 <= b <= 13 }
    pub open spec fn skip_white(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && is_white(s[0]) { skip_white(s.skip(1)) } else { s } }
    pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { s.len() >= p.len() && s.take(p.len() as int) =~= p }
    /// the message of a fixup or squash commit
    pub open spec fn is_fixup(m: Seq<u8>) -> bool { let t = skip_white(m); starts(t, b"fixup!") || starts(t, b"squash!") }
    /// what one pattern means (the rest of the pattern language is left open)
    #[verifier::external_body]
    pub broadcast proof fn fixup_pattern(p: Seq<u8>, m: Seq<u8>)
        requires p =~= b"\\A\\s*(?:fixup|squash)!"
        ensures #[trigger] matches(p, m) == is_fixup(m), valid(p) {}
    #[verifier::external_body]
    pub broadcast proof fn fixup_valid(p: Seq<u8>)
        requires p =~= b"\\A\\s*(?:fixup|squash)!"
        ensures #[trigger] valid(p) {}
    pub mod bytes {
        use vstd::prelude::*;
        use super::super::*;
        use super::*;
        pub struct Regex { pub pat: Ghost<Seq<u8>> }
        impl Regex {
            #[verifier::external_body] pub fn new(p: &[u8]) -> (r: core::result::Result<Regex, Error>)
                ensures match r { Ok(x) => x.pat@ == p@ && valid(p@), Err(_) => !valid(p@) } { unimplemented!() }
            #[verifier::external_body] pub fn is_match(&self, t: &[u8]) -> (r: core::result::Result<bool, Error>)
                ensures match r { Ok(b) => b == matches(self.pat@, t@), Err(_) => re_limit() } { unimplemented!() }
        }
    }
}
/// `[a, b, ..].join(b"")`
pub open spec fn flat(v: Seq<Seq<u8>>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last() } }
} // mod prelude
/// `?` converts the error with `From::from` (whose contract is verified in `errors`).
pub mod ax {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub broadcast proof fn from_io(t: crate::prelude::io::Error, s: crate::errors::Error)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<crate::errors::Error, crate::prelude::io::Error>(t, s) ==> s == crate::errors::io_err(t) {}
    #[verifier::external_body]
    pub broadcast proof fn from_err(t: crate::errors::Error, s: crate::prelude::io::Error)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<crate::prelude::io::Error, crate::errors::Error>(t, s) ==> s.k == t.iok_kind() {}
    #[verifier::external_body]
    pub broadcast proof fn from_git(t: crate::prelude::git2::Error, s: crate::errors::Error)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<crate::errors::Error, crate::prelude::git2::Error>(t, s) ==> s == crate::errors::git_err(t) {}
    #[verifier::external_body]
    pub broadcast proof fn from_pcre(t: crate::prelude::pcre2::Error, s: crate::errors::Error)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<crate::errors::Error, crate::prelude::pcre2::Error>(t, s) ==> s == crate::errors::pcre_err(t) {}
    pub broadcast group from { from_io, from_err, from_git, from_pcre }
}
