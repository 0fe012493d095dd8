#file scutiger-core/src/pktline.rs pktline
#derive PacketType Clone Copy
#derive Packet
#path iter::ReaderIterator::new ReaderIterator::new
#ftype iter::ReaderIterator<R> => ReaderIterator<'_, R>
#text
use crate::errors::*;
broadcast use crate::ax::from;
use crate::prelude::io::{Read as _, Write as _};
impl PartialEq for PacketType { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for PacketType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PacketType) -> bool { *self == *o }
}
/// The value of a lowercase hexadecimal digit.
pub open spec fn hexv(b: u8) -> int { if 48 <= b <= 57 { b - 48 } else if 97 <= b <= 102 { b - 87 } else { -1 } }
/// The value of a packet header, or -1.
pub open spec fn xhdr(s: Seq<u8>) -> int {
    if s.len() >= 4 && hexv(s[0]) >= 0 && hexv(s[1]) >= 0 && hexv(s[2]) >= 0 && hexv(s[3]) >= 0 {
        hexv(s[0]) * 4096 + hexv(s[1]) * 256 + hexv(s[2]) * 16 + hexv(s[3])
    } else { -1 }
}
pub enum Pk { Flush, Delim, Data(Seq<u8>), Bad, Trunc }
/// The first packet of a stream.
pub open spec fn dec(s: Seq<u8>) -> Pk {
    if s.len() < 4 { Pk::Trunc }
    else if xhdr(s) == 0 { Pk::Flush }
    else if xhdr(s) == 1 { Pk::Delim }
    else if 4 <= xhdr(s) <= 65520 { if s.len() < xhdr(s) { Pk::Trunc } else { Pk::Data(s.subrange(4, xhdr(s))) } }
    else { Pk::Bad }
}
/// What a packet stream reader yields: the payloads up to the next mark (or defect).
pub open spec fn payload(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    match dec(s) { Pk::Data(d) => d + payload(s.skip(4 + d.len() as int)), _ => Seq::empty() }
}
/// Where the stream continues after the next flush packet.
pub open spec fn after_flush(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    match dec(s) {
        Pk::Flush => Some(s.skip(4)),
        Pk::Delim => after_flush(s.skip(4)),
        Pk::Data(d) => after_flush(s.skip(4 + d.len() as int)),
        _ => None,
    }
}
/// The data up to the next mark is well-formed.
pub open spec fn whole(s: Seq<u8>) -> bool decreases s.len() {
    match dec(s) { Pk::Data(d) => whole(s.skip(4 + d.len() as int)), Pk::Flush | Pk::Delim => true, _ => false }
}
pub open spec fn typ_of(p: Pk) -> PacketType { match p { Pk::Flush => PacketType::Flush, Pk::Delim => PacketType::Delim, Pk::Data(d) => PacketType::Data(d.len() as usize), _ => PacketType::Flush } }
pub open spec fn data_of(p: Pk) -> Seq<u8> { match p { Pk::Data(d) => d, _ => Seq::empty() } }
pub open spec fn len_of(p: Pk) -> int { match p { Pk::Data(d) => 4 + d.len() as int, _ => 4 } }
/// the outcome of reading one packet from a stream
pub open spec fn took(s: Seq<u8>, t: Seq<u8>, p: PacketType) -> bool {
    &&& !(dec(s) is Bad) && !(dec(s) is Trunc)
    &&& p == typ_of(dec(s))
    &&& t =~= s.skip(len_of(dec(s)))
}
pub open spec fn bad_ok(s: Seq<u8>, failed: bool, e: Error) -> bool {
    ||| failed && e.kind == ErrorKind::IOError && e.iok_kind() != io::ErrorKind::UnexpectedEof
    ||| dec(s) is Bad && e.kind == ErrorKind::BadPktlineHeader && e.iok_kind() == io::ErrorKind::InvalidData
    ||| dec(s) is Trunc && e.kind == ErrorKind::IOError && e.iok_kind() == io::ErrorKind::UnexpectedEof
}
/// one packet further
pub broadcast proof fn lemma_took(s: Seq<u8>, t: Seq<u8>, p: PacketType)
    requires #[trigger] took(s, t, p)
    ensures match p { PacketType::Flush => after_flush(s) == Some(t) && payload(s) == Seq::<u8>::empty() && whole(s), PacketType::Delim => after_flush(s) == after_flush(t) && payload(s) == Seq::<u8>::empty() && whole(s),
        PacketType::Data(n) => after_flush(s) == after_flush(t) && whole(s) == whole(t) && payload(s) == data_of(dec(s)) + payload(t) && data_of(dec(s)).len() == n && t.len() < s.len() }
{ assert(t == s.skip(len_of(dec(s)))); }
/// a stream whose next packet is not there or not one
pub broadcast proof fn lemma_bad(s: Seq<u8>, failed: bool, e: Error)
    requires #[trigger] bad_ok(s, failed, e)
    ensures failed || after_flush(s).is_none() && payload(s) == Seq::<u8>::empty() && !whole(s)
{ }
pub broadcast proof fn shl_nibble(v: u16, k: usize)
    requires v < 16, k == 12 || k == 8 || k == 4 || k == 0
    ensures #[trigger] (v << k) == (if k == 12 { v * 4096 } else if k == 8 { v * 256 } else if k == 4 { v * 16 } else { v as int })
{
    assert(v < 16 ==> v << 12usize == v * 4096) by (bit_vector);
    assert(v < 16 ==> v << 8usize == v * 256) by (bit_vector);
    assert(v < 16 ==> v << 4usize == v * 16) by (bit_vector);
    assert(v < 16 ==> v << 0usize == v) by (bit_vector);
}
/// The encoding of a packet.
pub open spec fn enc_data(d: Seq<u8>) -> Seq<u8> { hex4(d.len() as int + 4) + d }
pub open spec fn one(d: Seq<u8>) -> Seq<u8> { if d.len() == 0 { Seq::empty() } else { enc_data(d) } }
pub open spec fn enc(p: Packet) -> Seq<u8> { match p.typ { PacketType::Flush => b"0000", PacketType::Delim => b"0001", PacketType::Data(_) => enc_data(p.data@) } }
/// Decoding inverts encoding, whatever follows.
pub proof fn lemma_hexdigit(k: int)
    requires 0 <= k < 16
    ensures hexv(hexdigit(k)) == k
{}
pub proof fn lemma_digits(v: int)
    requires 0 <= v < 65536
    ensures (v / 4096 % 16) * 4096 + (v / 256 % 16) * 256 + (v / 16 % 16) * 16 + v % 16 == v
{
    let a = v / 16; let b = a / 16; let c = b / 16;
    assert(v / 256 == b && v / 4096 == c);
    assert(c < 16);
}
pub proof fn lemma_roundtrip(d: Seq<u8>, t: Seq<u8>)
    requires d.len() <= 65516
    ensures dec(enc_data(d) + t) == Pk::Data(d), (enc_data(d) + t).skip(4 + d.len() as int) =~= t
{
    let s = enc_data(d) + t;
    let v = d.len() as int + 4;
    let h = hex4(v);
    assert(s[0] == h[0] && s[1] == h[1] && s[2] == h[2] && s[3] == h[3]);
    lemma_hexdigit(v / 4096 % 16); lemma_hexdigit(v / 256 % 16); lemma_hexdigit(v / 16 % 16); lemma_hexdigit(v % 16);
    lemma_digits(v);
    assert(xhdr(s) == v);
    assert(s.subrange(4, v) =~= d);
}
pub proof fn lemma_roundtrip_marks(t: Seq<u8>)
    ensures dec(b"0000" + t) == Pk::Flush, dec(b"0001" + t) == Pk::Delim
{ }
pub proof fn lemma_frames_push(f: Seq<u8>, d: Seq<u8>, x: Seq<u8>)
    requires io::frames(f, d), 1 <= x.len() <= 65516
    ensures io::frames(f + enc_data(x), d + x)
    decreases f.len()
{
    let g = f + enc_data(x);
    let e = d + x;
    if f.len() == 0 {
        assert(io::frames(Seq::empty(), Seq::empty()));
        lemma_roundtrip(x, Seq::empty());
        assert(g =~= enc_data(x) + Seq::<u8>::empty());
        assert(e =~= x); assert(e.take(x.len() as int) =~= x);
        assert(g.skip(4 + x.len() as int) =~= Seq::<u8>::empty());
        assert(e.skip(x.len() as int) =~= Seq::<u8>::empty());
    } else {
        match dec(f) {
            Pk::Data(y) => {
                let n = 4 + y.len() as int;
                lemma_frames_push(f.skip(n), d.skip(y.len() as int), x);
                assert(xhdr(g) == xhdr(f));
                assert(g.subrange(4, n) =~= f.subrange(4, n));
                assert(g.skip(n) =~= f.skip(n) + enc_data(x));
                assert(e.skip(y.len() as int) =~= d.skip(y.len() as int) + x);
                assert(e.take(y.len() as int) =~= d.take(y.len() as int));
            },
            _ => {},
        }
    }
}
pub proof fn lemma_wrote_push(a: Seq<u8>, b: Seq<u8>, buf: Seq<u8>, p: int, q: int, c: Seq<u8>)
    requires io::wrote(true, a, b, buf.take(p)), 0 <= p < q <= buf.len(), q - p <= 65516, c == b + enc_data(buf.subrange(p, q))
    ensures io::wrote(true, a, c, buf.take(q))
{
    let x = buf.subrange(p, q);
    lemma_frames_push(b.skip(a.len() as int), buf.take(p), x);
    assert(c.skip(a.len() as int) =~= b.skip(a.len() as int) + enc_data(x));
    assert(buf.take(p) + x =~= buf.take(q));
    assert(c.take(a.len() as int) =~= b.take(a.len() as int));
}
pub open spec fn digat(acc: Seq<u16>, buf: Seq<u8>, j: int) -> bool { hexv(buf[j]) >= 0 && acc[j] as int == dig(buf[j], j) }
pub open spec fn digs(acc: Seq<u16>, buf: Seq<u8>, n: int) -> bool { (n > 0 ==> digat(acc, buf, 0)) && (n > 1 ==> digat(acc, buf, 1)) && (n > 2 ==> digat(acc, buf, 2)) && (n > 3 ==> digat(acc, buf, 3)) }
/// the contribution of the digit at position j
pub open spec fn dig(b: u8, j: int) -> int { if j == 0 { hexv(b) * 4096 } else if j == 1 { hexv(b) * 256 } else if j == 2 { hexv(b) * 16 } else { hexv(b) } }
impl<R: io::Read> Reader<R> {
    pub open spec fn inv(&self) -> bool { self.off <= self.len <= 65536 && self.rdr.rinv() && self.rdr.plain() }
    pub open spec fn pending(&self) -> Seq<u8> { self.buf@.subrange(self.off as int, self.len as int) }
}
#end
#impl_extra Read@Reader
type G = R::G;
#[verifier::prophetic] open spec fn ident(&self) -> R::G { self.rdr.ident() }
open spec fn rest(&self) -> Seq<u8> { self.pending() + payload(self.rdr.rest()) }
open spec fn failed(&self) -> bool { self.rdr.failed() }
open spec fn seen(&self) -> Seq<u8> { Seq::empty() }
open spec fn tracks(&self) -> bool { false }
open spec fn resume(&self) -> Option<Seq<u8>> { if self.at_flush { Some(self.rdr.rest()) } else { after_flush(self.rdr.rest()) } }
open spec fn mid(&self) -> bool { !self.at_flush }
open spec fn whole(&self) -> bool { whole(self.rdr.rest()) }
open spec fn rinv(&self) -> bool { self.inv() }
open spec fn plain(&self) -> bool { false }
open spec fn budget(&self) -> nat { (self.pending().len() + self.rdr.budget()) as nat }
#end
#fn Packet::new
:props C07 C08
:ens r.typ == t && r.data@ == data@
#fn Packet::new_from_vec
:props C07 C08
:ens r.typ == t && r.data@ == vec@
#fn Packet::packet_type
:props C07 C08
:ens r == self.typ
#fn Packet::data
:props C07 C08
:ens match r { Some(d) => self.typ is Data && d@ == self.data@, None => !(self.typ is Data) }
#fn Reader::new
:props C09
:req [C23] rdr.rinv() && rdr.plain()
:ens r.rdr == rdr && r.off == 0 && r.len == 0 && r.at_flush && r.inv()
#fn Reader::read_one
:props C07 C09
:req [C23] (*old(rdr)).rinv() && (*old(rdr)).plain()
:req [C23] old(buf)@.len() >= 65516
:ens final(buf)@.len() == old(buf)@.len() && (*final(rdr)).ident() == (*old(rdr)).ident() && (*final(rdr)).rinv() && (*final(rdr)).plain() && ((*old(rdr)).failed() ==> (*final(rdr)).failed())
:ens (*final(rdr)).budget() + (match r { Ok(PacketType::Data(n)) => 4 + n as int, Ok(_) => 4, _ => 0 }) <= (*old(rdr)).budget()
:ens match r { Ok(p) => took((*old(rdr)).rest(), (*final(rdr)).rest(), p) && (*final(rdr)).failed() == (*old(rdr)).failed(), Err(e) => bad_ok((*old(rdr)).rest(), (*final(rdr)).failed(), e) }
:ens match r { Ok(PacketType::Data(n)) => n <= 65516 && final(buf)@ =~= data_of(dec((*old(rdr)).rest())) + old(buf)@.skip(n as int), _ => true }
#fn Reader::parse_header
:props C07
:ens match r { Ok(v) => xhdr(buf@) == v as int, Err(e) => xhdr(buf@) < 0 && e.kind == ErrorKind::BadPktlineHeader && e.iok_kind() == io::ErrorKind::InvalidData }
:loop 1
:lstart broadcast use shl_nibble;
:inv $it.inv() && $it.s@ == buf@
:invx $cnt == $it.i && $acc@.len() == $it.i && $err.is_none()
:invx digs($acc@, buf@, $it.i as int)
:lens match $err { None => $it.i == 4 && $acc@.len() == 4 && digs($acc@, buf@, 4), Some(e) => xhdr(buf@) < 0 && e.kind == ErrorKind::BadPktlineHeader && e.iok_kind() == io::ErrorKind::InvalidData }
:dec 4 - $it.i
:loop 2
:inv $it.inv() && $it.orig@.len() == 4 && digs($it.orig@, buf@, 4)
:inv $acc as int == (if $it.i@ > 0 { $it.orig@[0] as int } else { 0 }) + (if $it.i@ > 1 { $it.orig@[1] as int } else { 0 }) + (if $it.i@ > 2 { $it.orig@[2] as int } else { 0 }) + (if $it.i@ > 3 { $it.orig@[3] as int } else { 0 })
:lens xhdr(buf@) == $acc as int
:dec 4 - $it.i@
#fn Reader::read_packet
:props C07 C05
:start broadcast use lemma_took;
:req [C23] old(self).inv()
:ens final(self).inv() && final(self).rdr.ident() == old(self).rdr.ident() && (old(self).rdr.failed() ==> final(self).rdr.failed()) && final(self).rdr.budget() <= old(self).rdr.budget()
:ens [C09] final(self).off == old(self).off && final(self).len == old(self).len && final(self).buf == old(self).buf
:ens [C23] r.is_ok() ==> final(self).rdr.budget() + 4 <= old(self).rdr.budget()
:ens [C07] match r { Ok(p) => took(old(self).rdr.rest(), final(self).rdr.rest(), p.typ) && p.data@ =~= data_of(dec(old(self).rdr.rest())), Err(e) => bad_ok(old(self).rdr.rest(), final(self).rdr.failed(), e) }
:ens [C05,C07] r.is_ok() ==> final(self).rdr.failed() == old(self).rdr.failed()
:ens [C05] final(self).at_flush == (r matches Ok(p) && p.typ is Flush)
:ens [C05] r matches Ok(p) ==> took(old(self).rdr.rest(), final(self).rdr.rest(), p.typ) ==> (*final(self)).resume() == after_flush(old(self).rdr.rest())
#fn Reader::skip_to_flush
:props C05
:start broadcast use lemma_took;
:req [C23] old(self).inv()
:ens final(self).inv() && final(self).rdr.ident() == old(self).rdr.ident() && (old(self).rdr.failed() ==> final(self).rdr.failed()) && (*final(self)).budget() <= (*old(self)).budget()
:ens [C05] match r { Ok(_) => final(self).at_flush && Some(final(self).rdr.rest()) == (*old(self)).resume() && final(self).pending().len() == 0 && final(self).rdr.failed() == old(self).rdr.failed(), Err(_) => final(self).rdr.failed() || (*old(self)).resume().is_none() }
:loop 1
:inv self.inv() && self.rdr.ident() == old(self).rdr.ident() && self.resume() == (*old(self)).resume() && self.rdr.failed() == old(self).rdr.failed() && self.off == 0 && self.len == 0 && self.rdr.budget() <= (*old(self)).budget()
:dec self.rdr.rest().len()
#fn Reader::iter
:props C07
:req [C23] old(self).inv()
:ens *r.rdr == *old(self)
#fn ReaderIterator::new
:props C07
:ens *r.rdr == *old(rdr)
#fn Read@Reader::read
:props C09 C05
:start hide(payload); hide(after_flush); hide(whole); hide(dec); broadcast use lemma_took; broadcast use lemma_bad;
:loop 1
:inv self.inv() && self.rdr.ident() == old(self).rdr.ident() && self.rdr.failed() == old(self).rdr.failed() && buf@.len() == old(buf)@.len() && buf@.len() > 0
:inv self.off == self.len && old(self).off == old(self).len && self.rdr.budget() <= old(self).rdr.budget() && payload(self.rdr.rest()) == payload(old(self).rdr.rest()) && whole(self.rdr.rest()) == whole(old(self).rdr.rest()) && after_flush(self.rdr.rest()) == after_flush(old(self).rdr.rest())
:dec self.rdr.rest().len()
#impl_extra Write@Writer
type WG = W::WG;
#[verifier::prophetic] open spec fn wident(&self) -> W::WG { self.writer.wident() }
open spec fn out(&self) -> Seq<u8> { self.writer.out() }
open spec fn flushed(&self) -> bool { self.writer.flushed() }
open spec fn framed(&self) -> bool { true }
open spec fn wfailed(&self) -> bool { self.writer.wfailed() }
open spec fn winv(&self) -> bool { self.writer.winv() && !self.writer.framed() }
#end
#fn Writer::new
:props C08
:ens r.writer == writer
#fn Writer::write_one
:props C08
:req [C23] (*old(writer)).winv() && !(*old(writer)).framed()
:ens io::wkept(old(writer), final(writer))
:ens match r { Ok(n) => n == buf@.len() && buf@.len() <= 65516 && (*final(writer)).out() =~= (*old(writer)).out() + enc_data(buf@), Err(e) => (*final(writer)).wfailed() || (buf@.len() > 65516 && (*final(writer)).out() == (*old(writer)).out() && e.kind == ErrorKind::InvalidPacket) }
#fn Writer::write_packet
:props C08
:req [C23] (*old(self)).winv()
:ens io::wkept(old(self), final(self))
:ens match r { Ok(n) => (pkt.typ is Data ==> pkt.data@.len() <= 65516) && (*final(self)).out() =~= (*old(self)).out() + enc(*pkt), Err(e) => (*final(self)).wfailed() || (pkt.typ is Data && pkt.data@.len() > 65516 && (*final(self)).out() == (*old(self)).out()) }
:ens [C05] r.is_ok() && pkt.typ is Flush ==> (*final(self)).flushed()
#fn Write@Writer::write
:props C08
:start proof { assert(buf@.take(0) =~= Seq::<u8>::empty()); assert(self.writer.out().skip(self.writer.out().len() as int) =~= Seq::<u8>::empty()); assert(self.writer.out().take(self.writer.out().len() as int) =~= self.writer.out()); }
:loop 1
:inv $it.inv() && $it.s@ == buf@ && $it.n == 65516 && !self.writer.framed() && self.writer.winv() && (old(self).writer.wfailed() ==> self.writer.wfailed()) && self.writer.wident() == old(self).writer.wident()
:inv total == $it.pos && io::wrote(true, old(self).writer.out(), self.writer.out(), buf@.take($it.pos as int))
:inv [C05] ($it.pos == 0 || $it.pos >= 65516 || $it.pos == buf@.len()) && ($it.pos == 0 ==> self.writer.out() == old(self).writer.out()) && ($it.pos == buf@.len() && buf@.len() <= 65516 ==> self.writer.out() =~= old(self).writer.out() + one(buf@))
:lens $it.pos == buf@.len()
:dec buf@.len() - $it.pos
:lstart let ghost o1 = self.writer.out(); let ghost p1 = $it.pos;
:lend proof { lemma_wrote_push(old(self).writer.out(), o1, buf@, p1 as int, $it.pos as int, self.writer.out()); assert(buf@.subrange(0, buf@.len() as int) =~= buf@); }
#fn Write@Writer::flush
:props C05 C08
#fn Iterator@ReaderIterator::next
:props C07
:sig fn next(&mut self) -> (r: Option<Result<Packet, Error>>)
:req [C23] old(self).rdr.inv()
:ens match r { Some(Ok(p)) => took(old(self).rdr.rdr.rest(), final(self).rdr.rdr.rest(), p.typ) && p.data@ =~= data_of(dec(old(self).rdr.rdr.rest())), Some(Err(e)) => bad_ok(old(self).rdr.rdr.rest(), final(self).rdr.rdr.failed(), e) && !(dec(old(self).rdr.rdr.rest()) is Trunc && !final(self).rdr.rdr.failed()), None => dec(old(self).rdr.rdr.rest()) is Trunc }
