#file scutiger-lfs/src/processor.rs processor
#path String::from_utf8_lossy xutf8_lossy
#path String::from_utf8 xutf8_string
#path std::str::from_utf8 xutf8_str
#path str::from_utf8 xutf8_str
#method clone xclone
#derive Mode Clone Copy
#ftype Option<Box<dynio::Read>> => Option<fs::File>
#ftype Box<dynio::Read> => fs::File
#ftype Box<dynBackend+'a> => LocalBackend<'a>
#method cmp xcmp
#fmethod as_ref xslice
#text
use crate::local::*;
use crate::errors::*;
use crate::pktline;
use crate::pktline::*;
broadcast use crate::ax::from, crate::prelude::hexs_sha;
use crate::prelude::io::{Read as _, Write as _};
/// the contents of a list of byte strings
pub use crate::prelude::vv2 as vv;

// ---------------------------------------------------------------- responses
#[verifier::ext_equal]
pub enum Item { Data(Seq<u8>), Stream(Seq<u8>), Delim, Flush }
#[verifier::ext_equal]
pub enum Body { None, Msgs(Seq<Seq<u8>>), Stream(Seq<u8>) }
/// A response: what the client sees of a Status.
#[verifier::ext_equal]
pub struct SV { pub code: int, pub args: Seq<Seq<u8>>, pub body: Body }
/// b is a followed by the encoding of one item
pub open spec fn step1(a: Seq<u8>, b: Seq<u8>, i: Item) -> bool {
    match i {
        Item::Data(d) => io::wrote(true, a, b, d) && io::one_packet(true, a, b, d),
        Item::Stream(d) => io::wrote(true, a, b, d),
        Item::Delim => b =~= a + b"0001",
        Item::Flush => b =~= a + b"0000",
    }
}
/// b is a followed by the encoding of these items
pub open spec fn sent(a: Seq<u8>, b: Seq<u8>, items: Seq<Item>) -> bool decreases items.len() {
    if items.len() == 0 { b == a } else { exists|m: Seq<u8>| sent(a, m, items.drop_last()) && #[trigger] step1(m, b, items.last()) }
}
pub broadcast proof fn lemma_sent_push(a: Seq<u8>, m: Seq<u8>, b: Seq<u8>, items: Seq<Item>, i: Item)
    requires #[trigger] sent(a, m, items), #[trigger] step1(m, b, i)
    ensures sent(a, b, items.push(i))
{ assert(items.push(i).drop_last() =~= items); assert(items.push(i).last() == i); }
pub open spec fn datas(v: Seq<Seq<u8>>) -> Seq<Item> { Seq::new(v.len(), |i: int| Item::Data(v[i])) }
pub open spec fn status_line(code: int) -> Seq<u8> { b"status " + dec03(code) + b"\n" }
pub open spec fn items_of(s: SV) -> Seq<Item> {
    seq![Item::Data(status_line(s.code))] + datas(s.args)
        + (match s.body { Body::None => Seq::empty(), Body::Msgs(m) => seq![Item::Delim] + datas(m), Body::Stream(d) => seq![Item::Delim, Item::Stream(d)] })
        + seq![Item::Flush]
}
/// what precedes the body's messages
pub open spec fn head(s: SV) -> Seq<Item> { seq![Item::Data(status_line(s.code))] + datas(s.args) }
pub proof fn lemma_items(s: SV)
    ensures
        head(SV { args: Seq::empty(), ..s }) =~= Seq::<Item>::empty().push(Item::Data(status_line(s.code))),
        match s.body {
            Body::None => items_of(s) =~= head(s).push(Item::Flush),
            Body::Msgs(m) => items_of(s) =~= (head(s).push(Item::Delim) + datas(m)).push(Item::Flush),
            Body::Stream(d) => items_of(s) =~= head(s).push(Item::Delim).push(Item::Stream(d)).push(Item::Flush),
        },
{}
pub broadcast proof fn lemma_datas(x: Seq<Item>, v: Seq<Seq<u8>>, i: int)
    requires 0 <= i < v.len()
    ensures #[trigger] (x + datas(v.take(i))).push(Item::Data(v[i])) =~= x + datas(v.take(i + 1)), x + datas(v.take(0)) =~= x, x + datas(v.take(v.len() as int)) =~= x + datas(v)
{}
/// the response to a request with this code and this single message
pub open spec fn simple_sv(code: int, msg: Seq<u8>) -> SV { SV { code, args: Seq::empty(), body: Body::Msgs(seq![msg]) } }
impl Status {
    pub open spec fn sv(&self) -> SV {
        SV { code: self.code as int, args: match self.args { Some(a) => vv(a@), None => Seq::empty() },
            body: match self.messages { Some(m) => Body::Msgs(vv(m@)), None => match self.reader { Some(r) => Body::Stream(r.rest()), None => Body::None } } }
    }
    pub open spec fn inv(&self) -> bool { self.reader.is_some() ==> self.reader.unwrap().rinv() }
}

// ---------------------------------------------------------------- requests
/// The packets of a request up to the next mark: up to a delimiter (`delim`), or up to the flush packet,
/// with delimiters yielding an empty item.  None if there is no such mark before the end of the request
/// (or of the stream).
pub open spec fn take_to(s: Seq<u8>, delim: bool) -> Option<(Seq<Seq<u8>>, Seq<u8>)> decreases s.len() {
    match dec(s) {
        Pk::Data(d) => match take_to(s.skip(4 + d.len() as int), delim) { Some(x) => Some((seq![d] + x.0, x.1)), None => None },
        Pk::Delim => if delim { Some((Seq::empty(), s.skip(4))) } else { match take_to(s.skip(4), delim) { Some(x) => Some((seq![Seq::<u8>::empty()] + x.0, x.1)), None => None } },
        Pk::Flush => if delim { None } else { Some((Seq::empty(), s.skip(4))) },
        _ => None,
    }
}
pub broadcast proof fn lemma_after_take(s: Seq<u8>, delim: bool)
    ensures match #[trigger] take_to(s, delim) { Some(x) => if delim { after_flush(s) == after_flush(x.1) } else { after_flush(s) == Some(x.1) }, None => !delim ==> after_flush(s).is_none() }
    decreases s.len()
{
    match dec(s) {
        Pk::Data(d) => lemma_after_take(s.skip(4 + d.len() as int), delim),
        Pk::Delim => if !delim { lemma_after_take(s.skip(4), delim) },
        _ => {},
    }
}
/// prepending what was read already
pub open spec fn pre(v: Seq<Seq<u8>>, o: Option<(Seq<Seq<u8>>, Seq<u8>)>) -> Option<(Seq<Seq<u8>>, Seq<u8>)> { match o { Some(x) => Some((v + x.0, x.1)), None => None } }
pub broadcast proof fn lemma_pre(v: Seq<Seq<u8>>, s: Seq<u8>, t: Seq<u8>, p: PacketType, delim: bool)
    requires #[trigger] took(s, t, p), !(p is Flush), !(p is Delim && delim)
    ensures #[trigger] pre(v, take_to(s, delim)) == pre(v.push(data_of(dec(s))), take_to(t, delim))
{
    assert(t == s.skip(len_of(dec(s))));
    match take_to(t, delim) { Some(x) => { assert(v + (seq![data_of(dec(s))] + x.0) =~= v.push(data_of(dec(s))) + x.0); }, None => {} }
}

// ---------------------------------------------------------------- arguments
pub open spec fn arg_ok(s: Seq<u8>) -> bool { find(s, 61) >= 0 && s.len() > 0 && s.last() == 10 }
pub open spec fn arg_key(s: Seq<u8>) -> Seq<u8> { s.take(find(s, 61)) }
pub open spec fn arg_val(s: Seq<u8>) -> Seq<u8> { s.subrange(find(s, 61) + 1, s.len() - 1) }
/// The arguments given by a list of items; None if an item is malformed or a key occurs twice.
pub open spec fn args_map(v: Seq<Seq<u8>>) -> Option<Map<Seq<u8>, Seq<u8>>> decreases v.len() {
    if v.len() == 0 { Some(Map::empty()) } else {
        match args_map(v.drop_last()) {
            Some(m) => if arg_ok(v.last()) && !m.contains_key(arg_key(v.last())) { Some(m.insert(arg_key(v.last()), arg_val(v.last()))) } else { None },
            None => None,
        }
    }
}
/// the code for a list that is not acceptable: 500 only if it cannot be decoded
pub open spec fn bad_args(v: Seq<Seq<u8>>, code: int) -> bool { code == 400 || code == 500 && exists|i: int| 0 <= i < v.len() && !arg_ok(#[trigger] v[i]) }
pub proof fn lemma_args_prefix(v: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= v.len(), args_map(v.take(n)).is_none()
    ensures args_map(v).is_none()
    decreases v.len()
{
    if n < v.len() { assert(v.take(n) =~= v.drop_last().take(n)); lemma_args_prefix(v.drop_last(), n); } else { assert(v.take(n) =~= v); }
}
#end
#fn Status::success
:props C05
:ens r.sv() == (SV { code: 200, args: Seq::empty(), body: Body::None }) && r.inv()
#fn Status::new_success
:props C05
:ens r.sv() =~~= (SV { code: 200, args: Seq::empty(), body: Body::Msgs(vv(messages@)) }) && r.inv()
#fn Status::new_success_with_code
:props C05
:ens r.sv() =~~= (SV { code: code as int, args: vv(args@), body: Body::None }) && r.inv()
#fn Status::new_success_with_data
:props C05
:ens r.sv() =~~= (SV { code: code as int, args: vv(args@), body: Body::Msgs(vv(messages@)) }) && r.inv()
#fn Status::new_reader
:props C05 C10
:req [C23] reader.rinv()
:ens r.sv() =~~= (SV { code: 200, args: vv(args@), body: Body::Stream(reader.rest()) }) && r.inv()
#fn Status::new_failure
:props C05
:ens r.sv() =~~= simple_sv(code as int, message@) && r.inv()
#fn Status::new_failure_with_args
:props C05
:ens r.sv() =~~= (SV { code: code as int, args: vv(args@), body: Body::Msgs(seq![message@]) }) && r.inv()
#fn FromIterator@Status::from_iter
:sig fn from_iter(iter: Vec<Vec<u8>>) -> (r: Self)
:props C05 C11
:ens r.sv() =~~= (SV { code: 200, args: Seq::empty(), body: Body::Msgs(vv(iter@)) }) && r.inv()
:loop 1
:inv $it.inv() && $it.orig@ == iter@ && $acc@ =~= iter@.take($it.i@)
:lens $acc@ =~= iter@
:dec iter@.len() - $it.i@

#text
impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
    pub open spec fn inv(&self) -> bool { self.rdr.inv() && self.wrtr.winv() }
    /// what the handler's read operations leave alone
    pub open spec fn wsame(&self, o: &Self) -> bool { self.wrtr == o.wrtr }
}
#end
#fn PktLineHandler::new
:props C05
:req [C23] rdr.rinv() && rdr.plain() && wrtr.winv() && !wrtr.framed()
:ens r.inv() && r.rdr.rdr == rdr && r.rdr.pending().len() == 0 && r.rdr.at_flush && r.wrtr.writer == wrtr
#fn PktLineHandler::read_to_type
:props C05
:start broadcast use lemma_pre, lemma_took; proof { lemma_after_take(self.rdr.rdr.rest(), typ is Delim); }
:req [C23] old(self).inv() && (typ is Delim || typ is Flush)
:ens final(self).inv() && final(self).wrtr == old(self).wrtr && final(self).rdr.ident() == old(self).rdr.ident() && (old(self).rdr.failed() ==> final(self).rdr.failed()) && final(self).rdr.budget() <= old(self).rdr.budget()
:ens final(self).rdr.off == old(self).rdr.off && final(self).rdr.len == old(self).rdr.len && final(self).rdr.buf == old(self).rdr.buf
:ens match r { Ok(v) => take_to(old(self).rdr.rdr.rest(), typ is Delim) == Some((vv(v@), final(self).rdr.rdr.rest())) && final(self).rdr.failed() == old(self).rdr.failed() && final(self).rdr.at_flush == (typ is Flush), Err(e) => final(self).rdr.failed() || take_to(old(self).rdr.rdr.rest(), typ is Delim).is_none() }
:ens [C05] old(self).rdr.mid() ==> final(self).rdr.failed() || old(self).rdr.resume().is_none() || final(self).rdr.resume() == old(self).rdr.resume()
:ens [C06] match r { Ok(_) => true, Err(e) => final(self).rdr.failed() || after_flush(old(self).rdr.rdr.rest()).is_none() || e.kind == ErrorKind::UnexpectedPacket }
:loop 1
:inv self.inv() && self.wrtr == old(self).wrtr && self.rdr.ident() == old(self).rdr.ident() && self.rdr.failed() == old(self).rdr.failed() && self.rdr.budget() <= old(self).rdr.budget()
:inv self.rdr.off == old(self).rdr.off && self.rdr.len == old(self).rdr.len && self.rdr.buf == old(self).rdr.buf
:inv pre(vv(data@), take_to(self.rdr.rdr.rest(), typ is Delim)) == pre(Seq::empty(), take_to(old(self).rdr.rdr.rest(), typ is Delim))
:inv after_flush(self.rdr.rdr.rest()) == after_flush(old(self).rdr.rdr.rest())
:dec self.rdr.rdr.rest().len()
#fn PktLineHandler::read_to_delim
:props C05
:req [C23] old(self).inv()
:ens final(self).inv() && final(self).wrtr == old(self).wrtr && final(self).rdr.ident() == old(self).rdr.ident() && (old(self).rdr.failed() ==> final(self).rdr.failed()) && final(self).rdr.budget() <= old(self).rdr.budget()
:ens final(self).rdr.off == old(self).rdr.off && final(self).rdr.len == old(self).rdr.len && final(self).rdr.buf == old(self).rdr.buf
:ens match r { Ok(v) => take_to(old(self).rdr.rdr.rest(), true) == Some((vv(v@), final(self).rdr.rdr.rest())) && final(self).rdr.failed() == old(self).rdr.failed() && !final(self).rdr.at_flush, Err(e) => final(self).rdr.failed() || take_to(old(self).rdr.rdr.rest(), true).is_none() }
:ens [C05] old(self).rdr.mid() ==> final(self).rdr.failed() || old(self).rdr.resume().is_none() || final(self).rdr.resume() == old(self).rdr.resume()
:ens [C06] match r { Ok(_) => true, Err(e) => final(self).rdr.failed() || after_flush(old(self).rdr.rdr.rest()).is_none() || e.kind == ErrorKind::UnexpectedPacket }
#fn PktLineHandler::read_to_flush
:props C05
:req [C23] old(self).inv()
:ens final(self).inv() && final(self).wrtr == old(self).wrtr && final(self).rdr.ident() == old(self).rdr.ident() && (old(self).rdr.failed() ==> final(self).rdr.failed()) && final(self).rdr.budget() <= old(self).rdr.budget()
:ens final(self).rdr.off == old(self).rdr.off && final(self).rdr.len == old(self).rdr.len && final(self).rdr.buf == old(self).rdr.buf
:ens match r { Ok(v) => take_to(old(self).rdr.rdr.rest(), false) == Some((vv(v@), final(self).rdr.rdr.rest())) && final(self).rdr.failed() == old(self).rdr.failed() && final(self).rdr.at_flush, Err(e) => final(self).rdr.failed() || take_to(old(self).rdr.rdr.rest(), false).is_none() }
:ens [C05] old(self).rdr.mid() ==> final(self).rdr.failed() || old(self).rdr.resume().is_none() || final(self).rdr.resume() == old(self).rdr.resume()
:ens [C06] match r { Ok(_) => true, Err(e) => final(self).rdr.failed() || after_flush(old(self).rdr.rdr.rest()).is_none() || e.kind == ErrorKind::UnexpectedPacket }
#fn PktLineHandler::send
:props C05
:req [C23] old(self).inv()
:ens final(self).inv() && final(self).rdr == old(self).rdr && io::wkept(&old(self).wrtr, &final(self).wrtr)
:ens match r { Ok(_) => step1(old(self).wrtr.out(), final(self).wrtr.out(), Item::Data(msg@)), Err(_) => final(self).wrtr.wfailed() }
#fn PktLineHandler::flush
:props C05
:req [C23] old(self).inv()
:ens final(self).inv() && final(self).rdr == old(self).rdr && io::wkept(&old(self).wrtr, &final(self).wrtr)
:ens match r { Ok(_) => step1(old(self).wrtr.out(), final(self).wrtr.out(), Item::Flush) && final(self).wrtr.flushed(), Err(_) => final(self).wrtr.wfailed() }
#fn PktLineHandler::delim
:props C05
:req [C23] old(self).inv()
:ens final(self).inv() && final(self).rdr == old(self).rdr && io::wkept(&old(self).wrtr, &final(self).wrtr)
:ens match r { Ok(_) => step1(old(self).wrtr.out(), final(self).wrtr.out(), Item::Delim), Err(_) => final(self).wrtr.wfailed() }
#fn PktLineHandler::send_error
:props C05 C06
:start broadcast use lemma_sent_push; let ghost o0 = self.wrtr.out(); proof { assert(sent(o0, o0, Seq::empty())); }
:req [C23] old(self).inv()
:ens final(self).inv() && final(self).rdr == old(self).rdr && io::wkept(&old(self).wrtr, &final(self).wrtr)
:ens match r { Ok(_) => sent(old(self).wrtr.out(), final(self).wrtr.out(), items_of(simple_sv(status as int, msg@ + b"\n"))) && final(self).wrtr.flushed(), Err(_) => final(self).wrtr.wfailed() }
:after flush#0 proof { assert(items_of(simple_sv(status as int, msg@ + b"\n")) =~= Seq::<Item>::empty().push(Item::Data(status_line(status as int))).push(Item::Delim).push(Item::Data(msg@ + b"\n")).push(Item::Flush)); }
#fn PktLineHandler::send_status
:props C05 C06 C10
:start broadcast use lemma_sent_push; let ghost o0 = self.wrtr.out(); let ghost sv0 = status.sv(); let ghost st0 = status; proof { assert(sent(o0, o0, Seq::empty())); lemma_items(sv0); }
:req [C23] old(self).inv() && status.inv()
:ens final(self).inv() && final(self).rdr == old(self).rdr && io::wkept(&old(self).wrtr, &final(self).wrtr)
:ens match r { Ok(_) => sent(old(self).wrtr.out(), final(self).wrtr.out(), items_of(status.sv())) && final(self).wrtr.flushed(), Err(_) => final(self).wrtr.wfailed() || fault() }
:after send#0 proof { assert(seq![Item::Data(status_line(sv0.code))] + datas(sv0.args.take(0)) =~= Seq::<Item>::empty().push(Item::Data(status_line(sv0.code)))); assert(sent(o0, self.wrtr.out(), seq![Item::Data(status_line(sv0.code))] + datas(sv0.args.take(0)))); if st0.args.is_none() { assert(sv0.args.take(0) =~= sv0.args); } }
:loop 1
:inv $it.inv() && self.inv() && self.rdr == old(self).rdr && io::wkept(&old(self).wrtr, &self.wrtr) && st0.args.is_some() && $it.s@ == st0.args.unwrap()@
:inv sent(o0, self.wrtr.out(), seq![Item::Data(status_line(sv0.code))] + datas(sv0.args.take($it.i as int)))
:lens $it.i == sv0.args.len() && sent(o0, self.wrtr.out(), head(sv0))
:dec sv0.args.len() - $it.i
:lstart proof { assert(sv0.args.take(sv0.args.len() as int) =~= sv0.args); if $it.i < sv0.args.len() { lemma_datas(seq![Item::Data(status_line(sv0.code))], sv0.args, $it.i as int); } }
:loop 2
:lbefore proof { let m = vv(st0.messages.unwrap()@); assert(m.take(0) =~= Seq::empty()); assert(head(sv0).push(Item::Delim) + datas(m.take(0)) =~= head(sv0).push(Item::Delim)); assert(sent(o0, self.wrtr.out(), head(sv0).push(Item::Delim))); }
:inv $it.inv() && self.inv() && self.rdr == old(self).rdr && io::wkept(&old(self).wrtr, &self.wrtr) && st0.messages.is_some() && $it.s@ == st0.messages.unwrap()@
:inv sent(o0, self.wrtr.out(), head(sv0).push(Item::Delim) + datas(vv(st0.messages.unwrap()@).take($it.i as int)))
:lens $it.i == st0.messages.unwrap()@.len() && sent(o0, self.wrtr.out(), head(sv0).push(Item::Delim) + datas(vv(st0.messages.unwrap()@)))
:dec st0.messages.unwrap()@.len() - $it.i
:lstart proof { let m = vv(st0.messages.unwrap()@); assert(m.take(m.len() as int) =~= m); if $it.i < m.len() { lemma_datas(head(sv0).push(Item::Delim), m, $it.i as int); } }
:before copy#0 let ghost m0 = self.wrtr.out();
:after copy#0 proof { assert(step1(m0, self.wrtr.out(), Item::Stream(sv0.body->Stream_0))); }
:before flush#0 proof { match sv0.body { Body::None => { assert(sent(o0, self.wrtr.out(), head(sv0))); }, Body::Msgs(m) => { assert(sent(o0, self.wrtr.out(), head(sv0).push(Item::Delim) + datas(m))); }, Body::Stream(d) => { assert(sent(o0, self.wrtr.out(), head(sv0).push(Item::Delim).push(Item::Stream(d)))); } } }
#fn Oid::new
:props C03 C06
:start broadcast use lossy_ascii; proof { lemma_id_ascii(oid@); }
:ens match r { Ok(o) => is_id(oid@) && o.oid@ == oid@, Err(e) => !is_id(oid@) && e.kind == ErrorKind::InvalidLFSOid }
#text
pub proof fn lemma_id_ascii(s: Seq<u8>) ensures is_id(s) ==> ascii(s) {}
#end
#fn Display@Oid::fmt
:props C11 C14 C16
:ens final(f).refuses() == old(f).refuses()
:ens match r { Ok(_) => final(f).out() =~= old(f).out() + self.oid@, Err(_) => old(f).refuses() }
#fn Oid::as_str
:props C03
:ens r@ == self.oid@
#fn Oid::value
:props C11
:ens r@ == self.oid@
#fn Oid::valid
:props C03
:ens r == is_id(b@)
:loop 1
:inv $it.inv() && $it.s@ == b@ && $acc && forall|j: int| 0 <= j < $it.i ==> 48 <= #[trigger] b@[j] <= 57 || 97 <= b@[j] <= 102
:lens $acc == forall|j: int| 0 <= j < b@.len() ==> 48 <= #[trigger] b@[j] <= 57 || 97 <= b@[j] <= 102
:dec b@.len() - $it.i
#fn Oid::expected_path
:props C01 C03 C10
:req [C23] is_id(self.oid@)
:ens r.p@ == objpath(path.p@, self.oid@)
#fn Oid::exists_at_path
:props C11
:req [C23] is_id(self.oid@)
:req old(w).g@.root == path.p@
:ens unchanged(*old(w), *final(w)) && (r ==> old(w).has(objpath(path.p@, self.oid@))) && (!r ==> !old(w).has(objpath(path.p@, self.oid@)) || fault())
#fn Oid::size_at_path
:props C11
:req [C23] is_id(self.oid@)
:req old(w).g@.root == path.p@
:ens unchanged(*old(w), *final(w))
:ens match r { Some(n) => old(w).has(objpath(path.p@, self.oid@)) && n as int == old(w).g@.files[objpath(path.p@, self.oid@)].data.len(), None => !old(w).has(objpath(path.p@, self.oid@)) || fault() }
#fn ArgumentParser::parse
:props C12
:ens match r { Ok(m) => args_map(vv(args@)) == Some(m.m@), Err(e) => args_map(vv(args@)).is_none() }
:ens [C06] match r { Ok(m) => true, Err(e) => bad_args(vv(args@), code_of(e.kind)) }
:loop 1
:inv $it.inv() && $it.s@ == args@ && args_map(vv(args@).take($it.i as int)) == Some(map.m@)
:lens args_map(vv(args@)) == Some(map.m@)
:dec args@.len() - $it.i
:lstart proof { let v = vv(args@); assert(v.take(v.len() as int) =~= v); if $it.i < v.len() { let n = $it.i as int; assert(v.take(n + 1).drop_last() =~= v.take(n)); assert(v.take(n + 1).last() == v[n]); lemma_find(v[n], 61); if args_map(v.take(n + 1)).is_none() { lemma_args_prefix(v, n + 1); } } }
:loop 2
:inv $it2.inv() && $it2.s@ == item@ && $acc2.is_none() && $cnt2 == $it2.i && forall|j: int| 0 <= j < $it2.i ==> item@[j] != 61
:lens match $acc2 { Some(n) => find(item@, 61) == n as int, None => find(item@, 61) < 0 }
:dec item@.len() - $it2.i
:lend proof { lemma_find(item@, 61); }
:lstart proof { lemma_find(item@, 61); }
#fn ArgumentParser::parse_value_as_integer
:props C12
:ens match r { Ok(v) => args.m@.contains_key(key@) && F::ps(args.m@[key@]) == Some(v), Err(e) => !args.m@.contains_key(key@) || F::ps(args.m@[key@]).is_none() }
:ens [C06] match r { Ok(v) => true, Err(e) => e.kind == (if args.m@.contains_key(key@) { ErrorKind::InvalidInteger } else { ErrorKind::MissingData }) }
#fn ArgumentParser::parse_integer
:props C12
:start proof { lemma_lossy_ps::<F>(item@); }
:ens match r { Ok(v) => F::ps(item@) == Some(v), Err(e) => F::ps(item@).is_none() }
:ens [C06] match r { Ok(v) => true, Err(e) => e.kind == ErrorKind::InvalidInteger }
#text
impl XClone for Oid { open spec fn same(&self, r: &Self) -> bool { r.oid@ == self.oid@ } #[verifier::external_body] fn xclone(&self) -> (r: Self) { unimplemented!() } }
impl PartialEq for Oid { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Oid {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Oid) -> bool { self.oid@ == o.oid@ }
}
impl XDisplay for Oid {
    open spec fn dv(&self) -> Seq<u8> { self.oid@ }
    uninterp spec fn nv(&self) -> int;
    fn xdisplay(&self) -> (r: Vec<u8>) { let mut f = fmt::Formatter::xbuffer(); let r = fmt::Display::fmt(self, &mut f); f.xtext(r) }
    #[verifier::external_body] fn xdisplay03(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn xhex4(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl<'a, R: io::Read, H: digest::Digest + io::Write> HashingReader<'a, R, H> {
    /// everything read so far has been hashed and counted
    pub open spec fn inv(&self) -> bool { (*self.rdr).rinv() && self.hash.winv() && !self.hash.framed() && (!self.hash.wfailed() ==> self.hash.out().len() == self.size) && self.size + (*self.rdr).budget() <= u64::MAX }
}
#end
#impl_extra Read@HashingReader
type G = (R, R::G);
#[verifier::prophetic] open spec fn ident(&self) -> (R, R::G) { (*final(self.rdr), (*self.rdr).ident()) }
open spec fn rest(&self) -> Seq<u8> { (*self.rdr).rest() }
open spec fn failed(&self) -> bool { (*self.rdr).failed() || self.hash.wfailed() }
open spec fn seen(&self) -> Seq<u8> { self.hash.out() }
open spec fn tracks(&self) -> bool { true }
open spec fn resume(&self) -> Option<Seq<u8>> { (*self.rdr).resume() }
open spec fn mid(&self) -> bool { (*self.rdr).mid() }
open spec fn whole(&self) -> bool { (*self.rdr).whole() }
open spec fn rinv(&self) -> bool { self.inv() }
open spec fn plain(&self) -> bool { false }
open spec fn budget(&self) -> nat { (*self.rdr).budget() }
#end
#fn HashingReader::new
:props C01
:req [C23] (*old(rdr)).rinv() && hash.winv() && !hash.framed() && hash.out().len() == 0 && (*old(rdr)).budget() <= u64::MAX
:ens *r.rdr == *old(rdr) && r.ident().0 == *final(rdr) && r.hash == hash && r.inv()
#fn HashingReader::size
:props C01
:ens r == self.size
#fn HashingReader::oid
:props C01 C02
:ens *final(self.rdr) == *old(self.rdr)
:ens match r { Ok(o) => o.oid@ == hexs(H::dg(self.hash.out())) && is_id(o.oid@), Err(e) => !is_id(hexs(H::dg(self.hash.out()))) && e.kind == ErrorKind::InvalidLFSOid }
#fn Read@HashingReader::read
:props C01 C05

#text
// ---------------------------------------------------------------- commands
/// The status code for an error.
pub open spec fn code_of(k: ErrorKind) -> int {
    match k {
        ErrorKind::BadPktlineHeader | ErrorKind::InvalidPacket | ErrorKind::UnexpectedPacket | ErrorKind::InvalidLFSOid | ErrorKind::InvalidInteger
        | ErrorKind::MissingData | ErrorKind::ExtraData | ErrorKind::CorruptData | ErrorKind::NotAllowed | ErrorKind::UnknownCommand => 400,
        _ => 500,
    }
}
/// A failure with this code; the text of its message is left open.
pub open spec fn fail(code: int) -> SV { simple_sv(code, Seq::empty()) }
/// a response without the texts of messages to humans
pub open spec fn norm(s: SV) -> SV { match s.body { Body::Msgs(m) => if s.code >= 400 && m.len() == 1 { SV { body: Body::Msgs(seq![Seq::<u8>::empty()]), ..s } } else { s }, _ => s } }
/// the response to a command with this result
pub open spec fn rv(r: Result<Status, Error>) -> SV { match r { Ok(s) => norm(s.sv()), Err(e) => fail(code_of(e.kind)) } }
/// success without anything to say
pub open spec fn done(args: Seq<Seq<u8>>) -> SV { SV { code: 200, args, body: Body::None } }
/// refused as malformed, or because of a failure of the server
pub open spec fn refused(sv: SV, v: Seq<Seq<u8>>) -> bool { sv =~~= fail(400) || sv =~~= fail(500) && (fault() || args_map(v).is_none() && bad_args(v, 500)) }
/// the arguments of a request (all items up to its end)
pub open spec fn items(s: Seq<u8>) -> Seq<Seq<u8>> { match take_to(s, false) { Some(x) => x.0, None => Seq::empty() } }
pub open spec fn num(s: Seq<u8>) -> Option<int> { match <u64 as FromStr>::ps(s) { Some(n) => Some(n as int), None => None } }
/// the size given in an argument list
pub open spec fn size_arg(v: Seq<Seq<u8>>) -> Option<int> { match args_map(v) { Some(m) => if m.contains_key(b"size") { num(m[b"size"]) } else { None }, None => None } }
// put-object
/// the uploaded data
pub open spec fn put_data(s: Seq<u8>) -> Seq<u8> { match take_to(s, true) { Some(x) => payload(x.1), None => Seq::empty() } }
pub open spec fn put_args(s: Seq<u8>) -> Seq<Seq<u8>> { match take_to(s, true) { Some(x) => x.0, None => Seq::empty() } }
/// a request to store data that has exactly the declared size and digest
pub open spec fn put_good(oid: Seq<u8>, s: Seq<u8>) -> bool {
    is_id(oid) && take_to(s, true).is_some() && size_arg(put_args(s)) == Some(put_data(s).len() as int) && hexs(sha256(put_data(s))) == oid
}
#[verifier::opaque]
pub open spec fn put_answer(mask: u32, oid: Seq<u8>, s: Seq<u8>, a: World, b: World, sv: SV) -> bool {
    &&& put_good(oid, s) ==> sv =~~= done(Seq::empty()) && stored(a, b, oid, put_data(s), Some((0o777u32 & !mask) as int)) || fault() && sv =~~= fail(500)
    &&& !put_good(oid, s) ==> unchanged(a, b) && refused(sv, put_args(s))
}
/// what a put-object request does to the store, complete or not
#[verifier::opaque]
pub open spec fn put_effect(oid: Seq<u8>, s: Seq<u8>, a: World, b: World) -> bool {
    wframe(a, b) && (unchanged(a, b) || put_good(oid, s) && after_flush(s).is_some() && stored(a, b, oid, put_data(s), None))
}
// verify-object, get-object
#[verifier::opaque]
pub open spec fn verify_answer(oid: Seq<u8>, s: Seq<u8>, a: World, sv: SV) -> bool {
    match size_arg(items(s)) {
        Some(n) if is_id(oid) => verify_sv(a, oid, n, sv) || fault() && sv =~~= fail(500),
        _ => refused(sv, items(s)),
    }
}
#[verifier::opaque]
pub open spec fn get_answer(oid: Seq<u8>, s: Seq<u8>, a: World, sv: SV) -> bool {
    let p = objpath(a.g@.root, oid);
    if is_id(oid) && args_map(items(s)).is_some() {
        if a.has(p) { sv =~~= (SV { code: 200, args: seq![b"size=" + dec_int(a.g@.files[p].data.len() as int) + b"\n"], body: Body::Stream(a.g@.files[p].data) }) || fault() && sv =~~= fail(500) }
        else { sv =~~= fail(404) || fault() && sv =~~= fail(500) }
    } else { refused(sv, items(s)) }
}
impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
    pub open spec fn inv(&self, w: World) -> bool { self.handler.inv() && self.backend.inv(w) && self.handler.rdr.mid() && self.handler.rdr.pending().len() == 0 && self.handler.rdr.rdr.budget() <= u64::MAX }
    /// the request after its first packet
    pub open spec fn req(&self) -> Seq<u8> { self.handler.rdr.rdr.rest() }
    /// the stream works and the request is complete
    pub open spec fn complete(&self, now: &Self) -> bool { !now.handler.rdr.failed() && after_flush(self.req()).is_some() }
}
/// what every command leaves alone
#[verifier::prophetic]
pub open spec fn cmd<'a, R: io::Read, W: io::Write>(a: &Processor<'a, R, W>, b: &Processor<'a, R, W>) -> bool {
    &&& b.handler.inv() && b.handler.wrtr == a.handler.wrtr && b.handler.rdr.ident() == a.handler.rdr.ident() && b.backend == a.backend
    &&& (a.handler.rdr.failed() ==> b.handler.rdr.failed()) && b.handler.rdr.budget() <= a.handler.rdr.budget()
    &&& b.handler.rdr.failed() || a.handler.rdr.resume().is_none() || b.handler.rdr.resume() == a.handler.rdr.resume()
}
#end
#fn Processor::new
:props C05
:ens r.handler == handler && r.backend == backend
#fn Processor::version
:start broadcast use lemma_after_take;
:props C05 C06
:req [C23] old(self).handler.inv() && old(self).handler.rdr.mid()
:ens [C05] cmd(old(self), final(self))
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens old(self).complete(final(self)) ==> rv(r) =~~= (SV { code: 200, args: Seq::empty(), body: Body::Msgs(Seq::empty()) })
#fn Processor::error
:props C05 C06
:ens r matches Ok(st) && st.inv() && (code >= 400 ==> rv(r) =~~= fail(code as int))
#fn Processor::size_from_arguments
:props C01 C12
:ens match r { Ok(n) => args.m@.contains_key(b"size") && num(args.m@[b"size"]) == Some(n as int), Err(e) => (!args.m@.contains_key(b"size") || num(args.m@[b"size"]).is_none()) && code_of(e.kind) == 400 }
#fn Processor::put_object
:start broadcast use lemma_after_take; proof { reveal(put_answer); reveal(put_effect); }
:props C01 C05 C06
:req [C23] old(self).inv(*old(w)) && old(w).g@.writable
:ens [C05] cmd(old(self), final(self))
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C01,C02] put_effect(oid@, old(self).req(), *old(w), *final(w))
:ens [C01] r.is_ok() ==> put_good(oid@, old(self).req()) && after_flush(old(self).req()).is_some()
:ens [C01,C06,C18] old(self).complete(final(self)) ==> put_answer(old(self).backend.umask, oid@, old(self).req(), *old(w), *final(w), rv(r))
#fn Processor::verify_object
:start broadcast use lemma_after_take; proof { reveal(verify_answer); }
:props C13 C05 C06
:req [C23] old(self).inv(*old(w))
:ens [C05] cmd(old(self), final(self))
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C13] unchanged(*old(w), *final(w))
:ens [C06,C13] old(self).complete(final(self)) ==> verify_answer(oid@, old(self).req(), *old(w), rv(r))
#fn Processor::get_object
:start broadcast use lemma_after_take; proof { reveal(get_answer); }
:props C10 C05 C06
:req [C23] old(self).inv(*old(w))
:ens [C05] cmd(old(self), final(self))
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C10] unchanged(*old(w), *final(w))
:ens [C06,C10] old(self).complete(final(self)) ==> get_answer(oid@, old(self).req(), *old(w), rv(r))
#text
// ---------------------------------------------------------------- batch
/// the object and size named by a line of a batch request
pub open spec fn line_val(l: Seq<u8>) -> Option<(Seq<u8>, int)> {
    let v = split(l, 32u8);
    if l.len() > 0 && l.last() == 10 && v.len() == 2 && is_id(v[0]) && v[1].len() > 0 { match num(v[1].drop_last()) { Some(n) => Some((v[0], n)), None => None } } else { None }
}
pub open spec fn batch_lines(s: Seq<u8>) -> Option<Seq<Seq<u8>>> { match take_to(s, true) { Some(x) => match take_to(x.1, false) { Some(y) => Some(y.0), None => None }, None => None } }
pub open spec fn all_lines(v: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < v.len() ==> line_val(#[trigger] v[i]).is_some() }
pub open spec fn algo_ok(m: Map<Seq<u8>, Seq<u8>>) -> bool { m.contains_key(b"hash-algo") ==> m[b"hash-algo"] == b"sha256" }
/// The lines of a request that is well formed.
pub open spec fn batch_req(s: Seq<u8>) -> Option<Seq<Seq<u8>>> {
    match batch_lines(s) {
        Some(v) => match args_map(put_args(s)) { Some(m) => if algo_ok(m) && all_lines(v) { Some(v) } else { None }, None => None },
        None => None,
    }
}
/// a line that does not have two fields
pub open spec fn odd_line(v: Seq<Seq<u8>>) -> bool { exists|i: int| 0 <= i < v.len() && line_val(#[trigger] v[i]).is_none() && (split(v[i], 32u8).len() != 2 || split(v[i], 32u8)[1].len() == 0) }
pub open spec fn batch_refused(s: Seq<u8>, sv: SV) -> bool { refused(sv, put_args(s)) || sv =~~= fail(500) && (match batch_lines(s) { Some(v) => odd_line(v), None => false }) }
/// what is said about one object
pub open spec fn batch_line(a: World, oid: Seq<u8>, size: int, pa: Seq<u8>, ma: Seq<u8>, m: Seq<u8>) -> bool {
    let p = objpath(a.g@.root, oid);
    ||| a.has(p) && m =~= oid + b" " + dec_int(a.g@.files[p].data.len() as int) + b" " + pa + b"\n"
    ||| (!a.has(p) || fault()) && m =~= oid + b" " + dec_int(size) + b" " + ma + b"\n"
}
/// the answer to a batch request: `pa` for objects that are there, `ma` for those that are not
#[verifier::opaque]
pub open spec fn batch_answer(pa: Seq<u8>, ma: Seq<u8>, s: Seq<u8>, a: World, sv: SV) -> bool {
    match batch_req(s) {
        None => batch_refused(s, sv),
        Some(v) => sv.code == 200 && sv.args.len() == 0 && (match sv.body {
            Body::Msgs(m) => m.len() == v.len() && forall|i: int| 0 <= i < m.len() ==> batch_line(a, line_val(v[i]).unwrap().0, line_val(v[i]).unwrap().1, pa, ma, #[trigger] m[i]),
            _ => false,
        }),
    }
}
pub open spec fn read_lines(v: Seq<Seq<u8>>, n: int, acc: Seq<(Oid, u64)>) -> bool {
    acc.len() == n && n <= v.len() && forall|i: int| #![trigger acc[i]] #![trigger v[i]] 0 <= i < n ==> line_val(v[i]) == Some((acc[i].0.oid@, acc[i].1 as int)) && is_id(acc[i].0.oid@)
}
/// the error for a line that is not well formed
pub open spec fn line_failed(v: Seq<Seq<u8>>, e: Option<Error>) -> bool {
    e matches Some(x) ==> !all_lines(v) && (code_of(x.kind) == 400 || code_of(x.kind) == 500 && odd_line(v))
}
pub open spec fn batch_items(w: World, v: Seq<Seq<u8>>, b: Seq<BatchItem>) -> bool {
    b.len() == v.len() && forall|i: int| 0 <= i < b.len() ==> item_ok(w, line_val(v[i]).unwrap().0, line_val(v[i]).unwrap().1, #[trigger] b[i])
}
pub broadcast proof fn lossy_u64(s: Seq<u8>) ensures <u64 as FromStr>::ps(#[trigger] lossy(s)) == <u64 as FromStr>::ps(s) { lemma_lossy_ps::<u64>(s); }
#end
#fn Processor::read_batch
:attr #[verifier::spinoff_prover]
:start broadcast use lemma_after_take, lossy_u64;
:props C11 C05 C06
:req [C23] old(self).inv(*old(w))
:ens [C05] cmd(old(self), final(self))
:ens [C11] unchanged(*old(w), *final(w))
:ens [C11] old(self).complete(final(self)) ==> (r matches Ok(b) ==> batch_req(old(self).req()).is_some() && batch_items(*old(w), batch_req(old(self).req()).unwrap(), b@))
:ens [C06,C11] old(self).complete(final(self)) ==> (r matches Err(e) ==> batch_req(old(self).req()).is_none() && batch_refused(old(self).req(), fail(code_of(e.kind))))
:loop 1
:inv $it.inv() && $it.s@ == data@
:invx $err.is_none() && read_lines(vv(data@), $it.i as int, $acc@)
:lens line_failed(vv(data@), $err) && ($err.is_none() ==> read_lines(vv(data@), data@.len() as int, $acc@))
:dec data@.len() - $it.i
:lstart proof { let cur = vv(data@)[$it.i as int]; assert(cur == cur); }
:loop 2
:lbefore proof { assert(line@.subrange(0, line@.len() as int) =~= line@); }
:inv $it2.inv() && $it2.parts@ == split(line@, 32u8)
:invx $acc2@.len() == $it2.i@ && forall|j: int| 0 <= j < $it2.i@ ==> (#[trigger] $acc2@[j])@ == $it2.parts@[j]
:lens $acc2@.len() == split(line@, 32u8).len() && forall|j: int| 0 <= j < $acc2@.len() ==> (#[trigger] $acc2@[j])@ == split(line@, 32u8)[j]
:dec $it2.parts@.len() - $it2.i@
#fn Processor::batch_data
:start proof { reveal(batch_answer); }
:props C11 C05 C06
:req [C23] old(self).inv(*old(w))
:ens [C05] cmd(old(self), final(self))
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C11] unchanged(*old(w), *final(w))
:ens [C06,C11] old(self).complete(final(self)) ==> batch_answer(present_action@, missing_action@, old(self).req(), *old(w), rv(r))
:loop 1
:inv $it.inv() && $it.s@ == batch@ && unchanged(*old(w), *w) && cmd(old(self), self)
:inv $acc@.len() == $it.i && said(batch@, present_action@, missing_action@, $acc@)
:lens $acc@.len() == batch@.len()
:dec batch@.len() - $it.i
#text
/// the lines for the first of these items
pub open spec fn said(b: Seq<BatchItem>, pa: Seq<u8>, ma: Seq<u8>, m: Seq<Vec<u8>>) -> bool {
    m.len() <= b.len() && forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])@ =~= b[i].oid.oid@ + b" " + dec_int(b[i].size as int) + b" " + (if b[i].present { pa } else { ma }) + b"\n"
}
#end
#fn Processor::upload_batch
:props C11 C05 C06
:req [C23] old(self).inv(*old(w))
:ens [C05] cmd(old(self), final(self))
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C11] unchanged(*old(w), *final(w))
:ens [C06,C11] old(self).complete(final(self)) ==> batch_answer(b"noop", b"upload", old(self).req(), *old(w), rv(r))
#fn Processor::download_batch
:props C11 C05 C06
:req [C23] old(self).inv(*old(w))
:ens [C05] cmd(old(self), final(self))
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C11] unchanged(*old(w), *final(w))
:ens [C06,C11] old(self).complete(final(self)) ==> batch_answer(b"download", b"noop", old(self).req(), *old(w), rv(r))
#text
// ---------------------------------------------------------------- lock, unlock
/// the path to lock
pub open spec fn lock_target(s: Seq<u8>) -> Option<Seq<u8>> {
    match args_map(items(s)) { Some(m) => if m.contains_key(b"path") && m.contains_key(b"refname") { Some(m[b"path"]) } else { None }, None => None }
}
/// these arguments give the details of this lock (its owner may be unknown after a failure of the system)
pub open spec fn shown(args: Seq<Seq<u8>>, l: LV) -> bool { args =~~= lock_args(l) || fault() && args.len() == 4 && args.take(3) =~~= lock_args(l).take(3) }
/// a lock for this path now exists, which did not before; nothing else changed
pub open spec fn now_locked(a: World, b: World, path: Seq<u8>) -> bool {
    let f = lockpath(a.g@.root, lock_id(path));
    !a.has(f) && b.has(f) && vis(b) =~= vis(a).insert(f, b.g@.files[f]) && lock_at(b, lock_id(path)).is_some() && lock_at(b, lock_id(path)).unwrap().path == path
}
#[verifier::opaque]
pub open spec fn lock_answer(s: Seq<u8>, a: World, b: World, sv: SV) -> bool {
    match lock_target(s) {
        None => unchanged(a, b) && refused(sv, items(s)),
        Some(path) => {
            let id = lock_id(path); let f = lockpath(a.g@.root, id);
            ||| !a.has(f) && now_locked(a, b, path) && sv.code == 201 && sv.body is None && shown(sv.args, lock_at(b, id).unwrap())
            ||| a.has(f) && vis(b) =~= vis(a) && (match lock_at(a, id) {
                    Some(l) if l.path == path => sv.code == 409 && shown(sv.args, l) && sv.body == fail(409).body,
                    _ => sv =~~= fail(400),
                })
            ||| fault() && vis(b) =~= vis(a) && sv =~~= fail(500)
        },
    }
}
#[verifier::opaque]
pub open spec fn lock_effect(s: Seq<u8>, a: World, b: World) -> bool {
    wframe(a, b) && (vis(b) =~= vis(a) || after_flush(s).is_some() && lock_target(s).is_some() && now_locked(a, b, lock_target(s).unwrap()))
}
/// the lock with this id, stored where it belongs
pub open spec fn proper(a: World, id: Seq<u8>) -> bool { lock_at(a, id).is_some() && lock_id(lock_at(a, id).unwrap().path) == id }
#[verifier::opaque]
pub open spec fn unlock_answer(id: Seq<u8>, a: World, b: World, sv: SV) -> bool {
    let f = lockpath(a.g@.root, id);
    ||| !is_utf8(id) && unchanged(a, b) && sv =~~= fail(400)
    ||| is_utf8(id) && (!is_id(id) || !a.has(f)) && unchanged(a, b) && sv =~~= fail(404)
    ||| is_id(id) && a.has(f) && lock_at(a, id).is_none() && unchanged(a, b) && sv =~~= fail(400)
    ||| is_id(id) && proper(a, id) && a.has(f) && b.g@.files =~= a.g@.files.remove(f) && sv.code == 200 && sv.body is None && shown(sv.args, lock_at(a, id).unwrap())
    ||| is_id(id) && lock_at(a, id).is_some() && !proper(a, id)
    ||| fault() && unchanged(a, b) && (sv =~~= fail(500) || sv =~~= fail(403) || sv =~~= fail(404))
}
#[verifier::opaque]
pub open spec fn unlock_effect(id: Seq<u8>, s: Seq<u8>, a: World, b: World) -> bool {
    wframe(a, b) && (unchanged(a, b) || after_flush(s).is_some() && is_id(id) && lock_at(a, id).is_some()
        && b.g@.files =~= a.g@.files.remove(lockpath(a.g@.root, lock_id(lock_at(a, id).unwrap().path))))
}
/// what does not matter to the transient companions does not matter to locks
pub broadcast proof fn lemma_vis(a: World, b: World, id: Seq<u8>)
    requires vis(a) == vis(b), a.g@.root == b.g@.root, is_id(id)
    ensures #![trigger vis(a), vis(b), lockpath(b.g@.root, id)] a.has(lockpath(a.g@.root, id)) == b.has(lockpath(b.g@.root, id)), lock_at(a, id) == lock_at(b, id)
{
    broadcast use crate::prelude::paths;
    let p = lockpath(a.g@.root, id);
    assert(!is_tmp(a.g@.root, p)) by { if is_tmp(a.g@.root, p) { let o = choose|o: Seq<u8>| is_id(o) && p == #[trigger] locktmp(a.g@.root, o); lemma_lock_tmp(a.g@.root, id, o); } }
    assert(vis(a).contains_key(p) == a.has(p)); assert(vis(b).contains_key(p) == b.has(p));
    assert(a.has(p) ==> vis(a)[p] == a.g@.files[p]); assert(b.has(p) ==> vis(b)[p] == b.g@.files[p]);
}
// records can be read back
pub proof fn lemma_digits_of(n: nat) ensures digits(dec_of(n)) == Some(n), dec_of(n).len() > 0, dec_of(n)[0] != 43, dec_of(n)[0] != 45, !dec_of(n).contains(58u8) decreases n
{
    if n >= 10 {
        lemma_digits_of(n / 10);
        let d = dec_of(n / 10); let e = dec_of(n);
        assert(e.drop_last() =~= d); assert(e[0] == d[0]);
        assert forall|i: int| 0 <= i < e.len() implies e[i] != 58 by { if i < d.len() { assert(d.contains(d[i])); assert(e[i] == d[i]); } }
    }
}
pub broadcast proof fn lemma_record(t0: int, path: Seq<u8>)
    requires representable(t0), i64::MIN <= t0 <= i64::MAX
    ensures parse_rec(#[trigger] record(t0, path)) == Some((t0, path))
{
    let t = t0 as i64;
    let r = record(t as int, path); let d = dec_int(t as int);
    lemma_digits_of(t as nat); lemma_digits_of((-t) as nat);
    if t < 0 { assert(d.skip(1) =~= dec_of((-t) as nat)); assert(d[0] == 45); }
    assert(!d.contains(58u8)) by { if t < 0 { let e = dec_of((-t) as nat); assert forall|i: int| 0 <= i < d.len() implies d[i] != 58 by { if i > 0 { assert(d[i] == e[i - 1]); assert(e.contains(e[i - 1])); } } } }
    assert(parse_dec(d, true) == Some(t as int));
    assert(<i64 as FromStr>::ps(d) == Some(t));
    let v1 = b"v1";
    assert(v1.len() == 2 && v1[0] == 118 && v1[1] == 49);
    let c = b"v1:"; assert(c.len() == 3 && c[0] == 118 && c[1] == 49 && c[2] == 58);
    let sep = b":"; assert(sep.len() == 1 && sep[0] == 58);
    lemma_find_is(r, 58, 2);
    assert(r.take(2) =~= v1);
    let r2 = r.skip(3);
    assert(r2 =~= d + sep + path);
    assert forall|j: int| 0 <= j < d.len() implies r2[j] != 58 by { assert(r2[j] == d[j]); assert(d.contains(d[j])); }
    lemma_find_is(r2, 58, d.len() as int);
    assert(r2.take(d.len() as int) =~= d);
    assert(r2.skip(d.len() as int + 1) =~= path);
    assert(splitn(path, 1, 58u8) == seq![path]);
    assert(splitn(r2, 2, 58u8) =~= seq![d, path]);
    assert(splitn(r, 3, 58u8) =~= seq![v1, d, path]);
}
#end
#fn Processor::lock
:attr #[verifier::spinoff_prover]
:rets proof { assert(has_resolved(w)); assert(*final(w) == *w); }
:start broadcast use lemma_after_take, lemma_vis, lemma_record; proof { reveal(lock_answer); reveal(lock_effect); }
:props C14 C05 C06
:req [C23] old(self).inv(*old(w)) && old(w).g@.writable
:ens [C05] cmd(old(self), final(self))
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C14] lock_effect(old(self).req(), *old(w), *final(w))
:ens [C06,C14,C17] old(self).complete(final(self)) ==> lock_answer(old(self).req(), *old(w), *final(w), rv(r))
:loop 1
:inv cmd(old(self), self) && lock_backend.inv(*w) && wframe(*old(w), *w) && w.g@.writable && vis(*w) == vis(*old(w))
:inv lock_target(old(self).req()) == Some(path@) && after_flush(old(self).req()).is_some()
:inv retried ==> !old(w).has(lockpath(old(w).g@.root, lock_id(path@))) && (!w.has(locktmp(w.g@.root, lock_id(path@))) || fault())
:dec if retried { 0int } else { 1 }
#text
// ---------------------------------------------------------------- list-lock
pub open spec fn opt(m: Map<Seq<u8>, Seq<u8>>, k: Seq<u8>) -> Option<Seq<u8>> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn cv(c: Option<&Vec<u8>>) -> Option<Seq<u8>> { match c { Some(v) => Some(v@), None => None } }
/// this lock precedes the cursor
pub open spec fn below(id: Seq<u8>, cursor: Option<Seq<u8>>) -> bool { match cursor { Some(c) => lex_lt(id, c), None => false } }
pub open spec fn msgs_sv(args: Seq<Seq<u8>>, m: Seq<Seq<u8>>) -> SV { SV { code: 200, args, body: Body::Msgs(m) } }
/// what may be answered after a failure of the system
pub open spec fn list_fault(sv: SV) -> bool { fault() && (sv =~~= fail(500) || sv.code == 200 && sv.body is Msgs) }
/// the answer for one path
pub open spec fn path_answer(path: Seq<u8>, cursor: Option<Seq<u8>>, own: bool, a: World, sv: SV) -> bool {
    let id = lock_id(path);
    ||| list_fault(sv)
    ||| !a.has(lockpath(a.g@.root, id)) && sv =~~= fail(404)
    ||| a.has(lockpath(a.g@.root, id)) && (match lock_at(a, id) {
            Some(l) if l.path == path => if below(id, cursor) { sv =~~= fail(404) } else { sv =~~= msgs_sv(Seq::empty(), lock_spec(l, own)) },
            _ => sv =~~= fail(400),
        })
}
/// all locks, in the order of their ids
pub open spec fn enumerates(a: World, ids: Seq<Seq<u8>>) -> bool { ordered(ids) && forall|id: Seq<u8>| ids.contains(id) <==> is_id(id) && #[trigger] lock_at(a, id).is_some() }
/// k is the first lock not before the cursor
pub open spec fn starts(ids: Seq<Seq<u8>>, k: int, cursor: Option<Seq<u8>>) -> bool {
    0 <= k <= ids.len() && (forall|i: int| 0 <= i < k ==> below(#[trigger] ids[i], cursor)) && (k < ids.len() ==> !below(ids[k], cursor))
}
/// the first lock of a page
#[verifier::opaque]
pub open spec fn page_start(a: World, ids: Seq<Seq<u8>>, k: int, cursor: Option<Seq<u8>>) -> bool { enumerates(a, ids) && starts(ids, k, cursor) }
/// the messages for n locks from the k-th one on
pub open spec fn page_msgs(a: World, ids: Seq<Seq<u8>>, k: int, n: int, own: bool) -> Seq<Seq<u8>> { flatv(Seq::new(n as nat, |i: int| lock_spec(lock_at(a, ids[k + i]).unwrap(), own))) }
/// the page from the k-th lock on
pub open spec fn page_of(a: World, ids: Seq<Seq<u8>>, k: int, limit: int, own: bool, sv: SV) -> bool {
    &&& sv.code == 200
    &&& sv.args =~~= if k + limit < ids.len() { seq![b"next-cursor=" + ids[k + limit] + b"\n"] } else { Seq::empty() }
    &&& sv.body == Body::Msgs(page_msgs(a, ids, k, if k + limit < ids.len() { limit } else { ids.len() - k }, own))
}
pub open spec fn page_answer(cursor: Option<Seq<u8>>, limit: int, own: bool, a: World, sv: SV) -> bool {
    list_fault(sv) || !wf_locks(a) || exists|ids: Seq<Seq<u8>>, k: int| #[trigger] page_start(a, ids, k, cursor) && page_of(a, ids, k, limit, own, sv)
}
/// the number of locks asked for
pub open spec fn limit_of(m: Map<Seq<u8>, Seq<u8>>) -> Option<int> {
    match (if m.contains_key(b"limit") { <usize as FromStr>::ps(m[b"limit"]) } else { Some(100usize) }) { Some(n) if n > 0 => Some(if n > 100 { 100 } else { n as int }), _ => None }
}
/// what a well-formed request asks for
pub struct ListReq { pub limit: int, pub cursor: Option<Seq<u8>>, pub path: Option<Seq<u8>> }
pub open spec fn list_req(s: Seq<u8>) -> Option<ListReq> {
    match args_map(items(s)) {
        None => None,
        Some(m) => match limit_of(m) { None => None, Some(n) => Some(ListReq { limit: n, cursor: opt(m, b"cursor"), path: opt(m, b"path") }) },
    }
}
#[verifier::opaque]
pub open spec fn list_answer(own: bool, s: Seq<u8>, a: World, sv: SV) -> bool {
    match list_req(s) {
        None => refused(sv, items(s)),
        Some(q) => match q.path { Some(p) => path_answer(p, q.cursor, own, a, sv), None => page_answer(q.cursor, q.limit, own, a, sv) },
    }
}
// Successive pages give every lock exactly once.
pub proof fn lemma_enum_unique(a: World, x: Seq<Seq<u8>>, y: Seq<Seq<u8>>)
    requires enumerates(a, x), enumerates(a, y)
    ensures x =~= y
{
    lemma_enum_prefix(a, x, y, x.len() as int); lemma_enum_prefix(a, y, x, y.len() as int);
    assert(x.take(x.len() as int) =~= x); assert(y.take(x.len() as int) =~= y);
}
proof fn lemma_enum_prefix(a: World, x: Seq<Seq<u8>>, y: Seq<Seq<u8>>, n: int)
    requires enumerates(a, x), enumerates(a, y), 0 <= n <= x.len()
    ensures n <= y.len() && x.take(n) =~= y.take(n)
    decreases n
{
    if n > 0 {
        let i = n - 1;
        lemma_enum_prefix(a, x, y, i);
        assert forall|j: int| 0 <= j < i implies x[j] == y[j] by { assert(x.take(i)[j] == y.take(i)[j]); }
        assert(x.contains(x[i])); assert(lock_at(a, x[i]).is_some()); assert(y.contains(x[i]));
        let j = choose|j: int| 0 <= j < y.len() && y[j] == x[i];
        lex_total(x[i], x[i]);
        if j < i { assert(lex_lt(x[j], x[i])); }
        if j > i {
            assert(y.contains(y[i])); assert(lock_at(a, y[i]).is_some()); assert(x.contains(y[i]));
            let q = choose|q: int| 0 <= q < x.len() && x[q] == y[i];
            assert(lex_lt(y[i], y[j]));
            lex_total(x[i], y[i]); lex_total(x[q], x[q]);
            if q < i { assert(lex_lt(y[q], y[i])); } else if q > i { assert(lex_lt(x[i], x[q])); }
        }
        assert(x[i] == y[i]);
        assert(x.take(n) =~= x.take(i).push(x[i])); assert(y.take(n) =~= y.take(i).push(y[i]));
    }
}
/// A page asked for with a cursor that the page before it gave starts where that page ended.
pub proof fn lemma_next_page(ids: Seq<Seq<u8>>, k: int, j: int)
    requires ordered(ids), 0 <= j < ids.len(), starts(ids, k, Some(ids[j]))
    ensures k == j
{
    lex_total(ids[j], ids[j]);
    if k < j { assert(lex_lt(ids[k], ids[j])); }
    if k > j { assert(below(ids[j], Some(ids[j]))); }
}
// How the listing is put together.
pub open spec fn is_live(w: World, id: Seq<u8>) -> bool { is_id(id) && lock_at(w, id).is_some() }
/// the locks stored under the first n of these names
pub open spec fn live(w: World, names: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { Seq::empty() } else if is_live(w, names[n - 1]) { live(w, names, n - 1).push(names[n - 1]) } else { live(w, names, n - 1) }
}
proof fn lemma_live(w: World, names: Seq<Seq<u8>>, n: int)
    requires ordered(names), 0 <= n <= names.len()
    ensures ordered(live(w, names, n)), forall|id: Seq<u8>| live(w, names, n).contains(id) ==> is_live(w, id) && names.contains(id),
        forall|i: int| 0 <= i < n && is_live(w, names[i]) ==> live(w, names, n).contains(#[trigger] names[i]),
        forall|i: int, j: int| 0 <= i < live(w, names, n).len() && n <= j < names.len() ==> lex_lt(#[trigger] live(w, names, n)[i], #[trigger] names[j]),
    decreases n
{
    if n > 0 {
        lemma_live(w, names, n - 1);
        let l = live(w, names, n - 1); let m = live(w, names, n);
        if is_live(w, names[n - 1]) {
            assert(m.last() == names[n - 1]);
            assert(m.contains(names[n - 1]));
            assert forall|id: Seq<u8>| m.contains(id) implies is_live(w, id) && names.contains(id) by { let i = choose|i: int| 0 <= i < m.len() && m[i] == id; if i < l.len() { assert(l.contains(l[i])); } }
            assert forall|i: int| 0 <= i < n && is_live(w, names[i]) implies m.contains(#[trigger] names[i]) by { if i < n - 1 { let q = choose|q: int| 0 <= q < l.len() && l[q] == names[i]; assert(m[q] == names[i]); } }
        }
    }
}
proof fn lemma_live_skip(w: World, names: Seq<Seq<u8>>, a: int, b: int)
    requires 0 <= a <= b <= names.len(), no_lock(w, names, a, b)
    ensures live(w, names, b) == live(w, names, a)
    decreases b - a
{ if a < b { lemma_live_skip(w, names, a, b - 1); } }
proof fn lemma_live_next(w: World, names: Seq<Seq<u8>>, a: int, b: int, l: LocalBackendLock)
    requires 0 <= a, next_lock(w, names, a, b, l)
    ensures !fault() && wf_locks(w) ==> live(w, names, b) == live(w, names, a).push(lock_id(l.path_name@)) && l.lv() == lock_at(w, lock_id(l.path_name@)).unwrap()
{ if !fault() { lemma_live_skip(w, names, a, b - 1); } }
proof fn lemma_live_prefix(w: World, names: Seq<Seq<u8>>, a: int, b: int)
    requires 0 <= a <= b <= names.len()
    ensures live(w, names, a).len() <= live(w, names, b).len(), live(w, names, b).take(live(w, names, a).len() as int) =~= live(w, names, a)
    decreases b - a
{ if a < b { lemma_live_prefix(w, names, a, b - 1); } }
/// these are the locks collected so far, when the first n names have been seen
#[verifier::opaque]
pub open spec fn picked(w: World, names: Seq<Seq<u8>>, n: int, cursor: Option<Seq<u8>>, skip: bool, v: Seq<LocalBackendLock>) -> bool {
    let l = live(w, names, n); let k = l.len() - v.len();
    &&& k >= 0 && (forall|i: int| 0 <= i < k ==> below(#[trigger] l[i], cursor))
    &&& if skip { v.len() == 0 } else { v.len() > 0 && !below(l[k], cursor) }
    &&& forall|j: int| 0 <= j < v.len() ==> l[k + j] == lock_id((#[trigger] v[j]).path_name@) && v[j].lv() == lock_at(w, l[k + j]).unwrap()
}
/// the locks of a page, and the next one if there is one
#[verifier::opaque]
pub open spec fn page_items(w: World, ids: Seq<Seq<u8>>, k: int, cursor: Option<Seq<u8>>, limit: int, v: Seq<LocalBackendLock>) -> bool {
    &&& page_start(w, ids, k, cursor) && v.len() == (if k + limit < ids.len() { limit + 1 } else { ids.len() - k })
    &&& forall|j: int| 0 <= j < v.len() ==> ids[k + j] == lock_id((#[trigger] v[j]).path_name@) && v[j].lv() == lock_at(w, ids[k + j]).unwrap()
}
pub open spec fn paged(w: World, cursor: Option<Seq<u8>>, limit: int, v: Seq<LocalBackendLock>) -> bool {
    fault() || !wf_locks(w) || exists|ids: Seq<Seq<u8>>, k: int| page_items(w, ids, k, cursor, limit, v)
}
proof fn lemma_paged(w: World, names: Seq<Seq<u8>>, n: int, cursor: Option<Seq<u8>>, skip: bool, limit: int, v: Seq<LocalBackendLock>)
    requires ordered(names), listing(w, names), 0 <= n <= names.len(), limit >= 0, picked(w, names, n, cursor, skip, v), v.len() == limit + 1 || v.len() <= limit && no_lock(w, names, n, names.len() as int)
    ensures paged(w, cursor, limit, v)
{
    reveal(picked); reveal(page_items); reveal(page_start);
    let ids = live(w, names, names.len() as int); let l = live(w, names, n); let k = l.len() - v.len();
    lemma_live(w, names, names.len() as int);
    lemma_live_prefix(w, names, n, names.len() as int);
    assert forall|i: int| 0 <= i < l.len() implies ids[i] == l[i] by { assert(ids.take(l.len() as int)[i] == l[i]); }
    if v.len() <= limit { lemma_live_skip(w, names, n, names.len() as int); assert(ids == l); }
    assert forall|id: Seq<u8>| is_id(id) && (#[trigger] lock_at(w, id)).is_some() implies ids.contains(id) by {
        assert(is_live(w, id)); assert(w.has(lockpath(w.g@.root, id))); assert(names.contains(id));
        let i = choose|i: int| 0 <= i < names.len() && names[i] == id; assert(is_live(w, names[i])); assert(ids.contains(names[i]));
    }
    assert forall|id: Seq<u8>| #[trigger] ids.contains(id) implies is_id(id) && lock_at(w, id).is_some() by { assert(is_live(w, id)); }
    assert(page_items(w, ids, k, cursor, limit, v));
}
pub open spec fn specs_of(s: Seq<Vec<Vec<u8>>>, v: Seq<LocalBackendLock>, own: bool) -> bool { s.len() <= v.len() && forall|i: int| 0 <= i < s.len() ==> vv((#[trigger] s[i])@) == lock_spec(v[i].lv(), own) }
pub broadcast proof fn lemma_page(w: World, ids: Seq<Seq<u8>>, k: int, cursor: Option<Seq<u8>>, limit: int, own: bool, v: Seq<LocalBackendLock>, s: Seq<Vec<Vec<u8>>>)
    requires #[trigger] page_items(w, ids, k, cursor, limit, v), #[trigger] specs_of(s, v, own), limit > 0
    ensures flat_of(s) == page_msgs(w, ids, k, s.len() as int, own), page_start(w, ids, k, cursor), 0 <= k <= ids.len(), v.len() == (if k + limit < ids.len() { limit + 1 } else { ids.len() - k }),
        k + limit < ids.len() ==> ids[k + limit] == lock_id(v[limit].path_name@)
{
    reveal(page_items); reveal(page_start);
    let x = Seq::new(s.len(), |i: int| vv(s[i]@)); let y = Seq::new(s.len(), |i: int| lock_spec(lock_at(w, ids[k + i]).unwrap(), own));
    assert forall|i: int| 0 <= i < s.len() implies x[i] == y[i] by { assert(vv(s[i]@) == lock_spec(v[i].lv(), own)); assert(v[i].lv() == lock_at(w, ids[k + i]).unwrap()); }
    assert(x =~= y);
}
pub broadcast proof fn lemma_picked(w: World, names: Seq<Seq<u8>>, a: int, b: int, cursor: Option<Seq<u8>>, skip: bool, v: Seq<LocalBackendLock>, l: LocalBackendLock)
    requires #[trigger] picked(w, names, a, cursor, skip, v), #[trigger] next_lock(w, names, a, b, l), 0 <= a, !fault(), wf_locks(w)
    ensures if skip && below(lock_id(l.path_name@), cursor) { picked(w, names, b, cursor, true, v) } else { picked(w, names, b, cursor, false, v.push(l)) }
{ reveal(picked); lemma_live_next(w, names, a, b, l); }
pub broadcast proof fn lemma_picked_end(w: World, names: Seq<Seq<u8>>, a: int, b: int, cursor: Option<Seq<u8>>, skip: bool, v: Seq<LocalBackendLock>)
    requires #[trigger] picked(w, names, a, cursor, skip, v), #[trigger] no_lock(w, names, a, b), 0 <= a <= b <= names.len()
    ensures picked(w, names, b, cursor, skip, v)
{ reveal(picked); lemma_live_skip(w, names, a, b); }
proof fn lemma_picked_none(w: World, names: Seq<Seq<u8>>, cursor: Option<Seq<u8>>)
    ensures picked(w, names, 0, cursor, true, Seq::empty())
{ reveal(picked); }
pub open spec fn timed(v: Seq<LocalBackendLock>) -> bool { forall|i: int| 0 <= i < v.len() ==> representable((#[trigger] v[i]).time as int) }
#end
#fn Processor::list_locks_for_path
:res as_lock_spec
:props C16 C05 C06
:req [C23] old(self).backend.inv(*old(w))
:ens [C05] *final(self) == *old(self)
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C16] unchanged(*old(w), *final(w))
:ens [C06,C16] path_answer(path@, cv(cursor), use_owner_id, *old(w), rv(r))
#fn Processor::list_locks
:attr #[verifier::spinoff_prover]
:start broadcast use lemma_after_take, lemma_page, lemma_picked, lemma_picked_end; proof { reveal(list_answer); }
:props C16 C05 C06
:req [C23] old(self).inv(*old(w))
:ens [C05] cmd(old(self), final(self))
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C16] unchanged(*old(w), *final(w))
:ens [C06,C16] old(self).complete(final(self)) && list_req(old(self).req()).is_none() ==> refused(rv(r), items(old(self).req()))
:ens [C06,C16,C17] old(self).complete(final(self)) ==> match list_req(old(self).req()) { Some(q) => q.path.is_some() ==> path_answer(q.path.unwrap(), q.cursor, use_owner_id, *old(w), rv(r)), None => true }
:ens [C06,C16,C17] old(self).complete(final(self)) ==> match list_req(old(self).req()) { Some(q) => q.path.is_none() ==> page_answer(q.cursor, q.limit, use_owner_id, *old(w), rv(r)), None => true }
:ens [C06,C16,C17] old(self).complete(final(self)) ==> list_answer(use_owner_id, old(self).req(), *old(w), rv(r))
:loop 1
:lbefore let ghost names = $it.names(); let ghost cur = cv(cursor); proof { lemma_picked_none(*w, names, cur); assert($acc@ =~= Seq::empty()); }
:inv unchanged(*old(w), *w) && $it.inv(*w) && $it.names() == names && $taken <= limit + 1 && ($it.done ==> fault()) && timed($acc@)
:inv fault() || !wf_locks(*w) || picked(*w, names, $it.item as int, cur, $skip, $acc@)
:invx $err.is_none() && $taken == $acc@.len()
:lens io_failed($err)
:lens $err.is_none() ==> $acc@.len() == $taken && ($taken == limit + 1 || $taken <= limit && ($it.item == names.len() || fault()))
:dec names.len() - $it.item
:lafter proof { if $err.is_none() && !fault() && wf_locks(*w) { lemma_paged(*w, names, $it.item as int, cur, $skip, limit as int, $acc@); } }
:loop 2
:inv $it2.inv() && $it2.s@ == items@ && $taken2 == $it2.i && $taken2 <= limit
:inv $err2.is_none() && specs_of($acc2@, items@, use_owner_id)
:invx $acc2@.len() == $it2.i
:lens $acc2@.len() == (if items@.len() <= limit { items@.len() as int } else { limit as int })
:dec items@.len() - $it2.i
#fn Processor::unlock
:start broadcast use lemma_after_take, crate::prelude::utf8_ascii; proof { lemma_id_ascii(id@); } proof { reveal(unlock_answer); reveal(unlock_effect); }
:props C15 C05 C06
:req [C23] old(self).inv(*old(w)) && old(w).g@.writable
:ens [C05] cmd(old(self), final(self))
:ens [C04] !(rv(r).body is Stream)
:ens [C05] r matches Ok(st) ==> st.inv()
:ens [C15] unlock_effect(id@, old(self).req(), *old(w), *final(w))
:ens [C06,C15,C17] old(self).complete(final(self)) ==> unlock_answer(id@, *old(w), *final(w), rv(r))
#text
// ---------------------------------------------------------------- sessions
/// What a request's first packet asks for.
pub enum Cmd { Version(bool), Batch, Put(Seq<u8>), Verify(Seq<u8>), Get(Seq<u8>), Lock, List, Unlock(Seq<u8>), Quit, Unknown }
pub open spec fn chomp(d: Seq<u8>) -> Seq<u8> { if d.len() > 0 && d.last() == 10 { d.drop_last() } else { d } }
pub open spec fn cmd_words(v: Seq<Seq<u8>>) -> Cmd {
    if v.len() == 0 { Cmd::Unknown }
    else if v[0] == b"version" { Cmd::Version(v.len() > 1 && v[1] == b"1") }
    else if v.len() == 1 { if v[0] == b"batch" { Cmd::Batch } else if v[0] == b"lock" { Cmd::Lock } else if v[0] == b"list-lock" { Cmd::List } else if v[0] == b"quit" { Cmd::Quit } else { Cmd::Unknown } }
    else if v[0] == b"put-object" { Cmd::Put(v[1]) } else if v[0] == b"verify-object" { Cmd::Verify(v[1]) } else if v[0] == b"get-object" { Cmd::Get(v[1]) } else if v[0] == b"unlock" { Cmd::Unlock(v[1]) }
    else { Cmd::Unknown }
}
/// the command of the request at the start of this stream, and what follows its first packet
pub open spec fn cmd_of(s: Seq<u8>) -> Cmd { match dec(s) { Pk::Data(d) => if d.len() == 0 { Cmd::Unknown } else { cmd_words(split(chomp(d), 32)) }, _ => Cmd::Unknown } }
pub open spec fn body(s: Seq<u8>) -> Seq<u8> { s.skip(len_of(dec(s))) }
/// One request that was answered: stream, output and store before and after, and the response.
pub struct Turn { pub s: Seq<u8>, pub o: Seq<u8>, pub w: World, pub sv: SV, pub s1: Seq<u8>, pub o1: Seq<u8>, pub w1: World }
pub open spec fn end_s(h: Seq<Turn>, s: Seq<u8>) -> Seq<u8> { if h.len() == 0 { s } else { h.last().s1 } }
pub open spec fn end_o(h: Seq<Turn>, o: Seq<u8>) -> Seq<u8> { if h.len() == 0 { o } else { h.last().o1 } }
pub open spec fn end_w(h: Seq<Turn>, w: World) -> World { if h.len() == 0 { w } else { h.last().w1 } }
/// the request is complete, and exactly this response was sent for it
pub open spec fn turn(t: Turn) -> bool { after_flush(t.s) == Some(t.s1) && sent(t.o, t.o1, items_of(t.sv)) }
/// Requests answered one after the other.
pub open spec fn chain(h: Seq<Turn>, s: Seq<u8>, o: Seq<u8>, w: World) -> bool decreases h.len() {
    h.len() > 0 ==> chain(h.drop_last(), s, o, w) && turn(h.last()) && h.last().s == end_s(h.drop_last(), s) && h.last().o == end_o(h.drop_last(), o) && h.last().w == end_w(h.drop_last(), w)
}
pub enum Rule { Mode, Put, Get, Batch, Verify, Lock, Unlock, List, Other }
/// what a rule says about the response to a request, and about what happens to the store
pub open spec fn holds(p: Rule, m: Mode, k: u32, t: Turn) -> bool { acts(p, m, k, cmd_of(t.s), body(t.s), t.w, t.w1, norm(t.sv)) }
#[verifier::opaque]
pub open spec fn acts(p: Rule, m: Mode, k: u32, c: Cmd, q: Seq<u8>, a: World, b: World, sv: SV) -> bool {
    match p {
        Rule::Mode => {
            &&& m is Download ==> unchanged(a, b) && (match c { Cmd::Put(_) | Cmd::Verify(_) => sv =~~= fail(403), Cmd::Lock | Cmd::Unlock(_) => sv =~~= fail(400), _ => true })
            &&& m is Upload ==> (c is Get ==> sv =~~= fail(403)) && !(sv.body is Stream)
        },
        Rule::Put => (match c {
            Cmd::Put(id) if m is Upload => put_effect(id, q, a, b) && put_answer(k, id, q, a, b, sv),
            _ => grew(a, b) && objs(a, b),
        }),
        Rule::Get => (match c { Cmd::Get(id) if m is Download => unchanged(a, b) && get_answer(id, q, a, sv), _ => true }),
        Rule::Batch => (match c { Cmd::Batch => unchanged(a, b) && (if m is Upload { batch_answer(b"noop", b"upload", q, a, sv) } else { batch_answer(b"download", b"noop", q, a, sv) }), _ => true }),
        Rule::Verify => (match c { Cmd::Verify(id) if m is Upload => unchanged(a, b) && verify_answer(id, q, a, sv), _ => true }),
        Rule::Lock => (match c { Cmd::Lock if m is Upload => lock_effect(q, a, b) && lock_answer(q, a, b, sv), Cmd::Unlock(_) if m is Upload => true, _ => locks(a, b) }),
        Rule::Unlock => (match c { Cmd::Unlock(id) if m is Upload => unlock_effect(id, q, a, b) && unlock_answer(id, a, b, sv), Cmd::Lock if m is Upload => true, _ => locks(a, b) }),
        Rule::List => (match c { Cmd::List => unchanged(a, b) && list_answer(m is Upload, q, a, sv), _ => true }),
        Rule::Other => (match c { Cmd::Version(ok) => unchanged(a, b) && (if ok { sv =~~= msgs_sv(Seq::empty(), Seq::empty()) } else { sv =~~= fail(400) }), Cmd::Unknown => unchanged(a, b) && sv =~~= fail(400), Cmd::Quit => false, _ => true }),
    }
}
#[verifier::opaque]
pub open spec fn all(p: Rule, m: Mode, k: u32, h: Seq<Turn>) -> bool { forall|i: int| 0 <= i < h.len() ==> holds(p, m, k, #[trigger] h[i]) }
/// no object is lost, and every new or changed one has the right digest
#[verifier::opaque]
pub open spec fn grew(a: World, b: World) -> bool {
    wframe(a, b) && forall|id: Seq<u8>| is_id(id) ==> { let p = #[trigger] objpath(a.g@.root, id);
        (a.has(p) ==> b.has(p)) && (b.has(p) ==> a.has(p) && b.g@.files[p] == a.g@.files[p] || hexs(sha256(b.g@.files[p].data)) == id) }
}
/// all objects are as they were
#[verifier::opaque]
pub open spec fn objs(a: World, b: World) -> bool { forall|id: Seq<u8>| is_id(id) ==> { let p = #[trigger] objpath(a.g@.root, id); a.has(p) == b.has(p) && (a.has(p) ==> b.g@.files[p] == a.g@.files[p]) } }
/// all locks are as they were
#[verifier::opaque]
pub open spec fn locks(a: World, b: World) -> bool { forall|id: Seq<u8>| is_id(id) ==> { let p = #[trigger] lockpath(a.g@.root, id); a.has(p) == b.has(p) && (a.has(p) ==> b.g@.files[p] == a.g@.files[p]) } }
/// what a request may do to the store, even if it is cut short or cannot be answered
#[verifier::opaque]
pub open spec fn effect(m: Mode, s: Seq<u8>, a: World, b: World) -> bool {
    &&& grew(a, b)
    &&& match cmd_of(s) { Cmd::Put(id) if m is Upload => put_effect(id, body(s), a, b), Cmd::Lock if m is Upload => lock_effect(body(s), a, b), Cmd::Unlock(id) if m is Upload => unlock_effect(id, body(s), a, b), _ => unchanged(a, b) }
    &&& after_flush(s).is_none() ==> vis(a) =~= vis(b)
}
/// how a session ends
pub open spec fn ended(m: Mode, s: Seq<u8>, o: Seq<u8>, a: World, o1: Seq<u8>, b: World, ok: bool, lost: bool) -> bool {
    if ok && !broke(m, s, a, b) { unchanged(a, b) && (dec(s) is Trunc && o1 == o || cmd_of(s) is Quit && sent(o, o1, items_of(done(Seq::empty())))) }
    else { lost && effect(m, s, a, b) || broke(m, s, a, b) }
}
/// a request without an end, which can be neither completed nor skipped
#[verifier::opaque]
pub open spec fn broke(m: Mode, s: Seq<u8>, a: World, b: World) -> bool { after_flush(s).is_none() && exists|c: World| #[trigger] effect(m, s, a, c) && grew(c, b) }
pub proof fn lemma_chain(h: Seq<Turn>, t: Turn, m: Mode, k: u32, s: Seq<u8>, o: Seq<u8>, w: World)
    requires chain(h, s, o, w), turn(t), t.s == end_s(h, s), t.o == end_o(h, o), t.w == end_w(h, w)
    ensures chain(h.push(t), s, o, w), forall|p: Rule| all(p, m, k, h) && holds(p, m, k, t) ==> #[trigger] all(p, m, k, h.push(t)),
        end_s(h.push(t), s) == t.s1, end_o(h.push(t), o) == t.o1, end_w(h.push(t), w) == t.w1
{ reveal(all); assert(h.push(t).drop_last() =~= h); }
/// nothing done
pub proof fn lemma_no_effect(m: Mode, s: Seq<u8>, a: World)
    ensures effect(m, s, a, a), grew(a, a)
{ reveal(effect); reveal(put_effect); reveal(lock_effect); reveal(unlock_effect); broadcast use lemma_still; assert(unchanged(a, a)); }
pub broadcast proof fn lemma_broke(m: Mode, s: Seq<u8>, a: World, b: World, c: World)
    requires #[trigger] effect(m, s, a, b), #[trigger] grew(b, c), after_flush(s).is_none()
    ensures broke(m, s, a, c)
{ reveal(broke); }
pub broadcast proof fn lemma_broke_on(m: Mode, s: Seq<u8>, a: World, b: World, c: World)
    requires #[trigger] broke(m, s, a, b), #[trigger] grew(b, c)
    ensures broke(m, s, a, c)
{ reveal(broke); broadcast use lemma_grew; }
proof fn lemma_unknown(m: Mode, k: u32, q: Seq<u8>, a: World, b: World)
    requires unchanged(a, b)
    ensures forall|p: Rule| #[trigger] acts(p, m, k, Cmd::Unknown, q, a, b, fail(400))
{ reveal(acts); broadcast use lemma_still; }
pub proof fn lemma_no_turns(m: Mode, k: u32, s: Seq<u8>, o: Seq<u8>, w: World)
    ensures chain(Seq::empty(), s, o, w), forall|p: Rule| #[trigger] all(p, m, k, Seq::empty())
{ reveal(all); }
/// A session: requests answered one after the other, and its end.
pub open spec fn session(m: Mode, k: u32, s: Seq<u8>, o: Seq<u8>, w: World, o1: Seq<u8>, w1: World, ok: bool, lost: bool) -> bool {
    exists|h: Seq<Turn>| #[trigger] chain(h, s, o, w) && ended(m, end_s(h, s), end_o(h, o), end_w(h, w), o1, w1, ok, lost)
        && all(Rule::Mode, m, k, h) && all(Rule::Put, m, k, h) && all(Rule::Get, m, k, h) && all(Rule::Batch, m, k, h) && all(Rule::Verify, m, k, h)
        && all(Rule::Lock, m, k, h) && all(Rule::Unlock, m, k, h) && all(Rule::List, m, k, h) && all(Rule::Other, m, k, h)
}
pub broadcast proof fn lemma_grew(a: World, b: World, c: World)
    requires #[trigger] grew(a, b), #[trigger] grew(b, c)
    ensures grew(a, c)
{ reveal(grew);}
pub broadcast proof fn lemma_still(a: World, b: World)
    requires #[trigger] unchanged(a, b)
    ensures grew(a, b), objs(a, b), locks(a, b), vis(a) == vis(b)
{ reveal(grew); reveal(objs); reveal(locks);}
pub broadcast proof fn lemma_put_effect(oid: Seq<u8>, s: Seq<u8>, a: World, b: World)
    requires #[trigger] put_effect(oid, s, a, b)
    ensures wframe(a, b), grew(a, b), locks(a, b), after_flush(s).is_none() ==> vis(a) == vis(b)
{ reveal(grew); reveal(locks);
    reveal(put_effect);
    broadcast use crate::prelude::paths;
    if !unchanged(a, b) {
        let p = objpath(a.g@.root, oid);
        assert forall|id: Seq<u8>| is_id(id) implies { let q = #[trigger] objpath(a.g@.root, id); (a.has(q) ==> b.has(q)) && (b.has(q) ==> a.has(q) && b.g@.files[q] == a.g@.files[q] || hexs(sha256(b.g@.files[q].data)) == id) } by { if id != oid { assert(objpath(a.g@.root, id) != p); } }
        assert forall|id: Seq<u8>| is_id(id) implies { let q = #[trigger] lockpath(a.g@.root, id); a.has(q) == b.has(q) && (a.has(q) ==> b.g@.files[q] == a.g@.files[q]) } by { assert(lockpath(a.g@.root, id) != p); }
    } else { lemma_still(a, b); }
}
/// what leaves everything but the companions of locks alone leaves objects and locks alone
pub proof fn lemma_vis_still(a: World, b: World)
    requires wframe(a, b), vis(a) == vis(b)
    ensures grew(a, b), objs(a, b), locks(a, b)
{ reveal(grew); reveal(objs); reveal(locks);
    broadcast use crate::prelude::paths;
    let r = a.g@.root;
    assert forall|id: Seq<u8>| is_id(id) implies { let q = #[trigger] objpath(r, id); a.has(q) == b.has(q) && (a.has(q) ==> b.g@.files[q] == a.g@.files[q]) } by {
        let q = objpath(r, id); assert(!is_tmp(r, q)); assert(vis(a).contains_key(q) == a.has(q)); assert(vis(b).contains_key(q) == b.has(q)); assert(a.has(q) ==> vis(a)[q] == a.g@.files[q]); assert(b.has(q) ==> vis(b)[q] == b.g@.files[q]);
    }
    assert forall|id: Seq<u8>| is_id(id) implies { let q = #[trigger] lockpath(r, id); a.has(q) == b.has(q) && (a.has(q) ==> b.g@.files[q] == a.g@.files[q]) } by {
        let q = lockpath(r, id); assert(!is_tmp(r, q)); assert(vis(a).contains_key(q) == a.has(q)); assert(vis(b).contains_key(q) == b.has(q)); assert(a.has(q) ==> vis(a)[q] == a.g@.files[q]); assert(b.has(q) ==> vis(b)[q] == b.g@.files[q]);
    }
}
pub broadcast proof fn lemma_lock_effect(s: Seq<u8>, a: World, b: World)
    requires #[trigger] lock_effect(s, a, b)
    ensures wframe(a, b), grew(a, b), objs(a, b), after_flush(s).is_none() ==> vis(a) == vis(b)
{ reveal(grew); reveal(objs);
    reveal(lock_effect);
    broadcast use crate::prelude::paths;
    if vis(a) == vis(b) { lemma_vis_still(a, b); } else {
        let r = a.g@.root; let f = lockpath(r, lock_id(lock_target(s).unwrap()));
        assert forall|id: Seq<u8>| is_id(id) implies { let q = #[trigger] objpath(r, id); a.has(q) == b.has(q) && (a.has(q) ==> b.g@.files[q] == a.g@.files[q]) } by {
            let q = objpath(r, id); assert(q != f); assert(!is_tmp(r, q)); assert(vis(a).contains_key(q) == a.has(q)); assert(vis(b).contains_key(q) == b.has(q)); assert(a.has(q) ==> vis(a)[q] == a.g@.files[q]); assert(b.has(q) ==> vis(b)[q] == b.g@.files[q]);
        }
    }
}
pub broadcast proof fn lemma_unlock_effect(id: Seq<u8>, s: Seq<u8>, a: World, b: World)
    requires #[trigger] unlock_effect(id, s, a, b)
    ensures wframe(a, b), grew(a, b), objs(a, b), after_flush(s).is_none() ==> vis(a) == vis(b)
{ reveal(grew); reveal(objs);
    reveal(unlock_effect);
    broadcast use crate::prelude::paths;
    if unchanged(a, b) { lemma_still(a, b); } else {
        let r = a.g@.root; let f = lockpath(r, lock_id(lock_at(a, id).unwrap().path));
        assert forall|x: Seq<u8>| is_id(x) implies { let q = #[trigger] objpath(r, x); a.has(q) == b.has(q) && (a.has(q) ==> b.g@.files[q] == a.g@.files[q]) } by { assert(objpath(r, x) != f); }
    }
}
/// a response with this content was sent
pub open spec fn replied(o: Seq<u8>, o1: Seq<u8>, n: SV, sv: SV) -> bool { sent(o, o1, items_of(sv)) && norm(sv) =~~= n }
pub proof fn lemma_replied(o: Seq<u8>, o1: Seq<u8>, n: SV)
    requires exists|sv: SV| #[trigger] sent(o, o1, items_of(sv)) && norm(sv) =~~= n // [C05,C06]
    ensures exists|sv: SV| #[trigger] replied(o, o1, n, sv)
{ let sv = choose|sv: SV| #[trigger] sent(o, o1, items_of(sv)) && norm(sv) =~~= n; assert(replied(o, o1, n, sv)); }
pub broadcast proof fn lemma_split_len(s: Seq<u8>, b: u8) ensures (#[trigger] split(s, b)).len() > 0 {}
pub open spec fn words(a: Seq<&[u8]>, v: Seq<Seq<u8>>) -> bool { a.len() == v.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == v[i] }
#end
#fn Processor::process_commands
:attr #[verifier::spinoff_prover]
:start broadcast use lemma_took, lemma_split_len, lemma_grew, lemma_still, lemma_put_effect, lemma_lock_effect, lemma_unlock_effect, lemma_broke, lemma_broke_on; let ghost s0 = self.handler.rdr.rdr.rest(); let ghost o0 = self.handler.wrtr.out(); let ghost w0 = *w; let ghost mut h: Seq<Turn> = Seq::empty(); let ghost mut gone = false; let ghost k = self.backend.umask; proof { lemma_no_turns(mode, k, s0, o0, w0); lemma_no_effect(mode, s0, w0); }
:props C05
:req [C23] old(self).handler.inv() && old(self).backend.inv(*old(w)) && old(self).handler.rdr.pending().len() == 0 && old(self).handler.rdr.rdr.budget() <= u64::MAX
:req [C04] mode is Upload <==> old(w).g@.writable
:ens [C05] final(self).handler.inv() && final(self).backend == old(self).backend && wframe(*old(w), *final(w)) && final(self).handler.rdr.ident() == old(self).handler.rdr.ident() && io::wkept(&old(self).handler.wrtr, &final(self).handler.wrtr)
:ens [C04] mode is Download ==> unchanged(*old(w), *final(w))
:ens [C01,C02] grew(*old(w), *final(w))
:ens [C05] final(self).handler.rdr.failed() || session(mode, old(self).backend.umask, old(self).req(), old(self).handler.wrtr.out(), *old(w), final(self).handler.wrtr.out(), *final(w), r.is_ok(), fault() || final(self).handler.wrtr.wfailed())
:loop 1
:inv self.handler.rdr.ident() == old(self).handler.rdr.ident() && io::wkept(&old(self).handler.wrtr, &self.handler.wrtr)
:inv self.handler.inv() && self.backend == old(self).backend && self.backend.inv(*w) && self.handler.rdr.pending().len() == 0 && self.handler.rdr.rdr.budget() <= u64::MAX && wframe(w0, *w)
:inv [C04] mode is Download ==> unchanged(w0, *w)
:inv [C01,C02] grew(w0, *w)
:inv [C05] self.handler.rdr.failed() || chain(h, s0, o0, w0) && (if gone { broke(mode, end_s(h, s0), end_w(h, w0), *w) } else { end_s(h, s0) == self.handler.rdr.rdr.rest() && end_o(h, o0) == self.handler.wrtr.out() && end_w(h, w0) == *w })
:inv [C04] self.handler.rdr.failed() || all(Rule::Mode, mode, k, h)
:inv [C01,C02] self.handler.rdr.failed() || all(Rule::Put, mode, k, h)
:inv [C10] self.handler.rdr.failed() || all(Rule::Get, mode, k, h)
:inv [C11] self.handler.rdr.failed() || all(Rule::Batch, mode, k, h)
:inv [C13] self.handler.rdr.failed() || all(Rule::Verify, mode, k, h)
:inv [C14] self.handler.rdr.failed() || all(Rule::Lock, mode, k, h)
:inv [C15] self.handler.rdr.failed() || all(Rule::Unlock, mode, k, h)
:inv [C16] self.handler.rdr.failed() || all(Rule::List, mode, k, h)
:inv [C06] self.handler.rdr.failed() || all(Rule::Other, mode, k, h)
:dec self.handler.rdr.rdr.budget()
:lstart let ghost s1 = self.handler.rdr.rdr.rest(); let ghost o1 = self.handler.wrtr.out(); let ghost w1 = *w; let ghost d = data_of(dec(s1)); let ghost ws = split(chomp(d), 32); let ghost c = cmd_of(s1); let ghost q = body(s1); proof { lemma_no_effect(mode, s1, w1); if d.len() > 0 { assert(d.subrange(0, d.len() - 1) =~= d.drop_last()); } }
:after send_error#0 proof { if !self.handler.rdr.failed() && !gone { lemma_unknown(mode, k, q, w1, *w); lemma_replied(o1, self.handler.wrtr.out(), fail(400)); let sv = choose|sv: SV| #[trigger] replied(o1, self.handler.wrtr.out(), fail(400), sv); let t = Turn { s: s1, o: o1, w: w1, sv, s1: self.handler.rdr.rdr.rest(), o1: self.handler.wrtr.out(), w1: *w }; lemma_chain(h, t, mode, k, s0, o0, w0); h = h.push(t); } }
:after send_error#1 proof { if !self.handler.rdr.failed() && !gone { lemma_unknown(mode, k, q, w1, *w); lemma_replied(o1, self.handler.wrtr.out(), fail(400)); let sv = choose|sv: SV| #[trigger] replied(o1, self.handler.wrtr.out(), fail(400), sv); let t = Turn { s: s1, o: o1, w: w1, sv, s1: self.handler.rdr.rdr.rest(), o1: self.handler.wrtr.out(), w1: *w }; lemma_chain(h, t, mode, k, s0, o0, w0); h = h.push(t); } }
:before skip_to_flush#2 let ghost fin = !self.handler.rdr.failed() && after_flush(q).is_some(); proof { assert(effect(mode, s1, w1, *w)) by { reveal(effect); } assert(unchanged(*w, *w)); assert(/*[C04]*/ fin ==> acts(Rule::Mode, mode, k, c, q, w1, *w, rv(resp))) by { reveal(acts); } assert(/*[C01,C02]*/ fin ==> acts(Rule::Put, mode, k, c, q, w1, *w, rv(resp))) by { reveal(acts); } assert(/*[C10]*/ fin ==> acts(Rule::Get, mode, k, c, q, w1, *w, rv(resp))) by { reveal(acts); } assert(/*[C11]*/ fin ==> acts(Rule::Batch, mode, k, c, q, w1, *w, rv(resp))) by { reveal(acts); } assert(/*[C13]*/ fin ==> acts(Rule::Verify, mode, k, c, q, w1, *w, rv(resp))) by { reveal(acts); } assert(/*[C14]*/ fin ==> acts(Rule::Lock, mode, k, c, q, w1, *w, rv(resp))) by { reveal(acts); } assert(/*[C15]*/ fin ==> acts(Rule::Unlock, mode, k, c, q, w1, *w, rv(resp))) by { reveal(acts); } assert(/*[C16]*/ fin ==> acts(Rule::List, mode, k, c, q, w1, *w, rv(resp))) by { reveal(acts); } assert(/*[C06]*/ fin ==> acts(Rule::Other, mode, k, c, q, w1, *w, rv(resp))) by { reveal(acts); } }
:after skip_to_flush#2 let ghost rr = rv(resp);
:lend proof { if !self.handler.rdr.failed() && !gone && after_flush(s1).is_none() { gone = true; } else if !self.handler.rdr.failed() && !gone { lemma_replied(o1, self.handler.wrtr.out(), rr); let sv = choose|sv: SV| #[trigger] replied(o1, self.handler.wrtr.out(), rr, sv); let t = Turn { s: s1, o: o1, w: w1, sv, s1: self.handler.rdr.rdr.rest(), o1: self.handler.wrtr.out(), w1: *w }; lemma_chain(h, t, mode, k, s0, o0, w0); h = h.push(t); } }
:loop 2
:inv $it.inv() && $it.parts@ == ws && words($acc@, ws.take($it.i@))
:lens words($acc@, ws)
:dec $it.parts@.len() - $it.i@
