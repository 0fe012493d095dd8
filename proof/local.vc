#devirt Lock LocalBackendLock
#devirt LockBackend LocalLockBackend
#devirt Backend LocalBackend
#devirt Iterator LockSetIterator
#droppable LockFile LockFile::new
#file scutiger-lfs/src/backend.rs backend
#file scutiger-lfs/src/backend/local.rs local
#ftype Box<dynAny> => UploadState
#ftype Box<dynio::Read> => fs::File
#ftype Box<dynLock> => LocalBackendLock
#ftype Box<dynLockBackend+'b> => LocalLockBackend<'b>
#ftype Box<dynIterator<Item=Result<Box<dynLock>,Error>>+'b> => LockSetIterator<'b>
#fmethod downcast_mut xdowncast_mut
#fmethod clone xclone
#fmethod to_string_lossy xto_string_lossy
#text
use crate::errors::*;
use crate::processor::*;
broadcast use crate::ax::from, crate::prelude::paths, crate::prelude::hexs_sha, crate::prelude::ps_utf8;
use crate::prelude::io::{Read as _, Write as _};
use crate::prelude::digest::Digest as _;
// ---------------------------------------------------------------- locks
/// A lock as clients see it.
#[verifier::ext_equal]
pub struct LV { pub path: Seq<u8>, pub time: int, pub owner: Seq<u8> }
/// The time and path in a lock record.
pub open spec fn parse_rec(d: Seq<u8>) -> Option<(int, Seq<u8>)> {
    let v = splitn(d, 3, 58u8);
    if v.len() == 3 && v[0] == b"v1" { match <i64 as FromStr>::ps(v[1]) { Some(t) => if representable(t as int) { Some((t as int, v[2])) } else { None }, None => None } } else { None }
}
/// The lock stored under an id.
pub open spec fn lock_at(w: World, id: Seq<u8>) -> Option<LV> {
    let p = lockpath(w.g@.root, id);
    if w.has(p) { match parse_rec(w.g@.files[p].data) { Some(x) => Some(LV { path: x.1, time: x.0, owner: owner_name(w.g@.files[p].uid) }), None => None } } else { None }
}
/// Every readable lock record is stored under the id of its path (as the server stores them).
pub open spec fn wf_locks(w: World) -> bool { forall|id: Seq<u8>| is_id(id) && (#[trigger] lock_at(w, id)).is_some() ==> lock_id(lock_at(w, id).unwrap().path) == id }
/// l is the lock stored under this id (its owner may be unknown after a fault)
pub open spec fn is_lock_of(w: World, id: Seq<u8>, l: LocalBackendLock) -> bool {
    &&& is_id(id) && lock_at(w, id).is_some()
    &&& l.path_name@ == lock_at(w, id).unwrap().path && l.time as int == lock_at(w, id).unwrap().time
    &&& l.ownername@ == lock_at(w, id).unwrap().owner || fault()
}
/// the files of the store other than the transient companions of locks
pub open spec fn vis(w: World) -> Map<Seq<u8>, Node> { w.g@.files.remove_keys(w.g@.files.dom().filter(|k: Seq<u8>| is_tmp(w.g@.root, k))) }
/// the details of a lock as given for lock and unlock, and when listing
pub open spec fn lock_args(l: LV) -> Seq<Seq<u8>> {
    seq![b"id=" + lock_id(l.path) + b"\n", b"path=" + l.path + b"\n", b"locked-at=" + rfc3339(l.time) + b"\n", b"ownername=" + l.owner + b"\n"]
}
pub open spec fn lock_spec(l: LV, owner_id: bool) -> Seq<Seq<u8>> {
    let id = lock_id(l.path);
    seq![b"lock " + id + b"\n", b"path " + id + b" " + l.path + b"\n", b"locked-at " + id + b" " + rfc3339(l.time) + b"\n", b"ownername " + id + b" " + l.owner + b"\n"]
        + (if owner_id { seq![b"owner " + id + b" " + (if owner_name(my_uid()) == l.owner { b"ours" } else { b"theirs" }) + b"\n"] } else { Seq::empty() })
}
impl LocalBackendLock {
    pub open spec fn lv(&self) -> LV { LV { path: self.path_name@, time: self.time as int, owner: self.ownername@ } }
    pub open spec fn inv(&self, w: World) -> bool { self.root.p@ == lockdir(w.g@.root) && representable(self.time as int) }
}
impl<'a> LocalBackend<'a> {
    pub open spec fn inv(&self, w: World) -> bool { self.lfs_path.p@ == w.g@.root && (self.timestamp matches Some(t) ==> representable(t as int)) }
}
impl<'a> LocalLockBackend<'a> {
    pub open spec fn inv(&self, w: World) -> bool { self.backend.inv(w) && self.lock_path.p@ == lockdir(w.g@.root) }
}
impl UploadState {
    pub fn xdowncast_mut<T>(&mut self) -> (r: Option<&mut UploadState>) ensures r matches Some(x) && *x == *old(self) && *final(x) == *final(self) { Some(self) }
}
impl XInto<BoxErr> for PersistError {
    uninterp spec fn iv(self) -> BoxErr;
    open spec fn iok(self, r: BoxErr) -> bool { true }
    #[verifier::external_body] fn xinto(self) -> (r: BoxErr) { unimplemented!() }
}
pub broadcast proof fn lemma_lock_id(s: Seq<u8>, p: Seq<u8>) ensures #![trigger sha256(s), lock_id(p)] s =~= b"v1:" + p ==> hexs(sha256(s)) == lock_id(p) {}
pub proof fn lemma_base(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 0 || a.last() == 47, !b.contains(47u8)
    ensures base_at(a + b) == a.len()
    decreases b.len()
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(b.contains(b.last()));
        assert forall|i: int| 0 <= i < b.drop_last().len() implies b.drop_last()[i] != 47 by { assert(b.contains(b[i])); }
        lemma_base(a, b.drop_last());
    } else { assert(a + b =~= a); }
}
pub broadcast proof fn lemma_id_chars(id: Seq<u8>) requires #[trigger] is_id(id) ensures !id.contains(46u8), !id.contains(47u8), id.len() == 64, id[0] != 46, id[0] != 47 {}
/// the last component of a path that ends in an id
pub broadcast proof fn lemma_id_base(d: Seq<u8>, id: Seq<u8>) requires is_id(id) ensures #![trigger pjoin(d, id)] base_at(pjoin(d, id)) == pjoin(d, id).len() - 64, pjoin(d, id).len() >= 64, pjoin(d, id).skip(base_at(pjoin(d, id))) == id
{
    lemma_id_chars(id);
    let a = if d.len() == 0 || d.last() == 47 { d } else { d.push(47) };
    assert(pjoin(d, id) == a + id); lemma_base(a, id); assert((a + id).skip(a.len() as int) =~= id);
}
/// the directory of an object
pub broadcast proof fn lemma_obj_dir(root: Seq<u8>, o: Seq<u8>) requires is_id(o)
    ensures #![trigger objpath(root, o)] ({ let p = objpath(root, o); base_at(p) == p.len() - 64 && p.len() > 66 && p[base_at(p)] != 46 && p[base_at(p) - 2] != 47 && objpath(root, o) == pjoin(p.take(base_at(p) - 1), o) })
{
    lemma_id_chars(o); lemma_obj(root, o);
    let a = o.subrange(0, 2); let b = o.subrange(2, 4);
    assert(a[0] == o[0] && b[0] == o[2] && a.last() == o[1] && b.last() == o[3]);
    lemma_join(root, b"objects"); lemma_join(pjoin(root, b"objects"), a); lemma_join(pjoin(pjoin(root, b"objects"), a), b);
    let d = pjoin(pjoin(pjoin(root, b"objects"), a), b);
    lemma_id_base(d, o);
    assert(objpath(root, o).take(base_at(objpath(root, o)) - 1) =~= d);
    assert(objpath(root, o)[base_at(objpath(root, o))] == objpath(root, o).skip(base_at(objpath(root, o)))[0]);
}
pub open spec fn lf_ok(l: LockFile, w: World) -> bool { exists|id: Seq<u8>| is_id(id) && l.path.p@ == #[trigger] lockpath(w.g@.root, id) && l.temp.p@ == locktmp(w.g@.root, id) }
#end
#fn LocalBackend::new
:props C18
:ens r.lfs_path == lfs_path && r.umask == umask && r.timestamp == timestamp
#fn LocalBackend::fix_permissions
:props C18
:req is_obj(old(w).g@.root, path.p@) && old(w).g@.writable
:ens wframe(*old(w), *final(w))
:ens match r { Ok(_) => old(w).has(path.p@) && final(w).g@.files == old(w).g@.files.insert(path.p@, Node { mode: (0o777u32 & !self.umask) as int, ..old(w).g@.files[path.p@] }), Err(e) => unchanged(*old(w), *final(w)) && (fault() || !old(w).has(path.p@)) && e.kind == ErrorKind::IOError }
#fn Backend@LocalBackend::batch
:props C11
:req [C23] self.inv(*old(w)) && forall|i: int| 0 <= i < oids@.len() ==> is_id(#[trigger] oids@[i].0.oid@)
:ens unchanged(*old(w), *final(w)) && *final(self) == *old(self)
:ens match r { Ok(v) => v@.len() == oids@.len() && forall|i: int| 0 <= i < v@.len() ==> item_ok(*old(w), oids@[i].0.oid@, oids@[i].1 as int, #[trigger] v@[i]), Err(e) => false }
:loop 1
:inv $it.inv() && $it.s@ == oids@ && unchanged(*old(w), *w) && *self == *old(self)
:invx $err.is_none() && $acc@.len() == $it.i && forall|i: int| 0 <= i < $it.i ==> item_ok(*old(w), oids@[i].0.oid@, oids@[i].1 as int, #[trigger] $acc@[i])
:lens $err.is_none() && $acc@.len() == oids@.len() && forall|i: int| 0 <= i < oids@.len() ==> item_ok(*old(w), oids@[i].0.oid@, oids@[i].1 as int, #[trigger] $acc@[i])
:dec oids@.len() - $it.i
#text
/// what is said about an object asked for with this size
pub open spec fn item_ok(w: World, oid: Seq<u8>, size: int, b: BatchItem) -> bool {
    let p = objpath(w.g@.root, oid);
    b.oid.oid@ == oid && (b.present ==> w.has(p) && b.size as int == w.g@.files[p].data.len()) && (!b.present ==> (!w.has(p) || fault()) && b.size as int == size)
}
#end
#fn Backend@LocalBackend::start_upload
:props C01 C02
:req [C23] self.inv(*old(w)) && old(w).g@.writable && is_id(oid.oid@) && (*old(rdr)).rinv()
:ens unchanged(*old(w), *final(w)) && *final(self) == *old(self)
:ens io::kept(old(rdr), final(rdr)) && (*final(rdr)).ident() == (*old(rdr)).ident()
:ens match r { Ok(st) => (*old(rdr)).whole() && ((*old(rdr)).mid() ==> (*final(rdr)).resume() == (*old(rdr)).resume()) && st.oid.oid@ == oid.oid@ && st.tempfile.is_some() && st.tempfile.unwrap().file.wrote() == (*old(rdr)).rest() && ((*old(rdr)).tracks() ==> (*final(rdr)).seen() == (*old(rdr)).seen() + (*old(rdr)).rest()), Err(e) => e.kind == ErrorKind::IOError && (fault() || (*final(rdr)).failed() || (*old(rdr)).resume().is_none() || !(*old(rdr)).mid()) }
#fn Backend@LocalBackend::finish_upload
:start broadcast use lemma_obj_dir;
:props C01 C02 C18
:req [C23] self.inv(*old(w)) && old(w).g@.writable && state.tempfile.is_some()
:req [C01,C02] is_id(state.oid.oid@) && state.oid.oid@ == hexs(sha256(state.tempfile.unwrap().file.wrote()))
:ens wframe(*old(w), *final(w)) && *final(self) == *old(self)
:ens match r { Ok(_) => stored(*old(w), *final(w), state.oid.oid@, state.tempfile.unwrap().file.wrote(), Some((0o777u32 & !old(self).umask) as int)), Err(e) => e.kind == ErrorKind::IOError && fault() && (unchanged(*old(w), *final(w)) || stored(*old(w), *final(w), state.oid.oid@, state.tempfile.unwrap().file.wrote(), None)) }
#text
/// b is a with one object put in place
pub open spec fn stored(a: World, b: World, oid: Seq<u8>, data: Seq<u8>, mode: Option<int>) -> bool {
    let p = objpath(a.g@.root, oid);
    b.has(p) && b.g@.files[p].data == data && (mode matches Some(m) ==> b.g@.files[p].mode == m) && b.g@.files =~= a.g@.files.insert(p, b.g@.files[p])
}
#end
#fn Backend@LocalBackend::verify
:props C13
:req [C23] self.inv(*old(w)) && is_id(oid.oid@)
:ens unchanged(*old(w), *final(w)) && *final(self) == *old(self)
:ens match r { Ok(st) => st.inv() && args.m@.contains_key(b"size") && <u64 as FromStr>::ps(args.m@[b"size"]).is_some() && verify_sv(*old(w), oid.oid@, <u64 as FromStr>::ps(args.m@[b"size"]).unwrap() as int, st.sv()), Err(e) => e.kind == ErrorKind::MissingData && !args.m@.contains_key(b"size") || e.kind == ErrorKind::InvalidInteger && args.m@.contains_key(b"size") && <u64 as FromStr>::ps(args.m@[b"size"]).is_none() || e.kind == ErrorKind::IOError && fault() }
#text
/// the answer to verify-object
pub open spec fn verify_sv(w: World, oid: Seq<u8>, size: int, s: SV) -> bool {
    let p = objpath(w.g@.root, oid);
    norm(s) =~~= if !w.has(p) { fail(404) } else if w.g@.files[p].data.len() == size { done(Seq::empty()) } else { fail(409) }
}
#end
#fn Backend@LocalBackend::download
:props C10
:req [C23] self.inv(*old(w)) && is_id(oid.oid@)
:ens unchanged(*old(w), *final(w)) && *final(self) == *old(self)
:ens match r { Ok(x) => old(w).has(objpath(old(w).g@.root, oid.oid@)) && x.0.rest() == old(w).g@.files[objpath(old(w).g@.root, oid.oid@)].data && x.0.rinv() && !x.0.failed() && (x.1 matches Some(n) && n as int == x.0.rest().len()), Err(e) => e.kind == ErrorKind::IOError && (if e.iok_kind() == io::ErrorKind::NotFound { !old(w).has(objpath(old(w).g@.root, oid.oid@)) } else { fault() }) }
#fn Backend@LocalBackend::lock_backend
:props C14 C03
:ens r.backend == self && r.lock_path.p@ == lockdir(self.lfs_path.p@)
#fn LockFile::new
:props C03 C14
:start broadcast use lemma_id_base, lemma_id_chars; proof { lemma_tmpext(); }
:req lock_named(path.p@)
:ens r matches Ok(l) && l.path.p@ == path.p@ && l.temp.p@ =~= path.p@.push(46) + tmpext()
#text
/// a path whose last component is an id
pub open spec fn lock_named(p: Seq<u8>) -> bool { exists|d: Seq<u8>, id: Seq<u8>| is_id(id) && p == #[trigger] pjoin(d, id) }
#end
#fn LockFile::write
:props C14 C17
:req lf_ok(*self, *old(w)) && old(w).g@.writable
:ens wframe(*old(w), *final(w))
:ens match r { Ok(_) => !old(w).has(self.temp.p@) && final(w).has(self.temp.p@) && final(w).g@.files[self.temp.p@].data == data@ && final(w).g@.files =~= old(w).g@.files.insert(self.temp.p@, final(w).g@.files[self.temp.p@]), Err(e) => (if e.kind == ErrorKind::Conflict { old(w).has(self.temp.p@) && unchanged(*old(w), *final(w)) } else { e.kind == ErrorKind::IOError && fault() && (unchanged(*old(w), *final(w)) || final(w).has(self.temp.p@) && final(w).g@.files =~= old(w).g@.files.insert(self.temp.p@, final(w).g@.files[self.temp.p@])) }) }
#fn LockFile::persist
:props C14
:req lf_ok(self, *old(w)) && old(w).g@.writable && fs::link_ok(*old(w), self.temp.p@, self.path.p@)
:ens wframe(*old(w), *final(w))
:ens match r { Ok(_) => old(w).has(self.temp.p@) && !old(w).has(self.path.p@) && cleaned(old(w).g@.files.insert(self.path.p@, old(w).g@.files[self.temp.p@]), final(w).g@.files, self.temp.p@), Err(e) => cleaned(old(w).g@.files, final(w).g@.files, self.temp.p@) && (if e.kind == ErrorKind::Conflict { old(w).has(self.path.p@) } else { e.kind == ErrorKind::IOError && (fault() || !old(w).has(self.temp.p@)) }) }
#text
/// b is a without the temporary file, if it could be removed
pub open spec fn cleaned(a: Map<Seq<u8>, Node>, b: Map<Seq<u8>, Node>, t: Seq<u8>) -> bool { b =~= a.remove(t) || (b =~= a && fault()) }
#end
#fn Drop@LockFile::drop
:props C03 C14
:req lf_ok(*old(self), *old(w)) && old(w).g@.writable
:ens wframe(*old(w), *final(w)) && cleaned(old(w).g@.files, final(w).g@.files, old(self).temp.p@)
#fn LocalBackendLock::hash_for
:start broadcast use lemma_lock_id; assert(lock_id(path@) == lock_id(path@));
:props C14 C15 C17
:ens r@ == lock_id(path@)
#fn LocalBackendLock::parse
:props C17
:ens match r { Some(x) => parse_rec(data@) == Some((x.0 as int, x.1@)), None => parse_rec(data@).is_none() }
:loop 1
:inv $it.inv() && $it.parts@ == splitn(data@, 3, 58u8)
:invx $acc@.len() == $it.i@ && forall|j: int| 0 <= j < $it.i@ ==> (#[trigger] $acc@[j])@ == $it.parts@[j]
:lens $acc@.len() == splitn(data@, 3, 58u8).len() && forall|j: int| 0 <= j < $acc@.len() ==> (#[trigger] $acc@[j])@ == splitn(data@, 3, 58u8)[j]
:dec $it.parts@.len() - $it.i@
#fn LocalBackendLock::current_user
:props C16
:ens r matches Ok(u) && u@ == owner_name(my_uid())
#fn Lock@LocalBackendLock::unlock
:props C15
:req self.inv(*old(w)) && old(w).g@.writable
:ens wframe(*old(w), *final(w))
:ens match r { Ok(_) => old(w).has(lockpath(old(w).g@.root, lock_id(self.path_name@))) && final(w).g@.files == old(w).g@.files.remove(lockpath(old(w).g@.root, lock_id(self.path_name@))), Err(e) => unchanged(*old(w), *final(w)) && e.kind == ErrorKind::IOError && (fault() || e.iok_kind() == io::ErrorKind::NotFound && !old(w).has(lockpath(old(w).g@.root, lock_id(self.path_name@)))) }
#fn Lock@LocalBackendLock::id
:props C14 C17
:ens r@ == lock_id(self.path_name@)
#fn Lock@LocalBackendLock::path
:props C17
:ens r@ == self.path_name@
#fn Lock@LocalBackendLock::formatted_timestamp
:props C17
:req [C23] representable(self.time as int)
:ens r@ == rfc3339(self.time as int)
#fn Lock@LocalBackendLock::ownername
:props C17
:ens r@ == self.ownername@
#fn Lock@LocalBackendLock::as_lock_spec
:props C16 C17
:req [C23] representable(self.time as int)
:ens r matches Ok(v) && vv(v@) =~~= lock_spec(self.lv(), owner_id)
#fn default@Lock::as_arguments
:props C14 C15 C17
:req [C23] representable(self.time as int)
:ens vv(r@) =~~= lock_args(self.lv())
#fn LocalLockBackend::timestamp
:props C17
:start broadcast use representable_years;
:req self.backend.timestamp matches Some(t) ==> representable(t as int)
:ens representable(r as int) && (self.backend.timestamp matches Some(t) ==> r == t)
#fn LocalLockBackend::user_for_file
:props C14 C16
:req is_lock(old(w).g@.root, path.p@)
:ens unchanged(*old(w), *final(w))
:ens match r { Ok(u) => old(w).has(path.p@) && u@ == owner_name(old(w).g@.files[path.p@].uid), Err(e) => e.kind == ErrorKind::IOError && (!old(w).has(path.p@) || fault()) }
#fn LockBackend@LocalLockBackend::create
:props C14 C17
:req [C23] self.inv(*old(w))
:req old(w).g@.writable
:ens wframe(*old(w), *final(w))
:ens match r { Ok(l) => l.inv(*final(w)) && l.path_name@ == path@ && created(*old(w), *final(w), path@, l), Err(e) => vis(*final(w)) =~= vis(*old(w)) && (if e.kind == ErrorKind::Conflict { (old(w).has(lockpath(old(w).g@.root, lock_id(path@))) || old(w).has(locktmp(old(w).g@.root, lock_id(path@)))) && (!final(w).has(locktmp(old(w).g@.root, lock_id(path@))) || fault()) } else { e.kind == ErrorKind::IOError && fault() }) }
#text
/// b is a with a lock for this path, which had none
pub open spec fn created(a: World, b: World, path: Seq<u8>, l: LocalBackendLock) -> bool {
    let p = lockpath(a.g@.root, lock_id(path));
    &&& !a.has(p)
    &&& b.has(p) && b.g@.files[p].data =~= record(l.time as int, path) && (l.ownername@ == owner_name(b.g@.files[p].uid) || fault()) && vis(b) =~= vis(a).insert(p, b.g@.files[p])
}
#end
#fn default@LockBackend::unlock
:props C15
:req lock.inv(*old(w)) && old(w).g@.writable
:ens wframe(*old(w), *final(w))
:ens match r { Ok(_) => old(w).has(lockpath(old(w).g@.root, lock_id(lock.path_name@))) && final(w).g@.files == old(w).g@.files.remove(lockpath(old(w).g@.root, lock_id(lock.path_name@))), Err(e) => unchanged(*old(w), *final(w)) && e.kind == ErrorKind::IOError && (fault() || e.iok_kind() == io::ErrorKind::NotFound && !old(w).has(lockpath(old(w).g@.root, lock_id(lock.path_name@)))) }
#fn LockBackend@LocalLockBackend::from_path
:props C14 C16
:req [C23] self.inv(*old(w))
:ens unchanged(*old(w), *final(w))
:ens match r { Ok(Some(l)) => l.inv(*final(w)) && is_lock_of(*old(w), lock_id(path@), l) && l.path_name@ == path@, Ok(None) => !old(w).has(lockpath(old(w).g@.root, lock_id(path@))), Err(e) => fault() && e.kind == ErrorKind::IOError || e.kind == ErrorKind::CorruptData && old(w).has(lockpath(old(w).g@.root, lock_id(path@))) && (lock_at(*old(w), lock_id(path@)) matches Some(l) ==> l.path != path@) }
#fn LockBackend@LocalLockBackend::from_id
:props C03 C15 C16 C17
:req [C23] self.inv(*old(w))
:ens unchanged(*old(w), *final(w))
:ens match r { Ok(Some(l)) => l.inv(*final(w)) && is_lock_of(*old(w), id@, l), Ok(None) => !is_id(id@) || !old(w).has(lockpath(old(w).g@.root, id@)), Err(e) => fault() && e.kind == ErrorKind::IOError || e.kind == ErrorKind::CorruptData && is_id(id@) && old(w).has(lockpath(old(w).g@.root, id@)) && lock_at(*old(w), id@).is_none() }

#fn LockBackend@LocalLockBackend::iter
:props C16
:req [C23] self.inv(*old(w))
:ens unchanged(*old(w), *final(w)) && r.inv(*final(w)) && r.item == 0 && !r.done
#fn LockSetIterator::new
:start broadcast use lemma_sorted_names;
:props C16
:req [C23] backend.inv(*old(w)) && path.p@ == lockdir(old(w).g@.root)
:ens unchanged(*old(w), *final(w)) && r.inv(*final(w)) && r.item == 0 && !r.done
:loop 1
:inv $it.inv() && unchanged(*old(w), *w) && listing(*w, $it.names@)
:invx $err.is_none() && $acc@.len() == $it.i@ && forall|j: int| 0 <= j < $it.i@ ==> (#[trigger] $acc@[j]).name@ == $it.names@[j]
:lens match $err { Some(e) => fault(), None => names_of($acc@) =~= $it.names@ && listing(*w, $it.names@) }
:dec $it.names@.len() - $it.i@
:lafter assert($err.is_none() ==> names_of($acc@) =~= $it.names@);
:loop 2
:lbefore let ghost $src2 = $it2.s@;
:inv $it2.inv() && $it2.s@ == $src2
:invx $acc2@.len() == $it2.i && forall|j: int| 0 <= j < $it2.i ==> (#[trigger] $acc2@[j])@ == $it2.s@[j].name@
:lens $acc2@.len() == $src2.len() && forall|j: int| 0 <= j < $acc2@.len() ==> (#[trigger] $acc2@[j])@ == $src2[j].name@
:dec $it2.s@.len() - $it2.i
#text
/// an error met while listing
pub open spec fn io_failed(e: Option<Error>) -> bool { e matches Some(x) ==> fault() && x.kind == ErrorKind::IOError }
pub open spec fn names_of(v: Seq<fs::DirEntry>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].name@) }
pub broadcast proof fn lemma_sorted_names(w: World, a: Seq<fs::DirEntry>, b: Seq<fs::DirEntry>, k: Seq<Vec<u8>>)
    requires sorted_with(a, b, k), listing(w, names_of(a)), k.len() == a.len(), forall|j: int| 0 <= j < a.len() ==> (#[trigger] k[j])@ == a[j].name@
    ensures #![trigger sorted_with(a, b, k), listing(w, names_of(a))] ordered(names_of(b)), listing(w, names_of(b))
{
    let p = choose|p: Seq<int>| is_perm(p, k.len() as int) && #[trigger] sorted_by(p, k) && b == Seq::new(k.len(), |i: int| a[p[i]]);
    let n = names_of(a); let m = names_of(b);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] == n[p[i]] && m[i] == k[p[i]]@ by {}
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies lex_lt(#[trigger] m[i], #[trigger] m[j]) by { lex_total(m[i], m[j]); assert(p[i] != p[j]); if p[i] < p[j] { assert(n[p[i]] != n[p[j]]); } else { assert(n[p[j]] != n[p[i]]); } }
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies m[i] != m[j] by { lex_total(m[i], m[j]); assert(lex_lt(m[i], m[j])); }
    assert forall|id: Seq<u8>| is_id(id) implies (m.contains(id) <==> w.has(#[trigger] lockpath(w.g@.root, id))) by {
        if m.contains(id) { let i = choose|i: int| 0 <= i < m.len() && m[i] == id; assert(n[p[i]] == id); assert(n.contains(id)); }
        if n.contains(id) { let i = choose|i: int| 0 <= i < n.len() && n[i] == id; assert(p.contains(i)); let q = choose|q: int| 0 <= q < p.len() && p[q] == i; assert(m[q] == id); }
    }
}
pub open spec fn ordered(s: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lex_lt(#[trigger] s[i], #[trigger] s[j]) }
impl<'a> LockSetIterator<'a> {
    pub open spec fn names(&self) -> Seq<Seq<u8>> { names_of(self.data@) }
    pub open spec fn inv(&self, w: World) -> bool {
        &&& self.backend.inv(w) && self.item <= self.data@.len() && ordered(self.names())
        &&& self.err matches Some(e) ==> fault() && e.kind == ErrorKind::IOError
        &&& listing(w, self.names()) || fault()
    }
}
/// no lock is stored under the names from a to b
pub open spec fn no_lock(w: World, n: Seq<Seq<u8>>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> !(is_id(#[trigger] n[j]) && lock_at(w, n[j]).is_some()) }
pub open spec fn next_lock(w: World, n: Seq<Seq<u8>>, a: int, b: int, l: LocalBackendLock) -> bool { a < b <= n.len() && is_lock_of(w, n[b - 1], l) && (no_lock(w, n, a, b - 1) || fault()) }
#end
#fn Iterator@LockSetIterator::next
:start broadcast use lossy_id;
:props C16
:req [C23] old(self).inv(*old(w))
:ens unchanged(*old(w), *final(w)) && final(self).inv(*final(w)) && final(self).data == old(self).data && final(self).item >= old(self).item && (final(self).done ==> old(self).done || fault())
:ens match r { Some(Ok(l)) => l.inv(*final(w)) && next_lock(*old(w), old(self).names(), old(self).item as int, final(self).item as int, l), Some(Err(e)) => fault() && e.kind == ErrorKind::IOError, None => old(self).done || fault() || no_lock(*old(w), old(self).names(), old(self).item as int, old(self).names().len() as int) && final(self).item == old(self).names().len() }
:loop 1
:inv unchanged(*old(w), *w) && self.inv(*w) && self.data == old(self).data && self.item >= old(self).item && (no_lock(*old(w), old(self).names(), old(self).item as int, self.item as int) || fault())
:dec self.data@.len() - self.item
