From 6d6f658cbb8062be735a3ec93775569caf71068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 01/18] fix: accept only hexadecimal digits in pkt-line headers

---
 scutiger-core/src/pktline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 21ef9b9..554016e 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -109,8 +109,8 @@ impl<R: io::Read> Reader<R> {
             .enumerate()
             .map(|(i, x)| {
                 let v = match *x {
-                    b'0'...b':' => x - b'0',
-                    b'a'...b'g' => x - b'a' + 10,
+                    b'0'...b'9' => x - b'0',
+                    b'a'...b'f' => x - b'a' + 10,
                     _ => return Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
                 };
                 Ok((v as u16) << ((3 - i) * 4))
-- 
2.43.0


From 9a1501e3fc0b59314a39d8ddca35fa4a8fe19cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 02/18] fix: reject oversized packets in read_packet as well

---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 554016e..49300da 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -95,6 +95,9 @@ impl<R: io::Read> Reader<R> {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
             1 => Ok(Packet::new(PacketType::Delim, b"")),
             2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
+            n if n > Self::MAX_PACKET_LEN + 4 => {
+                Err(Error::new_simple(ErrorKind::BadPktlineHeader))
+            }
             _ => {
                 let mut v = vec![0u8; size - 4];
                 self.rdr.read_exact(&mut v)?;
-- 
2.43.0


From e65617cff9d4530a639f81ade0b4145837ac80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 03/18] fix: don't lose buffered packet data on an empty read

---
 scutiger-core/src/pktline.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 49300da..ffaea46 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -129,6 +129,10 @@ impl<R: io::Read> Reader<R> {
 
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            // Reading another packet here would discard any data we've already buffered.
+            return Ok(0);
+        }
         let n = cmp::min(self.len - self.off, buf.len());
         if n > 0 {
             buf[0..n].copy_from_slice(&self.buf[self.off..self.off + n]);
-- 
2.43.0


From 22c1be7cda6bfe9b6094cbd8b116745364519eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 04/18] fix: refuse to write packets too large for a pkt-line
 header

---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index ffaea46..123861c 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -181,6 +181,9 @@ impl<W: io::Write> Writer<W> {
     }
 
     fn write_one(writer: &mut W, buf: &[u8]) -> Result<usize, Error> {
+        if buf.len() > Self::MAX_PACKET_LEN {
+            return Err(Error::new_simple(ErrorKind::InvalidPacket));
+        }
         let header = format!("{:04x}", buf.len() + 4);
         writer.write_all(header.as_bytes())?;
         writer.write_all(buf)?;
-- 
2.43.0


From b236f28f97bd5f183712d40a051986e242cc9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 05/18] fix: honor the limit when listing locks

---
 scutiger-lfs/src/processor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 220acaf..aa94e64 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -614,8 +614,12 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .take(limit + 1)
             .collect();
         let items = r?;
-        let lock_specs: Result<Vec<_>, _> =
-            items.iter().map(|l| l.as_lock_spec(use_owner_id)).collect();
+        // The additional item, if any, is only used to provide the cursor for the next page.
+        let lock_specs: Result<Vec<_>, _> = items
+            .iter()
+            .take(limit)
+            .map(|l| l.as_lock_spec(use_owner_id))
+            .collect();
         let lock_specs = lock_specs?.iter().flatten().cloned().collect();
         let next_cursor: Vec<Bytes> = if items.len() == limit + 1 {
             vec![format!("next-cursor={}\n", items[limit].id()).into()]
-- 
2.43.0


From 0889412d22c5b7b1bc12d6dc66a67f377acda42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 06/18] fix: retry instead of panicking when a conflicting lock
 vanishes

---
 scutiger-lfs/src/processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index aa94e64..4b17d23 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -539,15 +539,16 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         };
         let lock_backend = self.backend.lock_backend();
         let mut retried = false;
-        while !retried {
+        loop {
             let (ok, lock) = match lock_backend.create(path) {
                 Ok(l) => (true, l),
                 Err(e) if e.kind() == ErrorKind::Conflict => match lock_backend.from_path(path) {
                     Ok(Some(l)) => (false, l),
-                    Ok(None) => {
+                    Ok(None) if !retried => {
                         retried = true;
                         continue;
                     }
+                    Ok(None) => return Err(e),
                     Err(e) => return Err(e),
                 },
                 Err(e) => return Err(e),
@@ -562,7 +563,6 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             };
         }
-        unreachable!()
     }
 
     fn list_locks_for_path(
-- 
2.43.0


From e0941f847f2adcc12e22a3ee5f632eaf10e1a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 07/18] fix: don't treat arbitrary paths as lock IDs

---
 scutiger-lfs/src/backend/local.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9ec1dbb..634a59f 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -363,6 +363,11 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
     }
 
     fn from_id(&self, id: &str) -> Result<Option<Box<dyn Lock>>, Error> {
+        // Lock IDs are hex-encoded SHA-256 values.  Don't let anything else, such as a path outside
+        // of the lock directory or the name of a temporary file, refer to a lock.
+        if !Oid::valid(id.as_bytes()) {
+            return Ok(None);
+        }
         let mut filename = self.lock_path.clone();
         filename.push(id);
         let mut f = match fs::OpenOptions::new().read(true).open(&filename) {
-- 
2.43.0


From 5bbda08c1aa036bc7a4ff1767331b40cabcbc22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 08/18] fix: report the timestamp which was stored when
 creating a lock

---
 scutiger-lfs/src/backend/local.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 634a59f..47e14da 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -329,7 +329,8 @@ impl<'a> LocalLockBackend<'a> {
 impl<'a> LockBackend for LocalLockBackend<'a> {
     fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error> {
         let id = LocalBackendLock::hash_for(path);
-        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, self.timestamp()).into();
+        let time = self.timestamp();
+        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, time).into();
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
@@ -340,7 +341,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
-            time: self.timestamp(),
+            time,
             ownername: user,
         }))
     }
-- 
2.43.0


From 1001f3618f403afa869e74b8ee2430d53a0f9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 09/18] fix: treat locks with unrepresentable timestamps as
 invalid

---
 scutiger-lfs/src/backend/local.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 47e14da..7388e72 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -225,6 +225,8 @@ impl LocalBackendLock {
         }
         let s: String = String::from_utf8(v[1].clone()).ok()?;
         let time = s.parse().ok()?;
+        // Make sure the timestamp is one that we'll be able to represent as a date.
+        Utc.timestamp_opt(time, 0).single()?;
         Some((time, v[2].clone().into()))
     }
 
-- 
2.43.0


From 2f403adbca09511403db0743ebe04f32ac4d37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 10/18] fix: honor numeric values of core.sharedRepository

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 4465818..07ce4c9 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -98,13 +98,16 @@ impl<'p> Program<'p> {
         let config = self.repo.config()?;
         let sval = config.get_string("core.sharedrepository");
         let tval = sval.as_ref().map(|s| s.as_str());
+        let number = tval.ok().and_then(|x| u16::from_str_radix(x, 8).ok());
         let perms = match (config.get_bool("core.sharedrepository"), tval) {
+            // These must come before booleans, since any integer is also a valid boolean.
+            (_, Ok(_)) if number == Some(0) => None,
+            (_, Ok(_)) if number == Some(1) => Some(0o660),
+            (_, Ok(_)) if number == Some(2) => Some(0o664),
+            (_, Ok(_)) if number.is_some() => number,
             (Ok(true), _) | (_, Ok("group")) => Some(0o660),
             (Ok(false), _) | (_, Ok("umask")) => None,
             (_, Ok("all")) | (_, Ok("world")) | (_, Ok("everybody")) => Some(0o664),
-            (_, Ok(x)) if u16::from_str_radix(x, 8).is_ok() => {
-                Some(u16::from_str_radix(x, 8).unwrap())
-            }
             (_, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
             (_, Err(e)) => return Err(git2::Error::new(e.code(), e.class(), e.message()).into()),
             _ => None,
-- 
2.43.0


From 33db7c7813d0b6856b0ac868d716f11260e15392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 11/18] fix: match only the summary with --summary for all
 patterns

---
 scutiger-bin/src/bin/git-at.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 4d3258b..ecfbad9 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -76,7 +76,12 @@ impl<'a> Program<'a> {
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
             }
-            if regex.is_match(message)? {
+            let text = if self.summary {
+                message.split(|&b| b == b'\n').next().unwrap_or(message)
+            } else {
+                message
+            };
+            if regex.is_match(text)? {
                 return Ok(commit.id());
             }
         }
@@ -118,9 +123,6 @@ impl<'a> Program<'a> {
     }
 
     fn pattern(&self, pattern: &str) -> Result<Regex, Error> {
-        if self.summary {
-            return Ok(Regex::new(&format!("\\A[^\n]*{}", pattern))?);
-        }
         Ok(Regex::new(pattern)?)
     }
 }
-- 
2.43.0


From 89cfa9085da621bee8894b5d21c01ffa0715fe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 12/18] fix: don't process truncated requests or read past a
 request's end

---
 scutiger-lfs/src/processor.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 4b17d23..df12c85 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -108,14 +108,20 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
     }
 
     pub fn read_to_type(&mut self, typ: pktline::PacketType) -> Result<Vec<Bytes>, Error> {
-        self.rdr
-            .iter()
-            .take_while(|pkt| match pkt {
-                Ok(pkt) if pkt.packet_type() == typ => false,
-                _ => true,
-            })
-            .map(|pkt| pkt.map(|p| p.data().unwrap_or(b"").into()))
-            .collect()
+        let mut data = Vec::new();
+        loop {
+            // Reaching the end of the data here means that the request is truncated, which is an
+            // error.
+            let pkt = self.rdr.read_packet()?;
+            match pkt.packet_type() {
+                t if t == typ => return Ok(data),
+                // A flush packet always ends the request.
+                pktline::PacketType::Flush => {
+                    return Err(Error::new_simple(ErrorKind::UnexpectedPacket))
+                }
+                _ => data.push(pkt.data().unwrap_or(b"").into()),
+            }
+        }
     }
 
     pub fn read_to_delim(&mut self) -> Result<Vec<Bytes>, Error> {
-- 
2.43.0


From 43581353aa966ffe82cc6839373c15edeef1227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 13/18] fix: never interpret the rest of a failed request as
 commands

---
 scutiger-core/src/pktline.rs  | 22 +++++++++++++++++++++-
 scutiger-lfs/src/processor.rs |  6 ++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 123861c..f22d1ef 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -55,6 +55,7 @@ pub struct Reader<R: io::Read> {
     buf: [u8; 65536],
     off: usize,
     len: usize,
+    at_flush: bool,
 }
 
 impl<R: io::Read> Reader<R> {
@@ -66,6 +67,7 @@ impl<R: io::Read> Reader<R> {
             buf: [0u8; 65536],
             off: 0,
             len: 0,
+            at_flush: true,
         }
     }
 
@@ -89,8 +91,10 @@ impl<R: io::Read> Reader<R> {
 
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
         let mut hdr = [0u8; 4];
+        self.at_flush = false;
         self.rdr.read_exact(&mut hdr)?;
         let size = Self::parse_header(hdr)? as usize;
+        self.at_flush = size == 0;
         match size {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
             1 => Ok(Packet::new(PacketType::Delim, b"")),
@@ -106,6 +110,18 @@ impl<R: io::Read> Reader<R> {
         }
     }
 
+    /// Discard any remaining data up to and including the next flush packet.
+    ///
+    /// Does nothing if the last packet read was a flush packet.
+    pub fn skip_to_flush(&mut self) -> Result<(), Error> {
+        self.off = 0;
+        self.len = 0;
+        while !self.at_flush {
+            self.read_packet()?;
+        }
+        Ok(())
+    }
+
     fn parse_header(buf: [u8; 4]) -> Result<u16, Error> {
         let x: Result<Vec<u16>, Error> = buf
             .iter()
@@ -145,6 +161,7 @@ impl<R: io::Read> io::Read for Reader<R> {
             return Ok(n);
         }
         loop {
+            self.at_flush = false;
             let (r, copy) = if buf.len() >= Self::MAX_PACKET_LEN {
                 (Self::read_one(&mut self.rdr, buf), false)
             } else {
@@ -152,7 +169,10 @@ impl<R: io::Read> io::Read for Reader<R> {
             };
             let n = match (r, copy) {
                 (Ok(PacketType::Delim), _) => return Ok(0),
-                (Ok(PacketType::Flush), _) => return Ok(0),
+                (Ok(PacketType::Flush), _) => {
+                    self.at_flush = true;
+                    return Ok(0);
+                }
                 (Ok(PacketType::Data(0)), false) => n,
                 (Ok(PacketType::Data(n)), false) => return Ok(n),
                 (Ok(PacketType::Data(n)), true) => n,
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index df12c85..9f23ff1 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -675,6 +675,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             };
             let msgs: Vec<_> = match pkt.data() {
                 Some(b"") => {
+                    self.handler.rdr.skip_to_flush()?;
                     self.handler.send_error(400, "no command provided")?;
                     continue;
                 }
@@ -687,6 +688,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     bs.split(|&b| b == b' ').collect()
                 }
                 None => {
+                    self.handler.rdr.skip_to_flush()?;
                     self.handler.send_error(400, "unknown command")?;
                     continue;
                 }
@@ -712,6 +714,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 }
                 (_, _, _) => self.error(400, "unknown command"),
             };
+            // If the command did not read its entire request, skip the rest so that we don't interpret
+            // it as another command.
+            let skipped = self.handler.rdr.skip_to_flush();
             match resp {
                 Ok(st) => self.handler.send_status(st),
                 Err(e) => match e.kind() {
@@ -734,6 +739,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     )),
                 },
             }?;
+            skipped?;
         }
     }
 }
-- 
2.43.0


From a0e52a8540fcc6e687730274640e3db7a7bc4c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 14/18] fix: compare list-lock cursors in the right direction

The comparison of a byte slice with Bytes in this version of the bytes crate is reversed, so the
second page of a listing started again from the first lock.
---
 scutiger-lfs/src/processor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 9f23ff1..00e4498 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -580,7 +580,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         match (self.backend.lock_backend().from_path(path), cursor) {
             (Err(e), _) => Err(e),
             (Ok(None), _) => self.error(404, "not found"),
-            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id => self.error(404, "not found"),
+            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id.as_ref() => {
+                self.error(404, "not found")
+            }
             (Ok(Some(l)), _) => l.as_lock_spec(use_owner_id).map(Status::new_success),
         }
     }
@@ -614,7 +616,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .iter()
             .skip_while(|item| match (item, cursor) {
                 (Err(_), _) => false,
-                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor,
+                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor.as_ref(),
                 (Ok(_), None) => false,
             })
             .take(limit + 1)
-- 
2.43.0


From 6adf9006a221fcfecc4b59fef79a3d9bc21951c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 15/18] fix: don't store an object whose request ends before
 its flush packet

When a delimiter packet instead of a flush packet followed the data, the
object was stored without looking at whether the rest of the request had
arrived.
---
 scutiger-lfs/src/processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 00e4498..9ea21f2 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -499,6 +499,8 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 format!("expected oid {}, got {}", oid, actual_oid),
             ));
         }
+        // If a delimiter packet ended the data, make sure the request is complete before storing it.
+        self.handler.rdr.skip_to_flush()?;
         self.backend.finish_upload(state)?;
         Ok(Status::success())
     }
-- 
2.43.0


From ab4674e8697973861d669e687e3967bbf4015d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 16/18] fix: use a temporary lock file that no other process
 writes or removes

All servers used the same name for the temporary file of a lock, and one whose
creation failed with a conflict removed the file of the one which was still
creating it.  The latter then failed to link it, or linked a file written by
somebody else, reporting other details than the lock has.  Include the process
ID in the name.
---
 scutiger-lfs/src/backend/local.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 7388e72..04834ec 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -10,6 +10,7 @@ use std::fs;
 use std::io;
 use std::io::{Read, Write};
 use std::path::{Path, PathBuf};
+use std::process;
 use std::time::SystemTime;
 use tempfile::{Builder, NamedTempFile};
 
@@ -155,7 +156,8 @@ struct LockFile {
 impl LockFile {
     fn new(path: &Path) -> Result<LockFile, Error> {
         let mut temp = path.to_owned();
-        temp.set_extension("lock");
+        // Use a name of our own, so that no other process writes or removes our file.
+        temp.set_extension(format!("{}.lock", process::id()));
         Ok(LockFile {
             path: path.to_owned(),
             temp,
-- 
2.43.0


From 46091cc28f6354649b62dc3d3f6c2a8471b069cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 17/18] fix: an empty pager setting means no pager

With GIT_PAGER, core.pager or PAGER set to the empty string, "sh -c ''" was
started as the pager, and the listing was lost. Like Git, use no pager then.
---
 scutiger-bin/src/bin/pager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 7f8cfb3..3705981 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -36,7 +36,7 @@ impl Pager {
             .or(core_pager)
             .or_else(|| env::var_os("PAGER"))
             .unwrap_or_else(|| "less".into());
-        if pager == "cat" {
+        if pager.is_empty() || pager == "cat" {
             None
         } else {
             Some(pager)
-- 
2.43.0


From 0403c5636f509ffaa87548af697b90c8e46cdbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 18/18] fix: wait for the pager before exiting

git recent-refs exited as soon as it had written its output, while the pager
was still starting up: the shell took the terminal back, and whoever waited
for the command saw it end before anything was shown.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 5 ++++-
 scutiger-bin/src/bin/pager/mod.rs       | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 6db2085..4262a14 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -187,7 +187,10 @@ fn main() {
     let repo = repo();
     let prog = program(&repo, &matches);
     let mut pager = pager::Pager::new(&repo).expect("unable to spawn pager");
-    process::exit(prog.main(&mut pager.stdout(), &mut io::stderr()));
+    let status = prog.main(&mut pager.stdout(), &mut io::stderr());
+    // The terminal is the pager's until it has ended.
+    pager.wait();
+    process::exit(status);
 }
 
 #[cfg(test)]
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 3705981..ffa95b7 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -52,4 +52,12 @@ impl Pager {
             })
             .unwrap_or_else(|| Box::new(io::stdout()))
     }
+
+    /// Closes the pager's input and waits until the pager has ended.
+    pub fn wait(&mut self) {
+        if let Some(ref mut p) = self.process {
+            // If this fails, then there is no child process to wait for.
+            let _ = p.wait();
+        }
+    }
 }
-- 
2.43.0

