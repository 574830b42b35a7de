From 972d735983272f3b3af2fdd942a1ca677ad45fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 01/42] fix: reject ':' and 'g' as digits in pkt-line headers

The length header of a pkt-line consists of four hexadecimal digits, but
':' and 'g' were accepted as well, and a header such as "fgff" overflowed
the length.
---
 scutiger-core/src/pktline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 21ef9b9..554016e 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -109,8 +109,8 @@ impl<R: io::Read> Reader<R> {
             .enumerate()
             .map(|(i, x)| {
                 let v = match *x {
-                    b'0'...b':' => x - b'0',
-                    b'a'...b'g' => x - b'a' + 10,
+                    b'0'...b'9' => x - b'0',
+                    b'a'...b'f' => x - b'a' + 10,
                     _ => return Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
                 };
                 Ok((v as u16) << ((3 - i) * 4))
-- 
2.43.0


From 2726a0b59710bfe5d0bd0d36d062dfa07ab5c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 02/42] fix: reject overlong pkt-line packets in read_packet

A pkt-line packet is at most 65520 bytes long.  Reading from the stream
already rejects anything longer; do the same when reading by packet.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 554016e..49300da 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -95,6 +95,9 @@ impl<R: io::Read> Reader<R> {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
             1 => Ok(Packet::new(PacketType::Delim, b"")),
             2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
+            n if n > Self::MAX_PACKET_LEN + 4 => {
+                Err(Error::new_simple(ErrorKind::BadPktlineHeader))
+            }
             _ => {
                 let mut v = vec![0u8; size - 4];
                 self.rdr.read_exact(&mut v)?;
-- 
2.43.0


From 1e90768518893083643d7e6169d79e5dc0ce1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 03/42] fix: refuse to write pkt-line packets which are too
 long

Writing a packet with more than 65516 bytes of data produced an invalid
header and desynchronized the stream.  Return an error instead.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 49300da..48ab775 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -177,6 +177,9 @@ impl<W: io::Write> Writer<W> {
     }
 
     fn write_one(writer: &mut W, buf: &[u8]) -> Result<usize, Error> {
+        if buf.len() > Self::MAX_PACKET_LEN {
+            return Err(Error::new_simple(ErrorKind::InvalidPacket));
+        }
         let header = format!("{:04x}", buf.len() + 4);
         writer.write_all(header.as_bytes())?;
         writer.write_all(buf)?;
-- 
2.43.0


From 574e519fc676c4f885286e4f5f2bbe8abfd4c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 04/42] fix: do not lose data on an empty read from a pkt-line
 stream

Reading into an empty buffer discarded whatever was left in the internal
buffer and read another packet over it.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 48ab775..0a98e54 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -129,6 +129,9 @@ impl<R: io::Read> Reader<R> {
 
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let n = cmp::min(self.len - self.off, buf.len());
         if n > 0 {
             buf[0..n].copy_from_slice(&self.buf[self.off..self.off + n]);
-- 
2.43.0


From ade1a3db29db27450f90748611a77f4a6dc317e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 05/42] fix: stay in step with the client after refusing a
 request

When a request was refused before all of it had been read, for example
because of an unknown version, a command for the other operation, or an
invalid object ID or size, the remainder of that request was interpreted
as further commands.  Skip what remains of a request before answering it.
---
 scutiger-core/src/pktline.rs  | 28 ++++++++++++++++++++++++++++
 scutiger-lfs/src/processor.rs | 11 +++++++++++
 2 files changed, 39 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 0a98e54..dc8ff21 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -55,6 +55,7 @@ pub struct Reader<R: io::Read> {
     buf: [u8; 65536],
     off: usize,
     len: usize,
+    last: Option<PacketType>,
 }
 
 impl<R: io::Read> Reader<R> {
@@ -66,6 +67,7 @@ impl<R: io::Read> Reader<R> {
             buf: [0u8; 65536],
             off: 0,
             len: 0,
+            last: None,
         }
     }
 
@@ -87,7 +89,30 @@ impl<R: io::Read> Reader<R> {
         }
     }
 
+    /// The type of the packet read most recently, if any.
+    pub fn last_packet_type(&self) -> Option<PacketType> {
+        self.last
+    }
+
+    /// Discard all data up to and including the next flush packet.
+    ///
+    /// If the packet read most recently is a flush packet, does nothing.
+    pub fn skip_to_flush(&mut self) -> Result<(), Error> {
+        self.off = 0;
+        self.len = 0;
+        while self.last != Some(PacketType::Flush) {
+            self.read_packet()?;
+        }
+        Ok(())
+    }
+
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
+        let pkt = self.read_one_packet()?;
+        self.last = Some(pkt.packet_type());
+        Ok(pkt)
+    }
+
+    fn read_one_packet(&mut self) -> Result<Packet, Error> {
         let mut hdr = [0u8; 4];
         self.rdr.read_exact(&mut hdr)?;
         let size = Self::parse_header(hdr)? as usize;
@@ -149,6 +174,9 @@ impl<R: io::Read> io::Read for Reader<R> {
             } else {
                 (Self::read_one(&mut self.rdr, &mut self.buf), true)
             };
+            if let Ok(typ) = r {
+                self.last = Some(typ);
+            }
             let n = match (r, copy) {
                 (Ok(PacketType::Delim), _) => return Ok(0),
                 (Ok(PacketType::Flush), _) => return Ok(0),
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 220acaf..90f77b9 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -126,6 +126,14 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
         self.read_to_type(pktline::PacketType::Flush)
     }
 
+    /// Discard whatever has not yet been read of the current request.
+    pub fn finish_request(&mut self) -> Result<(), Error> {
+        match self.rdr.skip_to_flush() {
+            Err(e) if e.io_kind() != io::ErrorKind::UnexpectedEof => Err(e),
+            _ => Ok(()),
+        }
+    }
+
     pub fn send(&mut self, msg: &[u8]) -> Result<(), Error> {
         self.wrtr.write_all(msg)?;
         Ok(())
@@ -665,6 +673,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             };
             let msgs: Vec<_> = match pkt.data() {
                 Some(b"") => {
+                    self.handler.finish_request()?;
                     self.handler.send_error(400, "no command provided")?;
                     continue;
                 }
@@ -677,6 +686,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     bs.split(|&b| b == b' ').collect()
                 }
                 None => {
+                    self.handler.finish_request()?;
                     self.handler.send_error(400, "unknown command")?;
                     continue;
                 }
@@ -702,6 +712,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 }
                 (_, _, _) => self.error(400, "unknown command"),
             };
+            self.handler.finish_request()?;
             match resp {
                 Ok(st) => self.handler.send_status(st),
                 Err(e) => match e.kind() {
-- 
2.43.0


From 16d296047db3d011a81ce105defc281b7ea25bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 06/42] fix: do not carry out truncated requests

If the client disconnected in the middle of a request, the part that had
been received so far was treated as a complete request, so that for example
a lock or unlock request was carried out although its end never arrived.
Treat the end of the input in the middle of a request, and a flush packet
where more is required, as errors.
---
 scutiger-lfs/src/processor.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 90f77b9..b86d927 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -108,14 +108,17 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
     }
 
     pub fn read_to_type(&mut self, typ: pktline::PacketType) -> Result<Vec<Bytes>, Error> {
-        self.rdr
-            .iter()
-            .take_while(|pkt| match pkt {
-                Ok(pkt) if pkt.packet_type() == typ => false,
-                _ => true,
-            })
-            .map(|pkt| pkt.map(|p| p.data().unwrap_or(b"").into()))
-            .collect()
+        let mut data = Vec::new();
+        loop {
+            let pkt = self.rdr.read_packet()?;
+            match pkt.packet_type() {
+                t if t == typ => return Ok(data),
+                pktline::PacketType::Flush => {
+                    return Err(Error::new_simple(ErrorKind::UnexpectedPacket))
+                }
+                _ => data.push(pkt.data().unwrap_or(b"").into()),
+            }
+        }
     }
 
     pub fn read_to_delim(&mut self) -> Result<Vec<Bytes>, Error> {
@@ -495,6 +498,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         // This does not need to be constant time because the user has provided both sides of the
         // data and there's no secret values to compare.
         let actual_oid = rdr.oid()?;
+        if self.handler.rdr.last_packet_type() != Some(pktline::PacketType::Flush) {
+            return Err(Error::new_simple(ErrorKind::UnexpectedPacket));
+        }
         if actual_oid != oid {
             return Err(Error::from_message(
                 ErrorKind::CorruptData,
-- 
2.43.0


From dd9ac6797541f7e4f86be5f6fc4f7aef52cf4abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 07/42] fix: do not panic if a conflicting lock vanishes
 repeatedly

If creating a lock failed because it already existed, but it was then gone
when we tried to read it, we were meant to try again once, but panicked
instead.
---
 scutiger-lfs/src/processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index b86d927..739f70a 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -553,15 +553,16 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         };
         let lock_backend = self.backend.lock_backend();
         let mut retried = false;
-        while !retried {
+        loop {
             let (ok, lock) = match lock_backend.create(path) {
                 Ok(l) => (true, l),
                 Err(e) if e.kind() == ErrorKind::Conflict => match lock_backend.from_path(path) {
                     Ok(Some(l)) => (false, l),
-                    Ok(None) => {
+                    Ok(None) if !retried => {
                         retried = true;
                         continue;
                     }
+                    Ok(None) => return Err(e),
                     Err(e) => return Err(e),
                 },
                 Err(e) => return Err(e),
@@ -576,7 +577,6 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             };
         }
-        unreachable!()
     }
 
     fn list_locks_for_path(
-- 
2.43.0


From 212dc09462472795d61d82cf17625c42b2263c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 08/42] fix: validate lock IDs before using them as file names

A lock ID sent by the client was used as a path unchecked, which allowed
probing and reading files outside of the lock directory, and made temporary
files in that directory show up as locks.
---
 scutiger-lfs/src/backend/local.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9ec1dbb..7c1a224 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -363,6 +363,10 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
     }
 
     fn from_id(&self, id: &str) -> Result<Option<Box<dyn Lock>>, Error> {
+        // Lock IDs are, like object IDs, SHA-256 hashes.
+        if !Oid::valid(id.as_bytes()) {
+            return Ok(None);
+        }
         let mut filename = self.lock_path.clone();
         filename.push(id);
         let mut f = match fs::OpenOptions::new().read(true).open(&filename) {
-- 
2.43.0


From 619037a87853ccb282105a581337f3dbe63ed8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 09/42] fix: use a temporary file of our own for creating a
 lock

The temporary file used to create a lock was shared by all processes locking
the same path.  A process that found it in use removed it while the other one
still needed it, and one left behind by a process that was killed made the
next attempt to lock that path fail.
---
 scutiger-lfs/src/backend/local.rs | 44 +++++++++++--------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 7c1a224..fa06868 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -149,40 +149,36 @@ impl<'a> Backend for LocalBackend<'a> {
 
 struct LockFile {
     path: PathBuf,
-    temp: PathBuf,
+    temp: NamedTempFile,
 }
 
 impl LockFile {
     fn new(path: &Path) -> Result<LockFile, Error> {
-        let mut temp = path.to_owned();
-        temp.set_extension("lock");
+        // Use a temporary file of our own, so that we neither interfere with other processes nor
+        // trip over leftover files.  Like any other file, its permissions depend on the umask.
+        let temp = Builder::new()
+            .suffix(".lock")
+            .make_in(path.parent().unwrap_or(path), |temp| {
+                fs::OpenOptions::new()
+                    .write(true)
+                    .create_new(true)
+                    .open(temp)
+            })?;
         Ok(LockFile {
             path: path.to_owned(),
             temp,
         })
     }
 
-    fn write(&self, data: &[u8]) -> Result<(), Error> {
-        let mut f = match fs::OpenOptions::new()
-            .write(true)
-            .create_new(true)
-            .open(&self.temp)
-        {
-            Ok(f) => f,
-            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
-                return Err(Error::new_simple(ErrorKind::Conflict))
-            }
-            Err(e) => return Err(e.into()),
-        };
-        f.write_all(data)?;
-        f.flush()?;
-        drop(f);
+    fn write(&mut self, data: &[u8]) -> Result<(), Error> {
+        self.temp.write_all(data)?;
+        self.temp.flush()?;
         Ok(())
     }
 
     #[allow(unused_must_use)]
     fn persist(self) -> Result<(), Error> {
-        match fs::hard_link(&self.temp, &self.path) {
+        match fs::hard_link(self.temp.path(), &self.path) {
             Ok(()) => Ok(()),
             Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
                 Err(Error::new_simple(ErrorKind::Conflict))
@@ -192,14 +188,6 @@ impl LockFile {
     }
 }
 
-impl Drop for LockFile {
-    #[allow(unused_must_use)]
-    fn drop(&mut self) {
-        // We don't care if the file removal failed.  We did the best we could.
-        fs::remove_file(&self.temp);
-    }
-}
-
 struct LocalBackendLock {
     root: PathBuf,
     path_name: Bytes,
@@ -333,7 +321,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
-        let lock = LockFile::new(&filename)?;
+        let mut lock = LockFile::new(&filename)?;
         lock.write(&b)?;
         lock.persist()?;
         let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
-- 
2.43.0


From d828223301a2e1b5898165a1dbdb3cffd4775aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 10/42] fix: determine the owner of a lock from the file we
 wrote or read

Looking up the owner of a lock by name after it had been created or read
reported no owner, or the wrong one, if another process released the lock or
somebody else took it in the meantime.
---
 scutiger-lfs/src/backend/local.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index fa06868..05385c9 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -299,14 +299,14 @@ impl<'a> LocalLockBackend<'a> {
     }
 
     #[cfg(windows)]
-    fn user_for_file(path: &Path) -> Result<String, Error> {
+    fn user_for_file(file: &fs::File) -> Result<String, Error> {
         Ok("unknown".into())
     }
 
     #[cfg(unix)]
-    fn user_for_file(path: &Path) -> Result<String, Error> {
+    fn user_for_file(file: &fs::File) -> Result<String, Error> {
         use std::os::unix::fs::MetadataExt;
-        let st = fs::metadata(path)?;
+        let st = file.metadata()?;
         match passwd::Passwd::from_uid(st.uid()) {
             Some(pwd) => Ok(pwd.name),
             None => Ok(format!("uid {}", st.uid())),
@@ -323,8 +323,8 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         filename.push(id);
         let mut lock = LockFile::new(&filename)?;
         lock.write(&b)?;
+        let user = Self::user_for_file(lock.temp.as_file()).unwrap_or_else(|_| "unknown".into());
         lock.persist()?;
-        let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
@@ -364,7 +364,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         };
         let mut v = Vec::new();
         f.read_to_end(&mut v)?;
-        let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
+        let user = Self::user_for_file(&f).unwrap_or_else(|_| "unknown".into());
         let (time, parsed_path) = match LocalBackendLock::parse(v) {
             Some(x) => x,
             None => {
-- 
2.43.0


From 7b4c494df074987dbe99d1c5779fe27b208e2de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 11/42] fix: do not list more locks than requested

Every page of locks contained one more lock than requested, which was then
repeated as the first one of the next page.
---
 scutiger-lfs/src/processor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 739f70a..58f1c7c 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -628,8 +628,12 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .take(limit + 1)
             .collect();
         let items = r?;
-        let lock_specs: Result<Vec<_>, _> =
-            items.iter().map(|l| l.as_lock_spec(use_owner_id)).collect();
+        // The last item, if we got as many, is the first one of the next page.
+        let lock_specs: Result<Vec<_>, _> = items
+            .iter()
+            .take(limit)
+            .map(|l| l.as_lock_spec(use_owner_id))
+            .collect();
         let lock_specs = lock_specs?.iter().flatten().cloned().collect();
         let next_cursor: Vec<Bytes> = if items.len() == limit + 1 {
             vec![format!("next-cursor={}\n", items[limit].id()).into()]
-- 
2.43.0


From da9633405e1d8c609eef6141219406966acbb61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 12/42] fix: report the time of a new lock as recorded

The time of a new lock was determined twice, so that the time in the response
could differ from the one in the record, which is reported later on.
---
 scutiger-lfs/src/backend/local.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 05385c9..9da3d7b 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -317,7 +317,8 @@ impl<'a> LocalLockBackend<'a> {
 impl<'a> LockBackend for LocalLockBackend<'a> {
     fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error> {
         let id = LocalBackendLock::hash_for(path);
-        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, self.timestamp()).into();
+        let time = self.timestamp();
+        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, time).into();
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
@@ -328,7 +329,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
-            time: self.timestamp(),
+            time,
             ownername: user,
         }))
     }
-- 
2.43.0


From 1a737bc2de3c776bb9ba57329d6a0859b87162fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 13/42] fix: treat a lock with an impossible time as corrupt

Such a lock record made the server panic when listing locks.
---
 scutiger-lfs/src/backend/local.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9da3d7b..2363883 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -213,6 +213,8 @@ impl LocalBackendLock {
         }
         let s: String = String::from_utf8(v[1].clone()).ok()?;
         let time = s.parse().ok()?;
+        // Make sure that this is a time we can represent.
+        Utc.timestamp_opt(time, 0).single()?;
         Some((time, v[2].clone().into()))
     }
 
-- 
2.43.0


From df35d7ca3a1285fe99ac8dd8fbcb63fc027fe22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 14/42] fix: treat a lock recorded under the wrong ID as
 corrupt

A record whose name does not match the path in it was listed as a lock on that
path, under the ID of a lock which does not exist.
---
 scutiger-lfs/src/backend/local.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 2363883..e778f29 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -369,8 +369,8 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         f.read_to_end(&mut v)?;
         let user = Self::user_for_file(&f).unwrap_or_else(|_| "unknown".into());
         let (time, parsed_path) = match LocalBackendLock::parse(v) {
-            Some(x) => x,
-            None => {
+            Some((time, path)) if LocalBackendLock::hash_for(&path) == id => (time, path),
+            _ => {
                 return Err(Error::from_message(
                     ErrorKind::CorruptData,
                     "invalid parsed lock",
-- 
2.43.0


From cb76f4b05238e3fb13db1f87fe7b6aa38d7d34a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 15/42] fix: refuse to lock paths too long to be listed

The line with the path of such a lock did not fit into one packet, and was
split into two, which made the listing of locks malformed.
---
 scutiger-lfs/src/processor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 58f1c7c..ff75ee4 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -358,6 +358,9 @@ pub struct Processor<'a, R: io::Read, W: io::Write> {
 }
 
 impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
+    // When listing locks, the path, which is preceded by the lock ID, has to fit into one packet.
+    const MAX_LOCK_PATH_LEN: usize = 65516 - "path ".len() - 64 - " ".len() - "\n".len();
+
     pub fn new(handler: PktLineHandler<R, W>, backend: Box<dyn Backend + 'a>) -> Self {
         Processor { handler, backend }
     }
@@ -551,6 +554,12 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             }
         };
+        if path.len() > Self::MAX_LOCK_PATH_LEN {
+            return Err(Error::from_message(
+                ErrorKind::NotAllowed,
+                "path is too long",
+            ));
+        }
         let lock_backend = self.backend.lock_backend();
         let mut retried = false;
         loop {
-- 
2.43.0


From 04e9d8d7abf4bb434da284d4753e94a97817096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 16/42] fix: honour octal modes in core.sharedRepository

libgit2 considers any number to be a boolean, so an octal mode such as 0640,
as well as 2, which is equivalent to "all", was treated like "group".
---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 4465818..69a93e5 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -98,13 +98,15 @@ impl<'p> Program<'p> {
         let config = self.repo.config()?;
         let sval = config.get_string("core.sharedrepository");
         let tval = sval.as_ref().map(|s| s.as_str());
+        // Git treats 0, 1, and 2 specially, and anything else which is an octal number as a mode.
+        // Be sure to check for these first because libgit2 considers any number to be a boolean.
+        let mode = tval.ok().and_then(|s| u16::from_str_radix(s, 8).ok());
         let perms = match (config.get_bool("core.sharedrepository"), tval) {
+            (_, Ok(_)) if mode == Some(2) => Some(0o664),
+            (_, Ok(_)) if mode > Some(2) => mode,
             (Ok(true), _) | (_, Ok("group")) => Some(0o660),
             (Ok(false), _) | (_, Ok("umask")) => None,
             (_, Ok("all")) | (_, Ok("world")) | (_, Ok("everybody")) => Some(0o664),
-            (_, Ok(x)) if u16::from_str_radix(x, 8).is_ok() => {
-                Some(u16::from_str_radix(x, 8).unwrap())
-            }
             (_, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
             (_, Err(e)) => return Err(git2::Error::new(e.code(), e.class(), e.message()).into()),
             _ => None,
-- 
2.43.0


From 3279fbfd2bce347457899d5da7abf0630e49167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 17/42] fix: set the permissions of an object before it becomes
 visible

An object was renamed into place before its permissions were set, so it could
not be read by other users in between, or at all if the server was killed.
---
 scutiger-lfs/src/backend/local.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index e778f29..c152089 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -94,14 +94,12 @@ impl<'a> Backend for LocalBackend<'a> {
         if let Some(parent) = dest_path.parent() {
             fs::create_dir_all(parent)?;
         }
-        state
-            .tempfile
-            .take()
-            .unwrap()
-            .into_temp_path()
+        // Set the permissions first so that nobody can see the file without them.
+        let temp_path = state.tempfile.take().unwrap().into_temp_path();
+        self.fix_permissions(&temp_path)?;
+        temp_path
             .persist(&dest_path)
             .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;
-        self.fix_permissions(&dest_path)?;
         Ok(())
     }
 
-- 
2.43.0


From cd91560f3ad7e9cffd0263fb157069781ba3a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 18/42] fix: match only the first line with git at --summary

Prefixing the pattern restricted only its first alternative to the first line,
and not where a match ends.
---
 scutiger-bin/src/bin/git-at.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 4d3258b..b600f24 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -64,8 +64,8 @@ impl<'a> Program<'a> {
     /// one occurred. If the Error is due to no revision matching, the kind of the error will be
     /// `ErrorKind::NoSuchRevision`.
     fn run(&self) -> Result<Oid, Error> {
-        let regex = self.pattern(self.text)?;
-        let fixup_regex = self.pattern("\\A\\s*(?:fixup|squash)!")?;
+        let regex = Regex::new(self.text)?;
+        let fixup_regex = Regex::new("\\A\\s*(?:fixup|squash)!")?;
         let head = self.repo.revparse_single(self.head)?;
         let mut walker = self.repo.revwalk()?;
         walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
@@ -76,7 +76,7 @@ impl<'a> Program<'a> {
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
             }
-            if regex.is_match(message)? {
+            if regex.is_match(self.searchable(message))? {
                 return Ok(commit.id());
             }
         }
@@ -117,11 +117,12 @@ impl<'a> Program<'a> {
         }
     }
 
-    fn pattern(&self, pattern: &str) -> Result<Regex, Error> {
+    /// Returns the part of the message to be searched.
+    fn searchable<'b>(&self, message: &'b [u8]) -> &'b [u8] {
         if self.summary {
-            return Ok(Regex::new(&format!("\\A[^\n]*{}", pattern))?);
+            return message.split(|&b| b == b'\n').next().unwrap_or(message);
         }
-        Ok(Regex::new(pattern)?)
+        message
     }
 }
 
-- 
2.43.0


From 7ed2fe0734c641a8331a7c4dba45d9bd9cabaa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 19/42] fix: list all branches and commits visited by git
 recent-refs

The list stopped at the first branch which had been deleted in the meantime.
If there was a tag with the same name as a branch, the tag was listed instead.
If HEAD had no reflog, an empty one was created.

Read the reflog of HEAD instead of looking up each item by its number.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 45 +++++++++++++++++++------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 6db2085..8bab105 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -17,7 +17,7 @@ mod pager;
 pub mod fixtures;
 
 use clap::{App, AppSettings, Arg, ArgMatches};
-use git2::{Object, Reference, Repository, Time};
+use git2::{Object, Oid, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
 use std::process;
@@ -52,6 +52,28 @@ impl<'p> Program<'p> {
         }
     }
 
+    /// Returns the name of what was checked out before the checkout with the given reflog message.
+    fn previous_checkout(msg: &str) -> Option<&str> {
+        let prefix = "checkout: moving from ";
+        if !msg.starts_with(prefix) {
+            return None;
+        }
+        let names = &msg[prefix.len()..];
+        Some(&names[..names.find(" to ")?])
+    }
+
+    /// Returns the branch or commit which was checked out by the given name, if it still exists.
+    fn resolve_checkout(repo: &Repository, name: &str) -> Option<String> {
+        if let Ok(r) = repo.find_reference(&format!("refs/heads/{}", name)) {
+            return Some(r.name()?.into());
+        }
+        if name.len() != 40 {
+            return None;
+        }
+        let oid = Oid::from_str(name).ok()?;
+        Some(format!("{}", repo.find_object(oid, None).ok()?.id()))
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -72,16 +94,17 @@ impl<'p> Program<'p> {
     fn run<'a>(&self, repo: &'a Repository) -> Result<Box<Iterator<Item = String> + 'a>, Error> {
         match self.kind {
             SortKind::Visited => {
-                let chain: Vec<String> = vec!["HEAD".to_string()];
-                let range = 1..;
-                let iter = chain
-                    .into_iter()
-                    .chain(range.map(|i| format!("@{{-{}}}", i)));
-                Ok(Box::new(
-                    iter.map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok()))
-                        .take_while(Option::is_some)
-                        .map(Option::unwrap),
-                ))
+                let head = Self::stringify(repo.revparse_ext("HEAD").ok());
+                let mut visited = vec![];
+                // Reading a reflog which does not exist would create it.
+                if repo.reference_has_log("HEAD")? {
+                    let reflog = repo.reflog("HEAD")?;
+                    visited.extend(reflog.iter().filter_map(|e| {
+                        let name = Self::previous_checkout(e.message()?)?;
+                        Self::resolve_checkout(repo, name)
+                    }));
+                }
+                Ok(Box::new(head.into_iter().chain(visited)))
             }
             SortKind::Committed => {
                 let mut refs: Vec<_> = repo
-- 
2.43.0


From 6c4a36fc0b34c4adb2ed68f04c23e969affdb764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 20/42] fix: wait for the pager before exiting

Otherwise, the shell prompt appears, and the terminal is used by two processes
at the same time, while the pager is still running.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 4 +++-
 scutiger-bin/src/bin/pager/mod.rs       | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 8bab105..3cbb4f1 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -210,7 +210,9 @@ fn main() {
     let repo = repo();
     let prog = program(&repo, &matches);
     let mut pager = pager::Pager::new(&repo).expect("unable to spawn pager");
-    process::exit(prog.main(&mut pager.stdout(), &mut io::stderr()));
+    let code = prog.main(&mut pager.stdout(), &mut io::stderr());
+    pager.finish();
+    process::exit(code);
 }
 
 #[cfg(test)]
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 7f8cfb3..e39aefc 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -43,6 +43,13 @@ impl Pager {
         }
     }
 
+    /// Wait for the pager, if any, to exit.
+    pub fn finish(self) {
+        if let Some(mut process) = self.process {
+            let _ = process.wait();
+        }
+    }
+
     pub fn stdout<'a>(&'a mut self) -> Box<io::Write + 'a> {
         self.process
             .as_mut()
-- 
2.43.0


From 1685bccb8c003af9f29731746fd8809f5deaf6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 21/42] fix: treat an empty pager as none

As in Git, an empty pager means not to use one, but the output was discarded.
---
 scutiger-bin/src/bin/pager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index e39aefc..617c943 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -36,7 +36,7 @@ impl Pager {
             .or(core_pager)
             .or_else(|| env::var_os("PAGER"))
             .unwrap_or_else(|| "less".into());
-        if pager == "cat" {
+        if pager.is_empty() || pager == "cat" {
             None
         } else {
             Some(pager)
-- 
2.43.0


From 850b23d3e99546e4c69362356160efcfd4be97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 22/42] fix: do not panic on arguments to git at which are not
 UTF-8

---
 scutiger-bin/src/bin/git-at.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index b600f24..a898981 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -129,6 +129,7 @@ impl<'a> Program<'a> {
 fn parse_options<'a>() -> App<'a, 'a> {
     App::new("git-at")
         .setting(AppSettings::AllowMissingPositional)
+        .setting(AppSettings::StrictUtf8)
         .about("Find a commit based on commit message")
         .arg(
             Arg::with_name("summary")
-- 
2.43.0


From 2cb7e02ff3b4230a0c3ed3d818dd4326020803ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 23/42] fix: do not report an object as absent if looking it up
 failed

A batch request treated any failure to stat an object, such as an I/O error, as if the object did
not exist.
---
 scutiger-lfs/src/backend/local.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index c152089..78d4ab4 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -53,7 +53,12 @@ impl<'a> Backend for LocalBackend<'a> {
     fn batch(&mut self, _mode: Mode, oids: &[(Oid, u64)]) -> Result<Vec<BatchItem>, Error> {
         oids.iter()
             .map(|(oid, batch_size)| {
-                let maybe_size = oid.size_at_path(self.lfs_path);
+                // Only an object which is not there is absent; one we cannot look at may exist.
+                let maybe_size = match fs::metadata(oid.expected_path(self.lfs_path)) {
+                    Ok(m) => Some(m.len()),
+                    Err(e) if e.kind() == io::ErrorKind::NotFound => None,
+                    Err(e) => return Err(e.into()),
+                };
                 Ok(BatchItem {
                     oid: oid.clone(),
                     size: maybe_size.unwrap_or(*batch_size),
-- 
2.43.0


From ec019d121ee5ccd0be3515b8de822cfa2a8c612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 24/42] fix: do not omit a lock from a listing if reading it
 failed

Every error reading a lock was treated as if there were no such lock, so that a listing was
incomplete without saying so if, for example, there were too many open files or an I/O error.  Skip
only what is not a lock.
---
 scutiger-lfs/src/backend/local.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 78d4ab4..6211d0d 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -422,6 +422,15 @@ impl<'a> LockSetIterator<'a> {
             backend,
         }
     }
+
+    /// Returns false if this is known to be something other than a file.
+    fn is_file(entry: &fs::DirEntry) -> bool {
+        match entry.file_type() {
+            Ok(t) if t.is_symlink() => entry.path().is_file(),
+            Ok(t) => t.is_file(),
+            Err(_) => true,
+        }
+    }
 }
 
 impl<'a> Iterator for LockSetIterator<'a> {
@@ -441,9 +450,19 @@ impl<'a> Iterator for LockSetIterator<'a> {
                     let item = &self.data[pos];
                     let filename = item.file_name();
                     let filename = filename.to_string_lossy();
+                    if !Self::is_file(item) {
+                        continue;
+                    }
                     match self.backend.from_id(&filename) {
                         Ok(Some(l)) => return Some(Ok(l)),
-                        _ => continue,
+                        Ok(None) => continue,
+                        // This is something which is not a lock.
+                        Err(e) if e.kind() == ErrorKind::CorruptData => continue,
+                        Err(e) if e.io_kind() == io::ErrorKind::PermissionDenied => continue,
+                        Err(e) => {
+                            self.done = true;
+                            return Some(Err(e));
+                        }
                     };
                 }
                 None
-- 
2.43.0


From 65fc0b73debc0463b6524cfde5d1bb0d56d03038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 25/42] fix: compare lock IDs with the cursor the right way
 around

The order of byte slices and Bytes is reversed in some versions of the bytes crate, so that every
page after the first one started over from the beginning.
---
 scutiger-lfs/src/processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index ff75ee4..ecae6a1 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -597,7 +597,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         match (self.backend.lock_backend().from_path(path), cursor) {
             (Err(e), _) => Err(e),
             (Ok(None), _) => self.error(404, "not found"),
-            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id => self.error(404, "not found"),
+            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < &id[..] => self.error(404, "not found"),
             (Ok(Some(l)), _) => l.as_lock_spec(use_owner_id).map(Status::new_success),
         }
     }
@@ -631,7 +631,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .iter()
             .skip_while(|item| match (item, cursor) {
                 (Err(_), _) => false,
-                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor,
+                (Ok(l), Some(cursor)) => l.id().as_bytes() < &cursor[..],
                 (Ok(_), None) => false,
             })
             .take(limit + 1)
-- 
2.43.0


From c89cd26efff883177d36647f906e4dfe25d69403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 26/42] fix: find the first match in the order of git log

---
 scutiger-bin/src/bin/git-at.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index a898981..479bcc1 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -31,9 +31,6 @@ struct Program<'a> {
 }
 
 impl<'a> Program<'a> {
-    // TODO: Drop when we drop support for Rust 1.24.
-    const SORT_TIME: u32 = 1 << 1;
-
     /// Creates a new main program.
     ///
     /// The arguments correspond to the command line options. If `head` is `None`, it defaults to
@@ -68,7 +65,8 @@ impl<'a> Program<'a> {
         let fixup_regex = Regex::new("\\A\\s*(?:fixup|squash)!")?;
         let head = self.repo.revparse_single(self.head)?;
         let mut walker = self.repo.revwalk()?;
-        walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
+        // The default order is that of git log.  Sorting by time would put commits of the same
+        // date in any order, even parents before their children.
         walker.push(head.id())?;
         for rev in walker {
             let commit = self.repo.find_commit(rev?)?;
-- 
2.43.0


From c7e738caffeadd40493533217be6706f33b0b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 27/42] fix: report unreadable history as an error, not as no
 match

---
 scutiger-bin/src/bin/git-at.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 479bcc1..c135f95 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -69,7 +69,10 @@ impl<'a> Program<'a> {
         // date in any order, even parents before their children.
         walker.push(head.id())?;
         for rev in walker {
-            let commit = self.repo.find_commit(rev?)?;
+            // If history cannot be read, we don't know whether there's a match or not.
+            let commit = rev
+                .and_then(|id| self.repo.find_commit(id))
+                .map_err(|e| Error::new(ErrorKind::GitError, Some(e)))?;
             let message = commit.message_bytes();
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
-- 
2.43.0


From bf3a442d37a1c721434ecb9f7e711032708621d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 28/42] fix: accept @ followed by a suffix as a revision

---
 scutiger-bin/src/bin/git-at.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index c135f95..5226f7d 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -63,7 +63,7 @@ impl<'a> Program<'a> {
     fn run(&self) -> Result<Oid, Error> {
         let regex = Regex::new(self.text)?;
         let fixup_regex = Regex::new("\\A\\s*(?:fixup|squash)!")?;
-        let head = self.repo.revparse_single(self.head)?;
+        let head = self.repo.revparse_single(&self.revision())?;
         let mut walker = self.repo.revwalk()?;
         // The default order is that of git log.  Sorting by time would put commits of the same
         // date in any order, even parents before their children.
@@ -118,6 +118,16 @@ impl<'a> Program<'a> {
         }
     }
 
+    /// Returns the revision to start from in a form that libgit2 understands.
+    fn revision(&self) -> String {
+        // With these suffixes, libgit2 doesn't know @ as an alias for HEAD.
+        if self.head.starts_with("@^") || self.head.starts_with("@~") {
+            format!("HEAD{}", &self.head[1..])
+        } else {
+            self.head.to_string()
+        }
+    }
+
     /// Returns the part of the message to be searched.
     fn searchable<'b>(&self, message: &'b [u8]) -> &'b [u8] {
         if self.summary {
-- 
2.43.0


From 55160d5080dc6e494c80da952d8b63a8c3cbcf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 29/42] fix: look up HEAD@{n} in the reflog of HEAD

---
 scutiger-bin/src/bin/git-at.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 5226f7d..ab024bb 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -63,7 +63,7 @@ impl<'a> Program<'a> {
     fn run(&self) -> Result<Oid, Error> {
         let regex = Regex::new(self.text)?;
         let fixup_regex = Regex::new("\\A\\s*(?:fixup|squash)!")?;
-        let head = self.repo.revparse_single(&self.revision())?;
+        let head = self.repo.revparse_single(&self.revision()?)?;
         let mut walker = self.repo.revwalk()?;
         // The default order is that of git log.  Sorting by time would put commits of the same
         // date in any order, even parents before their children.
@@ -119,12 +119,24 @@ impl<'a> Program<'a> {
     }
 
     /// Returns the revision to start from in a form that libgit2 understands.
-    fn revision(&self) -> String {
+    fn revision(&self) -> Result<String, Error> {
+        let head_reflog = "HEAD@{";
+        if self.head.starts_with(head_reflog) && self.repo.reference_has_log("HEAD")? {
+            let mut parts = self.head[head_reflog.len()..].splitn(2, '}');
+            let number = parts.next().and_then(|n| n.parse::<usize>().ok());
+            if let (Some(n), Some(suffix)) = (number, parts.next()) {
+                // libgit2 would look into the reflog of the current branch.
+                return match self.repo.reflog("HEAD")?.get(n) {
+                    Some(entry) => Ok(format!("{}{}", entry.id_new(), suffix)),
+                    None => Err(Error::new::<git2::Error>(ErrorKind::NoSuchRevision, None)),
+                };
+            }
+        }
         // With these suffixes, libgit2 doesn't know @ as an alias for HEAD.
         if self.head.starts_with("@^") || self.head.starts_with("@~") {
-            format!("HEAD{}", &self.head[1..])
+            Ok(format!("HEAD{}", &self.head[1..]))
         } else {
-            self.head.to_string()
+            Ok(self.head.to_string())
         }
     }
 
-- 
2.43.0


From 9e19e06427f05e304868130af3e49305b205f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 30/42] fix: do not create reflogs when looking into one which
 does not exist

---
 scutiger-bin/src/bin/git-at.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index ab024bb..f69490b 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -132,6 +132,9 @@ impl<'a> Program<'a> {
                 };
             }
         }
+        if self.lacks_reflog()? {
+            return Err(Error::new::<git2::Error>(ErrorKind::NoSuchRevision, None));
+        }
         // With these suffixes, libgit2 doesn't know @ as an alias for HEAD.
         if self.head.starts_with("@^") || self.head.starts_with("@~") {
             Ok(format!("HEAD{}", &self.head[1..]))
@@ -140,6 +143,26 @@ impl<'a> Program<'a> {
         }
     }
 
+    /// Returns whether libgit2 would need a reflog which does not exist.
+    ///
+    /// It would create one.
+    fn lacks_reflog(&self) -> Result<bool, Error> {
+        let mut parts = self.head.splitn(2, "@{");
+        let name = match parts.next() {
+            None | Some("") => "HEAD",
+            Some(name) => name,
+        };
+        let log = match parts.next().and_then(|s| s.split('}').next()) {
+            None | Some("0") | Some("u") | Some("upstream") => return Ok(false),
+            Some(s) if s.starts_with('-') => "HEAD".to_string(),
+            Some(_) => match self.repo.resolve_reference_from_short_name(name) {
+                Ok(r) => r.name().unwrap_or("HEAD").to_string(),
+                Err(_) => return Ok(false),
+            },
+        };
+        Ok(!self.repo.reference_has_log(&log)?)
+    }
+
     /// Returns the part of the message to be searched.
     fn searchable<'b>(&self, message: &'b [u8]) -> &'b [u8] {
         if self.summary {
-- 
2.43.0


From 87839bb1e8e697eea270c84ae7d5e99b423572ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 31/42] fix: wait for the pager even if interrupted or if it
 stops reading

---
 scutiger-bin/src/bin/git-recent-refs.rs |  6 +++++-
 scutiger-bin/src/bin/pager/mod.rs       | 11 ++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 3cbb4f1..e38904a 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -144,7 +144,11 @@ impl<'p> Program<'p> {
         match self.run(self.repo) {
             Ok(iter) => {
                 for s in iter {
-                    writeln!(output, "{}", s).unwrap();
+                    match writeln!(output, "{}", s) {
+                        // The pager doesn't want to see any more.
+                        Err(ref e) if e.kind() == io::ErrorKind::BrokenPipe => break,
+                        r => r.unwrap(),
+                    }
                 }
                 ExitStatus::Success as i32
             }
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 617c943..97514d3 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -21,7 +21,16 @@ impl Pager {
                     .spawn()
             })
             .transpose();
-        Ok(Pager { process: pager? })
+        let process = pager?;
+        if process.is_some() {
+            // It's up to the pager when to stop.  We mustn't die before it does.
+            unsafe {
+                libc::signal(libc::SIGINT, libc::SIG_IGN);
+                libc::signal(libc::SIGQUIT, libc::SIG_IGN);
+                libc::signal(libc::SIGPIPE, libc::SIG_IGN);
+            }
+        }
+        Ok(Pager { process })
     }
 
     fn find_pager(repo: &Repository) -> Option<OsString> {
-- 
2.43.0


From 7909ec69c6e087f7ad42ad5482d4f78be603b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 32/42] fix: use the repository which GIT_DIR names, and heed
 ceiling directories

---
 scutiger-bin/src/bin/git-at.rs          |  2 +-
 scutiger-bin/src/bin/git-recent-refs.rs |  2 +-
 scutiger-bin/src/bin/libgit2/mod.rs     | 24 ++++++++++++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index f69490b..344a3fd 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -216,7 +216,7 @@ fn program<'a>(repo: &'a git2::Repository, matches: &'a ArgMatches) -> Program<'
 }
 
 fn repo() -> Repository {
-    let repo = git2::Repository::discover(".");
+    let repo = libgit2::open_repository();
     match repo {
         Ok(r) => r,
         Err(e) => {
diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index e38904a..f9f25b2 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -190,7 +190,7 @@ fn program<'a>(repo: &'a Repository, matches: &'a ArgMatches) -> Program<'a> {
 }
 
 fn repo() -> Repository {
-    let repo = git2::Repository::discover(".");
+    let repo = libgit2::open_repository();
     match repo {
         Ok(r) => r,
         Err(e) => {
diff --git a/scutiger-bin/src/bin/libgit2/mod.rs b/scutiger-bin/src/bin/libgit2/mod.rs
index 459a68b..6e6460f 100644
--- a/scutiger-bin/src/bin/libgit2/mod.rs
+++ b/scutiger-bin/src/bin/libgit2/mod.rs
@@ -1,4 +1,7 @@
+use git2::{Error, Repository, RepositoryOpenFlags};
 use libc::c_int;
+use std::env;
+use std::ffi::OsStr;
 
 pub const GIT_OPT_ENABLE_STRICT_HASH_VERIFICATION: c_int = 22;
 
@@ -15,3 +18,24 @@ pub fn init() {
         git_libgit2_opts(GIT_OPT_ENABLE_STRICT_HASH_VERIFICATION, 0);
     }
 }
+
+/// Opens the repository which Git would use.
+///
+/// We can't use `Repository::open_from_env`, because that doesn't support `GIT_WORK_TREE`, which
+/// is of no interest to us.
+pub fn open_repository() -> Result<Repository, Error> {
+    match env::var_os("GIT_DIR") {
+        Some(dir) => {
+            let flags = RepositoryOpenFlags::NO_SEARCH | RepositoryOpenFlags::NO_DOTGIT;
+            Repository::open_ext(dir, flags, &[] as &[&OsStr])
+        }
+        None => {
+            let ceiling = env::var_os("GIT_CEILING_DIRECTORIES").unwrap_or_default();
+            Repository::open_ext(
+                ".",
+                RepositoryOpenFlags::empty(),
+                env::split_paths(&ceiling),
+            )
+        }
+    }
+}
-- 
2.43.0


From 5ca77ee7966cce8228e4fb7c3dbd39cf40662fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 33/42] fix: keep objects and locks in the directory shared by
 all working trees

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 69a93e5..8d761da 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -133,6 +133,18 @@ impl<'p> Program<'p> {
         Ok(0o077)
     }
 
+    /// Returns the directory of the repository which is shared by all of its working trees.
+    ///
+    /// A linked working tree also has a Git directory of its own, but nothing is stored there.
+    fn common_dir(&self) -> Result<PathBuf, Error> {
+        let dir = self.repo.path();
+        match fs::read_to_string(dir.join("commondir")) {
+            Ok(s) => Ok(dir.join(s.trim_end_matches(&['\r', '\n'][..]))),
+            Err(ref e) if e.kind() == io::ErrorKind::NotFound => Ok(dir.to_path_buf()),
+            Err(e) => Err(e.into()),
+        }
+    }
+
     fn main_internal<R: io::Read, O: io::Write, E: io::Write>(
         &mut self,
         input: &mut R,
@@ -140,6 +152,7 @@ impl<'p> Program<'p> {
         error: &mut E,
     ) -> Result<(), Error> {
         self.umask = self.set_permissions()?;
+        self.lfs_path = self.common_dir()?.join("lfs");
         self.run(input, output, error, None)
     }
 
-- 
2.43.0


From 42db3b105b0805239e4c4fc91cd459d69337ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 34/42] fix: have the shell expand tildes in core.pager

---
 scutiger-bin/src/bin/pager/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 97514d3..d099b74 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -1,8 +1,9 @@
 use super::Error;
 use git2::Repository;
 use std::env;
-use std::ffi::OsString;
+use std::ffi::{OsStr, OsString};
 use std::io;
+use std::os::unix::ffi::OsStrExt;
 use std::os::unix::io::AsRawFd;
 use std::process::{Child, Command, Stdio};
 
@@ -37,10 +38,14 @@ impl Pager {
         if unsafe { libc::isatty(io::stdout().as_raw_fd()) } != 1 {
             return None;
         }
-        let core_pager: Option<OsString> = repo
-            .config()
-            .ok()
-            .and_then(|config| config.get_path("core.pager").ok().map(|val| val.into()));
+        // This is a command for the shell, which also expands tildes, and not a path.
+        let core_pager: Option<OsString> = repo.config().ok().and_then(|config| {
+            let entry = config.get_entry("core.pager").ok()?;
+            if !entry.has_value() {
+                return None;
+            }
+            Some(OsStr::from_bytes(entry.value_bytes()).into())
+        });
         let pager: OsString = env::var_os("GIT_PAGER")
             .or(core_pager)
             .or_else(|| env::var_os("PAGER"))
-- 
2.43.0


From c611a712cb4772d2b5fa8ea786fdb4ef7cf4e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 35/42] fix: do not omit a checkout if where it went is not
 UTF-8

---
 scutiger-bin/src/bin/git-recent-refs.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index f9f25b2..42cca4c 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -21,6 +21,7 @@ use git2::{Object, Oid, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
 use std::process;
+use std::str;
 
 /// The types of sorting that can be provided.
 enum SortKind {
@@ -53,13 +54,15 @@ impl<'p> Program<'p> {
     }
 
     /// Returns the name of what was checked out before the checkout with the given reflog message.
-    fn previous_checkout(msg: &str) -> Option<&str> {
-        let prefix = "checkout: moving from ";
+    fn previous_checkout(msg: &[u8]) -> Option<&str> {
+        let prefix = b"checkout: moving from ";
         if !msg.starts_with(prefix) {
             return None;
         }
         let names = &msg[prefix.len()..];
-        Some(&names[..names.find(" to ")?])
+        // What follows need not be UTF-8.
+        let end = names.windows(4).position(|w| w == b" to ")?;
+        str::from_utf8(&names[..end]).ok()
     }
 
     /// Returns the branch or commit which was checked out by the given name, if it still exists.
@@ -100,7 +103,7 @@ impl<'p> Program<'p> {
                 if repo.reference_has_log("HEAD")? {
                     let reflog = repo.reflog("HEAD")?;
                     visited.extend(reflog.iter().filter_map(|e| {
-                        let name = Self::previous_checkout(e.message()?)?;
+                        let name = Self::previous_checkout(e.message_bytes()?)?;
                         Self::resolve_checkout(repo, name)
                     }));
                 }
-- 
2.43.0


From 2c66381ca25f2c05f994624ad2116397808502b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 36/42] fix: do not go on reading packets after reading one has
 failed

---
 scutiger-core/src/pktline.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index dc8ff21..ab53235 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -56,6 +56,10 @@ pub struct Reader<R: io::Read> {
     off: usize,
     len: usize,
     last: Option<PacketType>,
+    /// The kind of the error, once reading a packet has failed.
+    ///
+    /// It is then unknown where the next packet begins.
+    failed: Option<io::ErrorKind>,
 }
 
 impl<R: io::Read> Reader<R> {
@@ -68,6 +72,7 @@ impl<R: io::Read> Reader<R> {
             off: 0,
             len: 0,
             last: None,
+            failed: None,
         }
     }
 
@@ -107,9 +112,20 @@ impl<R: io::Read> Reader<R> {
     }
 
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
-        let pkt = self.read_one_packet()?;
-        self.last = Some(pkt.packet_type());
-        Ok(pkt)
+        self.check_failed()?;
+        let r = self.read_one_packet();
+        match r {
+            Ok(ref pkt) => self.last = Some(pkt.packet_type()),
+            Err(ref e) => self.failed = Some(e.io_kind()),
+        }
+        r
+    }
+
+    fn check_failed(&self) -> Result<(), io::Error> {
+        match self.failed {
+            Some(kind) => Err(io::Error::from(kind)),
+            None => Ok(()),
+        }
     }
 
     fn read_one_packet(&mut self) -> Result<Packet, Error> {
@@ -168,14 +184,16 @@ impl<R: io::Read> io::Read for Reader<R> {
             }
             return Ok(n);
         }
+        self.check_failed()?;
         loop {
             let (r, copy) = if buf.len() >= Self::MAX_PACKET_LEN {
                 (Self::read_one(&mut self.rdr, buf), false)
             } else {
                 (Self::read_one(&mut self.rdr, &mut self.buf), true)
             };
-            if let Ok(typ) = r {
-                self.last = Some(typ);
+            match r {
+                Ok(typ) => self.last = Some(typ),
+                Err(ref e) => self.failed = Some(e.io_kind()),
             }
             let n = match (r, copy) {
                 (Ok(PacketType::Delim), _) => return Ok(0),
@@ -274,6 +292,9 @@ mod iter {
         type Item = Result<Packet, Error>;
 
         fn next(&mut self) -> Option<Result<Packet, Error>> {
+            if self.rdr.failed.is_some() {
+                return None;
+            }
             match self.rdr.read_packet() {
                 Ok(x) => Some(Ok(x)),
                 Err(ref e) if e.io_kind() == io::ErrorKind::UnexpectedEof => None,
-- 
2.43.0


From 593c6fc0ac0ff77bba0718b0b38b935fae8d1eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 37/42] fix: report failing output as an error instead of
 panicking

---
 scutiger-bin/src/bin/git-at.rs          | 15 ++++++++++-----
 scutiger-bin/src/bin/git-recent-refs.rs | 13 ++++++++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 344a3fd..6e9b975 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -17,6 +17,7 @@ use git2::{Oid, Repository};
 use pcre2::bytes::Regex;
 use scutiger_core::errors::{Error, ErrorKind, ExitStatus};
 use std::io;
+use std::io::Write;
 use std::process;
 
 /// The main program.
@@ -102,17 +103,21 @@ impl<'a> Program<'a> {
                         .unwrap()
                         .code()
                         .unwrap_or(ExitStatus::ExternalProgramFailed as i32)
+                } else if let Err(e) = writeln!(output, "{}", oid) {
+                    let e = Error::from(e);
+                    // If this fails as well, there's nobody to tell.
+                    let _ = writeln!(error, "{}", e);
+                    e.exit_status() as i32
                 } else {
-                    writeln!(output, "{}", oid).unwrap();
                     ExitStatus::Success as i32
                 }
             }
             Err(e) => {
-                match (e.fatal(), self.quiet) {
+                // The exit status is what matters.
+                let _ = match (e.fatal(), self.quiet) {
                     (true, _) | (false, false) => writeln!(error, "{}", e),
                     (false, true) => Ok(()),
-                }
-                .unwrap();
+                };
                 e.exit_status() as i32
             }
         }
@@ -220,7 +225,7 @@ fn repo() -> Repository {
     match repo {
         Ok(r) => r,
         Err(e) => {
-            eprintln!("{}", e);
+            let _ = writeln!(io::stderr(), "{}", e);
             process::exit(4);
         }
     }
diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 42cca4c..3710c8d 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -20,6 +20,7 @@ use clap::{App, AppSettings, Arg, ArgMatches};
 use git2::{Object, Oid, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
+use std::io::Write;
 use std::process;
 use std::str;
 
@@ -150,13 +151,19 @@ impl<'p> Program<'p> {
                     match writeln!(output, "{}", s) {
                         // The pager doesn't want to see any more.
                         Err(ref e) if e.kind() == io::ErrorKind::BrokenPipe => break,
-                        r => r.unwrap(),
+                        Err(e) => {
+                            let e = Error::from(e);
+                            // If this fails as well, there's nobody to tell.
+                            let _ = writeln!(error, "{}", e);
+                            return e.exit_status() as i32;
+                        }
+                        Ok(()) => {}
                     }
                 }
                 ExitStatus::Success as i32
             }
             Err(e) => {
-                writeln!(error, "{}", e).unwrap();
+                let _ = writeln!(error, "{}", e);
                 e.exit_status() as i32
             }
         }
@@ -197,7 +204,7 @@ fn repo() -> Repository {
     match repo {
         Ok(r) => r,
         Err(e) => {
-            eprintln!("{}", e);
+            let _ = writeln!(io::stderr(), "{}", e);
             process::exit(4);
         }
     }
-- 
2.43.0


From 3cd49bac2da6e7ff82dcca6d716a35cf8707e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 38/42] fix: report that git show cannot be run instead of
 panicking

---
 scutiger-bin/src/bin/git-at.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 6e9b975..a41833a 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -94,15 +94,18 @@ impl<'a> Program<'a> {
         match self.run() {
             Ok(oid) => {
                 if self.show {
-                    process::Command::new("git")
+                    let status = process::Command::new("git")
                         .arg("show")
                         .arg(format!("{}", oid))
-                        .spawn()
-                        .unwrap()
-                        .wait()
-                        .unwrap()
-                        .code()
-                        .unwrap_or(ExitStatus::ExternalProgramFailed as i32)
+                        .status();
+                    match status {
+                        Ok(status) => status.code(),
+                        Err(e) => {
+                            let _ = writeln!(error, "fatal: cannot run git show: {}", e);
+                            None
+                        }
+                    }
+                    .unwrap_or(ExitStatus::ExternalProgramFailed as i32)
                 } else if let Err(e) = writeln!(output, "{}", oid) {
                     let e = Error::from(e);
                     // If this fails as well, there's nobody to tell.
-- 
2.43.0


From 031ce82e0b525f049c3c0b4a62c6dad7231abe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 39/42] fix: do without a pager that cannot be run instead of
 panicking

---
 scutiger-bin/src/bin/git-recent-refs.rs | 6 +++++-
 scutiger-bin/src/bin/pager/mod.rs       | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 3710c8d..589b24f 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -223,7 +223,11 @@ fn main() {
     let matches = app.get_matches();
     let repo = repo();
     let prog = program(&repo, &matches);
-    let mut pager = pager::Pager::new(&repo).expect("unable to spawn pager");
+    let mut pager = pager::Pager::new(&repo).unwrap_or_else(|e| {
+        // As with Git, the output is what matters.
+        let _ = writeln!(io::stderr(), "warning: unable to run pager: {}", e);
+        pager::Pager::none()
+    });
     let code = prog.main(&mut pager.stdout(), &mut io::stderr());
     pager.finish();
     process::exit(code);
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index d099b74..f0f4378 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -34,6 +34,11 @@ impl Pager {
         Ok(Pager { process })
     }
 
+    /// Returns what stands for no pager.
+    pub fn none() -> Self {
+        Pager { process: None }
+    }
+
     fn find_pager(repo: &Repository) -> Option<OsString> {
         if unsafe { libc::isatty(io::stdout().as_raw_fd()) } != 1 {
             return None;
-- 
2.43.0


From 5b71a9a62ceaeecf9961d23d99f5b27749f7b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 40/42] fix: report that a message cannot be written with the
 exit status instead of panicking

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 8d761da..8d6d554 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -29,6 +29,7 @@ use scutiger_lfs::backend::local::LocalBackend;
 use scutiger_lfs::processor::{Mode, PktLineHandler, Processor};
 use std::fs;
 use std::io;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::process;
 
@@ -170,7 +171,8 @@ impl<'p> Program<'p> {
         match self.main_internal(input, output, error) {
             Ok(()) => ExitStatus::Success as i32,
             Err(e) => {
-                writeln!(error, "{}", e).unwrap();
+                // If this fails as well, there's nobody to tell.
+                let _ = writeln!(error, "{}", e);
                 e.exit_status() as i32
             }
         }
@@ -193,7 +195,7 @@ fn repo<P: AsRef<Path>>(path: P) -> Repository {
     match repo {
         Ok(r) => r,
         Err(e) => {
-            eprintln!("{}", e);
+            let _ = writeln!(io::stderr(), "{}", e);
             process::exit(4);
         }
     }
-- 
2.43.0


From 663d934f44780b8850f6acf390b7133dc60fa1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 41/42] fix: do not let a backend read on after the end of an
 upload

A reader may be asked again after its end, but the next request would
then be taken for data, or awaited in vain.
---
 scutiger-lfs/src/processor.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index ecae6a1..4aee806 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -326,11 +326,20 @@ pub struct HashingReader<'a, R: io::Read, H: digest::Digest + io::Write> {
     rdr: &'a mut R,
     hash: H,
     size: u64,
+    /// Whether the end of the data has been read.
+    ///
+    /// What follows it is not part of the data anymore.
+    eof: bool,
 }
 
 impl<'a, R: io::Read, H: digest::Digest + io::Write> HashingReader<'a, R, H> {
     pub fn new(rdr: &'a mut R, hash: H) -> Self {
-        HashingReader { rdr, hash, size: 0 }
+        HashingReader {
+            rdr,
+            hash,
+            size: 0,
+            eof: false,
+        }
     }
 
     pub fn size(&self) -> u64 {
@@ -345,7 +354,11 @@ impl<'a, R: io::Read, H: digest::Digest + io::Write> HashingReader<'a, R, H> {
 
 impl<'a, R: io::Read, H: digest::Digest + io::Write> io::Read for HashingReader<'a, R, H> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() || self.eof {
+            return Ok(0);
+        }
         let count = self.rdr.read(buf)?;
+        self.eof = count == 0;
         self.hash.write_all(&buf[0..count])?;
         self.size += count as u64;
         Ok(count)
-- 
2.43.0


From f7995368b156f9631849bd9c2f11722dca4665c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:52 +0000
Subject: [PATCH 42/42] fix: do not leave out references which are packed
 meanwhile

git recent-refs listed loose references and then read them one by one, so
that those which git gc or git pack-refs had packed in between were missing
from its output.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 589b24f..ce74783 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -19,6 +19,7 @@ pub mod fixtures;
 use clap::{App, AppSettings, Arg, ArgMatches};
 use git2::{Object, Oid, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
+use std::collections::BTreeMap;
 use std::io;
 use std::io::Write;
 use std::process;
@@ -78,6 +79,19 @@ impl<'p> Program<'p> {
         Some(format!("{}", repo.find_object(oid, None).ok()?.id()))
     }
 
+    /// Returns all references.
+    fn references(repo: &Repository) -> Result<Vec<Reference<'_>>, Error> {
+        let mut refs = BTreeMap::new();
+        // If a reference is packed (by git gc, for example) after it has been listed and before it
+        // is read, it is left out.  However, it's found among the packed ones the next time.
+        for _ in 0..2 {
+            for r in repo.references()?.filter_map(Result::ok) {
+                refs.insert(r.name_bytes().to_vec(), r);
+            }
+        }
+        Ok(refs.into_iter().map(|(_, r)| r).collect())
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -111,9 +125,8 @@ impl<'p> Program<'p> {
                 Ok(Box::new(head.into_iter().chain(visited)))
             }
             SortKind::Committed => {
-                let mut refs: Vec<_> = repo
-                    .references()?
-                    .filter_map(Result::ok)
+                let mut refs: Vec<_> = Self::references(repo)?
+                    .into_iter()
                     .map(|r| (r.target(), Self::commit_date_for(&r), r))
                     .filter(|&(oid, time, _)| oid.is_some() && time.is_some())
                     .collect();
@@ -124,9 +137,8 @@ impl<'p> Program<'p> {
                 ))
             }
             SortKind::Authored => {
-                let mut refs: Vec<_> = repo
-                    .references()?
-                    .filter_map(Result::ok)
+                let mut refs: Vec<_> = Self::references(repo)?
+                    .into_iter()
                     .map(|r| (r.target(), Self::author_date_for(&r), r))
                     .filter(|&(oid, time, _)| oid.is_some() && time.is_some())
                     .collect();
-- 
2.43.0

