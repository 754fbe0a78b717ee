From c4eced49aa7049fbdc42d938a94407461a7692a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:26 +0000
Subject: [PATCH 01/36] Add simulation seams, guarded by --cfg dnssec_sim

---
 src/crypto/hash.rs |   2 +
 src/http.rs        |  22 ++++++-
 src/lib.rs         |   9 +++
 src/query.rs       |  10 +++-
 src/sim.rs         | 146 +++++++++++++++++++++++++++++++++++++++++++++
 src/validation.rs  |   6 ++
 6 files changed, 192 insertions(+), 3 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/crypto/hash.rs b/src/crypto/hash.rs
index 8b913de..ddca7cb 100644
--- a/src/crypto/hash.rs
+++ b/src/crypto/hash.rs
@@ -45,6 +45,8 @@ impl Hasher {
 	}
 
 	pub(crate) fn finish(self) -> HashResult {
+		#[cfg(dnssec_sim)]
+		crate::sim::on_hash();
 		match self {
 			Hasher::Sha1(hasher) => HashResult::Sha1(Sha1::from_engine(hasher)),
 			Hasher::Sha256(hasher) => HashResult::Sha256(Sha256::from_engine(hasher)),
diff --git a/src/http.rs b/src/http.rs
index 51a6c20..635bc81 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -1,6 +1,8 @@
 //! A simple tokio-based HTTP server which serves DNSSEC proofs in RFC 9102 format.
 
 #![deny(missing_docs)]
+// `dnssec_sim` is only ever set through RUSTFLAGS, see `sim.rs`.
+#![allow(unknown_lints, unexpected_cfgs)]
 
 extern crate alloc;
 
@@ -8,6 +10,10 @@ pub mod rr;
 pub mod ser;
 pub mod query;
 
+#[cfg(dnssec_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 #[cfg(feature = "validation")]
 mod base32;
 #[cfg(feature = "validation")]
@@ -27,11 +33,22 @@ async fn main() {
 	let bind_addr = std::env::var("BIND")
 		.expect("Please set the BIND env variable to a socket address to listen on");
 
-	let listener = tokio::net::TcpListener::bind(bind_addr).await
+	#[cfg(not(dnssec_sim))]
+	use tokio::net::TcpListener;
+	#[cfg(dnssec_sim)]
+	use sim::TokioTcpListener as TcpListener;
+	let listener = TcpListener::bind(bind_addr).await
 		.expect("Failed to bind to socket");
 	imp::run_server(listener, resolver_sockaddr).await;
 }
 
+#[cfg(all(dnssec_sim, feature = "build_server"))]
+#[doc(hidden)]
+/// Runs the server on a simulated listener.
+pub async fn sim_run_server(listener: sim::TokioTcpListener, resolver_sockaddr: std::net::SocketAddr) {
+	imp::run_server(listener, resolver_sockaddr).await
+}
+
 #[cfg(any(feature = "build_server", all(feature = "tokio", feature = "validation")))]
 mod imp {
 	use super::*;
@@ -41,7 +58,10 @@ mod imp {
 
 	use std::net::SocketAddr;
 
+	#[cfg(not(dnssec_sim))]
 	use tokio::net::TcpListener;
+	#[cfg(dnssec_sim)]
+	use sim::TokioTcpListener as TcpListener;
 	use tokio::io::{AsyncReadExt, AsyncWriteExt};
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
diff --git a/src/lib.rs b/src/lib.rs
index 6c9c577..bf2e9b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,13 +29,22 @@
 #![deny(rustdoc::broken_intra_doc_links)]
 #![deny(rustdoc::private_intra_doc_links)]
 
+// `dnssec_sim` is only ever set through RUSTFLAGS, see `sim.rs`.
+#![allow(unknown_lints, unexpected_cfgs)]
+
 #![cfg_attr(not(feature = "std"), no_std)]
 extern crate alloc;
+#[cfg(all(dnssec_sim, not(feature = "std")))]
+extern crate std;
 
 pub mod rr;
 pub mod ser;
 pub mod query;
 
+#[cfg(dnssec_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 #[cfg(feature = "validation")]
 mod base32;
 #[cfg(feature = "validation")]
diff --git a/src/query.rs b/src/query.rs
index 1e02e2b..87dbfd3 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -6,12 +6,18 @@ use alloc::vec;
 use alloc::vec::Vec;
 
 #[cfg(feature = "std")]
-use std::net::{SocketAddr, TcpStream};
+use std::net::SocketAddr;
+#[cfg(all(feature = "std", not(dnssec_sim)))]
+use std::net::TcpStream;
+#[cfg(all(feature = "std", dnssec_sim))]
+use crate::sim::TcpStream;
 #[cfg(feature = "std")]
 use std::io::{Read, Write, Error, ErrorKind};
 
-#[cfg(feature = "tokio")]
+#[cfg(all(feature = "tokio", not(dnssec_sim)))]
 use tokio_crate::net::TcpStream as TokioTcpStream;
+#[cfg(all(feature = "tokio", dnssec_sim))]
+use crate::sim::TokioTcpStream;
 #[cfg(feature = "tokio")]
 use tokio_crate::io::{AsyncReadExt, AsyncWriteExt};
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..773b010
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,146 @@
+//! Seams for deterministic simulation testing.
+//!
+//! This module only exists when building with `--cfg dnssec_sim`. It replaces the TCP types used
+//! by the `query` module and the HTTP server with streams whose every read, write, connect and
+//! accept is decided by a simulator, and lets that simulator add its own trust anchors and observe
+//! how much cryptographic work is done.
+
+#![allow(missing_docs)]
+
+use core::pin::Pin;
+use core::task::{Context, Poll};
+
+use std::io;
+use std::net::SocketAddr;
+use std::sync::OnceLock;
+use std::vec::Vec;
+
+/// The functions through which a simulator drives this crate. Streams, listeners and connection
+/// attempts are named by opaque ids handed out by the simulator.
+pub struct Hooks {
+	/// Additional trust anchors for the root, as (key_tag, alg, digest_type, digest).
+	pub trust_anchors: fn() -> Vec<(u16, u8, u8, Vec<u8>)>,
+	/// Called once for every public key operation.
+	pub on_signature_check: fn(),
+	/// Called once for every hash calculated.
+	pub on_hash: fn(),
+	pub connect: fn(SocketAddr) -> io::Result<u64>,
+	pub read: fn(u64, &mut [u8]) -> io::Result<usize>,
+	pub write: fn(u64, &[u8]) -> io::Result<usize>,
+	pub start_connect: fn(SocketAddr) -> u64,
+	pub poll_connect: fn(u64, &mut Context<'_>) -> Poll<io::Result<()>>,
+	pub poll_read: fn(u64, &mut Context<'_>, &mut [u8]) -> Poll<io::Result<usize>>,
+	pub poll_write: fn(u64, &mut Context<'_>, &[u8]) -> Poll<io::Result<usize>>,
+	pub poll_accept: fn(u64, &mut Context<'_>) -> Poll<io::Result<u64>>,
+	pub shutdown: fn(u64) -> io::Result<()>,
+	pub close: fn(u64),
+}
+
+static HOOKS: OnceLock<Hooks> = OnceLock::new();
+
+/// Installs the simulator. Must be called before anything else in this crate is used.
+pub fn install(hooks: Hooks) {
+	if HOOKS.set(hooks).is_err() { panic!("The simulator was already installed"); }
+}
+
+#[allow(unused)]
+fn hooks() -> &'static Hooks { HOOKS.get().expect("No simulator was installed") }
+
+#[allow(unused)]
+pub(crate) fn trust_anchors() -> Vec<(u16, u8, u8, Vec<u8>)> {
+	HOOKS.get().map(|h| (h.trust_anchors)()).unwrap_or(Vec::new())
+}
+#[allow(unused)]
+pub(crate) fn on_signature_check() { if let Some(h) = HOOKS.get() { (h.on_signature_check)() } }
+#[allow(unused)]
+pub(crate) fn on_hash() { if let Some(h) = HOOKS.get() { (h.on_hash)() } }
+
+/// Stands in for [`std::net::TcpStream`]
+#[derive(Debug)]
+pub struct TcpStream(u64);
+impl TcpStream {
+	pub fn connect(addr: SocketAddr) -> io::Result<Self> { (hooks().connect)(addr).map(Self) }
+	pub fn connect_timeout(addr: &SocketAddr, _: core::time::Duration) -> io::Result<Self> {
+		Self::connect(*addr)
+	}
+	pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
+	pub fn set_read_timeout(&self, _: Option<core::time::Duration>) -> io::Result<()> { Ok(()) }
+	pub fn set_write_timeout(&self, _: Option<core::time::Duration>) -> io::Result<()> { Ok(()) }
+	pub fn shutdown(&self, _: std::net::Shutdown) -> io::Result<()> { (hooks().shutdown)(self.0) }
+}
+impl io::Read for TcpStream {
+	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { (hooks().read)(self.0, buf) }
+}
+impl io::Write for TcpStream {
+	fn write(&mut self, buf: &[u8]) -> io::Result<usize> { (hooks().write)(self.0, buf) }
+	fn flush(&mut self) -> io::Result<()> { Ok(()) }
+}
+impl io::Read for &TcpStream {
+	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { (hooks().read)(self.0, buf) }
+}
+impl io::Write for &TcpStream {
+	fn write(&mut self, buf: &[u8]) -> io::Result<usize> { (hooks().write)(self.0, buf) }
+	fn flush(&mut self) -> io::Result<()> { Ok(()) }
+}
+impl Drop for TcpStream {
+	fn drop(&mut self) { (hooks().close)(self.0) }
+}
+
+/// Stands in for tokio's `TcpStream`
+#[cfg(feature = "tokio")]
+#[derive(Debug)]
+pub struct TokioTcpStream(u64);
+#[cfg(feature = "tokio")]
+impl TokioTcpStream {
+	pub async fn connect(addr: SocketAddr) -> io::Result<Self> {
+		// Build the stream first so that dropping the future closes it.
+		let stream = Self((hooks().start_connect)(addr));
+		core::future::poll_fn(|cx| (hooks().poll_connect)(stream.0, cx)).await?;
+		Ok(stream)
+	}
+	pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
+}
+#[cfg(feature = "tokio")]
+impl tokio_crate::io::AsyncRead for TokioTcpStream {
+	fn poll_read(
+		self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio_crate::io::ReadBuf<'_>
+	) -> Poll<io::Result<()>> {
+		let unfilled = buf.initialize_unfilled();
+		match (hooks().poll_read)(self.0, cx, unfilled) {
+			Poll::Ready(Ok(len)) => { buf.advance(len); Poll::Ready(Ok(())) },
+			Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
+			Poll::Pending => Poll::Pending,
+		}
+	}
+}
+#[cfg(feature = "tokio")]
+impl tokio_crate::io::AsyncWrite for TokioTcpStream {
+	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
+		(hooks().poll_write)(self.0, cx, buf)
+	}
+	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
+		Poll::Ready(Ok(()))
+	}
+	fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
+		Poll::Ready((hooks().shutdown)(self.0))
+	}
+}
+#[cfg(feature = "tokio")]
+impl Drop for TokioTcpStream {
+	fn drop(&mut self) { (hooks().close)(self.0) }
+}
+
+/// Stands in for tokio's `TcpListener`
+#[cfg(feature = "tokio")]
+#[derive(Debug)]
+pub struct TokioTcpListener(u64);
+#[cfg(feature = "tokio")]
+impl TokioTcpListener {
+	/// Builds a listener which accepts the connections the simulator offers on the given id.
+	pub fn from_id(id: u64) -> Self { Self(id) }
+	pub async fn bind(_: std::string::String) -> io::Result<Self> { Ok(Self(0)) }
+	pub async fn accept(&self) -> io::Result<(TokioTcpStream, SocketAddr)> {
+		let id = core::future::poll_fn(|cx| (hooks().poll_accept)(self.0, cx)).await?;
+		Ok((TokioTcpStream(id), SocketAddr::from(([127, 0, 0, 1], 1))))
+	}
+}
diff --git a/src/validation.rs b/src/validation.rs
index c7f0450..670509b 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -30,6 +30,10 @@ pub fn root_hints() -> Vec<DS> {
 		name: ".".try_into().unwrap(), key_tag: 47005, alg: 13, digest_type: 2,
 		digest: hex_lit::hex!("2eb6e9f2480126691594d649a5a613de3052e37861634641bb568746f2ffc4d4").to_vec(),
 	});
+	#[cfg(dnssec_sim)]
+	for (key_tag, alg, digest_type, digest) in crate::sim::trust_anchors() {
+		res.push(DS { name: ".".try_into().unwrap(), key_tag, alg, digest_type, digest });
+	}
 	res
 }
 
@@ -118,6 +122,8 @@ where Keys: IntoIterator<Item = &'a DnsKey> {
 				record.write_u16_len_prefixed_data(&mut signed_data);
 			}
 
+			#[cfg(dnssec_sim)]
+			crate::sim::on_signature_check();
 			let sig_validation = match sig.alg {
 				8|10 => {
 					let alg = if sig.alg == 8 {
-- 
2.43.0


From 3ceeaed5d407ec6678f2ab50cf94467acfd6c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:18 +0000
Subject: [PATCH 02/36] fix: check label boundaries when deciding whether a
 zone may sign a name

Comparing strings meant that e.g. example.com could sign records for
notexample.com.
---
 src/validation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 670509b..025e294 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -296,6 +296,15 @@ fn resolve_time(time: u32) -> u64 {
 	}
 }
 
+/// Whether `name` is `zone` or below it, honoring label boundaries.
+fn name_in_zone(name: &str, zone: &str) -> bool {
+	if zone == "." { return true; }
+	match name.strip_suffix(zone) {
+		Some(prefix) => prefix.is_empty() || prefix.ends_with('.'),
+		None => false,
+	}
+}
+
 fn nsec_ord(a: &str, b: &str) -> Ordering {
 	let mut a_label_iter = a.rsplit(".");
 	let mut b_label_iter = b.rsplit(".");
@@ -392,7 +401,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
-			if !rrsig.name.ends_with(zone) { return Err(ValidationError::Invalid); }
+			if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }
 			let signed_records = inp.iter()
 				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
 			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
-- 
2.43.0


From 08b21dbe99a5e2d6a4a7edeaba35799d354edd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:18 +0000
Subject: [PATCH 03/36] fix: never handle a zone twice in verify_rr_stream

Verification of a stream without any DS records (i.e. one which only
contains records of the root zone), or where a zone signs a DS record
for itself or one above it, never terminated.
---
 src/validation.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 025e294..b6f2b30 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -367,19 +367,14 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
+	// Each zone is only handled once, no matter how many delegations to it there are, as otherwise
+	// zones delegating to each other (or themselves) could keep us busy forever.
+	let mut seen_zones = vec!["."];
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
 	let mut min_ttl = u32::MAX;
-	'next_zone: while zone == "." || !pending_ds_sets.is_empty() {
-		let next_ds_set;
-		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
-			next_ds_set = Some(ds_set);
-			zone = next_zone;
-		} else {
-			debug_assert_eq!(zone, ".");
-			next_ds_set = None;
-		}
-
+	let mut next_ds_set = None;
+	'next_zone: loop {
 		let dnskey_rrsigs = inp.iter()
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
 			.filter(|rrsig| rrsig.name.as_str() == zone && rrsig.ty == DnsKey::TYPE);
@@ -419,7 +414,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
-					if !pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str()) {
+					if !seen_zones.contains(&rrsig.name.as_str()) {
+						seen_zones.push(&rrsig.name);
 						pending_ds_sets.push((
 							&rrsig.name,
 							signed_records.filter_map(|rr|
@@ -451,7 +447,12 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				},
 			}
 		}
-		continue 'next_zone;
+		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
+			next_ds_set = Some(ds_set);
+			zone = next_zone;
+		} else {
+			break 'next_zone;
+		}
 	}
 	if res.is_empty() { return Err(ValidationError::Invalid) }
 	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }
-- 
2.43.0


From 25e8b52b9f029ca4e86cd4df4f9a6d5d215d1253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:18 +0000
Subject: [PATCH 04/36] fix: terminate when resolving CNAME or DNAME cycles

---
 src/validation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index b6f2b30..373f2ad 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -561,7 +561,9 @@ impl<'a> VerifiedRRStream<'a> {
 	pub fn resolve_name<'b>(&self, name_param: &'b Name) -> Vec<&'a RR> where 'a: 'b {
 		let mut dname_name;
 		let mut name = name_param;
-		loop {
+		// CNAMEs and DNAMEs may form a cycle, so only follow so many. Any record being visited more
+		// than once is only possible via DNAMEs, which are rare.
+		for _ in 0..self.verified_rrs.len() + 255 {
 			let mut cname_search = self.verified_rrs.iter()
 				.filter(|rr| rr.name() == name)
 				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });
@@ -588,6 +590,7 @@ impl<'a> VerifiedRRStream<'a> {
 
 			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();
 		}
+		Vec::new()
 	}
 }
 
-- 
2.43.0


From f1e06256ea9c4ac8932baf8f69932aaad5157eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:18 +0000
Subject: [PATCH 05/36] fix: only apply DNAMEs to names strictly below them

A DNAME was applied to any name ending in the same characters as well
as to its own name, and pointing one at (or owning one at) the root
resulted in malformed names.
---
 src/validation.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 373f2ad..3ceb881 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -573,11 +573,13 @@ impl<'a> VerifiedRRStream<'a> {
 			}
 
 			let mut dname_search = self.verified_rrs.iter()
-				.filter(|rr| name.ends_with(&**rr.name()))
+				.filter(|rr| name != rr.name() && name_in_zone(name, rr.name()))
 				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None });
 			if let Some(dname) = dname_search.next() {
-				let prefix = name.strip_suffix(&*dname.name).expect("We just filtered for this");
-				let resolved_name = prefix.to_owned() + &dname.delegation_name;
+				// Keep the . before the suffix, except where the suffix is nothing but a .
+				let suffix_len = if dname.name.as_str() == "." { 0 } else { dname.name.len() };
+				let mut resolved_name = name[..name.len() - suffix_len].to_owned();
+				if dname.delegation_name.as_str() != "." { resolved_name += &dname.delegation_name; }
 				dname_name = if let Ok(name) = resolved_name.try_into() {
 					name
 				} else {
-- 
2.43.0


From a352f9f520596c38cc2ee93526ea265e9b62d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:06 +0000
Subject: [PATCH 06/36] fix: resolve wrapped RRSIG times to the right second

The 32-bit counter wraps after 2^32 seconds, not 2^32 - 1.
---
 src/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 3ceb881..3f32eb3 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -290,7 +290,7 @@ fn resolve_time(time: u32) -> u64 {
 	// any timestamps before then are actually past 2106 instead.
 	// We ignore leap years for simplicity.
 	if time < 60*60*24*365*27 {
-		(time as u64) + (u32::MAX as u64)
+		(time as u64) + (1 << 32)
 	} else {
 		time.into()
 	}
-- 
2.43.0


From 8f9bfd12f2cd100941cb64276765625a3ca8febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:06 +0000
Subject: [PATCH 07/36] fix: ignore DNSKEY signatures by keys without a DS

Otherwise whether a zone which signs its DNSKEYs with its ZSK, too, was
considered valid depended on the order of the signatures.
---
 src/validation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 3f32eb3..19b39f8 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -227,6 +227,9 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 
 	let mut found_unsupported_alg = false;
 	for sig in sigs {
+		// Zones commonly sign their DNSKEYs with keys which no DS commits to as well. We cannot
+		// check such signatures, but they don't make any others any less valid.
+		if !validated_dnskeys.iter().any(|k| k.alg == sig.alg && k.key_tag() == sig.key_tag) { continue; }
 		match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {
 			Ok(()) => return Ok(sig),
 			Err(ValidationError::UnsupportedAlgorithm) => {
-- 
2.43.0


From c67536cccf742fe68cc69e51106d1e0be4823a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:06 +0000
Subject: [PATCH 08/36] fix: only accept NSEC/NSEC3 records from the zone of
 the wildcard

A child zone could otherwise prove that names in its parent do not exist.
---
 src/validation.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 19b39f8..ce55266 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -369,6 +369,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut zone = ".";
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
+	// All verified NSec/NSec3 records, with the zone which signed them.
+	let mut verified_nsecs: Vec<(&RR, &str)> = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
 	// Each zone is only handled once, no matter how many delegations to it there are, as otherwise
 	// zones delegating to each other (or themselves) could keep us busy forever.
@@ -445,6 +447,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
 					}
 					for record in signed_records {
+						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
+							verified_nsecs.push((record, zone));
+						}
 						if !res.contains(&record) { res.push(record); }
 					}
 				},
@@ -463,9 +468,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
 	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
-		let nsec_search = res.iter()
-			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None })
-			.filter(|nsec| nsec.name.ends_with(zone.as_str()));
+		// Only the zone which the wildcard is in can say which names exist in it.
+		let nsec_search = verified_nsecs.iter()
+			.filter(|(_, nsec_zone)| *nsec_zone == zone.as_str())
+			.filter_map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
 			let name_matches = nsec.name.as_str() == name;
 			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
@@ -476,9 +482,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				continue 'proof_search_loop;
 			}
 		}
-		let nsec3_search = res.iter()
-			.filter_map(|rr| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None })
-			.filter(|nsec3| nsec3.name.ends_with(zone.as_str()));
+		let nsec3_search = verified_nsecs.iter()
+			.filter(|(_, nsec_zone)| *nsec_zone == zone.as_str())
+			.filter_map(|(rr, _)| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None });
 
 		// Because we will only ever have two entries, a Vec is simpler than a map here.
 		let mut nsec3params_to_name_hash = Vec::new();
-- 
2.43.0


From eb641fd1363856b3b9d3da77031472041351c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:06 +0000
Subject: [PATCH 09/36] fix: do not accept wildcards for names which exist

A wildcard does not apply to a name which has records of any type, or
which has names below it, so an NSEC or NSEC3 record matching the name
proves that the wildcard must not be used rather than that it may be.
---
 src/validation.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index ce55266..5967812 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -339,7 +339,7 @@ fn nsec_ord(a: &str, b: &str) -> Ordering {
 		}
 	}
 }
-fn nsec_ord_extra<T, U>(a: &(&str, T, U), b: &(&str, T, U)) -> Ordering {
+fn nsec_ord_extra<T>(a: &(&str, T), b: &(&str, T)) -> Ordering {
 	nsec_ord(a.0, b.0)
 }
 
@@ -444,7 +444,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// a.b.c.
 						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
 							.ok_or(ValidationError::Invalid)?;
-						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
+						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
 					}
 					for record in signed_records {
 						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
@@ -467,18 +467,19 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
-	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
+	'proof_search_loop: while let Some((name, zone)) = rrs_needing_non_existence_proofs.pop() {
 		// Only the zone which the wildcard is in can say which names exist in it.
 		let nsec_search = verified_nsecs.iter()
 			.filter(|(_, nsec_zone)| *nsec_zone == zone.as_str())
 			.filter_map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
-			let name_matches = nsec.name.as_str() == name;
-			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
-				nsec_ord(&nsec.next_name, name) == Ordering::Greater;
-			if (name_matches && !nsec.types.contains_type(ty)) || name_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (name_matches && nsec.types.contains_type(*t)));
+			// If there are any records at (or below) the name, no matter of which type, wildcards
+			// do not apply to it.
+			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
+				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
+				!name_in_zone(&nsec.next_name, name);
+			if name_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
@@ -537,12 +538,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_matches = &start_hash[..] == name_hash.as_ref();
 			let hash_contained =
-				&start_hash[..] <= name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
-			if (hash_matches && !nsec3.types.contains_type(ty)) || hash_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (hash_matches && nsec3.types.contains_type(*t)));
+				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			if hash_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From 870f4d0cf66ab8c82aefb95d47ac213e497cee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:06 +0000
Subject: [PATCH 10/36] fix: accept the last NSEC3 record of a zone

Its next name is the first in the zone, i.e. it covers hashes beyond either
end of the range.
---
 src/validation.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 5967812..cfd61b1 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -538,8 +538,14 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_contained =
-				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			let after_start = &start_hash[..] < name_hash.as_ref();
+			let before_next = &nsec3.next_name_hash[..] > name_hash.as_ref();
+			let hash_contained = if start_hash < nsec3.next_name_hash {
+				after_start && before_next
+			} else {
+				// The last NSec3 record in a zone refers back to the first
+				&start_hash[..] != name_hash.as_ref() && (after_start || before_next)
+			};
 			if hash_contained {
 				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
-- 
2.43.0


From f3e400ea8230c2bf1b3951eb44d85efb0d610c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:06 +0000
Subject: [PATCH 11/36] fix: do not require denial proofs for literal wildcards

The labels field in an RRSIG never counts a leading asterisk, so nothing was
synthesized if only the asterisk is missing. While at it, avoid overflowing
on a labels field of 255.
---
 src/validation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index cfd61b1..1aa26a9 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -430,7 +430,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 					}
 				},
 				_ => {
-					if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {
+					// The labels field does not count the asterisk if the wildcard was itself asked for
+					let is_literal_wildcard = rrsig.name.starts_with("*.") &&
+						rrsig.labels == rrsig.name.labels() - 1;
+					if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE && !is_literal_wildcard {
 						if rrsig.ty == NSec3::TYPE {
 							// NSEC3 records should never appear on wildcards, so treat the
 							// whole proof as invalid
@@ -442,7 +445,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// signed as *.c, we want a proof for nothing being in b.c.
 						// Alternatively, if it was signed as *.b.c, we'd want a proof for
 						// a.b.c.
-						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
+						let proof_name = rrsig.labels.checked_add(1)
+							.and_then(|labels| rrsig.name.trailing_n_labels(labels))
 							.ok_or(ValidationError::Invalid)?;
 						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
 					}
-- 
2.43.0


From 7f9458fd7d4eda7dc6d0dc28425d19fa882ef974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 12/36] fix: reject oversized NSEC type bitmap windows

Windows are at most 32 bytes, anything longer ran over the end of the bitmap
and panicked.
---
 src/ser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ser.rs b/src/ser.rs
index dfd8993..c188f93 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -66,6 +66,7 @@ pub(crate) fn read_nsec_types_bitmap(inp: &mut &[u8]) -> Result<[u8; 8192], ()>
 		let block = *inp.get(0).ok_or(())?;
 		let len = *inp.get(1).ok_or(())?;
 		*inp = &inp[2..];
+		if len > 32 { return Err(()); }
 		if inp.len() < len as usize { return Err(()); }
 		res[block as usize * 32..block as usize * 32 + len as usize]
 			.copy_from_slice(&inp[..len as usize]);
-- 
2.43.0


From b02327035618f895cd34f808301a6d2ccc8651b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 13/36] fix: reject records with trailing data

The data comes from the network, so whatever follows the last field must not
cause a panic (with debug assertions) or be dropped silently.
---
 src/rr.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index fbe8f65..e9d64db 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -382,7 +382,7 @@ impl StaticRecord for CName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -413,7 +413,7 @@ impl StaticRecord for DName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -705,7 +705,7 @@ impl StaticRecord for NSec {
 			name, next_name: read_wire_packet_name(&mut data, wire_packet)?,
 			types: NSecTypeMask(read_nsec_types_bitmap(&mut data)?),
 		};
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -763,7 +763,7 @@ impl StaticRecord for NSec3 {
 			next_name_hash: read_u8_len_prefixed_bytes(&mut data)?,
 			types: NSecTypeMask(read_nsec_types_bitmap(&mut data)?),
 		};
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -858,7 +858,7 @@ impl StaticRecord for NS {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-- 
2.43.0


From 006677b22081308ad9c036a49c35ff72f6222fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 14/36] fix: write the right length for empty TXT records

They are one empty string, i.e. one byte.
---
 src/rr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index e9d64db..edc9754 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -296,7 +296,9 @@ impl StaticRecord for Txt {
 		Ok(Txt { name, data: parsed_data })
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-		let len = (self.data.len() + (self.data.len() + 254) / 255) as u16;
+		// Even an empty record contains one (empty) string
+		let strings = cmp::max(1, (self.data.len() + 254) / 255);
+		let len = (self.data.len() + strings) as u16;
 		out.extend_from_slice(&len.to_be_bytes());
 
 		let mut data_write = &self.data[..];
-- 
2.43.0


From 40e3fa335d612db0ce807e90626bc60637e7d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 15/36] fix: reject RRSIGs which are too large to write

With its signer name decompressed an RRSIG can be longer than the 16-bit
length field allows, which overflowed when writing it.
---
 src/rr.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index edc9754..d04c66d 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -603,14 +603,18 @@ impl StaticRecord for RRSig {
 		out
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
-		Ok(RRSig {
+		let res = RRSig {
 			name, ty: read_u16(&mut data)?, alg: read_u8(&mut data)?,
 			labels: read_u8(&mut data)?, orig_ttl: read_u32(&mut data)?,
 			expiration: read_u32(&mut data)?, inception: read_u32(&mut data)?,
 			key_tag: read_u16(&mut data)?,
 			key_name: read_wire_packet_name(&mut data, wire_packet)?,
 			signature: data.to_vec(),
-		})
+		};
+		// The key_name may have been compressed, make sure we can write it again uncompressed
+		let fixed_len = 2 + 1 + 1 + 4*3 + 2 + name_len(&res.key_name) as usize;
+		if fixed_len + res.signature.len() > u16::MAX as usize { return Err(()); }
+		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
 		let len = 2 + 1 + 1 + 4*3 + 2 + name_len(&self.key_name) + self.signature.len() as u16;
-- 
2.43.0


From 9363204e7424d94d532e637df3886c72e2d02a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 16/36] fix: reject names with empty labels

An empty label ends a name on the wire, so everything which follows it was
misread.
---
 src/rr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index d04c66d..fb27c9f 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -61,8 +61,11 @@ impl TryFrom<String> for Name {
 		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
 		if s.len() > 255 { return Err(()); }
 		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"') { return Err(()); }
-		for label in s.split(".") {
-			if label.len() > 63 { return Err(()); }
+		if s != "." {
+			// As there's always a trailing . we have to ignore the last (empty) label
+			for label in s[..s.len() - 1].split(".") {
+				if label.is_empty() || label.len() > 63 { return Err(()); }
+			}
 		}
 
 		Ok(Name(s.to_ascii_lowercase()))
-- 
2.43.0


From 302756d22cba248010a2efdc22d8d578fba0be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 17/36] fix: sort NS records in canonical order

Records are signed in the order of their wire encoding, where each label is
preceded by its length.
---
 src/rr.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index fb27c9f..35ecfb5 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -846,7 +846,7 @@ impl StaticRecord for AAAA {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A Name Server resource record, which indicates the server responsible for handling queries for
 /// a zone.
 pub struct NS {
@@ -859,6 +859,21 @@ pub struct NS {
 	/// zone.
 	pub name_server: Name,
 }
+impl Ord for NS {
+	fn cmp(&self, o: &NS) -> Ordering {
+		self.name.cmp(&o.name)
+			.then_with(|| {
+				// Compare in wire encoding form
+				let (mut wire, mut o_wire) = (Vec::with_capacity(256), Vec::with_capacity(256));
+				write_name(&mut wire, &self.name_server);
+				write_name(&mut o_wire, &o.name_server);
+				wire.cmp(&o_wire)
+			})
+	}
+}
+impl PartialOrd for NS {
+	fn partial_cmp(&self, o: &NS) -> Option<Ordering> { Some(self.cmp(o)) }
+}
 impl StaticRecord for NS {
 	const TYPE: u16 = 2;
 	fn name(&self) -> &Name { &self.name }
-- 
2.43.0


From e4b3307a7d05b84b6f7b9bf3e2267689e44eca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 18/36] fix: do not panic when extending a QueryBuf beyond
 u16::MAX

As documented, though the buffer now simply ends at the limit.
---
 src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 87dbfd3..e03cd7f 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -54,7 +54,8 @@ impl QueryBuf {
 	/// If the total length of this buffer exceeds [`u16::MAX`] after appending, the buffer's state
 	/// is undefined, however pushing data beyond [`u16::MAX`] will not panic.
 	pub fn extend_from_slice(&mut self, sl: &[u8]) {
-		let new_len = self.len.saturating_add(sl.len() as u16);
+		let new_len = cmp::min(self.len as usize + sl.len(), u16::MAX as usize) as u16;
+		let sl = &sl[..(new_len - self.len) as usize];
 		let was_heap = self.len > STACK_BUF_LIMIT;
 		let is_heap = new_len > STACK_BUF_LIMIT;
 		if was_heap != is_heap {
-- 
2.43.0


From 8ed417e595ea3d10200128faf83d4672fa4f08a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 19/36] fix: check all four bits of the response code

---
 src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index e03cd7f..91b2157 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -135,7 +135,7 @@ fn handle_response(resp: &[u8], proof: &mut Vec<u8>, rrsig_key_names: &mut Vec<N
 	if flags & 0b1000_0000_0000_0000 == 0 {
 		return Err(());
 	}
-	if flags & 0b0111_1010_0000_0111 != 0 {
+	if flags & 0b0111_1010_0000_1111 != 0 {
 		return Err(());
 	}
 	if flags & 0b10_0000 == 0 {
-- 
2.43.0


From a9ba0e37ad2f267ab7d0d39a3a61626bf80632a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 20/36] fix: do not keep half of a rejected response in the
 proof

---
 src/query.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 91b2157..05ec137 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -257,7 +257,15 @@ impl ProofBuilder {
 		if self.pending_queries == 0 { return Err(()); }
 
 		let mut rrsig_key_names = Vec::new();
-		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)?;
+		let proof_len = self.proof.len();
+		let min_ttl = match handle_response(&resp, &mut self.proof, &mut rrsig_key_names) {
+			Ok(min_ttl) => min_ttl,
+			Err(()) => {
+				// Drop any records which were read before we ran into the error
+				self.proof.truncate(proof_len);
+				return Err(());
+			},
+		};
 		self.min_ttl = cmp::min(self.min_ttl, min_ttl);
 		self.pending_queries -= 1;
 
-- 
2.43.0


From 3bcc1781e37d25e9e9ebea8eb674b1cc4823c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 21/36] fix: keep serving after failing to accept a connection

---
 src/http.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 635bc81..28375da 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -66,7 +66,15 @@ mod imp {
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
 		loop {
-			let (mut socket, _) = listener.accept().await.expect("Failed to accept new TCP connection");
+			let mut socket = match listener.accept().await {
+				Ok((socket, _)) => socket,
+				Err(_) => {
+					// The client may be gone again already or we may have too many open connections,
+					// neither of which is a reason to stop serving others.
+					tokio::task::yield_now().await;
+					continue;
+				},
+			};
 			tokio::spawn(async move {
 				let mut response = ("400 Bad Request", "Bad Request");
 				'ret_err: loop { // goto label
-- 
2.43.0


From 1e8b152d9392f2de35843ae59215287dbf2fc31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 22/36] fix: only require the HTTP request line to be UTF-8

Otherwise whether a request with non-UTF-8 header values was served depended
on how it was split into packets.
---
 src/http.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 28375da..ddb42fa 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -96,13 +96,11 @@ mod imp {
 						}
 					}
 					let request;
-					if let Ok(s) = std::str::from_utf8(&buf[..buf_pos]) {
-						if let Some((r, _)) = s.split_once("\r\n") {
-							request = r;
-						} else {
-							debug_assert!(false);
-							break 'ret_err;
-						}
+					// We may have read any part of what follows, only the first line needs to be valid.
+					let line_len = buf[..buf_pos].windows(2).position(|window| window == b"\r\n");
+					debug_assert!(line_len.is_some());
+					if let Ok(s) = std::str::from_utf8(&buf[..line_len.unwrap_or(0)]) {
+						request = s;
 					} else {
 						break 'ret_err;
 					}
-- 
2.43.0


From 484c41eb20391a1325399ce5e33e4a55b35541d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:33 +0000
Subject: [PATCH 23/36] fix: compare TXT records in canonical order everywhere

Only PartialOrd did, while which of the two orders sorting an RRset used was
up to the standard library.
---
 src/rr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 35ecfb5..a344d05 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -246,7 +246,7 @@ impl Record for RR {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A text resource record, containing arbitrary text data
 pub struct Txt {
 	/// The name this record is at.
@@ -260,8 +260,11 @@ pub struct Txt {
 /// The wire type for TXT records
 pub const TXT_TYPE: u16 = 16;
 impl PartialOrd for Txt {
-	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> {
-		Some(self.name.cmp(&o.name)
+	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }
+}
+impl Ord for Txt {
+	fn cmp(&self, o: &Txt) -> Ordering {
+		self.name.cmp(&o.name)
 			.then_with(|| {
 				// Compare in wire encoding form, i.e. compare in 255-byte chunks
 				for i in 1..(self.data.len() / 255) + 2 {
@@ -273,7 +276,7 @@ impl PartialOrd for Txt {
 					if !slice_cmp.is_eq() { return slice_cmp; }
 				}
 				Ordering::Equal
-			}))
+			})
 	}
 }
 impl StaticRecord for Txt {
-- 
2.43.0


From 19e7724d787d55f3893d7cc2b4f6d9046d7bb886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:05 +0000
Subject: [PATCH 24/36] fix: escape backslashes in names when generating JSON

---
 src/rr.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index a344d05..99e8d9d 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -23,6 +23,8 @@ pub struct Name(String);
 impl Name {
 	/// Gets the underlying human-readable domain name
 	pub fn as_str(&self) -> &str { &self.0 }
+	/// Gets the name in a form which can go between the quotes of a JSON string
+	fn json(&self) -> String { self.0.replace('\\', "\\\\") }
 	/// Gets the number of labels in this name
 	pub fn labels(&self) -> u8 {
 		if self.as_str() == "." {
@@ -285,10 +287,10 @@ impl StaticRecord for Txt {
 	fn json(&self) -> String {
 		if let Ok(s) = core::str::from_utf8(&self.data) {
 			if s.chars().all(|c| !c.is_control() && c != '"' && c != '\\') {
-				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.0, s);
+				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.json(), s);
 			}
 		}
-		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.0, &self.data[..])
+		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.json(), &self.data[..])
 	}
 	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		let mut parsed_data = Vec::with_capacity(data.len().saturating_sub(1));
@@ -348,7 +350,7 @@ impl StaticRecord for TLSA {
 		let mut out = String::with_capacity(128+self.data.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"tlsa\",\"name\":\"{}\",\"usage\":{},\"selector\":{},\"data_ty\":{},\"data\":\"",
-			self.name.0, self.cert_usage, self.selector, self.data_ty
+			self.name.json(), self.cert_usage, self.selector, self.data_ty
 		).expect("Write to a String shouldn't fail");
 		for c in self.data.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -386,7 +388,7 @@ impl StaticRecord for CName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"cname\",\"name\":\"{}\",\"canonical_name\":\"{}\"}}",
-			self.name.0, self.canonical_name.0)
+			self.name.json(), self.canonical_name.json())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -417,7 +419,7 @@ impl StaticRecord for DName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"dname\",\"name\":\"{}\",\"delegation_name\":\"{}\"}}",
-			self.name.0, self.delegation_name.0)
+			self.name.json(), self.delegation_name.json())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -453,7 +455,7 @@ impl StaticRecord for DnsKey {
 		let mut out = String::with_capacity(128+self.pubkey.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"dnskey\",\"name\":\"{}\",\"flags\":{},\"protocol\":{},\"alg\":{},\"pubkey\":\"",
-			self.name.0, self.flags, self.protocol, self.alg
+			self.name.json(), self.flags, self.protocol, self.alg
 		).expect("Write to a String shouldn't fail");
 		for c in self.pubkey.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -524,7 +526,7 @@ impl StaticRecord for DS {
 		let mut out = String::with_capacity(128+self.digest.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"ds\",\"name\":\"{}\",\"key_tag\":{},\"alg\":{},\"digest_type\":{},\"digest\":\"",
-			self.name.0, self.key_tag, self.alg, self.digest_type
+			self.name.json(), self.key_tag, self.alg, self.digest_type
 		).expect("Write to a String shouldn't fail");
 		for c in self.digest.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -599,7 +601,7 @@ impl StaticRecord for RRSig {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"ds\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\"{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
-			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
+			self.name.json(), self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.json()
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -706,7 +708,7 @@ impl StaticRecord for NSec {
 		let mut out = String::with_capacity(256 + self.next_name.len());
 		write!(&mut out,
 			"{{\"type\":\"nsec\",\"name\":\"{}\",\"next_name\":\"{}\",\"types\":",
-			self.name.0, self.next_name.0,
+			self.name.json(), self.next_name.json(),
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -762,7 +764,7 @@ impl StaticRecord for NSec3 {
 		let mut out = String::with_capacity(256);
 		write!(&mut out,
 			"{{\"type\":\"nsec3\",\"name\":\"{}\",\"hash_algo\":{},\"flags\":{},\"hash_iterations\":{},\"salt\":{:?},\"next_name_hash\":{:?},\"types\":",
-			self.name.0, self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
+			self.name.json(), self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -807,7 +809,7 @@ impl StaticRecord for A {
 	const TYPE: u16 = A_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 4 { return Err(()); }
@@ -835,7 +837,7 @@ impl StaticRecord for AAAA {
 	const TYPE: u16 = AAAA_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 16 { return Err(()); }
@@ -881,7 +883,7 @@ impl StaticRecord for NS {
 	const TYPE: u16 = 2;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.0, self.name_server.0)
+		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.json(), self.name_server.json())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-- 
2.43.0


From 75f5ec3720fae174e47a6bdeaf1f613feac06ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:05 +0000
Subject: [PATCH 25/36] fix: generate valid JSON for RRSIG records

---
 src/rr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index 99e8d9d..9035f17 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -600,7 +600,7 @@ impl StaticRecord for RRSig {
 	fn json(&self) -> String {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
-			"{{\"type\":\"ds\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\"{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
+			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
 			self.name.json(), self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.json()
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
-- 
2.43.0


From c184777425014e67cf638c4a9ee310873d5fde1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:22 +0000
Subject: [PATCH 26/36] fix: reject names which are longer than 255 bytes in
 wire form

---
 src/rr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 9035f17..4349835 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -16,7 +16,7 @@ use crate::ser::*;
 
 /// A valid domain name.
 ///
-/// It must end with a ".", be no longer than 255 bytes, consist of only printable ASCII
+/// It must end with a ".", be no longer than 254 bytes (i.e. 255 in wire form), consist of only printable ASCII
 /// characters and each label may be no longer than 63 bytes.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 pub struct Name(String);
@@ -61,7 +61,8 @@ impl TryFrom<String> for Name {
 	fn try_from(s: String) -> Result<Name, ()> {
 		if s.is_empty() { return Err(()); }
 		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
-		if s.len() > 255 { return Err(()); }
+		// In wire form there's one more byte than we have here, and that may not exceed 255.
+		if s.len() > 254 { return Err(()); }
 		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"') { return Err(()); }
 		if s != "." {
 			// As there's always a trailing . we have to ignore the last (empty) label
-- 
2.43.0


From fcaa9dc8529edeef8ff1819ceb36628d94c86ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 27/36] fix: initialize the wasm module only once

A second lookup_doh started while the first initialization of the module is
pending initialized it again, replacing its memory and thus breaking the first
lookup's proof builder.
---
 wasmpack/doh_lookup.js | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wasmpack/doh_lookup.js b/wasmpack/doh_lookup.js
index 17c5bbf..52f7303 100644
--- a/wasmpack/doh_lookup.js
+++ b/wasmpack/doh_lookup.js
@@ -1,12 +1,19 @@
 import init from './dnssec_prover_wasm.js';
 import * as wasm from './dnssec_prover_wasm.js';
 
+// Initializing again while a first initialization is pending replaces the module's memory, and with
+// it any proof builder in use, so all lookups have to share one initialization.
+let initialization = null;
+
 /**
 * Asynchronously resolves a given domain and type using the provided DoH endpoint, then verifies
 * the returned DNSSEC data and ultimately returns a JSON-encoded list of validated records.
 */
 export async function lookup_doh(domain, ty, doh_endpoint) {
-	await init();
+	if (initialization === null) {
+		initialization = init().catch((e) => { initialization = null; throw e; });
+	}
+	await initialization;
 
 	if (!domain.endsWith(".")) domain += ".";
 	if (ty.toLowerCase() == "txt") {
-- 
2.43.0


From 433a87bfd7c2b6d5b366b97362b64ff5c6bdf776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 28/36] fix: always return valid JSON from lookup_doh

The text of an error may contain quotes, backslashes or line breaks.
---
 wasmpack/doh_lookup.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/doh_lookup.js b/wasmpack/doh_lookup.js
index 52f7303..4acdfba 100644
--- a/wasmpack/doh_lookup.js
+++ b/wasmpack/doh_lookup.js
@@ -47,7 +47,7 @@ export async function lookup_doh(domain, ty, doh_endpoint) {
 						wasm.process_query_response(builder, buf);
 						queries_pending -= 1;
 					} catch (e) {
-						return "{\"error\":\"DoH Query failed: " + e + "\"}";
+						return JSON.stringify({ error: "DoH Query failed: " + e });
 					}
 					return await send_next_query();
 				} else if (queries_pending == 0) {
-- 
2.43.0


From 7925c7df55c25c1d44993081ae58d770cf05f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 29/36] fix: accept DoH responses of the largest possible size

---
 wasmpack/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/src/lib.rs b/wasmpack/src/lib.rs
index 57fe0a0..e949a50 100644
--- a/wasmpack/src/lib.rs
+++ b/wasmpack/src/lib.rs
@@ -40,7 +40,7 @@ pub fn init_proof_builder(mut name: String, ty: u16) -> Option<WASMProofBuilder>
 /// After calling this, [`get_next_query`] should be called until pending queries are exhausted and
 /// no more pending queries exist, at which point [`get_unverified_proof`] should be called.
 pub fn process_query_response(proof_builder: &mut WASMProofBuilder, response: Vec<u8>) {
-	if response.len() < u16::MAX as usize {
+	if response.len() <= u16::MAX as usize {
 		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
 		answer.copy_from_slice(&response);
 		if let Ok(queries) = proof_builder.0.process_response(&answer) {
-- 
2.43.0


From ad1017e351bd076b194e178da30c61e2a6bea2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 30/36] fix: do not report zones as unsupported if a usable DS
 exists

Anybody handing on a proof can leave out signatures, so that a zone signed
with both supported and unsupported algorithms could be made to look like
one which cannot be checked at all.
---
 src/validation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 1aa26a9..81fdf06 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -245,7 +245,15 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 		}
 	}
 
-	if found_unsupported_alg {
+	// If the parent also commits to a key which we could have used, its signature was merely left
+	// out, in which case anyone could have made the zone look like we don't support it.
+	let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
+	let have_supported_ds = dses.clone().any(|ds| {
+		matches!(ds.alg, 8|10|13|14|15) &&
+			(ds.digest_type == 2 || (ds.digest_type == 1 && trust_sha1))
+	});
+
+	if found_unsupported_alg && !have_supported_ds {
 		Err(ValidationError::UnsupportedAlgorithm)
 	} else {
 		Err(ValidationError::Invalid)
-- 
2.43.0


From bc7de0a94c76ec6c62ea4037f04ee11296e184f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 31/36] fix: ignore signatures by keys which are not in their
 zone's DNSKEY set

These are common while a zone replaces its keys: an algorithm rollover as
recommended by RFC 6781 has signatures without keys for most of its time, and
a cached DNSKEY set is often older than the signatures which arrive with other
records. A single one of them made the whole proof invalid.
---
 src/validation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 81fdf06..c61a418 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -410,6 +410,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
 			if !name_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }
+			// While keys are being replaced, there are often signatures by keys which are not, or not
+			// any longer, in the zone's DNSKEY set (especially if that one was cached for a while). We
+			// cannot check these, but they don't make any others less valid.
+			if !dnskeys.clone().any(|k| k.alg == rrsig.alg && k.key_tag() == rrsig.key_tag) { continue; }
 			let signed_records = inp.iter()
 				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
 			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
-- 
2.43.0


From 1f6efa0245dabbcbe2b40358b89d88045ca49763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 32/36] fix: read all of a request's headers before closing its
 connection

---
 src/http.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/http.rs b/src/http.rs
index ddb42fa..bfa32c0 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -95,6 +95,30 @@ mod imp {
 							Err(_) => return,
 						}
 					}
+					// If we close the connection while there is anything left to read, it is reset, and
+					// our response may never make it to the client. Thus, read (and ignore) all headers.
+					let mut header_end_matched = 0;
+					let mut is_header_end = |bytes: &[u8]| {
+						for b in bytes {
+							if header_end_matched == 4 { break; }
+							if *b == b"\r\n\r\n"[header_end_matched] {
+								header_end_matched += 1;
+							} else {
+								header_end_matched = if *b == b'\r' { 1 } else { 0 };
+							}
+						}
+						header_end_matched == 4
+					};
+					let mut headers_read = is_header_end(&buf[..buf_pos]);
+					while !headers_read {
+						let mut ignored = [0; 1024];
+						match socket.read(&mut ignored).await {
+							Ok(0) => break,
+							Ok(len) => headers_read = is_header_end(&ignored[..len]),
+							Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},
+							Err(_) => return,
+						}
+					}
 					let request;
 					// We may have read any part of what follows, only the first line needs to be valid.
 					let line_len = buf[..buf_pos].windows(2).position(|window| window == b"\r\n");
-- 
2.43.0


From 18b7c84fe4443b76b348cc964f272e50a06612eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 33/36] Let simulation seams stand in for whole crates' TCP
 types

---
 src/http.rs  |  13 ++---
 src/query.rs |  15 +++---
 src/sim.rs   | 149 ++++++++++++++++++++++++++++++++++++++-------------
 3 files changed, 124 insertions(+), 53 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index bfa32c0..8ce99dd 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -21,6 +21,8 @@ mod crypto;
 #[cfg(feature = "validation")]
 pub mod validation;
 
+#[cfg(dnssec_sim)]
+use sim::tokio_crate;
 #[cfg(any(feature = "build_server", all(feature = "tokio", feature = "validation")))]
 use tokio_crate as tokio;
 
@@ -33,11 +35,7 @@ async fn main() {
 	let bind_addr = std::env::var("BIND")
 		.expect("Please set the BIND env variable to a socket address to listen on");
 
-	#[cfg(not(dnssec_sim))]
-	use tokio::net::TcpListener;
-	#[cfg(dnssec_sim)]
-	use sim::TokioTcpListener as TcpListener;
-	let listener = TcpListener::bind(bind_addr).await
+	let listener = tokio::net::TcpListener::bind(bind_addr).await
 		.expect("Failed to bind to socket");
 	imp::run_server(listener, resolver_sockaddr).await;
 }
@@ -45,7 +43,7 @@ async fn main() {
 #[cfg(all(dnssec_sim, feature = "build_server"))]
 #[doc(hidden)]
 /// Runs the server on a simulated listener.
-pub async fn sim_run_server(listener: sim::TokioTcpListener, resolver_sockaddr: std::net::SocketAddr) {
+pub async fn sim_run_server(listener: tokio::net::TcpListener, resolver_sockaddr: std::net::SocketAddr) {
 	imp::run_server(listener, resolver_sockaddr).await
 }
 
@@ -58,10 +56,7 @@ mod imp {
 
 	use std::net::SocketAddr;
 
-	#[cfg(not(dnssec_sim))]
 	use tokio::net::TcpListener;
-	#[cfg(dnssec_sim)]
-	use sim::TokioTcpListener as TcpListener;
 	use tokio::io::{AsyncReadExt, AsyncWriteExt};
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
diff --git a/src/query.rs b/src/query.rs
index 05ec137..698c7c8 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -5,19 +5,18 @@ use core::{cmp, ops};
 use alloc::vec;
 use alloc::vec::Vec;
 
+#[cfg(all(dnssec_sim, feature = "std"))]
+use crate::sim::std;
+#[cfg(all(dnssec_sim, feature = "tokio"))]
+use crate::sim::tokio_crate;
+
 #[cfg(feature = "std")]
-use std::net::SocketAddr;
-#[cfg(all(feature = "std", not(dnssec_sim)))]
-use std::net::TcpStream;
-#[cfg(all(feature = "std", dnssec_sim))]
-use crate::sim::TcpStream;
+use std::net::{SocketAddr, TcpStream};
 #[cfg(feature = "std")]
 use std::io::{Read, Write, Error, ErrorKind};
 
-#[cfg(all(feature = "tokio", not(dnssec_sim)))]
+#[cfg(feature = "tokio")]
 use tokio_crate::net::TcpStream as TokioTcpStream;
-#[cfg(all(feature = "tokio", dnssec_sim))]
-use crate::sim::TokioTcpStream;
 #[cfg(feature = "tokio")]
 use tokio_crate::io::{AsyncReadExt, AsyncWriteExt};
 
diff --git a/src/sim.rs b/src/sim.rs
index 773b010..073b6c1 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -4,16 +4,20 @@
 //! by the `query` module and the HTTP server with streams whose every read, write, connect and
 //! accept is decided by a simulator, and lets that simulator add its own trust anchors and observe
 //! how much cryptographic work is done.
+//!
+//! Users of TCP import the [`std`] and [`tokio_crate`] modules in here, which are the crates of the
+//! same names but for their TCP types.
 
 #![allow(missing_docs)]
 
+#[cfg(feature = "tokio")]
 use core::pin::Pin;
 use core::task::{Context, Poll};
 
-use std::io;
-use std::net::SocketAddr;
-use std::sync::OnceLock;
-use std::vec::Vec;
+use ::std::io;
+use ::std::net::SocketAddr;
+use ::std::sync::{Arc, OnceLock};
+use ::std::vec::Vec;
 
 /// The functions through which a simulator drives this crate. Streams, listeners and connection
 /// attempts are named by opaque ids handed out by the simulator.
@@ -55,80 +59,146 @@ pub(crate) fn on_signature_check() { if let Some(h) = HOOKS.get() { (h.on_signat
 #[allow(unused)]
 pub(crate) fn on_hash() { if let Some(h) = HOOKS.get() { (h.on_hash)() } }
 
+/// A connection, which is closed once it was dropped by everything that uses it.
+#[derive(Debug)]
+struct Conn(u64);
+impl Drop for Conn {
+	fn drop(&mut self) { (hooks().close)(self.0) }
+}
+
+fn resolve<A: ::std::net::ToSocketAddrs>(addr: A) -> io::Result<SocketAddr> {
+	addr.to_socket_addrs()?.next().ok_or(io::ErrorKind::InvalidInput.into())
+}
+fn some_addr() -> io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], 1))) }
+
+/// The standard library, with simulated TCP streams.
+pub mod std {
+	pub use ::std::*;
+	/// Networking
+	pub mod net {
+		pub use ::std::net::*;
+		pub use super::super::TcpStream;
+	}
+}
+
 /// Stands in for [`std::net::TcpStream`]
 #[derive(Debug)]
-pub struct TcpStream(u64);
+pub struct TcpStream(Arc<Conn>);
 impl TcpStream {
-	pub fn connect(addr: SocketAddr) -> io::Result<Self> { (hooks().connect)(addr).map(Self) }
+	pub fn connect<A: ::std::net::ToSocketAddrs>(addr: A) -> io::Result<Self> {
+		(hooks().connect)(resolve(addr)?).map(|id| Self(Arc::new(Conn(id))))
+	}
 	pub fn connect_timeout(addr: &SocketAddr, _: core::time::Duration) -> io::Result<Self> {
 		Self::connect(*addr)
 	}
+	pub fn try_clone(&self) -> io::Result<Self> { Ok(Self(Arc::clone(&self.0))) }
+	pub fn peer_addr(&self) -> io::Result<SocketAddr> { some_addr() }
+	pub fn local_addr(&self) -> io::Result<SocketAddr> { some_addr() }
 	pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
 	pub fn set_read_timeout(&self, _: Option<core::time::Duration>) -> io::Result<()> { Ok(()) }
 	pub fn set_write_timeout(&self, _: Option<core::time::Duration>) -> io::Result<()> { Ok(()) }
-	pub fn shutdown(&self, _: std::net::Shutdown) -> io::Result<()> { (hooks().shutdown)(self.0) }
-}
-impl io::Read for TcpStream {
-	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { (hooks().read)(self.0, buf) }
-}
-impl io::Write for TcpStream {
-	fn write(&mut self, buf: &[u8]) -> io::Result<usize> { (hooks().write)(self.0, buf) }
-	fn flush(&mut self) -> io::Result<()> { Ok(()) }
+	pub fn shutdown(&self, _: ::std::net::Shutdown) -> io::Result<()> { (hooks().shutdown)(self.0.0) }
 }
-impl io::Read for &TcpStream {
-	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { (hooks().read)(self.0, buf) }
+macro_rules! impl_io { ($($ty: ty),*) => { $(
+impl io::Read for $ty {
+	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { (hooks().read)(self.0.0, buf) }
 }
-impl io::Write for &TcpStream {
-	fn write(&mut self, buf: &[u8]) -> io::Result<usize> { (hooks().write)(self.0, buf) }
+impl io::Write for $ty {
+	fn write(&mut self, buf: &[u8]) -> io::Result<usize> { (hooks().write)(self.0.0, buf) }
 	fn flush(&mut self) -> io::Result<()> { Ok(()) }
 }
-impl Drop for TcpStream {
-	fn drop(&mut self) { (hooks().close)(self.0) }
+)* } }
+impl_io!(TcpStream, &TcpStream);
+
+/// Tokio, with simulated TCP streams and listeners.
+#[cfg(feature = "tokio")]
+pub mod tokio_crate {
+	pub use ::tokio_crate::*;
+	/// Networking
+	pub mod net {
+		pub use ::tokio_crate::net::*;
+		pub use super::super::{TokioTcpStream as TcpStream, TokioTcpListener as TcpListener};
+		/// Parts of TCP streams
+		pub mod tcp {
+			pub use super::super::super::{ReadHalf, WriteHalf, OwnedReadHalf, OwnedWriteHalf};
+		}
+	}
 }
 
 /// Stands in for tokio's `TcpStream`
 #[cfg(feature = "tokio")]
 #[derive(Debug)]
-pub struct TokioTcpStream(u64);
+pub struct TokioTcpStream(Arc<Conn>);
+/// The reading half of a borrowed stream
+#[cfg(feature = "tokio")]
+#[derive(Debug)]
+pub struct ReadHalf<'a>(&'a Conn);
+/// The writing half of a borrowed stream
+#[cfg(feature = "tokio")]
+#[derive(Debug)]
+pub struct WriteHalf<'a>(&'a Conn);
+/// The reading half of a stream
+#[cfg(feature = "tokio")]
+#[derive(Debug)]
+pub struct OwnedReadHalf(Arc<Conn>);
+/// The writing half of a stream, which is shut down with it
+#[cfg(feature = "tokio")]
+#[derive(Debug)]
+pub struct OwnedWriteHalf(Arc<Conn>);
 #[cfg(feature = "tokio")]
 impl TokioTcpStream {
-	pub async fn connect(addr: SocketAddr) -> io::Result<Self> {
+	pub async fn connect<A: ::std::net::ToSocketAddrs>(addr: A) -> io::Result<Self> {
+		let addr = resolve(addr)?;
 		// Build the stream first so that dropping the future closes it.
-		let stream = Self((hooks().start_connect)(addr));
-		core::future::poll_fn(|cx| (hooks().poll_connect)(stream.0, cx)).await?;
+		let stream = Self(Arc::new(Conn((hooks().start_connect)(addr))));
+		core::future::poll_fn(|cx| (hooks().poll_connect)(stream.0.0, cx)).await?;
 		Ok(stream)
 	}
+	pub fn peer_addr(&self) -> io::Result<SocketAddr> { some_addr() }
+	pub fn local_addr(&self) -> io::Result<SocketAddr> { some_addr() }
 	pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
+	pub fn split(&mut self) -> (ReadHalf<'_>, WriteHalf<'_>) { (ReadHalf(&self.0), WriteHalf(&self.0)) }
+	pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) {
+		(OwnedReadHalf(Arc::clone(&self.0)), OwnedWriteHalf(self.0))
+	}
 }
 #[cfg(feature = "tokio")]
-impl tokio_crate::io::AsyncRead for TokioTcpStream {
+impl Drop for OwnedWriteHalf {
+	fn drop(&mut self) { let _ = (hooks().shutdown)(self.0.0); }
+}
+#[cfg(feature = "tokio")]
+macro_rules! impl_async_read { ($($ty: ty),*) => { $(
+impl ::tokio_crate::io::AsyncRead for $ty {
 	fn poll_read(
-		self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio_crate::io::ReadBuf<'_>
+		self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ::tokio_crate::io::ReadBuf<'_>
 	) -> Poll<io::Result<()>> {
 		let unfilled = buf.initialize_unfilled();
-		match (hooks().poll_read)(self.0, cx, unfilled) {
+		match (hooks().poll_read)(self.0.0, cx, unfilled) {
 			Poll::Ready(Ok(len)) => { buf.advance(len); Poll::Ready(Ok(())) },
 			Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
 			Poll::Pending => Poll::Pending,
 		}
 	}
 }
+)* } }
 #[cfg(feature = "tokio")]
-impl tokio_crate::io::AsyncWrite for TokioTcpStream {
+macro_rules! impl_async_write { ($($ty: ty),*) => { $(
+impl ::tokio_crate::io::AsyncWrite for $ty {
 	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
-		(hooks().poll_write)(self.0, cx, buf)
+		(hooks().poll_write)(self.0.0, cx, buf)
 	}
 	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
 		Poll::Ready(Ok(()))
 	}
 	fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
-		Poll::Ready((hooks().shutdown)(self.0))
+		Poll::Ready((hooks().shutdown)(self.0.0))
 	}
 }
+)* } }
 #[cfg(feature = "tokio")]
-impl Drop for TokioTcpStream {
-	fn drop(&mut self) { (hooks().close)(self.0) }
-}
+impl_async_read!(TokioTcpStream, ReadHalf<'_>, OwnedReadHalf);
+#[cfg(feature = "tokio")]
+impl_async_write!(TokioTcpStream, WriteHalf<'_>, OwnedWriteHalf);
 
 /// Stands in for tokio's `TcpListener`
 #[cfg(feature = "tokio")]
@@ -138,9 +208,16 @@ pub struct TokioTcpListener(u64);
 impl TokioTcpListener {
 	/// Builds a listener which accepts the connections the simulator offers on the given id.
 	pub fn from_id(id: u64) -> Self { Self(id) }
-	pub async fn bind(_: std::string::String) -> io::Result<Self> { Ok(Self(0)) }
+	pub async fn bind<A>(_: A) -> io::Result<Self> { Ok(Self(0)) }
+	pub fn local_addr(&self) -> io::Result<SocketAddr> { some_addr() }
 	pub async fn accept(&self) -> io::Result<(TokioTcpStream, SocketAddr)> {
-		let id = core::future::poll_fn(|cx| (hooks().poll_accept)(self.0, cx)).await?;
-		Ok((TokioTcpStream(id), SocketAddr::from(([127, 0, 0, 1], 1))))
+		core::future::poll_fn(|cx| self.poll_accept(cx)).await
+	}
+	pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TokioTcpStream, SocketAddr)>> {
+		match (hooks().poll_accept)(self.0, cx) {
+			Poll::Ready(Ok(id)) => Poll::Ready(Ok((TokioTcpStream(Arc::new(Conn(id))), some_addr()?))),
+			Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
+			Poll::Pending => Poll::Pending,
+		}
 	}
 }
-- 
2.43.0


From c3e0617149e451a1fb4088286ecf5ff721cd3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 34/36] fix: report zones with nothing but digests we cannot
 check as unsupported

---
 src/validation.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index c61a418..c4af1d5 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -187,11 +187,15 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 	let mut validated_dnskeys = Vec::with_capacity(records.len());
 	let dses = dses.into_iter();
 
+	// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
+	let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
+
 	let mut had_known_digest_type = false;
 	let mut had_ds = false;
 	for ds in dses.clone() {
 		had_ds = true;
-		if ds.digest_type == 1 || ds.digest_type == 2 || ds.digest_type == 4 {
+		// Note that we do not (yet) support SHA384, so cannot check a key with only such a digest.
+		if ds.digest_type == 2 || (ds.digest_type == 1 && trust_sha1) {
 			had_known_digest_type = true;
 			break;
 		}
@@ -200,8 +204,6 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 	if !had_known_digest_type { return Err(ValidationError::UnsupportedAlgorithm); }
 
 	for dnskey in records.iter() {
-		// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
-		let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
 		for ds in dses.clone() {
 			if ds.alg != dnskey.alg { continue; }
 			if dnskey.key_tag() == ds.key_tag {
@@ -247,7 +249,6 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 
 	// If the parent also commits to a key which we could have used, its signature was merely left
 	// out, in which case anyone could have made the zone look like we don't support it.
-	let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
 	let have_supported_ds = dses.clone().any(|ds| {
 		matches!(ds.alg, 8|10|13|14|15) &&
 			(ds.digest_type == 2 || (ds.digest_type == 1 && trust_sha1))
-- 
2.43.0


From 631099da9dbc5a506be5e340af50de87667a0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:51 +0000
Subject: [PATCH 35/36] fix: refuse labels with dots in them, which turned into
 several labels

---
 src/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index c188f93..79ae498 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -88,6 +88,8 @@ fn do_read_wire_packet_labels(inp: &mut &[u8], wire_packet: &[u8], name: &mut St
 			break;
 		}
 		if inp.len() <= len { return Err(()); }
+		// Names are strings here, in which a dot within a label looks like the end of one.
+		if len > 63 || inp[..len].contains(&b'.') { return Err(()); }
 		*name += core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
 		*name += ".";
 		*inp = &inp[len..];
-- 
2.43.0


From c05c3d8002d4f5ffa65f2c77d739da6504deae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:50 +0000
Subject: [PATCH 36/36] fix: do not follow delegations at wildcards to other
 names

A DS record set which a zone has at a wildcard was taken for a delegation of any
name below, including existing ones, and without any proof that there is no
closer name. RFC 4592 section 4.6 has no meaning for such records.
---
 src/validation.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index c4af1d5..fa87ce5 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -428,10 +428,15 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));
 			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
 			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
+			// The labels field does not count the asterisk if the wildcard was itself asked for
+			let is_literal_wildcard = rrsig.name.starts_with("*.") &&
+				rrsig.labels == rrsig.name.labels() - 1;
 			match rrsig.ty {
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
+					// Delegations at wildcards do not apply to any other names, see RFC 4592 section 4.6
+					if rrsig.labels != rrsig.name.labels() && !is_literal_wildcard { continue; }
 					if !seen_zones.contains(&rrsig.name.as_str()) {
 						seen_zones.push(&rrsig.name);
 						pending_ds_sets.push((
@@ -443,9 +448,6 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 					}
 				},
 				_ => {
-					// The labels field does not count the asterisk if the wildcard was itself asked for
-					let is_literal_wildcard = rrsig.name.starts_with("*.") &&
-						rrsig.labels == rrsig.name.labels() - 1;
 					if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE && !is_literal_wildcard {
 						if rrsig.ty == NSec3::TYPE {
 							// NSEC3 records should never appear on wildcards, so treat the
-- 
2.43.0

