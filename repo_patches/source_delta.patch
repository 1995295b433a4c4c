From 007f9b404c64f23fa9189f189b14bb11f897e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 01/16] fix: CFB sinks encrypt an incomplete final block within
 its bounds, halves in order

---
 goost/gost89/CFBSink.cpp | 5 ++---
 goost/magma/CFBSink.cpp  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 1ffb168..0308a15 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -70,9 +70,8 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 14642af..8ddc1ee 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -71,9 +71,8 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From b429e1421c864c03022c64c0aaa8c53fdf9d6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 02/16] fix: CFB sources gather whole blocks from short reads
 and stay within an incomplete final one

---
 goost/gost89/CFBSource.cpp | 14 +++++++++++---
 goost/magma/CFBSource.cpp  | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index d021f15..bfebfa6 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -57,14 +57,22 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 		if (p.empty()) {
 			break;
 		}
+		while (p.size() < 8) {
+			vector<byte> t;
+			tie(t, s) = s->read(8 - p.size());
+			if (t.empty()) {
+				break;
+			}
+			p.insert(p.end(), t.begin(), t.end());
+		}
 
-		memcpy(&r, &p[0], max(sizeof(r), p.size()));
+		memcpy(&r, &p[0], min(sizeof(r), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index deb8099..fcd5fe2 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -59,15 +59,23 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 		if (p.empty()) {
 			break;
 		}
+		while (p.size() < 8) {
+			vector<byte> t;
+			tie(t, s) = s->read(8 - p.size());
+			if (t.empty()) {
+				break;
+			}
+			p.insert(p.end(), t.begin(), t.end());
+		}
 
 		rl = rr;
-		memcpy(&rr, &p[0], max(sizeof(rr), p.size()));
+		memcpy(&rr, &p[0], min(sizeof(rr), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
-- 
2.43.0


From c3cd008d77715450bfc888c9bba1cc6ae32481d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 03/16] fix: ECB source gathers whole blocks from short reads
 and rejects an incomplete final one

---
 goost/magma/ECBSource.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 71ca1aa..c3806c0 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -5,6 +5,7 @@
 
 #include "ECBSource.h"
 #include <cstring>
+#include <stdexcept>
 #include <netinet/in.h>
 #include "Container.h"
 #include "BlkDecrypted.h"
@@ -45,6 +46,14 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 		// Decryption is done
 		return {p, s};
 	}
+	while (p.size() < Block::size) {
+		vector<byte> t;
+		tie(t, s) = s->read(Block::size - p.size());
+		if (t.empty()) {
+			throw runtime_error("Unaligned ECB decryption");
+		}
+		p.insert(p.end(), t.begin(), t.end());
+	}
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-- 
2.43.0


From 5d59f9b192b0a1430c83055c26875e4d5b094757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 04/16] fix: block shift carries bits between the halves for
 every distance

---
 goost/kuznyechik/BlkShifted.cpp | 6 ++++++
 goost/magma/BlkShifted.cpp      | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/BlkShifted.cpp b/goost/kuznyechik/BlkShifted.cpp
index cda6197..310b95b 100644
--- a/goost/kuznyechik/BlkShifted.cpp
+++ b/goost/kuznyechik/BlkShifted.cpp
@@ -16,5 +16,11 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint64_t, uint64_t> BlkShifted::value() const
 {
 	const auto value = block->value();
+	if (n == 0) {
+		return value;
+	}
+	if (n >= 64) {
+		return {0, value.first << (n - 64)};
+	}
 	return {value.first << n, value.second << n | value.first >> (64 - n)};
 }
diff --git a/goost/magma/BlkShifted.cpp b/goost/magma/BlkShifted.cpp
index 020d1d5..42572ef 100644
--- a/goost/magma/BlkShifted.cpp
+++ b/goost/magma/BlkShifted.cpp
@@ -16,5 +16,11 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint32_t, uint32_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (64 - n)};
+	if (n == 0) {
+		return value;
+	}
+	if (n >= 32) {
+		return {0, value.first << (n - 32)};
+	}
+	return {value.first << n, value.second << n | value.first >> (32 - n)};
 }
-- 
2.43.0


From 5dfbe2b0aa659c35c69c1ba34e89355c1579dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:43 +0000
Subject: [PATCH 05/16] fix: memory stream ends within its data and its
 iterators outlive the stream handle

---
 goost/kuznyechik/StMemory.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 90393ab..c364a57 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -16,8 +16,9 @@ namespace kuznyechik {
 class ItMemory final : public Iterator {
 public:
 	ItMemory(
-		const weak_ptr<const StMemory> &stream,
+		const shared_ptr<const StMemory> &stream,
 		size_t offset,
+		size_t block_size,
 		const shared_ptr<const Block> &data
 	);
 
@@ -26,8 +27,9 @@ public:
 	size_t size() const override;
 	shared_ptr<const Iterator> next() const override;
 private:
-	const weak_ptr<const StMemory> stream;
+	const shared_ptr<const StMemory> stream;
 	const size_t offset;
+	const size_t block_size;
 	const shared_ptr<const Block> data;
 };
 
@@ -35,10 +37,11 @@ private:
 }  // namespace goost
 
 ItMemory::ItMemory(
-	const weak_ptr<const StMemory> &stream,
+	const shared_ptr<const StMemory> &stream,
 	size_t offset,
+	size_t block_size,
 	const shared_ptr<const Block> &data
-) : stream(stream), offset(offset), data(data)
+) : stream(stream), offset(offset), block_size(block_size), data(data)
 {
 }
 
@@ -54,13 +57,12 @@ bool ItMemory::last() const
 
 size_t ItMemory::size() const
 {
-	return Block::size;
+	return block_size;
 }
 
 shared_ptr<const Iterator> ItMemory::next() const
 {
-	const auto stream_ptr = stream.lock();
-	return stream_ptr->next_iter(offset + Block::size);
+	return stream->next_iter(offset + Block::size);
 }
 
 StMemory::StMemory(const vector<uint64_t> &data)
@@ -78,9 +80,18 @@ shared_ptr<const Iterator> StMemory::next_iter(size_t offset) const
 	if (data.size() <= offset / sizeof(uint64_t)) {
 		return {};
 	}
+	if (data.size() == offset / sizeof(uint64_t) + 1) {
+		return make_shared<const ItMemory>(
+			shared_from_this(),
+			offset,
+			sizeof(uint64_t),
+			make_shared<BlkRaw>(data.back())
+		);
+	}
 	return make_shared<const ItMemory>(
 		shared_from_this(),
 		offset,
+		Block::size,
 		make_shared<BlkRaw>(&data[offset / sizeof(uint64_t)])
 	);
 }
-- 
2.43.0


From 17a132915ee6849a12ad6b1f6c0fc0f09eea9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:44 +0000
Subject: [PATCH 06/16] fix: CTR stream ends where the underlying stream ends

---
 goost/kuznyechik/StCTREncrypted.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 09b757c..c26752b 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,7 +57,11 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
-	return make_shared<ItCTREncrypted>(iter->next(), key, make_shared<BlkIncremented>(ctr));
+	const auto n = iter->next();
+	if (!n) {
+		return {};
+	}
+	return make_shared<ItCTREncrypted>(n, key, make_shared<BlkIncremented>(ctr));
 }
 
 StCTREncrypted::StCTREncrypted(
@@ -70,5 +74,9 @@ StCTREncrypted::StCTREncrypted(
 
 shared_ptr<const Iterator> StCTREncrypted::iter() const
 {
-	return make_shared<const ItCTREncrypted>(stream->iter(), key, make_unique<BlkRaw>(0, iv));
+	const auto i = stream->iter();
+	if (!i) {
+		return {};
+	}
+	return make_shared<const ItCTREncrypted>(i, key, make_unique<BlkRaw>(0, iv));
 }
-- 
2.43.0


From cf58c7ecaa403a00679a41ac7dffb2d7899a721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:44 +0000
Subject: [PATCH 07/16] fix: CTR stream cuts the keystream to the size of an
 incomplete final block

---
 goost/kuznyechik/StCTREncrypted.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index c26752b..99bad32 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -42,7 +42,15 @@ ItCTREncrypted::ItCTREncrypted(
 
 pair<uint64_t, uint64_t> ItCTREncrypted::value() const
 {
-	return BlkXored(iter, make_unique<BlkEncrypted>(ctr, key)).value();
+	auto v = BlkXored(iter, make_unique<BlkEncrypted>(ctr, key)).value();
+	const auto n = iter->size();
+	if (n <= 8) {
+		v.first = n == 8 ? v.first : v.first & ((uint64_t(1) << (n * 8)) - 1);
+		v.second = 0;
+	} else if (n < 16) {
+		v.second &= (uint64_t(1) << ((n - 8) * 8)) - 1;
+	}
+	return v;
 }
 
 bool ItCTREncrypted::last() const
-- 
2.43.0


From 26578e830ff30c59cce398925e1eba49a19190dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:44 +0000
Subject: [PATCH 08/16] fix: Kuznyechik MAC of an empty stream

---
 goost/kuznyechik/Imit.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index bfae3ca..c633d39 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -53,7 +53,7 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 	auto iter = data->iter();
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
-	while (!iter->last()) {
+	while (iter && !iter->last()) {
 		block = make_shared<const BlkEncrypted>(
 			make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
 			key
@@ -66,9 +66,10 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 		make_unique<BlkEncrypted>(make_unique<BlkRaw>(), key),
 		B
 	);
-	const auto xblock = make_shared<BlkXored>(block, make_unique<BlkRaw>(iter->value()));
+	const auto last = iter ? iter->value() : BlkRaw().value();
+	const auto xblock = make_shared<BlkXored>(block, make_unique<BlkRaw>(last));
 
-	if (iter->size() == Block::size) {
+	if (iter && iter->size() == Block::size) {
 		return BlkEncrypted(make_unique<BlkXored>(xblock, K1), key).value();
 	}
 
-- 
2.43.0


From fedd1c56d6bc1af6bc0989574b3de5de8ac24930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:44 +0000
Subject: [PATCH 09/16] fix: Magma MAC covers everything a source delivers in
 short reads

---
 goost/magma/Imit.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index db0588a..9ab243b 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -82,17 +82,30 @@ pair<uint32_t, uint32_t> Imit::value() const
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 	auto s = data;
 
-	vector<byte> b;
-	tie(b, s) = s->read(Block::size);
+	// a source may return less than asked for before its end
+	const auto read = [&s]() {
+		vector<byte> b;
+		while (b.size() < Block::size) {
+			vector<byte> t;
+			tie(t, s) = s->read(Block::size - b.size());
+			if (t.empty()) {
+				break;
+			}
+			b.insert(b.end(), t.begin(), t.end());
+		}
+		return b;
+	};
+
+	vector<byte> b = read();
 	while (true) {
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
-		memcpy(&v, &b[0], b.size());
+		memcpy(&v, b.data(), b.size());
 		block = make_shared<BlkXored>(block, make_shared<BlkRaw>(v));
 		if (b.size() < Block::size) {
 			break;
 		}
-		tie(b, s) = s->read(Block::size);
+		b = read();
 		if (b.empty()) {
 			break;
 		}
-- 
2.43.0


From bd480cfbcf4c12d87d0e7e1d8e83cc16128f7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:44 +0000
Subject: [PATCH 10/16] fix: MAC and CTR chains do not grow a call stack with
 the message

---
 goost/kuznyechik/Imit.cpp           | 4 ++--
 goost/kuznyechik/StCTREncrypted.cpp | 2 +-
 goost/magma/Imit.cpp                | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index c633d39..ce7b393 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -54,10 +54,10 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (iter && !iter->last()) {
-		block = make_shared<const BlkEncrypted>(
+		block = make_shared<const BlkRaw>(BlkEncrypted(
 			make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
 			key
-		);
+		).value());
 		iter = iter->next();
 	}
 
diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 99bad32..da50760 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -69,7 +69,7 @@ shared_ptr<const Iterator> ItCTREncrypted::next() const
 	if (!n) {
 		return {};
 	}
-	return make_shared<ItCTREncrypted>(n, key, make_shared<BlkIncremented>(ctr));
+	return make_shared<ItCTREncrypted>(n, key, make_shared<BlkRaw>(BlkIncremented(ctr).value()));
 }
 
 StCTREncrypted::StCTREncrypted(
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 9ab243b..070004e 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -109,7 +109,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.empty()) {
 			break;
 		}
-		block = make_shared<BlkEncrypted>(block, key);
+		block = make_shared<BlkRaw>(BlkEncrypted(block, key).value());
 	}
 
 	return BlkEncrypted(make_shared<BlkXored>(block, k), key).value();
-- 
2.43.0


From f5155f5eb31494d2c032325c816316587ba702e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:20 +0000
Subject: [PATCH 11/16] fix: Magma key text with anything but hexadecimal
 digits is rejected

---
 goost/magma/KeyDataString.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index 5bf3b80..02b2506 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -20,6 +20,9 @@ uint32_t KeyDataString::key(int index) const
 	if (key_data.size() != 64) {
 		throw runtime_error("Wrong key size");
 	}
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key data");
+	}
 	if (index < 0 || index > 7) {
 		throw runtime_error("Wrong key index");
 	}
-- 
2.43.0


From 2c07f48b4ead4fe502269da004f67b23c3071d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:20 +0000
Subject: [PATCH 12/16] fix: block text that is too long or not hexadecimal is
 rejected

---
 goost/kuznyechik/BlkString.cpp | 7 +++++++
 goost/magma/BlkString.cpp      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/goost/kuznyechik/BlkString.cpp b/goost/kuznyechik/BlkString.cpp
index 762b7f8..7892ddf 100644
--- a/goost/kuznyechik/BlkString.cpp
+++ b/goost/kuznyechik/BlkString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -15,6 +16,12 @@ BlkString::BlkString(const string &block)
 
 pair<uint64_t, uint64_t> BlkString::value() const
 {
+	if (block.size() > Block::size * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (block.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong block data");
+	}
 	auto value = block;
 	while (value.size() < sizeof(uint64_t) * 2 * 2) {
 		value.insert(0, 1, '0');
diff --git a/goost/magma/BlkString.cpp b/goost/magma/BlkString.cpp
index 07c57d4..c60a462 100644
--- a/goost/magma/BlkString.cpp
+++ b/goost/magma/BlkString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,6 +16,12 @@ BlkString::BlkString(const string &block)
 
 pair<uint32_t, uint32_t> BlkString::value() const
 {
+	if (block.size() > Block::size * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (block.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong block data");
+	}
 	auto value = block;
 	while (value.size() < Block::size * 2) {
 		value.insert(0, 1, '0');
-- 
2.43.0


From c95e1b7666f479925130e765608e4394d0242cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:20 +0000
Subject: [PATCH 13/16] fix: Kuznyechik key text of a wrong length is rejected

---
 goost/kuznyechik/KeyDataString.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/goost/kuznyechik/KeyDataString.cpp b/goost/kuznyechik/KeyDataString.cpp
index a2d0092..46f0e69 100644
--- a/goost/kuznyechik/KeyDataString.cpp
+++ b/goost/kuznyechik/KeyDataString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <stdexcept>
 #include <string>
 #include "BlkString.h"
 
@@ -13,6 +14,9 @@ using namespace goost::kuznyechik;
 KeyDataString::KeyDataString(const string &key_data)
 	: key_data(key_data)
 {
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
 }
 
 shared_ptr<const Block> KeyDataString::low() const
-- 
2.43.0


From f4bfa9cb8c6ef90ac786d462c5e19dbc56f39049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:20 +0000
Subject: [PATCH 14/16] fix: word keys and key containers of a wrong size are
 rejected

---
 goost/magma/ECBSource.cpp     | 6 ++++++
 goost/magma/KeyDataNative.cpp | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index c3806c0..7290d85 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -70,6 +70,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 	vector<uint32_t> key(8);
 	// @todo need to use mask
 	const auto ik = container->key();
+	if (ik.size() != 32) {
+		throw runtime_error("Wrong key size");
+	}
 	memcpy(&key[0], &ik[0], ik.size());
 	for (auto &k : key) {
 		k = htonl(k);
@@ -77,6 +80,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 
 	vector<uint8_t> sbox(64);
 	const auto is = container->sbox();
+	if (is.size() != 64) {
+		throw runtime_error("Wrong sbox size");
+	}
 	memcpy(&sbox[0], &is[0], is.size());
 
 	return make_shared<LazyKey>(key, make_shared<SboxTwisted>(make_unique<SboxByte>(sbox)));
diff --git a/goost/magma/KeyDataNative.cpp b/goost/magma/KeyDataNative.cpp
index 1e4ec71..46d3e50 100644
--- a/goost/magma/KeyDataNative.cpp
+++ b/goost/magma/KeyDataNative.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataNative.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,5 +16,8 @@ KeyDataNative::KeyDataNative(const vector<uint32_t> &key_data)
 
 uint32_t KeyDataNative::key(int index) const
 {
+	if (key_data.size() != 8) {
+		throw runtime_error("Wrong key size");
+	}
 	return key_data[index];
 }
-- 
2.43.0


From 2c718a34fd4181fed8eb11d5478f71f5c035bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:20 +0000
Subject: [PATCH 15/16] fix: caches can be shared between threads

---
 goost/kuznyechik/BlkCached.cpp | 3 +++
 goost/magma/KeyCachedData.cpp  | 1 +
 goost/magma/KeyCachedData.h    | 6 ++++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/BlkCached.cpp b/goost/kuznyechik/BlkCached.cpp
index 3b5552e..caa588a 100644
--- a/goost/kuznyechik/BlkCached.cpp
+++ b/goost/kuznyechik/BlkCached.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkCached.h"
+#include <mutex>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -17,6 +18,7 @@ public:
 
 	pair<uint64_t, uint64_t> value()
 	{
+		const lock_guard<mutex> lock(m);
 		if (!loaded) {
 			state = block->value();
 			loaded = true;
@@ -24,6 +26,7 @@ public:
 		return state;
 	}
 private:
+	mutex m{};
 	bool loaded;
 	pair<uint64_t, uint64_t> state;
 	const shared_ptr<const Block> block;
diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 6041a00..1ec5e0a 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -15,6 +15,7 @@ KeyCachedData::KeyCachedData(unique_ptr<const KeyData> keydata)
 
 uint32_t KeyCachedData::key(int index) const
 {
+	const lock_guard<mutex> lock(cache->mutex);
 	if (!cache->cached) {
 		for (size_t i = 0; i < cache->key.size(); i++) {
 			cache->key[i] = keydata->key(i);
diff --git a/goost/magma/KeyCachedData.h b/goost/magma/KeyCachedData.h
index fde79be..15cfbce 100644
--- a/goost/magma/KeyCachedData.h
+++ b/goost/magma/KeyCachedData.h
@@ -6,6 +6,7 @@
 #pragma once
 #include "KeyData.h"
 #include <memory>
+#include <mutex>
 
 namespace goost {
 namespace magma {
@@ -16,8 +17,9 @@ public:
 	uint32_t key(int index) const override;
 private:
 	struct CachedData {
-		bool cached;
-		std::array<uint32_t, 8> key;
+		std::mutex mutex{};
+		bool cached{};
+		std::array<uint32_t, 8> key{};
 	};
 	const std::unique_ptr<CachedData> cache;
 	const std::unique_ptr<const KeyData> keydata;
-- 
2.43.0


From ab28f418144c7bfdbc5708373c346d623dcc5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:40 +0000
Subject: [PATCH 16/16] fix: every mode works with any key implementation it
 accepts

---
 goost/gost89/CFBSink.cpp      | 6 +++---
 goost/gost89/CFBSource.cpp    | 4 ++--
 goost/gost89/ImitedBlock.cpp  | 1 +
 goost/magma/BlkBackwarded.cpp | 4 ++--
 goost/magma/BlkBackwarded.h   | 6 +++---
 goost/magma/BlkDecrypted.cpp  | 2 +-
 goost/magma/BlkDecrypted.h    | 4 ++--
 goost/magma/BlkEncrypted.cpp  | 2 +-
 goost/magma/BlkEncrypted.h    | 4 ++--
 goost/magma/BlkForwarded.cpp  | 4 ++--
 goost/magma/BlkForwarded.h    | 6 +++---
 goost/magma/CFBSink.cpp       | 6 +++---
 goost/magma/CFBSource.cpp     | 4 ++--
 goost/magma/ECBSource.cpp     | 2 +-
 goost/magma/Imit.cpp          | 1 +
 15 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 0308a15..8302912 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -10,7 +10,7 @@
 #include <goost/magma/BlkEncrypted.h>
 #include <goost/magma/BlkRaw.h>
 #include <goost/magma/Block.h>
-#include <goost/magma/LazyKey.h>
+#include <goost/magma/Key.h>
 
 using namespace std;
 using namespace goost;
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(l),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -67,7 +67,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(iv),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index bfebfa6..2fc3227 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -7,7 +7,7 @@
 #include <cstring>
 #include <goost/magma/BlkEncrypted.h>
 #include <goost/magma/BlkRaw.h>
-#include <goost/magma/LazyKey.h>
+#include <goost/magma/Key.h>
 
 using namespace std;
 using namespace goost;
@@ -50,7 +50,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(r),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/gost89/ImitedBlock.cpp b/goost/gost89/ImitedBlock.cpp
index bcbb069..075d67a 100644
--- a/goost/gost89/ImitedBlock.cpp
+++ b/goost/gost89/ImitedBlock.cpp
@@ -5,6 +5,7 @@
 
 #include "ImitedBlock.h"
 #include <goost/magma/BlkForwarded.h>
+#include <goost/magma/LazyKey.h>
 
 using namespace std;
 using namespace goost::gost89;
diff --git a/goost/magma/BlkBackwarded.cpp b/goost/magma/BlkBackwarded.cpp
index e58e8a7..6d6e77d 100644
--- a/goost/magma/BlkBackwarded.cpp
+++ b/goost/magma/BlkBackwarded.cpp
@@ -4,12 +4,12 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkBackwarded.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkBackwarded.h b/goost/magma/BlkBackwarded.h
index 4431d6a..5c88742 100644
--- a/goost/magma/BlkBackwarded.h
+++ b/goost/magma/BlkBackwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, trancformed over key in backward direction
 class BlkBackwarded final : public Block {
 public:
 	BlkBackwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/BlkDecrypted.cpp b/goost/magma/BlkDecrypted.cpp
index 6dfe193..b5dab90 100644
--- a/goost/magma/BlkDecrypted.cpp
+++ b/goost/magma/BlkDecrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkDecrypted.h b/goost/magma/BlkDecrypted.h
index bd27a07..e5c8793 100644
--- a/goost/magma/BlkDecrypted.h
+++ b/goost/magma/BlkDecrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkDecrypted final : public Block {
 public:
 	BlkDecrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkEncrypted.cpp b/goost/magma/BlkEncrypted.cpp
index 578805c..59fc078 100644
--- a/goost/magma/BlkEncrypted.cpp
+++ b/goost/magma/BlkEncrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkEncrypted.h b/goost/magma/BlkEncrypted.h
index b0260db..aa42044 100644
--- a/goost/magma/BlkEncrypted.h
+++ b/goost/magma/BlkEncrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkEncrypted final : public Block {
 public:
 	BlkEncrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkForwarded.cpp b/goost/magma/BlkForwarded.cpp
index 0b358c8..09826e8 100644
--- a/goost/magma/BlkForwarded.cpp
+++ b/goost/magma/BlkForwarded.cpp
@@ -5,12 +5,12 @@
 
 #include "BlkForwarded.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkForwarded.h b/goost/magma/BlkForwarded.h
index b202cf5..b3eeb47 100644
--- a/goost/magma/BlkForwarded.h
+++ b/goost/magma/BlkForwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, transformed over key in forward direction
 class BlkForwarded final : public Block {
 public:
 	BlkForwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 8ddc1ee..06ebcbb 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -8,7 +8,7 @@
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "Block.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost;
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(rl),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -68,7 +68,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(ivl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index fcd5fe2..104e984 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -7,7 +7,7 @@
 #include <cstring>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost;
@@ -52,7 +52,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(rl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 7290d85..827e08e 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -57,7 +57,7 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-		dynamic_pointer_cast<const LazyKey>(key)
+		key
 	).value();
 
 	memcpy(&p[0], &e.first, Block::size);
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 070004e..204cd57 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -11,6 +11,7 @@
 #include "BlkShifted.h"
 #include "BlkXored.h"
 #include "Iterator.h"
+#include "LazyKey.h"
 
 using namespace std;
 using namespace goost::magma;
-- 
2.43.0

