From 0a1cbb0f6e3e228bf8550893a16e9b78e69339b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:39 +0000
Subject: [PATCH 01/18] fix: CFBSink overran and mis-encrypted an incomplete
 last block

finalize() XORed eight gamma bytes into a vector of one to seven bytes,
writing past its end, and used the halves of the gamma the other way
round from write() and CFBSource. Only the pending bytes are XORed now,
with the leading bytes of the gamma.
---
 goost/gost89/CFBSink.cpp | 6 +++---
 goost/magma/CFBSink.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 1ffb168..6425a48 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -70,9 +70,9 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		const auto gamma = uint64_t(e.second) << 32 | e.first;
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>(gamma >> (i * 8));
 		}
 		s = s->write(c);
 	}
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 14642af..bc9ccbe 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -71,9 +71,9 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		const auto gamma = uint64_t(e.second) << 32 | e.first;
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>(gamma >> (i * 8));
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From 6744853bebbe791155c040039f94fa15f89a5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 02/18] fix: CFBSource read and wrote past an incomplete last
 block

The feedback copy took the larger of the register and the block, and the
XOR loop touched one byte more than there is.
---
 goost/gost89/CFBSource.cpp | 6 +++---
 goost/magma/CFBSource.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index d021f15..53ab654 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -58,13 +58,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			break;
 		}
 
-		memcpy(&r, &p[0], max(sizeof(r), p.size()));
+		memcpy(&r, &p[0], min(sizeof(r), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index deb8099..336e7fa 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -61,13 +61,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 		}
 
 		rl = rr;
-		memcpy(&rr, &p[0], max(sizeof(rr), p.size()));
+		memcpy(&rr, &p[0], min(sizeof(rr), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
-- 
2.43.0


From 65d99054f41612ffbb62ae09bbe8b2eecfd9154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 03/18] fix: BlkShifted shifted words by their width or more

The 32-bit halves of a magma block were shifted right by 64 - n, which is
undefined and loses the carry from the low half into the high one (seen
in the MAC subkeys). In both ciphers a shift by zero or by a word or
more was undefined too.
---
 goost/kuznyechik/BlkShifted.cpp | 6 ++++++
 goost/magma/BlkShifted.cpp      | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/BlkShifted.cpp b/goost/kuznyechik/BlkShifted.cpp
index cda6197..310b95b 100644
--- a/goost/kuznyechik/BlkShifted.cpp
+++ b/goost/kuznyechik/BlkShifted.cpp
@@ -16,5 +16,11 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint64_t, uint64_t> BlkShifted::value() const
 {
 	const auto value = block->value();
+	if (n == 0) {
+		return value;
+	}
+	if (n >= 64) {
+		return {0, value.first << (n - 64)};
+	}
 	return {value.first << n, value.second << n | value.first >> (64 - n)};
 }
diff --git a/goost/magma/BlkShifted.cpp b/goost/magma/BlkShifted.cpp
index 020d1d5..86bc5c9 100644
--- a/goost/magma/BlkShifted.cpp
+++ b/goost/magma/BlkShifted.cpp
@@ -16,5 +16,6 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint32_t, uint32_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (64 - n)};
+	const auto shifted = (uint64_t(value.second) << 32 | value.first) << n;
+	return {shifted, shifted >> 32};
 }
-- 
2.43.0


From fbf9870319fd22a631b4875c8bce3fafa27fa918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:19 +0000
Subject: [PATCH 04/18] fix: BlkRaw read misaligned memory and past short
 vectors

Raw memory was read through uint32_t and uint64_t pointers whatever its
alignment (BlkR passes the address of the second byte of an array), and
a byte vector was read past its end when shorter than a block.
---
 goost/kuznyechik/BlkRaw.cpp | 17 +++++++++++++++--
 goost/magma/BlkRaw.cpp      | 24 ++++++++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/goost/kuznyechik/BlkRaw.cpp b/goost/kuznyechik/BlkRaw.cpp
index 4370b5e..fc2a44a 100644
--- a/goost/kuznyechik/BlkRaw.cpp
+++ b/goost/kuznyechik/BlkRaw.cpp
@@ -4,10 +4,23 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkRaw.h"
+#include <cstring>
 
 using namespace std;
 using namespace goost::kuznyechik;
 
+namespace {
+
+// Alignment of pointer is not required
+uint64_t load(const void *ptr)
+{
+	uint64_t value;
+	memcpy(&value, ptr, sizeof(value));
+	return value;
+}
+
+}  // namespace
+
 BlkRaw::BlkRaw(uint64_t low, uint64_t high)
 	: low(low), high(high)
 {
@@ -25,8 +38,8 @@ BlkRaw::BlkRaw(const shared_ptr<const Block> &block)
 
 BlkRaw::BlkRaw(const void * const ptr)
 	: BlkRaw(
-		reinterpret_cast<const uint64_t *>(ptr)[0],
-		reinterpret_cast<const uint64_t *>(ptr)[1]
+		load(ptr),
+		load(static_cast<const uint8_t *>(ptr) + sizeof(uint64_t))
 	)
 {
 }
diff --git a/goost/magma/BlkRaw.cpp b/goost/magma/BlkRaw.cpp
index a5d62c9..3667374 100644
--- a/goost/magma/BlkRaw.cpp
+++ b/goost/magma/BlkRaw.cpp
@@ -4,11 +4,25 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkRaw.h"
+#include <cstring>
 #include <iomanip>
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
 
+namespace {
+
+// Alignment of pointer is not required
+uint64_t load(const void *ptr)
+{
+	uint64_t value;
+	memcpy(&value, ptr, sizeof(value));
+	return value;
+}
+
+}  // namespace
+
 BlkRaw::BlkRaw(uint32_t low, uint32_t high)
 	: low(low), high(high)
 {
@@ -31,17 +45,15 @@ BlkRaw::BlkRaw(uint64_t block)
 
 BlkRaw::BlkRaw(const vector<uint8_t> &block)
 	: BlkRaw(
-		reinterpret_cast<const uint32_t *>(&block[0])[0],
-		reinterpret_cast<const uint32_t *>(&block[0])[1]
+		block.size() < Block::size ?
+			throw runtime_error("Wrong block size") :
+			load(block.data())
 	  )
 {
 }
 
 BlkRaw::BlkRaw(const void *ptr)
-	: BlkRaw(
-		reinterpret_cast<const uint32_t *>(ptr)[0],
-		reinterpret_cast<const uint32_t *>(ptr)[1]
-	  )
+	: BlkRaw(load(ptr))
 {
 }
 
-- 
2.43.0


From 61e5a3d7271e6a4b83f224dd662db4cc30168edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 05/18] fix: ECBSource decrypted memory past an incomplete last
 block

A source that ended inside a block had eight bytes read from, and
written to, a shorter vector. It is refused now, as ECBSink does.
---
 goost/magma/ECBSource.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 71ca1aa..4675dae 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -6,6 +6,7 @@
 #include "ECBSource.h"
 #include <cstring>
 #include <netinet/in.h>
+#include <stdexcept>
 #include "Container.h"
 #include "BlkDecrypted.h"
 #include "BlkRaw.h"
@@ -45,6 +46,9 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 		// Decryption is done
 		return {p, s};
 	}
+	if (p.size() != Block::size) {
+		throw runtime_error("Unaligned ECB decryption");
+	}
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-- 
2.43.0


From aaff77d06c6bab54ab441113e110823f47cfcad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 06/18] fix: ECBSource overran its key and sbox on a malformed
 container

A container whose key or sbox is longer than 32 or 64 bytes was copied
past the end of the vectors, a shorter one was used filled with zeros.
---
 goost/magma/ECBSource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 4675dae..2aa7a7e 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -65,6 +65,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 	vector<uint32_t> key(8);
 	// @todo need to use mask
 	const auto ik = container->key();
+	if (ik.size() != 32) {
+		throw runtime_error("Wrong container key size");
+	}
 	memcpy(&key[0], &ik[0], ik.size());
 	for (auto &k : key) {
 		k = htonl(k);
@@ -72,6 +75,9 @@ shared_ptr<const Key> ECBSource::makeKey(const shared_ptr<const Container> &cont
 
 	vector<uint8_t> sbox(64);
 	const auto is = container->sbox();
+	if (is.size() != 64) {
+		throw runtime_error("Wrong container sbox size");
+	}
 	memcpy(&sbox[0], &is[0], is.size());
 
 	return make_shared<LazyKey>(key, make_shared<SboxTwisted>(make_unique<SboxByte>(sbox)));
-- 
2.43.0


From 7729ce9d60e879cc90ed5c742adc6290a538f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:21 +0000
Subject: [PATCH 07/18] fix: malformed keys were used instead of refused

A key text with other characters than hexadecimal digits gave zeros (or
a leading part) for the words that hold them, a kuznyechik key text of
any length was accepted, and a native key of the wrong size or a key
index outside 0..7 was read out of bounds.
---
 goost/kuznyechik/KeyDataString.cpp | 7 +++++++
 goost/magma/KeyCachedData.cpp      | 2 +-
 goost/magma/KeyDataNative.cpp      | 6 +++++-
 goost/magma/KeyDataString.cpp      | 4 ++++
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/KeyDataString.cpp b/goost/kuznyechik/KeyDataString.cpp
index a2d0092..547c824 100644
--- a/goost/kuznyechik/KeyDataString.cpp
+++ b/goost/kuznyechik/KeyDataString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <stdexcept>
 #include <string>
 #include "BlkString.h"
 
@@ -13,6 +14,12 @@ using namespace goost::kuznyechik;
 KeyDataString::KeyDataString(const string &key_data)
 	: key_data(key_data)
 {
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key digit");
+	}
 }
 
 shared_ptr<const Block> KeyDataString::low() const
diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 6041a00..b1370dd 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -21,5 +21,5 @@ uint32_t KeyCachedData::key(int index) const
 		}
 		cache->cached = true;
 	}
-	return cache->key[index];
+	return cache->key.at(index);
 }
diff --git a/goost/magma/KeyDataNative.cpp b/goost/magma/KeyDataNative.cpp
index 1e4ec71..7790c83 100644
--- a/goost/magma/KeyDataNative.cpp
+++ b/goost/magma/KeyDataNative.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataNative.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,5 +16,8 @@ KeyDataNative::KeyDataNative(const vector<uint32_t> &key_data)
 
 uint32_t KeyDataNative::key(int index) const
 {
-	return key_data[index];
+	if (key_data.size() != 8) {
+		throw runtime_error("Wrong key size");
+	}
+	return key_data.at(index);
 }
diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index 5bf3b80..e8ac8cb 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -24,6 +24,10 @@ uint32_t KeyDataString::key(int index) const
 		throw runtime_error("Wrong key index");
 	}
 
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key digit");
+	}
+
 	uint32_t value;
 	istringstream in(string(key_data, index * 8, 8));
 	in >> hex >> value;
-- 
2.43.0


From 9f38f019c333823c18946f13bfbee8c5c8f86e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 08/18] fix: first use of a shared key from two threads was a
 data race

KeyCachedData and BlkCached filled their cache without synchronisation,
so another thread could see the flag before the value.
---
 goost/kuznyechik/BlkCached.cpp | 14 ++++++++++----
 goost/magma/KeyCachedData.cpp  |  9 ++++++---
 goost/magma/KeyCachedData.h    |  8 ++++++--
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/goost/kuznyechik/BlkCached.cpp b/goost/kuznyechik/BlkCached.cpp
index 3b5552e..cb1800a 100644
--- a/goost/kuznyechik/BlkCached.cpp
+++ b/goost/kuznyechik/BlkCached.cpp
@@ -4,6 +4,8 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkCached.h"
+#include <atomic>
+#include <mutex>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -11,20 +13,24 @@ using namespace goost::kuznyechik;
 class BlkCached::BlockCache final {
 public:
 	explicit BlockCache(const shared_ptr<const Block> &block)
-		: loaded(false), state(), block(block)
+		: loaded(false), guard(), state(), block(block)
 	{
 	}
 
 	pair<uint64_t, uint64_t> value()
 	{
 		if (!loaded) {
-			state = block->value();
-			loaded = true;
+			const lock_guard<mutex> lock(guard);
+			if (!loaded) {
+				state = block->value();
+				loaded = true;
+			}
 		}
 		return state;
 	}
 private:
-	bool loaded;
+	atomic<bool> loaded;
+	mutex guard;
 	pair<uint64_t, uint64_t> state;
 	const shared_ptr<const Block> block;
 };
diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index b1370dd..33c5417 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -16,10 +16,13 @@ KeyCachedData::KeyCachedData(unique_ptr<const KeyData> keydata)
 uint32_t KeyCachedData::key(int index) const
 {
 	if (!cache->cached) {
-		for (size_t i = 0; i < cache->key.size(); i++) {
-			cache->key[i] = keydata->key(i);
+		const lock_guard<mutex> lock(cache->mutex);
+		if (!cache->cached) {
+			for (size_t i = 0; i < cache->key.size(); i++) {
+				cache->key[i] = keydata->key(i);
+			}
+			cache->cached = true;
 		}
-		cache->cached = true;
 	}
 	return cache->key.at(index);
 }
diff --git a/goost/magma/KeyCachedData.h b/goost/magma/KeyCachedData.h
index fde79be..41589da 100644
--- a/goost/magma/KeyCachedData.h
+++ b/goost/magma/KeyCachedData.h
@@ -5,7 +5,10 @@
 
 #pragma once
 #include "KeyData.h"
+#include <array>
+#include <atomic>
 #include <memory>
+#include <mutex>
 
 namespace goost {
 namespace magma {
@@ -16,8 +19,9 @@ public:
 	uint32_t key(int index) const override;
 private:
 	struct CachedData {
-		bool cached;
-		std::array<uint32_t, 8> key;
+		std::atomic<bool> cached{false};
+		std::mutex mutex{};
+		std::array<uint32_t, 8> key{};
 	};
 	const std::unique_ptr<CachedData> cache;
 	const std::unique_ptr<const KeyData> keydata;
-- 
2.43.0


From 49dc1ac97cff9e950869a76a7b6b9d6927b9bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:57 +0000
Subject: [PATCH 09/18] fix: StMemory read past an odd number of words

The last block took its high half from behind the vector and claimed to
be complete. Its high half is zero now and its size is 8 bytes.
---
 goost/kuznyechik/StMemory.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 90393ab..386de69 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -18,6 +18,7 @@ public:
 	ItMemory(
 		const weak_ptr<const StMemory> &stream,
 		size_t offset,
+		size_t block_size,
 		const shared_ptr<const Block> &data
 	);
 
@@ -28,6 +29,7 @@ public:
 private:
 	const weak_ptr<const StMemory> stream;
 	const size_t offset;
+	const size_t block_size;
 	const shared_ptr<const Block> data;
 };
 
@@ -37,8 +39,9 @@ private:
 ItMemory::ItMemory(
 	const weak_ptr<const StMemory> &stream,
 	size_t offset,
+	size_t block_size,
 	const shared_ptr<const Block> &data
-) : stream(stream), offset(offset), data(data)
+) : stream(stream), offset(offset), block_size(block_size), data(data)
 {
 }
 
@@ -54,7 +57,7 @@ bool ItMemory::last() const
 
 size_t ItMemory::size() const
 {
-	return Block::size;
+	return block_size;
 }
 
 shared_ptr<const Iterator> ItMemory::next() const
@@ -75,12 +78,14 @@ shared_ptr<const Iterator> StMemory::iter() const
 
 shared_ptr<const Iterator> StMemory::next_iter(size_t offset) const
 {
-	if (data.size() <= offset / sizeof(uint64_t)) {
+	const auto index = offset / sizeof(uint64_t);
+	if (data.size() <= index) {
 		return {};
 	}
 	return make_shared<const ItMemory>(
 		shared_from_this(),
 		offset,
-		make_shared<BlkRaw>(&data[offset / sizeof(uint64_t)])
+		index + 1 < data.size() ? Block::size : sizeof(uint64_t),
+		make_shared<BlkRaw>(data[index], index + 1 < data.size() ? data[index + 1] : 0)
 	);
 }
-- 
2.43.0


From aa07c8b9315e9bb0583fe0faf66dab2e6dfdbf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 10/18] fix: an iterator of a released StMemory dereferenced
 null

Holding only the iterator (as a walk over a temporary stream does) left
its weak pointer to the stream dangling. It shares the stream now.
---
 goost/kuznyechik/StMemory.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 386de69..63ecf55 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -16,7 +16,7 @@ namespace kuznyechik {
 class ItMemory final : public Iterator {
 public:
 	ItMemory(
-		const weak_ptr<const StMemory> &stream,
+		const shared_ptr<const StMemory> &stream,
 		size_t offset,
 		size_t block_size,
 		const shared_ptr<const Block> &data
@@ -27,7 +27,7 @@ public:
 	size_t size() const override;
 	shared_ptr<const Iterator> next() const override;
 private:
-	const weak_ptr<const StMemory> stream;
+	const shared_ptr<const StMemory> stream;
 	const size_t offset;
 	const size_t block_size;
 	const shared_ptr<const Block> data;
@@ -37,7 +37,7 @@ private:
 }  // namespace goost
 
 ItMemory::ItMemory(
-	const weak_ptr<const StMemory> &stream,
+	const shared_ptr<const StMemory> &stream,
 	size_t offset,
 	size_t block_size,
 	const shared_ptr<const Block> &data
@@ -62,8 +62,7 @@ size_t ItMemory::size() const
 
 shared_ptr<const Iterator> ItMemory::next() const
 {
-	const auto stream_ptr = stream.lock();
-	return stream_ptr->next_iter(offset + Block::size);
+	return stream->next_iter(offset + Block::size);
 }
 
 StMemory::StMemory(const vector<uint64_t> &data)
-- 
2.43.0


From a71b19e4b1eb29bbcb55e7c1f5c5414c6e8d3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 11/18] fix: StCTREncrypted gave an iterator past the end of
 the stream

Past the last block, and over an empty stream, it returned an iterator
around a null one, which crashed when used, instead of no iterator.
---
 goost/kuznyechik/StCTREncrypted.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 09b757c..207756c 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,7 +57,11 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
-	return make_shared<ItCTREncrypted>(iter->next(), key, make_shared<BlkIncremented>(ctr));
+	const auto next_iter = iter->next();
+	if (!next_iter) {
+		return {};
+	}
+	return make_shared<ItCTREncrypted>(next_iter, key, make_shared<BlkIncremented>(ctr));
 }
 
 StCTREncrypted::StCTREncrypted(
@@ -70,5 +74,9 @@ StCTREncrypted::StCTREncrypted(
 
 shared_ptr<const Iterator> StCTREncrypted::iter() const
 {
-	return make_shared<const ItCTREncrypted>(stream->iter(), key, make_unique<BlkRaw>(0, iv));
+	const auto first_iter = stream->iter();
+	if (!first_iter) {
+		return {};
+	}
+	return make_shared<const ItCTREncrypted>(first_iter, key, make_unique<BlkRaw>(0, iv));
 }
-- 
2.43.0


From 07db4ba49c909fc9286eb3e751031e3de76976a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 12/18] fix: StCTREncrypted overflowed the stack on a long
 stream

The counter of block n was a chain of n BlkIncremented objects, walked
recursively for every block and when released. It is a number now.
---
 goost/kuznyechik/StCTREncrypted.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 207756c..0e5612d 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -61,7 +61,11 @@ shared_ptr<const Iterator> ItCTREncrypted::next() const
 	if (!next_iter) {
 		return {};
 	}
-	return make_shared<ItCTREncrypted>(next_iter, key, make_shared<BlkIncremented>(ctr));
+	return make_shared<ItCTREncrypted>(
+		next_iter,
+		key,
+		make_shared<BlkRaw>(BlkIncremented(ctr).value())
+	);
 }
 
 StCTREncrypted::StCTREncrypted(
-- 
2.43.0


From c850d6b2519ec4486a96de6ade22be73cbd48861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:26 +0000
Subject: [PATCH 13/18] fix: Imit overflowed the stack on a long message

Both MACs built a chain of one lazy encryption per block and walked it
recursively at the end. Every step is evaluated as it is read now.
---
 goost/kuznyechik/Imit.cpp | 8 +++++---
 goost/magma/Imit.cpp      | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index bfae3ca..cd1445e 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -54,9 +54,11 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
-		block = make_shared<const BlkEncrypted>(
-			make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
-			key
+		block = make_shared<const BlkRaw>(
+			BlkEncrypted(
+				make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
+				key
+			).value()
 		);
 		iter = iter->next();
 	}
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index db0588a..a0ea229 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -96,7 +96,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.empty()) {
 			break;
 		}
-		block = make_shared<BlkEncrypted>(block, key);
+		block = make_shared<BlkRaw>(BlkEncrypted(block, key).value());
 	}
 
 	return BlkEncrypted(make_shared<BlkXored>(block, k), key).value();
-- 
2.43.0


From e1316c9f09fff4979c9dd56c10c66e57382ba112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:27 +0000
Subject: [PATCH 14/18] fix: Imit dereferenced null on an empty message

The kuznyechik MAC of a stream without blocks crashed, it is refused
now; the magma one took the address of the first byte of no bytes.
---
 goost/kuznyechik/Imit.cpp | 4 ++++
 goost/magma/Imit.cpp      | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index cd1445e..ccc8982 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "Imit.h"
+#include <stdexcept>
 #include "BlkEncrypted.h"
 #include "BlkRaw.h"
 #include "BlkShifted.h"
@@ -51,6 +52,9 @@ Imit::Imit(const shared_ptr<const Stream> &data, const shared_ptr<const Key> &ke
 std::pair<uint64_t, uint64_t> Imit::value() const
 {
 	auto iter = data->iter();
+	if (!iter) {
+		throw runtime_error("Empty stream");
+	}
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index a0ea229..f4b49f4 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -87,7 +87,9 @@ pair<uint32_t, uint32_t> Imit::value() const
 	while (true) {
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
-		memcpy(&v, &b[0], b.size());
+		if (!b.empty()) {
+			memcpy(&v, &b[0], b.size());
+		}
 		block = make_shared<BlkXored>(block, make_shared<BlkRaw>(v));
 		if (b.size() < Block::size) {
 			break;
-- 
2.43.0


From 7828197f32a68b24a364f40d1f822548ca7b40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:54 +0000
Subject: [PATCH 15/18] fix: modes crashed with a Key other than LazyKey

CFB and ECB take any Key but cast it to LazyKey, so another
implementation of Key became null. The blocks need no more than Key.
---
 goost/gost89/CFBSink.cpp      | 4 ++--
 goost/gost89/CFBSource.cpp    | 2 +-
 goost/magma/BlkBackwarded.cpp | 4 ++--
 goost/magma/BlkBackwarded.h   | 6 +++---
 goost/magma/BlkDecrypted.cpp  | 2 +-
 goost/magma/BlkDecrypted.h    | 4 ++--
 goost/magma/BlkEncrypted.cpp  | 2 +-
 goost/magma/BlkEncrypted.h    | 4 ++--
 goost/magma/BlkForwarded.cpp  | 4 ++--
 goost/magma/BlkForwarded.h    | 6 +++---
 goost/magma/CFBSink.cpp       | 4 ++--
 goost/magma/CFBSource.cpp     | 2 +-
 goost/magma/ECBSource.cpp     | 2 +-
 goost/magma/Imit.cpp          | 1 +
 14 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 6425a48..356ac43 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(l),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -67,7 +67,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(iv),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		const auto gamma = uint64_t(e.second) << 32 | e.first;
diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index 53ab654..469866e 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -50,7 +50,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(r),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/BlkBackwarded.cpp b/goost/magma/BlkBackwarded.cpp
index e58e8a7..6d6e77d 100644
--- a/goost/magma/BlkBackwarded.cpp
+++ b/goost/magma/BlkBackwarded.cpp
@@ -4,12 +4,12 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkBackwarded.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkBackwarded.h b/goost/magma/BlkBackwarded.h
index 4431d6a..5c88742 100644
--- a/goost/magma/BlkBackwarded.h
+++ b/goost/magma/BlkBackwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, trancformed over key in backward direction
 class BlkBackwarded final : public Block {
 public:
 	BlkBackwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/BlkDecrypted.cpp b/goost/magma/BlkDecrypted.cpp
index 6dfe193..b5dab90 100644
--- a/goost/magma/BlkDecrypted.cpp
+++ b/goost/magma/BlkDecrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkDecrypted.h b/goost/magma/BlkDecrypted.h
index bd27a07..e5c8793 100644
--- a/goost/magma/BlkDecrypted.h
+++ b/goost/magma/BlkDecrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkDecrypted final : public Block {
 public:
 	BlkDecrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkEncrypted.cpp b/goost/magma/BlkEncrypted.cpp
index 578805c..59fc078 100644
--- a/goost/magma/BlkEncrypted.cpp
+++ b/goost/magma/BlkEncrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkEncrypted.h b/goost/magma/BlkEncrypted.h
index b0260db..aa42044 100644
--- a/goost/magma/BlkEncrypted.h
+++ b/goost/magma/BlkEncrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkEncrypted final : public Block {
 public:
 	BlkEncrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkForwarded.cpp b/goost/magma/BlkForwarded.cpp
index 0b358c8..09826e8 100644
--- a/goost/magma/BlkForwarded.cpp
+++ b/goost/magma/BlkForwarded.cpp
@@ -5,12 +5,12 @@
 
 #include "BlkForwarded.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkForwarded.h b/goost/magma/BlkForwarded.h
index b202cf5..b3eeb47 100644
--- a/goost/magma/BlkForwarded.h
+++ b/goost/magma/BlkForwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, transformed over key in forward direction
 class BlkForwarded final : public Block {
 public:
 	BlkForwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index bc9ccbe..432c03b 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(rl),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -68,7 +68,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(ivl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		const auto gamma = uint64_t(e.second) << 32 | e.first;
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index 336e7fa..99bf0a7 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -52,7 +52,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(rl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 2aa7a7e..02abe19 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -52,7 +52,7 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-		dynamic_pointer_cast<const LazyKey>(key)
+		key
 	).value();
 
 	memcpy(&p[0], &e.first, Block::size);
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index f4b49f4..5f33678 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -11,6 +11,7 @@
 #include "BlkShifted.h"
 #include "BlkXored.h"
 #include "Iterator.h"
+#include "LazyKey.h"
 
 using namespace std;
 using namespace goost::magma;
-- 
2.43.0


From 3a9595785d276c0172f808768504b50a8287c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:55 +0000
Subject: [PATCH 16/18] fix: BlkString took malformed text for a block

Text after the first non-hexadecimal character of a half, signs, spaces
and everything past the width of a block were silently ignored.
---
 goost/kuznyechik/BlkString.cpp | 8 ++++++++
 goost/magma/BlkString.cpp      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/goost/kuznyechik/BlkString.cpp b/goost/kuznyechik/BlkString.cpp
index 762b7f8..e98bb67 100644
--- a/goost/kuznyechik/BlkString.cpp
+++ b/goost/kuznyechik/BlkString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -15,6 +16,13 @@ BlkString::BlkString(const string &block)
 
 pair<uint64_t, uint64_t> BlkString::value() const
 {
+	if (block.size() > sizeof(uint64_t) * 2 * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (block.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong block digit");
+	}
+
 	auto value = block;
 	while (value.size() < sizeof(uint64_t) * 2 * 2) {
 		value.insert(0, 1, '0');
diff --git a/goost/magma/BlkString.cpp b/goost/magma/BlkString.cpp
index 07c57d4..fd58572 100644
--- a/goost/magma/BlkString.cpp
+++ b/goost/magma/BlkString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkString.h"
+#include <stdexcept>
 
 using namespace std;
 using namespace goost::magma;
@@ -15,6 +16,13 @@ BlkString::BlkString(const string &block)
 
 pair<uint32_t, uint32_t> BlkString::value() const
 {
+	if (block.size() > Block::size * 2) {
+		throw runtime_error("Wrong block size");
+	}
+	if (block.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong block digit");
+	}
+
 	auto value = block;
 	while (value.size() < Block::size * 2) {
 		value.insert(0, 1, '0');
-- 
2.43.0


From ea97dc997f0d66cee4829c5382ddd2a44328d045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:56 +0000
Subject: [PATCH 17/18] fix: short substitution tables were read past their end

---
 goost/magma/SboxByte64Tab.cpp | 4 ++--
 goost/magma/SboxNibble.cpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/goost/magma/SboxByte64Tab.cpp b/goost/magma/SboxByte64Tab.cpp
index 70a191f..542b215 100644
--- a/goost/magma/SboxByte64Tab.cpp
+++ b/goost/magma/SboxByte64Tab.cpp
@@ -15,6 +15,6 @@ SboxByte64Tab::SboxByte64Tab(const vector<uint8_t> &uz, int offset)
 
 uint32_t SboxByte64Tab::translate(int index) const
 {
-	return (uz[((index >> 4) & 0xf) * 4 + offset] & 0xf0)
-		+ (uz[(index & 0xf) * 4 + offset] & 0x0f);
+	return (uz.at(((index >> 4) & 0xf) * 4 + offset) & 0xf0)
+		+ (uz.at((index & 0xf) * 4 + offset) & 0x0f);
 }
diff --git a/goost/magma/SboxNibble.cpp b/goost/magma/SboxNibble.cpp
index c481ab4..9297a25 100644
--- a/goost/magma/SboxNibble.cpp
+++ b/goost/magma/SboxNibble.cpp
@@ -30,5 +30,5 @@ uint32_t SboxNibble::transform(uint32_t value) const
 uint32_t SboxNibble::transformN(uint32_t value, const vector<int> &p, int nidx) const
 {
 	const int i = (value >> (nidx * 4)) & 0xf;
-	return uint32_t(p[i]) << (nidx * 4);
+	return uint32_t(p.at(i)) << (nidx * 4);
 }
-- 
2.43.0


From c75fa1be669430c9ae01bd076debeb48fa34558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:08 +0000
Subject: [PATCH 18/18] fix: text keys were parsed with the facets of the
 global locale

An istringstream takes the digits through the global locale, and swallows
a failed allocation there: the key word was then left uninitialised.
---
 goost/magma/KeyDataString.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index e8ac8cb..b575425 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -4,7 +4,6 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
-#include <sstream>
 #include <stdexcept>
 
 using namespace std;
@@ -28,8 +27,5 @@ uint32_t KeyDataString::key(int index) const
 		throw runtime_error("Wrong key digit");
 	}
 
-	uint32_t value;
-	istringstream in(string(key_data, index * 8, 8));
-	in >> hex >> value;
-	return value;
+	return static_cast<uint32_t>(stoul(string(key_data, index * 8, 8), nullptr, 16));
 }
-- 
2.43.0

