From 23643d038a51a8b6ef04ea65ba8513ee2ce8f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 01/20] fix: Binom does not overflow, and is 0 for k > m

The factorial-like intermediate products overflowed (wrong sizes from m = 30)
and could make the divisor 0, so that creating a replicator with a threshold
far above the party count crashed instead of being refused.
---
 src/frn/lib/secret_sharing/rep.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/frn/lib/secret_sharing/rep.h b/src/frn/lib/secret_sharing/rep.h
index a623357..92f9b46 100644
--- a/src/frn/lib/secret_sharing/rep.h
+++ b/src/frn/lib/secret_sharing/rep.h
@@ -17,14 +17,14 @@ namespace secret_sharing {
  * @brief m-choose-k.
  */
 constexpr std::size_t Binom(const std::size_t m, const std::size_t k) {
+  if (k > m) return 0;
   std::size_t end = k > m - k ? m - k : k;
-  std::size_t top = 1;
-  std::size_t bot = 1;
+  std::size_t result = 1;
   for (std::size_t i = 1; i <= end; ++i) {
-    top *= (m + 1 - i);
-    bot *= i;
+    // exact: result is (m choose i - 1) before, and (m choose i) after, this.
+    result = result * (m + 1 - i) / i;
   }
-  return top / bot;
+  return result;
 }
 
 /**
-- 
2.43.0


From 33d4a3f3664adc8e37c6f116b35e96078e657183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 02/20] fix: Input masks are not reused: GetMaskShare advances
 the stored generators

---
 src/frn/input_corr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/input_corr.h b/src/frn/input_corr.h
index b4dc2bd..19a2854 100644
--- a/src/frn/input_corr.h
+++ b/src/frn/input_corr.h
@@ -46,7 +46,7 @@ class InputSetup {
     Shr GetMaskShare(unsigned id) {
       std::vector<frn::Field> share;
       share.reserve(mShareSize);
-      auto prg_id = mPrgs[id];
+      auto& prg_id = mPrgs[id];
       for (std::size_t i = 0; i < mShareSize; i++)
         share.emplace_back(GetRandomElement(prg_id[i]));
       return share;
-- 
2.43.0


From 2164f05a15e0a8430118378030bf14984cec643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 03/20] fix: InputSetup derives as many mask generators as a
 sharing has components

---
 src/frn/input_corr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/input_corr.cc b/src/frn/input_corr.cc
index 7b76af7..c055154 100644
--- a/src/frn/input_corr.cc
+++ b/src/frn/input_corr.cc
@@ -25,7 +25,8 @@ frn::InputSetup::Correlator frn::InputSetup::Run() {
   auto copy = mPrg;
   auto size = mNetwork->Size();
   auto shr_k = mReplicator.Share(k, mPrg);
-  auto add_k = frn::lib::secret_sharing::ShareAdditive(k, size, copy);
+  auto add_k = frn::lib::secret_sharing::ShareAdditive(
+      k, mReplicator.AdditiveShareSize(), copy);
 
   for (std::size_t i = 0; i < size; i++) {
     mNetwork->SendShares(i, {shr_k[i]});
-- 
2.43.0


From d7307ad79625576b1f669d59d5048dc02df2b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 04/20] fix: Mult stores each random share once, so the k-th
 product uses its own mask

---
 src/frn/mult.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/frn/mult.h b/src/frn/mult.h
index e95b735..c7747f9 100644
--- a/src/frn/mult.h
+++ b/src/frn/mult.h
@@ -69,7 +69,6 @@ class Mult {
    */
   void Prepare(const Shr shares_x, const Shr shares_y) {
     RandomShare randomShares = mCorrelator.GenRandomShare();
-    mRandomShares.emplace_back(randomShares);
     AddAndMsgs output = MultiplyToAddAndMsgs(shares_x, shares_y, randomShares);
 
     mSharesToSendP1.emplace_back(output.add_share);
-- 
2.43.0


From 8146e82c177c20d50b87074081ae6feecdb317df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 05/20] fix: Mult can run more than one batch

---
 src/frn/mult.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frn/mult.cc b/src/frn/mult.cc
index 487cdb6..ba54ae5 100644
--- a/src/frn/mult.cc
+++ b/src/frn/mult.cc
@@ -68,5 +68,10 @@ std::vector<frn::Shr> frn::Mult::OutputStep() {
                                                mValuesRecvFromP1[mult_id]);
   }
   STOP_TIMER(OutputStep_add_constant);
+
+  // The batch is complete: a later one starts from scratch
+  mRandomShares.clear();
+  mSharesToSendP1.clear();
+  mCount = 0;
   return output;
 }
-- 
2.43.0


From 65ac693949e04ce3c94ed34645b1953acd1add2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 06/20] fix: each entry of the reconstruction table names only
 its own receivers

---
 src/frn/shr.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frn/shr.cc b/src/frn/shr.cc
index 79083d7..c853749 100644
--- a/src/frn/shr.cc
+++ b/src/frn/shr.cc
@@ -139,9 +139,8 @@ void frn::ShrManipulator::Init() {
 
   // precompute mTableRec
   // We use the double-replicator since this will be used to reconstruct a degree-2d sharing
-  RecEntry entry;
-
   for (unsigned shr_id = 0; shr_id < mDoubleReplicator.ShareSize(); shr_id++) {
+    RecEntry entry;
     // We convert the input index from local to global
     int shr_id_ = mDoubleReplicator.IndexSetFor(mPartyId)[shr_id];
 
-- 
2.43.0


From 381e8e80778b182257bab2d0ebb87393bb41d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 07/20] fix: Hash absorbs all eight bytes of each whole word

---
 src/frn/lib/primitives/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/primitives/hash.h b/src/frn/lib/primitives/hash.h
index ee449d2..b5df72e 100644
--- a/src/frn/lib/primitives/hash.h
+++ b/src/frn/lib/primitives/hash.h
@@ -186,9 +186,9 @@ Hash<Tag> &Hash<Tag>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From 42157f175fc2db9619df0ff9a10b4a950d7cc91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 08/20] fix: closing a channel first sends everything that is
 still queued

---
 src/frn/lib/net/channel.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index c6b0a37..c0b6d31 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -11,24 +11,26 @@ void frn::lib::net::AsyncSenderChannel::Open() {
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
       std::vector<unsigned char> buf = mSendQueue.Front();
-      if (mConnector->State() != Connector::State::eActive) break;
-      mConnector->Send(buf.data(), buf.size());
+      // an empty buffer is what Close sends to mark the end of the stream.
+      if (!buf.empty()) mConnector->Send(buf.data(), buf.size());
       mSendQueue.PopFront();
+      if (buf.empty()) break;
     }
   });
 }
 
 void frn::lib::net::AsyncSenderChannel::Send(const unsigned char* buffer,
                                         std::size_t size) {
+  // nothing to send. An empty buffer marks the end of the stream, see Close.
+  if (size == 0) return;
   mSendQueue.PushBack({buffer, buffer + size});
 }
 
 void frn::lib::net::AsyncSenderChannel::Close() {
-  // signal the async job that we're done by closing the connector and then
-  // sending an empty message. The message ensures that sender job will check
-  // if the connector is still alive and thus exit correctly.
-  mConnector->Close();
-  unsigned char dummy = 1;
-  Send(&dummy, 1);
+  // signal the async job that we're done by queueing an empty message, and
+  // close the connector only when everything before it has been sent (or when
+  // the job has stopped because the connector failed).
+  mSendQueue.PushBack({});
   mSender.wait();
+  mConnector->Close();
 }
-- 
2.43.0


From 2589045e2f2ce0dbd780ae39bd74f749abcd423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 09/20] fix: LocalConnector keeps the part of a message that
 was not asked for yet

---
 src/frn/lib/net/connector.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index f20f75b..e6101a3 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -177,10 +177,14 @@ class LocalConnector : public Connector {
   };
 
   std::int64_t Recv(unsigned char *buffer, std::size_t size) {
-    auto data = mIncoming->Front();
-    auto actual_size = std::min(data.size(), size);
-    std::memcpy(buffer, data.data(), actual_size);
-    mIncoming->PopFront();
+    const auto &data = mIncoming->Front();
+    auto actual_size = std::min(data.size() - mOffset, size);
+    std::memcpy(buffer, data.data() + mOffset, actual_size);
+    mOffset += actual_size;
+    if (mOffset == data.size()) {
+      mIncoming->PopFront();
+      mOffset = 0;
+    }
     return actual_size;
   };
 
@@ -196,6 +200,11 @@ class LocalConnector : public Connector {
 
   BufferPtr mOutgoing = 0;
   BufferPtr mIncoming = 0;
+
+  /**
+   * @brief How much of the first incoming message has already been received.
+   */
+  std::size_t mOffset = 0;
 };
 
 /**
-- 
2.43.0


From 0f92adeb564390edb38e3d3eb2c0cec48fa728f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 10/20] fix: receiving from a disconnected peer is an error

---
 src/frn/lib/net/connector.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 2c666fd..a1486dd 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -63,7 +63,10 @@ std::int64_t frn::lib::net::TCPConnector::Recv(unsigned char* buffer,
     auto n = mSystem->read(mSocket, buffer + offset, rem);
 
     // other end disconnected.
-    if (!n) break;
+    if (!n) {
+      mState = Connector::State::eError;
+      throw std::runtime_error("connection closed by peer");
+    }
     if (n < 0) set_error_and_throw("recv failed");
 
     rem -= n;
-- 
2.43.0


From 3582362313fd48bd111c411819e759be8a95519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 11/20] fix: writing to a disconnected peer does not terminate
 the process

---
 src/frn/lib/net/sysi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/sysi.cc b/src/frn/lib/net/sysi.cc
index 23b159a..20e2763 100644
--- a/src/frn/lib/net/sysi.cc
+++ b/src/frn/lib/net/sysi.cc
@@ -22,7 +22,8 @@ int frn::lib::net::SystemInterface::create_socket(int domain, int type,
 
 ssize_t frn::lib::net::SystemInterface::write(int fd, const void* buf,
                                          std::size_t count) {
-  return ::write(fd, buf, count);
+  // as write, except that writing to a disconnected peer does not raise SIGPIPE.
+  return ::send(fd, buf, count, MSG_NOSIGNAL);
 }
 
 ssize_t frn::lib::net::SystemInterface::read(int fd, void* buf, std::size_t count) {
-- 
2.43.0


From 687766be3440d3624948f77081f3d9ab2ec898ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 12/20] fix: 65536 is not a valid port

---
 src/frn/lib/net/connector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index e6101a3..53882ce 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -258,7 +258,7 @@ class TCPConnector : public Connector {
  * @brief Returns true if a port is valid.
  */
 constexpr inline bool invalid_port(int port) {
-  return port < 1025 || port > 65536;
+  return port < 1025 || port > 65535;
 }
 
 /**
-- 
2.43.0


From 56a21473cb54369681966b1aff5117acbfa2c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 13/20] fix: Builder compares the size with a connection file
 that was given before it

---
 src/frn/lib/net/builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frn/lib/net/builder.cc b/src/frn/lib/net/builder.cc
index 41ef815..5c75729 100644
--- a/src/frn/lib/net/builder.cc
+++ b/src/frn/lib/net/builder.cc
@@ -113,6 +113,10 @@ frn::lib::net::Network::Builder& frn::lib::net::Network::Builder::LocalPeerId(in
 frn::lib::net::Network::Builder& frn::lib::net::Network::Builder::Size(std::size_t n) {
   if (mLocalPeerId && (std::size_t)mLocalPeerId.value() >= n)
     throw std::logic_error("identifier is larger than network size");
+  if (mIps && mIps.value().size() != n)
+    throw std::logic_error(
+        "number of entries in connection file "
+        "does not match network size");
   mSize = n;
   return *this;
 }
-- 
2.43.0


From 5f04001c0e07891f3c035a4ebfae2d0e3803a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 14/20] fix: the server stops listening once its client has
 connected

---
 src/frn/lib/net/connector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index a1486dd..e8a09d6 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -166,4 +166,8 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
   if (sock < 0) set_error_and_throw("could not accept connection from client");
 
   mSocket = sock;
+
+  // only a single client is accepted, so we're done listening.
+  if (mSystem->close(ssock) < 0)
+    set_error_and_throw("error while closing listening socket");
 }
-- 
2.43.0


From da85e287e3dee58d1c74f21709ccb3fcd8862603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 15/20] fix: extract_submatrix refuses ranges that end outside
 the matrix

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index ca5c7c5..4e1142b 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -92,10 +92,10 @@ class Matrix {
    */
   Matrix extract_submatrix(std::size_t row_beg, std::size_t row_end,
                            std::size_t col_beg, std::size_t col_end) {
-    if (row_beg > row_end || row_end - row_beg > RowCount())
+    if (row_beg > row_end || row_end > RowCount())
       throw std::logic_error("invalid row offsets");
 
-    if (col_beg > col_end || col_end - col_beg > ColumnCount())
+    if (col_beg > col_end || col_end > ColumnCount())
       throw std::logic_error("invalid column offsets");
 
     auto nrows = row_end - row_beg;
-- 
2.43.0


From 49eb3bea31505b3938d2113483296f321369655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 16/20] fix: printing a matrix that is not square

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index 4e1142b..bc13173 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -254,8 +254,8 @@ class Matrix {
    * @return a string representation of this matrix
    */
   std::string ToString() const {
-    const auto n = ColumnCount();
-    const auto m = RowCount();
+    const auto n = RowCount();
+    const auto m = ColumnCount();
 
     // convert all elements to strings and find the widest string in each
     // column.
-- 
2.43.0


From 9834b62321a2930ef05dbac5c5995d51d1cf54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 17/20] fix: reading a field element from a decimal string of
 any length

---
 src/frn/lib/math/fp.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/fp.h b/src/frn/lib/math/fp.h
index f9f8929..0057980 100644
--- a/src/frn/lib/math/fp.h
+++ b/src/frn/lib/math/fp.h
@@ -96,8 +96,12 @@ class FpElement : RingElement<FpElement<Prime>> {
    * @param value_string a base 10 string.
    */
   explicit FpElement(const std::string value_string) {
-    auto const parsed_value = utils::from_string<ValueType>(value_string);
-    mValue = Prime::Reduce(parsed_value);
+    // reduce after each digit, as the number may not fit in a ValueType.
+    mValue = 0;
+    for (const char c : value_string) {
+      const ValueType digit = c - '0';
+      mValue = Prime::Add(Prime::Multiply(mValue, 10), digit);
+    }
   };
 
   /**
-- 
2.43.0


From 9788121b09995c4d30c72f605b5795e853978b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 18/20] fix: experiments refuse unsupported numbers of parties

---
 src/frn/exp_check.cc | 2 +-
 src/frn/exp_input.cc | 2 +-
 src/frn/exp_mult.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/exp_check.cc b/src/frn/exp_check.cc
index 9b0857f..8a40a73 100644
--- a/src/frn/exp_check.cc
+++ b/src/frn/exp_check.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_input.cc b/src/frn/exp_input.cc
index eecd8a5..2d4c5cb 100644
--- a/src/frn/exp_input.cc
+++ b/src/frn/exp_input.cc
@@ -18,7 +18,7 @@ inline void Populate(std::vector<frn::Field>& vector) {
 }
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_mult.cc b/src/frn/exp_mult.cc
index b8023f5..67ce8b2 100644
--- a/src/frn/exp_mult.cc
+++ b/src/frn/exp_mult.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
-- 
2.43.0


From 57306b04bf8d4ea51626dcc554a01c86b004352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 19/20] fix: scaling a vector by one of its own entries

---
 src/frn/lib/math/vec.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/math/vec.h b/src/frn/lib/math/vec.h
index e03e580..e90cf1c 100644
--- a/src/frn/lib/math/vec.h
+++ b/src/frn/lib/math/vec.h
@@ -169,7 +169,10 @@ RingType<T, std::vector<T> &> ScaleBy(std::vector<T> &vector, const T &scalar) {
   auto n = vector.size();
   auto it = vector.begin();
 
-  while (n-- > 0) *(it++) *= scalar;
+  // scalar may be an element of the vector.
+  const T factor(scalar);
+
+  while (n-- > 0) *(it++) *= factor;
 
   return vector;
 }
-- 
2.43.0


From 33325fccee92f5b1edab837eb81c6e1bfa90ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:47 +0000
Subject: [PATCH 20/20] fix: a failed attempt to connect leaked the sockets it
 had created

---
 src/frn/lib/net/connector.cc | 13 +++++++------
 src/frn/lib/net/connector.h  | 11 +++++++++++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index e8a09d6..e2743d7 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -115,7 +115,7 @@ void frn::lib::net::TCPClientConnector::EstablishConnection() {
   addr.sin_port = htons(mPort);
 
   if (read_hostname(mSystem, mHostname, &addr) == -1)
-    set_error_and_throw("hostname");
+    close_and_throw(sock, "hostname");
 
   while (true) {
     if (::connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0) {
@@ -146,7 +146,7 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
 
   auto err = mSystem->set_socket_options(ssock, SOL_SOCKET, options, &opt,
                                          sizeof(opt));
-  if (err < 0) set_error_and_throw("could not set options on socket");
+  if (err < 0) close_and_throw(ssock, "could not set options on socket");
 
   struct sockaddr_in addr;
   addr.sin_family = AF_INET;
@@ -156,18 +156,19 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
   struct sockaddr* addr_ptr = (struct sockaddr*)&addr;
 
   if (mSystem->bind(ssock, addr_ptr, sizeof(addr)) < 0)
-    set_error_and_throw("bind");
+    close_and_throw(ssock, "bind");
 
-  if (mSystem->listen(ssock, 1) < 0) set_error_and_throw("listen");
+  if (mSystem->listen(ssock, 1) < 0) close_and_throw(ssock, "listen");
 
   auto addrsize = sizeof(addr);
   int sock = mSystem->accept(ssock, addr_ptr, (socklen_t*)&addrsize);
 
-  if (sock < 0) set_error_and_throw("could not accept connection from client");
+  if (sock < 0)
+    close_and_throw(ssock, "could not accept connection from client");
 
   mSocket = sock;
 
   // only a single client is accepted, so we're done listening.
   if (mSystem->close(ssock) < 0)
-    set_error_and_throw("error while closing listening socket");
+    close_and_throw(sock, "error while closing listening socket");
 }
diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 53882ce..6b94440 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -243,6 +243,17 @@ class TCPConnector : public Connector {
                             error_message.c_str());
   };
 
+  /**
+   * @brief Like set_error_and_throw, but releases a descriptor first.
+   */
+  void close_and_throw(int fd, std::string error_message) {
+    mState = Connector::State::eError;
+    auto err = mSystem->get_errno();
+    mSystem->close(fd);
+    throw std::system_error(err, std::generic_category(),
+                            error_message.c_str());
+  };
+
   /**
    * @brief Socket.
    */
-- 
2.43.0

