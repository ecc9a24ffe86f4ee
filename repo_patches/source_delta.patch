From da2f72812d57023df2ec70c742bdb28a0ee7123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 01/20] fix: Timepoint::advance_from with negative durations
 finer or coarser than a microsecond

---
 src/clock/clock_timepoint.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/clock/clock_timepoint.hpp b/src/clock/clock_timepoint.hpp
index 25fd481..b59cfd9 100644
--- a/src/clock/clock_timepoint.hpp
+++ b/src/clock/clock_timepoint.hpp
@@ -76,7 +76,9 @@ inline Timepoint Timepoint::epoch() noexcept {
 
 template<typename ChronoDuration>
 inline Timepoint Timepoint::advance_from(ChronoDuration& duration) const noexcept {
-    auto advance = std::chrono::duration_cast<UnderlyingDuration>(duration);
+    // signed representation: a negative duration must keep its sign
+    // when it is converted to microseconds and back
+    auto advance = std::chrono::duration_cast<Duration>(duration);
     duration -= std::chrono::duration_cast<ChronoDuration>(advance);
     return Timepoint{m_value + advance};
 }
-- 
2.43.0


From 6a973fb4bae598d59d0eca9e88e4ca03b5faf1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 02/20] fix: MAPPED-ADDRESS and ALTERNATE-SERVER lost the
 address family when built

---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 3788ec5..f86b028 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -121,7 +121,7 @@ util::ByteVec MappedAddressAttribute::build() const {
                     return std::make_pair(attr_registry::FAMILY_IPV6, a.view());
                 }
             }, addr.value());
-    const uint32_t first_word = util::host_to_network_u32(port.value() | (family >> 16));
+    const uint32_t first_word = util::host_to_network_u32(port.value() | (family << 16));
     return util::ConstBinaryView::concat({
             util::ConstBinaryView(&first_word, sizeof(first_word)),
             view
-- 
2.43.0


From abda7b0dbb6795ba7f05b5ccc08d195ba511e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 03/20] fix: ERROR-CODE parsing must ignore the reserved bits
 before the class

---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index f86b028..197f940 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -330,7 +330,7 @@ Result<ErrorCodeAttribute> ErrorCodeAttribute::parse(const util::ConstBinaryView
         })
         .fmap([&](uint32_t first_word) {
             return ErrorCodeAttribute{
-                .code = (first_word >> 8) * 100 + (first_word & 0xFF),
+                .code = ((first_word >> 8) & 0x7) * 100 + (first_word & 0xFF), // reserved bits are ignored
                 .reason_phrase = maybe_reason.fmap(
                     [](auto&& view) {
                         return std::string(view.begin(), view.end());
-- 
2.43.0


From 3230f852d5c15e522c7c98039ed48782f997eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 04/20] fix: HMAC keys longer than a block read the key digest
 after its lifetime

---
 src/crypto/crypto_hmac.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/crypto/crypto_hmac.hpp b/src/crypto/crypto_hmac.hpp
index afcb894..fd222da 100644
--- a/src/crypto/crypto_hmac.hpp
+++ b/src/crypto/crypto_hmac.hpp
@@ -67,21 +67,16 @@ template<uint8_t xorv>
 template<typename HashFunc>
 inline Result<PadKey<xorv>> PadKey<xorv>::from_key(const util::ConstBinaryView& view, HashFunc h)
 {
-    using ViewRV = Result<util::ConstBinaryView>;
-    return ViewRV(view)
-        .bind([&](auto&& v) -> ViewRV {
-            if (v.size() > B) {
-                // TODO: is result of v.view is valid after exit from this function?
-                return h({v}).fmap([](auto&& v) { return v.view(); });
-            } else {
-                return v;
-            }
-        })
-        .fmap([](auto&& v) {
-            Data data = {0};
-            std::copy(v.begin(), v.end(), data.begin());
-            return PadKey<xorv>(std::move(data));
-        });
+    auto from_view = [](const util::ConstBinaryView& v) {
+        Data data = {0};
+        std::copy(v.begin(), v.end(), data.begin());
+        return PadKey<xorv>(std::move(data));
+    };
+    if (view.size() > B) {
+        // the digest must outlive its view
+        return h({view}).fmap([&](auto&& digest) { return from_view(digest.view()); });
+    }
+    return from_view(view);
 }
 
 template<uint8_t xorv>
-- 
2.43.0


From 88e32df1169f097d2b35a274aea428835bd6e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 05/20] fix: a second MESSAGE-INTEGRITY attribute must be
 ignored

---
 src/stun/stun_message.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 237d54f..9dc34c6 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -285,6 +285,10 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
             // The text used as input to HMAC is the STUN message,
             // including the header, up to and including the attribute
             // preceding the MESSAGE-INTEGRITY attribute.
+            if (maybe_integrity_interval.is_some()) {
+                // Only FINGERPRINT counts after MESSAGE-INTEGRITY (see below).
+                break;
+            }
             raw_attrs.emplace_back(raw_attr);
             maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
             break;
-- 
2.43.0


From 4fba093462b7d70f433794ee069b3efadf413716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 06/20] fix: a truncated MAPPED-ADDRESS must be counted in the
 parse statistics

---
 src/stun/stun_attribute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 197f940..79a03b9 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -96,18 +96,18 @@ Result<MappedAddressAttribute> MappedAddressAttribute::parse(const util::ConstBi
                     }
                     return make_error_code(ParseError::unknown_addr_family);
                 })()
-                .bind_err([&](auto&& err) {
-                    stat.error.inc();
-                    stat.invalid_ip_address.inc();
-                    return err;
-                })
                 .fmap([&](auto&& addr) {
                     return MappedAddressAttribute{std::move(addr), port};
                 });
         },
         std::move(family_rv),
         std::move(port_rv),
-        std::move(addr_view_rv));
+        std::move(addr_view_rv))
+        .bind_err([&](auto&& err) {
+            stat.error.inc();
+            stat.invalid_ip_address.inc();
+            return err;
+        });
 }
 
 util::ByteVec MappedAddressAttribute::build() const {
-- 
2.43.0


From ed4b6dfe7670a77c421bb16481e8a4d51d4dacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 07/20] fix: max_rto is the maximum of the retransmission
 interval, not the minimum

---
 src/stun/stun_client_udp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 47d70d2..44ca5fd 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -464,7 +464,7 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
 
     auto timeout = m_settings.max_rto
         .fmap([&](auto&& settings_max_rto) {
-            return std::max(current, settings_max_rto);
+            return std::min(current, settings_max_rto);
         })
         .value_or(current);
     return std::make_pair(now.advance(timeout), timeout);
-- 
2.43.0


From f4937614957d4006d19848e367bc6ae7913d14de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 08/20] fix: const access to intrusive list elements did not
 compile

---
 src/util/util_intrusive_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/util_intrusive_list.hpp b/src/util/util_intrusive_list.hpp
index da6b27c..1032620 100644
--- a/src/util/util_intrusive_list.hpp
+++ b/src/util/util_intrusive_list.hpp
@@ -137,10 +137,10 @@ T& IntrusiveList<T>::Link::get() noexcept {
 
 template<typename T>
 const T& IntrusiveList<T>::Link::get() const noexcept {
-    if (!m_owner.has_value()) {
+    if (!m_owner.is_some()) {
         std::abort();
     }
-    return m_owner.value();
+    return m_owner.unwrap();
 }
 
 template<typename T>
-- 
2.43.0


From 2bfd0918f3e2ffcc07d9c76800d4ba909f87e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 09/20] fix: a transaction with a pending final effect produced
 further effects

---
 src/stun/stun_client_udp.cpp | 32 ++++++++++++++++++++------------
 src/stun/stun_client_udp.hpp |  2 ++
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 44ca5fd..fa71f63 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -82,7 +82,7 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
         Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
-        if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
+        if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.finished) {
             auto& t = it->second;
             auto se = t.rtx_algo->next(now)
                 .fmap([&](auto&& next) -> Effect {
@@ -92,6 +92,7 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
                     return SendData{hnd, util::ConstBinaryView(t.msg_data)};
                 })
                 .value_or(TransactionFailed{hnd, TransactionFailed::Timeout{}});
+            t.finished = std::holds_alternative<TransactionFailed>(se);
             m_effects.emplace(std::move(se));
         } // When not found transaction were cleaned before.
     }
@@ -120,7 +121,7 @@ Result<ClientUDP::TransactionRef> ClientUDP::find_transaction(const TransactionI
     }
     auto hnd = i->second;
     auto j = m_tmap.find(hnd);
-    if (j == m_tmap.end()) {
+    if (j == m_tmap.end() || j->second.finished) {
         m_stat.transaction_not_found.inc();
         return make_error_code(ClientError::transaction_not_found);
     }
@@ -216,7 +217,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -255,7 +256,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
                     return TransactionFailed{t.hnd, std::move(reason)};
                 });
         });
-    m_effects.emplace(effect);
+    finish(t, std::move(effect));
 
     return success();
 }
@@ -270,7 +271,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -278,7 +279,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (maybe_msg_error_code.is_none()) {
         m_stat.no_error_code.inc();
         auto reason = TransactionFailed::Error{make_error_code(ClientError::no_error_code_in_response)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     const auto& msg_error_code = maybe_msg_error_code.unwrap().get();
@@ -289,13 +290,13 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         if (maybe_alt_srv.is_none()) {
             m_stat.no_alternate_server_attr.inc();
             auto reason = TransactionFailed::Error{make_error_code(ClientError::no_alternate_server_in_response)};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         const auto& alt_srv = maybe_alt_srv.unwrap().get();
         m_stat.try_alternate_responses.inc();
         auto reason = TransactionFailed::AlternateServer{{alt_srv.addr, alt_srv.port}};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -309,7 +310,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         // Alternate server is checked above.
         m_stat.response_3xx.inc();
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 4: {
@@ -322,12 +323,12 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             const auto& maybe_ua = msg.attribute_set.unknown_attributes();
             if (maybe_ua.is_some()) {
                 auto reason = TransactionFailed::UnknownAttributeReported{maybe_ua.unwrap().get().types};
-                m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+                finish(t, TransactionFailed{t.hnd, std::move(reason)});
                 return success();
             }
         }
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        finish(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 5: {
@@ -340,7 +341,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            finish(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         }
@@ -371,6 +372,13 @@ ClientUDP::RetransmitAlgoPtr ClientUDP::allocate_rtx_algo(const net::Path& path,
             m_settings.retransmit);
 }
 
+void ClientUDP::finish(Transaction& t, Effect&& effect) {
+    // Final effect is pending: neither responses nor timeouts
+    // may produce other effects of this transaction.
+    t.finished = true;
+    m_effects.emplace(std::move(effect));
+}
+
 void ClientUDP::cleanup(const Handle& hnd) {
     if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
         const auto& tid = it->second.tid;
diff --git a/src/stun/stun_client_udp.hpp b/src/stun/stun_client_udp.hpp
index ef7ee7e..930101f 100644
--- a/src/stun/stun_client_udp.hpp
+++ b/src/stun/stun_client_udp.hpp
@@ -120,6 +120,7 @@ private:
         Timepoint create_time;
         MaybeAuth maybe_auth;
         unsigned rtx_count = 0;
+        bool finished = false;
     };
     using TransactionRef = std::reference_wrapper<Transaction>;
     using TimelineItem = std::pair<Timepoint, Handle>;
@@ -136,6 +137,7 @@ private:
     MaybeError handle_error_response(Timepoint now, Transaction& trans, Message&& msg);
     Handle allocate_handle() noexcept;
     RetransmitAlgoPtr allocate_rtx_algo(const net::Path& path, Timepoint now);
+    void finish(Transaction&, Effect&&);
     void cleanup(const Handle&);
 
     const Settings m_settings;
-- 
2.43.0


From b7105ed9d0054c52f15da653f1130ea03fe0de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 10/20] fix: the final retransmission timeout must count 5xx
 retransmits

---
 src/stun/stun_client_udp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index fa71f63..09c75a8 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -466,7 +466,7 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
     if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
         return std::make_pair(none(), Duration(0));
     }
-    auto current = m_rtx_count + 2 == m_settings.request_count
+    auto current = m_rtx_count + 2 == m_settings.request_count + m_5xx_count
         ? m_initial_rto * m_settings.retransmission_multiplier
         : m_last_timeout * 2;
 
-- 
2.43.0


From 8fc8eebd822a4e8a0e18dd14b60e24dd9891e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 11/20] fix: a retransmit scheduled by a 5xx response was sent
 at the wrong time

---
 src/stun/stun_client_udp.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 09c75a8..453374e 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -25,6 +25,8 @@ public:
     };
     Process5xxResult process_5xx(Timepoint, int code);
     Duration last_timeout() const;
+    MaybeTimepoint scheduled() const;
+    bool is_due(Timepoint now) const;
 private:
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
     const Duration m_initial_rto;
@@ -84,6 +86,9 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
         m_tid_timeline.pop();
         if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.finished) {
             auto& t = it->second;
+            if (!t.rtx_algo->is_due(now)) {
+                continue; // was rescheduled after 5xx response
+            }
             auto se = t.rtx_algo->next(now)
                 .fmap([&](auto&& next) -> Effect {
                     m_stat.retransmits.inc();
@@ -338,6 +343,10 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         m_stat.response_5xx.inc();
         switch (t.rtx_algo->process_5xx(now, msg_error_code.code)) {
         case RetransmitAlgo::Process5xxResult::RetransmitScheduled:
+            t.rtx_algo->scheduled()
+                .with_inner([&](auto&& timepoint) {
+                    m_tid_timeline.emplace(timepoint, t.hnd);
+                });
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
@@ -462,6 +471,18 @@ ClientUDP::Duration ClientUDP::RetransmitAlgo::last_timeout() const {
     return m_last_timeout;
 }
 
+ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::scheduled() const {
+    return m_maybe_next;
+}
+
+bool ClientUDP::RetransmitAlgo::is_due(Timepoint now) const {
+    return m_maybe_next
+        .fmap([&](auto&& next) {
+            return !now.is_before(next);
+        })
+        .value_or(true);
+}
+
 std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::RetransmitAlgo::calc_next(Timepoint now) const noexcept {
     if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
         return std::make_pair(none(), Duration(0));
-- 
2.43.0


From 5b9ca9fa141f32fbb3b6a330f7e2a050a1a1371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 12/20] fix: messages with nonzero leading bits are not STUN
 messages

---
 src/stun/stun_error.cpp      | 1 +
 src/stun/stun_error.hpp      | 3 ++-
 src/stun/stun_message.cpp    | 6 ++++++
 src/stun/stun_parse_stat.hpp | 1 +
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_error.cpp b/src/stun/stun_error.cpp
index 0f0e9c6..1f2ea7b 100644
--- a/src/stun/stun_error.cpp
+++ b/src/stun/stun_error.cpp
@@ -38,6 +38,7 @@ public:
         case ParseError::error_code_attribute_size: return "invalid error code attribute size";
         case ParseError::unknown_attributes_attribute_size: return "invalid unknown attributes attribute size";
         case ParseError::unknown_addr_family:       return "unknown addr family";
+        case ParseError::invalid_message_type:      return "invalid message type";
         }
         return "unknown stun error";
     }
diff --git a/src/stun/stun_error.hpp b/src/stun/stun_error.hpp
index 2521942..725440d 100644
--- a/src/stun/stun_error.hpp
+++ b/src/stun/stun_error.hpp
@@ -33,7 +33,8 @@ enum class ParseError {
     use_candidate_size,
     error_code_attribute_size,
     unknown_attributes_attribute_size,
-    unknown_addr_family
+    unknown_addr_family,
+    invalid_message_type
 };
 
 enum class ClientError {
diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 9dc34c6..1762d7a 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -62,6 +62,12 @@ Result<Message> Message::parse(const util::ConstBinaryView& vv, ParseStat& stat)
     const uint16_t msg_length = vv.assured_read_u16be(2);
     const uint32_t magic_cookie = vv.assured_read_u32be(4);
 
+    // The most significant 2 bits of every STUN message MUST be zeroes.
+    if ((msg_type & 0xC000) != 0) {
+        stat.error.inc();
+        stat.message_type_error.inc();
+        return make_error_code(ParseError::invalid_message_type);
+    }
     // The message length MUST contain the size, in bytes, of the message
     // not including the 20-byte STUN header.  Since all STUN attributes are
     // padded to a multiple of 4 bytes, the last 2 bits of this field are
diff --git a/src/stun/stun_parse_stat.hpp b/src/stun/stun_parse_stat.hpp
index 7105cef..eacaa72 100644
--- a/src/stun/stun_parse_stat.hpp
+++ b/src/stun/stun_parse_stat.hpp
@@ -19,6 +19,7 @@ struct ParseStat {
     stat::Counter not_padded;
     stat::Counter message_length_error;
     stat::Counter magic_cookie_error;
+    stat::Counter message_type_error;
     stat::Counter invalid_attr_size;
     stat::Counter fingerprint_not_last;
     stat::Counter invalid_fingerprint;
-- 
2.43.0


From 9bcd355b52d5c7ee749617d7541c2352cf4553e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 13/20] fix: error categories of rtp, util and net were named
 after each other

---
 src/net/net_error.cpp        | 2 +-
 src/rtp/rtp_error.cpp        | 2 +-
 src/util/util_error_code.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/net/net_error.cpp b/src/net/net_error.cpp
index 4e44f97..416470a 100644
--- a/src/net/net_error.cpp
+++ b/src/net/net_error.cpp
@@ -24,7 +24,7 @@ public:
         case Error::fqdn_not_fully_parsed: return "FQDN is not fully parsed";
         case Error::invalid_port_value: return "invalid port value";
         }
-        return "unknown stun error";
+        return "unknown net error";
     }
 };
 
diff --git a/src/rtp/rtp_error.cpp b/src/rtp/rtp_error.cpp
index 567ee37..9ee9a41 100644
--- a/src/rtp/rtp_error.cpp
+++ b/src/rtp/rtp_error.cpp
@@ -13,7 +13,7 @@ namespace freewebrtc::rtp {
 class ErrorCategory : public std::error_category {
 public:
     const char* name() const noexcept override {
-        return "net error";
+        return "rtp error";
     }
     std::string message(int code) const override {
         switch ((Error)code) {
diff --git a/src/util/util_error_code.cpp b/src/util/util_error_code.cpp
index 4af148a..caef659 100644
--- a/src/util/util_error_code.cpp
+++ b/src/util/util_error_code.cpp
@@ -13,7 +13,7 @@ namespace freewebrtc::util {
 class ErrorCategory : public std::error_category {
 public:
     const char* name() const noexcept override {
-        return "net error";
+        return "util error";
     }
     std::string message(int code) const override {
         switch ((ErrorCode)code) {
-- 
2.43.0


From 60b6eeba1b67002bec2fee27ff8e0f0f59733ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 14/20] fix: case-insensitive comparison of non-ASCII
 characters was undefined

---
 src/abnf/abnf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abnf/abnf.hpp b/src/abnf/abnf.hpp
index 72fb84e..62372dc 100644
--- a/src/abnf/abnf.hpp
+++ b/src/abnf/abnf.hpp
@@ -41,7 +41,7 @@ inline bool eq_string(std::string_view v1, std::string_view v2) {
         return false;
     }
     for (std::string_view::size_type i = 0; i < v1.size(); ++i) {
-        if (std::tolower(v1[i]) != std::tolower(v2[i])) {
+        if (std::tolower((unsigned char)v1[i]) != std::tolower((unsigned char)v2[i])) {
             return false;
         }
     }
-- 
2.43.0


From c7176ff34b8770e07c1ebbe836eff3aeb493d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 15/20] fix: an IP address followed by a NUL and anything else
 was accepted

---
 src/net/ip/ip_address.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/net/ip/ip_address.cpp b/src/net/ip/ip_address.cpp
index b6c0ccb..56b3bc3 100644
--- a/src/net/ip/ip_address.cpp
+++ b/src/net/ip/ip_address.cpp
@@ -15,6 +15,9 @@ namespace freewebrtc::net::ip {
 template<typename AddressType, typename InetStruct, int INET_FAMILY>
 Result<AddressType> inet_pton_adapter(const std::string_view& v) {
     InetStruct ip_addr;
+    if (v.find('\0') != std::string_view::npos) { // inet_pton would stop there
+        return make_error_code(Error::ip_address_parse_error);
+    }
     // IEEE Std 1003.1-2017:
     // The inet_pton() function shall return 1 if the conversion
     // succeeds, with the address pointed to by dst in network byte
-- 
2.43.0


From b71b5029781ef237565c4f6726045d41cc05d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 16/20] fix: a copied token stream read the tokens of the
 original

---
 src/util/util_token_stream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/util_token_stream.hpp b/src/util/util_token_stream.hpp
index 6a1016e..6c6bf58 100644
--- a/src/util/util_token_stream.hpp
+++ b/src/util/util_token_stream.hpp
@@ -31,6 +31,9 @@ public:
 
     TokenStream(const Container&);
     TokenStream(Container&&);
+    // position refers to own data
+    TokenStream(const TokenStream&) = delete;
+    TokenStream& operator=(const TokenStream&) = delete;
 
     // Read next required token and transform it with function F
     template<typename F>
-- 
2.43.0


From 7f0da5211a655f135334c991ed82f6be0b728a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 17/20] fix: node openssl hash: report failed updates instead
 of returning a digest of part of the data

---
 node/openssl/node_openssl_hash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node/openssl/node_openssl_hash.cpp b/node/openssl/node_openssl_hash.cpp
index bfc341c..178310e 100644
--- a/node/openssl/node_openssl_hash.cpp
+++ b/node/openssl/node_openssl_hash.cpp
@@ -55,7 +55,9 @@ typename Hash::Result MessageDigest::calc(const typename Hash::Input& input) {
     }
 
     for (const auto& chunk: input) {
-        update(chunk);
+        if (auto maybe_err = update(chunk); maybe_err.is_err()) {
+            return maybe_err.unwrap_err();
+        }
     }
 
     typename Hash::Value v;
-- 
2.43.0


From 86560136f85782185351eff53d725806e225ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 18/20] fix: moving an intrusive list link by assignment keeps
 both lists linked

The defaulted assignment copied the pointers of the other link (and its owner)
without telling the neighbours: the lists were left inconsistent and clearing
them never ended.
---
 src/util/util_intrusive_list.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/util/util_intrusive_list.hpp b/src/util/util_intrusive_list.hpp
index 1032620..1ceb138 100644
--- a/src/util/util_intrusive_list.hpp
+++ b/src/util/util_intrusive_list.hpp
@@ -76,7 +76,8 @@ public:
     ~Link();
     // No any types of copy
     Link& operator=(const Link&) = delete;
-    Link& operator=(Link&&) = default;
+    // Takes place of other link in its list. Owner is not changed.
+    Link& operator=(Link&&) noexcept;
 
     T& get() noexcept;
     const T& get() const noexcept;
@@ -122,6 +123,19 @@ IntrusiveList<T>::Link::Link(T& t, Link&& other)
     other.m_prev = none();
 }
 
+template<typename T>
+typename IntrusiveList<T>::Link& IntrusiveList<T>::Link::operator=(Link&& other) noexcept {
+    if (&other == this) { // self assignment
+        return *this;
+    }
+    remove();
+    if (other.in_list()) {
+        place_after(other);
+        other.remove();
+    }
+    return *this;
+}
+
 template<typename T>
 IntrusiveList<T>::Link::~Link() {
     remove();
-- 
2.43.0


From 2bb840ba47066bfa606e2c70d44dd3da719bc3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 19/20] fix: a move-assigned intrusive list uses the link
 member its elements are linked by

---
 src/util/util_intrusive_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/util_intrusive_list.hpp b/src/util/util_intrusive_list.hpp
index 1ceb138..b9c04ad 100644
--- a/src/util/util_intrusive_list.hpp
+++ b/src/util/util_intrusive_list.hpp
@@ -229,6 +229,7 @@ IntrusiveList<T>& IntrusiveList<T>::operator=(IntrusiveList&& other) {
         return *this;
     }
     clear();
+    m_link_member = other.m_link_member;
     if (other.empty()) {
         return *this;
     }
-- 
2.43.0


From b00ecef35e15ca84be90775e699bf8358825de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 20/20] fix: ordering comparisons of client handles did not
 compile

---
 src/stun/stun_client_udp_handle.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp_handle.hpp b/src/stun/stun_client_udp_handle.hpp
index 2b29bdf..4b6b148 100644
--- a/src/stun/stun_client_udp_handle.hpp
+++ b/src/stun/stun_client_udp_handle.hpp
@@ -9,13 +9,14 @@
 #pragma once
 
 #include <stddef.h>
+#include <compare>
 #include <functional>
 
 namespace freewebrtc::stun::client_udp {
 
 struct Handle {
     unsigned value;
-    bool operator<=>(const Handle&) const noexcept = default;
+    auto operator<=>(const Handle&) const noexcept = default;
 };
 
 struct HandleHash {
-- 
2.43.0

