From 398ad2a60b5d9315ecf300bb2493474dfc9810b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 01/20] fix: compute the distance in shrink::towards without
 signed overflow

value - target was evaluated in the promoted signed type, which is undefined
for int and wider when the two are more than half the range apart. Subtract in
the unsigned type instead.
---
 include/rapidcheck/shrink/Shrink.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 9ac4bc2..1aad78a 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -18,7 +18,9 @@ public:
 
   TowardsSeq(T value, T target)
       : m_value(value)
-      , m_diff((target < value) ? (value - target) : (target - value))
+      , m_diff((target < value)
+                   ? (static_cast<UInt>(value) - static_cast<UInt>(target))
+                   : (static_cast<UInt>(target) - static_cast<UInt>(value)))
       , m_down(target < value) {}
 
   Maybe<T> operator()() {
-- 
2.43.0


From ec197de1c7a6e0daf950a7404a7061009567a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 02/20] fix: cap the size in BitStream::nextWithSize before
 scaling

Size is documented to max out at kNominalSize, but sizes of 2^31 / width and
above overflowed the multiplication and drew no bits at all.
---
 include/rapidcheck/detail/BitStream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rapidcheck/detail/BitStream.hpp b/include/rapidcheck/detail/BitStream.hpp
index a4a2157..071d6a7 100644
--- a/include/rapidcheck/detail/BitStream.hpp
+++ b/include/rapidcheck/detail/BitStream.hpp
@@ -85,6 +85,9 @@ T BitStream<Source>::next(int nbits, std::false_type) {
 template <typename Source>
 template <typename T>
 T BitStream<Source>::nextWithSize(int size) {
+  // The number of bits maxes out at kNominalSize, also for sizes so large that
+  // the multiplication would overflow
+  size = std::min(size, kNominalSize);
   return next<T>((size * numBits<T>() + (kNominalSize / 2)) / kNominalSize);
 }
 
-- 
2.43.0


From dcfdc42cb90114ccf9e91a5666beb4746b1ab1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:21 +0000
Subject: [PATCH 03/20] fix: shrink wide characters without truncating them to
 char

shrink::character converted the value to char before testing and lowering
its case, so a wide character such as 0x100 could shrink to NUL and 0xC0 to
0xFFFFFFC0.
---
 include/rapidcheck/shrink/Shrink.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 1aad78a..8459779 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -190,13 +190,12 @@ Seq<bool> boolean(bool value) { return value ? seq::just(false) : Seq<bool>(); }
 template <typename T>
 Seq<T> character(T value) {
   const auto &locale = std::locale::classic();
-  auto shrinks = seq::cast<T>(seq::concat(
-      seq::fromContainer(std::string("abc")),
+  auto shrinks = seq::concat(
+      seq::cast<T>(seq::fromContainer(std::string("abc"))),
       // TODO this seems a bit hacky
-      std::islower(static_cast<char>(value), locale)
-          ? Seq<char>()
-          : seq::just(static_cast<char>(std::tolower(value, locale))),
-      seq::fromContainer(std::string("ABC123 \n"))));
+      std::islower(value, locale) ? Seq<T>()
+                                  : seq::just(std::tolower(value, locale)),
+      seq::cast<T>(seq::fromContainer(std::string("ABC123 \n"))));
 
   return seq::takeWhile(std::move(shrinks), [=](T x) { return x != value; });
 }
-- 
2.43.0


From abdaa44c76728c45a377d0f48c165ff15f420328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 04/20] fix: check the input when deserializing a Random

The last byte was read without checking for the end of the input, a bit
index that no generator can have was accepted and later used to shift by,
and the block of the generator being overwritten was kept when the counter
is zero.
---
 include/rapidcheck/Random.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index a2559b8..5aef0c3 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -36,10 +36,18 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
       output.m_counter = counter - blki;
       output.mash(output.m_block);
     }
+  } else {
+    output.m_block = Random::Block();
   }
   output.m_counter = counter;
 
+  if (iit == end) {
+    throw SerializationException("Unexpected end of input");
+  }
   output.m_bitsi = *iit;
+  if (output.m_bitsi > Random::kBits) {
+    throw SerializationException("Invalid number of bits");
+  }
   return ++iit;
 }
 
-- 
2.43.0


From a9228670c99110fc67f8d194eec73522cb89c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 05/20] fix: do not reserve an unverified length when
 deserializing strings

A malformed length made deserialization fail with std::length_error or
std::bad_alloc instead of SerializationException.
---
 include/rapidcheck/detail/Serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index a0e8e1e..340c54d 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -54,8 +54,8 @@ Iterator deserialize(Iterator begin, Iterator end, std::string &output) {
   std::size_t len;
   iit = deserializeCompact(iit, end, len);
 
+  // The length is not to be trusted so do not reserve based on it
   output.clear();
-  output.reserve(len);
   while (output.size() < len) {
     if (iit == end) {
       throw SerializationException("Unexpected end of input");
-- 
2.43.0


From eb7cbcebc35138ea3e453f82217a63f19df7ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 06/20] fix: reject compact integers with too many digits

They were shifted by more than the width of the type.
---
 include/rapidcheck/detail/Serialization.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index 340c54d..14484c1 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -190,6 +190,9 @@ Iterator deserializeCompact(Iterator begin, Iterator end, T &output) {
   int nbits = 0;
   for (auto it = begin; it != end; it++) {
     auto x = static_cast<std::uint8_t>(*it);
+    if (nbits >= std::numeric_limits<UInt>::digits) {
+      throw SerializationException("Integer out of range");
+    }
     uvalue |= static_cast<UInt>(x & 0x7F) << nbits;
     nbits += 7;
     if ((x & 0x80) == 0) {
-- 
2.43.0


From 6047916b72cfc80c832b82a77ad555306af14cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:21 +0000
Subject: [PATCH 07/20] fix: reject configuration values with trailing
 characters

---
 src/detail/Configuration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/Configuration.cpp b/src/detail/Configuration.cpp
index 5a9f91c..2e315a0 100644
--- a/src/detail/Configuration.cpp
+++ b/src/detail/Configuration.cpp
@@ -48,7 +48,8 @@ template <typename T>
 void fromString(const std::string &str, T &out, bool &ok) {
   std::istringstream in(std::move(str));
   in >> out;
-  ok = !in.fail();
+  // Trailing characters mean that the value as a whole is not valid
+  ok = !in.fail() && (in >> std::ws).eof();
 }
 
 template <typename T>
-- 
2.43.0


From 0bf2655fe9694d9e27958c3cf6e284a3eb32d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:38 +0000
Subject: [PATCH 08/20] fix: avoid integer overflow in test sizes and the
 discard limit

---
 src/detail/Testing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 8ec5b6e..672f5b1 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -12,17 +12,18 @@ int sizeFor(const TestParams &params, int i) {
   // multiple of the number of sizes (i.e. maxSize + 1). Another thing is that
   // we always want to ensure that the maximum size is actually used.
 
-  const auto numSizes = params.maxSize + 1;
+  // Use a wide type, `maxSize` and `maxSuccess` can be any non-negative `int`.
+  const auto numSizes = static_cast<int64_t>(params.maxSize) + 1;
   const auto numRegular = (params.maxSuccess / numSizes) * numSizes;
   if (i < numRegular) {
-    return i % numSizes;
+    return static_cast<int>(i % numSizes);
   }
 
   const auto numRest = params.maxSuccess - numRegular;
   if (numRest == 1) {
     return 0;
   } else {
-    return ((i % numSizes) * params.maxSize) / (numRest - 1);
+    return static_cast<int>(((i % numSizes) * params.maxSize) / (numRest - 1));
   }
 }
 
@@ -37,7 +38,8 @@ SearchResult searchProperty(const Property &property,
   searchResult.numDiscarded = 0;
   searchResult.tags.reserve(params.maxSuccess);
 
-  const auto maxDiscard = params.maxDiscardRatio * params.maxSuccess;
+  const auto maxDiscard =
+      static_cast<int64_t>(params.maxDiscardRatio) * params.maxSuccess;
 
   auto recentDiscards = 0;
   auto r = Random(params.seed);
-- 
2.43.0


From afb977446d5a8897c75c03b6100328272549abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 09/20] fix: keep the key function alive in shrinks of unique
 containers

---
 include/rapidcheck/gen/Container.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index adfd837..c6d07dc 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -266,13 +266,16 @@ public:
       keys->insert(m_f(shrinkable.value()));
     }
 
+    // The sequence may outlive this strategy so it needs its own copy of the key
+    // function.
+    const auto f = m_f;
     return shrink::eachElement(shrinkables,
-                               [this, keys](const Shrinkable<T> &s) {
-                                 const auto valueKey = m_f(s.value());
+                               [f, keys](const Shrinkable<T> &s) {
+                                 const auto valueKey = f(s.value());
                                  return seq::filter(
                                      s.shrinks(),
-                                     [this, keys, valueKey](const Shrinkable<T> &shrink) {
-                                       const auto shrinkKey = m_f(shrink.value());
+                                     [f, keys, valueKey](const Shrinkable<T> &shrink) {
+                                       const auto shrinkKey = f(shrink.value());
                                        return (!(valueKey < shrinkKey) &&
                                                !(shrinkKey < valueKey)) ||
                                            keys->count(shrinkKey) == 0;
-- 
2.43.0


From 3d5a40d3185884fcd02ab1da781eabd864e89413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 10/20] fix: escape backslashes and write fixed width hex when
 showing strings

---
 src/Show.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/Show.cpp b/src/Show.cpp
index ae5272b..c836627 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -2,7 +2,6 @@
 
 #include <string>
 #include <iostream>
-#include <iomanip>
 #include <cctype>
 #include <locale>
 
@@ -16,7 +15,7 @@ void showValue(const std::string &value, std::ostream &os) {
     if (!std::isspace(c, locale) && std::isprint(c, locale)) {
       switch (c) {
       case '\\':
-        os << "\\";
+        os << "\\\\";
         break;
       case '"':
         os << "\\\"";
@@ -54,11 +53,8 @@ void showValue(const std::string &value, std::ostream &os) {
         os << ' ';
         break;
       default:
-        auto flags = os.flags();
-        os << "\\x";
-        os << std::hex << std::setprecision(2) << std::uppercase
-           << static_cast<int>(c & 0xFF);
-        os.flags(flags);
+        os << "\\x" << "0123456789ABCDEF"[(c >> 4) & 0xF]
+           << "0123456789ABCDEF"[c & 0xF];
       }
     }
   }
-- 
2.43.0


From 2644c607fe4998b284a27a7884acbc08151f4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 11/20] fix: show null pointers instead of dereferencing them

---
 include/rapidcheck/Show.hpp | 4 ++++
 src/Show.cpp                | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index b3fe559..a83aee9 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -63,6 +63,10 @@ void showValue(const char *value, std::ostream &os);
 
 template <typename T>
 void showValue(T *p, std::ostream &os) {
+  if (!p) {
+    os << "nullptr";
+    return;
+  }
   show(*p, os);
   auto flags = os.flags();
   os << " (" << std::hex << std::showbase << p << ")";
diff --git a/src/Show.cpp b/src/Show.cpp
index c836627..3344a34 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -62,6 +62,10 @@ void showValue(const std::string &value, std::ostream &os) {
 }
 
 void showValue(const char *value, std::ostream &os) {
+  if (!value) {
+    os << "nullptr";
+    return;
+  }
   show(std::string(value), os);
 }
 
-- 
2.43.0


From ed8b5744c344650354c4d3f230ae38fa3b249a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 12/20] fix: show signed char as a number like the other
 characters

---
 include/rapidcheck/Show.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index a83aee9..374c15f 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -53,6 +53,7 @@ void showValue(T value,
 template <typename T>
 void showValue(T value,
                typename std::enable_if<(std::is_same<T, char>::value ||
+                                        std::is_same<T, signed char>::value ||
                                         std::is_same<T, unsigned char>::value),
                                        std::ostream>::type &os) {
   os << static_cast<int>(value);
-- 
2.43.0


From ff0727f66723f503e01579930607fa591371c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:22 +0000
Subject: [PATCH 13/20] fix: restore the stream format after printing a
 distribution

---
 src/detail/Results.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/detail/Results.cpp b/src/detail/Results.cpp
index f50e177..6895357 100644
--- a/src/detail/Results.cpp
+++ b/src/detail/Results.cpp
@@ -100,6 +100,9 @@ void printDistribution(const SuccessResult &result, std::ostream &os) {
       end(entries),
       [](const Entry &p1, const Entry &p2) { return p2.second < p1.second; });
 
+  const auto flags = os.flags();
+  const auto precision = os.precision();
+
   for (const auto &entry : entries) {
     const auto percent =
         (static_cast<double>(entry.second) / result.numSuccess) * 100.0;
@@ -113,6 +116,9 @@ void printDistribution(const SuccessResult &result, std::ostream &os) {
     }
     os << std::endl;
   }
+
+  os.flags(flags);
+  os.precision(precision);
 }
 }
 
-- 
2.43.0


From 858a02b3d56461e57da5d5183f44beea31c54552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 14/20] fix: allow assigning from an empty Seq

---
 include/rapidcheck/Seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/Seq.hpp b/include/rapidcheck/Seq.hpp
index 5962f1f..eac8f55 100644
--- a/include/rapidcheck/Seq.hpp
+++ b/include/rapidcheck/Seq.hpp
@@ -55,7 +55,7 @@ Seq<T>::Seq(const Seq &other)
 
 template <typename T>
 Seq<T> &Seq<T>::operator=(const Seq &rhs) {
-  m_impl = rhs.m_impl->copy();
+  m_impl = rhs.m_impl ? rhs.m_impl->copy() : nullptr;
   return *this;
 }
 
-- 
2.43.0


From 7ae38904c28d1da2ccbbc2ebe2184b84afd72508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 15/20] fix: allow copying moved-from shrinkables and
 generators

---
 include/rapidcheck/Gen.hpp        | 8 ++++++--
 include/rapidcheck/Shrinkable.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/Gen.hpp b/include/rapidcheck/Gen.hpp
index 0c48004..8c35cf6 100644
--- a/include/rapidcheck/Gen.hpp
+++ b/include/rapidcheck/Gen.hpp
@@ -95,12 +95,16 @@ Gen<T> Gen<T>::as(const std::string &name) const {
 template <typename T>
 Gen<T>::Gen(const Gen &other) noexcept : m_impl(other.m_impl),
                                          m_name(other.m_name) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(const Gen &rhs) noexcept {
-  rhs.m_impl->retain();
+  if (rhs.m_impl) {
+    rhs.m_impl->retain();
+  }
   if (m_impl) {
     m_impl->release();
   }
diff --git a/include/rapidcheck/Shrinkable.hpp b/include/rapidcheck/Shrinkable.hpp
index 20e0f7b..bf76153 100644
--- a/include/rapidcheck/Shrinkable.hpp
+++ b/include/rapidcheck/Shrinkable.hpp
@@ -56,7 +56,9 @@ Seq<Shrinkable<T>> Shrinkable<T>::shrinks() const noexcept {
 template <typename T>
 Shrinkable<T>::Shrinkable(const Shrinkable &other) noexcept
     : m_impl(other.m_impl) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
@@ -66,7 +68,9 @@ Shrinkable<T>::Shrinkable(Shrinkable &&other) noexcept : m_impl(other.m_impl) {
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(const Shrinkable &other) noexcept {
-  other.m_impl->retain();
+  if (other.m_impl) {
+    other.m_impl->retain();
+  }
   if (m_impl) {
     m_impl->release();
   }
-- 
2.43.0


From e68352f1e2db13b04c31f7c9f4c35deebafab3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 16/20] fix: destroy the temporary when copy assigning a
 Variant

---
 include/rapidcheck/detail/Variant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index e1b2da0..f9f4c16 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -169,6 +169,7 @@ operator=(const Variant &rhs) noexcept(
     copy(rhs.m_typeIndex, &tmp, &rhs.m_storage);
     destroy(m_typeIndex, &m_storage);
     move(rhs.m_typeIndex, &m_storage, &tmp);
+    destroy(rhs.m_typeIndex, &tmp);
     m_typeIndex = rhs.m_typeIndex;
   }
 
-- 
2.43.0


From 44afa3f74519b7eca35f07b17a0f3068ad2070fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:02 +0000
Subject: [PATCH 17/20] fix: let the doctest integration compile

---
 extras/doctest/include/rapidcheck/doctest.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extras/doctest/include/rapidcheck/doctest.h b/extras/doctest/include/rapidcheck/doctest.h
index 65229cd..810911a 100644
--- a/extras/doctest/include/rapidcheck/doctest.h
+++ b/extras/doctest/include/rapidcheck/doctest.h
@@ -7,6 +7,11 @@
 
 namespace rc::doctest {
 
+// The macros of 'doctest' name these relative to a namespace called 'doctest',
+// which in here is this one.
+namespace detail = ::doctest::detail;
+namespace assertType = ::doctest::assertType;
+
 /**
  * Checks the given predicate by applying it to randomly generated arguments.
  *
@@ -42,7 +47,7 @@ void check(const char*          d,
            std::source_location s = std::source_location::current())
 {
   using namespace rc::detail;
-  using namespace doctest::detail;
+  using namespace ::doctest::detail;
 
   DOCTEST_SUBCASE(d)
   {
-- 
2.43.0


From 59d641026435800fad6a5d6bb484530948b2b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 18/20] fix: let rc::show find showValue for boost::optional

The overload lives in namespace rc while rc::show is a template that is
defined before it, so only argument-dependent lookup could find it and that
only looks in namespace boost. Showing a counterexample holding a
boost::optional did not compile, or printed it with operator<< from
optional_io.hpp if that header was included.
---
 .../boost/include/rapidcheck/gen/boost/Optional.hpp   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
index aeb4212..bde4b4f 100644
--- a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
+++ b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
@@ -23,13 +23,18 @@ struct Arbitrary<boost::optional<T>> {
   }
 };
 
+} // namespace rc
+
+namespace boost {
+
+// Defined here so that `rc::show` finds it through argument-dependent lookup.
 template <typename T>
-void showValue(const boost::optional<T> &x, std::ostream &os) {
+void showValue(const optional<T> &x, std::ostream &os) {
   if (x) {
-    show(*x, os);
+    ::rc::show(*x, os);
   } else {
     os << "boost::none";
   }
 }
 
-} // namespace rc
+} // namespace boost
-- 
2.43.0


From d18e2904b717a453a89c75ef728649357487eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:48 +0000
Subject: [PATCH 19/20] fix: do not move the key function of the caller into
 gen::uniqueBy

---
 include/rapidcheck/gen/Container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index c6d07dc..93b071f 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -238,7 +238,7 @@ class UniqueContainerStrategy {
 public:
   template <typename Arg>
   explicit UniqueContainerStrategy(Arg &&arg)
-      : m_f(std::move(arg)) {}
+      : m_f(std::forward<Arg>(arg)) {}
 
   template <typename T>
   Shrinkables<T> generateElements(const Random &random,
-- 
2.43.0


From 3ed580dbe0838ae207068fbb855d24e7f539471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:48 +0000
Subject: [PATCH 20/20] fix: offer shrinks of set elements and map keys that
 are equivalent to the original

---
 include/rapidcheck/gen/Container.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index 93b071f..31371df 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -113,8 +113,10 @@ public:
                              [=](const Shrinkable<T> &x) {
                                // Here we filter out shrinks that collide with
                                // another value in the set because that would
-                               // produce an identical set.
-                               return set->find(x.value()) == set->end();
+                               // produce a smaller set.
+                               const auto it = set->find(x.value());
+                               return (it == set->end()) ||
+                                   (it == set->find(s.value()));
                              });
         });
   }
@@ -171,15 +173,12 @@ public:
               [=](const Shrinkable<std::pair<K, V>> &elemShrink) {
                 // Here we filter out values with keys that collide
                 // with other keys of the map. However, if the key
-                // is the same, that means that something else
-                // in this shrink since we expect shrinks to not
-                // equal the original.
-                // NOTE: This places the restriction that the key must
-                // have an equality operator that works but that's
-                // usually true for types used as keys anyway.
-                const auto shrinkValue = elemShrink.value();
-                return (map->find(shrinkValue.first) == map->end()) ||
-                    (shrinkValue.first == elem.value().first);
+                // is equivalent to that of the element itself, that
+                // means that something else in this shrink since we
+                // expect shrinks to not equal the original.
+                const auto it = map->find(elemShrink.value().first);
+                return (it == map->end()) ||
+                    (it == map->find(elem.value().first));
               });
         });
   }
-- 
2.43.0

