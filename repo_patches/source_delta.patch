From 1a90efa0655c6556e5294a6c9f7adb7233f165c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 01/37] fix: define header functions inline so the library
 links from several translation units

---
 src/milo/internal/arch/x86_64.h | 1 +
 src/milo/literal.h              | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index 1122314..a84eed5 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -37,6 +37,7 @@ namespace milo::internal
     
     #if MILO_INTERNAL_ARCH_X86_64
     
+    inline
     auto
     arch_x86_64_cpuid(
         uint32_t* a_info_ptr,
diff --git a/src/milo/literal.h b/src/milo/literal.h
index 71d4b71..3a237b8 100644
--- a/src/milo/literal.h
+++ b/src/milo/literal.h
@@ -11,7 +11,7 @@
 
 namespace milo::literal
 {
-    auto
+    inline auto
     operator "" _b(
         const char* a_ptr,
         size_t a_size
@@ -23,7 +23,7 @@ namespace milo::literal
         };
     }
     
-    auto
+    inline auto
     operator "" _bv(
         const char* a_ptr,
         size_t a_size
-- 
2.43.0


From ba63a444273e0f28150a22e8a146b64e4040984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 02/37] fix: mark assembly objects as not needing an executable
 stack

---
 src/milo/internal/arch/x86_64/abi.asm | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/milo/internal/arch/x86_64/abi.asm b/src/milo/internal/arch/x86_64/abi.asm
index b5e6ee3..24b1efe 100644
--- a/src/milo/internal/arch/x86_64/abi.asm
+++ b/src/milo/internal/arch/x86_64/abi.asm
@@ -15,3 +15,9 @@
     %define abi_arg_2 r8
     %define abi_arg_3 r9
 %endif
+
+; Without this note elf linkers mark the stack of the whole program as executable.
+%ifidn __OUTPUT_FORMAT__, elf64
+    section .note.GNU-stack noalloc noexec nowrite progbits
+    section .text
+%endif
-- 
2.43.0


From 0ed348502402889d2c095d6cca72f9ee68b61a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 03/37] fix: decode every pair of odd sized base-16 input to
 its own byte

---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 24f16ce..50f385e 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -143,7 +143,7 @@ namespace milo::primitive::detail
                 from_ptr += 1;
             }
             
-            for (size_t i = last_size; i < full_size; i += 1)
+            for (size_t i = 0; i < full_size; i += 1)
             {
                 auto c_0 = char(from_ptr[0]);
                 auto c_1 = char(from_ptr[1]);
-- 
2.43.0


From dd373512eaf5b88a6d7e1149732fe5ad0513993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 04/37] fix: reject non ascii characters while decoding base-16
 and base-64

---
 src/milo/primitive/detail/codec/base_16.h |  4 ++--
 src/milo/primitive/detail/codec/base_64.h | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 50f385e..6485e6c 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -131,7 +131,7 @@ namespace milo::primitive::detail
                 auto b_0 = decode(c_0);
                 
                 [[unlikely]]
-                if (c_0 == b_0)
+                if (uint8_t(c_0) == b_0)
                 {
                     a_error = error::codec_base_16_decode;
                     return 0;
@@ -151,7 +151,7 @@ namespace milo::primitive::detail
                 auto b_1 = decode(c_1);
                 
                 [[unlikely]]
-                if (c_0 == b_0 || c_1 == b_1)
+                if (uint8_t(c_0) == b_0 || uint8_t(c_1) == b_1)
                 {
                     a_error = error::codec_base_16_decode;
                     return from_ptr - a_from_ptr;
diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 93d3446..7ee8007 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -188,10 +188,10 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
-                    c_2 == b_2 ||
-                    c_3 == b_3)
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
+                    uint8_t(c_2) == b_2 ||
+                    uint8_t(c_3) == b_3)
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
@@ -220,11 +220,11 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
                     (p_0 && !p_1) ||
-                    (c_2 == b_2 && !p_0) ||
-                    (c_3 == b_3 && !p_1))
+                    (uint8_t(c_2) == b_2 && !p_0) ||
+                    (uint8_t(c_3) == b_3 && !p_1))
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
-- 
2.43.0


From 3597bd79e1543d59a473830db3bffb3353a72a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 05/37] fix: return the number of decoded bytes when base-16
 decoding fails

---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 6485e6c..5ab61cd 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -154,7 +154,7 @@ namespace milo::primitive::detail
                 if (uint8_t(c_0) == b_0 || uint8_t(c_1) == b_1)
                 {
                     a_error = error::codec_base_16_decode;
-                    return from_ptr - a_from_ptr;
+                    return last_size + i;
                 }
                 
                 to_ptr[i] = t_to(b_0 << 4 | b_1);
-- 
2.43.0


From f3802ca9e9b9a0c1b4673af4159e343df42b92c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 06/37] fix: pad additional data when aead is finalized without
 any message

---
 src/milo/primitive/aead/apie.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index d92a702..a354b96 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -149,6 +149,8 @@ namespace milo::primitive::aead
                 return;
             }
             
+            do_finalize_aad();
+            
             m_impl.finalize();
             m_finalized = true;
         }
-- 
2.43.0


From 3ba3750a62150b0d48dfd260fdadf580681a55fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 07/37] fix: throwing aead decrypt must not be noexcept

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index a354b96..cfc1e16 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -1161,7 +1161,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0
+        sizeof...(t_error) != 0
     )
     ) -> size_t
     requires
@@ -1254,7 +1254,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0 &&
+        sizeof...(t_error) != 0 &&
         meta::container_static<t_plaintext>
     )
     ) -> size_t
-- 
2.43.0


From 6ceaf3ddb2b74f9060c8e63d4c552d922985e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 08/37] fix: add the pointer constructor the cipher oneliners
 rely on

---
 src/milo/primitive/cipher/apie.h | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/milo/primitive/cipher/apie.h b/src/milo/primitive/cipher/apie.h
index 77a4dbd..8d7986a 100644
--- a/src/milo/primitive/cipher/apie.h
+++ b/src/milo/primitive/cipher/apie.h
@@ -57,6 +57,42 @@ namespace milo::primitive::cipher
     
     public:
         
+        /**
+         * Constructs the object.
+         *
+         * @tparam t_key
+         * Key type.
+         * @tparam t_iv
+         * Iv type.
+         * @param a_key_ptr
+         * Key pointer.
+         * @param a_key_size
+         * Key size.
+         * @param a_iv_ptr
+         * Iv pointer.
+         * @param a_iv_size
+         * Iv size.
+         */
+        template<
+            meta::byte t_key,
+            meta::byte t_iv
+        >
+        constexpr
+        apie(
+            const t_key* a_key_ptr,
+            size_t a_key_size,
+            const t_iv* a_iv_ptr,
+            size_t a_iv_size
+        ) noexcept(true)
+        {
+            initialize(
+                a_key_ptr,
+                a_key_size,
+                a_iv_ptr,
+                a_iv_size
+            );
+        }
+        
         /**
          * Constructs the object.
          *
-- 
2.43.0


From e6558154b17907b5ddf381b8e2e0c82e42e4d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 09/37] fix: report a missing command instead of popping from
 an empty argument dump

---
 app/include/milo/app/app.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index 1fd466f..dc9870c 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -88,7 +88,10 @@ namespace milo::app
                     }
                 );
                 
-                str.pop_back();
+                if (!str.empty())
+                {
+                    str.pop_back();
+                }
                 
                 return str;
             }
-- 
2.43.0


From 2c9f4784938f710772161e84c16ba6cf65765d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 10/37] fix: match the end of a benchmark name with the last
 part of a pattern

---
 app/include/milo/app/pattern.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/app/include/milo/app/pattern.h b/app/include/milo/app/pattern.h
index fac4d9e..6b07c02 100644
--- a/app/include/milo/app/pattern.h
+++ b/app/include/milo/app/pattern.h
@@ -75,6 +75,17 @@ namespace milo::app
             auto pattern_size = pattern_pos_end - pattern_pos_beg;
             
             pattern_pos = pattern_pos_beg;
+            
+            if (pattern_pos_end == a_pattern.size())
+            {
+                /*
+                 * Nothing follows, the message has to end with the pattern.
+                 */
+                return a_message.substr(message_pos).ends_with(
+                    a_pattern.substr(pattern_pos)
+                );
+            }
+            
             message_pos = a_message.find(
                 pattern,
                 message_pos,
-- 
2.43.0


From 04a38c9daa9f87233e5b59b6538e3266ec23fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 11/37] fix: escape strings in the json output of the
 application

---
 app/include/milo/app/type.h | 50 +++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/app/include/milo/app/type.h b/app/include/milo/app/type.h
index 6ed3931..6e8985c 100644
--- a/app/include/milo/app/type.h
+++ b/app/include/milo/app/type.h
@@ -314,6 +314,8 @@ namespace milo::app::type
             return false;
         }
 
+    public:
+        
         auto
         string(
         ) const -> std::string
@@ -351,8 +353,6 @@ namespace milo::app::type
             throw std::logic_error("Attempt to convert to string non-string convertible type.");
         }
     
-    public:
-        
         operator size_t(
         ) const
         {
@@ -817,6 +817,35 @@ namespace milo::app::type
         throw std::logic_error("Attempt to call [] operator on non index-able type.");
     }
     
+    auto
+    to_json(
+        std::stringstream& a_stream,
+        const std::string& a_string
+    ) -> void
+    {
+        constexpr auto digits = "0123456789abcdef";
+        
+        a_stream << '\"';
+        
+        for (const auto& c: a_string)
+        {
+            if (c == '\"' || c == '\\')
+            {
+                a_stream << '\\' << c;
+            }
+            else if (uint8_t(c) < 0x20)
+            {
+                a_stream << "\\u00" << digits[c >> 4] << digits[c & 0b1111];
+            }
+            else
+            {
+                a_stream << c;
+            }
+        }
+        
+        a_stream << '\"';
+    }
+    
     auto
     to_json(
         std::stringstream& a_stream,
@@ -849,7 +878,12 @@ namespace milo::app::type
                 throw std::logic_error("Attempt to use json-serializable type as key.");
             }
             
-            a_stream << '\"' << key << "\":";
+            to_json(
+                a_stream,
+                key.string()
+            );
+            
+            a_stream << ':';
             
             if (item.is<object>())
             {
@@ -867,7 +901,10 @@ namespace milo::app::type
             }
             else if (item.is<std::string_view>() || item.is<std::string>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json(
+                    a_stream,
+                    item.string()
+                );
             }
             else
             {
@@ -914,7 +951,10 @@ namespace milo::app::type
             }
             else if (item.is<std::string_view>() || item.is<std::string>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json(
+                    a_stream,
+                    item.string()
+                );
             }
             else
             {
-- 
2.43.0


From 2f7f259bf6a51ceeb720f74c57821cd4497ee95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 12/37] fix: do not overflow cycle metrics of long benchmarks

---
 app/include/milo/app/command/benchmark.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 3e7118e..e1c7f47 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -222,7 +222,7 @@ namespace milo::app::command::benchmark
             if (processed != 0)
             {
                 auto throughput_gigabytes_per_second = double(processed) / double(nanoseconds);
-                auto throughput_megabytes_per_second = double(processed * 1000) / double(nanoseconds);
+                auto throughput_megabytes_per_second = double(processed) * 1000 / double(nanoseconds);
                 
                 result["metrics"]["throughput"] = {
                     {"gigabytes_per_second", throughput_gigabytes_per_second},
@@ -233,8 +233,8 @@ namespace milo::app::command::benchmark
             if (processed != 0 && cpu_clock != 0)
             {
                 auto billion = 1000 * 1000 * 1000;
-                auto cpu_cycles_per_call = double(cpu_clock * nanoseconds) / double(billion * repeats_time);
-                auto cpu_cycles_per_byte = double(cpu_clock * nanoseconds) / double(billion * processed);
+                auto cpu_cycles_per_call = double(cpu_clock) * double(nanoseconds) / (double(billion) * double(repeats_time));
+                auto cpu_cycles_per_byte = double(cpu_clock) * double(nanoseconds) / (double(billion) * double(processed));
                 
                 result["metrics"]["cpu"] = {
                     {"cycles_per_call", cpu_cycles_per_call},
-- 
2.43.0


From 4158d784eefe07427c450557c6b8f60ca3a7d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 13/37] fix: let clang 16 and newer compile option queries

---
 src/milo/internal/option.h | 70 +++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/src/milo/internal/option.h b/src/milo/internal/option.h
index 17dfc1c..e21c87a 100644
--- a/src/milo/internal/option.h
+++ b/src/milo/internal/option.h
@@ -138,25 +138,28 @@ namespace milo::internal
         template<
             typename t_option
         >
-        using solver = meta::asbool<
-            (
-                requires
-                {
-                    requires option_ofvalue_is_v<t_option>;
-                    requires meta::same<
-                        meta::del_constant<
-                            decltype(t_option::value)
-                        >,
-                        t_type
-                    >;
-                    requires meta::same<
-                        t_option,
-                        option<t_option::value>
-                    >;
-                }
-            ),
-            t_option
-        >;
+        struct solver
+            : meta::asbool<
+                (
+                    requires
+                    {
+                        requires option_ofvalue_is_v<t_option>;
+                        requires meta::same<
+                            meta::del_constant<
+                                decltype(t_option::value)
+                            >,
+                            t_type
+                        >;
+                        requires meta::same<
+                            t_option,
+                            option<t_option::value>
+                        >;
+                    }
+                ),
+                t_option
+            >
+        {
+        };
         
         template<
             typename... t_options
@@ -224,19 +227,22 @@ namespace milo::internal
         template<
             typename t_option
         >
-        using solver = meta::asbool<
-            (
-                requires
-                {
-                    requires option_oftype_is_v<t_option>;
-                    requires meta::same<
-                        t_option,
-                        option<typename t_option::type>
-                    >;
-                }
-            ),
-            t_option
-        >;
+        struct solver
+            : meta::asbool<
+                (
+                    requires
+                    {
+                        requires option_oftype_is_v<t_option>;
+                        requires meta::same<
+                            t_option,
+                            option<typename t_option::type>
+                        >;
+                    }
+                ),
+                t_option
+            >
+        {
+        };
         
         template<
             typename... t_options
-- 
2.43.0


From 6e01b618a69b01f84252c5f24e2017d5e390c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 14/37] fix: choose backends on first use so that initializers
 of other translation units can use the library

---
 src/milo/internal/arch/x86_64.h | 128 +++++++++++++++++++++++---------
 src/milo/internal/impl.h        |  22 ++++--
 2 files changed, 108 insertions(+), 42 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index a84eed5..fe90147 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -63,8 +63,6 @@ namespace milo::internal
         #endif
     }
     
-    inline
-    const
     class arch_x86_64_info_basic
     {
     private:
@@ -198,53 +196,111 @@ namespace milo::internal
         {
             return m_features[1].ebx & (1 << 29);
         }
-    } arch_x86_64_info;
+    };
+    
+    /*
+     * Initialized on first use, initializers of other translation units may be the first to use it.
+     */
+    inline
+    auto
+    arch_x86_64_info(
+    ) noexcept(true) -> const arch_x86_64_info_basic&
+    {
+        static
+        const arch_x86_64_info_basic info;
+        
+        return info;
+    }
     
     struct arch_x86_64_ise
     {
-        inline
         static
-        const bool sse_1 = arch_x86_64_info.sse_1();
+        auto
+        sse_1(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_1();
+        }
         
-        inline
         static
-        const bool sse_2 = arch_x86_64_info.sse_2();
+        auto
+        sse_2(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_2();
+        }
         
-        inline
         static
-        const bool sse_3 = arch_x86_64_info.sse_3();
+        auto
+        sse_3(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_3();
+        }
         
-        inline
         static
-        const bool ssse_3 = arch_x86_64_info.ssse_3();
+        auto
+        ssse_3(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().ssse_3();
+        }
         
-        inline
         static
-        const bool sse_4_1 = arch_x86_64_info.sse_4_1();
+        auto
+        sse_4_1(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_4_1();
+        }
         
-        inline
         static
-        const bool sse_4_2 = arch_x86_64_info.sse_4_2();
+        auto
+        sse_4_2(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_4_2();
+        }
         
-        inline
         static
-        const bool sse_4 = arch_x86_64_info.sse_4_1() && arch_x86_64_info.sse_4_2();
+        auto
+        sse_4(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_4_1() && arch_x86_64_info().sse_4_2();
+        }
         
-        inline
         static
-        const bool avx_1 = arch_x86_64_info.avx_1();
+        auto
+        avx_1(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().avx_1();
+        }
         
-        inline
         static
-        const bool avx_2 = arch_x86_64_info.avx_2();
+        auto
+        avx_2(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().avx_2();
+        }
         
-        inline
         static
-        const bool sha_1 = arch_x86_64_info.sha_1();
+        auto
+        sha_1(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sha_1();
+        }
         
-        inline
         static
-        const bool sha_2 = arch_x86_64_info.sha_2();
+        auto
+        sha_2(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sha_2();
+        }
         
         template<
             typename t_impl
@@ -268,7 +324,7 @@ namespace milo::internal
                         typename impl_type::sse_1;
                     })
                     {
-                        if (!sse_1)
+                        if (!sse_1())
                         {
                             return false;
                         }
@@ -278,7 +334,7 @@ namespace milo::internal
                         typename impl_type::sse_2;
                     })
                     {
-                        if (!sse_2)
+                        if (!sse_2())
                         {
                             return false;
                         }
@@ -288,7 +344,7 @@ namespace milo::internal
                         typename impl_type::sse_3;
                     })
                     {
-                        if (!sse_3)
+                        if (!sse_3())
                         {
                             return false;
                         }
@@ -298,7 +354,7 @@ namespace milo::internal
                         typename impl_type::ssse_3;
                     })
                     {
-                        if (!ssse_3)
+                        if (!ssse_3())
                         {
                             return false;
                         }
@@ -308,7 +364,7 @@ namespace milo::internal
                         typename impl_type::sse_4_1;
                     })
                     {
-                        if (!sse_4_1)
+                        if (!sse_4_1())
                         {
                             return false;
                         }
@@ -318,7 +374,7 @@ namespace milo::internal
                         typename impl_type::sse_4_2;
                     })
                     {
-                        if (!sse_4_2)
+                        if (!sse_4_2())
                         {
                             return false;
                         }
@@ -328,7 +384,7 @@ namespace milo::internal
                         typename impl_type::sse_4;
                     })
                     {
-                        if (!sse_4)
+                        if (!sse_4())
                         {
                             return false;
                         }
@@ -338,7 +394,7 @@ namespace milo::internal
                         typename impl_type::avx_1;
                     })
                     {
-                        if (!avx_1)
+                        if (!avx_1())
                         {
                             return false;
                         }
@@ -348,7 +404,7 @@ namespace milo::internal
                         typename impl_type::avx_2;
                     })
                     {
-                        if (!avx_2)
+                        if (!avx_2())
                         {
                             return false;
                         }
@@ -358,7 +414,7 @@ namespace milo::internal
                         typename impl_type::sha_1;
                     })
                     {
-                        if (!sha_1)
+                        if (!sha_1())
                         {
                             return false;
                         }
@@ -368,7 +424,7 @@ namespace milo::internal
                         typename impl_type::sha_2;
                     })
                     {
-                        if (!sha_2)
+                        if (!sha_2())
                         {
                             return false;
                         }
diff --git a/src/milo/internal/impl.h b/src/milo/internal/impl.h
index f9d3b7b..e22329d 100644
--- a/src/milo/internal/impl.h
+++ b/src/milo/internal/impl.h
@@ -155,12 +155,22 @@ namespace milo::internal
     }
     struct impl_runtime_reader
     {
-        inline
+        /*
+         * Chosen on first use, initializers of other translation units may be the first to use it.
+         */
         static
-        const auto impl = impl_choose_hook<
-            t_chooser,
-            t_impls...
-        >();
+        auto
+        impl(
+        ) noexcept(true)
+        {
+            static
+            const auto hook = impl_choose_hook<
+                t_chooser,
+                t_impls...
+            >();
+            
+            return hook;
+        }
     };
     
     template<
@@ -260,7 +270,7 @@ namespace milo::internal
                     return invoker::template hook<
                         t_id
                     >(
-                        runtime_selected::impl,
+                        runtime_selected::impl(),
                         forward<
                             t_args
                         >(
-- 
2.43.0


From 107b28ecd7bd1b360213f5658b9d1a03691072f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 15/37] fix: do not choose avx backends when the operating
 system does not enable avx

---
 src/milo/internal/arch/x86_64.h         | 35 +++++++++++++++++++++++--
 src/milo/internal/arch/x86_64/cpuid.asm | 17 +++++++++++-
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index fe90147..ff829d6 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -29,6 +29,11 @@ namespace milo::internal
         uint32_t a_ecx
     ) noexcept(true) -> void;
     
+    extern "C"
+    auto
+    milo_internal_arch_x86_64_xgetbv(
+    ) noexcept(true) -> uint64_t;
+    
     #endif
     
     /*
@@ -63,6 +68,25 @@ namespace milo::internal
         #endif
     }
     
+    /**
+     * Callable only if the operating system enabled xsave.
+     */
+    inline
+    auto
+    arch_x86_64_xgetbv(
+    ) noexcept(true) -> uint64_t
+    {
+        #if MILO_INTERNAL_ASM && MILO_INTERNAL_ARCH_X86_64
+        
+        return milo_internal_arch_x86_64_xgetbv();
+        
+        #else
+        
+        return 0;
+        
+        #endif
+    }
+    
     class arch_x86_64_info_basic
     {
     private:
@@ -78,6 +102,8 @@ namespace milo::internal
     private:
         
         registers m_features[2]{};
+        
+        bool m_os_avx = false;
     
     public:
         
@@ -103,6 +129,11 @@ namespace milo::internal
                 m_features[0] = {info[0], info[1], info[2], info[3]};
             }
             
+            if (m_features[0].ecx & (1 << 27))
+            {
+                m_os_avx = (arch_x86_64_xgetbv() & 0b110) == 0b110;
+            }
+            
             if (max >= 7)
             {
                 arch_x86_64_cpuid(
@@ -173,14 +204,14 @@ namespace milo::internal
         avx_1(
         ) const noexcept(true) -> bool
         {
-            return m_features[0].ecx & (1 << 28);
+            return m_os_avx && m_features[0].ecx & (1 << 28);
         }
         
         auto
         avx_2(
         ) const noexcept(true) -> bool
         {
-            return m_features[1].ebx & (1 << 5);
+            return m_os_avx && m_features[1].ebx & (1 << 5);
         }
         
         auto
diff --git a/src/milo/internal/arch/x86_64/cpuid.asm b/src/milo/internal/arch/x86_64/cpuid.asm
index d82a319..4f460d2 100644
--- a/src/milo/internal/arch/x86_64/cpuid.asm
+++ b/src/milo/internal/arch/x86_64/cpuid.asm
@@ -5,6 +5,7 @@ bits 64
 %include "abi.asm"
 
 global milo_internal_arch_x86_64_cpuid
+global milo_internal_arch_x86_64_xgetbv
 
 ; BEG arch_x86_64_cpuid
 
@@ -26,4 +27,18 @@ milo_internal_arch_x86_64_cpuid:
     xchg    rbx,        r10
     ret
 
-; BEG arch_x86_64_cpuid
+; END arch_x86_64_cpuid
+
+; BEG arch_x86_64_xgetbv
+
+section .text
+milo_internal_arch_x86_64_xgetbv:
+; Args:
+;   None
+    xor     ecx,    ecx
+    xgetbv
+    shl     rdx,    32
+    or      rax,    rdx
+    ret
+
+; END arch_x86_64_xgetbv
-- 
2.43.0


From 83694876b79067bacef7299df60c9004d409f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 16/37] fix: let the aead encrypt oneliners with output
 arguments compile

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index cfc1e16..2120e40 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -937,7 +937,7 @@ namespace milo::primitive::aead
             a_digest_ptr
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
@@ -1017,7 +1017,7 @@ namespace milo::primitive::aead
             a_digest
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
-- 
2.43.0


From dbca38b823f681e25e87a544acfa663c279c3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 17/37] fix: pad additional data of a raw aead when the message
 follows, as its documented use expects

---
 .../detail/aead/chacha/chacha_20_poly_1305.h     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
index 630103f..f7ed168 100644
--- a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
+++ b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
@@ -50,6 +50,8 @@ namespace milo::primitive::detail
         uint64_t m_aad_processed_size;
         
         uint64_t m_edd_processed_size;
+        
+        bool m_aad_over;
     
     public:
         
@@ -119,6 +121,7 @@ namespace milo::primitive::detail
             
             m_aad_processed_size = 0;
             m_edd_processed_size = 0;
+            m_aad_over = false;
         }
         
         template<
@@ -142,6 +145,13 @@ namespace milo::primitive::detail
         aadover(
         ) noexcept(true) -> void
         {
+            if (m_aad_over)
+            {
+                return;
+            }
+            
+            m_aad_over = true;
+            
             constexpr size_t buffer_zero_size = 16;
             constexpr uint8_t buffer_zero[buffer_zero_size]{};
             
@@ -162,6 +172,8 @@ namespace milo::primitive::detail
             t_ciphertext* a_ciphertext_ptr
         ) noexcept(true) -> size_t
         {
+            aadover();
+            
             auto ciphertext_size = m_cipher.encrypt(
                 a_plaintext_ptr,
                 a_plaintext_size,
@@ -203,6 +215,8 @@ namespace milo::primitive::detail
             t_plaintext* a_plaintext_ptr
         ) noexcept(true) -> size_t
         {
+            aadover();
+            
             m_mac.update(
                 a_ciphertext_ptr,
                 a_ciphertext_size
@@ -237,6 +251,8 @@ namespace milo::primitive::detail
         finalize(
         ) noexcept(true) -> void
         {
+            aadover();
+            
             constexpr size_t buffer_zero_size = 16;
             constexpr uint8_t buffer_zero[buffer_zero_size]{};
             
-- 
2.43.0


From 125124128d56841efc31938f13fc0a81c419d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 18/37] fix: initialize members of mac and aead so that unused
 objects can be copied

---
 src/milo/primitive/aead/apie.h                              | 4 ++--
 src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h | 6 +++---
 src/milo/primitive/mac/apie.h                               | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 2120e40..3f876fe 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -38,9 +38,9 @@ namespace milo::primitive::aead
         
         impl_type m_impl;
         
-        bool m_finalized_aad;
+        bool m_finalized_aad = false;
         
-        bool m_finalized;
+        bool m_finalized = false;
     
     public:
         
diff --git a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
index f7ed168..402043c 100644
--- a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
+++ b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
@@ -47,11 +47,11 @@ namespace milo::primitive::detail
         
         mac_type m_mac;
         
-        uint64_t m_aad_processed_size;
+        uint64_t m_aad_processed_size = 0;
         
-        uint64_t m_edd_processed_size;
+        uint64_t m_edd_processed_size = 0;
         
-        bool m_aad_over;
+        bool m_aad_over = false;
     
     public:
         
diff --git a/src/milo/primitive/mac/apie.h b/src/milo/primitive/mac/apie.h
index 1bb6355..c3c329b 100644
--- a/src/milo/primitive/mac/apie.h
+++ b/src/milo/primitive/mac/apie.h
@@ -35,7 +35,7 @@ namespace milo::primitive::mac
         
         impl_type m_impl;
         
-        bool m_finalized;
+        bool m_finalized = false;
     
     public:
         
-- 
2.43.0


From 1c461fc5d8f1e2f749eb7a0612bfa47198bd6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 19/37] fix: map signed char pointers to unsigned char pointers
 before calling hash, cipher and poly1305 backends

---
 src/milo/meta.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/milo/meta.h b/src/milo/meta.h
index 4613eca..9deae10 100644
--- a/src/milo/meta.h
+++ b/src/milo/meta.h
@@ -232,7 +232,8 @@ namespace milo::meta
     using type_map_char_ptr_to_unsigned_char_ptr = type_map<
         t_arg,
         unsigned char*,
-        char*
+        char*,
+        signed char*
     >;
     
     template<
@@ -241,7 +242,8 @@ namespace milo::meta
     using type_map_const_char_ptr_to_const_unsigned_char_ptr = type_map<
         t_arg,
         const unsigned char*,
-        const char*
+        const char*,
+        const signed char*
     >;
     
     template<typename t_0>
-- 
2.43.0


From ec7cfbde52e0ea732c797cdfc43d3372f37e0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 20/37] fix: address unaligned words by byte instead of through
 misaligned word pointers

---
 src/milo/internal/memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/milo/internal/memory.h b/src/milo/internal/memory.h
index cf1a0c4..4c51048 100644
--- a/src/milo/internal/memory.h
+++ b/src/milo/internal/memory.h
@@ -97,7 +97,7 @@ namespace milo::internal
                 
                 std::memcpy(
                     reinterpret_cast<uint8_t*>(&val),
-                    reinterpret_cast<const val_type*>(a_ptr) + a_off,
+                    reinterpret_cast<const uint8_t*>(a_ptr) + a_off * val_size,
                     val_size
                 );
                 
@@ -203,7 +203,7 @@ namespace milo::internal
             
             std::memcpy(
                 reinterpret_cast<uint8_t*>(&val),
-                reinterpret_cast<const val_type*>(a_ptr) + a_off,
+                reinterpret_cast<const uint8_t*>(a_ptr) + a_off * val_size,
                 min(
                     val_size,
                     ptr_size * a_size
@@ -382,7 +382,7 @@ namespace milo::internal
             else
             {
                 std::memcpy(
-                    reinterpret_cast<val_type*>(a_ptr) + a_off,
+                    reinterpret_cast<uint8_t*>(a_ptr) + a_off * val_size,
                     reinterpret_cast<const uint8_t*>(&a_val),
                     val_size
                 );
@@ -485,7 +485,7 @@ namespace milo::internal
         else
         {
             std::memcpy(
-                reinterpret_cast<val_type*>(a_ptr) + a_off,
+                reinterpret_cast<uint8_t*>(a_ptr) + a_off * val_size,
                 reinterpret_cast<const uint8_t*>(&a_val),
                 min(
                     val_size,
-- 
2.43.0


From 0ad00f93ee1ce77222b712af37dc3ea17d3d0208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 21/37] fix: do not pass null pointers of empty ranges to the
 memory functions of the standard library

---
 src/milo/internal/memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/milo/internal/memory.h b/src/milo/internal/memory.h
index 4c51048..9c275c4 100644
--- a/src/milo/internal/memory.h
+++ b/src/milo/internal/memory.h
@@ -604,7 +604,7 @@ namespace milo::internal
                 );
             }
         }
-        else
+        else if (a_size > 0)
         {
             std::memcpy(
                 reinterpret_cast<uint8_t*>(a_dst_ptr),
@@ -704,7 +704,7 @@ namespace milo::internal
                 );
             }
         }
-        else
+        else if (a_size > 0)
         {
             std::memset(
                 a_ptr,
@@ -774,7 +774,7 @@ namespace milo::internal
         }
         else
         {
-            return std::memcmp(
+            return a_size == 0 || std::memcmp(
                 a_src_a_ptr,
                 a_src_b_ptr,
                 a_size
-- 
2.43.0


From 3c09185c5f99357f6371a66bd668842344ef6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 22/37] fix: match the start of a benchmark name with the first
 part of a pattern, mac-* is no hmac of a kdf

---
 app/include/milo/app/pattern.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/app/include/milo/app/pattern.h b/app/include/milo/app/pattern.h
index 6b07c02..f619551 100644
--- a/app/include/milo/app/pattern.h
+++ b/app/include/milo/app/pattern.h
@@ -76,6 +76,27 @@ namespace milo::app
             
             pattern_pos = pattern_pos_beg;
             
+            if (pattern_pos_beg == 0)
+            {
+                /*
+                 * Nothing precedes, the message has to start with the pattern.
+                 */
+                if (!a_message.starts_with(
+                    a_pattern.substr(
+                        0,
+                        pattern_pos_end
+                    )
+                ))
+                {
+                    return false;
+                }
+                
+                pattern_pos = pattern_pos_end;
+                message_pos = pattern_pos_end;
+                
+                continue;
+            }
+            
             if (pattern_pos_end == a_pattern.size())
             {
                 /*
-- 
2.43.0


From 3af37ff265d174d06687d788cc66818841cc9ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 23/37] fix: do not read the first byte of an empty derived key
 in kdf benchmarks

---
 app/include/milo/app/command/benchmark.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index e1c7f47..e526a5f 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -481,7 +481,7 @@ namespace milo::app::command::benchmark
             a_key_size
         );
         
-        return a_key_ptr[0];
+        return a_key_size > 0 ? a_key_ptr[0] : char(0);
     }
     
     template<
@@ -542,7 +542,7 @@ namespace milo::app::command::benchmark
             a_key_size
         );
         
-        return a_key_ptr[0];
+        return a_key_size > 0 ? a_key_ptr[0] : char(0);
     }
     
     template<
-- 
2.43.0


From 12ff5319dc28cf1a03ecdd55d7fdcb2e2c64b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 24/37] fix: ignore parameters whose names only start with that
 of a known one

---
 app/include/milo/app/app.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index dc9870c..78e0dae 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -214,7 +214,7 @@ namespace milo::app
                 {
                     if (it->starts_with("--"))
                     {
-                        if (it->substr(2).starts_with(a_name))
+                        if (it->substr(2, it->find_first_of('=') - 2) == a_name)
                         {
                             break;
                         }
-- 
2.43.0


From e699b227962dea8a2a7a0aa08d4db4cd58d9493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 25/37] fix: report invalid parameter values instead of using
 defaults or their first digits

---
 app/include/milo/app/app.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index 78e0dae..03e196f 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -277,7 +277,7 @@ namespace milo::app
                             value
                         );
                         
-                        if (result.ec != decltype(result.ec)())
+                        if (result.ec != decltype(result.ec)() || result.ptr != value_end)
                         {
                             throw std::logic_error(
                                 std::string("Error. Value conversion failure for --") +
@@ -330,18 +330,25 @@ namespace milo::app
                 const t_value& a_default
             ) const -> t_value
             {
-                try
-                {
-                    return parameter<
-                        t_value
-                    >(
-                        a_name
-                    );
-                }
-                catch (...)
+                auto it = std::find_if(
+                    m_args_cur,
+                    m_args_end,
+                    [&](auto& a_item)
+                    {
+                        return !a_item.starts_with("--") || a_item.substr(2, a_item.find_first_of('=') - 2) == a_name;
+                    }
+                );
+                
+                if (it == m_args_end || !it->starts_with("--"))
                 {
                     return a_default;
                 }
+                
+                return parameter<
+                    t_value
+                >(
+                    a_name
+                );
             }
         };
         
-- 
2.43.0


From 8782a8937011c0f973d7cbf5b1f26f70da1ad935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 26/37] fix: leave out metrics that would divide by a duration
 of zero

---
 app/include/milo/app/command/benchmark.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index e526a5f..d9414e6 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -219,7 +219,7 @@ namespace milo::app::command::benchmark
                 {"nanoseconds_per_call", duration_nanoseconds_per_call}
             };
             
-            if (processed != 0)
+            if (processed != 0 && nanoseconds != 0)
             {
                 auto throughput_gigabytes_per_second = double(processed) / double(nanoseconds);
                 auto throughput_megabytes_per_second = double(processed) * 1000 / double(nanoseconds);
@@ -230,7 +230,7 @@ namespace milo::app::command::benchmark
                 };
             }
             
-            if (processed != 0 && cpu_clock != 0)
+            if (processed != 0 && nanoseconds != 0 && cpu_clock != 0)
             {
                 auto billion = 1000 * 1000 * 1000;
                 auto cpu_cycles_per_call = double(cpu_clock) * double(nanoseconds) / (double(billion) * double(repeats_time));
-- 
2.43.0


From 35fa177abfbce17843d2198223543ae97af770e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 27/37] fix: erase the ChaCha state kept on the stack by the
 portable implementation

---
 src/milo/primitive/detail/cipher/chacha/chacha_impl_sw.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/milo/primitive/detail/cipher/chacha/chacha_impl_sw.h b/src/milo/primitive/detail/cipher/chacha/chacha_impl_sw.h
index 1cdcced..c6a0366 100644
--- a/src/milo/primitive/detail/cipher/chacha/chacha_impl_sw.h
+++ b/src/milo/primitive/detail/cipher/chacha/chacha_impl_sw.h
@@ -135,6 +135,9 @@ namespace milo::primitive::detail
                 }
             }
             
+            internal::memory_erase(state_eval);
+            internal::memory_erase(state_base);
+            
             return a_blocks;
         }
     
-- 
2.43.0


From 9f99ab90c1a2a01814780393b7ca95f53e4800dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 28/37] fix: erase the ChaCha state kept on the stack by the
 x86-64 implementations

---
 .../cipher/chacha/chacha_impl_hw_x86_64.asm   | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/milo/primitive/detail/cipher/chacha/chacha_impl_hw_x86_64.asm b/src/milo/primitive/detail/cipher/chacha/chacha_impl_hw_x86_64.asm
index aa2ac57..9664f6f 100644
--- a/src/milo/primitive/detail/cipher/chacha/chacha_impl_hw_x86_64.asm
+++ b/src/milo/primitive/detail/cipher/chacha/chacha_impl_hw_x86_64.asm
@@ -428,6 +428,19 @@ section .text
     sub     g_blocks_cnt,   1
     jnz     .blocks_loop
 
+; Erase state kept on stack.
+    pxor    x_state_eval(0),    x_state_eval(0)
+%assign erase_i 0
+%rep 6
+    movdqa  s_state_temp(erase_i),  x_state_eval(0)
+%assign erase_i (erase_i + 1)
+%endrep
+%assign erase_i 0
+%rep 16
+    movdqa  s_state_base(erase_i),  x_state_eval(0)
+%assign erase_i (erase_i + 1)
+%endrep
+
 .blocks_loop_end:
 
 %ifdef MILO_INTERNAL_ABI_WIND
@@ -929,6 +942,19 @@ section .text
     sub     g_blocks_cnt,   1
     jnz     .blocks_loop
 
+; Erase state kept on stack.
+    vpxor   y_state_eval(0),    y_state_eval(0),    y_state_eval(0)
+%assign erase_i 0
+%rep 2
+    vmovdqa s_state_temp(erase_i),  y_state_eval(0)
+%assign erase_i (erase_i + 1)
+%endrep
+%assign erase_i 0
+%rep 16
+    vmovdqa s_state_base(erase_i),  y_state_eval(0)
+%assign erase_i (erase_i + 1)
+%endrep
+
 .blocks_loop_end:
 
 %ifdef MILO_INTERNAL_ABI_WIND
-- 
2.43.0


From 0d8e1e2189b760e8e1d827cd7bc5998d4a903ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 29/37] fix: erase the derived blocks PBKDF2 keeps on the stack

---
 src/milo/primitive/detail/kdf/pbkdf_2.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/milo/primitive/detail/kdf/pbkdf_2.h b/src/milo/primitive/detail/kdf/pbkdf_2.h
index 61d761c..e3f5ba9 100644
--- a/src/milo/primitive/detail/kdf/pbkdf_2.h
+++ b/src/milo/primitive/detail/kdf/pbkdf_2.h
@@ -143,6 +143,9 @@ namespace milo::primitive::detail
                 buffer_1,
                 expand_size
             );
+            
+            internal::memory_erase(buffer_0);
+            internal::memory_erase(buffer_1);
         }
     
     public:
-- 
2.43.0


From 8b799bbea7f7e4a5002707da87226092ebcf93d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 30/37] fix: erase the one-time key the AEAD keeps on the stack

---
 src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
index 402043c..570041c 100644
--- a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
+++ b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
@@ -119,6 +119,9 @@ namespace milo::primitive::detail
                 init_mac_key_size
             );
             
+            internal::memory_erase(init_cipher_iv);
+            internal::memory_erase(init_mac_key);
+            
             m_aad_processed_size = 0;
             m_edd_processed_size = 0;
             m_aad_over = false;
-- 
2.43.0


From 722698694de9d22887f2be28f230f7ee07360bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 31/37] fix: erase the message schedule portable hashes keep on
 the stack

---
 src/milo/primitive/detail/hash/sha/sha_1_160_impl_sw.h | 2 ++
 src/milo/primitive/detail/hash/sha/sha_2_256_impl_sw.h | 2 ++
 src/milo/primitive/detail/hash/sha/sha_2_512_impl_sw.h | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/milo/primitive/detail/hash/sha/sha_1_160_impl_sw.h b/src/milo/primitive/detail/hash/sha/sha_1_160_impl_sw.h
index febf053..9729e34 100644
--- a/src/milo/primitive/detail/hash/sha/sha_1_160_impl_sw.h
+++ b/src/milo/primitive/detail/hash/sha/sha_1_160_impl_sw.h
@@ -153,6 +153,8 @@ namespace milo::primitive::detail
             a_state_ptr[2] = c;
             a_state_ptr[3] = d;
             a_state_ptr[4] = e;
+            
+            internal::memory_erase(schedule);
         }
     };
 }
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_256_impl_sw.h b/src/milo/primitive/detail/hash/sha/sha_2_256_impl_sw.h
index 04c5e08..c03980c 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_256_impl_sw.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_256_impl_sw.h
@@ -180,6 +180,8 @@ namespace milo::primitive::detail
             a_state_ptr[5] = f;
             a_state_ptr[6] = g;
             a_state_ptr[7] = h;
+            
+            internal::memory_erase(schedule);
         }
     };
 }
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_512_impl_sw.h b/src/milo/primitive/detail/hash/sha/sha_2_512_impl_sw.h
index afd7b6a..8db1d99 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_512_impl_sw.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_512_impl_sw.h
@@ -184,6 +184,8 @@ namespace milo::primitive::detail
             a_state_ptr[5] = f;
             a_state_ptr[6] = g;
             a_state_ptr[7] = h;
+            
+            internal::memory_erase(schedule);
         }
     };
 }
-- 
2.43.0


From 86275602bfb4001b64a4bf100231aaa5f2d7e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:45 +0000
Subject: [PATCH 32/37] fix: poly_1305 honours the implementation options it is
 given

---
 src/milo/primitive/detail/mac/poly/poly_1305.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index 72214d9..bb34717 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -27,7 +27,8 @@ namespace milo::primitive::detail
                 >,
                 internal::impl_runtime<
                     mac_poly_1305_impl_sw
-                >
+                >,
+                t_options...
             >
         {
             static
-- 
2.43.0


From d39dd11462953f730a5aa8f51178f04689c250a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:40 +0000
Subject: [PATCH 33/37] fix: codegen writes an empty string literal for an
 empty text

---
 tool/codegen/src/cpp/lang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tool/codegen/src/cpp/lang.py b/tool/codegen/src/cpp/lang.py
index eb73286..ca3e94e 100644
--- a/tool/codegen/src/cpp/lang.py
+++ b/tool/codegen/src/cpp/lang.py
@@ -174,7 +174,7 @@ def gen_str(
     ]
 
     if len(chunks) == 0:
-        chunks.append(end)
+        chunks.append('""' + end)
     else:
         chunks[len(chunks) - 1] += end
 
-- 
2.43.0


From e03d0b6ec0057e94fd474314e60e0b67a277e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:40 +0000
Subject: [PATCH 34/37] fix: codegen refuses vectors with id 0, whose failure
 would be taken for success

---
 tool/codegen/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/codegen/main.py b/tool/codegen/main.py
index 1bac860..50d448c 100644
--- a/tool/codegen/main.py
+++ b/tool/codegen/main.py
@@ -72,6 +72,11 @@ def main(
     payload: dict
     payload = config['payload']
 
+    for test in payload['vectors']:
+        for test_vector in test['data']:
+            # Generated tests return the id of the failed vector, 0 means that none failed.
+            assert test_vector['id'] != 0
+
     code: str
     code = callbacks[scheme](
         payload
-- 
2.43.0


From e8c1e329e39ee5be8228208b2e9e1d992e6f2e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:55 +0000
Subject: [PATCH 35/37] fix: containers whose size() is no constant expression
 are accepted as outputs

---
 src/milo/meta.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/milo/meta.h b/src/milo/meta.h
index 9deae10..dca0a89 100644
--- a/src/milo/meta.h
+++ b/src/milo/meta.h
@@ -370,6 +370,7 @@ namespace milo::meta
         requires container<t_0>;
         requires !container_reservable<t_0>;
         requires !container_resizable<t_0>;
+        typename std::integral_constant<size_t, t_0().size()>;
         requires t_0().size() >= t_min;
         requires t_0().size() <= t_max;
     };
-- 
2.43.0


From 2f4433da0e8da18d0f7c8a913a51507c94c44ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:11 +0000
Subject: [PATCH 36/37] fix: poly_1305 reads its key as little endian whatever
 the byte order of the machine

---
 src/milo/primitive/detail/mac/poly/poly_1305.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index bb34717..005ac9a 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -108,7 +108,7 @@ namespace milo::primitive::detail
             size_t a_key_size
         ) noexcept(true) -> void
         {
-            internal::memory_init(
+            internal::memory_init_le(
                 m_key_r,
                 a_key_ptr,
                 a_key_size
-- 
2.43.0


From aafedcc0677f2387b9c8b3bab824501a97deae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:02 +0000
Subject: [PATCH 37/37] fix: continue a cipher at run time that was begun in a
 constant expression

The end of the keystream block in the buffer depends on the backend, and
constant evaluation uses another one than run time: the rest of a block
generated there was continued at run time with bytes never generated.
Anchor what is left at the end of the buffer, which is the same for both.
---
 src/milo/internal/update.h                    | 19 ++++++++++---------
 .../primitive/detail/cipher/chacha/chacha.h   |  4 ++--
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/milo/internal/update.h b/src/milo/internal/update.h
index 1211b32..8ee033e 100644
--- a/src/milo/internal/update.h
+++ b/src/milo/internal/update.h
@@ -104,7 +104,7 @@ namespace milo::internal
     >
     constexpr auto
     update_block_prod_xor(
-        t_buf* a_buf_ptr,
+        t_buf* a_buf_end_ptr,
         size_t a_buf_size,
         t_dst* a_dst_ptr,
         const t_src* a_src_ptr,
@@ -119,22 +119,21 @@ namespace milo::internal
         
         if (a_buf_size > 0)
         {
-            auto left_size = block_size - a_buf_size;
             auto todo_size = min(
-                left_size,
+                a_buf_size,
                 a_src_size
             );
             
             memory_xor(
                 a_dst_ptr,
                 a_src_ptr,
-                a_buf_ptr + a_buf_size,
+                a_buf_end_ptr - a_buf_size,
                 todo_size
             );
             
-            if (todo_size < left_size)
+            if (todo_size < a_buf_size)
             {
-                return a_buf_size + todo_size;
+                return a_buf_size - todo_size;
             }
             
             a_dst_ptr += todo_size;
@@ -175,7 +174,7 @@ namespace milo::internal
                 >(
                     a_args
                 )...,
-                a_buf_ptr
+                a_buf_end_ptr - block_size
             );
             
             a_state_cb(
@@ -185,11 +184,13 @@ namespace milo::internal
             memory_xor(
                 a_dst_ptr,
                 a_src_ptr,
-                a_buf_ptr,
+                a_buf_end_ptr - block_size,
                 last_size
             );
+            
+            return block_size - last_size;
         }
         
-        return last_size;
+        return 0;
     }
 }
diff --git a/src/milo/primitive/detail/cipher/chacha/chacha.h b/src/milo/primitive/detail/cipher/chacha/chacha.h
index 7039ed6..41e6d8b 100644
--- a/src/milo/primitive/detail/cipher/chacha/chacha.h
+++ b/src/milo/primitive/detail/cipher/chacha/chacha.h
@@ -140,7 +140,7 @@ namespace milo::primitive::detail
             m_buffer_size = internal::update_block_prod_xor<
                 impl_type
             >(
-                m_buffer,
+                m_buffer + sizeof(m_buffer),
                 m_buffer_size,
                 a_ciphertext_ptr,
                 a_plaintext_ptr,
@@ -184,7 +184,7 @@ namespace milo::primitive::detail
             m_buffer_size = internal::update_block_prod_xor<
                 impl_type
             >(
-                m_buffer,
+                m_buffer + sizeof(m_buffer),
                 m_buffer_size,
                 a_plaintext_ptr,
                 a_ciphertext_ptr,
-- 
2.43.0

