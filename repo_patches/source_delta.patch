From 7dc9435e3fbbefac4e8a7ef1357c0e79d10e8b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:26 +0000
Subject: [PATCH 01/40] fix: logical loads, set1l and loop-tail masks for
 unrolled packs

The recursion over the unroll factor passed a pack where the overloads take a
packl, so loadlu, loadla, set1l and mask_for_loop_tail did not compile for
unroll factors above 1; the loop-tail mask must also advance its index.
---
 egg/gen_adv_cxx_api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 0f0f275..4642c55 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -32,7 +32,7 @@ def get_cxx_advanced_generic(operator):
         if param in ['v', 'vi']:
             return 'pack'
         elif param == 'l':
-            return 'pack'
+            return 'packl'
         else:
             return 'pack{}'.format(param[1:])
     args_list = common.enum(operator.params[1:])
@@ -45,6 +45,9 @@ def get_cxx_advanced_generic(operator):
         member = 'car' if N == '1' else 'cdr'
         if arg[1] in ['vi', 'v', 'l']:
             return 'a{}.{}'.format(arg[0], member)
+        elif operator.name == 'mask_for_loop_tail' and arg[0] == 0 and \
+             N != '1':
+            return 'a0 + len_'
         elif (arg[1] in ['*', 'c*']) and N != '1':
             return 'a{} + len_'.format(arg[0])
         else:
@@ -106,7 +109,8 @@ def get_cxx_advanced_generic(operator):
         post_cdr = ''
         pack1_ret = ''
         packN_ret = ''
-    if '*' in operator.params[1:] or 'c*' in operator.params[1:]:
+    if '*' in operator.params[1:] or 'c*' in operator.params[1:] or \
+       operator.name == 'mask_for_loop_tail':
         # store*[au] does not contain any packx* argument, therefore the offset
         # cannot be correctly computed
         if operator.name in ['store2u', 'store2a']:
-- 
2.43.0


From 7484ebdfe12b7a82251e6640e705d0243bbd7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:29 +0000
Subject: [PATCH 02/40] fix: gathers and scatters on unrolled packs address the
 right elements

The second and following vectors of an unrolled pack were gathered from (or
scattered to) a base address shifted by the vector length although the offsets
are relative to the base address given by the user; the linear versions have
to advance by the vector length times the step.
---
 egg/gen_adv_cxx_api.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 4642c55..807ef1a 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -48,6 +48,13 @@ def get_cxx_advanced_generic(operator):
         elif operator.name == 'mask_for_loop_tail' and arg[0] == 0 and \
              N != '1':
             return 'a0 + len_'
+        elif operator.name in ['gather', 'scatter'] and \
+             arg[1] in ['*', 'c*']:
+            # offsets are relative to the same base address for all vectors
+            return 'a{}'.format(arg[0])
+        elif operator.name in ['gather_linear', 'scatter_linear'] and \
+             arg[1] in ['*', 'c*'] and N != '1':
+            return 'a{} + len_ * a1'.format(arg[0])
         elif (arg[1] in ['*', 'c*']) and N != '1':
             return 'a{} + len_'.format(arg[0])
         else:
@@ -109,8 +116,10 @@ def get_cxx_advanced_generic(operator):
         post_cdr = ''
         pack1_ret = ''
         packN_ret = ''
-    if '*' in operator.params[1:] or 'c*' in operator.params[1:] or \
-       operator.name == 'mask_for_loop_tail':
+    if operator.name in ['gather', 'scatter']:
+        int_len = ''
+    elif '*' in operator.params[1:] or 'c*' in operator.params[1:] or \
+         operator.name == 'mask_for_loop_tail':
         # store*[au] does not contain any packx* argument, therefore the offset
         # cannot be correctly computed
         if operator.name in ['store2u', 'store2a']:
-- 
2.43.0


From 72f01efedc2f480e5f6436aeb8c0bef8596a23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:33 +0000
Subject: [PATCH 03/40] fix: type-changing operators on unrolled packs

reinterpret, reinterpretl, cvt, upcvt, downcvt and the masked loads and stores
built on them did not compile for unroll factors above 1: the recursion passed
a scalar where the overloads take the remaining pack as type tag.
---
 egg/gen_adv_cxx_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 807ef1a..26386f3 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -67,7 +67,8 @@ def get_cxx_advanced_generic(operator):
     if other_varsN != '':
         other_varsN = ', ' + other_varsN
     if not operator.closed:
-        varsN = ['typename ToPackType::value_type()'] + varsN
+        varsN = ['{}<typename ToPackType::value_type, N - 1, SimdExt>()'. \
+                 format(get_pack(operator.params[0]))] + varsN
     if need_tmpl_pack != None:
         varsN = ['{}<T, N - 1, SimdExt>()'.format(need_tmpl_pack)] + varsN
     vars1 = ', '.join(vars1)
@@ -101,7 +102,9 @@ def get_cxx_advanced_generic(operator):
             ret_car = \
                 '''typename simd_traits<typename ToPackType::value_type,
                        SimdExt>::simd_vectorx{} car = '''.format(num)
-        ret_cdr = 'packx{}<T, N - 1, SimdExt> cdr = '.format(num)
+        ret_cdr = 'packx{}<{}, N - 1, SimdExt> cdr = '. \
+                  format(num, 'T' if operator.closed \
+                              else 'typename ToPackType::value_type')
         post_car = '; ret.set_car({})'.format(', '.join( \
             ['car.v{}'.format(i) for i in range(0, int(num))]))
         post_cdr = '; ret.set_cdr({})'.format(', '.join( \
-- 
2.43.0


From b832f441c43df3252079ed751f34693a26a6f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:17 +0000
Subject: [PATCH 04/40] fix: AVX-512 logical loads read a half-precision minus
 zero as false

---
 egg/platform_x86.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index a84ccc5..a158647 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -1860,13 +1860,20 @@ def loadl(simd_ext, typ, aligned):
     if simd_ext in avx512:
         if typ == 'f16':
             return '''/* This can surely be improved but it is not our
-                         priority. Note that we take advantage of the fact that
-                         floating zero is represented as integer zero to
-                         simplify code. */
+                         priority. Note that both floating zeros have all
+                         their bits but the sign equal to zero. */
                       nsimd_{simd_ext}_vlf16 ret;
-                      __mmask32 tmp = nsimd_loadlu_{simd_ext}_u16((u16*){in0});
-                      ret.v0 = (__mmask16)(tmp & 0xFFFF);
-                      ret.v1 = (__mmask16)((tmp >> 16) & 0xFFFF);
+                      int i;
+                      ret.v0 = 0;
+                      ret.v1 = 0;
+                      for (i = 0; i < 16; i++) {{
+                        if ((((u16*){in0})[i] & 0x7FFF) != 0) {{
+                          ret.v0 |= (__mmask16)((__mmask16)1 << i);
+                        }}
+                        if ((((u16*){in0})[i + 16] & 0x7FFF) != 0) {{
+                          ret.v1 |= (__mmask16)((__mmask16)1 << i);
+                        }}
+                      }}
                       return ret;'''.format(**fmtspec)
         return '''/* This can surely be improved but it is not our priority. */
                   int i;
-- 
2.43.0


From da187ccddb8116b74484ccdf91e6ec1946617f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:06 +0000
Subject: [PATCH 05/40] fix: aligned_alloc_for fails when the size in bytes
 overflows

---
 include/nsimd/nsimd.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 36c6dd1..a47105b 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1450,6 +1450,10 @@ NSIMD_INLINE void aligned_free(void *ptr) {
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T> T *aligned_alloc_for(nsimd_nat n) {
+  /* the size in bytes must be representable */
+  if (n < 0 || n > (nsimd_nat)((size_t(-1) >> 1) / sizeof(T))) {
+    return NULL;
+  }
   return (T *)aligned_alloc(n * (nsimd_nat)sizeof(T));
 }
 
-- 
2.43.0


From 15313a6e43a7e763d9c9f4bea3b0d968166ef156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:06 +0000
Subject: [PATCH 06/40] fix: the C++98 allocator throws when memory is
 exhausted

---
 include/nsimd/nsimd.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index a47105b..0739285 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1494,7 +1494,14 @@ public:
   const_pointer address(const_reference r) { return &r; }
 
   pointer allocate(size_type n) {
-    return reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    pointer ptr = NULL;
+    if (n <= max_size()) {
+      ptr = aligned_alloc_for<T>((nsimd_nat)n);
+    }
+    if (ptr == NULL) {
+      throw std::bad_alloc();
+    }
+    return ptr;
   }
 
   pointer allocate(size_type n, const void *) { return allocate(n); }
-- 
2.43.0


From bbc742f21e38f8f19978690480f7202a71078053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:18 +0000
Subject: [PATCH 07/40] fix: streaming logical packs of 8-bit and
 half-precision types

---
 include/nsimd/cxx_adv_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 242837c..07ff073 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -182,7 +182,7 @@ NSIMD_STRUCT packl<T, 1, SimdExt> {
     os << "{ ";
     int n = len(a0);
     for (int i = 0; i < n; i++) {
-      os << buf[i];
+      os << to_biggest(buf[i]);
       if (i < n - 1) {
         os << ", ";
       }
-- 
2.43.0


From 7195c2915f05d6210bf332edc20294de5e7f2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:14 +0000
Subject: [PATCH 08/40] fix: printing a fixed-point pack leaks its buffer when
 the stream throws

---
 include/nsimd/modules/fixed_point.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nsimd/modules/fixed_point.hpp b/include/nsimd/modules/fixed_point.hpp
index 88e9dbb..381fbb9 100644
--- a/include/nsimd/modules/fixed_point.hpp
+++ b/include/nsimd/modules/fixed_point.hpp
@@ -53,7 +53,7 @@ template <typename T> NSIMD_STRUCT pack {
   fpsimd_t<lf, rt> val;
 
   friend std::ostream &operator<<(std::ostream &os, pack<T> &a0) {
-    T *buf = new T[nsimd::fixed_point::len(a0)];
+    T buf[nsimd::max_len_t<typename T::value_type>::value];
     nsimd::fixed_point::simd_storeu( buf , a0.val );
     os << "{ ";
     int n = nsimd::fixed_point::len(a0);
@@ -64,7 +64,6 @@ template <typename T> NSIMD_STRUCT pack {
       }
     }
     os << " }";
-    delete[] buf;
     return os;
   }
 };
-- 
2.43.0


From 81982e917c5525c6bfb45bf636e6051ddd53ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:47 +0000
Subject: [PATCH 09/40] fix: generated files do not depend on hash seed,
 directory order or SIMD list

---
 egg/common.py    | 11 ++++++-----
 egg/gen_tests.py |  8 ++------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/egg/common.py b/egg/common.py
index 7c87a78..b63a760 100644
--- a/egg/common.py
+++ b/egg/common.py
@@ -278,11 +278,12 @@ def get_args(n):
                       for i in range(0, n)])
 
 def get_simds_deps_from_opts(opts):
-    simds = set()
+    wanted = set()
     for simd1 in opts.simd:
         for simd2 in simds_deps[simd1]:
-            simds.add(simd2)
-    return simds
+            wanted.add(simd2)
+    # Always in the same order as this list ends up in generated files
+    return [simd for simd in simds if simd in wanted]
 
 def bitsize(typ):
     if not (typ in types):
@@ -531,7 +532,7 @@ def get_platforms(opts):
     ret = dict()
     path = opts.script_dir
     myprint(opts, 'Searching platforms in "{}"'.format(path))
-    for mod_file in os.listdir(path):
+    for mod_file in sorted(os.listdir(path)):
         if mod_file[-3:] == '.py' and mod_file[0:9] == 'platform_':
             mod_name = mod_file[:-3]
             myprint(opts, 'Found new platform: {}'.format(mod_name[9:]))
@@ -549,7 +550,7 @@ def get_modules(opts):
     # We have one module by directory
     path = os.path.join(opts.script_dir, 'modules')
     myprint(opts, 'Searching modules in "{}"'.format(path))
-    for module_dir in os.listdir(path):
+    for module_dir in sorted(os.listdir(path)):
         if (not os.path.isdir(os.path.join(path, module_dir))) or \
            module_dir == '.' or module_dir == '..' or \
            (not os.path.exists(os.path.join(path, module_dir, 'hatch.py'))):
diff --git a/egg/gen_tests.py b/egg/gen_tests.py
index aecf237..7aac3a5 100644
--- a/egg/gen_tests.py
+++ b/egg/gen_tests.py
@@ -3111,13 +3111,11 @@ def gen_unpack_half(opts, op, typ, lang):
                 }} \\
               }}
 
-              /* {simd} */
-
               ''' .format(year=date.today().year, typ=typ,
                           posix_c_source=posix_c_source,
                           includes=get_includes(lang),
                           comp_unpack=comp_unpack,
-                          sizeof=common.sizeof(typ), simd=opts.simd,
+                          sizeof=common.sizeof(typ),
                           msvc_c4334_warning=msvc_c4334_warning \
                           if typ in ['i64', 'u64'] else '')
     if typ == 'f16':
@@ -3270,12 +3268,10 @@ def gen_unpack(opts, op, typ, lang):
                   exit(EXIT_FAILURE); \\
                 }} \\
               }}
-
-              /* {simd} */
               ''' .format(year=date.today().year, typ=typ,
                           posix_c_source=posix_c_source,
                           includes=get_includes(lang),
-                          sizeof=common.sizeof(typ), simd= opts.simd,
+                          sizeof=common.sizeof(typ),
                           msvc_c4334_warning=msvc_c4334_warning \
                           if typ in ['i64', 'u64'] else '')
 
-- 
2.43.0


From d1843565d4bef57be3c01b8a3b92f0a904e2b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:20 +0000
Subject: [PATCH 10/40] fix: listing generated files creates nothing and
 existing files are kept without --force

---
 egg/common.py                        |  7 ++++---
 egg/gen_archis.py                    |  4 ++--
 egg/gen_base_apis.py                 |  2 +-
 egg/gen_benches.py                   |  2 +-
 egg/gen_doc.py                       |  4 ++--
 egg/gen_src.py                       |  2 +-
 egg/gen_tests.py                     |  2 +-
 egg/get_sleef_code.py                |  2 +-
 egg/modules/fixed_point/gen_doc.py   |  6 ++++++
 egg/modules/fixed_point/gen_tests.py |  4 +---
 egg/modules/random/hatch.py          | 10 +++++++---
 egg/modules/spmd/hatch.py            |  8 ++++----
 egg/modules/tet1d/hatch.py           |  6 +++---
 13 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/egg/common.py b/egg/common.py
index b63a760..a407f9c 100644
--- a/egg/common.py
+++ b/egg/common.py
@@ -338,12 +338,13 @@ def get_output_types(from_typ, output_to):
 # -----------------------------------------------------------------------------
 # mkdir -p (avoid a dependency for just one function)
 
-def mkdir_p(path):
-    if os.path.isdir(path):
+def mkdir_p(opts, path):
+    # Listing files must not create anything
+    if opts.list_files or os.path.isdir(path):
         return path
     head, tail = os.path.split(path)
     if head != '':
-        mkdir_p(head)
+        mkdir_p(opts, head)
     os.mkdir(path)
     return path
 
diff --git a/egg/gen_archis.py b/egg/gen_archis.py
index 4fab3a7..fda8cb8 100644
--- a/egg/gen_archis.py
+++ b/egg/gen_archis.py
@@ -408,7 +408,7 @@ def gen_archis_platform(opts, platform):
         common.myprint(opts, 'Found new SIMD extension: {}'.format(s))
         if s in opts.simd:
             simd_dir = os.path.join(include_dir, s)
-            common.mkdir_p(simd_dir)
+            common.mkdir_p(opts, simd_dir)
             gen_archis_types(opts, simd_dir, platform, s)
             gen_archis_simd(opts, platform, s, simd_dir)
         else:
@@ -418,5 +418,5 @@ def doit(opts):
     common.myprint(opts, 'Generating SIMD implementations')
     opts.platforms = common.get_platforms(opts)
     for p in opts.platforms:
-        common.mkdir_p(os.path.join(opts.include_dir, p))
+        common.mkdir_p(opts, os.path.join(opts.include_dir, p))
         gen_archis_platform(opts, p)
diff --git a/egg/gen_base_apis.py b/egg/gen_base_apis.py
index fec9abd..2355c4d 100644
--- a/egg/gen_base_apis.py
+++ b/egg/gen_base_apis.py
@@ -91,7 +91,7 @@ def get_put_decl():
 
 def doit(opts):
     common.myprint(opts, 'Generating base APIs')
-    common.mkdir_p(opts.include_dir)
+    common.mkdir_p(opts, opts.include_dir)
     filename = os.path.join(opts.include_dir, 'functions.h')
     if not common.can_create_filename(opts, filename):
         return
diff --git a/egg/gen_benches.py b/egg/gen_benches.py
index 2f66915..d9b9701 100644
--- a/egg/gen_benches.py
+++ b/egg/gen_benches.py
@@ -677,7 +677,7 @@ def TODO(f):
 
 def gen_filename(f, simd, typ):
     ## Retrieve directory from global options
-    benches_dir = common.mkdir_p(os.path.join(_opts.benches_dir, _lang))
+    benches_dir = common.mkdir_p(_opts, os.path.join(_opts.benches_dir, _lang))
     ## Generate path (composed from: function name + type + extension)
     return os.path.join(benches_dir, '{}.{}.{}.{}'.format(
         f.name, simd, typ, common.ext_from_lang(_lang)))
diff --git a/egg/gen_doc.py b/egg/gen_doc.py
index 0671525..b9fec5d 100644
--- a/egg/gen_doc.py
+++ b/egg/gen_doc.py
@@ -331,7 +331,7 @@ def gen_doc(opts):
     # Operators (one file per operator)
     # dirname = os.path.join(opts.script_dir, '..','doc', 'markdown')
     dirname = common.get_markdown_dir(opts)
-    common.mkdir_p(dirname)
+    common.mkdir_p(opts, dirname)
     for op_name, operator in operators.items():
         # Skip non-matching doc
         if opts.match and not opts.match.match(op_name):
@@ -649,7 +649,7 @@ def gen_doc_html(opts, title):
     html_dir = get_html_dir(opts)
 
     if not os.path.isdir(html_dir):
-        mkdir_p(html_dir)
+        common.mkdir_p(opts, html_dir)
 
     doc_files = []
     for filename in os.listdir(md_dir):
diff --git a/egg/gen_src.py b/egg/gen_src.py
index d6cfd35..4ee30bd 100644
--- a/egg/gen_src.py
+++ b/egg/gen_src.py
@@ -117,7 +117,7 @@ def write_cpp(opts, simd_ext, emulate_fp16):
     common.clang_format(opts, filename)
 
 def doit(opts):
-    common.mkdir_p(opts.src_dir)
+    common.mkdir_p(opts, opts.src_dir)
     common.myprint(opts, 'Generating source for binary')
     opts.platforms = common.get_platforms(opts)
     for platform in opts.platforms:
diff --git a/egg/gen_tests.py b/egg/gen_tests.py
index 7aac3a5..6671328 100644
--- a/egg/gen_tests.py
+++ b/egg/gen_tests.py
@@ -220,7 +220,7 @@ msvc_c4334_warning = \
 
 def get_filename(opts, op, typ, lang, custom_name=''):
     tests_dir = os.path.join(opts.tests_dir, lang)
-    common.mkdir_p(tests_dir)
+    common.mkdir_p(opts, tests_dir)
     ext = { 'c_base': 'prec11.c', 'c_adv': 'c' }
     if not custom_name:
         filename = os.path.join(tests_dir, '{}.{}.{}'.format(op.name, typ,
diff --git a/egg/get_sleef_code.py b/egg/get_sleef_code.py
index be4df55..84009ff 100644
--- a/egg/get_sleef_code.py
+++ b/egg/get_sleef_code.py
@@ -32,7 +32,7 @@ def doit(opts):
 
     # First download Sleef
     sleef_dir = os.path.join(opts.script_dir, '..', '_deps-sleef')
-    common.mkdir_p(sleef_dir)
+    common.mkdir_p(opts, sleef_dir)
     url = 'https://github.com/shibatch/sleef/archive/refs/tags/{}.zip'. \
           format(opts.sleef_version)
     r = requests.get(url, allow_redirects=True)
diff --git a/egg/modules/fixed_point/gen_doc.py b/egg/modules/fixed_point/gen_doc.py
index a7251a3..f0eb656 100644
--- a/egg/modules/fixed_point/gen_doc.py
+++ b/egg/modules/fixed_point/gen_doc.py
@@ -37,6 +37,8 @@ import operators
 
 def gen_overview(opts):
     filename = common.get_markdown_file(opts, 'overview', 'fixed_point')
+    if not common.can_create_filename(opts, filename):
+        return
     with common.open_utf8(opts, filename) as fout:
         fout.write('''
 # NSIMD fixed point module
@@ -200,6 +202,8 @@ def gen_api(opts, op_list):
                 api[c].append(operator)
 
     filename = common.get_markdown_file(opts, 'api', 'fixed_point')
+    if not common.can_create_filename(opts, filename):
+        return
     with common.open_utf8(opts, filename) as fout:
         fout.write('''# NSIMD fixed point API\n''')
         for c, ops in api.items():
@@ -218,6 +222,8 @@ def gen_doc(opts, op_list):
         if op.name not in op_list:
             continue
         filename = common.get_markdown_api_file(opts, op.name, 'fixed_point')
+        if not common.can_create_filename(opts, filename):
+            continue
         with common.open_utf8(opts, filename) as fout:
             fout.write(api_template.format(full_name=op.full_name,
                                            desc=op.desc, decl=gen_decl(op)))
diff --git a/egg/modules/fixed_point/gen_tests.py b/egg/modules/fixed_point/gen_tests.py
index b51394b..2d383d3 100644
--- a/egg/modules/fixed_point/gen_tests.py
+++ b/egg/modules/fixed_point/gen_tests.py
@@ -26,10 +26,8 @@ import common
 
 def get_filename(opts, op, lf, rt):
     tests_dir = os.path.join(opts.tests_dir, "modules/fixed_point")
-    common.mkdir_p(tests_dir)
+    common.mkdir_p(opts, tests_dir)
     filename = os.path.join(tests_dir, '{}.fp_{}_{}.cpp'.format(op, lf, rt))
-    if os.path.exists(filename):
-        os.remove(filename)
     if common.can_create_filename(opts, filename):
         return filename
     else:
diff --git a/egg/modules/random/hatch.py b/egg/modules/random/hatch.py
index 911499c..8143f5f 100644
--- a/egg/modules/random/hatch.py
+++ b/egg/modules/random/hatch.py
@@ -574,7 +574,7 @@ class ThreeFry(Rand):
 def gen_functions(opts):
     ## Write source files
     #dirname = os.path.join(opts.include_dir, 'modules', 'random')
-    #common.mkdir_p(dirname)
+    #common.mkdir_p(opts, dirname)
     #filename = os.path.join(dirname, 'functions.cpp')
     #print(filename)
     #with common.open_utf8(opts, filename) as out:
@@ -586,8 +586,10 @@ def gen_functions(opts):
 
     # Write headers
     dirname = os.path.join(opts.include_dir, 'modules', 'random')
-    common.mkdir_p(dirname)
+    common.mkdir_p(opts, dirname)
     filename = os.path.join(dirname, 'functions.hpp')
+    if not common.can_create_filename(opts, filename):
+        return
     with common.open_utf8(opts, filename) as out:
         out.write(
         '''#ifndef NSIMD_MODULES_RANDOM_FUNCTIONS_HPP
@@ -647,10 +649,12 @@ def gen_tests(opts):
                 for nrounds in list_nrounds:
                     # Write headers
                     dirname = os.path.join(opts.tests_dir, 'modules', 'random')
-                    common.mkdir_p(dirname)
+                    common.mkdir_p(opts, dirname)
                     filename = os.path.join(dirname, '{}.cpp'. \
                                format(func.gen_function_name(nwords, word_size,
                                                              nrounds)))
+                    if not common.can_create_filename(opts, filename):
+                        continue
                     with common.open_utf8(opts, filename) as out:
                         out.write(func.gen_tests(opts, nrounds, word_size,
                                   nwords))
diff --git a/egg/modules/spmd/hatch.py b/egg/modules/spmd/hatch.py
index d3169fc..040031b 100644
--- a/egg/modules/spmd/hatch.py
+++ b/egg/modules/spmd/hatch.py
@@ -436,7 +436,7 @@ same type as the other operands.
 def gen_tests_for_shifts(opts, t, operator):
     op_name = operator.name
     dirname = os.path.join(opts.tests_dir, 'modules', 'spmd')
-    common.mkdir_p(dirname)
+    common.mkdir_p(opts, dirname)
     filename = os.path.join(dirname, '{}.{}.cpp'.format(op_name, t))
     if not common.can_create_filename(opts, filename):
         return
@@ -561,7 +561,7 @@ def gen_tests_for_shifts(opts, t, operator):
 def gen_tests_for_cvt_reinterpret(opts, tt, t, operator):
     op_name = operator.name
     dirname = os.path.join(opts.tests_dir, 'modules', 'spmd')
-    common.mkdir_p(dirname)
+    common.mkdir_p(opts, dirname)
     filename = os.path.join(dirname, '{}.{}_{}.cpp'.format(op_name, t, tt))
     if not common.can_create_filename(opts, filename):
         return
@@ -690,7 +690,7 @@ def gen_tests_for_cvt_reinterpret(opts, tt, t, operator):
 def gen_tests_for(opts, t, operator):
     op_name = operator.name
     dirname = os.path.join(opts.tests_dir, 'modules', 'spmd')
-    common.mkdir_p(dirname)
+    common.mkdir_p(opts, dirname)
     filename = os.path.join(dirname, '{}.{}.cpp'.format(op_name, t))
     if not common.can_create_filename(opts, filename):
         return
@@ -1077,7 +1077,7 @@ def gen_functions(opts):
 
     # Write the code to file
     dirname = os.path.join(opts.include_dir, 'modules', 'spmd')
-    common.mkdir_p(dirname)
+    common.mkdir_p(opts, dirname)
     filename = os.path.join(dirname, 'functions.hpp')
     if not common.can_create_filename(opts, filename):
         return
diff --git a/egg/modules/tet1d/hatch.py b/egg/modules/tet1d/hatch.py
index fcab484..16cb34c 100644
--- a/egg/modules/tet1d/hatch.py
+++ b/egg/modules/tet1d/hatch.py
@@ -284,7 +284,7 @@ In all signature below the following pseudo types are used for simplification:
 def gen_tests_for_shifts(opts, t, operator):
     op_name = operator.name
     dirname = os.path.join(opts.tests_dir, 'modules', 'tet1d')
-    common.mkdir_p(dirname)
+    common.mkdir_p(opts, dirname)
     filename = os.path.join(dirname, '{}.{}.cpp'.format(op_name, t))
     if not common.can_create_filename(opts, filename):
         return
@@ -397,7 +397,7 @@ def gen_tests_for_shifts(opts, t, operator):
 def gen_tests_for(opts, tt, t, operator):
     op_name = operator.name
     dirname = os.path.join(opts.tests_dir, 'modules', 'tet1d')
-    common.mkdir_p(dirname)
+    common.mkdir_p(opts, dirname)
     filename = os.path.join(dirname, '{}.{}.cpp'.format(op_name,
                t if t == tt else '{}_{}'.format(t, tt)))
     if not common.can_create_filename(opts, filename):
@@ -854,7 +854,7 @@ def gen_functions(opts):
 
     # Write the code to file
     dirname = os.path.join(opts.include_dir, 'modules', 'tet1d')
-    common.mkdir_p(dirname)
+    common.mkdir_p(opts, dirname)
     filename = os.path.join(dirname, 'functions.hpp')
     if not common.can_create_filename(opts, filename):
         return
-- 
2.43.0


From 3544f7f390d830b2f85810d3dd3b4de39cf4b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:20 +0000
Subject: [PATCH 11/40] fix: a failed HTML conversion is reported and existing
 pages are kept without --force

---
 egg/gen_doc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/egg/gen_doc.py b/egg/gen_doc.py
index b9fec5d..52df3c2 100644
--- a/egg/gen_doc.py
+++ b/egg/gen_doc.py
@@ -671,8 +671,12 @@ def gen_doc_html(opts, title):
             header = get_html_header(opts, title, filename)
             input_name = os.path.join(md_dir, filename + '.md')
             output_name = os.path.join(html_dir, filename + '.html')
-            os.system('{} "{}" "{}"'.format(full_path_md2html, input_name,
-                                            tmp_file))
+            if not common.can_create_filename(opts, output_name):
+                continue
+            if os.system('{} "{}" "{}"'.format(full_path_md2html, input_name,
+                                               tmp_file)) != 0:
+                raise RuntimeError('Unable to convert "{}" to HTML'. \
+                                   format(input_name))
             with common.open_utf8(opts, output_name) as fout:
                 fout.write(header)
                 with io.open(tmp_file, mode='r', encoding='utf-8') as fin:
-- 
2.43.0


From a74521d2b2f945947f3ac753cd08db858b80ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:00 +0000
Subject: [PATCH 12/40] fix: HTML generation leaves no scratch file depending
 on directory order

---
 egg/gen_doc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egg/gen_doc.py b/egg/gen_doc.py
index 52df3c2..9d207b0 100644
--- a/egg/gen_doc.py
+++ b/egg/gen_doc.py
@@ -652,7 +652,7 @@ def gen_doc_html(opts, title):
         common.mkdir_p(opts, html_dir)
 
     doc_files = []
-    for filename in os.listdir(md_dir):
+    for filename in sorted(os.listdir(md_dir)):
         name =  os.path.basename(filename)
         if name.endswith('.md'):
             doc_files.append(os.path.splitext(name)[0])
@@ -682,6 +682,8 @@ def gen_doc_html(opts, title):
                 with io.open(tmp_file, mode='r', encoding='utf-8') as fin:
                     fout.write(fin.read())
                 fout.write(footer)
+        if os.path.isfile(tmp_file):
+            os.remove(tmp_file)
 
 def gen_html(opts):
     common.myprint(opts, 'Generating HTML documentation')
-- 
2.43.0


From 0ed8f590bacee02a7a5f6e50f5abcff850deaac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:52 +0000
Subject: [PATCH 13/40] fix: PPC includes do not depend on what was generated
 before

---
 egg/platform_ppc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/egg/platform_ppc.py b/egg/platform_ppc.py
index 3e53073..08442c5 100644
--- a/egg/platform_ppc.py
+++ b/egg/platform_ppc.py
@@ -230,16 +230,16 @@ def get_additional_include(func, platform, simd_ext):
                   #include <nsimd/ppc/{simd_ext}/set1.h>
                   #include <nsimd/ppc/{simd_ext}/{load}.h>
                   #include <nsimd/ppc/{simd_ext}/notl.h>
-                  '''.format(load='load' + func[5], **fmtspec)
+                  '''.format(load='load' + func[5], simd_ext=simd_ext)
 
     elif func in ['storelu']:
         ret += '''#include <nsimd/ppc/{simd_ext}/if_else1.h>
                   #include <nsimd/ppc/{simd_ext}/set1.h>
-                  '''.format(**fmtspec)
+                  '''.format(simd_ext=simd_ext)
 
     elif func in ['shr', 'shl']:
         ret += '''#include <nsimd/ppc/{simd_ext}/set1.h>
-                  '''.format(**fmtspec)
+                  '''.format(simd_ext=simd_ext)
 
     elif func == "shra":
         ret += '''#include <nsimd/scalar_utilities.h>
@@ -249,13 +249,13 @@ def get_additional_include(func, platform, simd_ext):
         ret += '''#include <nsimd/ppc/{simd_ext}/{unzip_prefix}ziplo.h>
                   #include <nsimd/ppc/{simd_ext}/{unzip_prefix}ziphi.h>
                   '''.format(unzip_prefix="" if func == "zip" else "un",
-                             **fmtspec)
+                             simd_ext=simd_ext)
 
     elif func in ['unziplo', 'unziphi']:
         ret += '''#include <nsimd/ppc/{simd_ext}/ziplo.h>
                   #include <nsimd/ppc/{simd_ext}/ziphi.h>
                   #include <math.h>
-                  '''.format(**fmtspec)
+                  '''.format(simd_ext=simd_ext)
 
     elif func[:5] in ['masko', 'maskz']:
         ret += '''#include <nsimd/scalar_utilities.h>
@@ -307,7 +307,7 @@ def get_additional_include(func, platform, simd_ext):
                  (unsigned char)(k), (unsigned char)(l),                  \
                  (unsigned char)(m), (unsigned char)(n),                  \
                  (unsigned char)(o), (unsigned char)(p) }}
-        '''.format(**fmtspec)
+        '''.format(simd_ext=simd_ext)
 
     return ret
 
-- 
2.43.0


From 91ab24a60916a3a360b9ed9a420087ed303ae1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 14/40] fix: fetching Sleef gives up on a silent server and
 refuses error pages

---
 egg/get_sleef_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egg/get_sleef_code.py b/egg/get_sleef_code.py
index 84009ff..aaeaafb 100644
--- a/egg/get_sleef_code.py
+++ b/egg/get_sleef_code.py
@@ -35,7 +35,8 @@ def doit(opts):
     common.mkdir_p(opts, sleef_dir)
     url = 'https://github.com/shibatch/sleef/archive/refs/tags/{}.zip'. \
           format(opts.sleef_version)
-    r = requests.get(url, allow_redirects=True)
+    r = requests.get(url, allow_redirects=True, timeout=60)
+    r.raise_for_status()
     sleef_zip = os.path.join(sleef_dir, 'sleef.zip')
     with open(sleef_zip, 'wb') as fout:
         fout.write(r.content)
-- 
2.43.0


From 7d87fcf8c75e7666339b70e885903772a430a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:34 +0000
Subject: [PATCH 15/40] fix: an incomplete Sleef archive does not alter the
 sources

---
 egg/get_sleef_code.py | 58 +++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/egg/get_sleef_code.py b/egg/get_sleef_code.py
index aaeaafb..91d6e47 100644
--- a/egg/get_sleef_code.py
+++ b/egg/get_sleef_code.py
@@ -41,36 +41,46 @@ def doit(opts):
     with open(sleef_zip, 'wb') as fout:
         fout.write(r.content)
 
-    # Unzip sleef
+    # Files needed from Sleef, functions are listed in funcproto.h
+    files = [
+        'src/libm/sleefsimddp.c',
+        'src/libm/sleefsimdsp.c',
+        'src/libm/sleefdp.c',
+        'src/libm/sleefsp.c',
+        'src/common/misc.h',
+        'src/libm/estrin.h',
+        'src/libm/dd.h',
+        'src/libm/df.h',
+        'src/libm/rempitab.c',
+        'src/arch/helpersse2.h',
+        'src/arch/helperavx.h',
+        'src/arch/helperavx2.h',
+        'src/arch/helperavx512f.h',
+        'src/arch/helperneon32.h',
+        'src/arch/helperadvsimd.h',
+        'src/arch/helperpower_128.h',
+        'src/arch/helpersve.h',
+    ]
+    sleef_name = 'sleef-{}'.format(opts.sleef_version)
+
+    # Unzip sleef, an incomplete archive must not alter the sources
     with zipfile.ZipFile(sleef_zip, 'r') as fin:
+        names = fin.namelist()
+        for filename in files + ['src/libm/funcproto.h']:
+            if '{}/{}'.format(sleef_name, filename) not in names:
+                raise RuntimeError('{} not found in {}'. \
+                                   format(filename, sleef_zip))
         fin.extractall(path=sleef_dir)
 
     # Copy helper function
     def copy(filename):
         dst_filename = os.path.basename(filename)
-        shutil.copyfile(os.path.join(sleef_dir,
-                                     'sleef-{}'.format(opts.sleef_version),
-                                     filename), os.path.join(opts.src_dir,
-                                                             dst_filename))
+        shutil.copyfile(os.path.join(sleef_dir, sleef_name, filename),
+                        os.path.join(opts.src_dir, dst_filename))
 
     # Copy files
-    copy('src/libm/sleefsimddp.c')
-    copy('src/libm/sleefsimdsp.c')
-    copy('src/libm/sleefdp.c')
-    copy('src/libm/sleefsp.c')
-    copy('src/common/misc.h')
-    copy('src/libm/estrin.h')
-    copy('src/libm/dd.h')
-    copy('src/libm/df.h')
-    copy('src/libm/rempitab.c')
-    copy('src/arch/helpersse2.h')
-    copy('src/arch/helperavx.h')
-    copy('src/arch/helperavx2.h')
-    copy('src/arch/helperavx512f.h')
-    copy('src/arch/helperneon32.h')
-    copy('src/arch/helperadvsimd.h')
-    copy('src/arch/helperpower_128.h')
-    copy('src/arch/helpersve.h')
+    for filename in files:
+        copy(filename)
 
     # Sleef uses aliases but we don't need those so we comment them
     def comment_DALIAS_lines(filename):
@@ -143,8 +153,8 @@ def doit(opts):
     # differents flavours (or precisions). The "database" is contained within
     # src/libm/funcproto.h. So we parse it and produce names
     # in headers "rename[SIMD ext].h" to avoid modifying Sleef C files.
-    funcproto = os.path.join(sleef_dir, 'sleef-{}'.format(opts.sleef_version),
-                             'src', 'libm', 'funcproto.h')
+    funcproto = os.path.join(sleef_dir, sleef_name, 'src', 'libm',
+                             'funcproto.h')
     defines = []
     ulp_suffix = {
         '0' : '',
-- 
2.43.0


From 382e1ca848096f96233ba8c0f71d6f416961d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:08 +0000
Subject: [PATCH 16/40] fix: listing files does not fetch Sleef

---
 egg/get_sleef_code.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egg/get_sleef_code.py b/egg/get_sleef_code.py
index 91d6e47..b61957e 100644
--- a/egg/get_sleef_code.py
+++ b/egg/get_sleef_code.py
@@ -27,6 +27,10 @@ import os
 # -----------------------------------------------------------------------------
 
 def doit(opts):
+    # Listing files must not fetch nor create anything
+    if opts.list_files:
+        return
+
     common.myprint(opts, 'Copy native Sleef version {}'. \
                          format(opts.sleef_version))
 
-- 
2.43.0


From d2b0ff5724ff4a6b2fec5dfb8625f68b73ea31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:04 +0000
Subject: [PATCH 17/40] fix: k_while stops when its lanes are done and honours
 k_continue

The loop went on as long as the condition held for any lane, including the
lanes that left through k_break or k_return or never entered the loop: such
loops never ended.  The condition was also evaluated twice, and lanes switched
off by k_continue inside a k_if were cleared again on every later iteration.
---
 include/nsimd/modules/spmd.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 10eb3d9..2fa07a8 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -639,17 +639,19 @@ inline bool any(bool a) { return a; }
     k_bool spmd_middle_mask_ = spmd_mask_;                                    \
     k_bool spmd_off_lanes_break_(false);                                      \
     (void)spmd_off_lanes_break_;                                              \
-    k_bool spmd_off_lanes_continue_(false);                                   \
-    (void)spmd_off_lanes_continue_;                                           \
-    {                                                                         \
-      while (spmd::any(cond)) {                                               \
-        k_bool spmd_cond_ =                                                   \
-            spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(    \
-                cond);                                                        \
-        {                                                                     \
-          k_bool spmd_mask_ = spmd_cond_ && spmd_middle_mask_;                \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_break_);  \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
+    for (;;) {                                                                \
+      k_bool spmd_off_lanes_continue_(false);                                 \
+      (void)spmd_off_lanes_continue_;                                         \
+      k_bool spmd_mask_ = spmd_middle_mask_;                                  \
+      spmd_mask_ =                                                            \
+          spmd_mask_ &&                                                       \
+          spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(      \
+              cond);                                                          \
+      if (!spmd::any(spmd_mask_)) {                                           \
+        break;                                                                \
+      }                                                                       \
+      spmd_middle_mask_ = spmd_mask_;                                         \
+      {
 
 // break statement (k_break)
 #define k_break                                                               \
@@ -664,7 +666,10 @@ inline bool any(bool a) { return a; }
 // endwhile statement (k_endwhile)
 #define k_endwhile                                                            \
   }                                                                           \
-  }                                                                           \
+  spmd_middle_mask_ =                                                         \
+      spmd::clear_lanes(spmd_middle_mask_, spmd_off_lanes_break_);            \
+  spmd_middle_mask_ =                                                         \
+      spmd::clear_lanes(spmd_middle_mask_, spmd_off_lanes_return_);           \
   }                                                                           \
   }                                                                           \
   spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
-- 
2.43.0


From 0a17be0a451516bb02a73d4a12d31700619cb092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:04 +0000
Subject: [PATCH 18/40] fix: k_elseif evaluates its condition for the lanes
 that reach it

Loads and device functions called in the condition also acted for the lanes
that had already taken an earlier branch.
---
 include/nsimd/modules/spmd.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 2fa07a8..6104667 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -695,8 +695,12 @@ inline bool any(bool a) { return a; }
   spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_break_);          \
   spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_continue_);       \
   spmd_middle_mask_ = spmd::clear_lanes(spmd_middle_mask_, spmd_cond_);       \
-  spmd_cond_ =                                                                \
-      spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(cond);    \
+  {                                                                           \
+    k_bool spmd_mask_ = spmd_middle_mask_;                                    \
+    (void)spmd_mask_;                                                         \
+    spmd_cond_ =                                                              \
+        spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(cond);  \
+  }                                                                           \
   {                                                                           \
     k_bool spmd_mask_ = spmd_cond_ && spmd_middle_mask_;
 
-- 
2.43.0


From a23ac5b82f297e0af28a277434c296dae390c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:04 +0000
Subject: [PATCH 19/40] fix: k_set of a k_bool keeps the lanes that are
 switched off

They became false.  Setting a k_bool from a scalar and a k_float of half
precision from a literal did not compile.
---
 include/nsimd/modules/spmd.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 6104667..dea0e1a 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -582,7 +582,8 @@ template <typename T, typename S> void k_set_(bool mask, T &var, S value) {
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
             nsimd::pack<S, N, SimdExt> &var, U value) {
-  var = nsimd::if_else(mask, nsimd::pack<S, N, SimdExt>(S(value)), var);
+  var = nsimd::if_else(
+      mask, nsimd::pack<S, N, SimdExt>(nsimd::to<S>(value)), var);
 }
 
 template <typename T, typename S, int N, typename SimdExt>
@@ -594,16 +595,19 @@ void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var, U value) {
+            nsimd::packl<S, N, SimdExt> &var,
+            nsimd::packl<U, N, SimdExt> const &value) {
+  typedef nsimd::packl<T, N, SimdExt> mask_t;
+  mask_t old = nsimd::reinterpretl<mask_t>(var);
+  mask_t val = nsimd::reinterpretl<mask_t>(value);
   var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(
-      mask && nsimd::pack<S, N, SimdExt>(int(value)));
+      (mask && val) || nsimd::andnotl(old, mask));
 }
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var,
-            nsimd::packl<U, N, SimdExt> const &value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask && value);
+            nsimd::packl<S, N, SimdExt> &var, U value) {
+  k_set_(mask, var, nsimd::packl<T, N, SimdExt>(int(value)));
 }
 
 #define k_set(var, value) spmd::k_set_(spmd_mask_, var, value)
-- 
2.43.0


From 55a55d7db90768983e4c238ece216edc4fe75324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:58 +0000
Subject: [PATCH 20/40] fix: launching a kernel does not capture the caller's
 variables

The CPU launch macros declared a variable named len: a caller whose number of
items is held in a variable of that name had only the first vector processed.
The oneAPI macro left its variables in the caller's scope, so that a second
launch in the same scope did not compile.
---
 include/nsimd/modules/spmd.hpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index dea0e1a..f74f609 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -168,15 +168,19 @@ namespace spmd {
 // launch 1d kernel oneAPI
 #define spmd_launch_kernel_1d(name, spmd_scalar_bits_, threads_per_block, n,  \
                               ...)                                            \
-  size_t total_num_threads =                                                  \
-      (size_t)nsimd_kernel_param(n, threads_per_block);                       \
-  sycl::queue q = nsimd::oneapi::default_queue();                             \
-  q.parallel_for(sycl::nd_range<1>(sycl::range<1>(total_num_threads),         \
-                                   sycl::range<1>(threads_per_block)),        \
-                 [=](sycl::nd_item<1> item) {                                 \
-                   name<spmd_scalar_bits_>(__VA_ARGS__, (size_t)n, item);     \
-                 })                                                           \
-      .wait_and_throw();
+  {                                                                           \
+    size_t spmd_nb_threads_ =                                                 \
+        (size_t)nsimd_kernel_param(n, threads_per_block);                     \
+    sycl::queue spmd_queue_ = nsimd::oneapi::default_queue();                 \
+    spmd_queue_                                                               \
+        .parallel_for(sycl::nd_range<1>(sycl::range<1>(spmd_nb_threads_),     \
+                                        sycl::range<1>(threads_per_block)),   \
+                      [=](sycl::nd_item<1> spmd_item_) {                      \
+                        name<spmd_scalar_bits_>(__VA_ARGS__, (size_t)n,       \
+                                                spmd_item_);                  \
+                      })                                                      \
+        .wait_and_throw();                                                    \
+  }
 
 #endif
 
@@ -373,10 +377,11 @@ struct KernelSIMD {};
     spmd::type_t<spmd::KernelSIMD, spmd_scalar_bits_, spmd_unroll_>::btype    \
         spmd_mask_(true);                                                     \
     nsimd_nat spmd_i_;                                                        \
-    nsimd_nat len =                                                           \
+    nsimd_nat spmd_len_ =                                                     \
         nsimd::len(spmd::type_t<spmd::KernelSIMD, spmd_scalar_bits_,          \
                                 spmd_unroll_>::itype());                      \
-    for (spmd_i_ = 0; spmd_i_ + len <= spmd_n_; spmd_i_ += len) {             \
+    for (spmd_i_ = 0; spmd_i_ + spmd_len_ <= spmd_n_;                         \
+         spmd_i_ += spmd_len_) {                                              \
       name<spmd::KernelSIMD, spmd_scalar_bits_, spmd_unroll_>(                \
           spmd_i_, spmd_mask_, __VA_ARGS__);                                  \
     }                                                                         \
@@ -393,10 +398,11 @@ struct KernelSIMD {};
     typename spmd::type_t<spmd::KernelSIMD, spmd_scalar_bits_,                \
                           spmd_unroll_>::btype spmd_mask_(true);              \
     nsimd_nat spmd_i_;                                                        \
-    nsimd_nat len =                                                           \
+    nsimd_nat spmd_len_ =                                                     \
         nsimd::len(typename spmd::type_t<spmd::KernelSIMD, spmd_scalar_bits_, \
                                          spmd_unroll_>::itype());             \
-    for (spmd_i_ = 0; spmd_i_ + len <= spmd_n_; spmd_i_ += len) {             \
+    for (spmd_i_ = 0; spmd_i_ + spmd_len_ <= spmd_n_;                         \
+         spmd_i_ += spmd_len_) {                                              \
       name<template_argument, spmd::KernelSIMD, spmd_scalar_bits_,            \
            spmd_unroll_>(spmd_i_, spmd_mask_, __VA_ARGS__);                   \
     }                                                                         \
-- 
2.43.0


From 918a27e13bbba1b7f8bd2c5a63cbbf1bc205c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:58 +0000
Subject: [PATCH 21/40] fix: k_return, k_to_bool and templated launches exist
 on GPUs

The documented keywords were only defined for CPUs, so that kernels using them
did not compile for CUDA, ROCm and oneAPI.
---
 include/nsimd/modules/spmd.hpp | 42 ++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index f74f609..05a0b06 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -153,6 +153,14 @@ namespace spmd {
       <<<(unsigned int)nsimd_kernel_param(n, threads_per_block),              \
          (unsigned int)(threads_per_block)>>>(__VA_ARGS__, (int)n)
 
+// launch 1d templated kernel CUDA
+#define spmd_launch_tmpl_kernel_1d(name, template_argument,                   \
+                                   spmd_scalar_bits_, threads_per_block, n,   \
+                                   ...)                                       \
+  name<template_argument, spmd_scalar_bits_>                                  \
+      <<<(unsigned int)nsimd_kernel_param(n, threads_per_block),              \
+         (unsigned int)(threads_per_block)>>>(__VA_ARGS__, (int)n)
+
 #elif defined(NSIMD_ROCM)
 
 // launch 1d kernel ROCm
@@ -163,6 +171,15 @@ namespace spmd {
                      (size_t)(threads_per_block), 0, NULL, __VA_ARGS__,       \
                      (size_t)n)
 
+// launch 1d templated kernel ROCm
+#define spmd_launch_tmpl_kernel_1d(name, template_argument,                   \
+                                   spmd_scalar_bits_, threads_per_block, n,   \
+                                   ...)                                       \
+  hipLaunchKernelGGL((name<template_argument, spmd_scalar_bits_>),            \
+                     (size_t)nsimd_kernel_param(n, threads_per_block),        \
+                     (size_t)(threads_per_block), 0, NULL, __VA_ARGS__,       \
+                     (size_t)n)
+
 #else
 
 // launch 1d kernel oneAPI
@@ -182,6 +199,24 @@ namespace spmd {
         .wait_and_throw();                                                    \
   }
 
+// launch 1d templated kernel oneAPI
+#define spmd_launch_tmpl_kernel_1d(name, template_argument,                   \
+                                   spmd_scalar_bits_, threads_per_block, n,   \
+                                   ...)                                       \
+  {                                                                           \
+    size_t spmd_nb_threads_ =                                                 \
+        (size_t)nsimd_kernel_param(n, threads_per_block);                     \
+    sycl::queue spmd_queue_ = nsimd::oneapi::default_queue();                 \
+    spmd_queue_                                                               \
+        .parallel_for(sycl::nd_range<1>(sycl::range<1>(spmd_nb_threads_),     \
+                                        sycl::range<1>(threads_per_block)),   \
+                      [=](sycl::nd_item<1> spmd_item_) {                      \
+                        name<template_argument, spmd_scalar_bits_>(           \
+                            __VA_ARGS__, (size_t)n, spmd_item_);              \
+                      })                                                      \
+        .wait_and_throw();                                                    \
+  }
+
 #endif
 
 // supported types (generic)
@@ -258,8 +293,11 @@ template <> struct type_t<64> {
 // continue statement (k_continue)
 #define k_continue continue
 
-// endwhile statement (k_endwhile)
-#define k_endwhile }
+// return statement (k_return)
+#define k_return return
+
+// boolean from a comparison
+#define k_to_bool(a) (a)
 
 // if statement (k_if)
 #define k_if(cond) if (cond) {
-- 
2.43.0


From c716ae2bb91a61239d1e47fc1b77549df6b15411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:19 +0000
Subject: [PATCH 22/40] fix: a bool and a logical pack combine whichever comes
 first

---
 egg/gen_friendly_but_not_optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_friendly_but_not_optimized.py b/egg/gen_friendly_but_not_optimized.py
index 5ffbe5f..2999929 100644
--- a/egg/gen_friendly_but_not_optimized.py
+++ b/egg/gen_friendly_but_not_optimized.py
@@ -54,7 +54,7 @@ def get_impl(operator):
         template <typename S, typename T, int N, typename SimdExt>
         packl<T, N, SimdExt>
         operator{cxx_op}(S s, packl<T, N, SimdExt> const &v) {{
-          return {op_name}(pack<T, N, SimdExt>(bool(s)), v);
+          return {op_name}(packl<T, N, SimdExt>(bool(s)), v);
         }}
 
         template <typename T, typename S, int N, typename SimdExt>
-- 
2.43.0


From d960cf715a7ad152405d49e2e62894c713a2dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:39 +0000
Subject: [PATCH 23/40] fix: the host half of a pair has room for all elements
 on GPUs

pair_malloc allocated sz bytes instead of sz elements; pair_calloc did the
same and did not compile; pair_free freed a member that does not exist.
---
 include/nsimd/modules/memory_management.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 57ede59..5a96077 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -251,7 +251,7 @@ template <typename T> paired_pointers_t<T> pair_malloc(size_t sz) {
     ret.host_ptr = NULL;
     return ret;
   }
-  ret.host_ptr = (T *)malloc(sz);
+  ret.host_ptr = (T *)malloc(sz * sizeof(T));
   if (ret.host_ptr == NULL) {
     device_free(ret.device_ptr);
     ret.device_ptr = NULL;
@@ -284,7 +284,7 @@ template <typename T> paired_pointers_t<T> pair_calloc(size_t sz) {
     ret.host_ptr = NULL;
     return ret;
   }
-  ret.host_ptr = calloc(sz, 1);
+  ret.host_ptr = (T *)calloc(sz, sizeof(T));
   if (ret.host_ptr == NULL) {
     device_free(ret.device_ptr);
     ret.device_ptr = NULL;
@@ -310,7 +310,7 @@ template <typename T> paired_pointers_t<T> pair_calloc_or_exit(size_t sz) {
 
 template <typename T> void pair_free(paired_pointers_t<T> p) {
 #if defined(NSIMD_CUDA) || defined(NSIMD_ROCM) || defined(NSIMD_ONEAPI)
-  device_free(p.device_free);
+  device_free(p.device_ptr);
   free((void *)p.host_ptr);
 #else
   free((void *)p.host_ptr);
-- 
2.43.0


From 736e55f580354e903f426dde3c0316951a7e3298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:39 +0000
Subject: [PATCH 24/40] fix: a pair that could not be allocated has size zero
 on CPUs

The size was the one asked for although both pointers are null, contrary to
GPUs.
---
 include/nsimd/modules/memory_management.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 5a96077..5fcbb3a 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -260,6 +260,9 @@ template <typename T> paired_pointers_t<T> pair_malloc(size_t sz) {
 #else
   ret.device_ptr = device_malloc<T>(sz);
   ret.host_ptr = ret.device_ptr;
+  if (ret.device_ptr == NULL) {
+    return ret;
+  }
 #endif
   ret.sz = sz;
   return ret;
@@ -293,6 +296,9 @@ template <typename T> paired_pointers_t<T> pair_calloc(size_t sz) {
 #else
   ret.device_ptr = device_calloc<T>(sz);
   ret.host_ptr = ret.device_ptr;
+  if (ret.device_ptr == NULL) {
+    return ret;
+  }
 #endif
   ret.sz = sz;
   return ret;
-- 
2.43.0


From 92d86a2997fff24fb2cac477e7ad3eb9c5af2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:39 +0000
Subject: [PATCH 25/40] fix: filling and clearing device memory with oneAPI

Fill functions did not compile (undeclared function and constant).  When
clearing fails, device_calloc gives the memory back and returns NULL as it
does with CUDA and ROCm.
---
 include/nsimd/modules/memory_management.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 5fcbb3a..513dd91 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -153,7 +153,12 @@ template <typename T> T *device_calloc(const size_t sz) {
   if (ret == NULL) {
     return NULL;
   }
-  q.memset((void *)ret, 0, sz * sizeof(T)).wait_and_throw();
+  try {
+    q.memset((void *)ret, 0, sz * sizeof(T)).wait_and_throw();
+  } catch (sycl::exception const &) {
+    sycl::free(ret, q);
+    return NULL;
+  }
   return ret;
 }
 
@@ -189,10 +194,10 @@ void copy_to_host(T *const host_ptr, const T *const device_ptr, size_t sz) {
                                                                               \
   template <typename T> void func_name(T *const ptr, const size_t sz) {       \
     const size_t total_num_threads =                                          \
-        nsimd::compute_total_num_threads(sz, THREADS_PER_BLOCK);              \
+        (size_t)nsimd_kernel_param((nsimd_nat)sz, 128);                       \
     sycl::queue q = nsimd::oneapi::default_queue();                           \
     q.parallel_for(sycl::nd_range<1>(sycl::range<1>(total_num_threads),       \
-                                     sycl::range<1>(THREADS_PER_BLOCK)),      \
+                                     sycl::range<1>(128)),                    \
                    [=](sycl::nd_item<1> item) {                               \
                      kernel_##func_name##_(ptr, sz, item);                    \
                    })                                                         \
-- 
2.43.0


From 203fc30e975de192748d305aaca10065a1457ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:54 +0000
Subject: [PATCH 26/40] fix: allocating more elements than the address space
 holds fails

The number of bytes wrapped around and a small block was returned.
---
 include/nsimd/modules/memory_management.hpp | 30 ++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 513dd91..72d2d89 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -32,6 +32,13 @@ SOFTWARE.
 
 namespace nsimd {
 
+// ----------------------------------------------------------------------------
+// Can the number of bytes of sz elements be computed?
+
+template <typename T> bool size_overflows_(size_t sz) {
+  return sz > (size_t)-1 / sizeof(T);
+}
+
 // ----------------------------------------------------------------------------
 // CUDA
 
@@ -39,6 +46,9 @@ namespace nsimd {
 
 template <typename T> T *device_malloc(size_t sz) {
   void *ret;
+  if (size_overflows_<T>(sz)) {
+    return NULL;
+  }
   if (cudaMalloc(&ret, sz * sizeof(T)) != cudaSuccess) {
     return NULL;
   }
@@ -47,6 +57,9 @@ template <typename T> T *device_malloc(size_t sz) {
 
 template <typename T> T *device_calloc(size_t sz) {
   void *ret;
+  if (size_overflows_<T>(sz)) {
+    return NULL;
+  }
   if (cudaMalloc(&ret, sz * sizeof(T)) != cudaSuccess) {
     return NULL;
   }
@@ -92,6 +105,9 @@ void copy_to_host(T *host_ptr, T *device_ptr, size_t sz) {
 
 template <typename T> T *device_malloc(size_t sz) {
   void *ret;
+  if (size_overflows_<T>(sz)) {
+    return NULL;
+  }
   if (hipMalloc(&ret, sz * sizeof(T)) != hipSuccess) {
     return NULL;
   }
@@ -100,6 +116,9 @@ template <typename T> T *device_malloc(size_t sz) {
 
 template <typename T> T *device_calloc(size_t sz) {
   void *ret;
+  if (size_overflows_<T>(sz)) {
+    return NULL;
+  }
   if (hipMalloc(&ret, sz * sizeof(T)) != hipSuccess) {
     return NULL;
   }
@@ -144,10 +163,16 @@ template <typename T> void copy_to_host(T *host_ptr, T *device_ptr, size_t sz) {
 #elif defined(NSIMD_ONEAPI)
 
 template <typename T> T *device_malloc(const size_t sz) {
+  if (size_overflows_<T>(sz)) {
+    return NULL;
+  }
   return sycl::malloc_device<T>(sz, nsimd::oneapi::default_queue());
 }
 
 template <typename T> T *device_calloc(const size_t sz) {
+  if (size_overflows_<T>(sz)) {
+    return NULL;
+  }
   sycl::queue q = nsimd::oneapi::default_queue();
   T *const ret = sycl::malloc_device<T>(sz, q);
   if (ret == NULL) {
@@ -210,11 +235,14 @@ void copy_to_host(T *const host_ptr, const T *const device_ptr, size_t sz) {
 #else
 
 template <typename T> T *device_malloc(size_t sz) {
+  if (size_overflows_<T>(sz)) {
+    return NULL;
+  }
   return (T *)malloc(sz * sizeof(T));
 }
 
 template <typename T> T *device_calloc(size_t sz) {
-  return (T *)calloc(sz * sizeof(T), 1);
+  return (T *)calloc(sz, sizeof(T));
 }
 
 template <typename T> void device_free(T *ptr) { free((void *)ptr); }
-- 
2.43.0


From a5242fe2955dabfd2503c5312bb58b5c9ec8b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:54 +0000
Subject: [PATCH 27/40] fix: allocating a pair of no elements does not end the
 process

On GPUs an empty allocation is a null pointer, which is not an error.
---
 include/nsimd/modules/memory_management.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 72d2d89..f6b1108 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -303,7 +303,7 @@ template <typename T> paired_pointers_t<T> pair_malloc(size_t sz) {
 
 template <typename T> paired_pointers_t<T> pair_malloc_or_exit(size_t sz) {
   paired_pointers_t<T> ret = pair_malloc<T>(sz);
-  if (ret.device_ptr == NULL) {
+  if (ret.device_ptr == NULL && sz > 0) {
     std::cerr << __FILE__ << ":" << __LINE__ << ": error cannot malloc " << sz
               << " bytes" << std::endl;
     exit(EXIT_FAILURE);
@@ -339,7 +339,7 @@ template <typename T> paired_pointers_t<T> pair_calloc(size_t sz) {
 
 template <typename T> paired_pointers_t<T> pair_calloc_or_exit(size_t sz) {
   paired_pointers_t<T> ret = pair_calloc<T>(sz);
-  if (ret.device_ptr == NULL) {
+  if (ret.device_ptr == NULL && sz > 0) {
     std::cerr << __FILE__ << ":" << __LINE__ << ": error cannot calloc " << sz
               << " bytes" << std::endl;
     exit(EXIT_FAILURE);
-- 
2.43.0


From cb7d17546eb84c849f5bec0b09ff188d8d503f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 28/40] fix: fms, fnma and fnms compute what their names say on
 GPUs

The lists were written as one string each, so that all four operators
computed fma.
---
 egg/cuda.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/egg/cuda.py b/egg/cuda.py
index eb216d3..04f6e06 100644
--- a/egg/cuda.py
+++ b/egg/cuda.py
@@ -35,8 +35,8 @@ def get_impl_f16(operator, totyp, typ):
     elif operator.name in ['rsqrt8', 'rsqrt11']:
         arch53_code = 'return hrsqrt({in0});'.format(**fmtspec)
     elif operator.name in ['fma', 'fms', 'fnma', 'fnms']:
-        neg = '-' if operator.name in ['fnma, fnms'] else ''
-        op = '-' if operator.name in ['fnms, fms'] else ''
+        neg = '-' if operator.name in ['fnma', 'fnms'] else ''
+        op = '-' if operator.name in ['fnms', 'fms'] else ''
         arch53_code = 'return __hfma({neg}{in0}, {in1}, {op}{in2});'. \
                       format(neg=neg, op=op, **fmtspec)
     elif operator.name in ['min', 'max']:
@@ -301,8 +301,8 @@ def get_impl(operator, totyp, typ):
                    format(**fmtspec)
     # fma's
     if operator.name in ['fma', 'fms', 'fnma', 'fnms']:
-        neg = '-' if operator.name in ['fnma, fnms'] else ''
-        op = '-' if operator.name in ['fnms, fms'] else ''
+        neg = '-' if operator.name in ['fnma', 'fnms'] else ''
+        op = '-' if operator.name in ['fnms', 'fms'] else ''
         if typ in common.ftypes:
             return 'return fma{f}({neg}{in0}, {in1}, {op}{in2});'. \
                    format(f='f' if typ == 'f32' else '', neg=neg, op=op,
-- 
2.43.0


From 5c63d3affddfe40a767f8245f7f5d32b7b1b9c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 29/40] fix: min, max and ne of halves on GPUs

The comparison of min and max had no arguments, and __hne is false when
an operand is a NaN whereas != is true.
---
 egg/cuda.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/egg/cuda.py b/egg/cuda.py
index 04f6e06..67b1ead 100644
--- a/egg/cuda.py
+++ b/egg/cuda.py
@@ -41,11 +41,14 @@ def get_impl_f16(operator, totyp, typ):
                       format(neg=neg, op=op, **fmtspec)
     elif operator.name in ['min', 'max']:
         intr = '__hlt' if operator.name == 'min' else '__hgt'
-        arch53_code = '''if ({intr}) {{
+        arch53_code = '''if ({intr}({in0}, {in1})) {{
                            return {in0};
                          }} else {{
                            return {in1};
                          }}'''.format(intr=intr, **fmtspec)
+    elif operator.name == 'ne':
+        # __hne is false when an operand is a NaN
+        arch53_code = 'return !__heq({in0}, {in1});'.format(**fmtspec)
     elif operator.name in ['adds', 'subs']:
         arch53_code = 'return __h{op}({in0}, {in1});'. \
                       format(op=operator.name[:-1], **fmtspec)
-- 
2.43.0


From 35b0bab84b063322a86dda315108ce4d33bd59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 30/40] fix: subs when the second operand is the smallest
 integer

Negating the second operand overflows when it is the smallest value.
---
 egg/cuda.py         |  5 +----
 egg/platform_x86.py | 30 +++++++++++++++++++++++++++---
 egg/scalar.py       | 19 +++++++++++++++++--
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/egg/cuda.py b/egg/cuda.py
index 67b1ead..5b22c93 100644
--- a/egg/cuda.py
+++ b/egg/cuda.py
@@ -297,11 +297,8 @@ def get_impl(operator, totyp, typ):
     if operator.name == 'subs':
         if typ in common.ftypes:
             return c_operators['sub'].format(**fmtspec)
-        elif typ in common.utypes:
-            return scalar.get_impl(operator, totyp, typ)
         else:
-            return 'return nsimd::gpu_adds({in0}, ({typ})(-{in1}));'. \
-                   format(**fmtspec)
+            return scalar.get_impl(operator, totyp, typ)
     # fma's
     if operator.name in ['fma', 'fms', 'fnma', 'fnms']:
         neg = '-' if operator.name in ['fnma', 'fnms'] else ''
diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index a158647..69531db 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -3230,11 +3230,35 @@ def subs(simd_ext, typ):
         return adds_subs_intrinsic_instructions_i8_i16_u8_u16(
                    'subs', simd_ext, typ)
 
+    min_ = common.limits[typ]['min']
+
     if typ in common.itypes:
-        return 'return nsimd_adds_{simd_ext}_{typ}({in0}, ' \
-               'nsimd_neg_{simd_ext}_{typ}({in1}));'.format(**fmtspec)
+        max_ = common.limits[typ]['max']
+        return \
+        '''/* Algo pseudo code: */
 
-    min_ = common.limits[typ]['min']
+           /* there is an overflow if and only if the operands have */
+           /* different signs and the sign of the result is not the */
+           /* sign of the first operand                             */
+
+           const nsimd_{simd_ext}_v{typ} zero =
+               nsimd_set1_{simd_ext}_{typ}(({typ})0);
+           const nsimd_{simd_ext}_v{typ} ires =
+               nsimd_sub_{simd_ext}_{typ}({in0}, {in1});
+           const nsimd_{simd_ext}_v{typ} signs =
+               nsimd_andb_{simd_ext}_{typ}(
+                   nsimd_xorb_{simd_ext}_{typ}({in0}, {in1}),
+                   nsimd_xorb_{simd_ext}_{typ}({in0}, ires));
+           const nsimd_{simd_ext}_vl{typ} is_overflow =
+               nsimd_lt_{simd_ext}_{typ}(signs, zero);
+           const nsimd_{simd_ext}_v{typ} limit =
+               nsimd_if_else1_{simd_ext}_{typ}(
+                   nsimd_lt_{simd_ext}_{typ}({in0}, zero),
+                   nsimd_set1_{simd_ext}_{typ}(({typ}){min_}),
+                   nsimd_set1_{simd_ext}_{typ}(({typ}){max_}));
+           return nsimd_if_else1_{simd_ext}_{typ}(is_overflow, limit,
+                                                  ires);'''. \
+           format(min_=min_, max_=max_, **fmtspec)
 
     return \
     '''/* Algo pseudo code: */
diff --git a/egg/scalar.py b/egg/scalar.py
index 1545a84..bfc48c8 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -334,8 +334,23 @@ def subs(typ):
                   }}
                   '''.format(**fmtspec)
     # Getting here means typ is signed
-    return 'return nsimd_scalar_adds_{typ}({in0}, ({typ})(-{in1}));'. \
-           format(**fmtspec)
+    int_max = 'NSIMD_' + typ.upper() + '_MAX'
+    int_min = 'NSIMD_' + typ.upper() + '_MIN'
+    return '''if ({in0} >= 0 && {in1} < 0) {{
+                if ({in0} > {int_max} + {in1}) {{
+                  return {int_max};
+                }} else {{
+                  return ({typ})({in0} - {in1});
+                }}
+              }} else if ({in0} < 0 && {in1} >= 0) {{
+                if ({in0} < {int_min} + {in1}) {{
+                  return {int_min};
+                }} else {{
+                  return ({typ})({in0} - {in1});
+                }}
+              }} else {{
+                return ({typ})({in0} - {in1});
+              }}'''.format(int_min=int_min, int_max=int_max, **fmtspec)
 
 # -----------------------------------------------------------------------------
 
-- 
2.43.0


From eb9e480232341e5cea1fa13a38b5dc2a9ef7dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 31/40] fix: the absolute value of -0.0 is 0.0

The comparison with zero left -0.0 as it was with scalars.
---
 egg/scalar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/egg/scalar.py b/egg/scalar.py
index bfc48c8..0b2d793 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -384,10 +384,12 @@ def get_impl(operator, totyp, typ):
                       format(f='f' if typ == 'f32' else '', **fmtspec)
         return libm_opn('trunc', 1, typ, True, c89_code)
     if operator.name == 'abs':
+        # the absolute value of -0.0 is 0.0
         if typ == 'f16':
-            return '''f32 tmp = nsimd_f16_to_f32({in0});
-                      return nsimd_f32_to_f16(tmp >= 0.0f ? tmp : -tmp);'''. \
-                      format(**fmtspec)
+            return '''return nsimd_f32_to_f16((f32)fabs((f64)
+                               nsimd_f16_to_f32({in0})));'''.format(**fmtspec)
+        elif typ in ['f32', 'f64']:
+            return 'return ({typ})fabs((f64){in0});'.format(**fmtspec)
         elif typ in common.utypes:
             return 'return {in0};'.format(**fmtspec)
         else:
-- 
2.43.0


From ee324d35c610d74c1b15294a3f3b983497bbecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 32/40] fix: literals in TET1D expressions have the type of the
 other operand

They were converted to its input type, which does not compile after a
conversion and loses the fractional part.
---
 egg/modules/tet1d/hatch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/egg/modules/tet1d/hatch.py b/egg/modules/tet1d/hatch.py
index 16cb34c..6e6fb5e 100644
--- a/egg/modules/tet1d/hatch.py
+++ b/egg/modules/tet1d/hatch.py
@@ -818,21 +818,23 @@ def gen_functions(opts):
                       typename Extra, typename T>
             node<{op_name}_t, node<Op, Left, Right, Extra>,
                  node<scalar_t, none_t, none_t,
-                      typename node<Op, Left, Right, Extra>::in_type>, none_t>
+                      typename node<Op, Left, Right, Extra>::out_type>, none_t>
             operator{cxx_operator}(node<Op, Left, Right, Extra> const &node,
                                    T a) {{
-              typedef typename tet1d::node<Op, Left, Right, Extra>::in_type S;
+              typedef typename tet1d::node<Op, Left, Right,
+                                           Extra>::out_type S;
               return tet1d::{op_name}(node, literal_to<S>::impl(a));
             }}
 
             template <typename T, typename Op, typename Left, typename Right,
                       typename Extra>
             node<{op_name}_t, node<scalar_t, none_t, none_t,
-                              typename node<Op, Left, Right, Extra>::in_type>,
+                              typename node<Op, Left, Right, Extra>::out_type>,
                  node<Op, Left, Right, Extra>, none_t>
             operator{cxx_operator}(T a,
                                    node<Op, Left, Right, Extra> const &node) {{
-              typedef typename tet1d::node<Op, Left, Right, Extra>::in_type S;
+              typedef typename tet1d::node<Op, Left, Right,
+                                           Extra>::out_type S;
               return tet1d::{op_name}(literal_to<S>::impl(a), node);
             }}
 
-- 
2.43.0


From 10aafdfe73aa5441cb7103f84cf609b2d4b4c0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 33/40] fix: TET1D can be included in several translation units

compute_size was not inline.  It also refused two scalars.
---
 include/nsimd/modules/tet1d.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 1bd3c56..fdb75e9 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -169,9 +169,9 @@ void cpu_kernel_component_wise_mask(T *dst, Mask const &mask, Expr const &expr,
 // ----------------------------------------------------------------------------
 // helper for computing sizes of 1D vectors
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
-  assert(sz1 >= 0 || sz2 >= 0);
-  assert((sz1 < 0 && sz2 >= 0) || (sz1 >= 0 && sz2 < 0) || (sz1 == sz2));
+// scalars have a negative size
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
+  assert(sz1 < 0 || sz2 < 0 || sz1 == sz2);
   if (sz1 < 0) {
     return sz2;
   } else {
@@ -179,7 +179,8 @@ nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
   }
 }
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2, nsimd::nat sz3) {
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2,
+                               nsimd::nat sz3) {
   return compute_size(compute_size(sz1, sz2), sz3);
 }
 
-- 
2.43.0


From bbf06c1aefb6b85b692af3d5344d8ed409d79fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 34/40] fix: TET1D slices of one element

---
 include/nsimd/modules/tet1d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index fdb75e9..feca35b 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -310,7 +310,7 @@ template <typename T> struct node<in_t, none_t, none_t, T> {
     nsimd::nat i1 = nsimd::nat(i1_);
     i0 = i0 >= 0 ? i0 : sz + i0;
     i1 = i1 >= 0 ? i1 : sz + i1;
-    assert(0 <= i0 && i0 < i1 && i1 < sz);
+    assert(0 <= i0 && i0 <= i1 && i1 < sz);
     ret.data = &data[i0];
     ret.sz = i1 - i0 + 1;
     return ret;
-- 
2.43.0


From 4da2a8c5d7213f5cdb1a3c3277e13de59eedb8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 35/40] fix: masked TET1D assignments do not write the other
 elements

They were loaded and stored back, losing concurrent writes.
---
 include/nsimd/modules/tet1d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index feca35b..16d4d1d 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -153,9 +153,9 @@ void cpu_kernel_component_wise_mask(T *dst, Mask const &mask, Expr const &expr,
   nsimd::nat i;
   int len = nsimd::len(Pack());
   for (i = 0; i + len < n; i += len) {
-    nsimd::storeu(&dst[i], nsimd::if_else(mask.template simd_get<Pack>(i),
-                                          expr.template simd_get<Pack>(i),
-                                          nsimd::loadu<Pack>(&dst[i])));
+    // elements that are not selected must not be written
+    nsimd::mask_storeu(mask.template simd_get<Pack>(i), &dst[i],
+                       expr.template simd_get<Pack>(i));
   }
   for (; i < n; i++) {
     if (mask.scalar_get(i)) {
-- 
2.43.0


From 0b6793a61d08efd64119631e418fcc2dea2f25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 36/40] fix: empty TET1D expressions on GPUs

Launching a kernel on no blocks is an error.
---
 include/nsimd/modules/tet1d.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 16d4d1d..d43163b 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -344,6 +344,9 @@ struct node<mask_out_t, Mask, none_t, Pack> {
   operator=(node<Op, Left, Right, Extra> const &expr) {
 #if defined(NSIMD_CUDA) || defined(NSIMD_ROCM) || defined(NSIMD_ONEAPI)
     nsimd::nat expr_size = compute_size(mask.size(), expr.size());
+    if (expr_size == 0) {
+      return *this;
+    }
     nsimd::nat nt = threads_per_block < 0 ? 128 : threads_per_block;
     nsimd::nat param = nsimd_kernel_param(expr_size, nt);
     assert(nt > 0 && nt <= UINT_MAX);
@@ -416,6 +419,9 @@ template <typename Pack> struct node<out_t, none_t, none_t, Pack> {
   node<out_t, none_t, none_t, Pack>
   operator=(node<Op, Left, Right, Extra> const &expr) {
 #if defined(NSIMD_CUDA) || defined(NSIMD_ROCM) || defined(NSIMD_ONEAPI)
+    if (expr.size() == 0) {
+      return *this;
+    }
     nsimd::nat nt = threads_per_block < 0 ? 128 : threads_per_block;
     nsimd::nat param = nsimd_kernel_param(expr.size(), nt);
     assert(nt > 0 && nt <= UINT_MAX);
-- 
2.43.0


From 4906da6b5bed267eb983b237f32cfcbaab914b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 37/40] fix: conversions of f32 to integers truncate on x86

As they do on all other architectures and for scalars.
---
 egg/platform_x86.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 69531db..ce37241 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2376,12 +2376,12 @@ def convert1(simd_ext, from_typ, to_typ):
         if simd_ext in avx512:
             return 'return _mm512_cvtepu32_ps({in0});'.format(**fmtspec)
     if to_typ == 'i32' and from_typ == 'f32':
-        return 'return {pre}cvtps_epi32({in0});'.format(**fmtspec)
+        return 'return {pre}cvttps_epi32({in0});'.format(**fmtspec)
     if to_typ == 'u32' and from_typ == 'f32':
         if simd_ext in sse + avx:
             return emulate
         if simd_ext in avx512:
-            return 'return _mm512_cvtps_epu32({in0});'.format(**fmtspec)
+            return 'return _mm512_cvttps_epu32({in0});'.format(**fmtspec)
 
 # -----------------------------------------------------------------------------
 # Reciprocal (at least 11 bits of precision)
-- 
2.43.0


From b56eecff904bd3cc265d2bac243a4c040e1a35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 38/40] fix: conversions between f64 and integers with AVX-512

Conversions to integers rounded instead of truncating, and unsigned
integers were converted as signed ones.
---
 egg/platform_x86.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index ce37241..d072123 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2363,8 +2363,12 @@ def convert1(simd_ext, from_typ, to_typ):
                  format(**fmtspec)
     if to_typ == 'f64' or from_typ == 'f64':
         if simd_ext == 'avx512_skylake':
-            return 'return _mm512_cvt{from_suf}{to_suf}({in0});'. \
-                   format(from_suf=suf_ep(from_typ)[1:], to_suf=suf_ep(to_typ),
+            # conversions to integers truncate as C casts do
+            return 'return _mm512_cvt{t}{from_suf}_{to_suf}({in0});'. \
+                   format(t='t' if from_typ == 'f64' else '',
+                          from_suf='pd' if from_typ == 'f64' \
+                                   else 'ep' + from_typ,
+                          to_suf='pd' if to_typ == 'f64' else 'ep' + to_typ,
                           **fmtspec)
         else:
             return emulate
-- 
2.43.0


From c0d51b4d57f8009b46f773137cb2febe0e2384d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:54 +0000
Subject: [PATCH 39/40] fix: a failed page of wrapped intrinsics is reported

---
 doc/what_is_wrapped.cpp |  4 +++-
 egg/gen_doc.py          | 43 +++++++++++++++--------------------------
 2 files changed, 19 insertions(+), 28 deletions(-)

diff --git a/doc/what_is_wrapped.cpp b/doc/what_is_wrapped.cpp
index a1ffd17..2b3c2e4 100644
--- a/doc/what_is_wrapped.cpp
+++ b/doc/what_is_wrapped.cpp
@@ -342,5 +342,7 @@ int main(int argc, char **argv) {
     }
   }
 
-  return 0;
+  // the page may not have been written entirely
+  std::cout.flush();
+  return std::cout.good() ? 0 : 1;
 }
diff --git a/egg/gen_doc.py b/egg/gen_doc.py
index 9d207b0..b68739c 100644
--- a/egg/gen_doc.py
+++ b/egg/gen_doc.py
@@ -465,6 +465,9 @@ def gen_what_is_wrapped(opts):
                     continue
                 c_src = os.path.join(opts.include_dir, p, simd_ext,
                                      '{}.h'.format(op_name))
+                # this operator may not have been generated
+                if not os.path.isfile(c_src):
+                    continue
                 ops[operator.output_to].append('{} "{}"'. \
                                                format(op_name, c_src))
             if not common.can_create_filename(opts, md):
@@ -480,33 +483,19 @@ def gen_what_is_wrapped(opts):
                               'the given type\n'
                            '- `intrinsic` for the actual wrapped intrinsic\n'
                            '\n')
-            cmd = '{} {} same {} >> "{}"'.format(cmd0, simd_ext,
-                    ' '.join(ops[common.OUTPUT_TO_SAME_TYPE]), md)
-            if os.system(cmd) != 0:
-                common.myprint(opts, 'Unable to generate markdown for '
-                                     '"same"')
-                continue
-
-            cmd = '{} {} same_size {} >> "{}"'.format(cmd0, simd_ext,
-                    ' '.join(ops[common.OUTPUT_TO_SAME_SIZE_TYPES]), md)
-            if os.system(cmd) != 0:
-                common.myprint(opts, 'Unable to generate markdown for '
-                                     '"same_size"')
-                continue
-
-            cmd = '{} {} bigger_size {} >> "{}"'.format(cmd0, simd_ext,
-                    ' '.join(ops[common.OUTPUT_TO_UP_TYPES]), md)
-            if os.system(cmd) != 0:
-                common.myprint(opts, 'Unable to generate markdown for '
-                                     '"bigger_size"')
-                continue
-
-            cmd = '{} {} lesser_size {} >> "{}"'.format(cmd0, simd_ext,
-                    ' '.join(ops[common.OUTPUT_TO_DOWN_TYPES]), md)
-            if os.system(cmd) != 0:
-                common.myprint(opts, 'Unable to generate markdown for '
-                                     '"lesser_size"')
-                continue
+            for name, output_to in [
+                    ('same', common.OUTPUT_TO_SAME_TYPE),
+                    ('same_size', common.OUTPUT_TO_SAME_SIZE_TYPES),
+                    ('bigger_size', common.OUTPUT_TO_UP_TYPES),
+                    ('lesser_size', common.OUTPUT_TO_DOWN_TYPES)]:
+                if len(ops[output_to]) == 0:
+                    continue
+                cmd = '{} {} {} {} >> "{}"'.format(cmd0, simd_ext, name,
+                                                   ' '.join(ops[output_to]),
+                                                   md)
+                if os.system(cmd) != 0:
+                    raise RuntimeError('Unable to generate markdown for '
+                                       '"{}" in "{}"'.format(name, md))
         if index_simds != '':
             index += '\n## Platform {}\n\n'.format(p)
             index += index_simds
-- 
2.43.0


From f590d343a87c5f7d8133cf6c4ee329ff3c2a9592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:54 +0000
Subject: [PATCH 40/40] fix: a failure of clang-format is reported

---
 egg/common.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/egg/common.py b/egg/common.py
index a407f9c..152c7a2 100644
--- a/egg/common.py
+++ b/egg/common.py
@@ -138,12 +138,9 @@ def clang_format(opts, filename, cuda=False):
         fout.write('\n')
     if not opts.enable_clang_format:
         # TODO: not sure if needed to implement a smarter call to clang-format
-        if cuda:
-            os.system('clang-format -style="{{ Standard: Cpp11 }}" -i {}'. \
-                      format(filename))
-        else:
-            os.system('clang-format -style="{{ Standard: Cpp03 }}" -i {}'. \
-                      format(filename))
+        if os.system('clang-format -style="{{ Standard: {} }}" -i {}'. \
+                     format('Cpp11' if cuda else 'Cpp03', filename)) != 0:
+            raise RuntimeError('Unable to format "{}"'.format(filename))
     if cuda:
         shutil.copyfile(filename, filename[:-4] + '.cu')
 
-- 
2.43.0

