// Header-only modules (random, fixed point), precision helpers and conversions.
#include "nsimd/nsimd-all.hpp"
#include "nsimd/modules/random/functions.hpp"
#include "nsimd/modules/fixed_point.hpp"
#include "opsim_ops.hpp"
using namespace nsimd;

template <typename T, int N> static packx2<T> rd2(In const *in, int k) { packx2<T> r; r.v0 = loadu<pack<T> >((T *)in->v[k]); r.v1 = loadu<pack<T> >((T *)in->v[k + 1]); return r; }
template <typename T> static packx4<T> rd4(In const *in) { packx4<T> r; r.v0 = loadu<pack<T> >((T *)in->v[0]); r.v1 = loadu<pack<T> >((T *)in->v[1]); r.v2 = loadu<pack<T> >((T *)in->v[2]); r.v3 = loadu<pack<T> >((T *)in->v[3]); return r; }
template <typename T> static void wr2(unsigned char *o, packx2<T> const &r) { storeu((T *)o, r.v0); storeu((T *)(o + 64), r.v1); }
template <typename T> static void wr4(unsigned char *o, packx4<T> const &r) { storeu((T *)o, r.v0); storeu((T *)(o + 64), r.v1); storeu((T *)(o + 128), r.v2); storeu((T *)(o + 192), r.v3); }

#define R1(name, T) W static void name##_w(In const *in, unsigned char *o) { packx1<T> k; k.v0 = loadu<pack<T> >((T *)(in->l[2])); wr2<T>(o, nsimd::random::name(rd2<T, 2>(in, 0), k)); }
#define R2(name, T) W static void name##_w(In const *in, unsigned char *o) { packx2<T> k; k.v0 = loadu<pack<T> >((T *)(in->l[1])); k.v1 = loadu<pack<T> >((T *)(in->l[2])); wr4<T>(o, nsimd::random::name(rd4<T>(in), k)); }
#define R2b(name, T) W static void name##_w(In const *in, unsigned char *o) { packx2<T> k; k.v0 = loadu<pack<T> >((T *)(in->l[1])); k.v1 = loadu<pack<T> >((T *)(in->l[2])); wr2<T>(o, nsimd::random::name(rd2<T, 2>(in, 0), k)); }
#define R4(name, T) W static void name##_w(In const *in, unsigned char *o) { wr4<T>(o, nsimd::random::name(rd4<T>(in), rd4<T>(in))); }
R1(philox_2x32_10, u32) R1(philox_2x64_6, u64) R1(philox_2x64_10, u64)
R2(philox_4x32_7, u32) R2(philox_4x32_10, u32) R2(philox_4x64_7, u64) R2(philox_4x64_10, u64)
R2b(threefry_2x32_12, u32) R2b(threefry_2x32_20, u32) R2b(threefry_2x64_13, u64) R2b(threefry_2x64_20, u64)
R4(threefry_4x32_12, u32) R4(threefry_4x32_20, u32) R4(threefry_4x64_12, u64) R4(threefry_4x64_20, u64)

// fixed point: vectors of fp_t<LF, RT>
#define FP(tag, LF, RT)                                                                   \
  typedef fixed_point::fp_t<LF, RT> fp_##tag;                                             \
  typedef fixed_point::pack<fp_##tag> pk_##tag;                                           \
  static pk_##tag g_##tag(In const *in, int k) { return fixed_point::loadu<pk_##tag>((fp_##tag *)in->v[k]); } \
  static void s_##tag(unsigned char *o, pk_##tag const &v) { fixed_point::storeu((fp_##tag *)o, v); } \
  W static void fpadd_##tag(In const *in, unsigned char *o) { s_##tag(o, g_##tag(in, 0) + g_##tag(in, 1)); } \
  W static void fpsub_##tag(In const *in, unsigned char *o) { s_##tag(o, g_##tag(in, 0) - g_##tag(in, 1)); } \
  W static void fpmul_##tag(In const *in, unsigned char *o) { s_##tag(o, g_##tag(in, 0) * g_##tag(in, 1)); } \
  W static void fpdiv_##tag(In const *in, unsigned char *o) { s_##tag(o, g_##tag(in, 0) / g_##tag(in, 1)); } \
  W static void fpfma_##tag(In const *in, unsigned char *o) { s_##tag(o, fixed_point::fma(g_##tag(in, 0), g_##tag(in, 1), g_##tag(in, 2))); } \
  W static void fpmin_##tag(In const *in, unsigned char *o) { s_##tag(o, fixed_point::min(g_##tag(in, 0), g_##tag(in, 1))); } \
  W static void fpmax_##tag(In const *in, unsigned char *o) { s_##tag(o, fixed_point::max(g_##tag(in, 0), g_##tag(in, 1))); } \
  W static void fpabs_##tag(In const *in, unsigned char *o) { s_##tag(o, fixed_point::abs(g_##tag(in, 0))); } \
  W static void fprec_##tag(In const *in, unsigned char *o) { s_##tag(o, fixed_point::rec(g_##tag(in, 0))); } \
  W static void fpsel_##tag(In const *in, unsigned char *o) { s_##tag(o, fixed_point::if_else1(fixed_point::lt(g_##tag(in, 0), g_##tag(in, 1)), g_##tag(in, 2), g_##tag(in, 1))); } \
  W static void fpsadd_##tag(In const *in, unsigned char *o) { st(o, ld<fp_##tag>(in->v[0]) + ld<fp_##tag>(in->v[1])); } \
  W static void fpsmul_##tag(In const *in, unsigned char *o) { st(o, ld<fp_##tag>(in->v[0]) * ld<fp_##tag>(in->v[1])); } \
  W static void fpsdiv_##tag(In const *in, unsigned char *o) { st(o, ld<fp_##tag>(in->v[0]) / ld<fp_##tag>(in->v[1])); } \
  W static void fpscvt_##tag(In const *in, unsigned char *o) { st(o, (double)ld<fp_##tag>(in->v[0])); }
FP(4_2, 4, 2) FP(8_4, 8, 4) FP(16_8, 16, 8)
#define FPT(tag, B) \
  {"fixed_add_" #tag, fpadd_##tag, 'i', B, 5}, {"fixed_sub_" #tag, fpsub_##tag, 'i', B, 5}, {"fixed_mul_" #tag, fpmul_##tag, 'i', B, 5}, \
  {"fixed_div_" #tag, fpdiv_##tag, 'i', B, 5}, {"fixed_fma_" #tag, fpfma_##tag, 'i', B, 5}, {"fixed_min_" #tag, fpmin_##tag, 'i', B, 5}, \
  {"fixed_max_" #tag, fpmax_##tag, 'i', B, 5}, {"fixed_abs_" #tag, fpabs_##tag, 'i', B, 5}, {"fixed_rec_" #tag, fprec_##tag, 'i', B, 5}, \
  {"fixed_select_" #tag, fpsel_##tag, 'i', B, 5}, {"fixed_scalar_add_" #tag, fpsadd_##tag, 'i', B, 5}, {"fixed_scalar_mul_" #tag, fpsmul_##tag, 'i', B, 5}, \
  {"fixed_scalar_div_" #tag, fpsdiv_##tag, 'i', B, 5}, {"fixed_scalar_cvt_" #tag, fpscvt_##tag, 'i', B, 5}

W static void h_f16(In const *in, unsigned char *o) { st(o, nsimd_f32_to_f16(ld<f32>(in->v[0]))); }
W static void h_u16(In const *in, unsigned char *o) { st(o, nsimd_f32_to_u16(ld<f32>(in->v[0]))); }
W static void h_f32(In const *in, unsigned char *o) { st(o, nsimd_f16_to_f32(ld<f16>(in->v[0]))); }
W static void h_f32u(In const *in, unsigned char *o) { st(o, nsimd_u16_to_f32(ld<u16>(in->v[0]))); }
W static void u_f16(In const *in, unsigned char *o) { st(o, nsimd_ufp_f16(ld<f16>(in->v[0]), ld<f16>(in->v[1]))); }
W static void u_f32(In const *in, unsigned char *o) { st(o, nsimd_ufp_f32(ld<f32>(in->v[0]), ld<f32>(in->v[1]))); }
W static void u_f64(In const *in, unsigned char *o) { st(o, nsimd_ufp_f64(ld<f64>(in->v[0]), ld<f64>(in->v[1]))); }

extern Op const vsim_extra[] = {
  {"philox_2x32_10", philox_2x32_10_w, 'u', 4, 0}, {"philox_2x64_6", philox_2x64_6_w, 'u', 8, 0}, {"philox_2x64_10", philox_2x64_10_w, 'u', 8, 0},
  {"philox_4x32_7", philox_4x32_7_w, 'u', 4, 0}, {"philox_4x32_10", philox_4x32_10_w, 'u', 4, 0}, {"philox_4x64_7", philox_4x64_7_w, 'u', 8, 0}, {"philox_4x64_10", philox_4x64_10_w, 'u', 8, 0},
  {"threefry_2x32_12", threefry_2x32_12_w, 'u', 4, 0}, {"threefry_2x32_20", threefry_2x32_20_w, 'u', 4, 0}, {"threefry_2x64_13", threefry_2x64_13_w, 'u', 8, 0}, {"threefry_2x64_20", threefry_2x64_20_w, 'u', 8, 0},
  {"threefry_4x32_12", threefry_4x32_12_w, 'u', 4, 0}, {"threefry_4x32_20", threefry_4x32_20_w, 'u', 4, 0}, {"threefry_4x64_12", threefry_4x64_12_w, 'u', 8, 0}, {"threefry_4x64_20", threefry_4x64_20_w, 'u', 8, 0},
  FPT(4_2, 1), FPT(8_4, 2), FPT(16_8, 4),
  {"f32_to_f16", h_f16, 'f', 4, 0}, {"f32_to_u16", h_u16, 'f', 4, 0}, {"f16_to_f32", h_f32, 'f', 2, 0}, {"u16_to_f32", h_f32u, 'f', 2, 0},
  {"ufp_f16", u_f16, 'f', 2, 0}, {"ufp_f32", u_f32, 'f', 4, 0}, {"ufp_f64", u_f64, 'f', 8, 0},
};
unsigned vsim_nextra = sizeof vsim_extra / sizeof(Op);
