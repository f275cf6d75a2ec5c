// Simulated vendor libraries behind neo's platform back ends.  They follow the documented contracts of Intel IPP, Intel
// MKL (DFTI, cblas) and Apple Accelerate (vDSP, cblas): who owns which memory, which pointers may be null, what a failing
// call returns, what is scaled how.  Every acquiring call can be made to fail.
#include "vend_lib.hpp"
#include "ref.hpp"

#include <Accelerate/Accelerate.h>
#include <ipp.h>
#include <mkl_dfti.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>

namespace {
struct Res
{
    char const* what;
    int op;
};
std::map<void*, Res>& live()
{
    static std::map<void*, Res> m;
    return m;
}
thread_local sim::i64 t_arm = 0, t_fired = 0;
thread_local int t_op       = -1;

bool fails(char const* what)
{
    sim::count("vendor_calls");
    if (t_arm > 0 and --t_arm == 0) {
        ++t_fired;
        sim::count("fault_vendor_call");
        sim::count((std::string("fault_") + what).c_str());
        return true;
    }
    return false;
}
void* acquire(char const* what, std::size_t n)
{
    void* p = nullptr;
    if (posix_memalign(&p, 64, n) != 0) {
        std::abort();
    }
    std::memset(p, 0xA5, n);
    live()[p] = Res{what, t_op};
    return p;
}
void release(char const* what, void* p)
{
    auto it = live().find(p);
    if (it == live().end()) {
        sim::violation("double-release", "%s given a resource that is not alive", what);
    }
    live().erase(it);
    std::free(p);
}
bool is_live(void const* p) { return live().count(const_cast<void*>(p)) != 0; }
}  // namespace

namespace vend {
void arm(sim::i64 nth) { t_arm = nth, t_fired = 0; }
sim::i64 disarm()
{
    t_arm = 0;
    return t_fired;
}
void begin(int op) { t_op = op; }
void check_released()
{
    if (not live().empty()) {
        auto const& r = live().begin()->second;
        sim::violation("leak", "%zu vendor resources never released (first: %s acquired in operation %d)", live().size(), r.what, r.op);
    }
}
}  // namespace vend

// ------------------------------------------------------------------------------------------- shared transform code
namespace {
template<typename T>
struct Cx
{
    T re, im;
};
template<typename T, typename Get, typename Put>
void transform(std::size_t n, bool inverse, double scale, Get get, Put put)
{
    sim::NotLib nl;
    ref::cvec x(n);
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = get(i);
    }
    auto const y = ref::dft(x, inverse ? 1 : -1);
    for (std::size_t i = 0; i < n; ++i) {
        put(i, ref::cd{scale * y[i].real(), scale * y[i].imag()});
    }
    sim::count("vendor_transforms");
}
}  // namespace

// ------------------------------------------------------------------------------------------- IPP
namespace {
struct Spec
{
    std::uint32_t magic;
    int kind;   // tag of the function family
    int n;      // transform length
    int flag;
    int work;   // bytes of work buffer
    unsigned char table[1];  // "twiddles": damaged tables are noticed
};
constexpr std::uint32_t MAGIC = 0x1995A11Eu;

// sizes as the library reports them: small transforms need neither scratch nor work memory
int spec_bytes(int n) { return static_cast<int>(sizeof(Spec)) + 16 + 4 * (n < 4096 ? n : 4096); }
int init_bytes(int n) { return n <= 8 ? 0 : 32 + 2 * (n < 4096 ? n : 4096); }
int work_bytes(int n, bool pow2) { return n <= (pow2 ? 4 : 2) ? 0 : 64 + 8 * (n < 4096 ? n : 4096); }

bool flag_ok(int f) { return f == IPP_FFT_DIV_FWD_BY_N or f == IPP_FFT_DIV_INV_BY_N or f == IPP_FFT_DIV_BY_SQRTN or f == IPP_FFT_NODIV_BY_ANY; }

IppStatus get_size(int n, bool pow2, int* s, int* i, int* w)
{
    if (s == nullptr or i == nullptr or w == nullptr) {
        return ippStsNullPtrErr;
    }
    if (fails("ipp_getsize")) {
        return ippStsErr;
    }
    *s = spec_bytes(n);
    *i = init_bytes(n);
    *w = work_bytes(n, pow2);
    return ippStsNoErr;
}
IppStatus init(void* spec, int kind, int n, bool pow2, int flag, Ipp8u* scratch)
{
    if (spec == nullptr or (scratch == nullptr and init_bytes(n) > 0)) {
        return ippStsNullPtrErr;
    }
    if (fails("ipp_init")) {
        return ippStsMemAllocErr;
    }
    if (scratch != nullptr) {
        std::memset(scratch, 0xC3, static_cast<std::size_t>(init_bytes(n)));
    }
    std::memset(spec, 0x5A, static_cast<std::size_t>(spec_bytes(n)));
    auto* sp  = static_cast<Spec*>(spec);
    sp->magic = MAGIC;
    sp->kind  = kind;
    sp->n     = n;
    sp->flag  = flag;
    sp->work  = work_bytes(n, pow2);
    return ippStsNoErr;
}
// what every transform call checks; on success the work memory has been scribbled over
IppStatus enter(void const* spec, int kind, Ipp8u* work, Spec& out)
{
    if (spec == nullptr) {
        return ippStsNullPtrErr;
    }
    std::memcpy(&out, spec, sizeof(Spec));
    if (out.magic != MAGIC or out.kind != kind) {
        sim::violation("bad-spec", "transform called with a damaged or foreign specification");
    }
    auto const* t = static_cast<unsigned char const*>(spec);
    for (int i = static_cast<int>(offsetof(Spec, table)); i < spec_bytes(out.n); ++i) {
        if (t[i] != 0x5A) {
            sim::violation("bad-spec", "transform called with a specification that was overwritten (byte %d)", i);
        }
    }
    if (out.work > 0) {
        if (work == nullptr) {
            // the library then takes the memory itself: seen by the heap seam
            void* p = operator new(static_cast<std::size_t>(out.work), std::nothrow);
            if (p == nullptr) {
                return ippStsMemAllocErr;
            }
            sim::count("vendor_internal_alloc");
            operator delete(p);
        } else {
            std::memset(work, 0xC3, static_cast<std::size_t>(out.work));
        }
    }
    return ippStsNoErr;
}
double scaling(Spec const& s, bool inverse)
{
    switch (s.flag) {
        case IPP_FFT_DIV_FWD_BY_N: return inverse ? 1.0 : 1.0 / s.n;
        case IPP_FFT_DIV_INV_BY_N: return inverse ? 1.0 / s.n : 1.0;
        case IPP_FFT_DIV_BY_SQRTN: return 1.0 / std::sqrt(double(s.n));
        default: return 1.0;
    }
}
enum Kind
{
    FC32c,
    FC64c,
    FC32s,
    FC64s,
    FR32,
    FR64,
    D32,
    D64,
    CT2_32,
    CT2_64,
    CT3_32,
    CT3_64
};
template<typename C, typename T>
IppStatus cc(C const* src, C* dst, void const* spec, int kind, Ipp8u* work, bool inv)
{
    if (src == nullptr or dst == nullptr) {
        return ippStsNullPtrErr;
    }
    Spec s;
    if (auto const e = enter(spec, kind, work, s)) {
        return e;
    }
    transform<T>(
        static_cast<std::size_t>(s.n), inv, scaling(s, inv), [&](std::size_t i) { return ref::cd{double(src[i].re), double(src[i].im)}; },
        [&](std::size_t i, ref::cd v) { dst[i].re = static_cast<T>(v.real()), dst[i].im = static_cast<T>(v.imag()); }
    );
    return ippStsNoErr;
}
template<typename T>
IppStatus cs(T const* re, T const* im, T* ore, T* oim, void const* spec, int kind, Ipp8u* work, bool inv)
{
    if (re == nullptr or im == nullptr or ore == nullptr or oim == nullptr) {
        return ippStsNullPtrErr;
    }
    Spec s;
    if (auto const e = enter(spec, kind, work, s)) {
        return e;
    }
    transform<T>(
        static_cast<std::size_t>(s.n), inv, scaling(s, inv), [&](std::size_t i) { return ref::cd{double(re[i]), double(im[i])}; },
        [&](std::size_t i, ref::cd v) { ore[i] = static_cast<T>(v.real()), oim[i] = static_cast<T>(v.imag()); }
    );
    return ippStsNoErr;
}
template<typename T>
IppStatus r2ccs(T const* src, T* dst, void const* spec, int kind, Ipp8u* work)
{
    if (src == nullptr or dst == nullptr) {
        return ippStsNullPtrErr;
    }
    Spec s;
    if (auto const e = enter(spec, kind, work, s)) {
        return e;
    }
    auto const n = static_cast<std::size_t>(s.n);
    transform<T>(
        n, false, scaling(s, false), [&](std::size_t i) { return ref::cd{double(src[i]), 0.0}; },
        [&](std::size_t i, ref::cd v) {
            if (i <= n / 2) {
                dst[2 * i] = static_cast<T>(v.real()), dst[2 * i + 1] = i == 0 or 2 * i == n ? T(0) : static_cast<T>(v.imag());
            }
        }
    );
    return ippStsNoErr;
}
template<typename T>
IppStatus ccs2r(T const* src, T* dst, void const* spec, int kind, Ipp8u* work)
{
    if (src == nullptr or dst == nullptr) {
        return ippStsNullPtrErr;
    }
    Spec s;
    if (auto const e = enter(spec, kind, work, s)) {
        return e;
    }
    auto const n = static_cast<std::size_t>(s.n);
    transform<T>(
        n, true, scaling(s, true),
        [&](std::size_t i) {
            auto const k = i <= n / 2 ? i : n - i;
            bool const edge = k == 0 or 2 * k == n;
            auto const im   = edge ? 0.0 : double(src[2 * k + 1]);
            return ref::cd{double(src[2 * k]), i <= n / 2 ? im : -im};
        },
        [&](std::size_t i, ref::cd v) { dst[i] = static_cast<T>(v.real()); }
    );
    return ippStsNoErr;
}
template<typename T>
IppStatus dct(T const* src, T* dst, void const* spec, int kind, Ipp8u* work, bool inv)
{
    if (src == nullptr or dst == nullptr) {
        return ippStsNullPtrErr;
    }
    Spec s;
    if (auto const e = enter(spec, kind, work, s)) {
        return e;
    }
    sim::NotLib nl;
    auto const n = static_cast<std::size_t>(s.n);
    ref::vec x(n), y(n);
    for (std::size_t i = 0; i < n; ++i) {
        x[i] = double(src[i]);
    }
    auto const c = [&](std::size_t k) { return std::sqrt((k == 0 ? 1.0 : 2.0) / double(n)); };
    if (not inv) {
        ref::cvec z(4 * n);
        for (std::size_t i = 0; i < n; ++i) {
            z[2 * i + 1] = x[i], z[4 * n - 2 * i - 1] = x[i];
        }
        auto const Z = ref::dft(z, -1);
        for (std::size_t k = 0; k < n; ++k) {
            y[k] = 0.5 * c(k) * Z[k].real();
        }
    } else {
        // sum over k of c(k) x(k) cos(pi (2i+1) k / 2n)
        ref::cvec z(4 * n);
        for (std::size_t k = 0; k < n; ++k) {
            z[k] = c(k) * x[k];
        }
        auto const Z = ref::dft(z, 1);
        for (std::size_t i = 0; i < n; ++i) {
            y[i] = Z[2 * i + 1].real();
        }
    }
    for (std::size_t i = 0; i < n; ++i) {
        dst[i] = static_cast<T>(y[i]);
    }
    sim::count("vendor_transforms");
    return ippStsNoErr;
}
void* ipp_malloc(int len, std::size_t each)
{
    if (len < 1) {
        return nullptr;
    }
    if (fails("ipp_malloc")) {
        return nullptr;
    }
    sim::NotLib nl;
    return acquire("IPP memory", static_cast<std::size_t>(len) * each);
}
}  // namespace

extern "C" {
Ipp8u* ippsMalloc_8u(int len) { return static_cast<Ipp8u*>(ipp_malloc(len, 1)); }
Ipp32f* ippsMalloc_32f(int len) { return static_cast<Ipp32f*>(ipp_malloc(len, 4)); }
Ipp64f* ippsMalloc_64f(int len) { return static_cast<Ipp64f*>(ipp_malloc(len, 8)); }
void ippsFree(void* p)
{
    if (p != nullptr) {
        sim::NotLib nl;
        release("ippsFree", p);
    }
}
void ippFree(void* p) { ippsFree(p); }
char const* ippGetStatusString(IppStatus s) { return s == 0 ? "ippStsNoErr: No errors" : "ippSts: error"; }
IppStatus ippInit(void) { return ippStsNoErr; }

#define FFTFAM(KIND, SUF, TAG, MAXO)                                                                                                 \
    IppStatus ippsFFTGetSize_##KIND##_##SUF(int order, int flag, IppHintAlgorithm, int* s, int* i, int* w)                          \
    {                                                                                                                               \
        sim::NotLib nl;                                                                                                             \
        if (order < 0 or order > MAXO) {                                                                                            \
            return ippStsFftOrderErr;                                                                                               \
        }                                                                                                                           \
        return flag_ok(flag) ? get_size(1 << order, true, s, i, w) : ippStsFftFlagErr;                                              \
    }                                                                                                                               \
    IppStatus ippsFFTInit_##KIND##_##SUF(IppsFFTSpec_##KIND##_##SUF** pp, int order, int flag, IppHintAlgorithm, Ipp8u* spec, Ipp8u* scratch) \
    {                                                                                                                               \
        sim::NotLib nl;                                                                                                             \
        if (pp == nullptr) {                                                                                                        \
            return ippStsNullPtrErr;                                                                                                \
        }                                                                                                                           \
        if (order < 0 or order > MAXO) {                                                                                            \
            return ippStsFftOrderErr;                                                                                               \
        }                                                                                                                           \
        if (not flag_ok(flag)) {                                                                                                    \
            return ippStsFftFlagErr;                                                                                                \
        }                                                                                                                           \
        auto const e = init(spec, TAG, 1 << order, true, flag, scratch);                                                            \
        if (e == ippStsNoErr) {                                                                                                     \
            *pp = reinterpret_cast<IppsFFTSpec_##KIND##_##SUF*>(spec);                                                              \
        }                                                                                                                           \
        return e;                                                                                                                   \
    }
FFTFAM(C, 32fc, FC32c, 28)
FFTFAM(C, 64fc, FC64c, 27)
FFTFAM(C, 32f, FC32s, 28)
FFTFAM(C, 64f, FC64s, 27)
FFTFAM(R, 32f, FR32, 29)
FFTFAM(R, 64f, FR64, 28)

#define CC(DIR, INV, SUF, T, TAG)                                                                                                    \
    IppStatus ippsFFT##DIR##_CToC_##SUF(Ipp##SUF const* a, Ipp##SUF* b, IppsFFTSpec_C_##SUF const* s, Ipp8u* w) { return cc<Ipp##SUF, T>(a, b, s, TAG, w, INV); } \
    IppStatus ippsFFT##DIR##_CToC_##SUF##_I(Ipp##SUF* a, IppsFFTSpec_C_##SUF const* s, Ipp8u* w) { return cc<Ipp##SUF, T>(a, a, s, TAG, w, INV); }
CC(Fwd, false, 32fc, float, FC32c)
CC(Inv, true, 32fc, float, FC32c)
CC(Fwd, false, 64fc, double, FC64c)
CC(Inv, true, 64fc, double, FC64c)
#define CS(DIR, INV, SUF, TAG)                                                                                                       \
    IppStatus ippsFFT##DIR##_CToC_##SUF(Ipp##SUF const* a, Ipp##SUF const* b, Ipp##SUF* c, Ipp##SUF* d, IppsFFTSpec_C_##SUF const* s, Ipp8u* w) { return cs(a, b, c, d, s, TAG, w, INV); } \
    IppStatus ippsFFT##DIR##_CToC_##SUF##_I(Ipp##SUF* a, Ipp##SUF* b, IppsFFTSpec_C_##SUF const* s, Ipp8u* w) { return cs<Ipp##SUF>(a, b, a, b, s, TAG, w, INV); }
CS(Fwd, false, 32f, FC32s)
CS(Inv, true, 32f, FC32s)
CS(Fwd, false, 64f, FC64s)
CS(Inv, true, 64f, FC64s)
#define RR(SUF, TAG)                                                                                                                 \
    IppStatus ippsFFTFwd_RToCCS_##SUF(Ipp##SUF const* a, Ipp##SUF* b, IppsFFTSpec_R_##SUF const* s, Ipp8u* w) { return r2ccs(a, b, s, TAG, w); } \
    IppStatus ippsFFTFwd_RToCCS_##SUF##_I(Ipp##SUF* a, IppsFFTSpec_R_##SUF const* s, Ipp8u* w) { return r2ccs<Ipp##SUF>(a, a, s, TAG, w); } \
    IppStatus ippsFFTInv_CCSToR_##SUF(Ipp##SUF const* a, Ipp##SUF* b, IppsFFTSpec_R_##SUF const* s, Ipp8u* w) { return ccs2r(a, b, s, TAG, w); } \
    IppStatus ippsFFTInv_CCSToR_##SUF##_I(Ipp##SUF* a, IppsFFTSpec_R_##SUF const* s, Ipp8u* w) { return ccs2r<Ipp##SUF>(a, a, s, TAG, w); }
RR(32f, FR32)
RR(64f, FR64)
#define DD(SUF, T, TAG)                                                                                                              \
    IppStatus ippsDFTGetSize_C_##SUF(int len, int flag, IppHintAlgorithm, int* s, int* i, int* w)                                   \
    {                                                                                                                               \
        sim::NotLib nl;                                                                                                             \
        if (len < 1) {                                                                                                              \
            return ippStsSizeErr;                                                                                                   \
        }                                                                                                                           \
        return flag_ok(flag) ? get_size(len, false, s, i, w) : ippStsFftFlagErr;                                                    \
    }                                                                                                                               \
    IppStatus ippsDFTInit_C_##SUF(int len, int flag, IppHintAlgorithm, IppsDFTSpec_C_##SUF* spec, Ipp8u* scratch)                   \
    {                                                                                                                               \
        sim::NotLib nl;                                                                                                             \
        if (len < 1) {                                                                                                              \
            return ippStsSizeErr;                                                                                                   \
        }                                                                                                                           \
        return flag_ok(flag) ? init(spec, TAG, len, false, flag, scratch) : ippStsFftFlagErr;                                       \
    }                                                                                                                               \
    IppStatus ippsDFTFwd_CToC_##SUF(Ipp##SUF const* a, Ipp##SUF* b, IppsDFTSpec_C_##SUF const* s, Ipp8u* w) { return cc<Ipp##SUF, T>(a, b, s, TAG, w, false); } \
    IppStatus ippsDFTInv_CToC_##SUF(Ipp##SUF const* a, Ipp##SUF* b, IppsDFTSpec_C_##SUF const* s, Ipp8u* w) { return cc<Ipp##SUF, T>(a, b, s, TAG, w, true); }
DD(32fc, float, D32)
DD(64fc, double, D64)
#define CT(DIR, INV, SUF, TAG)                                                                                                       \
    IppStatus ippsDCT##DIR##GetSize_##SUF(int len, IppHintAlgorithm, int* s, int* i, int* w)                                        \
    {                                                                                                                               \
        sim::NotLib nl;                                                                                                             \
        return len < 1 ? ippStsSizeErr : get_size(len, false, s, i, w);                                                             \
    }                                                                                                                               \
    IppStatus ippsDCT##DIR##Init_##SUF(IppsDCT##DIR##Spec_##SUF** pp, int len, IppHintAlgorithm, Ipp8u* spec, Ipp8u* scratch)       \
    {                                                                                                                               \
        sim::NotLib nl;                                                                                                             \
        if (pp == nullptr) {                                                                                                        \
            return ippStsNullPtrErr;                                                                                                \
        }                                                                                                                           \
        if (len < 1) {                                                                                                              \
            return ippStsSizeErr;                                                                                                   \
        }                                                                                                                           \
        auto const e = init(spec, TAG, len, false, IPP_FFT_NODIV_BY_ANY, scratch);                                                  \
        if (e == ippStsNoErr) {                                                                                                     \
            *pp = reinterpret_cast<IppsDCT##DIR##Spec_##SUF*>(spec);                                                                \
        }                                                                                                                           \
        return e;                                                                                                                   \
    }                                                                                                                               \
    IppStatus ippsDCT##DIR##_##SUF(Ipp##SUF const* a, Ipp##SUF* b, IppsDCT##DIR##Spec_##SUF const* s, Ipp8u* w) { return dct(a, b, s, TAG, w, INV); } \
    IppStatus ippsDCT##DIR##_##SUF##_I(Ipp##SUF* a, IppsDCT##DIR##Spec_##SUF const* s, Ipp8u* w) { return dct<Ipp##SUF>(a, a, s, TAG, w, INV); }
CT(Fwd, false, 32f, CT2_32)
CT(Fwd, false, 64f, CT2_64)
CT(Inv, true, 32f, CT3_32)
CT(Inv, true, 64f, CT3_64)

// ------------------------------------------------------------------------------------------- MKL: DFTI
struct DFTI_DESCRIPTOR
{
    bool dbl, committed, outofplace;
    long n;
    double fwd, bwd;
};
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE* h, enum DFTI_CONFIG_VALUE prec, enum DFTI_CONFIG_VALUE dom, MKL_LONG dim, ...)
{
    sim::NotLib nl;
    if (h == nullptr) {
        return DFTI_BAD_DESCRIPTOR;
    }
    *h = nullptr;
    if (dom != DFTI_COMPLEX or dim != 1 or (prec != DFTI_SINGLE and prec != DFTI_DOUBLE)) {
        return DFTI_UNIMPLEMENTED;
    }
    va_list ap;
    va_start(ap, dim);
    auto const n = va_arg(ap, MKL_LONG);
    va_end(ap);
    if (n < 1) {
        return DFTI_INVALID_CONFIGURATION;
    }
    if (fails("mkl_create")) {
        return DFTI_MEMORY_ERROR;
    }
    auto* d = new (acquire("MKL descriptor", sizeof(DFTI_DESCRIPTOR))) DFTI_DESCRIPTOR{prec == DFTI_DOUBLE, false, false, n, 1.0, 1.0};
    *h      = d;
    return DFTI_NO_ERROR;
}
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE h, enum DFTI_CONFIG_PARAM p, ...)
{
    sim::NotLib nl;
    if (h == nullptr or not is_live(h)) {
        return DFTI_BAD_DESCRIPTOR;
    }
    if (fails("mkl_set")) {
        return DFTI_MEMORY_ERROR;
    }
    va_list ap;
    va_start(ap, p);
    MKL_LONG e = DFTI_NO_ERROR;
    switch (p) {
        case DFTI_PLACEMENT: h->outofplace = va_arg(ap, int) == DFTI_NOT_INPLACE; break;
        case DFTI_FORWARD_SCALE: h->fwd = va_arg(ap, double); break;
        case DFTI_BACKWARD_SCALE: h->bwd = va_arg(ap, double); break;
        case DFTI_COMPLEX_STORAGE: e = va_arg(ap, int) == DFTI_COMPLEX_COMPLEX ? DFTI_NO_ERROR : DFTI_UNIMPLEMENTED; break;
        case DFTI_NUMBER_OF_TRANSFORMS: e = va_arg(ap, MKL_LONG) == 1 ? DFTI_NO_ERROR : DFTI_UNIMPLEMENTED; break;
        case DFTI_THREAD_LIMIT: break;
        default: e = DFTI_UNIMPLEMENTED;
    }
    va_end(ap);
    h->committed = false;
    return e;
}
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE h)
{
    sim::NotLib nl;
    if (h == nullptr or not is_live(h)) {
        return DFTI_BAD_DESCRIPTOR;
    }
    if (fails("mkl_commit")) {
        return DFTI_MEMORY_ERROR;
    }
    h->committed = true;
    return DFTI_NO_ERROR;
}
static MKL_LONG dfti_compute(DFTI_DESCRIPTOR_HANDLE h, void* in, void* out, bool inv)
{
    if (h != nullptr and not is_live(h)) {
        sim::violation("dead-handle", "MKL transform with a descriptor that was freed");
    }
    if (h == nullptr or not h->committed or in == nullptr or out == nullptr) {
        return DFTI_BAD_DESCRIPTOR;
    }
    auto const sc = inv ? h->bwd : h->fwd;
    auto const n  = static_cast<std::size_t>(h->n);
    auto const go = [&](auto const* a, auto* b) {
        using T = std::remove_reference_t<decltype(b->re)>;
        transform<T>(
            n, inv, sc, [&](std::size_t i) { return ref::cd{double(a[i].re), double(a[i].im)}; },
            [&](std::size_t i, ref::cd v) { b[i].re = static_cast<T>(v.real()), b[i].im = static_cast<T>(v.imag()); }
        );
    };
    if (h->dbl) {
        go(static_cast<Ipp64fc const*>(in), static_cast<Ipp64fc*>(out));
    } else {
        go(static_cast<Ipp32fc const*>(in), static_cast<Ipp32fc*>(out));
    }
    return DFTI_NO_ERROR;
}
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE h, void* in, ...)
{
    void* out = in;
    if (h != nullptr and is_live(h) and h->outofplace) {
        va_list ap;
        va_start(ap, in);
        out = va_arg(ap, void*);
        va_end(ap);
    }
    return dfti_compute(h, in, out, false);
}
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE h, void* in, ...)
{
    void* out = in;
    if (h != nullptr and is_live(h) and h->outofplace) {
        va_list ap;
        va_start(ap, in);
        out = va_arg(ap, void*);
        va_end(ap);
    }
    return dfti_compute(h, in, out, true);
}
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE* h)
{
    sim::NotLib nl;
    if (h == nullptr or *h == nullptr) {
        return DFTI_BAD_DESCRIPTOR;
    }
    release("DftiFreeDescriptor", *h);
    *h = nullptr;
    return DFTI_NO_ERROR;
}
MKL_LONG DftiErrorClass(MKL_LONG s, MKL_LONG c) { return s == c; }
char* DftiErrorMessage(MKL_LONG) { return const_cast<char*>("Intel MKL DFTI error"); }

// ------------------------------------------------------------------------------------------- Accelerate: vDSP
struct OpaqueFFTSetup
{
    bool dbl;
    vDSP_Length log2n;
};
struct OpaqueFFTSetupD
{
    bool dbl;
    vDSP_Length log2n;
};
#define VDSP(D, SPLIT, SETUP, OPAQUE, T, DBL)                                                                                        \
    SETUP vDSP_create_fftsetup##D(vDSP_Length log2n, FFTRadix radix)                                                                \
    {                                                                                                                               \
        sim::NotLib nl;                                                                                                             \
        if (log2n > 30 or radix < 0 or radix > 3 or fails("vdsp_create")) {                                                         \
            return nullptr;                                                                                                         \
        }                                                                                                                           \
        return new (acquire("vDSP setup", sizeof(OPAQUE))) OPAQUE{DBL, log2n};                                                      \
    }                                                                                                                               \
    void vDSP_destroy_fftsetup##D(SETUP s)                                                                                          \
    {                                                                                                                               \
        if (s != nullptr) {                                                                                                         \
            sim::NotLib nl;                                                                                                         \
            release("vDSP_destroy_fftsetup", s);                                                                                    \
        }                                                                                                                           \
    }                                                                                                                               \
    static void vdsp_check##D(SETUP s, vDSP_Length log2n)                                                                           \
    {                                                                                                                               \
        if (s == nullptr or not is_live(s)) {                                                                                       \
            sim::violation("dead-handle", "vDSP transform with %s setup", s == nullptr ? "a null" : "a destroyed");                 \
        }                                                                                                                           \
        if (s->dbl != DBL or log2n > s->log2n) {                                                                                    \
            sim::violation("bad-spec", "vDSP transform of 2^%lu with a setup for 2^%lu", log2n, s->log2n);                          \
        }                                                                                                                           \
    }                                                                                                                               \
    void vDSP_fft_zop##D(SETUP s, SPLIT const* in, vDSP_Stride is, SPLIT const* out, vDSP_Stride os, vDSP_Length log2n, FFTDirection dir) \
    {                                                                                                                               \
        vdsp_check##D(s, log2n);                                                                                                    \
        transform<T>(                                                                                                               \
            std::size_t(1) << log2n, dir == kFFTDirection_Inverse, 1.0,                                                             \
            [&](std::size_t i) { return ref::cd{double(in->realp[long(i) * is]), double(in->imagp[long(i) * is])}; },               \
            [&](std::size_t i, ref::cd v) { out->realp[long(i) * os] = static_cast<T>(v.real()), out->imagp[long(i) * os] = static_cast<T>(v.imag()); } \
        );                                                                                                                          \
    }                                                                                                                               \
    void vDSP_fft_zip##D(SETUP s, SPLIT const* io, vDSP_Stride st, vDSP_Length log2n, FFTDirection dir)                             \
    {                                                                                                                               \
        vDSP_fft_zop##D(s, io, st, io, st, log2n, dir);                                                                             \
    }                                                                                                                               \
    void vDSP_zvma##D(SPLIT const* a, vDSP_Stride ia, SPLIT const* b, vDSP_Stride ib, SPLIT const* c, vDSP_Stride ic, SPLIT const* d, vDSP_Stride id, vDSP_Length n) \
    {                                                                                                                               \
        for (long i = 0; i < static_cast<long>(n); ++i) {                                                                           \
            T const ar = a->realp[i * ia], ai = a->imagp[i * ia], br = b->realp[i * ib], bi = b->imagp[i * ib];                     \
            T const cr = c->realp[i * ic], ci = c->imagp[i * ic];                                                                   \
            d->realp[i * id] = ar * br - ai * bi + cr;                                                                              \
            d->imagp[i * id] = ar * bi + ai * br + ci;                                                                              \
        }                                                                                                                           \
    }
VDSP(, DSPSplitComplex, FFTSetup, OpaqueFFTSetup, float, false)
VDSP(D, DSPDoubleSplitComplex, FFTSetupD, OpaqueFFTSetupD, double, true)
}  // extern "C"

