#pragma once
// Monitors around single evaluations. A call type C (generated, or written by hand in extra_calls below) has
//   id, n, V, name(), In, fill(void*, V const*), run(In const&) -> result
// DRIVER 0  evaluates on ordinary and hostile bit patterns and prints a digest of all results
// DRIVER 1  watches for heap use, writes to inputs and dependence on history
// DRIVER 2  evaluates concurrently over shared inputs and compares with the single-threaded results
#include "ref.hpp"
#include "report.hpp"
#include <gal/vga.hpp>
#include <gal/pga.hpp>
#include <gal/pga2.hpp>
#include <gal/cga.hpp>
#include <gal/format.hpp>
#include <array>
#include <atomic>
#include <cfenv>
#include <cfloat>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <new>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#ifndef DRIVER
#define DRIVER 0
#endif

// ---------------------------------------------------------------- flattening of results to bytes
template <class T> struct is_tuple : std::false_type {};
template <class... T> struct is_tuple<std::tuple<T...>> : std::true_type {};
template <class T> struct is_pair : std::false_type {};
template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};

// canonical bits: every NaN counts as the same value
inline uint64_t canon(double d) { uint64_t u; if (d != d) return 0x7ff8000000000000ull; memcpy(&u, &d, 8); return u; }
inline uint64_t canon(float d) { uint32_t u; if (d != d) return 0x7fc00000u; memcpy(&u, &d, 4); return u; }

struct Flat // fixed storage: flattening must not allocate while allocations are being watched
{
    uint64_t b[1200];
    int n = 0;
    void put(uint64_t x) { if (n < 1200) b[n++] = x; }
    bool operator==(Flat const& o) const { return n == o.n && memcmp(b, o.b, 8 * n) == 0; }
};
template <class R> void flatten(Flat& f, R const& r)
{
    if constexpr (is_tuple<R>::value) std::apply([&](auto const&... x) { (flatten(f, x), ...); }, r);
    else if constexpr (is_pair<R>::value) flatten(f, r.first), flatten(f, r.second);
    else if constexpr (std::is_floating_point_v<R>) f.put(canon(r));
    else if constexpr (std::is_integral_v<R>) f.put((uint64_t)r);
    else if constexpr (std::is_same_v<R, std::string>) { for (size_t i = 0; i < r.size(); ++i) if (r.compare(i, 4, "-nan")) f.put((unsigned char)r[i]); } // the sign of a NaN is not specified
    else
    {
        f.put(r.size());
        for (size_t i = 0; i < r.size(); ++i) f.put(canon(r[i]));
    }
}

// ---------------------------------------------------------------- values
template <class V> V hostile_value(ref::Rng& g)
{
    static const double h[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, -NAN, DBL_MIN, -DBL_MIN, 4.9e-324, -4.9e-324, DBL_MAX, -DBL_MAX,
                               FLT_MIN, 1.4e-45, FLT_MAX, -FLT_MAX, DBL_EPSILON, 1.0, -1.0, 1e308, 1e-308, 1e19, -1e19, 3e38};
    if (g.chance(70))
    {
        double d = h[g.below(sizeof h / sizeof *h)];
        if (sizeof(V) == 4 && std::isfinite(d) && std::abs(d) > FLT_MAX) d = d > 0 ? FLT_MAX : -FLT_MAX;
        return (V)d;
    }
    uint64_t u = g.next();
    V v;
    memcpy(&v, &u, sizeof v);
    return v;
}
template <class V> V plain_value(ref::Rng& g, int kind)
{
    switch (kind % 5)
    {
    case 0: return (V)g.range(-5, 5);
    case 1: return (V)(g.range(-32, 32) / 8.0);
    case 2: return (V)g.real(-2, 2);
    case 3: return g.chance(30) ? V(0) : (V)g.real(-10, 10);
    default: return (V)g.real(0.25, 2);
    }
}

struct Opt
{
    uint64_t seed = 1;
    int trials = 12, hostile = 0;
};

// ---------------------------------------------------------------- hand-written calls: everything around an evaluation
#define PLAIN_IN(N) static constexpr int n = N; struct In { V d[N]; }; static void fill(void* at, V const* d) { In* i = new (at) In; for (int k = 0; k < N; ++k) i->d[k] = d[k]; }
template <class T, int I> struct x_exp { using V = T; static constexpr int id = 900000 + I; PLAIN_IN(6)
    static char const* name() { return "exponential of a line"; }
    static auto run(In const& s) { gal::pga::line<V> l{s.d[0], s.d[1], s.d[2], s.d[3], s.d[4], s.d[5]}; return gal::pga::compute([](auto l) { return gal::exp(l); }, l); } };
template <class T, int I> struct x_log { using V = T; static constexpr int id = 900010 + I; static constexpr int n = 8; using In = gal::pga::motor<V>;
    static char const* name() { return "logarithm of a motor"; }
    static void fill(void* at, V const* d) { new (at) In{gal::entity<gal::pga::pga_algebra, V, 0, 3, 5, 6, 9, 10, 12, 15>{{d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]}}}; }
    static auto run(In const& m) { return m.log(); } };
template <class T, int I> struct x_norm { using V = T; static constexpr int id = 900020 + I; static constexpr int n = 8; using In = gal::pga::motor<V>;
    static char const* name() { return "copy and normalise a motor"; }
    static void fill(void* at, V const* d) { new (at) In{gal::entity<gal::pga::pga_algebra, V, 0, 3, 5, 6, 9, 10, 12, 15>{{d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]}}}; }
    static auto run(In const& m) { gal::pga::motor<V> c = m; c.normalize(); return c; } };
template <class T, int I> struct x_points { using V = T; static constexpr int id = 900030 + I; static constexpr int n = 6;
    struct In { gal::vga::point<V> p; gal::pga::rotor<V> r; };
    static char const* name() { return "rotate a point, convert the result, read its coordinates"; }
    static void fill(void* at, V const* d) { new (at) In{gal::vga::point<V>{d[0], d[1], d[2]}, gal::pga::rotor<V>{d[3], d[4], d[5], V(1)}}; }
    static auto run(In const& s)
    {
        gal::vga::point<V> q = gal::pga::compute([](auto p, auto r) { return p % r; }, s.p, s.r);
        return std::make_tuple(q, q.x, q.y, q.z);
    } };
template <class T, int I> struct x_planes { using V = T; static constexpr int id = 900040 + I; static constexpr int n = 8;
    struct In { gal::pga::plane<V> p, q; };
    static char const* name() { return "meet of planes, a line from it, selection"; }
    static void fill(void* at, V const* d) { new (at) In{gal::pga::plane<V>{d[0], d[1], d[2], d[3]}, gal::pga::plane<V>{d[4], d[5], d[6], d[7]}}; }
    static auto run(In const& s)
    {
        auto e = gal::pga::compute([](auto p, auto q) { return p ^ q; }, s.p, s.q);
        gal::pga::line<V> l = e;
        gal::pga::plane<V> w = gal::pga::compute([](auto p, auto q) { return p + q; }, s.p, s.q);
        return std::make_tuple(e, l, w, s.p[0], s.q[3], e.template select<0b11>(), e.template select<0b1111>());
    } };
template <class T, int I> struct x_vga { using V = T; static constexpr int id = 900050 + I; static constexpr int n = 7;
    struct In { gal::vga::vector<V> v; gal::vga::rotor<V> r; };
    static char const* name() { return "rotate a vector, convert the result"; }
    static void fill(void* at, V const* d) { new (at) In{gal::vga::vector<V>{d[0], d[1], d[2]}, gal::vga::rotor<V>{d[3], d[4], d[5], d[6]}}; }
    static auto run(In const& s) { gal::vga::vector<V> w = gal::vga::compute([](auto v, auto r) { return v % r; }, s.v, s.r); return std::make_tuple(w, w.x, w.y, w.z); } };
template <class T, int I> struct x_cga { using V = T; static constexpr int id = 900060 + I; static constexpr int n = 6;
    struct In { gal::cga::point<V> a, b; };
    static char const* name() { return "inner product and round trip of conformal points"; }
    static void fill(void* at, V const* d) { new (at) In{gal::cga::point<V>{d[0], d[1], d[2]}, gal::cga::point<V>{d[3], d[4], d[5]}}; }
    static auto run(In const& s)
    {
        auto r = gal::cga::compute([](auto a, auto b) { return gal::make_tuple(a | b, a); }, s.a, s.b);
        gal::cga::point<V> p = std::get<1>(r);
        return std::make_tuple(std::get<0>(r), p.x, p.y, p.z);
    } };
template <class T, int I> struct x_print { using V = T; static constexpr int id = 900070 + I; static constexpr int n = 4; static constexpr bool allocates = true;
    using In = gal::entity<gal::pga::pga_algebra, V, 1, 3, 7, 15>;
    static char const* name() { return "print an entity"; }
    static void fill(void* at, V const* d) { new (at) In{{d[0], d[1], d[2], d[3]}}; }
    static auto run(In const& s) { return gal::to_string(s); } };
template <class C, class = void> struct may_allocate : std::false_type {};
template <class C> struct may_allocate<C, std::void_t<decltype(C::allocates)>> : std::true_type {};

// ---------------------------------------------------------------- type-erased table of calls
struct Call
{
    int id, n;
    size_t vsize, insize, inalign;
    char const* name;
    bool allocates;
    void (*values)(ref::Rng&, int kind, void* d);
    void (*change)(ref::Rng&, int kind, int at, void* d);
    void (*fill)(void*, void const*);
    void (*run)(void const*, Flat&);
};
template <class C> Call call_of()
{
    using V = typename C::V;
    Call c;
    c.id = C::id; c.n = C::n; c.vsize = sizeof(V); c.insize = sizeof(typename C::In); c.inalign = alignof(typename C::In);
    c.name = C::name();
    c.allocates = may_allocate<C>::value;
    c.values = [](ref::Rng& g, int kind, void* d) { for (int i = 0; i < C::n; ++i) ((V*)d)[i] = kind >= 6 ? hostile_value<V>(g) : plain_value<V>(g, kind); };
    c.change = [](ref::Rng& g, int kind, int at, void* d) { ((V*)d)[at] = kind >= 6 ? hostile_value<V>(g) : plain_value<V>(g, kind); };
    c.fill = [](void* p, void const* d) { C::fill(p, (V const*)d); };
    c.run = [](void const* p, Flat& f) { f.n = 0; auto const r = C::run(*(typename C::In const*)p); flatten(f, r); };
    return c;
}
inline uint64_t hash_flat(Flat const& f) { return hash_bytes(f.b, 8 * f.n, 1469598103934665603ull + f.n); }
template <class T, int I> std::vector<Call> extra_calls()
{
    return {call_of<x_exp<T, I>>(), call_of<x_log<T, I>>(), call_of<x_norm<T, I>>(), call_of<x_points<T, I>>(), call_of<x_planes<T, I>>(), call_of<x_vga<T, I>>(), call_of<x_cga<T, I>>(), call_of<x_print<T, I>>()};
}

#if DRIVER == 0
int run_calls(std::vector<Call> const& calls, Opt o)
{
    Report R;
    for (auto& c : calls)
    {
        uint64_t dig = 1;
        for (int t = 0; t < o.trials; ++t)
        {
            ref::Rng g(o.seed * 1000003 + c.id * 7919ull + t);
            int kind = o.hostile && t % 3 ? 6 : t % 5;
            // exactly sized heap blocks: one byte too far is visible to the address sanitizer and to memcheck
            std::vector<char> d(c.n * c.vsize + 16);
            c.values(g, kind, d.data());
            char* blk = (char*)malloc(c.insize);
            c.fill(blk, d.data());
            Flat* f = new Flat;
            c.run(blk, *f);
            dig = hash_mix(dig, hash_flat(*f));
            R.eval(hash_bytes(d.data(), c.n * c.vsize, c.id + 1));
            if (kind == 6) R.count("hostile");
            delete f;
            free(blk);
        }
        printf("DIGEST %d %016llx %s\n", c.id, (unsigned long long)dig, c.name);
        R.count("calls");
    }
    return R.finish();
}
#elif DRIVER == 1
// ------------------------------------------------------------ heap use, input writes, history
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
static std::atomic<uint64_t> g_allocs{0};
extern "C" void* malloc(size_t n) { g_allocs++; return __libc_malloc(n); }
extern "C" void* calloc(size_t a, size_t b) { g_allocs++; return __libc_calloc(a, b); }
extern "C" void* realloc(void* p, size_t n) { g_allocs++; return __libc_realloc(p, n); }
extern "C" void* memalign(size_t a, size_t n) { g_allocs++; return __libc_memalign(a, n); }
extern "C" void* aligned_alloc(size_t a, size_t n) { g_allocs++; return __libc_memalign(a, n); }
extern "C" int posix_memalign(void** o, size_t a, size_t n) { g_allocs++; *o = __libc_memalign(a, n); return *o ? 0 : 12; }

static sigjmp_buf g_jmp;
static volatile sig_atomic_t g_armed;
static char* g_arena;
static size_t const ARENA = 1 << 16;
static void on_segv(int, siginfo_t* si, void*)
{
    char* a = (char*)si->si_addr;
    if (g_armed && a >= g_arena && a < g_arena + ARENA) siglongjmp(g_jmp, 1);
    signal(SIGSEGV, SIG_DFL);
}
// leave different garbage on the stack before an evaluation
__attribute__((noinline)) void stain_stack(int byte)
{
    volatile char b[20000];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = (char)byte;
}
int run_calls(std::vector<Call> const& calls, Opt o)
{
    Report R;
    g_arena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0);
    { volatile void* p = malloc(32); uint64_t n = g_allocs; free((void*)p); if (!n) { R.viol("the allocation monitor is not in place"); return R.finish(); } }
    // the monitor itself must see a write into the protected arena
    mprotect(g_arena, ARENA, PROT_READ);
    g_armed = 1;
    if (!sigsetjmp(g_jmp, 1)) { *(volatile char*)g_arena = 1; R.viol("the write monitor is not in place"); return R.finish(); }
    g_armed = 0;

    struct In { std::vector<char> d; uint64_t h = 0; int seen = 0; };
    std::vector<std::vector<In>> ins(calls.size());
    for (size_t k = 0; k < calls.size(); ++k)
    {
        auto& c = calls[k];
        ref::Rng g(o.seed * 1000003 + c.id * 7919ull);
        std::vector<char> d(c.n * c.vsize + 16);
        for (int t = 0; t < o.trials; ++t)
        {
            int kind = o.hostile && t % 4 == 3 ? 6 : t % 5;
            // neighbours of the call before: one component differs, or only the sign of a zero, or only the last bit
            if (t % 8 == 0 || c.n == 0) c.values(g, kind, d.data());
            else
            {
                int j = (int)g.below(c.n);
                char* at = d.data() + j * c.vsize;
                if (t % 8 == 2 || t % 8 == 5) { memset(at, 0, c.vsize); if (t % 8 == 5) for (int i = 0; i < c.n; ++i) if (i != j && g.chance(50)) memset(d.data() + i * c.vsize, 0, c.vsize); }
                else if (t % 8 == 3 || t % 8 == 6)
                    for (int i = 0; i < c.n; ++i) { char* q = d.data() + i * c.vsize; bool z = true; for (int b = 0; b < c.vsize; ++b) z = z && !q[b]; if (z) q[c.vsize - 1] = (char)0x80; }
                else if (t % 8 == 4) at[0] ^= 1;
                else c.change(g, kind, j, d.data());
            }
            ins[k].push_back({d});
        }
    }
    std::vector<char> before(ARENA);
    static Flat f;
    int passes = 4;
    for (int p = 0; p < passes; ++p)
        for (size_t kk = 0; kk < calls.size(); ++kk)
        {
            size_t k = p == 1 ? calls.size() - 1 - kk : kk;
            auto& c = calls[k];
            ref::Rng g(o.seed * 31 + p * 7 + c.id);
            for (int tt = 0; tt < o.trials; ++tt)
            {
                int t = p == 0 ? tt : p == 1 ? o.trials - 1 - tt : (int)g.below(o.trials);
                auto& in = ins[k][t];
                mprotect(g_arena, ARENA, PROT_READ | PROT_WRITE);
                memset(g_arena, 0x5a, c.insize + 256);
                char* at = g_arena + 128 - 128 % c.inalign;
                c.fill(at, in.d.data());
                memcpy(before.data(), g_arena, c.insize + 256);
                mprotect(g_arena, ARENA, PROT_READ);
                stain_stack(p * 85 + tt);
                int round = fegetround();
                uint64_t a0 = g_allocs;
                g_armed = 1;
                if (sigsetjmp(g_jmp, 1))
                {
                    g_armed = 0;
                    R.viol(std::string(c.name) + " [evaluation writes to an input in read-only memory]");
                    break;
                }
                c.run(at, f);
                g_armed = 0;
                uint64_t a1 = g_allocs;
                bool ok = true;
                if (a1 != a0 && !c.allocates) { R.viol(std::string(c.name) + " [evaluation allocated " + std::to_string(a1 - a0) + " heap blocks]"); ok = false; }
                if (memcmp(before.data(), g_arena, c.insize + 256)) { R.viol(std::string(c.name) + " [an input changed]"); ok = false; }
                if (fegetround() != round) { R.viol(std::string(c.name) + " [the rounding mode changed]"); ok = false; fesetround(round); }
                // once more on ordinary memory: an input that is neither const nor protected must not change either
                char* heap = (char*)__libc_malloc(c.insize + 256);
                memset(heap, 0x5a, c.insize + 256);
                c.fill(heap + 128 - 128 % c.inalign, in.d.data());
                memcpy(before.data(), heap, c.insize + 256);
                uint64_t h = hash_flat(f);
                stain_stack(255 - tt);
                a0 = g_allocs;
                c.run(heap + 128 - 128 % c.inalign, f);
                if (a1 == a0 && g_allocs != a0 && !c.allocates) { R.viol(std::string(c.name) + " [evaluation allocated]"); ok = false; }
                if (memcmp(before.data(), heap, c.insize + 256)) { R.viol(std::string(c.name) + " [an input changed]"); ok = false; }
                free(heap);
                if (h != hash_flat(f)) { R.viol(std::string(c.name) + " [two consecutive evaluations of equal inputs differ]"); ok = false; }
                if (in.seen++ && in.h != h) { R.viol(std::string(c.name) + " [the result depends on what was evaluated before]"); ok = false; }
                in.h = h;
                R.eval(hash_bytes(in.d.data(), c.n * c.vsize, c.id + 1));
                R.count("evaluations under protected inputs");
                if (!ok) break;
            }
        }
    R.count("calls", calls.size());
    R.count("heap blocks seen outside evaluations", g_allocs);
    mprotect(g_arena, ARENA, PROT_READ | PROT_WRITE);
    return R.finish();
}
#else
// ------------------------------------------------------------ threads over shared inputs
struct Barrier
{
    std::atomic<int> in{0}, gen{0};
    int n;
    explicit Barrier(int k) : n(k) {}
    void wait()
    {
        int g = gen.load();
        if (in.fetch_add(1) + 1 == n) { in.store(0); gen.fetch_add(1); }
        else while (gen.load() == g) std::this_thread::yield();
    }
};
int run_calls(std::vector<Call> const& calls, Opt o)
{
    Report R;
    int const NT = 8, K = 4;
    std::vector<std::vector<char*>> in(calls.size());
    for (size_t k = 0; k < calls.size(); ++k)
    {
        auto& c = calls[k];
        for (int j = 0; j < K; ++j)
        {
            ref::Rng g(o.seed * 1000003 + c.id * 7919ull + j);
            std::vector<char> d(c.n * c.vsize + 16);
            c.values(g, o.hostile && j == K - 1 ? 6 : j, d.data());
            char* p = (char*)malloc(c.insize);
            c.fill(p, d.data());
            in[k].push_back(p);
            R.eval(hash_bytes(d.data(), c.n * c.vsize, c.id + 1));
        }
    }
    struct Ev { int call, input; uint64_t h, when; };
    std::vector<std::vector<Ev>> log(NT);
    Barrier bar(NT);
    std::atomic<uint64_t> clock{0}; // relaxed: orders events for the interleaving count without hiding races
    std::vector<std::thread> th;
    for (int id = 0; id < NT; ++id)
        th.emplace_back([&, id] {
            ref::Rng g(o.seed * 77 + id);
            Flat f;
            auto one = [&](int k, int j) {
                calls[k].run(in[k][j], f);
                log[id].push_back({k, j, hash_flat(f), clock.fetch_add(1, std::memory_order_relaxed)});
            };
            // cold start in lock step: every thread enters the same call at the same moment, nothing evaluated yet
            for (size_t k = 0; k < calls.size(); ++k)
            {
                bar.wait();
                for (int rep = 0; rep < o.trials; ++rep)
                {
                    one((int)k, (id + rep) % K);
                    if (g.chance(20)) std::this_thread::yield();
                }
            }
            // free running over different calls
            for (int rep = 0; rep < o.trials * (int)calls.size(); ++rep)
            {
                one((int)g.below(calls.size()), (int)g.below(K));
                if (g.chance(10)) std::this_thread::yield();
            }
        });
    for (auto& t : th) t.join();
    // what each call returns alone, afterwards
    std::vector<std::vector<uint64_t>> alone(calls.size());
    Flat f;
    for (size_t k = 0; k < calls.size(); ++k)
        for (int j = 0; j < K; ++j)
        {
            calls[k].run(in[k][j], f);
            alone[k].push_back(hash_flat(f));
        }
    std::vector<int> owner;
    for (int id = 0; id < NT; ++id)
        for (auto& e : log[id])
        {
            if (e.when >= owner.size()) owner.resize(e.when + 1, -1);
            owner[e.when] = id;
            R.count("evaluations in threads"), ++R.evals;
            if (e.h != alone[e.call][e.input])
                R.viol(std::string(calls[e.call].name) + " [a concurrent evaluation differs from the same evaluation alone]");
        }
    uint64_t sw = 0;
    std::set<uint64_t> windows;
    for (size_t i = 0; i + 1 < owner.size(); ++i)
    {
        sw += owner[i] != owner[i + 1];
        if (i >= 7) { uint64_t w = 0; for (int j = 0; j < 8; ++j) w = w * 8 + owner[i - j]; windows.insert(w); }
    }
    R.count("switches between threads", sw);
    R.count("distinct interleaving windows of 8 events", windows.size());
    R.count("calls", calls.size());
    for (auto& v : in) for (auto p : v) free(p);
    return R.finish();
}
#endif

template <class... C> int drive(int argc, char** argv)
{
    Opt o;
    o.seed    = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    o.trials  = argc > 2 ? atoi(argv[2]) : 12;
    o.hostile = argc > 3 ? atoi(argv[3]) : 0;
    std::vector<Call> calls{call_of<C>()...};
#ifdef EXTRA
    for (auto& c : extra_calls<double, 0>()) calls.push_back(c);
    for (auto& c : extra_calls<float, 1>()) calls.push_back(c);
#endif
    return run_calls(calls, o);
}
