// Stand-in for libstdc++'s TBB back end of the parallel algorithms, used by the ThreadSanitizer builds only.
// libtbb is not instrumented, so ThreadSanitizer cannot see its synchronisation. This back end runs every parallel
// region on std::threads (fully visible to ThreadSanitizer) with seeded random chunk boundaries, a random assignment
// of chunks to threads and injected delays, and counts what it did.
#ifndef VH_PSTL_SHIM_H
#define VH_PSTL_SHIM_H
#include <atomic>
#include <cstdint>
#include <memory>
#include <thread>
#include <utility>
#include <vector>

namespace vh_par
{
    struct State
    {
        unsigned threads = 4; bool jitter = true;
        std::atomic<uint64_t> seed{1}, regions{0}, chunks{0}, threads_started{0}, nested{0}, schedules{0};
    };
    inline State &state() { static State s; return s; }
    inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
    inline int &depth() { static thread_local int d = 0; return d; }
    // chunk boundaries of [0,n)
    inline std::vector<std::size_t> cuts(std::size_t n, uint64_t &r, unsigned T)
    {
        std::size_t k = 1 + (r = mix(r)) % (T * 3); if (k > n) k = n; if (k < 2 && n >= 2 && T > 1) k = 2;
        std::vector<std::size_t> b{0};
        for (std::size_t i = 1; i < k; ++i) { std::size_t lo = b.back() + 1, hi = n - (k - i); b.push_back(lo + (hi > lo ? (r = mix(r)) % (hi - lo + 1) : 0)); }
        b.push_back(n);
        return b;
    }
    // runs body(chunk) for every chunk
    template <class Body> void run(std::size_t nchunks, uint64_t r, const Body &body)
    {
        auto &S = state(); S.regions++; S.chunks += nchunks;
        std::vector<std::size_t> order(nchunks); for (std::size_t i = 0; i < nchunks; ++i) order[i] = i;
        for (std::size_t i = nchunks; i-- > 1;) std::swap(order[i], order[(r = mix(r)) % (i + 1)]);
        if (S.threads < 2 || depth() > 0 || nchunks < 2)
        {
            if (depth() > 0) S.nested++;
            if (S.threads < 2) { for (std::size_t i = 0; i < nchunks; ++i) body(i); return; }
            for (auto i : order) body(i);
            return;
        }
        std::atomic<std::size_t> next{0}; std::atomic<uint64_t> hash{0};
        unsigned T = unsigned(std::min<std::size_t>(S.threads, nchunks));
        auto work = [&](uint64_t s) {
            depth()++;
            for (;;)
            {
                if (S.jitter) { s = mix(s); if (s % 4 == 0) std::this_thread::yield(); else for (volatile uint64_t z = 0; z < s % 300; z = z + 1) {} }
                std::size_t i = next.fetch_add(1, std::memory_order_relaxed);
                if (i >= nchunks) break;
                hash.fetch_xor(mix(i * 64 + s % 64), std::memory_order_relaxed);
                body(order[i]);
            }
            depth()--;
        };
        std::vector<std::thread> pool; S.threads_started += T;
        for (unsigned t = 1; t < T; ++t) pool.emplace_back(work, mix(r + t));
        work(mix(r)); for (auto &t : pool) t.join();
        S.schedules++;
    }
}
namespace __pstl
{
namespace __tbb_backend
{
template <typename _Tp> class __buffer
{
    std::allocator<_Tp> a_; _Tp *p_; const std::size_t n_;
    __buffer(const __buffer &) = delete; void operator=(const __buffer &) = delete;
  public:
    __buffer(std::size_t n) : a_(), p_(a_.allocate(n)), n_(n) {}
    operator bool() const { return p_ != nullptr; }
    _Tp *get() const { return p_; }
    ~__buffer() { a_.deallocate(p_, n_); }
};
inline void __cancel_execution() {}

template <class _P, class _Index, class _F> void __parallel_for(_P &&, _Index first, _Index last, _F f)
{
    std::size_t n = std::size_t(last - first); if (n == 0) return;
    uint64_t r = vh_par::mix(vh_par::state().seed++); auto b = vh_par::cuts(n, r, vh_par::state().threads);
    vh_par::run(b.size() - 1, r, [&](std::size_t i) { f(first + b[i], first + b[i + 1]); });
}
template <class _P, class _Value, class _Index, typename _Body, typename _Red>
_Value __parallel_reduce(_P &&, _Index first, _Index last, const _Value &identity, const _Body &body, const _Red &red)
{
    std::size_t n = std::size_t(last - first); if (n == 0) return identity;
    uint64_t r = vh_par::mix(vh_par::state().seed++); auto b = vh_par::cuts(n, r, vh_par::state().threads);
    std::vector<_Value> v(b.size() - 1, identity);
    vh_par::run(b.size() - 1, r, [&](std::size_t i) { v[i] = body(first + b[i], first + b[i + 1], identity); });
    _Value x = v[0]; for (std::size_t i = 1; i < v.size(); ++i) x = red(x, v[i]);
    return x;
}
template <class _P, class _Index, class _U, class _Tp, class _B, class _R>
_Tp __parallel_transform_reduce(_P &&, _Index first, _Index last, _U u, _Tp init, _B comb, _R reduce)
{
    std::size_t n = std::size_t(last - first);
    if (n < 4 || vh_par::state().threads < 2) return n ? reduce(first, last, init) : init;
    uint64_t r = vh_par::mix(vh_par::state().seed++); auto b = vh_par::cuts(n, r, vh_par::state().threads);
    std::vector<std::unique_ptr<_Tp>> v(b.size() - 1);
    vh_par::run(b.size() - 1, r, [&](std::size_t i) {
        auto lo = first + b[i], hi = first + b[i + 1];
        if (b[i + 1] - b[i] == 1) v[i] = std::make_unique<_Tp>(u(lo));
        else v[i] = std::make_unique<_Tp>(reduce(lo + 2, hi, comb(u(lo), u(lo + 1))));
    });
    _Tp x = init; for (auto &y : v) x = comb(x, *y);
    return x;
}
template <class _P, typename _Index, typename _Tp, typename _Rp, typename _Cp, typename _Sp, typename _Ap>
void __parallel_strict_scan(_P &&, _Index n, _Tp initial, _Rp reduce, _Cp combine, _Sp scan, _Ap apex)
{
    _Tp s = initial; if (n) s = combine(s, reduce(_Index(0), n)); apex(s); if (n) scan(_Index(0), n, initial);
}
template <class _P, class _Index, class _U, class _Tp, class _B, class _R, class _S>
_Tp __parallel_transform_scan(_P &&, _Index n, _U, _Tp init, _B, _R, _S scan) { return scan(_Index(0), n, init); }
template <class _P, typename _It, typename _C, typename _L>
void __parallel_stable_sort(_P &&, _It first, _It last, _C comp, _L leaf, std::size_t = 0) { leaf(first, last, comp); }
template <class _P, typename _I1, typename _I2, typename _I3, typename _C, typename _L>
void __parallel_merge(_P &&, _I1 f1, _I1 l1, _I2 f2, _I2 l2, _I3 o, _C comp, _L leaf) { leaf(f1, l1, f2, l2, o, comp); }
template <class _P, typename _F1, typename _F2> void __parallel_invoke(_P &&, _F1 &&f1, _F2 &&f2)
{
    auto &S = vh_par::state();
    vh_par::run(2, vh_par::mix(S.seed++), [&](std::size_t i) { if (i == 0) std::forward<_F1>(f1)(); else std::forward<_F2>(f2)(); });
}
} // namespace __tbb_backend
} // namespace __pstl
#endif
