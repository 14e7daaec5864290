// Shared runtime-monitoring harness: deterministic workload generation, oracles' verdict
// collection, progress reporting (so that a sanitizer abort or a hang can be attributed to the
// case that was running), and evidence counters.
#pragma once
#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include <unordered_set>
#include <vector>

namespace vh
{
    using ld = long double;

    inline uint64_t mix(uint64_t x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    inline uint64_t hash_str(const std::string &s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h;
    }

    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed) {}
        uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s;
            x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
        // [0,1)
        double u01() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
        double uni(double a, double b) { return a + (b - a) * u01(); }
        // inclusive
        int i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
        bool coin(double p = 0.5) { return u01() < p; }
        template <class V> auto pick(const V &v) -> const typename V::value_type & { return v[next() % v.size()]; }
    };

    struct Viol { std::string family; long idx; std::string key, detail; };

    struct Global
    {
        std::string property, tier = "quick", out;
        uint64_t seed = 1;
        int shard = 0, nshards = 1;
        std::string only_family; long only_idx = -1;
        std::set<std::string> skip; // "family:idx"
        bool thorough = false;
        int fd_cur = -1;
        std::mutex mtx;
        long evaluations = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, long> counters;
        std::map<std::string, std::vector<std::string>> samples;
        std::vector<Viol> viols;
        std::map<std::string, long> viol_count;
        double max_ratio = 0; // largest observed error / tolerance (how close the tree comes to the limit)
        std::map<std::string, double> max_ratios;
    };
    inline Global &g() { static Global G; return G; }

    struct Case
    {
        std::string family; long idx; Rng rng; uint64_t h = 0; bool nontriv = false; std::string desc;
        Case(const std::string &f, long i, uint64_t s) : family(f), idx(i), rng(s) {}
        // Record what this case is; the description is also used to count distinct cases.
        void describe(const std::string &d) { desc = d; }
        void event(const std::string &name, long n = 1) { std::lock_guard<std::mutex> l(g().mtx); g().counters[name] += n; }
        void nontrivial(uint64_t hh) { h = mix(h ^ hh); nontriv = true; }
        void fail(const std::string &key, const std::string &detail)
        {
            std::lock_guard<std::mutex> l(g().mtx);
            auto &n = g().viol_count[family + "/" + key];
            if (n++ < 3) g().viols.push_back({family, idx, key, detail + (desc.empty() ? "" : " | " + desc)});
        }
        bool check(bool ok, const std::string &key, const std::string &detail = "")
        {
            event("oracle_checks");
            if (!ok) fail(key, detail);
            return ok;
        }
        // |a-b| <= tol, NaN fails
        bool near(ld a, ld b, ld tol, const std::string &key, const std::string &what = "")
        {
            ld e = std::fabs(a - b);
            bool ok = e <= tol;
            {
                std::lock_guard<std::mutex> l(g().mtx);
                g().counters["oracle_checks"]++;
                if (tol > 0 && ok) { double r = double(e / tol); auto &m = g().max_ratios[family + "/" + key]; if (r > m) m = r; }
            }
            if (!ok)
            {
                std::ostringstream o; o.precision(17);
                o << what << " got " << double(a) << " expected " << double(b) << " err " << double(e) << " tol " << double(tol);
                fail(key, o.str());
            }
            return ok;
        }
        template <class A, class B>
        bool near_pt(const A &a, const B &b, ld tol, const std::string &key, const std::string &what = "")
        {
            for (size_t k = 0; k < a.size(); ++k)
                if (!near(a[k], b[k], tol, key, what + "[" + std::to_string(k) + "]")) return false;
            return true;
        }
    };

    inline std::string js(const std::string &s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
            else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o + "\"";
    }

    struct Family { std::string name; long nq, nt; std::function<void(Case &)> fn; };
    inline std::vector<Family> &families() { static std::vector<Family> F; return F; }
    // quick count, thorough count
    struct Reg { Reg(const std::string &n, long nq, long nt, std::function<void(Case &)> fn) { families().push_back({n, nq, nt, fn}); } };

    inline void set_cur(const std::string &s)
    {
        if (g().fd_cur < 0) return;
        char b[256]; memset(b, ' ', 255); b[255] = '\n';
        memcpy(b, s.data(), std::min<size_t>(s.size(), 250));
        (void)!pwrite(g().fd_cur, b, 256, 0);
    }

    inline void write_out()
    {
        auto &G = g();
        if (G.out.empty()) return;
        FILE *f = fopen(G.out.c_str(), "w");
        if (!f) return;
        fprintf(f, "{\"evaluations\": %ld,\n\"counters\": {", G.evaluations);
        bool first = true;
        for (auto &[k, v] : G.counters) { fprintf(f, "%s%s: %ld", first ? "" : ", ", js(k).c_str(), v); first = false; }
        fprintf(f, "},\n\"ratios\": {"); first = true;
        for (auto &[k, v] : G.max_ratios) { fprintf(f, "%s%s: %.4g", first ? "" : ", ", js(k).c_str(), v); first = false; }
        fprintf(f, "},\n\"samples\": {"); first = true;
        for (auto &[k, v] : G.samples)
        {
            fprintf(f, "%s%s: [", first ? "" : ", ", js(k).c_str()); first = false;
            for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", js(v[i]).c_str());
            fprintf(f, "]");
        }
        fprintf(f, "},\n\"violations\": ["); first = true;
        for (auto &v : G.viols)
        {
            fprintf(f, "%s{\"family\": %s, \"idx\": %ld, \"key\": %s, \"detail\": %s}", first ? "" : ",\n", js(v.family).c_str(), v.idx, js(v.key).c_str(), js(v.detail).c_str());
            first = false;
        }
        fprintf(f, "],\n\"viol_count\": {"); first = true;
        for (auto &[k, v] : G.viol_count) { fprintf(f, "%s%s: %ld", first ? "" : ", ", js(k).c_str(), v); first = false; }
        fprintf(f, "},\n\"distinct\": ["); first = true;
        for (auto h : G.distinct) { fprintf(f, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
        fprintf(f, "],\n\"done\": true}\n");
        fclose(f);
    }

    inline int run(int argc, char **argv)
    {
        auto &G = g();
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto nx = [&]() { return std::string(argv[++i]); };
            if (a == "--seed") G.seed = std::stoull(nx());
            else if (a == "--tier") { G.tier = nx(); G.thorough = G.tier == "thorough"; }
            else if (a == "--out") G.out = nx();
            else if (a == "--cur") G.fd_cur = open(nx().c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
            else if (a == "--shard") { G.shard = std::stoi(nx()); }
            else if (a == "--nshards") { G.nshards = std::stoi(nx()); }
            else if (a == "--family") G.only_family = nx();
            else if (a == "--idx") G.only_idx = std::stol(nx());
            else if (a == "--skip") G.skip.insert(nx());
            else if (a == "--list") { for (auto &f : families()) printf("%s %ld %ld\n", f.name.c_str(), f.nq, f.nt); return 0; }
        }
        // Round-robin over families so that shards see all of them; each case's seed depends only
        // on (seed, family, idx), so any case can be replayed alone.
        for (auto &F : families())
        {
            if (!G.only_family.empty() && F.name != G.only_family) continue;
            long n = G.thorough ? F.nt : F.nq;
            for (long idx = 0; idx < n; ++idx)
            {
                if (G.only_idx >= 0) { if (idx != 0) break; idx = G.only_idx; }
                else if (idx % G.nshards != G.shard) continue;
                std::string id = F.name + ":" + std::to_string(idx);
                if (G.skip.count(id)) continue;
                set_cur(id);
                Case c(F.name, idx, mix(mix(G.seed) ^ hash_str(F.name) ^ mix(uint64_t(idx) * 2654435761u + 17)));
                ++G.evaluations;
                try { F.fn(c); }
                catch (const std::exception &e) { c.fail(std::string("unexpected_exception"), std::string(typeid(e).name()) + ": " + e.what()); }
                catch (...) { c.fail("unexpected_exception", "non-std exception"); }
                G.counters["cases/" + F.name]++;
                if (c.nontriv) G.distinct.insert(mix(c.h ^ hash_str(F.name)));
                auto &S = G.samples[F.name];
                if (!c.desc.empty() && S.size() < 2 && c.nontriv) S.push_back(id + " " + c.desc);
                if (G.only_idx >= 0) break;
            }
        }
        set_cur("DONE");
        write_out();
        if (G.only_idx >= 0)
            for (auto &v : G.viols) printf("%s:%ld %s %s\n", v.family.c_str(), v.idx, v.key.c_str(), v.detail.c_str());
        return 0;
    }

    template <class V> std::string str(const V &v)
    {
        std::ostringstream o; o.precision(9); o << "[";
        bool f = true; for (auto &x : v) { o << (f ? "" : ",") << x; f = false; }
        o << "]"; return o.str();
    }
    template <class T> std::string num(T x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
    // Deliver the bits of a double into a hash
    inline uint64_t hb(double d) { uint64_t u; memcpy(&u, &d, 8); return mix(u); }
    template <class V> uint64_t hvec(const V &v) { uint64_t h = 7; for (auto &x : v) h = mix(h ^ hb(double(x))); return h; }

    // True iff f throws (any std::exception)
    template <class F> bool throws(F &&f) { try { f(); } catch (const std::exception &) { return true; } return false; }
}
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// FAMILY("name", quick, thorough) { ... uses `c` (vh::Case&) }
#define FAMILY(name, nq, nt)                                                          \
    static void VH_CAT(vh_fam_, __LINE__)(vh::Case & c);                              \
    static vh::Reg VH_CAT(vh_reg_, __LINE__)(name, nq, nt, VH_CAT(vh_fam_, __LINE__)); \
    static void VH_CAT(vh_fam_, __LINE__)(vh::Case & c)
