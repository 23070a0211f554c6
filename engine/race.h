// Happens-before data-race detection over the scheduled parallel regions of harness/omp_rt.cpp; used by the symbolic executor
// (qsx.cpp, on every access of the executed IR) and by the native replay (race_rt.cpp, on instrumented code).
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <array>
enum { RT = 4 };
struct RaceByte { uint32_t region; uint16_t w[RT], r[RT], aw[RT], ar[RT]; };   // last plain/atomic write/read per thread
struct Race {
    bool on = false; int n = 0, cur = 0; uint32_t region = 0; uint16_t vc[RT][RT]; std::map<uint64_t, std::array<uint16_t, RT>> sync;
    void begin(int k) { on = k > 1 && k <= RT; n = k; cur = 0; ++region; memset(vc, 0, sizeof vc); for (int t = 0; t < n && t < RT; ++t) vc[t][t] = 1; sync.clear(); }
    void end() { on = false; }
    void acquire(uint64_t a) { if (!on) return; auto it = sync.find(a); if (it != sync.end()) for (int u = 0; u < n; ++u) if (it->second[u] > vc[cur][u]) vc[cur][u] = it->second[u]; }
    void release(uint64_t a) { if (!on) return; auto& s = sync[a]; for (int u = 0; u < n; ++u) if (vc[cur][u] > s[u]) s[u] = vc[cur][u]; ++vc[cur][cur]; }
    void barrier() { if (!on) return; uint16_t m[RT] = {0}; for (int t = 0; t < n; ++t) for (int u = 0; u < n; ++u) if (vc[t][u] > m[u]) m[u] = vc[t][u]; for (int t = 0; t < n; ++t) { for (int u = 0; u < n; ++u) vc[t][u] = m[u]; ++vc[t][t]; } }
    bool access(RaceByte& b, bool wr, bool atomic) { // true: conflicts with an unordered access of another thread
        if (b.region != region) { memset(&b, 0, sizeof b); b.region = region; } bool bad = false; const uint16_t* v = vc[cur];
        for (int u = 0; u < n; ++u) if (u != cur) bad |= b.w[u] > v[u] || (!atomic && b.aw[u] > v[u]) || (wr && b.r[u] > v[u]) || (wr && !atomic && b.ar[u] > v[u]);
        (wr ? (atomic ? b.aw : b.w) : (atomic ? b.ar : b.r))[cur] = v[cur]; return bad; }
};
