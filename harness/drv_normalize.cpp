// Normalizations of real data of every nature. Judged by spec/NormalizeTrace.tla (C09).
#define VF_MAIN
#include "snn.hpp"
#include <algorithm>
#include <cmath>
using namespace vf;
using namespace snn;
struct Plan { std::string nat; int n = 1, nt = 1, cols = 1, times = 1; bool alone = false, shuffle = false; uint64_t seed = 1; };

static void runPlan(const Plan& P)
{
    Rng rng(P.seed);
    int n = P.n, nt = P.alone ? P.n : P.nt, c = P.cols;
    std::vector<ivec> q((size_t)c), t((size_t)c); std::vector<int> unit, off;
    for (int j = 0; j < c; ++j)
    {
        int style = rng.in(0, 6); unit.push_back(rng.in(-40, 60)); off.push_back(rng.chance(20) ? (rng.chance(50) ? 1 : -1) * (1 << 18) : 0);
        auto value = [&] { switch (style) { case 0: return rng.in(-3, 3); case 1: return rng.in(1, 900); case 2: return -rng.in(1, 900); case 3: return 0; case 4: return rng.in(0, 1); case 5: return -rng.in(0, 2); default: return rng.in(-1000, 1000); } };
        for (int i = 0; i < n; ++i) q[(size_t)j].push_back(value());
        if (rng.chance(25)) std::sort(q[(size_t)j].begin(), q[(size_t)j].end());
        else if (rng.chance(25)) std::sort(q[(size_t)j].rbegin(), q[(size_t)j].rend());
        for (int i = 0; i < nt; ++i) t[(size_t)j].push_back(P.alone ? q[(size_t)j][(size_t)i] : rng.chance(30) ? rng.in(-4000, 4000) : value());
    }
    auto at = [&](const std::vector<ivec>& m, int i) { fvec r; for (int j = 0; j < c; ++j) r.push_back(std::ldexp((float)(m[(size_t)j][(size_t)i] + off[(size_t)j]), unit[(size_t)j])); return r; };
    fmat I, TI, L, TL;
    for (int i = 0; i < n; ++i) { I.push_back(at(q, i)); L.push_back({(float)i, 1.f}); }
    for (int i = 0; i < nt; ++i) { TI.push_back(at(t, i)); TL.push_back(P.alone ? L[(size_t)i] : fvec{(float)-i, 0.5f}); }
    auto split = [&](const fmat& m) { std::vector<fmat> r; Rng g2(P.seed + 7); for (size_t i = 0; i < m.size();) { size_t k = std::min<size_t>((size_t)g2.in(1, 4), m.size() - i); r.emplace_back(m.begin() + (long)i, m.begin() + (long)(i + k)); i += k; } return r; };
    std::unique_ptr<Data> D;
    auto i0 = I, l0 = L, i1 = TI, l1 = TL;
    if (P.nat == "seq") { auto a = split(I), b = split(TI); if (P.alone) D = std::make_unique<Data>(problem::regression, a, l0, nature::sequential); else D = std::make_unique<Data>(problem::regression, a, l0, b, l1, nature::sequential); }
    else if (P.nat == "ts") { if (P.alone) D = std::make_unique<Data>(problem::regression, i0, l0, nature::timeSeries, 2); else D = std::make_unique<Data>(problem::regression, i0, l0, i1, l1, nature::timeSeries, 2); }
    else { if (P.alone) D = std::make_unique<Data>(problem::regression, i0, l0); else D = std::make_unique<Data>(problem::regression, i0, l0, i1, l1); }
    auto ranks = [&] {
        std::vector<ivec> r;
        for (int j = 0; j < c; ++j)
        {
            fvec v; for (auto& x : D->sets[training].inputs) v.push_back(x[(size_t)j]); for (auto& x : D->sets[testing].inputs) v.push_back(x[(size_t)j]);
            fvec u = v; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
            ivec k; for (float x : v) k.push_back((int)(std::lower_bound(u.begin(), u.end(), x) - u.begin()));
            r.push_back(k);
        }
        return r;
    };
    Ev("data").aa("q", q).aa("t", t).aa("pr", ranks()).out();
    auto flags = [&] { std::vector<bool> r; for (int i = 0; i < n; ++i) { r.push_back(D->isFirstTrainingDataOfTemporalSequence(i)); r.push_back(D->needToLearnOnTrainingData(i)); } for (int i = 0; i < nt; ++i) { r.push_back(D->isFirstTestingDataOfTemporalSequence(i)); r.push_back(D->needToEvaluateOnTestingData(i)); } return r; };
    for (int k = 0; k < P.times; ++k)
    {
        if (P.shuffle && rng.chance(60)) { D->shuffle(); Ev("shuffle").out(); }
        auto fl = flags(); auto lt = D->sets[training].labels, ls = D->sets[testing].labels; auto sh = D->sets[training].shuffledIndexes;
        int mn = rng.pick(ivec{0, 0, -4, -1, 1, -64, 60, -8}), mx = mn + rng.pick(ivec{4, 4, 8, 1, 2, 64});
        bool threw = false;
        try { D->normalize((float)mn / 4.f, (float)mx / 4.f); } catch (...) { threw = true; }
        bool same = (P.nat == "non" || fl == flags()) && lt == D->sets[training].labels && ls == D->sets[testing].labels && sh == D->sets[training].shuffledIndexes
            && (int)D->sets[training].inputs.size() == n && (int)D->sets[testing].inputs.size() == nt && D->sets[training].size == n && D->sets[testing].size == nt && D->sizeOfData == c;
        for (auto& v : D->sets[training].inputs) same = same && (int)v.size() == c; for (auto& v : D->sets[testing].inputs) same = same && (int)v.size() == c;
        std::vector<ivec> qa((size_t)c), ta((size_t)c);
        if (same) for (int j = 0; j < c; ++j) { for (auto& v : D->sets[training].inputs) qa[(size_t)j].push_back(fix(v[(size_t)j], 4096)); for (auto& v : D->sets[testing].inputs) ta[(size_t)j].push_back(fix(v[(size_t)j], 4096)); }
        Ev("norm").i("mn", mn * 1024).i("mx", mx * 1024).b("threw", threw).b("same", same).aa("qa", qa).aa("ta", ta).aa("pa", ranks()).out();
    }
    Ev("done").out();
}
int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    Rng g(A.seed);
    std::vector<Plan> plans;
    for (int r = 0; r < (A.thorough ? 1500 : 150); ++r)
    {
        Plan P; P.nat = g.pick(std::vector<std::string>{"non", "seq", "ts"}); P.seed = g.next(); P.n = g.in(1, r % 5 == 0 ? 30 : 7); P.nt = g.in(1, 6); P.cols = g.in(1, 5); P.times = g.in(1, 3); P.alone = g.chance(30); P.shuffle = g.chance(40);
        plans.push_back(P);
    }
    std::vector<Scenario> scs;
    for (auto& q : plans) scs.push_back({"\"nat\":\"" + q.nat + "\"", [q] { runPlan(q); }, 20});
    return runAll(scs, A.out, A.jobs);
}
