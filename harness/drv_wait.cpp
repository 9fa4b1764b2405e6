// Builds stop criteria with the public literals and operators, and asks them about observations under a virtual clock.
// Judged by spec/WaitTrace.tla (C04).
#define VF_MAIN
#include "snn.hpp"
using namespace vf;
using namespace snn;
static long long vnow = 0;
extern "C" long _ZNSt6chrono3_V212system_clock3nowEv() { return 1700000000000000000L + (long)vnow * 1000000L; }
extern "C" long _ZNSt6chrono3_V212steady_clock3nowEv() { return 5000000000L + (long)vnow * 1000000L; }

struct W { std::string k; int v = 0; std::string u; std::shared_ptr<W> l, r; };
using PW = std::shared_ptr<W>;
static PW leaf(const std::string& k, int v, const std::string& u = "") { auto w = std::make_shared<W>(); w->k = k; w->v = v; w->u = u; return w; }
static PW node(const std::string& k, PW l, PW r) { auto w = std::make_shared<W>(); w->k = k; w->l = l; w->r = r; return w; }
static std::string js(const PW& w) { if (w->l) return "{\"k\":\"" + w->k + "\",\"l\":" + js(w->l) + ",\"r\":" + js(w->r) + "}"; return "{\"k\":\"" + w->k + "\",\"v\":" + std::to_string(w->v) + "}"; }
static bool cleanOperands = true;
static bool sameWait(const Wait& a, const Wait& b) { return a.epochs == b.epochs && a.accuracy == b.accuracy && a.mae == b.mae && a.duration == b.duration && a.op == b.op; }
static Wait build(const PW& w)
{
    if (w->k == "ep") return operator""_ep((unsigned long long)w->v);
    if (w->k == "acc") return operator""_acc((long double)w->v / 8);
    if (w->k == "mae") return operator""_mae((long double)w->v / 4);
    if (w->k == "ms" && w->u == "s") return operator""_s((unsigned long long)w->v / 1000);
    if (w->k == "ms" && w->u == "min") return operator""_min((unsigned long long)w->v / 60000);
    if (w->k == "ms") return operator""_ms((unsigned long long)w->v);
    Wait l = build(w->l); const Wait r = build(w->r); const Wait r0 = r;
    Wait res = w->k == "and" ? (l && r) : (l || r);
    if (!sameWait(r, r0)) cleanOperands = false;
    return res;
}
static void leaves(const PW& w, std::vector<PW>& out) { if (w->l) { leaves(w->l, out); leaves(w->r, out); } else out.push_back(w); }

int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    Rng g(A.seed);
    std::vector<PW> lits;
    for (int v : {0, 1, 2, 5}) lits.push_back(leaf("ep", v));
    for (int v : {0, 3, 4, 8}) lits.push_back(leaf("acc", v));
    for (int v : {0, 1, 4}) lits.push_back(leaf("mae", v));
    for (int v : {0, 1, 20}) lits.push_back(leaf("ms", v));
    lits.push_back(leaf("ms", 2000, "s")); lits.push_back(leaf("ms", 60000, "min")); lits.push_back(leaf("ep", 1000)); lits.push_back(leaf("ms", 600000, "min"));
    std::vector<PW> all(lits.begin(), lits.end());
    size_t n = lits.size();
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (auto op : {"and", "or"}) all.push_back(node(op, lits[i], lits[j]));
    std::vector<PW> two(all.begin() + (long)n, all.end());
    int three = A.thorough ? 12000 : 1500, more = A.thorough ? 12000 : 1500;
    for (int k = 0; k < three; ++k) { auto op = g.chance(50) ? "and" : "or"; all.push_back(g.chance(50) ? node(op, g.pick(two), g.pick(lits)) : node(op, g.pick(lits), g.pick(two))); }
    for (int k = 0; k < more; ++k) // larger trees, mostly of one operator, in every shape
    {
        std::vector<PW> f; int c = g.in(3, 7); for (int i = 0; i < c; ++i) f.push_back(g.pick(lits));
        std::string op = g.chance(50) ? "and" : "or";
        while (f.size() > 1) { size_t i = (size_t)g.in(0, (int)f.size() - 2); std::string o = g.chance(7) ? (op == "and" ? "or" : "and") : op; f[i] = node(o, f[i], f[i + 1]); f.erase(f.begin() + (long)i + 1); }
        all.push_back(f[0]);
    }
    std::vector<Scenario> scs;
    const size_t per = 400;
    for (size_t from = 0; from < all.size(); from += per)
    {
        size_t to = std::min(all.size(), from + per); uint64_t seed = g.next();
        scs.push_back({"\"from\":" + std::to_string(from), [&all, from, to, seed] {
            Rng r(seed);
            for (size_t i = from; i < to; ++i)
            {
                std::vector<PW> ls; leaves(all[i], ls);
                std::vector<ivec> obs; std::vector<bool> res; bool refused = false; cleanOperands = true; Wait w;
                try { w = build(all[i]); } catch (const std::runtime_error&) { refused = true; }
                if (!refused)
                {
                    vnow = r.in(0, 1000000); w.startClock(); const long long t0 = vnow;
                    for (int k = 0; k < 10; ++k)
                    {   // an observation near the thresholds
                        int ep = r.in(-1, 3), nn = r.pick(ivec{0, 1, 2, 4, 8}), well = r.in(0, nn), abs = r.in(0, 6 * std::max(nn, 1)), ms = r.in(0, 30);
                        for (auto& q : ls) if (r.chance(60))
                        {
                            int d = r.in(-1, 1);
                            if (q->k == "ep") ep = std::max(-1, q->v + d);
                            else if (q->k == "ms") ms = std::max(0, q->v + d);
                            else if (q->k == "acc") { if (nn == 0) nn = 8; well = std::min(nn, std::max(0, q->v * nn / 8 + d)); }
                            else { if (nn == 0) nn = 4; abs = std::max(0, q->v * nn + d); }
                        }
                        vnow = t0 + ms;
                        float acc = nn ? (float)well / (float)nn : -1.f, mae = nn ? (float)abs / (4.f * (float)nn) : -1.f;
                        bool a = w.isOver(ep + 1, acc, mae);
                        obs.push_back({ep, nn, well, nn ? abs : 0, ms}); res.push_back(a);
                    }
                }
                Ev("w").raw("w", js(all[i])).b("refused", refused).b("clean", cleanOperands).aa("obs", obs).a("res", res).out();
            }
            Ev("done").out();
        }, 60});
    }
    return runAll(scs, A.out, A.jobs);
}
