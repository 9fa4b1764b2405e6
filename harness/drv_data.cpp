// Builds real data sets from generated descriptions, well-formed and not, and reads back everything they hand out,
// through shuffles and unshuffles. Judged by spec/DataTrace.tla (C28).
#define VF_MAIN
#include "snn.hpp"
using namespace vf;
using namespace snn;
using ivec = std::vector<int>; using fvec = std::vector<float>; using fmat = std::vector<fvec>;
struct S { ivec lens, ins, labs, cls; fmat x, y; std::vector<fmat> seqs; };
struct Desc { std::string problem, nature; int r = 0, dim = 2; bool one = false; S tr, te; };
static std::string setJson(const S& s) { return "{\"lens\":" + Ev::arr(s.lens) + ",\"ins\":" + Ev::arr(s.ins) + ",\"labs\":" + Ev::arr(s.labs) + ",\"cls\":" + Ev::arr(s.cls) + "}"; }
static std::string descJson(const Desc& d)
{
    return "{\"problem\":\"" + d.problem + "\",\"nature\":\"" + d.nature + "\",\"r\":" + std::to_string(d.r) + ",\"dim\":" + std::to_string(d.dim) + ",\"one\":" + (d.one ? "true" : "false") + ",\"tr\":" + setJson(d.tr) + ",\"te\":" + setJson(d.one ? d.tr : d.te) + "}";
}
// values tell what they are: set, datum and column
static float inValue(int set, int i, int j) { return (float)((set * 2000 + i) * 16 + j + 1) / 64.f; }
static S makeSet(Rng& r, const Desc& d, int set, int nin, int nlab, bool empty)
{
    S s;
    int n = empty ? 0 : r.chance(10) ? r.in(20, 60) : r.in(1, 9);
    if (d.dim == 3) { int c = empty ? 0 : r.in(1, 5); n = 0; for (int i = 0; i < c; ++i) { s.lens.push_back(r.in(1, 5)); n += s.lens.back(); } }
    s.ins.assign((size_t)n, nin); s.labs.assign((size_t)n, nlab);
    (void)set;
    return s;
}
static void fill(Rng& r, const Desc& d, int set, S& s)
{
    for (size_t i = 0; i < s.ins.size(); ++i) { fvec v; for (int j = 0; j < s.ins[i]; ++j) v.push_back(inValue(set, (int)i, j)); s.x.push_back(v); }
    for (size_t i = 0; i < s.labs.size(); ++i)
    {
        fvec v; int c = s.labs[i] ? r.in(0, s.labs[i] - 1) : 0; s.cls.push_back(c);
        for (int j = 0; j < s.labs[i]; ++j) v.push_back(d.problem == "regression" ? inValue(set + 2, (int)i, j) : d.problem == "classification" ? (j == c ? 1.f : 0.f) : (float)(((set * 977 + (int)i) >> j) & 1));
        s.y.push_back(v);
    }
    size_t o = 0;
    if (d.dim == 3) for (int l : s.lens) { fmat q; for (int k = 0; k < l; ++k, ++o) q.push_back(o < s.x.size() ? s.x[o] : fvec{1}); s.seqs.push_back(q); }
}
struct Plan { Desc d; uint64_t seed; };

static void runPlan(Plan P)
{
    Rng r(P.seed);
    Desc& d = P.d;
    problem p = d.problem == "classification" ? problem::classification : d.problem == "regression" ? problem::regression : problem::multipleClassification;
    nature n = d.nature == "nonTemporal" ? nature::nonTemporal : d.nature == "sequential" ? nature::sequential : nature::timeSeries;
    S &tr = d.tr, &te = d.one ? d.tr : d.te;
    S tr0 = tr, te0 = te;
    std::unique_ptr<Data> D; std::string what;
    try
    {
        if (d.dim == 2 && d.one) D = std::make_unique<Data>(p, tr.x, tr.y, n, d.r);
        else if (d.dim == 2) D = std::make_unique<Data>(p, tr.x, tr.y, te.x, te.y, n, d.r);
        else if (d.one) D = std::make_unique<Data>(p, tr.seqs, tr.y, n, d.r);
        else D = std::make_unique<Data>(p, tr.seqs, tr.y, te.seqs, te.y, n, d.r);
    }
    catch (const std::exception& e) { what = e.what(); }
    bool untouched = tr.x == tr0.x && tr.y == tr0.y && te.x == te0.x && te.y == te0.y;
    Ev("build").b("ok", D != nullptr).b("untouched", untouched).i("nin", D ? D->sizeOfData : 0).i("nlab", D ? D->numberOfLabels : 0).i("ntr", D ? D->sets[training].size : 0).i("nte", D ? D->sets[testing].size : 0).out();
    if (!D) return;
    // the data are the data set's own
    for (auto* s : {&tr, &te}) { for (auto& v : s->x) for (auto& f : v) f = -7; for (auto& v : s->y) for (auto& f : v) f = -7; for (auto& q : s->seqs) for (auto& v : q) for (auto& f : v) f = -7; }
    auto find = [](const fmat& given, const fvec& v, int hint) { if (hint >= 0 && hint < (int)given.size() && given[(size_t)hint] == v) return hint + 1; for (size_t i = 0; i < given.size(); ++i) if (given[i] == v) return (int)i + 1; return -1; };
    auto observe = [&] {
        const int ntr = D->sets[training].size, nte = D->sets[testing].size;
        ivec o, lab, cls, to, tlab, tcls; std::vector<bool> first, tfirst, learn, counts; bool same = true;
        for (int i = 0; i < ntr; ++i)
        {
            const int at = find(tr0.x, D->getTrainingData(i), i); o.push_back(at);
            lab.push_back(at > 0 && D->getTrainingOutputs(i) == tr0.y[(size_t)at - 1] ? at : -1);
            if (p == problem::classification) { int c = D->getTrainingLabel(i); cls.push_back(c); same = same && D->getLabel(training, i) == c; }
            first.push_back(D->isFirstTrainingDataOfTemporalSequence(i)); learn.push_back(D->needToLearnOnTrainingData(i));
            same = same && D->getData(training, i) == D->getTrainingData(i) && D->getOutputs(training, i) == D->getTrainingOutputs(i);
        }
        for (int i = 0; i < nte; ++i)
        {
            const int at = find(te0.x, D->getTestingData(i), i); to.push_back(at);
            if (p == problem::classification) { int c = D->getTestingLabel(i); tcls.push_back(c); tlab.push_back(at); same = same && D->getLabel(testing, i) == c; }
            else { tlab.push_back(at > 0 && D->getTestingOutputs(i) == te0.y[(size_t)at - 1] ? at : -1); same = same && D->getOutputs(testing, i) == D->getTestingOutputs(i); }
            tfirst.push_back(D->isFirstTestingDataOfTemporalSequence(i)); counts.push_back(D->needToEvaluateOnTestingData(i));
            same = same && D->getData(testing, i) == D->getTestingData(i);
        }
        Ev("see").a("o", o).a("lab", lab).a("cls", cls).a("first", first).a("learn", learn).a("to", to).a("tlab", tlab).a("tcls", tcls).a("tfirst", tfirst).a("counts", counts).b("same", same).out();
    };
    observe();
    auto knob = [&](const char* what, bool set) {
        const int v = r.in(-64, 64); bool ok = true; int got = 0; const bool prec = std::string(what) == "precision";
        try { if (set) { if (prec) D->setPrecision((float)v / 16.f); else D->setSeparator((float)v / 16.f); } else got = fix(prec ? D->getPrecision() : D->getSeparator(), 16000); }
        catch (const std::exception&) { ok = false; }
        Ev("knob").str("what", what).b("set", set).i("v", v * 1000).i("got", got).b("ok", ok).out();
    };
    for (int k = 0, n2 = r.in(3, 9); k < n2; ++k)
    {
        switch (r.in(0, 5))
        {
        case 0: D->unshuffle(); Ev("unshuffle").out(); observe(); break;
        case 1: knob("precision", true); break;
        case 2: knob("separator", true); break;
        case 3: knob("precision", false); knob("separator", false); break;
        default: D->shuffle(); Ev("shuffle").out(); observe(); break;
        }
    }
    Ev("valid").i("v", D->isValid()).out();
}
int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    Rng g(A.seed);
    std::vector<Plan> plans;
    const std::vector<std::string> PR{"classification", "multipleClassification", "regression"}, NA{"nonTemporal", "sequential", "timeSeries"};
    const int reps = A.thorough ? 100 : 8;
    for (int rep = 0; rep < reps; ++rep) for (auto& pr : PR) for (auto& na : NA) for (int one = 0; one < 2; ++one) for (int spoil = 0; spoil < 9; ++spoil)
    {
        Rng r(g.next());
        Desc d; d.problem = pr; d.nature = na; d.one = one; d.dim = na == "sequential" ? 3 : 2; d.r = na == "timeSeries" ? r.in(1, 4) : r.in(-1, 2);
        if (spoil == 1) { d.dim = 5 - d.dim; if (d.dim == 3) d.nature = r.pick<std::string>({"nonTemporal", "timeSeries"}); }
        if (spoil == 2 && na == "timeSeries") d.r = r.in(-2, 0);
        const int nin = r.in(1, 4); int nlab = r.in(2, 5);
        if (pr == "classification" && spoil == 3) nlab = 1;
        if (pr != "classification" && r.chance(30)) nlab = 1;
        d.tr = makeSet(r, d, 0, nin, nlab, spoil == 4 && r.chance(60)); d.te = makeSet(r, d, 1, nin, nlab, r.chance(8));
        auto pickSet = [&]() -> S& { return d.one || r.chance(60) ? d.tr : d.te; };
        if (spoil == 5) { S& s = pickSet(); if (!s.ins.empty()) s.ins[(size_t)r.in(0, (int)s.ins.size() - 1)] += r.chance(50) ? 1 : nin > 1 ? -1 : 1; }
        if (spoil == 6) { S& s = pickSet(); if (!s.labs.empty()) s.labs[(size_t)r.in(0, (int)s.labs.size() - 1)] += r.chance(50) || nlab < 3 ? 1 : -1; }
        if (spoil == 7) { S& s = pickSet(); if (r.chance(50) || s.labs.empty()) s.labs.push_back(nlab); else s.labs.pop_back(); }
        if (spoil == 8) { S& s = pickSet(); if (d.dim == 3) s.lens.insert(s.lens.begin() + r.in(0, (int)s.lens.size()), 0); else if (r.chance(50) || s.ins.empty()) s.ins.push_back(nin); else s.ins.pop_back(); }
        fill(r, d, 0, d.tr); fill(r, d, 1, d.te);
        plans.push_back({d, r.next()});
    }
    std::vector<Scenario> scs;
    for (auto& q : plans) scs.push_back({"\"d\":" + descJson(q.d), [q] { runPlan(q); }, 20});
    return runAll(scs, A.out, A.jobs);
}
