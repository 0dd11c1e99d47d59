// C07: removal of invalid nodes and edges against a direct compaction
#include "meshgen.hpp"
#include <MeshKernel/Mesh1D.hpp>
#include <MeshKernel/UndoActions/UndoAction.hpp>
using namespace meshkernel;
using hx::cat;
using hx::check;
using hx::rnd;
using hx::rndd;
using mg::NA;
static const double MV = constants::missing::doubleValue;
static std::string ds(const mg::Snap& s)
{
    std::string r = cat(s.n.size(), " nodes");
    for (size_t i = 0; i < s.n.size() && i < 30; ++i) r += cat(" ", mg::pt(s.n[i]));
    r += cat(", ", s.e.size(), " edges");
    for (size_t i = 0; i < s.e.size() && i < 50; ++i) r += cat(" ", (int)s.e[i].first, "-", (int)s.e[i].second);
    return r;
}
static mg::Snap compact(const mg::Snap& s)
{
    mg::Snap r;
    r.p = s.p;
    std::vector<char> con(s.n.size(), 0);
    for (UInt e = 0; e < s.e.size(); ++e)
        if (mg::ve(s, e)) con[s.e[e].first] = con[s.e[e].second] = 1;
    std::vector<UInt> id(s.n.size(), NA);
    for (UInt n = 0; n < s.n.size(); ++n)
        if (con[n]) id[n] = r.n.size(), r.n.push_back(s.n[n]);
    for (UInt e = 0; e < s.e.size(); ++e)
        if (mg::ve(s, e)) r.e.push_back({id[s.e[e].first], id[s.e[e].second]});
    return r;
}
static bool same(const mg::Snap& a, const mg::Snap& b)
{
    if (a.n.size() != b.n.size() || a.e != b.e) return false;
    for (size_t i = 0; i < a.n.size(); ++i)
        if (!mg::same(a.n[i], b.n[i])) return false;
    return true;
}
static void counts(const Mesh& m, const std::string& how)
{
    auto s = mg::snap(m);
    std::vector<UInt> vn, ve;
    for (UInt n = 0; n < s.n.size(); ++n)
        if (mg::vp(s.n[n])) vn.push_back(n);
    for (UInt e = 0; e < s.e.size(); ++e)
        if (mg::ve(s, e)) ve.push_back(e);
    auto d = [&] { return cat(how, ": ", ds(s)); };
    check(m.GetNumValidNodes() == vn.size(), "valid-nodes", d);
    check(m.GetNumValidEdges() == ve.size(), "valid-edges", d);
    check(m.GetValidNodeMapping() == vn, "node-mapping", d);
    check(m.GetValidEdgeMapping() == ve, "edge-mapping", d);
}
int main()
{
    hx::init();
    const bool th = hx::thorough();
    for (int it = 0; it < (th ? 40000 : 8000); ++it)
    {
        mg::Snap s;
        int n = 1 + rnd(9), k = rnd(14);
        for (int i = 0; i < n; ++i) s.n.push_back(rnd(4) ? Point{(double)rnd(20), rndd()} : rnd(3) ? Point{MV, MV} : rnd(2) ? Point{MV, 1.0} : Point{1.0, MV});
        for (int i = 0; i < k; ++i)
        {
            UInt a = rnd(6) ? (UInt)rnd(n) : NA, b = rnd(6) ? (UInt)rnd(n) : NA;
            if (a == b && a != NA) continue;
            bool dup = false;
            for (auto& e : s.e) dup = dup || (a != NA && b != NA && ((e.first == a && e.second == b) || (e.first == b && e.second == a)));
            if (!dup) s.e.push_back({a, b});
        }
        hx::shape(ds(s));
        hx::kase(ds(s));
        auto want = compact(s);
        Mesh1D m(s.e, s.n, Projection::cartesian);
        check(same(mg::snap(m), want), "compacted", [&] { return cat("mesh of ", ds(s), " is ", ds(mg::snap(m))); });
        counts(m, "1d mesh");
        hx::sample(ds(s));
    }
    for (int it = 0; it < (th ? 3000 : 600); ++it)
    {
        auto c = mg::randcfg(6);
        auto m = mg::make(c);
        std::string how = c.str();
        hx::kase(how);
        for (int k = 0; k < 6 && m->GetNumNodes() > 0 && m->GetNumEdges() > 0; ++k)
        {
            UInt e = mg::validEdge(*m), n = mg::validNode(*m);
            if (e == NA || n == NA) break;
            std::unique_ptr<UndoAction> u;
            int op = rnd(4);
            if (op == 0) u = m->DeleteEdge(e), how += cat(", delete edge ", e);
            if (op == 1) u = m->DeleteNode(n), how += cat(", delete node ", n);
            if (op == 2)
            {
                auto [id, a] = m->InsertNode({c.x0 - rndd(), c.y0});
                auto [id2, a2] = m->ConnectNodes(n, id);
                how += cat(", insert node connected to ", n);
            }
            if (op == 3) m->SetNode(n, {MV, MV}), how += cat(", invalidate node ", n);
            counts(*m, how);
            if (rnd(3) == 0)
            {
                auto b = mg::snap(*m);
                m->DeleteInvalidNodesAndEdges();
                how += ", compacted";
                check(same(mg::snap(*m), compact(b)), "compacted", [&] { return cat("mesh of ", ds(b), " is ", ds(mg::snap(*m))); });
                m->Administrate();
            }
            hx::shape(how);
        }
        counts(*m, how);
    }
    return hx::done();
}
