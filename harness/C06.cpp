// C06: node-edge tables and look-ups against a direct search over the edges
#include "meshgen.hpp"
#include <MeshKernel/Mesh1D.hpp>
#include <MeshKernel/UndoActions/UndoAction.hpp>
#include <algorithm>
#include <numbers>
using namespace meshkernel;
using hx::cat;
using hx::check;
using hx::rnd;
using hx::rndd;
using mg::NA;
static bool ev(const Edge& e) { return e.first != NA && e.second != NA; }
static std::string ds(const Mesh& m)
{
    std::string s = cat(m.GetNumNodes(), " nodes");
    for (UInt i = 0; i < m.GetNumNodes() && i < 40; ++i) s += cat(" ", mg::pt(m.Node(i)));
    s += cat(", ", m.GetNumEdges(), " edges");
    for (UInt i = 0; i < m.GetNumEdges() && i < 60; ++i) s += cat(" ", (int)m.GetEdge(i).first, "-", (int)m.GetEdge(i).second);
    return s;
}
static double ang(const Mesh& m, UInt n, UInt e)
{
    const Edge& x = m.GetEdge(e);
    Point a = m.Node(n), b = m.Node(x.first == n ? x.second : x.first);
    double f = m.m_projection == Projection::spherical ? std::cos(0.5 * (a.y + b.y) * std::numbers::pi / 180) : 1;
    return std::atan2(b.y - a.y, f * (b.x - a.x));
}
static void tables(const Mesh& m, const std::string& how)
{
    auto d = [&](const std::string& w) { return [&, w] { return cat(w, " after ", how, ": ", ds(m)); }; };
    if (!check(m.m_nodesEdges.size() == m.GetNumNodes() && m.m_nodesNumEdges.size() == m.GetNumNodes(), "table-size", d("table sizes"))) return;
    std::vector<std::vector<UInt>> inc(m.GetNumNodes());
    for (UInt e = 0; e < m.GetNumEdges(); ++e)
        if (ev(m.GetEdge(e))) inc[m.GetEdge(e).first].push_back(e), inc[m.GetEdge(e).second].push_back(e);
    for (UInt n = 0; n < m.GetNumNodes(); ++n)
    {
        auto l = m.m_nodesEdges[n];
        if (!check(m.m_nodesNumEdges[n] == inc[n].size() && l.size() >= inc[n].size(), "edge-number", d(cat("node ", n, " has ", m.m_nodesNumEdges[n], " edges, not ", inc[n].size())))) continue;
        auto raw = l;
        l.resize(m.m_nodesNumEdges[n]);
        std::sort(l.begin(), l.end());
        if (!check(l == inc[n], "edge-list", d(cat("edge list of node ", n)))) continue;
        if (!mg::vp(m.Node(n)) || inc[n].size() < 3) continue;
        double turn = 0, closest = 10;
        size_t k = inc[n].size();
        for (size_t i = 0; i < k; ++i)
        {
            double t = ang(m, n, raw[(i + 1) % k]) - ang(m, n, raw[i]);
            while (t < 0) t += 2 * M_PI;
            while (t >= 2 * M_PI) t -= 2 * M_PI;
            closest = std::min({closest, t, 2 * M_PI - t});
            turn += t;
        }
        if (closest > 1e-4) check(turn < 2 * M_PI + 1e-6, "edge-order", d(cat("edges of node ", n, " not in counter-clockwise order")));
    }
}
static void lookups(Mesh2D& m, const std::string& how)
{
    UInt nn = m.GetNumNodes(), ne = m.GetNumEdges();
    if (!nn || !ne) return;
    auto d = [&](const std::string& w) { return [&, w] { return cat(w, " after ", how, ": ", ds(m)); }; };
    for (int t = 0; t < 30; ++t)
    {
        UInt a = rnd(nn), b = rnd(nn);
        if (t % 2)
        {
            UInt e = mg::validEdge(m);
            if (e == NA) break;
            a = m.GetEdge(e).first, b = m.GetEdge(e).second;
            if (rnd(2)) std::swap(a, b);
        }
        bool any = false;
        for (UInt e = 0; e < ne; ++e)
        {
            auto x = m.GetEdge(e);
            any = any || (ev(x) && ((x.first == a && x.second == b) || (x.first == b && x.second == a)));
        }
        UInt r = m.FindEdge(a, b), q = m.FindEdgeWithLinearSearch(a, b);
        auto good = [&](UInt e) { return e < ne && ((m.GetEdge(e).first == a && m.GetEdge(e).second == b) || (m.GetEdge(e).first == b && m.GetEdge(e).second == a)); };
        check(any ? good(r) : r == NA, "find-edge", d(cat("FindEdge(", a, ",", b, ") = ", r)));
        check(any ? good(q) : q == NA, "find-edge-linear", d(cat("FindEdgeWithLinearSearch(", a, ",", b, ") = ", q)));
        UInt e = mg::validEdge(m), f = mg::validEdge(m);
        if (e == NA || e == f) continue;
        std::set<UInt> com;
        for (UInt x : {m.GetEdge(e).first, m.GetEdge(e).second})
            if (x == m.GetEdge(f).first || x == m.GetEdge(f).second) com.insert(x);
        UInt c = m.FindCommonNode(e, f);
        check(com.empty() ? c == NA : com.count(c) > 0, "common-node", d(cat("FindCommonNode(", e, ",", f, ") = ", c)));
        check(m.IsStartOrEnd(e, m.GetEdge(e).first) == 0 && m.IsStartOrEnd(e, m.GetEdge(e).second) == 1, "start-end", d(cat("IsStartOrEnd of edge ", e)));
    }
    std::set<UInt> hang;
    for (UInt e = 0; e < ne; ++e)
        if (ev(m.GetEdge(e)))
        {
            int c1 = 0, c2 = 0;
            for (UInt f = 0; f < ne; ++f)
                if (ev(m.GetEdge(f)))
                {
                    auto on = [&](UInt n) { return m.GetEdge(f).first == n || m.GetEdge(f).second == n; };
                    c1 += on(m.GetEdge(e).first), c2 += on(m.GetEdge(e).second);
                }
            if (c1 < 2 || c2 < 2) hang.insert(e);
        }
    auto h = m.GetHangingEdges();
    check(std::set<UInt>(h.begin(), h.end()) == hang && h.size() == hang.size(), "hanging-edges", d("hanging edges"));
    std::vector<int> em(ne), want(nn, 0);
    for (UInt e = 0; e < ne; ++e)
        if ((em[e] = rnd(3) == 0))
        {
            if (m.GetEdge(e).first != NA) want[m.GetEdge(e).first] = 1;
            if (m.GetEdge(e).second != NA) want[m.GetEdge(e).second] = 1;
        }
    check(m.NodeMaskFromEdgeMask(em) == want, "node-mask", d("node mask from edge mask"));
    m.ComputeNodeNeighbours();
    for (UInt n = 0; n < nn; ++n)
    {
        std::vector<UInt> c, nb;
        m.GetConnectingNodes(n, c);
        bool ok = c.size() == m.m_nodesNumEdges[n] + 1 && c[0] == n, ok2 = m.m_nodesNodes[n].size() > m.m_nodesNumEdges[n];
        for (UInt k = 0; k < m.m_nodesNumEdges[n]; ++k)
        {
            auto x = m.GetEdge(m.m_nodesEdges[n][k]);
            UInt o = x.first == n ? x.second : x.first;
            ok = ok && c[k + 1] == o;
            ok2 = ok2 && m.m_nodesNodes[n][k] == o;
        }
        check(ok, "connecting-nodes", d(cat("connecting nodes of ", n)));
        check(ok2, "neighbours", d(cat("neighbours of node ", n)));
    }
}
// which nodes and edges are kept by administration
static void kept(const mg::Snap& b, const Mesh& m, const std::string& how)
{
    auto d = [&](const std::string& w) { return [&, w] { return cat(w, " after ", how, ": ", ds(m)); }; };
    if (!check(m.GetNumNodes() == b.n.size() && m.GetNumEdges() == b.e.size(), "kept-sizes", d("sizes"))) return;
    std::vector<char> con(b.n.size(), 0);
    for (UInt e = 0; e < b.e.size(); ++e)
    {
        bool v = mg::ve(b, e);
        if (v) con[b.e[e].first] = con[b.e[e].second] = 1;
        check(v ? m.GetEdge(e) == b.e[e] : (m.GetEdge(e).first == NA && m.GetEdge(e).second == NA), "kept-edges", d(cat("edge ", e, v ? " changed" : " is not invalid")));
    }
    for (UInt n = 0; n < b.n.size(); ++n)
        check(con[n] ? mg::same(m.Node(n), b.n[n]) : !mg::vp(m.Node(n)), "kept-nodes", d(cat("node ", n, con[n] ? " changed" : " is not invalid")));
}
int main()
{
    hx::init();
    const bool th = hx::thorough();
    for (int it = 0; it < (th ? 6000 : 1200); ++it)
    {
        auto c = mg::randcfg(6);
        auto m = mg::make(c);
        std::string how = c.str();
        hx::kase(how);
        hx::shape(how);
        tables(*m, how);
        lookups(*m, how);
        for (int k = 0; k < 4; ++k)
        {
            int op = rnd(7);
            UInt e = mg::validEdge(*m), n = mg::validNode(*m);
            if (e == NA || n == NA) break;
            std::unique_ptr<UndoAction> u;
            if (op == 0) u = m->DeleteEdge(e), how += cat(", delete edge ", e);
            else if (op == 1) u = m->DeleteNode(n), how += cat(", delete node ", n);
            else if (op == 2)
            {
                auto [id, a] = m->InsertNode({c.x0 + c.h * (c.nx * rndd() * 1.5), c.y0 + c.h * c.ny * rndd()});
                auto [id2, a2] = m->ConnectNodes(n, id);
                how += cat(", insert node ", id, " connected to ", n);
            }
            else if (op == 3)
            {
                UInt b = mg::validNode(*m);
                if (b == n || m->FindEdgeWithLinearSearch(n, b) != NA) continue;
                auto [id2, a2] = m->ConnectNodes(n, b);
                how += cat(", connect ", n, " and ", b);
            }
            else if (op == 4) u = m->ResetEdge(e, {NA, NA}), how += cat(", invalidate edge ", e);
            else if (op == 5) m->SetNode(n, {constants::missing::doubleValue, constants::missing::doubleValue}), how += cat(", invalidate node ", n);
            else u = m->ResetEdge(e, rnd(2) ? Edge{m->GetEdge(e).first, NA} : Edge{NA, m->GetEdge(e).second}), how += cat(", invalidate one end of edge ", e);
            bool full = true;
            for (UInt x = 0; x < m->GetNumNodes(); ++x)
            {
                int g = 0;
                for (UInt y = 0; y < m->GetNumEdges(); ++y) g += m->GetEdge(y).first == x || m->GetEdge(y).second == x;
                full = full && g <= 16;
            }
            if (!full) break;
            auto b = mg::snap(*m);
            if (u && rnd(4) == 0)
            {
                u->Restore();
                how += " undone";
                b = mg::snap(*m);
            }
            m->Administrate();
            kept(b, *m, how);
            tables(*m, how);
            lookups(*m, how);
            hx::shape(how);
        }
        hx::sample(how);
        if (mg::validEdge(*m) != NA)
        {
            auto g = mg::renumbered(*m);
            hx::kase(how + " renumbered: " + ds(*g));
            tables(*g, how + " renumbered");
            lookups(*g, how + " renumbered");
        }
        // a chain with branches
        std::vector<Point> pn;
        std::vector<Edge> pe;
        int k = 2 + rnd(12);
        for (int i = 0; i < k; ++i) pn.push_back({10 * rndd(), 10 * rndd()});
        for (int i = 1; i < k; ++i)
            if (rnd(5)) pe.push_back(rnd(2) ? Edge{(UInt)rnd(i), (UInt)i} : Edge{(UInt)i, (UInt)rnd(i)});
        if (pe.empty()) continue;
        if (rnd(3) == 0) pn[rnd(k)] = {constants::missing::doubleValue, constants::missing::doubleValue};
        Mesh1D l(pe, pn, Projection::cartesian);
        mg::Snap b = mg::snap(l);
        hx::kase("1d");
        l.Administrate();
        kept(b, l, "1d network");
        tables(l, "1d network");
    }
    return hx::done();
}
