// C15: faces and face tables against independent tracing of the rings
#include "meshgen.hpp"
#include <MeshKernel/UndoActions/UndoAction.hpp>
#include <MeshKernel/UndoActions/CompoundUndoAction.hpp>
#include <MeshKernel/MeshRefinement.hpp>
#include <MeshKernel/Parameters.hpp>
#include <algorithm>
using namespace meshkernel;
using hx::cat;
using hx::check;
using hx::rnd;
using hx::rndd;
using mg::NA;
static bool ev(const Edge& e) { return e.first != NA && e.second != NA; }
static std::string ds(const Mesh& m)
{
    std::string s = cat(m.GetNumNodes(), " nodes");
    for (UInt i = 0; i < m.GetNumNodes() && i < 40; ++i) s += cat(" ", mg::pt(m.Node(i)));
    s += cat(", ", m.GetNumEdges(), " edges");
    for (UInt i = 0; i < m.GetNumEdges() && i < 60; ++i) s += cat(" ", (int)m.GetEdge(i).first, "-", (int)m.GetEdge(i).second);
    return s;
}
static double area2(const Mesh& m, const std::vector<UInt>& r)
{
    double a = 0;
    Point o = m.Node(r[0]);
    for (size_t i = 0; i < r.size(); ++i)
    {
        Point p = m.Node(r[i]) - o, q = m.Node(r[(i + 1) % r.size()]) - o;
        a += p.x * q.y - p.y * q.x;
    }
    return a;
}
static std::vector<UInt> canon(std::vector<UInt> r)
{
    std::rotate(r.begin(), std::min_element(r.begin(), r.end()), r.end());
    return r;
}
// all rings of 3 to 6 different nodes bounding a region on their left
static std::set<std::vector<UInt>> rings(const Mesh& m)
{
    std::vector<std::vector<std::pair<double, UInt>>> out(m.GetNumNodes());
    for (UInt e = 0; e < m.GetNumEdges(); ++e)
        if (ev(m.GetEdge(e)))
        {
            UInt a = m.GetEdge(e).first, b = m.GetEdge(e).second;
            for (int k = 0; k < 2; ++k, std::swap(a, b)) out[a].push_back({std::atan2(m.Node(b).y - m.Node(a).y, m.Node(b).x - m.Node(a).x), b});
        }
    for (auto& o : out) std::sort(o.begin(), o.end());
    std::set<std::vector<UInt>> res;
    for (UInt n = 0; n < m.GetNumNodes(); ++n)
        for (auto& [x, to] : out[n])
        {
            std::vector<UInt> r{n};
            UInt a = n, b = to;
            for (int k = 0; k < 8; ++k)
            {
                if (b == n) break;
                r.push_back(b);
                // turn as far left as possible: the edge just before (clockwise of) the one back
                size_t i = 0;
                while (out[b][i].second != a) ++i;
                UInt c = out[b][(i + out[b].size() - 1) % out[b].size()].second;
                a = b, b = c;
            }
            if (b != n || r.size() < 3 || r.size() > 6) continue;
            if (std::set<UInt>(r.begin(), r.end()).size() != r.size()) continue;
            if (area2(m, r) > 0) res.insert(canon(r));
        }
    return res;
}
static void tables(const Mesh2D& m, const std::string& how, bool all)
{
    auto d = [&](const std::string& w) { return [&, w] { return cat(w, " after ", how, ": ", ds(m)); }; };
    UInt F = m.GetNumFaces(), nE = m.GetNumEdges();
    if (!check(m.m_facesEdges.size() == F && m.m_numFacesNodes.size() == F && m.m_faceArea.size() == F && m.m_facesMassCenters.size() == F && m.m_facesCircumcenters.size() == F && m.m_edgesFaces.size() == nE && m.m_edgesNumFaces.size() == nE, "table-sizes", d("table sizes"))) return;
    std::vector<std::vector<UInt>> ef(nE);
    std::set<std::vector<UInt>> got;
    for (UInt f = 0; f < F; ++f)
    {
        auto& n = m.m_facesNodes[f];
        auto& e = m.m_facesEdges[f];
        UInt k = n.size();
        if (!check(k >= 3 && k <= 6 && e.size() == k && m.m_numFacesNodes[f] == k, "ring-size", d(cat("face ", f, " has ", k, " nodes and ", e.size(), " edges")))) continue;
        check(std::set<UInt>(n.begin(), n.end()).size() == k, "ring-nodes", d(cat("face ", f, " repeats a node")));
        bool ok = true;
        for (UInt i = 0; i < k; ++i)
        {
            ok = ok && e[i] < nE && ((m.GetEdge(e[i]).first == n[i] && m.GetEdge(e[i]).second == n[(i + 1) % k]) || (m.GetEdge(e[i]).second == n[i] && m.GetEdge(e[i]).first == n[(i + 1) % k]));
            if (e[i] < nE) ef[e[i]].push_back(f);
        }
        check(ok, "ring-closed", d(cat("edges of face ", f, " do not close its ring")));
        if (m.m_projection == Projection::cartesian) check(area2(m, n) > 0, "ring-direction", d(cat("face ", f, " is not counter-clockwise")));
        if (m.m_projection == Projection::cartesian) check(std::abs(m.m_faceArea[f] - 0.5 * area2(m, n)) < 1e-9 * (1 + m.m_faceArea[f]), "ring-area", d(cat("area of face ", f, " is ", m.m_faceArea[f])));
        check(got.insert(canon(n)).second, "ring-twice", d(cat("face ", f, " occurs twice")));
    }
    for (UInt e = 0; e < nE; ++e)
    {
        std::vector<UInt> x;
        for (UInt j = 0; j < m.m_edgesNumFaces[e] && j < 2; ++j) x.push_back(m.m_edgesFaces[e][j]);
        std::sort(x.begin(), x.end());
        check(m.m_edgesNumFaces[e] <= 2 && x == ef[e], "edge-faces", d(cat("faces of edge ", e)));
        check(m.IsEdgeOnBoundary(e) == (ef[e].size() == 1), "edge-boundary", d(cat("edge ", e, " on the boundary")));
    }
    if (all && m.m_projection == Projection::cartesian)
    {
        auto want = rings(m);
        for (auto& r : want)
        {
            // a ring that shares two of its edges with one face (a node of two edges inside it) is not taken for a face
            std::multiset<UInt> nb;
            for (size_t i = 0; i < r.size(); ++i)
            {
                UInt e = m.FindEdgeWithLinearSearch(r[i], r[(i + 1) % r.size()]);
                if (e != NA)
                    for (UInt f : ef[e]) nb.insert(f);
            }
            bool twice = false;
            for (UInt f : nb) twice = twice || nb.count(f) > 1;
            if (!got.count(r) && twice) continue;
            check(got.count(r) > 0, "face-missing", d(cat("no face for the ring of ", r.size(), " nodes ", r[0], " ", r[1], " ", r[2])));
        }
        for (auto& r : got) check(want.count(r) > 0, "face-extra", d(cat("a face for ", r.size(), " nodes ", r[0], " ", r[1], " ", r[2])));
    }
    // look-ups
    for (UInt f = 0; f < F; ++f)
    {
        bool b = false;
        UInt k = m.m_facesEdges[f].size();
        for (UInt i = 0; i < k; ++i)
        {
            UInt e = m.m_facesEdges[f][i];
            b = b || ef[e].size() == 1;
            UInt o = NA;
            for (UInt g : ef[e])
                if (g != f) o = g;
            check(m.NextFace(f, e) == o, "next-face", d(cat("NextFace(", f, ",", e, ")")));
            check(m.GetEdgeIndex(f, e) == i && m.GetNodeIndex(f, m.m_facesNodes[f][i]) == i, "ring-index", d(cat("index in face ", f)));
            if (k == 4) check(m.FindOppositeEdge(f, e) == m.m_facesEdges[f][(i + 2) % 4], "opposite-edge", d(cat("FindOppositeEdge(", f, ",", e, ")")));
        }
        check(m.IsFaceOnBoundary(f) == b, "face-boundary", d(cat("face ", f, " on the boundary")));
        UInt n = rnd(m.GetNumNodes());
        auto it = std::find(m.m_facesNodes[f].begin(), m.m_facesNodes[f].end(), n);
        UInt w = it == m.m_facesNodes[f].end() ? NA : it - m.m_facesNodes[f].begin();
        check(m.GetNodeIndex(f, n) == w && m.GetLocalFaceNodeIndex(f, n) == w, "node-index", d(cat("index of node ", n, " in face ", f)));
    }
    for (int t = 0; t < 20 && nE; ++t)
    {
        UInt a = rnd(nE), b = rnd(nE);
        if (a == b) continue;
        std::set<UInt> com;
        for (UInt f : ef[a])
            if (std::count(ef[b].begin(), ef[b].end(), f)) com.insert(f);
        UInt r = m.FindCommonFace(a, b);
        check(com.empty() ? r == NA : com.count(r) > 0, "common-face", d(cat("FindCommonFace(", a, ",", b, ") = ", r)));
    }
}
int main()
{
    hx::init();
    const bool th = hx::thorough();
    for (int it = 0; it < (th ? 6000 : 1200); ++it)
    {
        auto c = mg::randcfg(6);
        auto m = mg::make(c);
        std::string how = c.str();
        hx::kase(how);
        hx::shape(how);
        tables(*m, how, true);
        for (int k = 0; k < 4; ++k)
        {
            int op = rnd(5);
            UInt e = mg::validEdge(*m), n = mg::validNode(*m);
            if (e == NA || n == NA) break;
            std::unique_ptr<UndoAction> u;
            if (op == 0) u = m->DeleteEdge(e), how += cat(", delete edge ", e);
            else if (op == 1) u = m->DeleteNode(n), how += cat(", delete node ", n);
            else if (op == 2 && m->GetNumFaces() > 0)
            {
                // a node in a face, connected to some of its nodes
                UInt f = rnd(m->GetNumFaces());
                auto r = m->m_facesNodes[f];
                auto [id, a] = m->InsertNode(m->m_facesMassCenters[f]);
                how += cat(", insert node ", id, " in face ", f, " connected to");
                for (UInt x : r)
                    if (rnd(3))
                    {
                        auto [id2, a2] = m->ConnectNodes(x, id);
                        how += cat(" ", x);
                    }
            }
            else if (op == 3)
            {
                // split an edge: faces of up to 6 edges
                auto x = m->GetEdge(e);
                auto [id, a] = m->InsertNode((m->Node(x.first) + m->Node(x.second)) * 0.5);
                auto b = m->DeleteEdge(e);
                auto [i1, a1] = m->ConnectNodes(x.first, id);
                auto [i2, a2] = m->ConnectNodes(x.second, id);
                how += cat(", split edge ", e);
            }
            else if (op == 4)
            {
                u = m->ResetEdge(e, {m->GetEdge(e).second, m->GetEdge(e).first});
                how += cat(", reverse edge ", e);
            }
            if (u && rnd(4) == 0) u->Restore(), how += " undone";
            bool full = true;
            for (UInt x = 0; x < m->GetNumNodes(); ++x)
            {
                int g = 0;
                for (UInt y = 0; y < m->GetNumEdges(); ++y) g += m->GetEdge(y).first == x || m->GetEdge(y).second == x;
                full = full && g <= 16;
            }
            if (!full) break;
            m->Administrate();
            tables(*m, how, true);
            hx::shape(how);
        }
        hx::sample(how);
        if (mg::validEdge(*m) != NA)
        {
            auto g = mg::renumbered(*m);
            hx::kase(how + " renumbered: " + ds(*g));
            tables(*g, how + " renumbered", true);
            
        }
        // the same faces from a given list of rings
        if (m->GetNumFaces() > 0)
        {
            std::vector<std::vector<UInt>> fn = m->m_facesNodes;
            std::vector<UInt> num = m->m_numFacesNodes;
            bool allvalid = true;
            for (UInt i = 0; i < m->GetNumNodes(); ++i) allvalid = allvalid && mg::vp(m->Node(i));
            for (UInt i = 0; i < m->GetNumEdges(); ++i) allvalid = allvalid && ev(m->GetEdge(i));
            if (allvalid)
            {
                hx::kase(how + " given rings");
                Mesh2D g(m->Edges(), m->Nodes(), fn, num, m->m_projection);
                tables(g, how + " given rings", false);
                check(g.GetNumFaces() == fn.size() && g.m_edgesNumFaces == m->m_edgesNumFaces, "given-faces", [&] { return cat("faces of given rings after ", how); });
                auto it2 = std::find(m->m_edgesNumFaces.begin(), m->m_edgesNumFaces.end(), 2u);
                if (it2 != m->m_edgesNumFaces.end())
                {
                    UInt f = m->m_edgesFaces[it2 - m->m_edgesNumFaces.begin()][0];
                    fn.push_back(fn[f]), num.push_back(num[f]);
                    bool threw = false;
                    try
                    {
                        Mesh2D h(m->Edges(), m->Nodes(), fn, num, m->m_projection);
                        for (UInt e = 0; e < h.GetNumEdges(); ++e) threw = threw || h.m_edgesNumFaces[e] > 2;
                        threw = !threw;
                    }
                    catch (const MeshKernelError&)
                    {
                        threw = true;
                    }
                    check(threw, "given-faces-three", [&] { return cat("three faces on one edge accepted after ", how, ": ", ds(*m), ", face ", f, " given twice"); });
                }
            }
        }
    }
    return hx::done();
}
