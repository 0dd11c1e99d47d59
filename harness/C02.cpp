// Bounded stand-in / replay for C02: every mesh editing operation followed by undo / redo restores / repeats the mesh exactly.
#include "meshgen.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <MeshKernel/CasulliDeRefinement.hpp>
#include <MeshKernel/CasulliRefinement.hpp>
#include <MeshKernel/ConnectMeshes.hpp>
#include <MeshKernel/FlipEdges.hpp>
#include <MeshKernel/LandBoundaries.hpp>
#include <MeshKernel/MeshConversion.hpp>
#include <MeshKernel/MeshRefinement.hpp>
#include <MeshKernel/MeshTransformation.hpp>
#include <MeshKernel/OrthogonalizationAndSmoothing.hpp>
#include <MeshKernel/Orthogonalizer.hpp>
#include <MeshKernel/ProjectionConversions.hpp>
#include <MeshKernel/RemoveDisconnectedRegions.hpp>
#include <MeshKernel/SamplesHessianCalculator.hpp>
#include <MeshKernel/AveragingInterpolation.hpp>
#include <MeshKernel/AveragingStrategies/AveragingStrategyFactory.hpp>
#include <MeshKernel/Smoother.hpp>
#include <MeshKernel/SplitRowColumnOfMesh.hpp>
#include <MeshKernel/UndoActions/UndoActionStack.hpp>
using namespace meshkernel;
using namespace mg;
using hx::cat;

struct Op
{
    const char* name;
    bool tracked; // also exact for nodes that have no edge
    std::function<std::unique_ptr<UndoAction>(Mesh2D&, const Cfg&, std::string&)> f;
};
static std::unique_ptr<Polygons> poly(const Cfg& c, std::string& d)
{
    auto p = randpoly(c);
    for (auto& q : p) d += pt(q);
    return std::make_unique<Polygons>(p, c.proj);
}
static Point inside(const Cfg& c) { return {c.x0 + c.h * rndd() * (c.nx - 1), c.y0 + c.h * rndd() * (c.ny - 1)}; }
static std::vector<Op> ops()
{
    std::vector<Op> o;
    o.push_back({"InsertNode", true, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { Point p = inside(c); d = pt(p); auto [i, u] = m.InsertNode(p); return std::unique_ptr<UndoAction>(std::move(u)); }});
    o.push_back({"ConnectNodes", true, [](Mesh2D& m, const Cfg&, std::string& d)
                 { UInt a = validNode(m), b = validNode(m); d = cat(a, ",", b); if (a == b) return std::unique_ptr<UndoAction>();
                   auto [i, u] = m.ConnectNodes(a, b); return std::unique_ptr<UndoAction>(std::move(u)); }});
    o.push_back({"InsertNodeAndConnect", true, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { Point p = inside(c); UInt a = validNode(m); d = cat(pt(p), ",", a); auto k = CompoundUndoAction::Create();
                   auto [i, u] = m.InsertNode(p); k->Add(std::move(u)); auto [j, v] = m.ConnectNodes(i, a); k->Add(std::move(v)); return std::unique_ptr<UndoAction>(std::move(k)); }});
    o.push_back({"ResetNode", true, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { UInt a = validNode(m); Point p = inside(c); d = cat(a, pt(p)); return std::unique_ptr<UndoAction>(m.ResetNode(a, p)); }});
    o.push_back({"ResetEdge", true, [](Mesh2D& m, const Cfg&, std::string& d)
                 { UInt e = validEdge(m), a = validNode(m), b = validNode(m); d = cat(e, ":", a, ",", b); if (a == b) return std::unique_ptr<UndoAction>(); return std::unique_ptr<UndoAction>(m.ResetEdge(e, {a, b})); }});
    o.push_back({"DeleteEdge", true, [](Mesh2D& m, const Cfg&, std::string& d)
                 { UInt e = validEdge(m); d = cat(e); return std::unique_ptr<UndoAction>(m.DeleteEdge(e)); }});
    o.push_back({"DeleteNode", true, [](Mesh2D& m, const Cfg&, std::string& d)
                 { UInt e = validNode(m); d = cat(e); return std::unique_ptr<UndoAction>(m.DeleteNode(e)); }});
    o.push_back({"MoveNode", true, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { UInt a = validNode(m); Point p = m.Node(a); double r = hx::rnd(3) == 0 ? 0.05 : (hx::rnd(2) ? 1.2 : 4.0); p.x += c.h * r * (rndd() - 0.5); p.y += c.h * r * (rndd() - 0.5); d = cat(a, pt(p)); return m.MoveNode(p, a); }});
    o.push_back({"MergeTwoNodes", true, [](Mesh2D& m, const Cfg&, std::string& d)
                 { UInt a = validNode(m), b = validNode(m); if (hx::rnd(2)) { UInt e = validEdge(m); a = m.GetEdge(e).first; b = m.GetEdge(e).second; if (hx::rnd(2)) std::swap(a, b); } d = cat(a, ",", b); return m.MergeTwoNodes(a, b); }});
    o.push_back({"MergeNodesInPolygon", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { auto p = hx::rnd(2) ? poly(c, d) : std::make_unique<Polygons>(); double r = c.h * (hx::rnd(2) ? 0.1 : 1.3); d += cat(" distance ", r); return m.MergeNodesInPolygon(*p, c.proj == Projection::spherical ? r * 111000 : r); }});
    for (int opt = 0; opt < 3; ++opt)
        for (int inv = 0; inv < 2; ++inv)
            o.push_back({"DeleteMesh", false, [opt, inv](Mesh2D& m, const Cfg& c, std::string& d)
                         { auto p = hx::rnd(6) == 0 ? std::make_unique<Polygons>() : poly(c, d); d += cat(" option ", opt, " invert ", inv); return m.DeleteMesh(*p, (Mesh2D::DeleteMeshOptions)opt, inv); }});
    o.push_back({"DeleteHangingEdges", false, [](Mesh2D& m, const Cfg&, std::string&)
                 { return m.DeleteHangingEdges(); }});
    o.push_back({"DeleteSmallFlowEdges", false, [](Mesh2D& m, const Cfg&, std::string& d)
                 { double t = hx::rnd(2) ? 0.1 : 1.2; d = cat(t); return m.DeleteSmallFlowEdges(t); }});
    o.push_back({"DeleteSmallTriangles", false, [](Mesh2D& m, const Cfg&, std::string& d)
                 { double t = hx::rnd(2) ? 0.2 : 3.0; d = cat(t); return m.DeleteSmallTrianglesAtBoundaries(t); }});
    o.push_back({"DeleteDegeneratedTriangles", false, [](Mesh2D& m, const Cfg&, std::string&)
                 { return m.DeleteDegeneratedTriangles(); }});
    o.push_back({"TriangulateFaces", false, [](Mesh2D& m, const Cfg&, std::string&)
                 { return m.TriangulateFaces(); }});
    o.push_back({"FlipEdges", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { Polygons p; std::vector<Point> l; if (hx::rnd(2)) { l = {inside(c), inside(c), inside(c)}; for (auto& q : l) d += pt(q); }
                   LandBoundaries lb(l, m, p); bool t = hx::rnd(2), pr = !l.empty() && hx::rnd(2); d += cat(" triangulate ", t, " project ", pr); FlipEdges f(m, lb, t, pr); return f.Compute(); }});
    o.push_back({"RefinePolygon", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { auto p = hx::rnd(3) == 0 ? std::make_unique<Polygons>() : poly(c, d); MeshRefinementParameters q; q.max_num_refinement_iterations = 1 + hx::rnd(2); q.min_edge_size = c.h * 0.1; q.refine_intersected = hx::rnd(2); q.use_mass_center_when_refining = hx::rnd(2);
                   d += cat(" iterations ", q.max_num_refinement_iterations, " intersected ", q.refine_intersected, " masscenter ", q.use_mass_center_when_refining); MeshRefinement r(m, *p, q); return r.Compute(); }});
    o.push_back({"RefineSamples", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { std::vector<Sample> s; int n = 1 + hx::rnd(12); for (int i = 0; i < n; ++i) { Point p = inside(c); s.push_back({p.x, p.y, c.h * (0.1 + rndd())}); }
                   for (auto& q : s) d += cat("(", q.x, ",", q.y, ",", q.value, ")");
                   auto a = std::make_unique<AveragingInterpolation>(m, s, AveragingInterpolation::Method::MinAbsValue, Location::Faces, 1.0, false, false, 1);
                   MeshRefinementParameters q; q.max_num_refinement_iterations = 1; q.refinement_type = 2; q.min_edge_size = c.h * 0.1; q.connect_hanging_nodes = hx::rnd(2); d += cat(" hanging ", q.connect_hanging_nodes); MeshRefinement r(m, std::move(a), q); return r.Compute(); }});
    o.push_back({"Casulli", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { if (hx::rnd(2)) return CasulliRefinement::Compute(m); auto p = poly(c, d); return CasulliRefinement::Compute(m, *p); }});
    o.push_back({"CasulliDeRefinement", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { if (hx::rnd(2)) return CasulliDeRefinement::Compute(m); auto p = poly(c, d); return CasulliDeRefinement::Compute(m, *p); }});
    o.push_back({"SplitRowColumn", false, [](Mesh2D& m, const Cfg&, std::string& d)
                 { UInt e = validEdge(m); d = cat(e); SplitRowColumnOfMesh s; return s.Compute(m, e); }});
    o.push_back({"ConnectMeshes", false, [](Mesh2D& m, const Cfg&, std::string& d)
                 { double f = 0.1 + rndd() * 0.3; d = cat(f); return ConnectMeshes::Compute(m, f); }});
    o.push_back({"RemoveDisconnectedRegions", false, [](Mesh2D& m, const Cfg&, std::string&)
                 { RemoveDisconnectedRegions r; return r.Compute(m); }});
    o.push_back({"Orthogonalization", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { if (m.GetNumValidNodes() != m.GetNumNodes() || m.GetNumValidEdges() != m.GetNumEdges()) return std::unique_ptr<UndoAction>(); // the smoother expects a compact mesh
                   auto p = hx::rnd(2) ? poly(c, d) : std::make_unique<Polygons>(); OrthogonalizationParameters q; q.outer_iterations = 1; q.boundary_iterations = 2; q.inner_iterations = 2; q.orthogonalization_to_smoothing_factor = 0.5;
                   auto lb = std::make_unique<LandBoundaries>(std::vector<Point>{}, m, *p);
                   OrthogonalizationAndSmoothing o(m, std::make_unique<Smoother>(m), std::make_unique<Orthogonalizer>(m), std::move(p), std::move(lb), LandBoundaries::ProjectToLandBoundaryOption::DoNotProjectToLandBoundary, q);
                   auto u = o.Initialize(); o.Compute(); return u; }});
    o.push_back({"SnapToLandBoundary", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { Polygons p; double y = c.y0 - 0.1 * c.h; std::vector<Point> l{{c.x0 - c.h, y}, {c.x0 + c.h * c.nx * 0.5, y - 0.05 * c.h * rndd()}, {c.x0 + c.h * c.nx, y}}; for (auto& q : l) d += pt(q);
                   LandBoundaries lb(l, m, p); lb.FindNearestMeshBoundary(LandBoundaries::ProjectToLandBoundaryOption::WholeMesh); return lb.SnapMeshToLandBoundaries(); }});
    o.push_back({"Rotation", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { if (c.proj != Projection::cartesian) return std::unique_ptr<UndoAction>(); Rotation r(0.3 + rndd()); d = cat(r.angle()); return MeshTransformation::Compute(m, r); }});
    o.push_back({"Translation", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { if (c.proj != Projection::cartesian) return std::unique_ptr<UndoAction>(); Translation t(Vector(rndd(), rndd())); return MeshTransformation::Compute(m, t); }});
    o.push_back({"TranslateSome", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { std::vector<UInt> ix; for (UInt i = 0; i < m.GetNumNodes(); ++i) if (m.Node(i).IsValid()) ix.push_back(i);
                   for (size_t i = ix.size(); i > 1; --i) std::swap(ix[i - 1], ix[hx::rnd(static_cast<int>(i))]);
                   ix.resize(std::min<size_t>(ix.size(), 1 + hx::rnd(6))); for (auto i : ix) d += cat(i, " ");
                   auto u = NodeTranslationAction::Create(m, ix); for (auto i : ix) { Point p = m.Node(i); p.x += c.h * 0.2 * rndd(); p.y += c.h * 0.2 * rndd(); m.SetNode(i, p); }
                   return std::unique_ptr<UndoAction>(std::move(u)); }});
    o.push_back({"Conversion", false, [](Mesh2D& m, const Cfg& c, std::string&)
                 { if (c.proj != Projection::spherical) return std::unique_ptr<UndoAction>(); ConvertSphericalToCartesianEPSG<3857> k; return MeshConversion::Compute(m, k); }});
    o.push_back({"SphericalOffset", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { if (c.proj != Projection::spherical) return std::unique_ptr<UndoAction>(); double a = -180, b = 180; if (hx::rnd(2)) { a = 0; b = 360; } d = cat(a, ",", b); return std::unique_ptr<UndoAction>(m.OffsetSphericalCoordinates(a, b)); }});
    o.push_back({"Join", false, [](Mesh2D& m, const Cfg& c, std::string& d)
                 { Cfg k = c; k.kind = hx::rnd(3); k.nx = 2 + hx::rnd(3); k.ny = 2 + hx::rnd(3); k.x0 += c.h * (c.nx + 0.1); d = k.str(); auto o = make(k); o->m_projection = m.m_projection; return m.Join(*o); }});
    return o;
}

static std::unique_ptr<UndoAction> apply(const Op& op, Mesh2D& m, const Cfg& c, std::string& d, bool& threw)
{
    threw = false;
    // dry run in a child process: an operation that does not survive its input is not what this property is about
    std::fflush(stdout);
    if (pid_t p = fork(); p == 0)
    {
        alarm(20);
        freopen("/dev/null", "w", stdout);
        try
        {
            std::string x;
            auto u = op.f(m, c, x);
        }
        catch (...)
        {
        }
        _exit(0);
    }
    else
    {
        int w = 0;
        waitpid(p, &w, 0);
        if (!WIFEXITED(w))
        {
            std::printf("STAT operation_died 1\n");
            threw = true;
            return nullptr;
        }
    }
    try
    {
        return op.f(m, c, d);
    }
    catch (const std::exception&)
    {
        threw = true;
        return nullptr;
    }
}

// leave the mesh with some invalid slots
static void scar(Mesh2D& m, std::string& d)
{
    int n = hx::rnd(3);
    for (int i = 0; i < n; ++i)
    {
        if (m.GetNumValidEdges() < 8) break;
        if (hx::rnd(2))
        {
            UInt e = validEdge(m);
            [[maybe_unused]] auto u = m.DeleteEdge(e);
            d += cat(" delEdge ", e);
        }
        else
        {
            UInt e = validNode(m);
            [[maybe_unused]] auto u = m.DeleteNode(e);
            d += cat(" delNode ", e);
        }
        m.Administrate();
    }
}

int main()
{
    hx::init();
    auto all = ops();
    const int reps = hx::thorough() ? 300 : 30;
    for (const auto& op : all)
        for (int r = 0; r < reps; ++r)
        {
            Cfg c = randcfg();
            if (std::string(op.name) == "Conversion" || std::string(op.name) == "SphericalOffset")
            {
                c.proj = Projection::spherical;
                c.h = 0.1;
                if (hx::rnd(2)) c.x0 = std::string(op.name) == "SphericalOffset" ? 179.8 : c.x0;
            }
            auto m = make(c);
            std::string pre, d;
            scar(*m, pre);
            const auto s0 = snap(*m);
            uint64_t keep = hx::s;
            (void)keep;
            hx::kase(cat(op.name, " on ", c.str(), pre));
            bool threw;
            auto u = apply(op, *m, c, d, threw);
            if (threw || !u) continue;
            const auto s1 = snap(*m);
            auto what = [&]
            { return cat(op.name, " ", d, " on ", c.str(), pre); };
            hx::cover(op.name);
            hx::sample(what());
            std::string x = diff(s0, s1, true);
            if (!x.empty()) hx::shape(cat(op.name, c.str(), d));
            for (int k = 0; k < 3; ++k)
            {
                u->Restore();
                auto e = diff(s0, snap(*m), op.tracked);
                if (!hx::check(e.empty(), cat(op.name, "-undo"), [&]
                               { return cat(what(), ": after undo ", e); })) break;
                if (k == 1) m->Administrate();
                u->Commit();
                e = diff(s1, snap(*m), op.tracked);
                if (!hx::check(e.empty(), cat(op.name, "-redo"), [&]
                               { return cat(what(), ": after redo ", e); })) break;
            }
        }
    // an edit that leaves a node without edges, then administration outside the edit, then undo
    {
        Cfg c{0, 3, 3, 0.0, 1.0, 0.0, 0.0, Projection::cartesian};
        auto m = make(c);
        const auto s0 = snap(*m);
        std::vector<std::unique_ptr<UndoAction>> us;
        for (UInt e = 0; e < m->GetNumEdges(); ++e)
            if (m->GetEdge(e).first == 0 || m->GetEdge(e).second == 0) us.push_back(m->DeleteEdge(e));
        m->Administrate();
        while (!us.empty())
        {
            us.back()->Restore();
            us.pop_back();
        }
        auto e = diff(s0, snap(*m), false);
        hx::check(e.empty(), "isolated-node-administrated", [&]
                  { return cat("both edges of corner node 0 of a 3x3 mesh deleted, mesh administrated, deletions undone: ", e); });
    }
    // histories: administration outside the edits happens while every valid node has an edge
    auto isolated = [](const Snap& s)
    {
        std::vector<char> con(s.n.size(), 0);
        for (UInt i = 0; i < s.e.size(); ++i)
        {
            if (ve(s, i)) con[s.e[i].first] = con[s.e[i].second] = 1;
            else if (s.e[i].first != NA || s.e[i].second != NA) return true; // an edge of a deleted node (possible with duplicate edges)
        }
        for (size_t i = 0; i < s.n.size(); ++i)
            if (vp(s.n[i]) && !con[i]) return true;
        return false;
    };
    const int nh = hx::thorough() ? 20000 : 2000;
    for (int h = 0; h < nh; ++h)
    {
        Cfg c = randcfg(5);
        auto m = make(c);
        std::vector<Snap> s{snap(*m)};
        std::vector<std::unique_ptr<UndoAction>> us;
        std::string d;
        bool dead = false;
        int len = 2 + hx::rnd(6);
        for (int i = 0; i < len && !dead; ++i)
        {
            if (m->GetNumValidEdges() < 6 || m->GetNumNodes() > 400 || m->m_projection != c.proj) break;
            const auto& op = all[hx::rnd((int)all.size())];
            if (std::string(op.name) == "Orthogonalization" || std::string(op.name) == "CasulliDeRefinement" || std::string(op.name) == "SplitRowColumn") continue; // need a mesh without hanging edges
            std::string a;
            hx::kase(cat("history on ", c.str(), d, "; ", op.name));
            auto u = apply(op, *m, c, a, dead);
            if (dead) break;
            if (!u) continue;
            d += cat("; ", op.name, " ", a);
            us.push_back(std::move(u));
            s.push_back(snap(*m));
            if (isolated(s.back())) break;
            m->Administrate();
            s.back() = snap(*m);
        }
        if (us.empty() || dead) continue;
        hx::shape(c.str() + d);
        bool ok = true;
        int pos = (int)us.size();
        auto go = [&](int to)
        {
            while (ok && pos != to)
            {
                bool back = pos > to;
                if (back) us[--pos]->Restore();
                else us[pos++]->Commit();
                auto e = diff(s[pos], snap(*m), false);
                ok = hx::check(e.empty(), back ? "history-undo" : "history-redo", [&]
                               { return cat(c.str(), d, ": at position ", pos, " ", e); });
            }
        };
        go(0);
        go((int)us.size());
        for (int t = 0; t < 4; ++t) go(hx::rnd((int)us.size() + 1));
    }
    return hx::done();
}
