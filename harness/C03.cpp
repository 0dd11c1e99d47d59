// Bounded stand-in / replay for C03: every edit of a curvilinear grid followed by undo / redo restores / repeats the grid exactly
// and an undone edit leaves no trace in later edits.
#include "hx.hpp"
#include <cstring>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
#include <MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridDeRefinement.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridDeleteExterior.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridDeleteInterior.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridFullRefinement.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridLineAttractionRepulsion.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridLineMirror.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridLineShift.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridOrthogonalization.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridRefinement.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridSmoothing.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridSnapGridToLandBoundary.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridSnapGridToSpline.hpp>
#include <MeshKernel/LandBoundary.hpp>
#include <MeshKernel/Splines.hpp>
using namespace meshkernel;
using hx::cat;
using hx::rnd;
using hx::rndd;

struct Snap
{
    UInt n = 0, m = 0;
    std::vector<Point> p;
};
static Snap snap(const CurvilinearGrid& g)
{
    Snap s{g.NumN(), g.NumM(), {}};
    for (UInt i = 0; i < s.n; ++i)
        for (UInt j = 0; j < s.m; ++j) s.p.push_back(g.GetNode(i, j));
    return s;
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
// the algorithms can give not-a-number coordinates (e.g. on degenerate grids): such grids are outside the property
static bool finite(const Snap& s)
{
    for (auto& p : s.p)
        if (!std::isfinite(p.x) || !std::isfinite(p.y)) return false;
    return true;
}
static std::string diff(const Snap& a, const Snap& b)
{
    if (a.n != b.n || a.m != b.m) return cat("size ", b.n, "x", b.m, " instead of ", a.n, "x", a.m);
    for (size_t k = 0; k < a.p.size(); ++k)
        if (!same(a.p[k].x, b.p[k].x) || !same(a.p[k].y, b.p[k].y))
            return cat("node (", k / a.m, ",", k % a.m, ") is (", b.p[k].x, ",", b.p[k].y, ") instead of (", a.p[k].x, ",", a.p[k].y, ")");
    return "";
}
struct Cfg
{
    UInt n, m;
    double h, skew;
    Projection proj;
    std::vector<std::pair<UInt, UInt>> holes;
    std::string str() const
    {
        std::string r = cat(n, "x", m, " h=", h, " skew=", skew, proj == Projection::cartesian ? " cartesian" : " spherical");
        for (auto& [a, b] : holes) r += cat(" hole(", a, ",", b, ")");
        return r;
    }
};
static Cfg randcfg()
{
    Cfg c{(UInt)(3 + rnd(5)), (UInt)(3 + rnd(5)), rnd(2) ? 10.0 : 1.0, rnd(2) ? 0.0 : 0.2, rnd(4) ? Projection::cartesian : Projection::spherical, {}};
    if (c.proj == Projection::spherical) c.h = 0.1;
    if (rnd(3) == 0)
        for (int k = 1 + rnd(3); k > 0; --k) c.holes.push_back({(UInt)rnd((int)c.n), (UInt)rnd((int)c.m)});
    return c;
}
static lin_alg::Matrix<Point> nodes(const Cfg& c)
{
    lin_alg::Matrix<Point> g(c.n, c.m);
    for (UInt i = 0; i < c.n; ++i)
        for (UInt j = 0; j < c.m; ++j)
            g(i, j) = {1.0 + c.h * j + c.skew * c.h * std::sin(1.7 * i + 0.3 * j), 2.0 + c.h * i + c.skew * c.h * std::sin(2.1 * j + 0.9 * i)};
    for (auto& [a, b] : c.holes) g(a, b).SetInvalid();
    return g;
}
static std::unique_ptr<CurvilinearGrid> make(const Cfg& c)
{
    auto g = std::make_unique<CurvilinearGrid>(nodes(c), c.proj);
    g->ComputeGridNodeTypes(); // nodes of no face are dropped
    return g;
}
static std::unique_ptr<CurvilinearGrid> make(const Snap& s, Projection p)
{
    lin_alg::Matrix<Point> g(s.n, s.m);
    for (UInt k = 0; k < s.p.size(); ++k) g(k / s.m, k % s.m) = s.p[k];
    auto r = std::make_unique<CurvilinearGrid>(g, p);
    r->ComputeGridNodeTypes();
    return r;
}
using Args = std::vector<int>; // random numbers the operation uses, so that it can be repeated on another grid
struct Rnd
{
    Args a;
    size_t k = 0;
    int operator()(int n)
    {
        if (k == a.size()) a.push_back(rnd(1 << 20));
        return a[k++] % n;
    }
};
struct Op
{
    const char* name;
    std::function<UndoActionPtr(CurvilinearGrid&, double h, Rnd&, std::string&)> f;
};
using Id = CurvilinearGridNodeIndices;
static std::string s(const Id& i) { return cat("(", i.m_n, ",", i.m_m, ")"); }
static Id node(CurvilinearGrid& g, Rnd& r, bool boundary = false)
{
    Id i{(UInt)r((int)g.NumN()), (UInt)r((int)g.NumM())};
    if (boundary)
    {
        int k = r(4);
        if (k == 0) i.m_n = 0;
        if (k == 1) i.m_n = g.NumN() - 1;
        if (k == 2) i.m_m = 0;
        if (k == 3) i.m_m = g.NumM() - 1;
    }
    for (int t = 0; t < 40 && !g.GetNode(i).IsValid(); ++t)
    {
        i.m_m = (i.m_m + 1) % g.NumM();
        if (i.m_m == 0) i.m_n = (i.m_n + 1) % g.NumN();
    }
    return i;
}
static Point at(CurvilinearGrid& g, const Id& i) { return static_cast<const CurvilinearGrid&>(g).GetNode(i); }
static void block(CurvilinearGridAlgorithm& a, CurvilinearGrid& g, Rnd& r, std::string& d)
{
    Id p = node(g, r), q = node(g, r);
    d += " block " + s(p) + s(q);
    a.SetBlock(at(g, p), at(g, q));
}
// two valid nodes on a grid line
static std::pair<Id, Id> line(CurvilinearGrid& g, Rnd& r, bool boundary)
{
    Id p = node(g, r, boundary), q = p;
    const CurvilinearGrid& c = g;
    bool along = r(2);
    if (boundary) along = (p.m_n == 0 || p.m_n == g.NumN() - 1) ? ((p.m_m == 0 || p.m_m == g.NumM() - 1) ? along : true) : false;
    int steps = 1 + r(6);
    while (steps-- > 0)
    {
        Id t = q;
        if (along) ++t.m_m;
        else ++t.m_n;
        if (t.m_m >= g.NumM() || t.m_n >= g.NumN() || !c.GetNode(t).IsValid()) break;
        q = t;
    }
    if (q == p)
    {
        if (along && p.m_m > 0) --p.m_m;
        else if (!along && p.m_n > 0) --p.m_n;
    }
    return {p, q};
}
static std::vector<Op> ops()
{
    std::vector<Op> o;
    o.push_back({"MoveNode", [](CurvilinearGrid& g, double h, Rnd& r, std::string& d)
                 { Id i = node(g, r); Point p = at(g, i); Point q{p.x + h * (r(100) / 100.0 - 0.5), p.y + h * (r(100) / 100.0 - 0.5)}; d = s(i); return r(2) ? g.MoveNode(p, q) : g.MoveNode(i, q); }});
    o.push_back({"DeleteNode", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { Id i = node(g, r, r(2)); d = s(i); return g.DeleteNode(at(g, i)); }});
    o.push_back({"InsertFace", [](CurvilinearGrid& g, double h, Rnd& r, std::string& d)
                 { auto [p, q] = line(g, r, r(4) > 0); Point a = at(g, p), b = at(g, q); int k = r(4); static const double ox[] = {-1, 1, 0, 0}, oy[] = {0, 0, -1, 1};
                   Point c{0.5 * (a.x + b.x) + 0.1 * h * ox[k], 0.5 * (a.y + b.y) + 0.1 * h * oy[k]}; d = cat(s(p), s(q), " at (", c.x, ",", c.y, ")"); return g.InsertFace(c); }});
    o.push_back({"LineMirror", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { CurvilinearGridLineMirror a(g, 1.2); auto [p, q] = line(g, r, r(5) > 0); d = s(p) + s(q); a.SetLine(at(g, p), at(g, q)); return a.Compute(); }});
    o.push_back({"DeleteInterior", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { CurvilinearGridDeleteInterior a(g); block(a, g, r, d); return a.Compute(); }});
    o.push_back({"DeleteExterior", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { CurvilinearGridDeleteExterior a(g); block(a, g, r, d); return a.Compute(); }});
    o.push_back({"LineShift", [](CurvilinearGrid& g, double h, Rnd& r, std::string& d)
                 { CurvilinearGridLineShift a(g); auto [p, q] = line(g, r, false); d = s(p) + s(q); a.SetLine(at(g, p), at(g, q)); block(a, g, r, d);
                   Id i = r(2) ? p : q; Point f = at(g, i); Point t{f.x + 0.3 * h * (r(100) / 100.0 - 0.5), f.y + 0.3 * h}; d += " move " + s(i); return a.Compute(f, t); }});
    o.push_back({"LineAttraction", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { CurvilinearGridLineAttractionRepulsion a(g, r(2) ? 0.3 : -0.2); auto [p, q] = line(g, r, false); d = s(p) + s(q); a.SetLine(at(g, p), at(g, q)); block(a, g, r, d); return a.Compute(); }});
    o.push_back({"Smoothing", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { CurvilinearGridSmoothing a(g, (UInt)(1 + r(3))); block(a, g, r, d); return a.Compute(); }});
    o.push_back({"Orthogonalization", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { OrthogonalizationParameters p; p.outer_iterations = 1 + r(2); p.boundary_iterations = 1 + r(2); p.inner_iterations = 1 + r(3); p.orthogonalization_to_smoothing_factor = 0.975; CurvilinearGridOrthogonalization a(g, p); block(a, g, r, d); return a.Compute(); }});
    o.push_back({"Refinement", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { CurvilinearGridRefinement a(g, (UInt)(2 + r(2))); auto [p, q] = line(g, r, false); d = s(p) + s(q); a.SetBlock(at(g, p), at(g, q)); return a.Compute(); }});
    o.push_back({"DeRefinement", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { CurvilinearGridDeRefinement a(g); auto [p, q] = line(g, r, false); d = s(p) + s(q); a.SetBlock(at(g, p), at(g, q)); return a.Compute(); }});
    o.push_back({"FullRefinement", [](CurvilinearGrid& g, double, Rnd& r, std::string& d)
                 { CurvilinearGridFullRefinement a; int x = 1 + r(3), y = 1 + r(3); d = cat(x, "x", y); return a.Compute(g, x, y); }});
    o.push_back({"SnapLandBoundary", [](CurvilinearGrid& g, double h, Rnd& r, std::string& d)
                 { auto [p, q] = line(g, r, false); Point a = at(g, p), b = at(g, q); d = s(p) + s(q);
                   LandBoundary l({{a.x - h, a.y + 0.3 * h}, {0.5 * (a.x + b.x), 0.5 * (a.y + b.y) + 0.4 * h}, {b.x + h, b.y + 0.2 * h}});
                   std::vector<Point> c{a, b}; if (r(2)) { Id t = node(g, r); d += s(t); c.push_back(at(g, t)); }
                   CurvilinearGridSnapGridToLandBoundary x(g, l, c); return x.Compute(); }});
    o.push_back({"SnapSpline", [](CurvilinearGrid& g, double h, Rnd& r, std::string& d)
                 { auto [p, q] = line(g, r, false); Point a = at(g, p), b = at(g, q); d = s(p) + s(q); Splines l(g.projection());
                   std::vector<Point> k{{a.x - h, a.y + 0.3 * h}, {0.5 * (a.x + b.x), 0.5 * (a.y + b.y) + 0.4 * h}, {b.x + h, b.y + 0.2 * h}}; l.AddSpline(k);
                   CurvilinearGridSnapGridToSpline x(g, l, {a, b}); return x.Compute(); }});
    return o;
}
// run the operation in a child first: a crash or hang of the operation itself is not a question of undo
static bool survives(const std::function<void()>& f)
{
    std::fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        alarm(10);
        if (!freopen("/dev/null", "w", stdout)) _exit(3);
        try { f(); }
        catch (...) { _exit(1); }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static UndoActionPtr apply(const Op& op, CurvilinearGrid& g, double h, Rnd& r, std::string& d)
{
    Rnd keep = r;
    std::string t;
    // generate the numbers in the parent: they must be the same in the child
    for (int i = 0; i < 60; ++i) r(7);
    r.k = keep.k;
    Rnd c = r;
    if (!survives([&] { std::string q; auto u = op.f(g, h, c, q); if (!u) _exit(1); })) return nullptr;
    return op.f(g, h, r, d);
}
// administration drops nodes that belong to no face: compare after it
static Snap admin(CurvilinearGrid& g)
{
    g.ComputeGridNodeTypes();
    return snap(g);
}
int main()
{
    hx::init();
    auto all = ops();
    const int reps = hx::thorough() ? 600 : 60;
    for (const auto& op : all)
        for (int k = 0; k < reps; ++k)
        {
            Cfg c = randcfg();
            auto g = make(c);
            const auto s0 = snap(*g);
            Rnd r;
            std::string d;
            hx::kase(cat(op.name, " on ", c.str()));
            auto u = apply(op, *g, c.h, r, d);
            if (!u) continue;
            hx::cover(op.name);
            const auto s1 = admin(*g);
            if (!finite(s1)) continue;
            auto what = [&] { return cat(op.name, " ", d, " on ", c.str()); };
            hx::kase(what());
            hx::sample(what());
            if (!diff(s0, s1).empty()) hx::shape(what());
            bool ok = true;
            for (int t = 0; t < 3 && ok; ++t)
            {
                u->Restore();
                auto e = diff(s0, admin(*g));
                ok = hx::check(e.empty(), cat(op.name, "-undo"), [&] { return cat(what(), ": after undo ", e); });
                if (!ok) break;
                u->Commit();
                e = diff(s1, admin(*g));
                ok = hx::check(e.empty(), cat(op.name, "-redo"), [&] { return cat(what(), ": after redo ", e); });
            }
            if (!ok) continue;
            // no trace: another edit after the undo gives the same as on a grid that never had this one
            u->Restore();
            const auto& op2 = all[rnd((int)all.size())];
            auto f = make(s0, c.proj);
            Rnd r2;
            std::string d2, d3;
            hx::kase(cat(op.name, " ", d, " undone, then ", op2.name, " on ", c.str()));
            auto u2 = apply(op2, *f, c.h, r2, d2);
            if (!u2 || !finite(admin(*f))) continue;
            r2.k = 0;
            auto v2 = survives([&] { Rnd x = r2; std::string y; if (!op2.f(*g, c.h, x, y)) _exit(1); }) ? op2.f(*g, c.h, r2, d3) : nullptr;
            std::string e = v2 ? diff(admin(*f), admin(*g)) : "it is refused or crashes";
            hx::check(e.empty(), cat(op2.name, "-after-undo"), [&] { return cat(what(), ", undone, then ", op2.name, " ", d2, ": ", e); });
        }
    // histories
    const int nh = hx::thorough() ? 10000 : 700;
    for (int h = 0; h < nh; ++h)
    {
        Cfg c = randcfg();
        auto g = make(c);
        std::vector<Snap> sn{snap(*g)};
        std::vector<UndoActionPtr> us;
        std::string d;
        int len = 2 + rnd(5);
        for (int i = 0; i < len; ++i)
        {
            if (g->NumN() < 3 || g->NumM() < 3 || g->NumN() * g->NumM() > 400) break;
            int valid = 0;
            for (auto& p : sn.back().p) valid += p.IsValid();
            if (valid < 6) break;
            if (rnd(4) == 0 && !us.empty())
            { // drop an undone edit from the history
                us.back()->Restore();
                us.pop_back();
                sn.pop_back();
                auto e = diff(sn.back(), admin(*g));
                d += "; undo";
                if (!hx::check(e.empty(), "history-undo", [&] { return cat(c.str(), d, ": ", e); })) break;
                continue;
            }
            const auto& op = all[rnd((int)all.size())];
            Rnd r;
            std::string a;
            hx::kase(cat("history on ", c.str(), d, "; ", op.name));
            auto u = apply(op, *g, c.h, r, a);
            if (!u) continue;
            d += cat("; ", op.name, " ", a);
            us.push_back(std::move(u));
            sn.push_back(admin(*g));
            if (!finite(sn.back())) break;
        }
        if (us.empty() || !finite(sn.back())) continue;
        hx::shape(c.str() + d);
        bool ok = true;
        int pos = (int)us.size();
        auto go = [&](int to)
        {
            while (ok && pos != to)
            {
                bool back = pos > to;
                hx::kase(cat("walk on ", c.str(), d, "; to position ", to));
                if (back) us[--pos]->Restore();
                else us[pos++]->Commit();
                auto e = diff(sn[pos], admin(*g));
                ok = hx::check(e.empty(), back ? "history-undo" : "history-redo", [&] { return cat(c.str(), d, ": at position ", pos, " ", e); });
            }
        };
        go(0);
        go((int)us.size());
        for (int t = 0; t < 3; ++t) go(rnd((int)us.size() + 1));
    }
    return hx::done();
}
