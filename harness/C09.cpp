// C09: boxes around points, samples, slices, meshes, mesh edges, land boundaries, splines and polygons, against the definition
#include "meshgen.hpp"
#include <MeshKernel/BoundingBox.hpp>
#include <MeshKernel/Entities.hpp>
#include <MeshKernel/LandBoundary.hpp>
#include <MeshKernel/Splines.hpp>
#include <MeshKernel/Polygon.hpp>
#include <MeshKernel/Polygons.hpp>
using namespace meshkernel;
using namespace mg;
using hx::check;
static const double MX = std::numeric_limits<double>::max();
template <typename T>
static std::string dsc(const std::vector<T>& p)
{
    std::string r = "points";
    for (size_t i = 0; i < p.size() && i < 40; ++i) r += " " + cat("(", p[i].x, ",", p[i].y, ")");
    return r;
}
static std::string bs(const BoundingBox& b) { return cat("box [", b.lowerLeft().x, ",", b.upperRight().x, "]x[", b.lowerLeft().y, ",", b.upperRight().y, "]"); }
static bool eqb(const BoundingBox& b, double a, double c, double d, double e) { return b.lowerLeft().x == a && b.upperRight().x == c && b.lowerLeft().y == d && b.upperRight().y == e; }
template <typename T>
static void expect(const char* what, const BoundingBox& b, const std::vector<T>& p, size_t lo, size_t hi) // [lo,hi)
{
    double a = MX, c = -MX, d = MX, e = -MX;
    bool any = false;
    for (size_t i = lo; i < hi; ++i)
        if (vp({p[i].x, p[i].y})) any = true, a = std::min(a, p[i].x), c = std::max(c, p[i].x), d = std::min(d, p[i].y), e = std::max(e, p[i].y);
    (void)any;
    check(eqb(b, a, c, d, e), what, [&] { return cat(what, " ", lo, "..", hi, " of ", dsc(p), " gives ", bs(b)); });
    for (size_t i = lo; i < hi; ++i)
        if (vp({p[i].x, p[i].y})) check(b.Contains(p[i]), cat(what, "-contains"), [&] { return cat("point ", i, " of ", dsc(p), " not contained in ", bs(b)); });
}
static double coord(int s)
{
    switch (s)
    {
    case 0: return rnd(5) - 2;
    case 1: return -5.0 - rndd() * 10; // all negative
    case 2: return 1e6 * rndd();
    case 3: return -1e7 + rndd();
    case 4: return rndd() < 0.5 ? 1e-300 * rndd() : -1e-300;
    case 5: return -999.0 + (rnd(3) - 1) * 2.0; // values near the missing value
    default: return (rndd() - 0.5) * 1e12;
    }
}
static std::vector<Point> pts(int n, bool inv)
{
    int s = rnd(7), t = rnd(7);
    std::vector<Point> p;
    for (int i = 0; i < n; ++i)
    {
        Point q{coord(s), coord(t)};
        if (inv && rnd(3) == 0) q = {constants::missing::doubleValue, constants::missing::doubleValue};
        p.push_back(q);
    }
    return p;
}
int main()
{
    hx::init();
    const int N = hx::thorough() ? 60000 : 6000;
    for (int it = 0; it < N; ++it)
    {
        auto p = pts(rnd(9), rnd(2));
        hx::shape(dsc(p));
        if (it < 3) hx::sample(dsc(p));
        BoundingBox b(p);
        if (p.empty()) check(eqb(b, -MX, MX, -MX, MX), "empty", [&] { return "no points give " + bs(b); });
        else expect("points", b, p, 0, p.size());
        std::vector<Sample> s;
        for (auto& q : p) s.push_back({q.x, q.y, 1.0});
        if (!s.empty()) expect("samples", BoundingBox(s), s, 0, s.size());
        BoundingBox r({1, 2}, {3, 4});
        r.Reset(p);
        check(!(r != b), "reset", [&] { return "Reset of an old box differs from a new one for " + dsc(p); });
        if (!p.empty())
        {
            size_t lo = rnd((int)p.size()), hi = lo + rnd((int)(p.size() - lo));
            expect("slice", BoundingBox(p, lo, hi), p, lo, hi + 1);
            LandBoundary lb(p);
            expect("land-boundary", lb.GetBoundingBox(), lb.GetNodes(), 0, lb.GetNodes().size());
            expect("land-boundary-part", lb.GetBoundingBox(lo, hi), lb.GetNodes(), lo, hi + 1);
        }
        // two boxes
        auto q = pts(1 + rnd(4), false);
        auto q2 = pts(1 + rnd(4), false);
        if (rnd(2)) q2[0] = q[rnd((int)q.size())]; // touching
        BoundingBox a1(q), a2(q2);
        std::vector<Point> all(q);
        all.insert(all.end(), q2.begin(), q2.end());
        expect("merge", Merge(a1, a2), all, 0, all.size());
        bool ov = a1.lowerLeft().x <= a2.upperRight().x && a2.lowerLeft().x <= a1.upperRight().x && a1.lowerLeft().y <= a2.upperRight().y && a2.lowerLeft().y <= a1.upperRight().y;
        check(a1.Overlaps(a2) == ov && a2.Overlaps(a1) == ov, "overlap", [&] { return bs(a1) + " and " + bs(a2) + " overlap is not " + (ov ? "true" : "false"); });
        Point x{coord(rnd(7)), coord(rnd(7))};
        if (rnd(2)) x = all[rnd((int)all.size())];
        bool in = x.x >= a1.lowerLeft().x && x.x <= a1.upperRight().x && x.y >= a1.lowerLeft().y && x.y <= a1.upperRight().y;
        check(a1.Contains(x) == in, "contains", [&] { return bs(a1) + " contains " + pt(x); });
        std::vector<Point> two{all[0], x};
        if (vp(two[0]) && vp(two[1])) expect("two-points", BoundingBox::CreateBoundingBox(two[0], two[1]), two, 0, 2);
        check(!CreateNonOverlappingBoundingBox().Overlaps(a1) && !a1.Overlaps(CreateNonOverlappingBoundingBox()), "nothing", [&] { return "the empty box overlaps " + bs(a1); });
        // splines
        if (it % 4 == 0)
        {
            Splines sp(Projection::cartesian);
            sp.AddSpline(q);
            sp.AddSpline(q2);
            expect("spline", sp.GetBoundingBox(0), q, 0, q.size());
            expect("spline", sp.GetBoundingBox(1), q2, 0, q2.size());
            // polygons: closed, valid points
            auto ring = pts(3 + rnd(4), false);
            bool ok = true;
            for (auto& z : ring) ok = ok && vp(z) && std::abs(z.x + 999) > 1 && std::abs(z.y + 999) > 1;
            if (ok)
            {
                ring.push_back(ring[0]);
                try
                {
                    Polygon pg(ring, Projection::cartesian);
                    expect("polygon", pg.GetBoundingBox(), pg.Nodes(), 0, pg.Nodes().size());
                    Polygon cp(pg), as;
                    as = pg;
                    expect("polygon-copy", cp.GetBoundingBox(), cp.Nodes(), 0, cp.Nodes().size());
                    expect("polygon-assign", as.GetBoundingBox(), as.Nodes(), 0, as.Nodes().size());
                    auto lbp = pts(2 + rnd(3), false);
                    LandBoundary lb(lbp);
                    pg.SnapToLandBoundary(rnd((int)ring.size()), rnd((int)ring.size()), lb);
                    expect("polygon-snapped", pg.GetBoundingBox(), pg.Nodes(), 0, pg.Nodes().size());
                    pg.Reset(ring, Projection::cartesian);
                    expect("polygon-reset", pg.GetBoundingBox(), ring, 0, ring.size());
                    Polygons pgs(ring, Projection::cartesian);
                    expect("polygons", pgs.GetBoundingBox(0), ring, 0, ring.size());
                }
                catch (const MeshKernelError&)
                {
                }
            }
        }
        if (it % 10 == 0)
        {
            auto c = randcfg(5, false);
            c.x0 -= rnd(2) * 1000.5;
            c.y0 -= rnd(2) * 1000.5;
            auto m = make(c);
            for (int k = rnd(4); k > 0; --k)
            {
                UInt n = validNode(*m);
                if (n != NA) [[maybe_unused]] auto u = m->DeleteNode(n);
            }
            for (int k = rnd(4); k > 0; --k)
            {
                UInt n = validEdge(*m);
                if (n != NA) [[maybe_unused]] auto u = m->DeleteEdge(n);
            }
            expect("mesh", m->GetBoundingBox(), m->Nodes(), 0, m->Nodes().size());
            auto bx = m->GetEdgesBoundingBoxes();
            if (check(bx.size() == m->Edges().size(), "edge-count", [&] { return cat(bx.size(), " boxes for ", m->Edges().size(), " edges of ", c.str()); }))
                for (size_t i = 0; i < bx.size(); ++i)
                {
                    auto [u, v] = m->Edges()[i];
                    if (u == NA || v == NA) check(eqb(bx[i], MX, -MX, MX, -MX), "invalid-edge", [&] { return cat("invalid edge ", i, " of ", c.str(), " has ", bs(bx[i])); });
                    else
                    {
                        std::vector<Point> ends{m->Nodes()[u], m->Nodes()[v]};
                        if (vp(ends[0]) && vp(ends[1])) expect("edge", bx[i], ends, 0, 2);
                    }
                }
        }
    }
    return hx::done();
}
