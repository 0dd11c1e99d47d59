// C13: lists of points with separators against a direct splitting
#include "meshgen.hpp"
#include <MeshKernel/LandBoundary.hpp>
#include <MeshKernel/Operations.hpp>
#include <MeshKernel/Polygons.hpp>
#include <MeshKernel/Splines.hpp>
#include <MeshKernelApi/GeometryList.hpp>
#include <MeshKernelApi/GriddedSamples.hpp>
#include <MeshKernelApi/CurvilinearGrid.hpp>
#include <MeshKernelApi/MeshKernel.hpp>
#include <MeshKernelApi/State.hpp>
namespace meshkernelapi { using namespace meshkernel::constants; } // Utils.hpp is not self-contained
#include <MeshKernelApi/Utils.hpp>
using namespace meshkernel;
using hx::cat;
using hx::check;
using hx::rnd;
using hx::rndd;
typedef std::vector<Point> Pts;
static const double MV = constants::missing::doubleValue, IN = constants::missing::innerOuterSeparator;
static std::string d(const Pts& p)
{
    std::string s = cat(p.size(), " points");
    for (size_t i = 0; i < p.size() && i < 40; ++i) s += cat(" (", p[i].x, ",", p[i].y, ")");
    return s;
}
static bool same(const Pts& a, const Pts& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i].x != b[i].x || a[i].y != b[i].y) return false;
    return true;
}
// the non-empty pieces between separators
static std::vector<Pts> split(const Pts& p, double sep)
{
    std::vector<Pts> r(1);
    for (auto& q : p)
        if (q.x == sep) r.emplace_back();
        else r.back().push_back(q);
    std::erase_if(r, [](const Pts& x) { return x.empty(); });
    return r;
}
static Pts ring(int n, double cx, double cy, double r)
{
    Pts p;
    for (int i = 0; i < n; ++i) p.push_back({cx + r * std::cos(2 * M_PI * i / n), cy + r * std::sin(2 * M_PI * i / n)});
    p.push_back(p[0]);
    return p;
}
static void add(Pts& l, const Pts& p) { l.insert(l.end(), p.begin(), p.end()); }
struct Geo
{
    std::vector<double> x, y, v;
    meshkernelapi::GeometryList g;
    Geo(const Pts& p)
    {
        for (auto& q : p) x.push_back(q.x), y.push_back(q.y), v.push_back(rndd());
        g.num_coordinates = (int)p.size();
        g.coordinates_x = x.data();
        g.coordinates_y = y.data();
        g.values = v.data();
    }
};
int main()
{
    hx::init();
    const bool th = hx::thorough();
    for (int it = 0; it < (th ? 40000 : 8000); ++it)
    {
        Pts p;
        double sep = rnd(3) ? MV : rnd(2) ? IN : 7.5;
        int n = rnd(12);
        for (int i = 0; i < n; ++i) p.push_back(rnd(3) == 0 ? Point{sep, sep} : Point{(double)rnd(5), rndd()});
        auto parts = split(p, sep);
        hx::shape(d(p));
        auto idx = FindIndices(p, 0, p.size(), sep);
        if (check(idx.size() == parts.size(), "runs-number", [&] { return cat(idx.size(), " runs of ", d(p)); }))
            for (size_t i = 0; i < idx.size(); ++i)
                check(idx[i].second < p.size() && idx[i].first <= idx[i].second && same(parts[i], Pts(p.begin() + idx[i].first, p.begin() + idx[i].second + 1)) && (i == 0 || idx[i - 1].second < idx[i].first), "runs", [&] { return cat("run ", i, " = ", idx[i].first, "..", idx[i].second, " of ", d(p)); });
        if (n > 0)
        {
            size_t st = rnd(n);
            auto tail = split(Pts(p.begin() + st, p.end()), sep);
            auto ix = FindIndices(p, st, p.size(), sep);
            bool k = ix.size() == tail.size();
            for (size_t i = 0; k && i < ix.size(); ++i) k = ix[i].first >= st && ix[i].first <= ix[i].second && ix[i].second < p.size() && same(tail[i], Pts(p.begin() + ix[i].first, p.begin() + ix[i].second + 1));
            check(k, "runs-from", [&] { return cat(ix.size(), " runs from ", st, " of ", d(p)); });
        }
        if (sep == MV)
        {
            LandBoundary lb(p);
            check(lb.FindPolylineIndices() == idx, "land-boundary-runs", [&] { return d(p); });
            check(same(lb.GetNodes(), p), "land-boundary-nodes", [&] { return d(p); });
        }
        Geo g(p);
        g.g.geometry_separator = sep;
        auto ch = meshkernelapi::ConvertGeometryListToVectorOfPointVectors(g.g);
        Pts back;
        for (size_t i = 0; i < ch.size(); ++i)
        {
            add(back, ch[i]);
            if (back.size() < p.size()) back.push_back({sep, sep});
        }
        check(same(back, p), "parts", [&] { return cat(ch.size(), " parts of ", d(p)); });
        std::vector<double> vx;
        for (auto& q : p) vx.push_back(q.x);
        auto vv = meshkernelapi::ConvertVectorToVectorOfVectors(vx, sep);
        std::vector<double> vb;
        for (auto& c : vv)
        {
            vb.insert(vb.end(), c.begin(), c.end());
            if (vb.size() < vx.size()) vb.push_back(sep);
        }
        check(vb == vx && vv.size() == ch.size(), "value-parts", [&] { return cat(vv.size(), " parts of ", d(p)); });
        // consecutive equal points collapse to one, everything else is kept in order
        auto u = meshkernelapi::ConvertGeometryListToPointVector(g.g);
        Pts ex;
        for (auto& q : p)
            if (ex.empty() || ex.back().x != q.x || ex.back().y != q.y) ex.push_back(q);
        check(same(u, ex), "distinct-points", [&] { return d(p) + " becomes " + d(u); });
        if (n > 0)
        {
            auto s = meshkernelapi::ConvertGeometryListToSampleVector(g.g);
            bool ok = s.size() == p.size();
            for (size_t i = 0; ok && i < s.size(); ++i) ok = s[i].x == p[i].x && s[i].y == p[i].y && s[i].value == g.v[i];
            check(ok, "samples", [&] { return d(p); });
        }
        // back into a geometry list
        int m = rnd(n + 3);
        Geo o(Pts((size_t)m, Point{-1, -1}));
        bool threw = false;
        try
        {
            meshkernelapi::ConvertPointVectorToGeometryList(p, o.g);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        bool ok = threw == (m > n);
        for (int i = 0; ok && !threw && i < m; ++i) ok = o.x[i] == p[i].x && o.y[i] == p[i].y;
        check(ok, "to-geometry-list", [&] { return cat(m, " of ", d(p)); });
        std::vector<double> val;
        for (int i = 0; i < n; ++i) val.push_back(rndd());
        Geo o2(Pts((size_t)m, Point{-1, -1}));
        threw = false;
        try
        {
            meshkernelapi::ConvertSampleVectorToGeometryList(p, val, o2.g);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        ok = threw == (m > n);
        for (int i = 0; ok && !threw && i < m; ++i) ok = o2.x[i] == p[i].x && o2.y[i] == p[i].y && o2.v[i] == val[i];
        check(ok, "samples-to-geometry-list", [&] { return cat(m, " of ", d(p)); });
        // splines: one per run of distinct points
        if (sep == MV)
        {
            auto sp = std::make_shared<Splines>(Projection::cartesian);
            bool all = true;
            auto pp = split(u, MV);
            for (auto& q : pp) all = all && q.size() > 1;
            if (all)
            {
                meshkernelapi::SetSplines(g.g, *sp);
                bool k = sp->GetNumSplines() == pp.size() && sp->m_splineDerivatives.size() == pp.size() && sp->m_splinesLength.size() == pp.size();
                for (size_t i = 0; k && i < pp.size(); ++i) k = same(sp->m_splineNodes[i], pp[i]) && sp->m_splineDerivatives[i].size() == pp[i].size();
                check(k, "splines", [&] { return cat(sp->GetNumSplines(), " splines from ", d(p)); });
                hx::cover("splines");
            }
        }
        // masks
        std::vector<int> mk;
        bool bad = false;
        for (int i = 0; i < n; ++i) mk.push_back(rnd(12) ? rnd(2) : rnd(5) - 2), bad = bad || mk.back() < 0 || mk.back() > 1;
        threw = false;
        try
        {
            auto b = meshkernelapi::ConvertIntegerArrayToBoolVector(mk.data(), mk.size());
            ok = b.size() == mk.size();
            for (size_t i = 0; ok && i < b.size(); ++i) ok = b[i] == (mk[i] == 1);
        }
        catch (const std::exception&)
        {
            threw = true;
            ok = true;
        }
        check(ok && threw == bad, "mask", [&] { return cat("mask of ", n); });
    }
    // polygons with inner rings
    for (int it = 0; it < (th ? 10000 : 2500); ++it)
    {
        Pts l;
        std::vector<std::vector<Pts>> want;
        int k = rnd(4);
        auto gap = [&](double s, int mn) { for (int i = 0, m = mn + (rnd(4) == 0 ? rnd(3) : 0); i < m; ++i) l.push_back({s, s}); };
        gap(MV, 0);
        for (int i = 0; i < k; ++i)
        {
            want.emplace_back();
            auto o = ring(3 + rnd(6), 100. * i, 0, 10);
            want.back().push_back(o);
            add(l, o);
            int q = rnd(4);
            for (int j = 0; j < q; ++j)
            {
                gap(IN, 1);
                auto r = ring(3 + rnd(5), 100. * i - 4 + 4 * j, rndd(), 1);
                want.back().push_back(r);
                add(l, r);
            }
            if (i + 1 < k) gap(MV, 1);
        }
        gap(MV, 0);
        hx::shape(d(l));
        if (it < 3) hx::sample(d(l));
        Polygons P(l, Projection::cartesian);
        auto w = [&] { return d(l); };
        size_t nodes = k > 0 ? k - 1 : 0;
        Pts flat;
        bool ok = P.GetNumPolygons() == want.size();
        check(ok, "polygon-number", w);
        for (size_t i = 0; ok && i < want.size(); ++i)
        {
            auto& e = P.Enclosure((UInt)i);
            if (i) flat.push_back({MV, MV});
            ok = ok && e.NumberOfInner() == want[i].size() - 1 && same(e.Outer().Nodes(), want[i][0]);
            for (size_t j = 1; ok && j < want[i].size(); ++j) ok = same(e.Inner(j - 1).Nodes(), want[i][j]);
            size_t c = 0;
            for (size_t j = 0; j < want[i].size(); ++j)
            {
                c += want[i][j].size();
                if (j) flat.push_back({IN, IN});
                add(flat, want[i][j]);
            }
            nodes += c + want[i].size() - 1;
            ok = ok && e.GetNumberOfNodes() == c && e.NumberOfPoints(true) == c && e.NumberOfPoints(false) == want[i][0].size();
        }
        check(ok, "polygon-rings", w);
        check(P.GetNumNodes() == nodes, "polygon-node-count", w);
        if (ok) check(same(P.GatherAllEnclosureNodes(), flat), "polygon-gather", w);
        Polygons Q(flat, Projection::cartesian);
        check(Q.GetNumPolygons() == want.size() && same(Q.GatherAllEnclosureNodes(), flat) && Q.GetNumNodes() == nodes, "polygon-round-trip", w);
        hx::cover(cat(k, " polygons"));
    }
    // gridded samples: one sample per cell, column by column from the top row
    for (int it = 0; it < 300; ++it)
    {
        int nx = rnd(5), ny = rnd(5);
        meshkernelapi::GriddedSamples g;
        g.num_x = nx;
        g.num_y = ny;
        g.x_origin = rndd();
        g.y_origin = rndd();
        g.cell_size = 0.5 + rndd();
        std::vector<double> v, X, Y;
        for (int i = 0; i < nx * ny; ++i) v.push_back(rndd()), X.push_back(rndd()), Y.push_back(rndd());
        g.values = v.data();
        g.value_type = (int)InterpolationDataTypes::Double;
        bool co = rnd(2);
        g.x_coordinates = co ? X.data() : nullptr;
        g.y_coordinates = co ? Y.data() : nullptr;
        auto s = meshkernelapi::ConvertGriddedData(g);
        bool ok = s.size() == (size_t)(nx * ny);
        for (int i = 0; ok && i < nx; ++i)
            for (int j = 0; ok && j < ny; ++j)
            {
                auto& q = s[i * ny + (ny - 1 - j)];
                int c = nx * j + i;
                ok = q.value == v[c] && std::abs(q.x - g.x_origin - (co ? X[c] : i * g.cell_size)) < 1e-12 && std::abs(q.y - g.y_origin - (co ? Y[c] : j * g.cell_size)) < 1e-12;
            }
        check(ok, "gridded", [&] { return cat(nx, "x", ny, co ? " with coordinates" : ""); });
    }
    return hx::done();
}
