// C12: averaging strategies against their definition; interpolation to faces, nodes and edges against a brute-force search
#include "meshgen.hpp"
#include <MeshKernel/AveragingInterpolation.hpp>
#include <MeshKernel/AveragingStrategies/AveragingStrategyFactory.hpp>
#include <MeshKernel/Operations.hpp>
using namespace meshkernel;
using namespace mg;
using hx::check;
typedef AveragingInterpolation::Method M;
static const double MV = constants::missing::doubleValue;
static const char* NM[] = {"", "simple", "closest", "max", "min", "inverse", "minabs"};
static bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static std::string dsc(const std::vector<Sample>& s)
{
    std::string r = "samples";
    for (size_t i = 0; i < s.size() && i < 30; ++i) r += " " + cat("(", s[i].x, ",", s[i].y, ";", s[i].value, ")");
    return r;
}
// the set of acceptable values (ties in 'closest')
static bool accept(M m, const Point& p, const std::vector<Sample>& s, size_t minn, Projection pr, double r)
{
    if (s.empty()) return r == MV;
    double mn = s[0].value, mx = mn, ma = std::abs(mn), sum = 0, w = 0, wv = 0, best = 1e300;
    for (auto& x : s)
    {
        mn = std::min(mn, x.value);
        mx = std::max(mx, x.value);
        ma = std::min(ma, std::abs(x.value));
        sum += x.value;
        double d = ComputeDistance(p, x, pr);
        w += 1 / std::max(0.01, d);
        wv += x.value / std::max(0.01, d);
        best = std::min(best, d);
    }
    switch (m)
    {
    case M::SimpleAveraging: return s.size() < minn ? r == MV : near(r, sum / s.size());
    case M::InverseWeightedDistance: return s.size() < minn ? r == MV : near(r, wv / w);
    case M::Max: return r == mx;
    case M::Min: return r == mn;
    case M::MinAbsValue: return r == ma;
    case M::Closest:
        for (auto& x : s)
            if (x.value == r && ComputeDistance(p, x, pr) <= best * (1 + 1e-12)) return true;
        return false;
    }
    return false;
}
static bool onEdge(const Point& p, const std::vector<Point>& poly)
{
    for (size_t i = 0; i + 1 < poly.size(); ++i)
    {
        double ax = poly[i].x, ay = poly[i].y, bx = poly[i + 1].x, by = poly[i + 1].y;
        double l = (bx - ax) * (bx - ax) + (by - ay) * (by - ay), t = l > 0 ? ((p.x - ax) * (bx - ax) + (p.y - ay) * (by - ay)) / l : 0;
        t = std::max(0., std::min(1., t));
        if (std::hypot(p.x - ax - t * (bx - ax), p.y - ay - t * (by - ay)) < 1e-6) return true;
    }
    return false;
}
static bool inside(const Point& p, const std::vector<Point>& poly)
{
    bool in = false;
    for (size_t i = 0; i + 1 < poly.size(); ++i)
    {
        auto &a = poly[i], &b = poly[i + 1];
        if ((a.y > p.y) != (b.y > p.y) && p.x < (b.x - a.x) * (p.y - a.y) / (b.y - a.y) + a.x) in = !in;
    }
    return in;
}
int main()
{
    hx::init();
    const bool th = hx::thorough();
    for (int it = 0; it < (th ? 60000 : 8000); ++it)
    {
        std::vector<Sample> s;
        int n = rnd(7), sc = rnd(4);
        for (int i = 0; i < n; ++i)
        {
            double v = sc == 0 ? rnd(5) - 2 : sc == 1 ? -5 - 100 * rndd() : sc == 2 ? 1e6 * rndd() : (rndd() - 0.5) * 1e-3;
            s.push_back({(double)rnd(5) * 10, (double)rnd(5) * 10 + rndd(), v});
        }
        Point p{(double)rnd(5) * 10, (double)rnd(5) * 10};
        size_t minn = rnd(6);
        auto pr = rnd(3) ? Projection::cartesian : Projection::spherical;
        hx::shape(dsc(s) + pt(p));
        if (it < 3) hx::sample(dsc(s));
        for (int m = 1; m <= 6; ++m)
        {
            if (s.empty() && minn == 0 && (m == 1 || m == 5)) continue; // mean of nothing with no minimum: no sample takes part
            double r = averaging::AveragingStrategyFactory::GetAveragingStrategy((M)m, minn, pr)->Calculate(p, s);
            check(accept((M)m, p, s, minn, pr, r), cat("strategy-", NM[m]), [&] { return cat(NM[m], " at ", pt(p), " min ", minn, " of ", dsc(s), " gives ", r); });
        }
    }
    for (int it = 0; it < (th ? 3000 : 400); ++it)
    {
        auto c = randcfg(5, false);
        auto mesh = make(c);
        mesh->Administrate();
        if (mesh->GetNumFaces() == 0) continue;
        // remove invalid nodes and edges: interpolation is defined on valid locations
        bool ok = true;
        for (UInt i = 0; i < mesh->GetNumNodes(); ++i) ok = ok && mesh->Node(i).IsValid() && mesh->m_nodesNumEdges[i] > 1;
        for (auto& e : mesh->Edges()) ok = ok && e.first != NA && e.second != NA;
        if (!ok) continue;
        auto bb = mesh->GetBoundingBox();
        std::vector<Sample> s;
        int n = 1 + rnd(60);
        for (int i = 0; i < n; ++i) s.push_back({bb.lowerLeft().x + (rndd() * 1.4 - .2) * bb.Width(), bb.lowerLeft().y + (rndd() * 1.4 - .2) * bb.Height(), rnd(8) == 0 ? MV : (rndd() - 0.3) * 10});
        M m = (M)(1 + rnd(6));
        auto loc = (Location)rnd(3);
        double rs = rnd(3) == 0 ? 1.0 : 1.0 + rndd();
        bool cl = rnd(2);
        UInt mn = 1 + rnd(3);
        std::vector<Sample> s0 = s;
        AveragingInterpolation a(*mesh, s, m, loc, rs, cl, false, mn);
        try
        {
            a.Compute();
        }
        catch (const std::invalid_argument&)
        {
            continue; // degenerate search polygon
        }
        auto what = [&](const char* l, UInt i, double r) { return cat(NM[(int)m], " radius ", rs, cl ? " closest-if-none" : "", " min ", mn, " at ", l, " ", i, " of ", c.str(), " gives ", r, "; ", dsc(s0)); };
        // search polygon of a location, and the expected value
        auto expect = [&](const std::vector<Point>& base, const Point& p, double r, const char* l, UInt i)
        {
            std::vector<Point> poly;
            for (auto& q : base) poly.push_back(q * rs + p * (1.0 - rs));
            double R = 0;
            for (auto& q : poly) R = std::max(R, ComputeSquaredDistance(p, q, mesh->m_projection));
            std::vector<Sample> in;
            bool found = false, unsure = false;
            for (auto& x : s0)
            {
                double d = ComputeSquaredDistance(p, x, mesh->m_projection);
                if (std::abs(d - R) < 1e-6 * (1 + R)) unsure = true;
                if (d > R) continue;
                found = true;
                if (x.value <= MV) continue;
                if (onEdge({x.x, x.y}, poly)) unsure = true;
                if (inside({x.x, x.y}, poly)) in.push_back(x);
            }
            if (unsure) return;
            if (!found && cl)
            {
                double best = 1e300;
                for (auto& x : s0) best = std::min(best, ComputeDistance(p, x, mesh->m_projection));
                bool good = false;
                for (auto& x : s0) good = good || (x.value == r && ComputeDistance(p, x, mesh->m_projection) <= best * (1 + 1e-9));
                check(good, cat("nearest-", l), [&] { return what(l, i, r); });
                hx::cover("nearest sample used");
            }
            else
            {
                check(accept(m, p, in, mn, mesh->m_projection, r), cat("interpolation-", l), [&] { return what(l, i, r) + cat(" (", in.size(), " samples in the polygon)"); });
                hx::cover(cat(NM[(int)m], " on ", l, in.empty() ? " none" : " some"));
            }
        };
        if (loc == Location::Faces)
        {
            auto& r = a.GetFaceResults();
            if (check(r.size() == mesh->GetNumFaces(), "face-count", [&] { return c.str(); }))
                for (UInt f = 0; f < r.size(); ++f)
                {
                    std::vector<Point> poly;
                    for (auto nd : mesh->m_facesNodes[f]) poly.push_back(mesh->m_facesMassCenters[f] + (mesh->Node(nd) - mesh->m_facesMassCenters[f]) * rs);
                    poly.push_back(poly[0]);
                    expect(poly, mesh->m_facesMassCenters[f], r[f], "face", f);
                }
        }
        else
        {
            auto& r = a.GetNodeResults();
            if (check(r.size() == mesh->GetNumNodes(), "node-count", [&] { return c.str(); }))
                for (UInt i = 0; i < r.size(); ++i)
                {
                    std::vector<Point> poly;
                    mesh->MakeDualFace(i, rs, poly);
                    bool simple = mesh->m_nodesNumEdges[i] > 0;
                    if (simple) expect(poly, mesh->Node(i), r[i], "node", i);
                }
            if (loc == Location::Edges)
            {
                auto& er = a.GetEdgeResults();
                if (check(er.size() == mesh->GetNumEdges(), "edge-count", [&] { return c.str(); }))
                    for (UInt e = 0; e < er.size(); ++e)
                    {
                        double u = r[mesh->GetEdge(e).first], v = r[mesh->GetEdge(e).second];
                        bool good = u == MV || v == MV ? er[e] == MV : near(er[e], 0.5 * (u + v));
                        check(good, "edge-mean", [&] { return cat("edge ", e, " node values ", u, ",", v, " gives ", er[e]); });
                    }
            }
        }
        bool same = s.size() == s0.size();
        for (size_t i = 0; same && i < s.size(); ++i) same = s[i].value == s0[i].value && s[i].x == s0[i].x && s[i].y == s0[i].y;
        check(same, "samples-untouched", [&] { return "samples changed by an interpolation without subtraction: " + dsc(s0); });
    }
    return hx::done();
}
