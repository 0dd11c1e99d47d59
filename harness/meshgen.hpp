// Mesh generators shared by the harnesses.
#pragma once
#include "hx.hpp"
#include <MeshKernel/Mesh2D.hpp>
#include <MeshKernel/Operations.hpp>
#include <MeshKernel/Polygons.hpp>
#include <MeshKernel/Constants.hpp>
#include <MeshKernel/Exceptions.hpp>
#include <memory>
namespace mg
{
    using namespace meshkernel;
    using hx::cat;
    using hx::rnd;
    using hx::rndd;
    struct Snap
    {
        std::vector<Point> n;
        std::vector<Edge> e;
        Projection p = Projection::cartesian;
    };
    inline Snap snap(const Mesh& m) { return {m.Nodes(), m.Edges(), m.m_projection}; }
    const UInt NA = constants::missing::uintValue;
    inline bool vp(const Point& p) { return p.x != constants::missing::doubleValue && p.y != constants::missing::doubleValue; }
    inline bool ve(const Snap& s, UInt e)
    {
        const auto& [a, b] = s.e[e];
        return a != NA && b != NA && a < s.n.size() && b < s.n.size() && vp(s.n[a]) && vp(s.n[b]);
    }
    inline bool same(const Point& a, const Point& b, bool exact = true)
    {
        if (exact) return a.x == b.x && a.y == b.y;
        return std::abs(a.x - b.x) <= 1e-10 && std::abs(a.y - b.y) <= 1e-10; // longitudes are shifted by 360 degrees and back
    }
    inline std::string pt(const Point& p) { return cat("(", p.x, ",", p.y, ")"); }
    // b restores a. strict: every node; otherwise nodes without an edge may have been dropped
    inline std::string diff(const Snap& a, const Snap& b, bool strict)
    {
        if (a.p != b.p) return cat("projection ", (int)a.p, " became ", (int)b.p);
        std::vector<char> con(a.n.size(), 0);
        for (UInt i = 0; i < a.e.size(); ++i)
            if (ve(a, i)) con[a.e[i].first] = con[a.e[i].second] = 1;
        if (b.n.size() < a.n.size())
            for (size_t i = b.n.size(); i < a.n.size(); ++i)
                if (strict ? vp(a.n[i]) : con[i]) return cat("node ", i, " ", pt(a.n[i]), " is gone");
        for (size_t i = 0; i < a.n.size() && i < b.n.size(); ++i)
        {
            bool va = vp(a.n[i]), vb = vp(b.n[i]);
            if (!va && !vb) continue;
            if (!va && vb) return cat("node ", i, " was invalid and became ", pt(b.n[i]));
            if (va && !vb)
            {
                if (strict || con[i]) return cat("node ", i, " ", pt(a.n[i]), " became invalid");
                continue;
            }
            if (!same(a.n[i], b.n[i], a.p == Projection::cartesian)) return cat("node ", i, " ", pt(a.n[i]), " became ", pt(b.n[i]));
        }
        for (size_t i = a.n.size(); i < b.n.size(); ++i)
            if (vp(b.n[i])) return cat("extra node ", i, " ", pt(b.n[i]));
        for (size_t i = 0; i < std::max(a.e.size(), b.e.size()); ++i)
        {
            bool va = i < a.e.size() && ve(a, i), vb = i < b.e.size() && ve(b, i);
            if (va != vb) return cat("edge ", i, va ? cat(" (", a.e[i].first, ",", a.e[i].second, ") is gone") : cat(" appeared (", b.e[i].first, ",", b.e[i].second, ")"));
            if (va && a.e[i] != b.e[i]) return cat("edge ", i, " (", a.e[i].first, ",", a.e[i].second, ") became (", b.e[i].first, ",", b.e[i].second, ")");
        }
        return "";
    }
    struct Cfg
    {
        int kind, nx, ny;
        double jit, h, x0, y0;
        Projection proj;
        std::string str() const { return cat("mesh kind ", kind, " ", nx, "x", ny, " jitter ", jit, " spacing ", h, " at (", x0, ",", y0, ") projection ", (int)proj); }
    };
    inline Cfg randcfg(int maxn = 6, bool spherical = true)
    {
        Cfg c;
        c.kind = rnd(5);
        c.nx = 2 + rnd(maxn - 1);
        c.ny = 2 + rnd(maxn - 1);
        c.jit = rnd(3) == 0 ? 0.0 : 0.15 * rndd();
        c.proj = spherical && rnd(5) == 0 ? Projection::spherical : Projection::cartesian;
        c.h = c.proj == Projection::spherical ? 0.1 : (rnd(3) == 0 ? 10.0 : 1.0);
        c.x0 = rnd(3) == 0 ? -3.0 + 6.0 * rndd() : 0.0;
        c.y0 = rnd(3) == 0 ? -3.0 + 6.0 * rndd() : 0.0;
        return c;
    }
    // kind 0: quads, 1: all triangles, 2: mixed, 3: quads with a hole, 4: two islands (or quads when too small)
    inline std::unique_ptr<Mesh2D> make(const Cfg& c)
    {
        uint64_t st = 88172645463325252ull ^ (uint64_t)(c.nx * 131 + c.ny * 7 + c.kind + (int)(c.jit * 1e6));
        auto r = [&st]
        { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (double)(st % 100003) / 100003.0; };
        std::vector<Point> n;
        std::vector<Edge> e;
        auto id = [&](int i, int j)
        { return (UInt)(j * c.nx + i); };
        for (int j = 0; j < c.ny; ++j)
            for (int i = 0; i < c.nx; ++i)
                n.push_back({c.x0 + c.h * (i + c.jit * (r() - 0.5) * 2), c.y0 + c.h * (j + c.jit * (r() - 0.5) * 2)});
        for (int j = 0; j < c.ny; ++j)
            for (int i = 0; i + 1 < c.nx; ++i)
            {
                if (c.kind == 4 && c.nx >= 5 && i == c.nx / 2) continue;
                e.push_back({id(i, j), id(i + 1, j)});
            }
        for (int j = 0; j + 1 < c.ny; ++j)
            for (int i = 0; i < c.nx; ++i)
            {
                if (c.kind == 3 && i == c.nx / 2 && j == c.ny / 2) continue;
                e.push_back({id(i, j + 1), id(i, j)});
            }
        if (c.kind == 1 || c.kind == 2)
            for (int j = 0; j + 1 < c.ny; ++j)
                for (int i = 0; i + 1 < c.nx; ++i)
                    if (c.kind == 1 || (i + j) % 3 == 0) e.push_back({id(i, j), id(i + 1, j + 1)});
        auto m = std::make_unique<Mesh2D>(e, n, c.proj);
        m->Administrate();
        return m;
    }
    inline std::vector<Point> randpoly(const Cfg& c)
    {
        double x0 = c.x0 + c.h * (-0.7 + rndd() * c.nx * 0.7), y0 = c.y0 + c.h * (-0.7 + rndd() * c.ny * 0.7);
        double w = c.h * (0.4 + rndd() * c.nx), h = c.h * (0.4 + rndd() * c.ny);
        std::vector<Point> p{{x0, y0}, {x0 + w, y0 + 0.1 * c.h * rndd()}, {x0 + w, y0 + h}, {x0 - 0.1 * c.h * rndd(), y0 + h}, {x0, y0}};
        return p;
    }
    // the valid part of a mesh with its nodes and edges renumbered at random
    inline std::unique_ptr<Mesh2D> renumbered(const Mesh2D& m)
    {
        std::vector<UInt> p(m.GetNumNodes()), q(m.GetNumEdges());
        for (UInt i = 0; i < p.size(); ++i) p[i] = i;
        for (UInt i = 0; i < q.size(); ++i) q[i] = i;
        for (UInt i = 1; i < p.size(); ++i) std::swap(p[i], p[rnd((int)i + 1)]);
        for (UInt i = 1; i < q.size(); ++i) std::swap(q[i], q[rnd((int)i + 1)]);
        std::vector<Point> n(p.size());
        std::vector<Edge> e;
        for (UInt i = 0; i < p.size(); ++i) n[p[i]] = m.Node(i);
        for (UInt k : q)
        {
            auto [a, b] = m.GetEdge(k);
            if (a == NA || b == NA || !vp(m.Node(a)) || !vp(m.Node(b))) continue;
            e.push_back(rnd(2) ? Edge{p[a], p[b]} : Edge{p[b], p[a]});
        }
        auto r = std::make_unique<Mesh2D>(e, n, m.m_projection);
        r->Administrate();
        return r;
    }
    inline UInt validEdge(const Mesh& m)
    {
        for (int t = 0; t < 40; ++t)
        {
            UInt e = (UInt)rnd((int)m.GetNumEdges());
            if (m.GetEdge(e).first != NA && m.GetEdge(e).second != NA) return e;
        }
        for (UInt e = 0; e < m.GetNumEdges(); ++e)
            if (m.GetEdge(e).first != NA && m.GetEdge(e).second != NA) return e;
        return NA;
    }
    inline UInt validNode(const Mesh& m)
    {
        for (int t = 0; t < 40; ++t)
        {
            UInt e = (UInt)rnd((int)m.GetNumNodes());
            if (vp(m.Node(e))) return e;
        }
        for (UInt e = 0; e < m.GetNumNodes(); ++e)
            if (vp(m.Node(e))) return e;
        return NA;
    }
} // namespace mg
