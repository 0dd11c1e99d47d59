// The interface library itself, compiled into the harness so that the registered states can be looked at without going through calls
// that change them.
#pragma once
#include "hx.hpp"
#include <MeshKernelApi/../../src/MKStateUndoAction.cpp>
#include <MeshKernelApi/../../src/MeshKernel.cpp>
#include <algorithm>
#include <array>
namespace ax
{
    using namespace meshkernelapi;
    using hx::cat;
    struct Snap
    {
        int projection = -1;
        std::vector<std::array<double, 4>> edges2, edges1; ///< edges by index with the coordinates of their nodes, invalid ones as missing
        int n = 0, m = 0;
        std::vector<double> grid;
        std::vector<meshkernel::UInt> c1, c2;
    };
    inline std::vector<std::array<double, 4>> edgesof(const meshkernel::Mesh& mesh)
    {
        std::vector<std::array<double, 4>> r;
        for (auto const& e : mesh.Edges())
        {
            std::array<double, 4> v{-999, -999, -999, -999};
            if (e.first != meshkernel::constants::missing::uintValue && e.second != meshkernel::constants::missing::uintValue && e.first < mesh.Nodes().size() && e.second < mesh.Nodes().size())
            {
                auto const &a = mesh.Nodes()[e.first], &b = mesh.Nodes()[e.second];
                if (a.IsValid() && b.IsValid()) v = {a.x, a.y, b.x, b.y};
            }
            r.push_back(v);
        }
        while (!r.empty() && r.back()[0] == -999) r.pop_back();
        return r;
    }
    inline Snap snap(int id)
    {
        Snap s;
        auto const& st = meshKernelState.at(id);
        s.projection = static_cast<int>(st.m_projection);
        if (st.m_mesh2d) s.edges2 = edgesof(*st.m_mesh2d);
        if (st.m_mesh1d) s.edges1 = edgesof(*st.m_mesh1d);
        if (st.m_curvilinearGrid)
        {
            s.n = static_cast<int>(st.m_curvilinearGrid->NumN());
            s.m = static_cast<int>(st.m_curvilinearGrid->NumM());
            for (int i = 0; i < s.n; ++i)
                for (int j = 0; j < s.m; ++j)
                {
                    auto const& p = st.m_curvilinearGrid->GetNode(i, j);
                    s.grid.push_back(p.IsValid() ? p.x : -999);
                    s.grid.push_back(p.IsValid() ? p.y : -999);
                }
        }
        if (st.m_contacts) s.c1 = st.m_contacts->Mesh1dIndices(), s.c2 = st.m_contacts->Mesh2dIndices();
        return s;
    }
    inline bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * std::max({1.0, std::abs(a), std::abs(b)}); }
    inline std::string differ(const Snap& a, const Snap& b)
    {
        auto es = [](const char* w, auto& x, auto& y) -> std::string
        {
            if (x.size() != y.size()) return cat(w, ": ", x.size(), " edges instead of ", y.size());
            for (size_t i = 0; i < x.size(); ++i)
                for (int k = 0; k < 4; ++k)
                    if (!near(x[i][k], y[i][k])) return cat(w, " edge ", i, ": ", x[i][k], " instead of ", y[i][k]);
            return "";
        };
        if (a.projection != b.projection) return cat("projection ", a.projection, " instead of ", b.projection);
        auto r = es("mesh2d", a.edges2, b.edges2);
        if (r.empty()) r = es("mesh1d", a.edges1, b.edges1);
        if (!r.empty()) return r;
        if (a.n != b.n || a.m != b.m) return cat("curvilinear grid ", a.n, "x", a.m, " instead of ", b.n, "x", b.m);
        for (size_t i = 0; i < a.grid.size(); ++i)
            if (!near(a.grid[i], b.grid[i])) return cat("curvilinear grid value ", i, ": ", a.grid[i], " instead of ", b.grid[i]);
        if (a.c1 != b.c1 || a.c2 != b.c2) return cat("contacts: ", a.c1.size(), " instead of ", b.c1.size());
        return "";
    }
    struct Geo
    {
        std::vector<double> x, y, v;
        GeometryList g;
        Geo() { g.geometry_separator = -999; g.inner_outer_separator = -998; }
        Geo(std::vector<std::pair<double, double>> p) : Geo()
        {
            for (auto [a, b] : p) x.push_back(a), y.push_back(b), v.push_back(0);
        }
        GeometryList& get()
        {
            g.coordinates_x = x.data(), g.coordinates_y = y.data(), g.values = v.data(), g.num_coordinates = static_cast<int>(x.size());
            return g;
        }
    };
    /// a small block of squares as input mesh
    struct In
    {
        std::vector<double> x, y;
        std::vector<int> e;
        In(int n, int m, double x0, double y0, double h)
        {
            for (int i = 0; i <= n; ++i)
                for (int j = 0; j <= m; ++j) x.push_back(x0 + i * h), y.push_back(y0 + j * h);
            auto id = [m](int i, int j) { return i * (m + 1) + j; };
            for (int i = 0; i <= n; ++i)
                for (int j = 0; j <= m; ++j)
                {
                    if (i < n) e.push_back(id(i, j)), e.push_back(id(i + 1, j));
                    if (j < m) e.push_back(id(i, j)), e.push_back(id(i, j + 1));
                }
        }
        meshkernelapi::Mesh2D m2()
        {
            meshkernelapi::Mesh2D m;
            m.node_x = x.data(), m.node_y = y.data(), m.edge_nodes = e.data();
            m.num_nodes = static_cast<int>(x.size()), m.num_edges = static_cast<int>(e.size() / 2);
            return m;
        }
    };
    struct In1
    {
        std::vector<double> x, y;
        std::vector<int> e;
        In1(int n, double x0, double y0, double dx, double dy)
        {
            for (int i = 0; i <= n; ++i) x.push_back(x0 + i * dx), y.push_back(y0 + i * dy);
            for (int i = 0; i < n; ++i) e.push_back(i), e.push_back(i + 1);
        }
        meshkernelapi::Mesh1D m1()
        {
            meshkernelapi::Mesh1D m;
            m.node_x = x.data(), m.node_y = y.data(), m.edge_nodes = e.data();
            m.num_nodes = m.num_valid_nodes = static_cast<int>(x.size()), m.num_edges = m.num_valid_edges = static_cast<int>(e.size() / 2);
            return m;
        }
    };
    inline meshkernel::MakeGridParameters grid(int n, int m, double x0, double y0, double h)
    {
        meshkernel::MakeGridParameters p;
        p.num_columns = n, p.num_rows = m, p.angle = 0, p.origin_x = x0, p.origin_y = y0, p.block_size_x = h, p.block_size_y = h;
        return p;
    }
} // namespace ax
