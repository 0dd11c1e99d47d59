// C10: boundary values of every checked parameter, and the operations that must reject values out of range
#include "meshgen.hpp"
#include <MeshKernel/ConnectMeshes.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridFromSplines.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridFromSplinesTransfinite.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridGenerateCircularGrid.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridOrthogonalization.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridRectangular.hpp>
#include <MeshKernel/MeshRefinement.hpp>
#include <MeshKernel/Parameters.hpp>
#include <MeshKernel/Polygons.hpp>
#include <MeshKernel/RangeCheck.hpp>
#include <MeshKernel/Splines.hpp>
using namespace meshkernel;
using namespace mg;
using hx::check;
using hx::cat;
template <class F>
static int run(F f) // 0 accepted, 1 RangeError, 2 other library error, 3 anything else
{
    try
    {
        f();
        return 0;
    }
    catch (const RangeError&)
    {
        return 1;
    }
    catch (const MeshKernelError&)
    {
        return 2;
    }
    catch (...)
    {
        return 3;
    }
}
static const double INF = std::numeric_limits<double>::infinity(), NN = std::numeric_limits<double>::quiet_NaN();
static const double EPS = std::numeric_limits<double>::denorm_min();
template <class S, class T>
static void field(const char* set, const char* name, T S::*m, const std::vector<T>& vals, const std::function<bool(T)>& ok, const std::function<void(const S&)>& fn)
{
    for (T v : vals)
    {
        S p;
        p.*m = v;
        int r = run([&] { fn(p); });
        hx::shape(cat(set, name, v));
        bool a = ok(v);
        check(a ? r == 0 : r == 1, cat(set, "-", name), [&] { return cat(set, ".", name, " = ", v, a ? " must be accepted" : " must be rejected with a range error", ", outcome ", r); });
    }
}
static const std::vector<int> IV{-2147483647, -1000, -2, -1, 0, 1, 2, 3, 4, 5, 1000, 2147483647};
static std::vector<double> dv(std::initializer_list<double> b)
{
    std::vector<double> r{-1e300, -1, -EPS, -0.0, 0.0, EPS, 1e-300, 0.5, 1, 2, 1e300, INF, -INF, NN};
    for (double x : b)
    {
        r.push_back(x);
        r.push_back(std::nextafter(x, INF));
        r.push_back(std::nextafter(x, -INF));
    }
    return r;
}
static bool pos(int v) { return v > 0; }
static bool nn(int v) { return v >= 0; }
static bool flag(int v) { return v == 0 || v == 1; }
static bool dpos(double v) { return v > 0; }
static bool dnn(double v) { return v >= 0; }
static bool fpos(double v) { return v > 0 && std::isfinite(v); }
static bool fnn(double v) { return v >= 0 && std::isfinite(v); }
static bool unit(double v) { return v >= 0 && v <= 1; }
template <class S>
struct Set
{
    const char* n;
    std::function<void(const S&)> f;
    void i(const char* k, int S::*m, bool (*ok)(int)) { field<S, int>(n, k, m, IV, ok, f); }
    void d(const char* k, double S::*m, bool (*ok)(double), std::initializer_list<double> b = {}) { field<S, double>(n, k, m, dv(b), ok, f); }
};
#define I(S, k, ok) s.i(#k, &S::k, ok)
#define D(S, k, ok, ...) s.d(#k, &S::k, ok, {__VA_ARGS__})
int main()
{
    hx::init();
    {
        typedef MakeGridParameters P;
        for (auto& t : std::vector<Set<P>>{{"makeGrid", [](const P& p) { CheckMakeGridParameters(p); }}, {"circular", [](const P& p) {
                                                                                                               if (p.num_columns < 100 && p.num_rows < 100) (void)CurvilinearGridGenerateCircularGrid::Compute(p, Projection::cartesian);
                                                                                                               else CheckMakeGridParameters(p);
                                                                                                           }}})
        {
            Set<P> s = t;
            bool circ = std::string(s.n) == "circular";
            if (!circ) I(P, num_columns, pos), I(P, num_rows, pos);
            else
                for (int v : {-5, -1, 0}) // smaller grids than two nodes are refused for other reasons too
                {
                    P p;
                    p.num_columns = v;
                    check(run([&] { s.f(p); }) == 1, "circular-num_columns", [&] { return cat("num_columns ", v); });
                    P q;
                    q.num_rows = v;
                    check(run([&] { s.f(q); }) == 1, "circular-num_rows", [&] { return cat("num_rows ", v); });
                }
            auto bad = [&](const char* k, double P::*m, double v)
            {
                P p;
                p.*m = v;
                check(run([&] { s.f(p); }) == 1, cat("circular-", k), [&] { return cat(k, " = ", v, " must be rejected"); });
            };
            if (!circ)
            {
                s.d("angle", &P::angle, [](double v) { return v >= -90 && v <= 90; }, {-90, 90});
                D(P, block_size_x, fpos, );
                D(P, block_size_y, fpos, );
                D(P, radius_curvature, fnn, );
                D(P, uniform_columns_fraction, fnn, );
                D(P, uniform_rows_fraction, fnn, );
                D(P, maximum_uniform_size_columns, fnn, );
                D(P, maximum_uniform_size_rows, fnn, );
            }
            else
                for (double v : {-1e300, -1.0, -EPS, INF, NN, 0.0})
                {
                    bad("block_size_x", &P::block_size_x, v);
                    bad("block_size_y", &P::block_size_y, v);
                    if (v == 0.0) continue;
                    bad("radius_curvature", &P::radius_curvature, v);
                    bad("uniform_columns_fraction", &P::uniform_columns_fraction, v);
                    bad("uniform_rows_fraction", &P::uniform_rows_fraction, v);
                    bad("maximum_uniform_size_columns", &P::maximum_uniform_size_columns, v);
                    bad("maximum_uniform_size_rows", &P::maximum_uniform_size_rows, v);
                }
        }
    }
    {
        typedef CurvilinearParameters P;
        auto splines = std::make_shared<Splines>(Projection::cartesian);
        SplinesToCurvilinearParameters sp;
        for (auto& s0 : std::vector<Set<P>>{{"curvilinear", [](const P& p) { CheckCurvilinearParameters(p); }},
                                            {"from-splines(c)", [&](const P& p) { CurvilinearGridFromSplines a(splines, p, sp); }},
                                            {"transfinite", [&](const P& p) { CurvilinearGridFromSplinesTransfinite a(splines, p); }}})
        {
            auto s = s0;
            I(P, m_refinement, pos);
            I(P, n_refinement, pos);
            I(P, smoothing_iterations, pos);
            D(P, smoothing_parameter, unit, 0, 1);
            D(P, attraction_parameter, dnn, );
        }
    }
    {
        typedef SplinesToCurvilinearParameters P;
        auto splines = std::make_shared<Splines>(Projection::cartesian);
        CurvilinearParameters cp;
        for (auto& s0 : std::vector<Set<P>>{{"splines", [](const P& p) { CheckSplinesToCurvilinearParameters(p); }},
                                            {"from-splines(s)", [&](const P& p) { CurvilinearGridFromSplines a(splines, cp, p); }}})
        {
            auto s = s0;
            D(P, aspect_ratio, dpos, );
            D(P, aspect_ratio_grow_factor, dpos, );
            D(P, average_width, dpos, );
            I(P, curvature_adapted_grid_spacing, flag);
            I(P, grow_grid_outside, flag);
            I(P, maximum_num_faces_in_uniform_part, pos);
            D(P, nodes_on_top_of_each_other_tolerance, dpos, );
            D(P, min_cosine_crossing_angles, dpos, );
            I(P, check_front_collisions, flag);
            I(P, remove_skinny_triangles, flag);
        }
    }
    {
        typedef MeshRefinementParameters P;
        auto c = randcfg(4, false);
        auto mesh = make(c);
        Polygons none;
        for (auto& s0 : std::vector<Set<P>>{{"refinement", [](const P& p) { CheckMeshRefinementParameters(p); }},
                                            {"mesh-refinement", [&](const P& p) { MeshRefinement a(*mesh, none, p); }},
                                            {"mesh-refinement(samples)", [&](const P& p) { MeshRefinement a(*mesh, std::unique_ptr<MeshInterpolation>(), p); }},
                                            {"mesh-refinement(nodal)", [&](const P& p) { MeshRefinement a(*mesh, std::unique_ptr<MeshInterpolation>(), p, true); }}})
        {
            auto s = s0;
            I(P, max_num_refinement_iterations, pos);
            I(P, refine_intersected, flag);
            I(P, use_mass_center_when_refining, flag);
            D(P, min_edge_size, dpos, );
            s.i("refinement_type", &P::refinement_type, [](int v) { return v >= 1 && v <= 3; });
            I(P, connect_hanging_nodes, flag);
            I(P, account_for_samples_outside, flag);
            I(P, smoothing_iterations, nn);
            D(P, max_courant_time, dpos, );
            I(P, directional_refinement, flag);
        }
    }
    {
        typedef OrthogonalizationParameters P;
        auto grid = CurvilinearGridRectangular(Projection::cartesian).Compute(3, 3, 0, 0, 0, 1, 1);
        for (auto& s0 : std::vector<Set<P>>{{"orthogonalization", [](const P& p) { CheckOrthogonalizationParameters(p); }},
                                            {"curvilinear-orthogonalization", [&](const P& p) { CurvilinearGridOrthogonalization a(*grid, p); }}})
        {
            auto s = s0;
            I(P, outer_iterations, pos);
            I(P, boundary_iterations, pos);
            I(P, inner_iterations, pos);
            D(P, orthogonalization_to_smoothing_factor, unit, 0, 1);
            D(P, orthogonalization_to_smoothing_factor_at_boundary, unit, 0, 1);
            D(P, areal_to_angle_smoothing_factor, unit, 0, 1);
        }
    }
    // combinations: one bad value among arbitrary good ones is enough
    for (int it = 0; it < (hx::thorough() ? 20000 : 2000); ++it)
    {
        MeshRefinementParameters p;
        p.max_num_refinement_iterations = 1 + rnd(10);
        p.refine_intersected = rnd(2);
        p.use_mass_center_when_refining = rnd(2);
        p.min_edge_size = 1e-3 + rndd();
        p.refinement_type = 1 + rnd(3);
        p.connect_hanging_nodes = rnd(2);
        p.account_for_samples_outside = rnd(2);
        p.smoothing_iterations = rnd(6);
        p.max_courant_time = 1e-3 + rndd();
        p.directional_refinement = rnd(2);
        int bad = rnd(11);
        switch (bad)
        {
        case 0: p.max_num_refinement_iterations = -rnd(3); break;
        case 1: p.refine_intersected = 2; break;
        case 2: p.use_mass_center_when_refining = -1; break;
        case 3: p.min_edge_size = -rndd(); break;
        case 4: p.refinement_type = rnd(2) * 4; break;
        case 5: p.connect_hanging_nodes = 2; break;
        case 6: p.account_for_samples_outside = 2; break;
        case 7: p.smoothing_iterations = -1 - rnd(3); break;
        case 8: p.max_courant_time = 0; break;
        case 9: p.directional_refinement = 3; break;
        default: break;
        }
        int r = run([&] { CheckMeshRefinementParameters(p); });
        check(r == (bad < 10 ? 1 : 0), "refinement-combined", [&] { return cat("bad field ", bad, " outcome ", r); });
    }
    // scalar arguments of grid generation
    for (auto pr : {Projection::cartesian, Projection::spherical})
    {
        CurvilinearGridRectangular g(pr);
        auto go = [&](int nc, int nr, double an, double bx, double by)
        { return run([&] { (void)g.Compute(nc, nr, 0., 0., an, bx, by); }); };
        for (int v : {-3, -1, 0, 1, 2})
        {
            check(go(v, 2, 0, 1, 1) == (v <= 0), "rect-columns", [&] { return cat("columns ", v); });
            check(go(2, v, 0, 1, 1) == (v <= 0), "rect-rows", [&] { return cat("rows ", v); });
        }
        for (double v : {-1e300, -91.0, -90.0, std::nextafter(-90.0, 0.0), 0.0, 45.0, std::nextafter(90.0, 0.0), 90.0, 91.0, INF, -INF})
            check(go(2, 2, v, 1, 1) == !(v > -90 && v < 90), "rect-angle", [&] { return cat("angle ", v); });
        for (double v : {-1.0, -0.0, 0.0, 0.1, 1.0})
        {
            check(go(2, 2, 0, v, 1) == !(v > 0), "rect-blockx", [&] { return cat("x block size ", v); });
            check(go(2, 2, 0, 1, v) == !(v > 0), "rect-blocky", [&] { return cat("y block size ", v); });
            if (v <= 0)
            {
                check(run([&] { (void)g.Compute(0., 0., v, 1., 3., 3.); }) == 1, "rect-ext-x", [&] { return cat("x block size ", v); });
                check(run([&] { (void)g.Compute(0., 0., 1., v, 3., 3.); }) == 1, "rect-ext-y", [&] { return cat("y block size ", v); });
                auto pl = std::make_shared<Polygons>(std::vector<Point>{{0, 0}, {3, 0}, {3, 3}, {0, 3}, {0, 0}}, pr);
                check(run([&] { (void)g.Compute(0., v, 1., pl, 0); }) == 1, "rect-pol-x", [&] { return cat("x block size ", v); });
                check(run([&] { (void)g.Compute(0., 1., v, pl, 0); }) == 1, "rect-pol-y", [&] { return cat("y block size ", v); });
                check(run([&] { (void)g.Compute(90., 1., 1., pl, 0); }) == 1, "rect-pol-angle", [&] { return std::string("angle 90"); });
            }
        }
    }
    for (double v : {-1.0, -0.0, 0.0, 0.1, ConnectMeshes::DefaultMaximumSeparationFraction, std::nextafter(ConnectMeshes::DefaultMaximumSeparationFraction, 10.), 2.0, INF})
    {
        auto c = randcfg(4, false);
        auto mesh = make(c);
        int r = run([&] { [[maybe_unused]] auto u = ConnectMeshes::Compute(*mesh, v); });
        check(r == !(v > 0 && v <= ConnectMeshes::DefaultMaximumSeparationFraction), "connect-fraction", [&] { return cat("separation fraction ", v, " outcome ", r); });
    }
    for (int v = -300; v < 300; ++v)
    {
        int r = run([&] { check((int)GetProjectionValue(v) == v, "projection-value", [&] { return cat("projection ", v); }); });
        check((r == 0) == (v >= 0 && v <= 2), "projection", [&] { return cat("projection ", v, " outcome ", r); });
        r = run([&] { check((int)GetCurvilinearDirectionValue(v) == v, "direction-value", [&] { return cat("direction ", v); }); });
        check((r == 0) == (v >= 0 && v <= 1), "direction", [&] { return cat("direction ", v, " outcome ", r); });
        for (auto* l : {&GetValidProjections(), &GetValidDeletionOptions()})
        {
            r = run([&] { range_check::CheckOneOf<int>(v, *l, "x"); });
            check(r == !(v >= 0 && v <= 2), "options", [&] { return cat("option ", v, " outcome ", r); });
        }
    }
    hx::sample("every field of the five parameter sets at range ends, neighbours, 0, -0, infinities, NaN; default values elsewhere");
    hx::sample("rectangular grids with -3..2 columns and rows, angles around +-90, block sizes around 0");
    return hx::done();
}
