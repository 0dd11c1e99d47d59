// C04: histories of interface calls on several states, walked back and forth
#include "apihx.hpp"
using namespace ax;
using hx::check;
using hx::rnd;
using hx::rndd;
struct Step
{
    int id;
    std::string op;
    Snap before, after;
};
static std::vector<Step> done, undone;
static std::vector<int> ids;
static std::string hist;
static int counts(int& r)
{
    int c = 0;
    mkernel_undo_state_count(c, r);
    return c;
}
static int op(int id, std::string& name)
{
    auto& st = meshKernelState.at(id);
    auto& m = *st.m_mesh2d;
    m.Administrate(); // node and edge administration is up to date when a call starts
    auto const nn = static_cast<int>(m.Nodes().size());
    auto const ne = static_cast<int>(m.Edges().size());
    auto node = [&] { return nn ? rnd(nn) : 0; };
    auto vnode = [&]
    {
        for (int k = 0; k < 30 && nn; ++k)
        {
            int i = rnd(nn);
            if (m.Nodes()[i].IsValid() && i < static_cast<int>(m.m_nodesNumEdges.size()) && m.m_nodesNumEdges[i] > 0) return i;
        }
        return -1;
    };
    bool cg = st.m_curvilinearGrid && st.m_curvilinearGrid->IsValid() && st.m_curvilinearGrid->NumN() >= 3 && st.m_curvilinearGrid->NumM() >= 3;
    bool cart = st.m_projection == meshkernel::Projection::cartesian;
    auto gpt = [&] { return st.m_curvilinearGrid->GetNode(rnd(st.m_curvilinearGrid->NumN()), rnd(st.m_curvilinearGrid->NumM())); };
    int k = rnd(38), i, j, l;
    double x0 = 5 * rnd(4), y0 = 5 * rnd(4);
    Geo none;
    auto mesh = [&] { return ne > 3 && ne < 900; };
    // every edge has a face: some algorithms are not defined on meshes with loose edges
    auto clean = [&]
    {
        if (!mesh()) return false;
        m.Administrate();
        for (size_t q = 0; q < m.Edges().size(); ++q)
            if (m.Edges()[q].first != meshkernel::constants::missing::uintValue && m.GetNumEdgesFaces(static_cast<meshkernel::UInt>(q)) == 0) return false;
        return true;
    };
    auto full = [&]
    {
        if (!cg || st.m_curvilinearGrid->NumN() > 12 || st.m_curvilinearGrid->NumM() > 12) return false;
        for (meshkernel::UInt q = 0; q < st.m_curvilinearGrid->NumN(); ++q)
            for (meshkernel::UInt w = 0; w < st.m_curvilinearGrid->NumM(); ++w)
                if (!st.m_curvilinearGrid->GetNode(q, w).IsValid()) return false;
        return true;
    };
    auto at = [&](int q, int w) { return st.m_curvilinearGrid->GetNode(q, w); };
    switch (k)
    {
    case 32: name = "mesh2d_remove_disconnected_regions"; if (!clean()) return -1; return mkernel_mesh2d_remove_disconnected_regions(id);
    case 33: name = "mesh2d_merge_nodes"; if (!clean()) return -1; return mkernel_mesh2d_merge_nodes(id, none.get());
    case 34: name = "curvilinear_refine"; if (!full()) return -1; { auto p = at(0, 0), q = at(0, 2); return mkernel_curvilinear_refine(id, p.x, p.y, q.x, q.y, 2); }
    case 35: name = "curvilinear_derefine"; if (!full()) return -1; { auto p = at(0, 0), q = at(0, 2); return mkernel_curvilinear_derefine(id, p.x, p.y, q.x, q.y); }
    case 36: name = "curvilinear_delete_interior"; if (!full() || st.m_curvilinearGrid->NumN() < 5 || st.m_curvilinearGrid->NumM() < 5) return -1; { auto p = at(1, 1), q = at(3, 3); return mkernel_curvilinear_delete_interior(id, p.x, p.y, q.x, q.y); }
    case 37: name = "curvilinear_delete_exterior"; if (!full()) return -1; { auto p = at(0, 0), q = at(2, 2); return mkernel_curvilinear_delete_exterior(id, p.x, p.y, q.x, q.y); }
    case 0:
    case 1: name = "mesh2d_set"; { In in(1 + rnd(3), 1 + rnd(3), x0, y0, 1 + rnd(2)); return mkernel_mesh2d_set(id, in.m2()); }
    case 2: name = "mesh2d_add"; if (ne > 900) return -1; { In in(1 + rnd(2), 1 + rnd(2), x0 + 0.3, y0, 1); return mkernel_mesh2d_add(id, in.m2()); }
    case 3: name = "mesh2d_make_rectangular_mesh"; if (ne > 600) return -1; return mkernel_mesh2d_make_rectangular_mesh(id, grid(1 + rnd(3), 1 + rnd(3), x0, y0, 1));
    case 4: name = "mesh2d_insert_node"; return mkernel_mesh2d_insert_node(id, 10 * rndd(), 10 * rndd(), i);
    case 5: name = "mesh2d_insert_edge"; i = vnode(), j = vnode(); if (i < 0 || i == j) return -1; return mkernel_mesh2d_insert_edge(id, i, j, l);
    case 6: name = "mesh2d_insert_edge_from_coordinates"; if (!cart) return -1; return mkernel_mesh2d_insert_edge_from_coordinates(id, 10 * rndd(), 10 * rndd(), 10 * rndd(), 10 * rndd(), i, j, l);
    case 7: name = "mesh2d_delete_node"; i = vnode(); if (i < 0) return -1; return mkernel_mesh2d_delete_node(id, i);
    case 8: name = "mesh2d_move_node"; i = vnode(); if (i < 0) return -1; return mkernel_mesh2d_move_node(id, 10 * rndd(), 10 * rndd(), i);
    case 9: name = "mesh2d_delete_edge_by_index"; if (!ne) return -1; i = rnd(ne); if (m.Edges()[i].first == meshkernel::constants::missing::uintValue) return -1; return mkernel_mesh2d_delete_edge_by_index(id, i);
    case 10: name = "mesh2d_translate"; if (!nn) return -1; return mkernel_mesh2d_translate(id, rndd(), rndd());
    case 11: name = "mesh2d_rotate"; if (!nn || !cart) return -1; return mkernel_mesh2d_rotate(id, 1, 2, 90 * rndd());
    case 12: name = "mesh2d_merge_two_nodes"; i = vnode(), j = vnode(); if (i < 0 || i == j) return -1; return mkernel_mesh2d_merge_two_nodes(id, i, j);
    case 13: name = "mesh2d_delete"; if (!mesh()) return -1; { double x = 8 * rndd(), y = 8 * rndd(); Geo g({{x, y}, {x + 4, y}, {x + 4, y + 4}, {x, y + 4}, {x, y}}); return mkernel_mesh2d_delete(id, g.get(), rnd(3), rnd(2)); }
    case 14: name = "mesh2d_refine_based_on_polygon"; if (!mesh() || ne > 150 || !cart) return -1; { meshkernel::MeshRefinementParameters p; p.max_num_refinement_iterations = 1; p.refine_intersected = 0; p.min_edge_size = 0.1; p.refinement_type = 1; p.account_for_samples_outside = 0; p.connect_hanging_nodes = 1; p.smoothing_iterations = 0; return mkernel_mesh2d_refine_based_on_polygon(id, none.get(), p); }
    case 15: name = "mesh2d_flip_edges"; if (!mesh()) return -1; return mkernel_mesh2d_flip_edges(id, 1, 0, none.get(), none.get());
    case 16: name = "mesh2d_snap_to_landboundary"; if (!cart || !clean() || done.empty() || done.back().id != id || done.back().op != "mesh2d_set") return -1; { Geo land({{-1, y0 + 0.1}, {12, y0 + 0.3}, {25, y0}}); return mkernel_mesh2d_snap_to_landboundary(id, none.get(), land.get()); }
    case 17: name = "mesh2d_delete_hanging_edges"; if (!mesh()) return -1; return mkernel_mesh2d_delete_hanging_edges(id);
    case 18: name = "mesh2d_convert_projection"; if (!nn) return -1; { double mx = 0; for (auto& p : m.Nodes()) if (p.IsValid()) mx = std::max({mx, std::abs(p.x), std::abs(p.y)}); if (mx > 60 || mx < 1e-3 || !cart) return -1; return mkernel_mesh2d_convert_projection(id, 1, "+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31"); }
    case 19: name = "mesh1d_set"; { In1 in(2 + rnd(4), x0, y0, 1.1, 0.7); return mkernel_mesh1d_set(id, in.m1()); }
    case 20: name = "mesh1d_add"; if (st.m_mesh1d->Nodes().size() > 60) return -1; { In1 in(2 + rnd(4), x0, y0 + 1, 1.1, 0.7); return mkernel_mesh1d_add(id, in.m1()); }
    case 21: name = "curvilinear_compute_rectangular_grid"; return mkernel_curvilinear_compute_rectangular_grid(id, grid(3 + rnd(3), 3 + rnd(3), x0, y0, 1));
    case 22: name = "curvilinear_compute_circular_grid"; { auto p = grid(4 + rnd(2), 3 + rnd(2), x0, y0, 1); p.radius_curvature = 10; p.uniform_columns_fraction = 1; p.uniform_rows_fraction = 1; return mkernel_curvilinear_compute_circular_grid(id, p); }
    case 23: name = "curvilinear_move_node"; if (!cg) return -1; { auto p = gpt(); if (!p.IsValid()) return -1; return mkernel_curvilinear_move_node(id, p.x, p.y, p.x + 0.1, p.y - 0.2); }
    case 24: name = "curvilinear_delete_node"; if (!cg) return -1; { auto p = gpt(); if (!p.IsValid()) return -1; return mkernel_curvilinear_delete_node(id, p.x, p.y); }
    case 25: name = "curvilinear_convert_to_mesh2d"; if (!cg || ne > 600) return -1; return mkernel_curvilinear_convert_to_mesh2d(id);
    case 26: name = "curvilinear_set"; { int n = 3 + rnd(3), mm = 3 + rnd(3); std::vector<double> x, y; for (int a = 0; a < n; ++a) for (int b = 0; b < mm; ++b) x.push_back(x0 + b + 0.1 * a), y.push_back(y0 + a); meshkernelapi::CurvilinearGrid c; c.node_x = x.data(), c.node_y = y.data(), c.num_n = n, c.num_m = mm; return mkernel_curvilinear_set(id, c); }
    case 27: name = "deallocate_state"; if (rnd(3)) return -1; return mkernel_deallocate_state(id);
    case 28: name = "contacts_compute_multiple"; if (st.m_mesh1d->Nodes().size() < 2 || !clean() || m.GetNumFaces() == 0) return -1; { std::vector<int> mask(st.m_mesh1d->Nodes().size(), 1); return mkernel_contacts_compute_multiple(id, mask.data()); }
    case 29: name = "mesh2d_connect_meshes"; if (!mesh() || !cart || ne > 200 || !clean() || done.empty() || done.back().id != id || done.back().op != "mesh2d_set") return -1; { In in(2, 2, 30, 30, 1); return mkernel_mesh2d_connect_meshes(id, in.m2(), 0.3); }
    case 30: name = "network1d_set"; { Geo g({{x0, y0}, {x0 + 3, y0 + 1}, {x0 + 6, y0}}); return mkernel_network1d_set(id, g.get()); }
    case 31: name = "mesh2d_delete_small_flow_edges_and_small_triangles"; if (!mesh()) return -1; return mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(id, 0.1, 0.1);
    }
    (void)node;
    return -1;
}
static bool isolated(int id)
{
    auto& m = *meshKernelState.at(id).m_mesh2d;
    std::vector<int> n(m.Nodes().size(), 0);
    for (auto const& e : m.Edges())
        if (e.first < n.size() && e.second < n.size())
        {
            ++n[e.first], ++n[e.second];
            if (!m.Nodes()[e.first].IsValid() || !m.Nodes()[e.second].IsValid()) return true; // nor does an edge without its nodes
        }
    for (size_t i = 0; i < n.size(); ++i)
        if (m.Nodes()[i].IsValid() && n[i] == 0) return true;
    return false;
}
static void history(int len, int nstates)
{
    mkernel_clear_state();
    mkernel_set_undo_size(1000);
    done.clear(), undone.clear(), ids.clear(), hist.clear();
    for (int i = 0; i < nstates; ++i)
    {
        int id = -1;
        mkernel_allocate_state(0, id);
        ids.push_back(id);
    }
    for (int t = 0; t < len; ++t)
    {
        std::vector<Snap> all;
        for (int id : ids) all.push_back(snap(id));
        int act = rnd(10);
        // a node without edges does not survive the next administration (known finding of C02): go back one step or start a new history
        bool loose = false;
        for (int id : ids) loose = loose || isolated(id);
        if (loose)
        {
            if (!done.empty() && rnd(2)) act = 6;
            else
            {
                mkernel_clear_undo_state();
                done.clear(), undone.clear();
                for (int id : ids) meshKernelState.at(id).m_mesh2d->Administrate();
                continue;
            }
        }
        int who = -1;
        std::string name;
        if (act < 6)
        {
            int w = rnd(nstates), r0, r1;
            who = ids[w];
            int c0 = counts(r0);
            hx::kase(cat(hist, " -> state ", who, " ..."));
            int rc = op(who, name);
            if (rc < 0) continue;
            hist += cat(" ", name, "(", who, ")");
            if (hist.size() > 600) hist = hist.substr(hist.size() - 600);
            hx::shape(name);
            hx::cover(name + (rc ? " refused" : ""));
            int c1 = counts(r1);
            if (rc)
            {
                check(c1 == c0, "recorded-refused", [&] { return cat("a refused call was recorded:", hist); });
                mkernel_clear_undo_state();
                done.clear(), undone.clear();
            }
            else
            {
                auto after = snap(who);
                auto d = differ(after, all[w]);
                if (c1 == c0 && r1 == r0)
                    check(d.empty(), cat("unrecorded-", name), [&] { return cat("the call changed the state (", d, ") but nothing was recorded:", hist); });
                else
                {
                    std::erase_if(undone, [&](const Step& s) { return s.id == who; });
                    check(c1 == c0 + 1 && r1 == static_cast<int>(undone.size()), "recorded-once", [&] { return cat("history sizes ", c0, "/", r0, " -> ", c1, "/", r1, ":", hist); });
                    done.push_back({who, name, all[w], after});
                }
            }
        }
        else if (act < 9)
        {
            bool did = false;
            int id = -5;
            mkernel_undo_state(did, id);
            check(did == !done.empty(), "undo-available", [&] { return cat("undo reports ", did, " with ", done.size(), " steps done:", hist); });
            if (done.empty()) continue;
            auto s = done.back();
            done.pop_back();
            hist += " undo";
            who = s.id;
            check(id == s.id, cat("undo-id-", s.op), [&] { return cat("undo reports state ", id, " instead of ", s.id, " for ", s.op, ":", hist); });
            auto d = differ(snap(s.id), s.before);
            check(d.empty(), cat("undo-", s.op), [&] { return cat("after undoing ", s.op, ": ", d, ":", hist); });
            undone.push_back(s);
        }
        else
        {
            bool did = false;
            int id = -5;
            mkernel_redo_state(did, id);
            check(did == !undone.empty(), "redo-available", [&] { return cat("redo reports ", did, " with ", undone.size(), " steps undone:", hist); });
            if (undone.empty()) continue;
            auto s = undone.back();
            undone.pop_back();
            hist += " redo";
            who = s.id;
            check(id == s.id, cat("redo-id-", s.op), [&] { return cat("redo reports state ", id, " instead of ", s.id, " for ", s.op, ":", hist); });
            auto d = differ(snap(s.id), s.after);
            check(d.empty(), cat("redo-", s.op), [&] { return cat("after redoing ", s.op, ": ", d, ":", hist); });
            done.push_back(s);
        }
        for (size_t i = 0; i < ids.size(); ++i)
        {
            if (ids[i] != who)
            {
                auto d = differ(snap(ids[i]), all[i]);
                check(d.empty(), "other-state", [&] { return cat("a step for state ", who, " changed state ", ids[i], ": ", d, ":", hist); });
            }
            int c = 0, r = 0, mc = 0, mr = 0;
            mkernel_undo_state_count_for_id(ids[i], c, r);
            for (auto& s : done) mc += s.id == ids[i];
            for (auto& s : undone) mr += s.id == ids[i];
            check(c == mc && r == mr, cat("count-for-id", name.empty() ? "" : "-" + name), [&] { return cat("history of state ", ids[i], ": ", c, "/", r, " instead of ", mc, "/", mr, ":", hist); });
        }
        if (hx::failed.size() > 8) return;
    }
}
static void network()
{
    // a network replaced and restored gives the 1d mesh of the first one
    mkernel_clear_state();
    int id = 0;
    mkernel_allocate_state(0, id);
    Geo a({{0, 0}, {4, 0}}), b({{0, 0}, {0, 9}, {3, 9}});
    auto run = [&]
    {
        mkernel_network1d_compute_offsetted_chainages(id, 1.0);
        mkernel_network1d_to_mesh1d(id, 0.01);
        return snap(id);
    };
    mkernel_network1d_set(id, a.get());
    auto s0 = run();
    bool u;
    int w;
    mkernel_undo_state(u, w);
    mkernel_network1d_set(id, b.get());
    mkernel_undo_state(u, w);
    check(u && w == id, "network-undo", [&] { return std::string("setting a network was not undone"); });
    auto s1 = run();
    auto d = differ(s1, s0);
    check(d.empty(), "undo-network1d_set", [&] { return cat("the network after set A, set B, undo gives another 1d mesh than A: ", d); });
}
int main()
{
    hx::init();
    network();
    int n = hx::thorough() ? 4000 : 500;
    for (int i = 0; i < n && hx::failed.size() < 8; ++i) history(20 + rnd(40), 1 + rnd(3));
    hx::sample(hist);
    return hx::done();
}
