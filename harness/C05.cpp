// C05: the registry of states and the boundary of the interface
#include "apihx.hpp"
#include <sys/resource.h>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
using namespace ax;
using hx::check;
using hx::rnd;
static std::string hist;
/// an argument for every parameter type: a number, empty lists and pointers to zeroed memory
static int number = 0;
template <class T> struct Arg
{
    std::remove_cvref_t<T> v{};
    T get()
    {
        if constexpr (std::is_same_v<T, int>) return number;
        else return static_cast<T>(v);
    }
};
static std::vector<double> zeros(4096, 0.0);
template <class T> struct Arg<T*>
{
    T* get() { return reinterpret_cast<T*>(const_cast<double*>(zeros.data())); }
};
template <class T> struct Arg<T&>
{
    std::remove_const_t<T> v{};
    T& get() { return v; }
};
template <class... A> int callwith(int (*f)(int, A...), int id)
{
    std::tuple<Arg<A>...> a;
    return std::apply([&](auto&... x) { return f(id, x.get()...); }, a);
}
struct Fn
{
    const char* name;
    int (*call)(int);
};
static const std::vector<Fn> fns = {
#define API(f) {#f, [](int id) { return callwith(&f, id); }},
#include "api_list.inc"
#undef API
};
static bool answers(const std::string& n) { return n == "mkernel_is_valid_state" || n == "mkernel_undo_state_count_for_id" || n == "mkernel_clear_undo_state_for_id"; }
struct World
{
    std::map<int, int> projection; ///< the states that exist
    std::map<int, int> steps;      ///< recorded steps per state
};
static void compare(const World& w, const std::string& key)
{
    check(meshKernelState.size() == w.projection.size(), "states-" + key, [&] { return cat(meshKernelState.size(), " states instead of ", w.projection.size(), ":", hist); });
    for (int id = -2; id < 40; ++id)
    {
        bool v = true;
        int rc = mkernel_is_valid_state(id, v);
        check(rc == 0 && v == w.projection.contains(id), "valid-" + key, [&] { return cat("id ", id, " valid: ", v, " code ", rc, ":", hist); });
        int p = -7, c = -1, r = -1;
        rc = mkernel_get_projection(id, p);
        if (w.projection.contains(id)) check(rc == 0 && p == w.projection.at(id), "projection-" + key, [&] { return cat("projection of ", id, ": ", p, " code ", rc, ":", hist); });
        else check(rc != 0, "projection-unknown-" + key, [&] { return cat("projection of the unknown id ", id, " is answered:", hist); });
        check(meshKernelState.size() == w.projection.size(), "states-asked-" + key, [&] { return cat("asking for ", id, " changed the number of states:", hist); });
        if (w.projection.contains(id))
        {
            mkernel_undo_state_count_for_id(id, c, r);
            check(c == w.steps.at(id), "steps-" + key, [&] { return cat("history of ", id, " has ", c, " steps instead of ", w.steps.at(id), ":", hist); });
        }
    }
}
static void registry(int len)
{
    mkernel_clear_state();
    World w;
    hist.clear();
    int next = 0;
    for (int t = 0; t < len; ++t)
    {
        int k = rnd(12);
        auto pick = [&] { return rnd(5) == 0 ? rnd(45) - 3 : rnd(next + 1); };
        std::string key;
        int id = pick(), rc = 0;
        hx::kase(cat(hist, " step ", k, " id ", id));
        if (k < 4)
        {
            int p = rnd(6) - 1, got = -1;
            rc = mkernel_allocate_state(p, got);
            hist += cat(" allocate(", p, ")=", got, "/", rc);
            key = "allocate";
            bool ok = p >= 0 && p <= 2;
            check((rc == 0) == ok, "allocate-code", [&] { return cat("projection ", p, " code ", rc, ":", hist); });
            if (rc == 0)
            {
                check(!w.projection.contains(got), "allocate-fresh", [&] { return cat("the new id ", got, " is in use:", hist); });
                w.projection[got] = p, w.steps[got] = 0;
                next = std::max(next, got + 1);
                auto s = snap(got);
                check(s.edges2.empty() && s.edges1.empty() && s.grid.empty(), "allocate-empty", [&] { return cat("the new state is not empty:", hist); });
            }
        }
        else if (k < 6)
        {
            key = "expunge";
            rc = mkernel_expunge_state(id);
            hist += cat(" expunge(", id, ")=", rc);
            check((rc == 0) == w.projection.contains(id), "expunge-code", [&] { return cat("code ", rc, ":", hist); });
            w.projection.erase(id), w.steps.erase(id);
        }
        else if (k < 7)
        {
            key = "deallocate";
            rc = mkernel_deallocate_state(id);
            hist += cat(" deallocate(", id, ")=", rc);
            check((rc == 0) == w.projection.contains(id), "deallocate-code", [&] { return cat("code ", rc, ":", hist); });
            if (rc == 0) ++w.steps[id];
        }
        else if (k < 9)
        {
            key = "set";
            In in(1 + rnd(2), 1 + rnd(2), 0, 0, 1);
            rc = mkernel_mesh2d_set(id, in.m2());
            hist += cat(" set(", id, ")=", rc);
            check((rc == 0) == w.projection.contains(id), "set-code", [&] { return cat("code ", rc, ":", hist); });
            if (rc == 0) ++w.steps[id];
        }
        else if (k < 10)
        {
            key = "clear-history";
            rc = mkernel_clear_undo_state_for_id(id);
            hist += cat(" clear_undo_for(", id, ")=", rc);
            if (w.steps.contains(id)) w.steps[id] = 0;
        }
        else if (k < 11 && rnd(6) == 0)
        {
            key = "clear";
            rc = mkernel_clear_state();
            hist += " clear_state";
            w = World{};
            check(rc == 0, "clear-code", [&] { return cat("code ", rc, ":", hist); });
        }
        else continue;
        if (hist.size() > 500) hist = hist.substr(hist.size() - 500);
        hx::shape(key + (rc ? " refused" : ""));
        compare(w, key);
        if (hx::failed.size() > 8) return;
    }
}
static void unknown()
{
    // two states with contents and a history; every function is called for ids that do not exist (any more)
    mkernel_clear_state();
    int a = -1, b = -1, gone = -1;
    mkernel_allocate_state(0, a);
    mkernel_allocate_state(1, b);
    mkernel_allocate_state(0, gone);
    In in(2, 2, 0, 0, 1), in2(3, 1, 1, 1, 1);
    mkernel_mesh2d_set(a, in.m2());
    mkernel_mesh2d_set(b, in2.m2());
    mkernel_mesh2d_set(gone, in2.m2());
    mkernel_expunge_state(gone);
    World w;
    w.projection = {{a, 0}, {b, 1}};
    w.steps = {{a, 1}, {b, 1}};
    auto const sa = snap(a), sb = snap(b);
    for (auto const& f : fns)
    {
        for (int id : {gone, -1, 77, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()})
        {
            hist = cat(" ", f.name, "(", id, ", ...)");
            hx::kase(hist);
            int rc = f.call(id);
            hx::shape(f.name);
            if (!answers(f.name)) check(rc != 0, cat("unknown-", f.name), [&] { return cat("the id ", id, " does not exist, but the call succeeds:", hist); });
            check(meshKernelState.size() == 2, cat("created-", f.name), [&] { return cat("the call left ", meshKernelState.size(), " states instead of 2:", hist); });
            if (meshKernelState.size() != 2) meshKernelState.erase(id);
            auto d = differ(snap(a), sa) + differ(snap(b), sb);
            check(d.empty(), cat("touched-", f.name), [&] { return cat("the call changed another state: ", d, ":", hist); });
        }
        compare(w, f.name);
        if (hx::failed.size() > 8) return;
    }
    hx::cover(cat(fns.size(), " functions called with ids that do not exist"));
}
static void escaping()
{
    // every function is called for a state that exists with arguments that mean little, each call in a process of its own: whatever the
    // kernel makes of them (crashes included, which are not judged here), no exception leaves the interface and no other state is touched
    mkernel_clear_state();
    number = 0;
    int a = -1, b = -1;
    mkernel_allocate_state(0, a);
    mkernel_allocate_state(1, b);
    In in(2, 2, 0, 0, 1), in2(3, 1, 1, 1, 1);
    In1 one(3, 0, 0, 1, 1);
    mkernel_mesh2d_set(a, in.m2());
    mkernel_mesh1d_set(a, one.m1());
    mkernel_curvilinear_compute_rectangular_grid(a, grid(4, 4, 0, 0, 1));
    mkernel_mesh2d_set(b, in2.m2());
    auto const sb = snap(b);
    int judged = 0;
    std::vector<std::tuple<pid_t, std::string, int>> running;
    auto reap = [&](size_t keep)
    {
        while (running.size() > keep)
        {
            auto [pid, name, v] = running.front();
            running.erase(running.begin());
            int st = 0;
            waitpid(pid, &st, 0);
            int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
            auto what = cat(name, "(id, ", v, ", ...)");
            judged += code >= 0;
            check(code != 77, "escaped-" + name, [&] { return cat("an exception leaves ", what); });
            check(code != 78, "other-" + name, [&] { return cat("another state is changed by ", what); });
            check(code != 79, "states-" + name, [&] { return cat("the number of states is changed by ", what); });
        }
    };
    for (auto const& f : fns)
        for (int v : {0, -1, 1, 1000})
        {
            std::fflush(stdout);
            pid_t pid = fork();
            if (pid < 0) continue;
            if (pid == 0)
            {
                rlimit r{2, 2}, m{3ull << 30, 3ull << 30}, c{0, 0};
                setrlimit(RLIMIT_CPU, &r), setrlimit(RLIMIT_AS, &m), setrlimit(RLIMIT_CORE, &c);
                alarm(4);
                if (!std::freopen("/dev/null", "w", stdout) || !std::freopen("/dev/null", "w", stderr)) _exit(0);
                number = v;
                int rc = 0;
                try
                {
                    rc = f.call(a);
                }
                catch (...)
                {
                    _exit(77);
                }
                if (!meshKernelState.contains(b) || !differ(snap(b), sb).empty()) _exit(78);
                size_t expected = rc == 0 && std::string(f.name) == "mkernel_expunge_state" ? 1 : 2;
                _exit(meshKernelState.size() == expected ? 0 : 79);
            }
            running.emplace_back(pid, f.name, v);
            reap(7);
        }
    reap(0);
    hx::cover(cat("calls with odd arguments for a state that exists: ", judged > 300 ? "most return" : "few return"));
}
static void refused()
{
    // calls that fail inside the kernel: the code says so, and the state and its history are as before
    mkernel_clear_state();
    int a = -1, b = -1, i = 0;
    mkernel_allocate_state(0, a);
    mkernel_allocate_state(0, b);
    In in(2, 2, 0, 0, 1);
    mkernel_mesh2d_set(b, in.m2());
    auto const sa = snap(a), sb = snap(b);
    Geo none;
    double x = 0, y = 0;
    std::vector<std::pair<std::string, std::function<int()>>> calls = {
        {"mesh2d_delete on an empty mesh", [&] { return mkernel_mesh2d_delete(a, none.get(), 0, 0); }},
        {"mesh2d_delete with option 17", [&] { return mkernel_mesh2d_delete(b, none.get(), 17, 0); }},
        {"mesh2d_get_node_index on an empty mesh", [&] { return mkernel_mesh2d_get_node_index(a, 0, 0, 1, -9, -9, 9, 9, i); }},
        {"mesh2d_get_closest_node on an empty mesh", [&] { return mkernel_mesh2d_get_closest_node(a, 0, 0, 1, -9, -9, 9, 9, x, y); }},
        {"mesh2d_get_closest_node far away", [&] { return mkernel_mesh2d_get_closest_node(b, 500, 500, 1, -9, -9, 9, 9, x, y); }},
        {"mesh2d_move_node without nodes", [&] { return mkernel_mesh2d_move_node(a, 1, 1, 0); }},
        {"curvilinear_convert_to_mesh2d without a grid", [&] { return mkernel_curvilinear_convert_to_mesh2d(a); }},
        {"curvilinear_compute_rectangular_grid with no columns", [&] { return mkernel_curvilinear_compute_rectangular_grid(a, grid(-1, -1, 0, 0, 1)); }},
        {"mesh2d_convert_projection to 9", [&] { return mkernel_mesh2d_convert_projection(b, 9, ""); }},
        {"allocate_state with projection 7", [&] { return mkernel_allocate_state(7, i); }},
        {"set_undo_size -1", [&] { return mkernel_set_undo_size(-1); }},
    };
    for (auto& [n, f] : calls)
    {
        hist = " " + n;
        hx::kase(hist);
        int rc = f();
        check(rc != 0, "refused-" + n, [&] { return cat("the call succeeds:", hist); });
        auto d = differ(snap(a), sa) + differ(snap(b), sb);
        check(d.empty(), "refused-changed-" + n, [&] { return cat("the refused call changed a state: ", d); });
        int c = 0, r = 0;
        mkernel_undo_state_count(c, r);
        check(c == 1, "refused-recorded-" + n, [&] { return cat("the refused call was recorded: ", c); });
        hx::shape(n);
    }
}
int main()
{
    hx::init();
    unknown();
    number = 0;
    refused();
    escaping();
    number = 0;
    int n = hx::thorough() ? 6000 : 600;
    for (int i = 0; i < n && hx::failed.size() < 8; ++i) registry(10 + rnd(40));
    hx::sample(hist);
    return hx::done();
}
