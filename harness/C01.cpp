// C01: undo/redo history against a reference model, over exhaustive short and random long histories.
#include "hx.hpp"
#include <MeshKernel/UndoActions/CompoundUndoAction.hpp>
#include <MeshKernel/UndoActions/UndoAction.hpp>
#include <MeshKernel/UndoActions/UndoActionStack.hpp>
#include <MeshKernel/Exceptions.hpp>
#include <deque>
using namespace meshkernel;

static std::vector<std::pair<int, int>> gLog; // (tag, 0 commit / 1 restore)
static int gThrowTag = -1;
static std::set<int> gLive;

class Act : public UndoAction
{
public:
    explicit Act(int t) : tag(t) { gLive.insert(t); }
    ~Act() override { gLive.erase(tag); }
    int tag;

private:
    void DoCommit() override
    {
        if (tag == gThrowTag) throw std::runtime_error("commit");
        gLog.push_back({tag, 0});
    }
    void DoRestore() override
    {
        if (tag == gThrowTag) throw std::runtime_error("restore");
        gLog.push_back({tag, 1});
    }
};

struct Ent
{
    int tag, id;
};
struct Model
{
    std::deque<Ent> c, r;
    size_t mx = 10;
};

static void run(const std::vector<int>& ops, UInt maxInit, bool long_)
{
    UndoActionStack st(maxInit);
    Model m;
    m.mx = maxInit;
    int tag = 0;
    std::string h = hx::cat("max=", maxInit, " ops=");
    auto lit = [&](const char* n)
    { return n; };
    (void)lit;
    gLive.clear();
    for (size_t k = 0; k < ops.size(); ++k)
    {
        const int op = ops[k];
        gLog.clear();
        std::vector<std::pair<int, int>> want;
        std::string what;
        switch (op % 16)
        {
        case 0:
        case 1:
        case 2:
        {
            const int id = op % 16;
            what = hx::cat("Add(#", tag, ",id=", id, ")");
            st.Add(std::make_unique<Act>(tag), id);
            if (m.mx > 0)
            {
                m.c.push_back({tag, id});
                std::erase_if(m.r, [&](const Ent& e)
                              { return e.id == id; });
                if (m.c.size() > m.mx) m.c.pop_front();
            }
            ++tag;
            break;
        }
        case 3:
        case 4:
        {
            what = "Undo";
            auto r = st.Undo();
            std::optional<int> e;
            if (!m.c.empty())
            {
                auto x = m.c.back();
                m.c.pop_back();
                m.r.push_back(x);
                want.push_back({x.tag, 1});
                e = x.id;
            }
            hx::check(r == e, "undo-result", [&]
                      { return h + " " + what + " returned another id than that of the last committed action"; });
            break;
        }
        case 5:
        case 6:
        {
            what = "Redo";
            auto r = st.Commit();
            std::optional<int> e;
            if (!m.r.empty())
            {
                auto x = m.r.back();
                m.r.pop_back();
                m.c.push_back(x);
                if (m.c.size() > m.mx) m.c.pop_front();
                want.push_back({x.tag, 0});
                e = x.id;
            }
            hx::check(r == e, "redo-result", [&]
                      { return h + " " + what + " returned another id than that of the last undone action"; });
            break;
        }
        case 7:
        {
            const int id = (op / 16) % 3;
            what = hx::cat("Remove(", id, ")");
            const size_t n = st.Remove(id);
            const size_t e = std::erase_if(m.c, [&](const Ent& x)
                                           { return x.id == id; }) +
                             std::erase_if(m.r, [&](const Ent& x)
                                           { return x.id == id; });
            hx::check(n == e, "remove-count", [&]
                      { return h + " " + what + hx::cat(" returned ", n, " instead of ", e); });
            break;
        }
        case 8:
            what = "Clear";
            st.Clear();
            m.c.clear();
            m.r.clear();
            break;
        case 9:
        {
            const UInt n = static_cast<UInt>((op / 16) % 5);
            what = hx::cat("SetMaximumSize(", n, ")");
            st.SetMaximumSize(n);
            m.mx = n;
            if (n == 0)
            {
                m.c.clear();
                m.r.clear();
            }
            while (m.c.size() > n) m.c.pop_front();
            break;
        }
        case 10:
        {
            what = "Add(null)";
            st.Add(nullptr, 1);
            break;
        }
        case 11:
        {
            what = "Add(restored action)";
            auto a = std::make_unique<Act>(tag);
            a->Restore();
            gLog.clear();
            bool threw = false;
            try
            {
                st.Add(std::move(a), 1);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            hx::check(threw || m.mx == 0, "add-restored", [&]
                      { return h + " adding an action in the restored state was accepted"; });
            ++tag;
            break;
        }
        case 12:
        {
            const bool undo = (op / 16) % 2 == 0;
            auto& q = undo ? m.c : m.r;
            if (q.empty()) break;
            what = undo ? "Undo(action throws)" : "Redo(action throws)";
            gThrowTag = q.back().tag;
            bool threw = false;
            try
            {
                undo ? st.Undo() : st.Commit();
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            gThrowTag = -1;
            hx::check(threw, "exception-lost", [&]
                      { return h + " " + what + ": the exception of the action did not reach the caller"; });
            break;
        }
        default:
        {
            what = "Size";
            break;
        }
        }
        h += " " + what;
        // compare
        hx::check(gLog == want, "calls", [&]
                  { std::string g; for (auto& x : gLog) g += hx::cat(" ", x.second ? "restore" : "commit", "#", x.first);
                    return h + " -> actions called:" + g; });
        bool same = st.Size() == m.c.size() + m.r.size() && st.CommittedSize() == m.c.size() && st.RestoredSize() == m.r.size();
        for (int id = 0; id < 3; ++id)
        {
            same = same && st.CommittedSize(id) == static_cast<size_t>(std::count_if(m.c.begin(), m.c.end(), [&](const Ent& x)
                                                                                    { return x.id == id; })) &&
                   st.RestoredSize(id) == static_cast<size_t>(std::count_if(m.r.begin(), m.r.end(), [&](const Ent& x)
                                                                           { return x.id == id; }));
        }
        if (!hx::check(same, "sizes", [&]
                       { return h + hx::cat(" -> sizes committed ", st.CommittedSize(), " restored ", st.RestoredSize(), " expected ", m.c.size(), " ", m.r.size()); })) return;
        std::set<int> live;
        for (auto& x : m.c) live.insert(x.tag);
        for (auto& x : m.r) live.insert(x.tag);
        if (!hx::check(live == gLive, "kept-actions", [&]
                       { return h + " -> the actions kept alive are not those of the history"; })) return;
    }
    // drain: the order in which everything is undone and redone
    gLog.clear();
    std::vector<std::pair<int, int>> want;
    size_t n = m.c.size();
    for (auto it = m.c.rbegin(); it != m.c.rend(); ++it) want.push_back({it->tag, 1});
    for (size_t i = 0; i < n + 1; ++i) st.Undo();
    hx::check(gLog == want, "order", [&]
              { return h + " -> undoing everything did not restore the actions newest first"; });
    gLog.clear();
    want.clear();
    for (auto it = m.r.rbegin(); it != m.r.rend(); ++it) {}
    std::deque<Ent> r = m.r;
    for (auto it = m.c.rbegin(); it != m.c.rend(); ++it) r.push_back(*it);
    std::deque<Ent> c;
    while (!r.empty())
    {
        want.push_back({r.back().tag, 0});
        r.pop_back();
    }
    const size_t total = want.size();
    for (size_t i = 0; i < total + 1; ++i) st.Commit();
    hx::check(gLog == want, "order", [&]
              { return h + " -> redoing everything did not commit the actions in the reverse order of undoing"; });
    hx::shape(h);
    if (long_) hx::sample(h);
}

static void compound()
{
    for (int n = 0; n < 6; ++n)
    {
        for (int pat = 0; pat < 64; ++pat)
        {
            gLog.clear();
            auto c = CompoundUndoAction::Create();
            std::vector<int> tags;
            for (int i = 0; i < n; ++i)
            {
                if (pat & (1 << i))
                    c->Add(nullptr);
                else
                {
                    c->Add(std::make_unique<Act>(i));
                    tags.push_back(i);
                }
            }
            const std::string h = hx::cat("compound of ", n, " parts, null mask ", pat);
            auto expect = [&](bool commit)
            {
                std::vector<std::pair<int, int>> w;
                if (commit)
                    for (int t : tags) w.push_back({t, 0});
                else
                    for (auto it = tags.rbegin(); it != tags.rend(); ++it) w.push_back({*it, 1});
                return w;
            };
            for (int k = 0; k < 3; ++k)
            {
                gLog.clear();
                c->Restore();
                hx::check(gLog == expect(false), "compound", [&]
                          { return h + ": restore does not undo the parts once each in reverse order"; });
                gLog.clear();
                c->Restore();
                hx::check(gLog.empty(), "idempotent", [&]
                          { return h + ": restoring a restored action acts again"; });
                c->Commit();
                hx::check(gLog == expect(true), "compound", [&]
                          { return h + ": commit does not redo the parts once each in order"; });
                gLog.clear();
                c->Commit();
                hx::check(gLog.empty(), "idempotent", [&]
                          { return h + ": committing a committed action acts again"; });
            }
            auto bad = std::make_unique<Act>(99);
            bad->Restore();
            bool threw = false;
            try
            {
                c->Add(std::move(bad));
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            hx::check(threw, "compound-restored-part", [&]
                      { return h + ": a restored part was accepted"; });
            hx::shape(h);
        }
    }
    // nested
    gLog.clear();
    auto outer = CompoundUndoAction::Create();
    auto inner = CompoundUndoAction::Create();
    inner->Add(std::make_unique<Act>(1));
    inner->Add(std::make_unique<Act>(2));
    outer->Add(std::make_unique<Act>(0));
    outer->Add(std::move(inner));
    outer->Add(std::make_unique<Act>(3));
    outer->Restore();
    outer->Commit();
    std::vector<std::pair<int, int>> w{{3, 1}, {2, 1}, {1, 1}, {0, 1}, {0, 0}, {1, 0}, {2, 0}, {3, 0}};
    hx::check(gLog == w, "compound", []
              { return "nested compound action: wrong order"; });
}

int main()
{
    hx::init();
    // exhaustive short histories
    const std::vector<int> alpha{0, 1, 3, 5, 7, 7 + 16, 9 + 16, 9 + 32, 9, 8, 12, 12 + 16};
    const int depth = hx::thorough() ? 6 : 4;
    for (UInt mx : {UInt(1), UInt(2), UInt(3), UInt(0)})
    {
        std::vector<int> idx(depth, 0);
        while (true)
        {
            std::vector<int> ops;
            for (int i : idx) ops.push_back(alpha[i]);
            run(ops, mx, false);
            int p = depth - 1;
            while (p >= 0 && ++idx[p] == (int)alpha.size()) idx[p--] = 0;
            if (p < 0) break;
        }
    }
    const int reps = hx::thorough() ? 60000 : 6000;
    for (int r = 0; r < reps; ++r)
    {
        std::vector<int> ops;
        const int n = 5 + hx::rnd(60);
        for (int i = 0; i < n; ++i) ops.push_back(hx::rnd(14) + 16 * hx::rnd(15));
        for (auto& o : ops)
            if (((o % 16) == 8 || (o % 16) == 9) && hx::rnd(3)) o = hx::rnd(7);
        run(ops, static_cast<UInt>(hx::rnd(6) * hx::rnd(4)), true);
    }
    compound();
    return hx::done();
}
