// Lemma functions of C03: compositions of the real operations of /repo, verified against their contracts (or bodies).
#include <MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridBlock.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridDeleteExterior.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGridDeleteInterior.hpp>
#include <MeshKernel/CurvilinearGrid/UndoActions/AddGridLineUndoAction.hpp>
#include <MeshKernel/CurvilinearGrid/UndoActions/CurvilinearGridBlockUndoAction.hpp>
#include <MeshKernel/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.hpp>
#include <MeshKernel/CurvilinearGrid/UndoActions/ResetCurvilinearNodeAction.hpp>
using namespace meshkernel;
namespace lemma
{
    void MoveNode_undo(CurvilinearGrid& g, const CurvilinearGridNodeIndices& i, const Point& p)
    {
        auto u = g.MoveNode(i, p);
        u->Restore();
    }
    void MoveNode_redo(CurvilinearGrid& g, const CurvilinearGridNodeIndices& i, const Point& p, lin_alg::Matrix<Point>& n1)
    {
        auto u = g.MoveNode(i, p);
        n1 = g.GetNodes();
        u->Restore();
        u->Commit();
    }
    void Reset_undo(CurvilinearGrid& g, const CurvilinearGridNodeIndices& i, const Point& p, bool types)
    {
        auto u = ResetCurvilinearNodeAction::Create(g, i, g.GetNode(i), p, types);
        g.GetNode(i) = p;
        u->Restore();
    }
    // an arbitrary edit of the nodes of a block; only its contract (nodes outside the block keep their value) is used
    void edit(CurvilinearGrid& g, const CurvilinearGridNodeIndices& a, const CurvilinearGridNodeIndices& b);
    void Block_undo(CurvilinearGrid& g, const CurvilinearGridNodeIndices& a, const CurvilinearGridNodeIndices& b)
    {
        auto u = CurvilinearGridBlockUndoAction::Create(g, a, b);
        edit(g, a, b);
        u->Restore();
    }
    void Block_redo(CurvilinearGrid& g, const CurvilinearGridNodeIndices& a, const CurvilinearGridNodeIndices& b, lin_alg::Matrix<Point>& n1)
    {
        auto u = CurvilinearGridBlockUndoAction::Create(g, a, b);
        edit(g, a, b);
        n1 = g.GetNodes();
        u->Restore();
        u->Commit();
    }
    void Refine_undo(CurvilinearGrid& g, const lin_alg::Matrix<Point>& n)
    {
        auto u = CurvilinearGridRefinementUndoAction::Create(g);
        g.SetGridNodes(n);
        u->Restore();
    }
    void Refine_redo(CurvilinearGrid& g, const lin_alg::Matrix<Point>& n)
    {
        auto u = CurvilinearGridRefinementUndoAction::Create(g);
        g.SetGridNodes(n);
        u->Restore();
        u->Commit();
    }
    void AddLine_undo(CurvilinearGrid& g, const CurvilinearGridNodeIndices& a, const CurvilinearGridNodeIndices& b)
    {
        auto r = g.AddGridLineAtBoundary(a, b);
        if (std::get<1>(r) != nullptr) std::get<1>(r)->Restore();
    }
    void DeleteInterior_undo(CurvilinearGridDeleteInterior& a)
    {
        auto u = a.Compute();
        u->Restore();
    }
    void DeleteExterior_undo(CurvilinearGridDeleteExterior& a)
    {
        auto u = a.Compute();
        u->Restore();
    }
    void Invalidate_frame(CurvilinearGrid& g, const CurvilinearGridNodeIndices& i)
    {
        g.GetNode(i.m_n, i.m_m) = {constants::missing::doubleValue, constants::missing::doubleValue};
        g.ComputeGridNodeTypes();
    }
    void DeleteNode_undo(CurvilinearGrid& g, const Point& p)
    {
        auto u = g.DeleteNode(p);
        if (u != nullptr) u->Restore();
    }
}
