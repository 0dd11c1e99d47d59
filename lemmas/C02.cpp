// Lemma functions of C02: compositions of the real operations of /repo, verified against their contracts (or bodies).
// op_undo: an edit followed by undo; op_redo: an edit, snapshot, undo, redo.
#include <MeshKernel/Mesh.hpp>
#include <MeshKernel/Mesh2D.hpp>
#include <MeshKernel/UndoActions/AddEdgeAction.hpp>
#include <MeshKernel/UndoActions/AddNodeAction.hpp>
#include <MeshKernel/UndoActions/DeleteEdgeAction.hpp>
#include <MeshKernel/UndoActions/DeleteNodeAction.hpp>
#include <MeshKernel/UndoActions/FullUnstructuredGridUndo.hpp>
#include <MeshKernel/UndoActions/MeshConversionAction.hpp>
#include <MeshKernel/UndoActions/NodeTranslationAction.hpp>
#include <MeshKernel/UndoActions/ResetEdgeAction.hpp>
#include <MeshKernel/UndoActions/ResetNodeAction.hpp>
using namespace meshkernel;
namespace lemma
{
    void InsertNode_undo(Mesh& m, const Point& p)
    {
        auto [i, u] = m.InsertNode(p);
        u->Restore();
    }
    void InsertNode_redo(Mesh& m, const Point& p, std::vector<Point>& n1, std::vector<Edge>& e1)
    {
        auto [i, u] = m.InsertNode(p);
        n1 = m.Nodes();
        e1 = m.Edges();
        u->Restore();
        u->Commit();
    }
    void ConnectNodes_undo(Mesh& m, UInt a, UInt b)
    {
        auto [i, u] = m.ConnectNodes(a, b);
        if (u != nullptr) u->Restore();
    }
    void ConnectNodes_redo(Mesh& m, UInt a, UInt b, std::vector<Point>& n1, std::vector<Edge>& e1)
    {
        auto [i, u] = m.ConnectNodes(a, b);
        n1 = m.Nodes();
        e1 = m.Edges();
        if (u != nullptr)
        {
            u->Restore();
            u->Commit();
        }
    }
    void ResetNode_undo(Mesh& m, UInt i, const Point& p)
    {
        auto u = m.ResetNode(i, p);
        u->Restore();
    }
    void ResetNode_redo(Mesh& m, UInt i, const Point& p, std::vector<Point>& n1, std::vector<Edge>& e1)
    {
        auto u = m.ResetNode(i, p);
        n1 = m.Nodes();
        e1 = m.Edges();
        u->Restore();
        u->Commit();
    }
    void ResetEdge_undo(Mesh& m, UInt i, const Edge& e)
    {
        auto u = m.ResetEdge(i, e);
        u->Restore();
    }
    void ResetEdge_redo(Mesh& m, UInt i, const Edge& e, std::vector<Point>& n1, std::vector<Edge>& e1)
    {
        auto u = m.ResetEdge(i, e);
        n1 = m.Nodes();
        e1 = m.Edges();
        u->Restore();
        u->Commit();
    }
    void DeleteEdge_undo(Mesh& m, UInt i)
    {
        auto u = m.DeleteEdge(i);
        u->Restore();
    }
    void DeleteEdge_redo(Mesh& m, UInt i, std::vector<Point>& n1, std::vector<Edge>& e1)
    {
        auto u = m.DeleteEdge(i);
        n1 = m.Nodes();
        e1 = m.Edges();
        u->Restore();
        u->Commit();
    }
    // any change of the listed nodes after the translation action was created is undone and redone
    void Translation_undo(Mesh& m, const std::vector<UInt>& idx, const std::vector<Point>& v)
    {
        auto u = NodeTranslationAction::Create(m, idx);
        for (UInt i = 0; i < idx.size(); ++i)
        {
            m.SetNode(idx[i], v[i]);
        }
        u->Restore();
    }
    void Translation_redo(Mesh& m, const std::vector<UInt>& idx, const std::vector<Point>& v, std::vector<Point>& n1, std::vector<Edge>& e1)
    {
        auto u = NodeTranslationAction::Create(m, idx);
        for (UInt i = 0; i < idx.size(); ++i)
        {
            m.SetNode(idx[i], v[i]);
        }
        n1 = m.Nodes();
        e1 = m.Edges();
        u->Restore();
        u->Commit();
    }
    // all nodes saved
    void TranslationAll_undo(Mesh& m, const std::vector<Point>& v)
    {
        auto u = NodeTranslationAction::Create(m);
        m.SetNodes(v);
        u->Restore();
    }
    void TranslationAll_redo(Mesh& m, const std::vector<Point>& v, std::vector<Point>& n1, std::vector<Edge>& e1)
    {
        auto u = NodeTranslationAction::Create(m);
        m.SetNodes(v);
        n1 = m.Nodes();
        e1 = m.Edges();
        u->Restore();
        u->Commit();
    }
    void Conversion_undo(Mesh& m, const std::vector<Point>& v, Projection p)
    {
        auto u = MeshConversionAction::Create(m);
        m.SetNodes(v);
        m.m_projection = p;
        u->Restore();
    }
    void Conversion_redo(Mesh& m, const std::vector<Point>& v, Projection p, std::vector<Point>& n1, std::vector<Edge>& e1)
    {
        auto u = MeshConversionAction::Create(m);
        m.SetNodes(v);
        m.m_projection = p;
        n1 = m.Nodes();
        e1 = m.Edges();
        u->Restore();
        u->Commit();
    }
    void MoveNode_undo(Mesh& m, const Point& p, UInt i)
    {
        auto u = m.MoveNode(p, i);
        u->Restore();
    }
    void DeleteNode_undo(Mesh& m, UInt i)
    {
        auto u = m.DeleteNode(i);
        u->Restore();
    }
} // namespace lemma
