#include <MeshKernel/Operations.hpp>
#include <MeshKernel/PolygonalEnclosure.hpp>
#include <MeshKernel/Polygons.hpp>
#include <MeshKernelApi/GeometryList.hpp>
#include <MeshKernelApi/CurvilinearGrid.hpp>
#include <MeshKernelApi/MeshKernel.hpp>
#include <MeshKernelApi/State.hpp>
namespace meshkernelapi { using namespace meshkernel::constants; } // Utils.hpp is not self-contained
#include <MeshKernelApi/Utils.hpp>
using namespace meshkernel;
namespace lemma
{
    PolygonalEnclosure enclosure(const std::vector<Point>& points, Projection projection) { return PolygonalEnclosure(points, projection); }
} // namespace lemma
