// instantiates the templates of BoundingBox for the point types of the library
#include <MeshKernel/BoundingBox.hpp>
#include <MeshKernel/Entities.hpp>
#include <MeshKernel/Point.hpp>
using namespace meshkernel;
template void BoundingBox::Reset<Point>(const std::vector<Point>&, size_t, size_t);
template void BoundingBox::Reset<Sample>(const std::vector<Sample>&, size_t, size_t);
template void BoundingBox::Reset<Point>(const std::vector<Point>&);
template void BoundingBox::Reset<Sample>(const std::vector<Sample>&);
template bool BoundingBox::Contains<Point>(const Point&) const;
template BoundingBox BoundingBox::CreateBoundingBox<Point>(const Point&, const Point&);
namespace lemma
{
    BoundingBox merge(const BoundingBox& a, const BoundingBox& b) { return Merge(a, b); }
    BoundingBox nothing() { return CreateNonOverlappingBoundingBox(); }
    BoundingBox everything() { return BoundingBox(); }
    BoundingBox ofPoints(const std::vector<Point>& p) { return BoundingBox(p); }
    BoundingBox ofSamples(const std::vector<Sample>& p) { return BoundingBox(p); }
    BoundingBox ofSlice(const std::vector<Point>& p, size_t s, size_t e) { return BoundingBox(p, s, e); }
    bool overlapSymmetric(const BoundingBox& a, const BoundingBox& b) { return a.Overlaps(b) == b.Overlaps(a); }
} // namespace lemma
