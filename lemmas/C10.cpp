// instantiates the range checks and uses every parameter check
#include <vector>
#include <cmath>
#include <MeshKernel/Parameters.hpp>
#include <MeshKernel/RangeCheck.hpp>
#include <MeshKernel/Constants.hpp>
#include <MeshKernel/Definitions.hpp>
using namespace meshkernel;
namespace meshkernel::range_check
{
#define BIN(F)                                                                              \
    template void F<int>(int const&, int const&, std::string_view);                         \
    template void F<double>(double const&, double const&, std::string_view);                \
    template void F<unsigned>(unsigned const&, unsigned const&, std::string_view);
    BIN(CheckEqual)
    BIN(CheckNotEqual)
    BIN(CheckGreater)
    BIN(CheckGreaterEqual)
    BIN(CheckLess)
    BIN(CheckLessEqual)
#define TER(F)                                                                              \
    template void F<int>(int const&, int const&, int const&, std::string_view);             \
    template void F<double>(double const&, double const&, double const&, std::string_view); \
    template void F<int>(int const&, std::pair<int, int> const&, std::string_view);         \
    template void F<double>(double const&, std::pair<double, double> const&, std::string_view);
    TER(CheckInClosedInterval)
    TER(CheckInOpenInterval)
    TER(CheckInRightHalfOpenInterval)
    TER(CheckInLeftHalfOpenInterval)
    TER(CheckOutsideClosedInterval)
    TER(CheckOutsideOpenInterval)
    template void CheckOneOf<int>(int const&, std::vector<int> const&, std::string_view);
    template void CheckNoneOf<int>(int const&, std::vector<int> const&, std::string_view);
} // namespace meshkernel::range_check
namespace lemma
{
    void makeGrid(MakeGridParameters const& p) { CheckMakeGridParameters(p); }
    void curvilinear(CurvilinearParameters const& p) { CheckCurvilinearParameters(p); }
    void splines(SplinesToCurvilinearParameters const& p) { CheckSplinesToCurvilinearParameters(p); }
    void refinement(MeshRefinementParameters const& p) { CheckMeshRefinementParameters(p); }
    void orthogonalization(OrthogonalizationParameters const& p) { CheckOrthogonalizationParameters(p); }
} // namespace lemma
