// Instantiations of the reference-element and quadrature templates with plain
// fixed-size Eigen arguments, so that the algebraic analyses see every scheme / diff order.
#include "Geom/Elements.hpp"
#include "Geom/Quadrature.hpp"
#include "Geom/CGNS.hpp"

namespace DNDS::Geom::Elem
{
    template void ShapeFunc_DiNj<0, tPoint, tDiNj &>(ElemType, const tPoint &, tDiNj &);
    template void ShapeFunc_DiNj<1, tPoint, tDiNj &>(ElemType, const tPoint &, tDiNj &);
    template void ShapeFunc_DiNj<2, tPoint, tDiNj &>(ElemType, const tPoint &, tDiNj &);
    template void ShapeFunc_DiNj<3, tPoint, tDiNj &>(ElemType, const tPoint &, tDiNj &);
    template void GetQuadraturePoint<tPoint>(ParamSpace, t_index, int, tPoint &, t_real &);
    template std::pair<int, std::vector<index>> ToVTKVertsAndData<std::vector<index>>(Element, const std::vector<index> &);
    template void Element::ExtractFaceNodes<std::vector<index>, std::vector<index>>(t_index, const std::vector<index> &, std::vector<index> &);
    template void Element::ExtractElevNodeSpanNodes<std::vector<index>, std::vector<index>>(t_index, const std::vector<index> &, std::vector<index> &);
    template void Element::ExtractO2BisectElemNodes<std::vector<index>, std::vector<index>>(t_index, t_index, const std::vector<index> &, std::vector<index> &);
}

namespace DNDS::Geom::Elem
{
    struct ProbeFull // integrand with the shape-function buffer
    {
        void operator()(real &acc, int iG, const tPoint &p, const tD01Nj &d) const;
    };
    struct ProbeIG
    {
        void operator()(real &acc, int iG) const;
    };
    struct ProbeIGW
    {
        void operator()(real &acc, int iG, real w) const;
    };
    template void Quadrature::Integration<real, const ProbeFull &>(real &, const ProbeFull &);
    template void Quadrature::IntegrationSimple<real, const ProbeIG &>(real &, const ProbeIG &);
    template void Quadrature::IntegrationSimple<real, const ProbeIGW &>(real &, const ProbeIGW &);
    inline void probeQuadrature(ElemType t, int order, real &acc1, real &acc2, real &acc3)
    {
        auto quad = Quadrature{Element{t}, order};
        quad.Integration(acc1, ProbeFull{});
        quad.IntegrationSimple(acc2, ProbeIG{});
        quad.IntegrationSimple(acc3, ProbeIGW{});
        for (int i = 0; i < quad.GetNumPoints(); i++)
            quad.GetQuadraturePointInfo(i);
        GetQuadPatches(quad);
    }
    inline std::vector<std::array<t_index, 3>> probePatches(ElemType t, int order)
    {
        auto quad = Quadrature{Element{t}, order};
        return GetQuadPatches(quad);
    }
    template tJacobi ShapeJacobianCoordD01Nj<tSmallCoords>(const tSmallCoords &, Eigen::Ref<const tD01Nj>);
    template tPoint PPhysicsCoordD01Nj<tSmallCoords>(const tSmallCoords &, Eigen::Ref<const tD01Nj>);
    template real JacobiDetFace<2>(Eigen::Ref<const tJacobi>);
    template real JacobiDetFace<3>(Eigen::Ref<const tJacobi>);
}
