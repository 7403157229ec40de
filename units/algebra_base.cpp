// Instantiations of the base-function, derivative-map and periodic-transform templates with plain
// fixed-size Eigen arguments, so that the algebraic analyses see every scheme / diff order.
#include "Geom/DiffTensors.hpp"
#include "Geom/Geometric.hpp"
#include "Geom/PeriodicInfo.hpp"

namespace DNDS::Geom
{
    template tPoint FacialJacobianToNormVec<2>(const tJacobi &);
    template tPoint FacialJacobianToNormVec<3>(const tJacobi &);
    template Eigen::Matrix<real, 2, 2> NormBuildLocalBaseV<2>(const Eigen::Ref<const Eigen::Vector<real, 2>> &);
    template Eigen::Matrix<real, 3, 3> NormBuildLocalBaseV<3>(const Eigen::Ref<const Eigen::Vector<real, 3>> &);
    template Eigen::Matrix<real, 2, 2> Periodicity::TransVector<2, 2>(const Eigen::Matrix<real, 2, 2> &, t_index);
    template Eigen::Matrix<real, 3, 2> Periodicity::TransVector<3, 2>(const Eigen::Matrix<real, 3, 2> &, t_index);
    template Eigen::Matrix<real, 2, 2> Periodicity::TransVectorBack<2, 2>(const Eigen::Matrix<real, 2, 2> &, t_index);
    template Eigen::Matrix<real, 3, 2> Periodicity::TransVectorBack<3, 2>(const Eigen::Matrix<real, 3, 2> &, t_index);
    template Eigen::Matrix<real, 2, 2> Periodicity::TransMat<2>(const Eigen::Matrix<real, 2, 2> &, t_index);
    template Eigen::Matrix<real, 3, 3> Periodicity::TransMat<3>(const Eigen::Matrix<real, 3, 3> &, t_index);
    template Eigen::Matrix<real, 2, 2> Periodicity::TransMatBack<2>(const Eigen::Matrix<real, 2, 2> &, t_index);
    template Eigen::Matrix<real, 3, 3> Periodicity::TransMatBack<3>(const Eigen::Matrix<real, 3, 3> &, t_index);
}

namespace DNDS::Geom::Base
{
    template void FPolynomialFill2D<MatrixXR>(MatrixXR &, real, real, real, real, real, real, int, int);
    template void FPolynomialFill3D<MatrixXR>(MatrixXR &, real, real, real, real, real, real, int, int);
    template void ConvertDiffsLinMap<2, MatrixXR &>(MatrixXR &, const Geom::tGPoint &);
    template void ConvertDiffsLinMap<3, MatrixXR &>(MatrixXR &, const Geom::tGPoint &);
    template void ConvertDiffsFullMap<2, MatrixXR &, MatrixXR &>(MatrixXR &, MatrixXR &);
    template void ConvertDiffsFullMap<3, MatrixXR &, MatrixXR &>(MatrixXR &, MatrixXR &);
    template void CFVPeriodicity::TransDiValueInplace<2, MatrixXR>(MatrixXR &, Geom::t_index);
    template void CFVPeriodicity::TransDiValueInplace<3, MatrixXR>(MatrixXR &, Geom::t_index);
    template void CFVPeriodicity::TransDiValueBackInplace<2, MatrixXR>(MatrixXR &, Geom::t_index);
    template void CFVPeriodicity::TransDiValueBackInplace<3, MatrixXR>(MatrixXR &, Geom::t_index);
    template int GetNDof<2>(int);
    template int GetNDof<3>(int);
#define DNDSX_DIFF(dim)                                                                                                             \
    template void DxDxi2DxiDx<dim, 1, MatrixXR &, MatrixXR &>(MatrixXR &, MatrixXR &);                                              \
    template void DxDxi2DxiDx<dim, 2, MatrixXR &, MatrixXR &>(MatrixXR &, MatrixXR &);                                              \
    template void DxDxi2DxiDx<dim, 3, MatrixXR &, MatrixXR &>(MatrixXR &, MatrixXR &);                                              \
    template real NormSymDiffOrderTensorV<dim, 0, 1, const MatrixXR &, const MatrixXR &>(const MatrixXR &, const MatrixXR &);       \
    template real NormSymDiffOrderTensorV<dim, 1, 1, const MatrixXR &, const MatrixXR &>(const MatrixXR &, const MatrixXR &);       \
    template real NormSymDiffOrderTensorV<dim, 2, 1, const MatrixXR &, const MatrixXR &>(const MatrixXR &, const MatrixXR &);       \
    template real NormSymDiffOrderTensorV<dim, 3, 1, const MatrixXR &, const MatrixXR &>(const MatrixXR &, const MatrixXR &);
    DNDSX_DIFF(2)
    DNDSX_DIFF(3)
}
