// Instantiations of the gas-dynamics templates with plain
// fixed-size Eigen arguments, so that the algebraic analyses see every scheme / diff order.
#include "Euler/Gas.hpp"

namespace DNDS::Euler::Gas
{
    struct DumpNone
    {
        void operator()() const {}
    };
#define DNDSX_GAS(dim)                                                                                                                  \
    using U##dim = Eigen::Vector<real, dim + 2>;                                                                                        \
    using V##dim = Eigen::Vector<real, dim>;                                                                                            \
    using M##dim = Eigen::Matrix<real, dim + 2, dim + 2>;                                                                               \
    using G##dim = Eigen::Matrix<real, dim, dim + 2>;                                                                                   \
    using UB##dim = Eigen::Matrix<real, dim + 2, 2>;                                                                                    \
    using VB##dim = Eigen::Matrix<real, dim, 2>;                                                                                        \
    using RB##dim = Eigen::Matrix<real, 1, 2>;                                                                                          \
    template void GasInviscidFlux_Batch<dim, UB##dim, UB##dim, VB##dim, VB##dim, RB##dim &>(const UB##dim &, const VB##dim &, const VB##dim &, RB##dim &, UB##dim &); \
    template void GasInviscidFlux_XY_Batch<dim, UB##dim, UB##dim, VB##dim, VB##dim, VB##dim, RB##dim &>(const UB##dim &, const VB##dim &, const VB##dim &, const VB##dim &, RB##dim &, UB##dim &); \
    template void EulerGasRightEigenVector<dim, V##dim, M##dim>(const V##dim &, real, real, real, M##dim &);                           \
    template void EulerGasLeftEigenVector<dim, V##dim, M##dim>(const V##dim &, real, real, real, real, M##dim &);                      \
    template void IdealGasThermalConservative2Primitive<dim, U##dim, U##dim>(const U##dim &, U##dim &, real);                          \
    template void IdealGasThermalPrimitive2Conservative<dim, U##dim, U##dim>(const U##dim &, U##dim &, real);                          \
    template void GasInviscidFlux<dim, U##dim, U##dim, V##dim, V##dim>(const U##dim &, const V##dim &, const V##dim &, real, U##dim &); \
    template void GasInviscidFlux_XY<dim, U##dim, U##dim, V##dim, V##dim, V##dim>(const U##dim &, const V##dim &, const V##dim &, const V##dim &, real, U##dim &); \
    template void IdealGasUIncrement<dim, U##dim, V##dim>(const U##dim &, const U##dim &, const V##dim &, real, V##dim &, real &);      \
    template void GasInviscidFluxFacialIncrement<dim, U##dim, U##dim, V##dim, V##dim>(const U##dim &, const U##dim &, const V##dim &, const V##dim &, const V##dim &, const V##dim &, real, real, U##dim &); \
    template void GetRoeAverage<dim, U##dim, U##dim, V##dim>(const U##dim &, const U##dim &, real, V##dim &, real &, real &, real &, real &); \
    template void RoeFluxIncFDiff<dim, U##dim, U##dim, V##dim, V##dim>(const U##dim &, const V##dim &, const V##dim &, real, real, real, real, real, real, real, real, U##dim &); \
    template void InviscidFlux_IdealGas_Dispatcher<dim>(RiemannSolverType, U##dim &, U##dim &, U##dim &, U##dim &, V##dim &, V##dim &, real, U##dim &, real, DumpNone &, real &, real &, real &); \
    template void InviscidFlux_IdealGas_Batch_Dispatcher<dim>(RiemannSolverType, UB##dim &, UB##dim &, U##dim &, U##dim &, VB##dim &, V##dim &, VB##dim &, V##dim &, real, UB##dim &, real, DumpNone &, real &, real &, real &); \
    template void ViscousFlux_IdealGas<dim, U##dim, G##dim, U##dim, V##dim>(const U##dim &, const G##dim &, V##dim, bool, real, real, real, bool, real, real, U##dim &); \
    template void GradientCons2Prim_IdealGas<dim, U##dim, G##dim, G##dim>(const U##dim &, const G##dim &, G##dim &, real);              \
    template auto GetGradVelo<dim, U##dim, G##dim>(const U##dim &, const G##dim &);                                                     \
    template std::tuple<real, real> IdealGasThermalPrimitiveGetP0T0<dim, U##dim>(const U##dim &, real, real);                           \
    template auto IdealGas_EulerGasRightEigenVector<dim, U##dim>(const U##dim &, real);                                                 \
    template auto IdealGas_EulerGasLeftEigenVector<dim, U##dim>(const U##dim &, real);
    DNDSX_GAS(2)
    DNDSX_GAS(3)
}
