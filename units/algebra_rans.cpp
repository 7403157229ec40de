// Instantiations of the turbulence closures with plain fixed-size Eigen arguments.
#include "Euler/RANS_ke.hpp"

namespace DNDS::Euler::RANS
{
    using U2 = Eigen::Vector<real, 7>;
    using G2 = Eigen::Matrix<real, 3, 7>;
    using U1 = Eigen::Vector<real, 6>;
    using G1 = Eigen::Matrix<real, 3, 6>;
    using V3 = Eigen::Vector<real, 3>;
#define DNDSX_RANS(M)                                                                   \
    template real GetMut_##M<3, U2 &, G2 &>(U2 &, G2 &, real, real);                    \
    template void GetVisFlux_##M<3, U2 &, V3 &, G2 &, U2>(U2 &, G2 &, V3 &, real, real, real, U2 &); \
    template void GetSource_##M<3, U2 &, G2 &, U2>(U2 &, G2 &, real, real, U2 &, int);
    DNDSX_RANS(RealizableKe)
    DNDSX_RANS(SST)
    DNDSX_RANS(KOWilcox)
    template void GetSource_SA<3, U1 &, G1 &, U1>(U1 &, G1 &, real, real, real, real, U1 &, int, int);
}
