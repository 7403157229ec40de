// Instantiations of the time integrators on a one-value state, for the algebraic analyses.
#include "Solver/ODE.hpp"

namespace DNDSX
{
    using namespace DNDS;
    struct Dat
    {
        real v = 0;
        void setConstant(real c) { v = c; }
        void addTo(const Dat &o, real a) { v += o.v * a; }
        Dat &operator*=(real a)
        {
            v *= a;
            return *this;
        }
        Dat &operator*=(const Dat &o)
        {
            v *= o.v;
            return *this;
        }
        Dat &operator+=(const Dat &o)
        {
            v += o.v;
            return *this;
        }
        Dat &operator=(const Dat &o)
        {
            v = o.v;
            return *this;
        }
        Dat() = default;
        Dat(const Dat &o) : v(o.v) {}
    };
    struct Init
    {
        void operator()(Dat &d) const { d.v = 0; }
    };
    using Euler = ODE::ImplicitEulerDualTimeStep<Dat, Dat>;
    using Sdirk = ODE::ImplicitSDIRK4DualTimeStep<Dat, Dat>;
    using Bdf = ODE::ImplicitBDFDualTimeStep<Dat, Dat>;
    using Vbdf = ODE::ImplicitVBDFDualTimeStep<Dat, Dat>;
    using Hermite = ODE::ImplicitHermite3SimpleJacobianDualStep<Dat, Dat>;
    using Ssprk = ODE::ExplicitSSPRK3TimeStepAsImplicitDualTimeStep<Dat, Dat>;
    inline Euler mkEuler() { return Euler(1, Init{}, Init{}); }
    inline Sdirk mkSdirk(int code) { return Sdirk(1, Init{}, Init{}, code); }
    inline Bdf mkBdf(DNDS::index k) { return Bdf(1, Init{}, Init{}, k); }
    inline Vbdf mkVbdf(DNDS::index k) { return Vbdf(1, Init{}, Init{}, k); }
    inline Hermite mkHermite(real alpha, int method, int nStart, real theta, int mask) { return Hermite(1, Init{}, Init{}, alpha, method, nStart, theta, mask); }
    inline Ssprk mkSsprk(bool local) { return Ssprk(1, Init{}, Init{}, local); }
}
namespace DNDS::ODE
{
    template class ImplicitEulerDualTimeStep<DNDSX::Dat, DNDSX::Dat>;
    template class ImplicitSDIRK4DualTimeStep<DNDSX::Dat, DNDSX::Dat>;
    template class ImplicitBDFDualTimeStep<DNDSX::Dat, DNDSX::Dat>;
    template class ImplicitVBDFDualTimeStep<DNDSX::Dat, DNDSX::Dat>;
    template class ImplicitHermite3SimpleJacobianDualStep<DNDSX::Dat, DNDSX::Dat>;
    template class ExplicitSSPRK3TimeStepAsImplicitDualTimeStep<DNDSX::Dat, DNDSX::Dat>;
}
