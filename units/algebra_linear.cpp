// Instantiations of the Krylov solvers, the direct factorisations and the DOF vectors, for the algebraic analyses.
#include <functional>
#include "Solver/Linear.hpp"
#include "Euler/EulerJacobian.hpp"

namespace DNDSX
{
    using namespace DNDS;
    struct LVec
    {
        Eigen::Vector<real, 3> v;
        void addTo(const LVec &o, real a) { v += o.v * a; }
        void operator*=(real a) { v *= a; }
        void operator+=(const LVec &o) { v += o.v; }
        LVec &operator=(const LVec &o)
        {
            v = o.v;
            return *this;
        }
        LVec() { v.setZero(); }
        LVec(const LVec &o) : v(o.v) {}
    };
    struct LInit
    {
        void operator()(LVec &d) const { d.v.setZero(); }
    };
    using F1 = std::function<void(LVec &, LVec &)>;
    using Dot = std::function<real(LVec &, LVec &)>;
    using Stop = std::function<bool(uint32_t, real, real)>;
    using GM = Linear::GMRES_LeftPreconditioned<LVec>;
    using CG = Linear::PCG_PreconditionedRes<LVec, real>;
    inline GM mkGM(uint32_t k) { return GM(k, LInit{}); }
    inline CG mkCG() { return CG(LInit{}); }
    inline bool goGM(GM &g, F1 &A, F1 &M, Dot &d, LVec &b, LVec &x, uint32_t n, Stop &s) { return g.solve(A, M, d, b, x, n, s); }
    inline bool goCG(CG &g, F1 &A, F1 &M, F1 &res, Dot &d, LVec &x, uint32_t n, Stop &s) { return g.solve(A, M, res, d, x, n, s); }
    inline void rsCG(CG &g) { g.reset(); }
    inline void sym(Direct::SerialSymLUStructure &s, const std::vector<std::vector<DNDS::index>> &adj, int code) { s.ObtainSymmetricSymbolicFactorization(adj, code); }
    template <int n>
    using LU = Euler::JacobianLocalLU<n>;
    template <int n>
    using LDLT = Euler::JacobianLocalLDLT<n>;
    template <int n>
    using DV = Euler::ArrayDOFV<n>;
    template <int n>
    using RV = Euler::ArrayRECV<n>;
    inline void templ(DV<2> &a, DV<2> &b, Eigen::Vector<real, 2> &u, real s, Eigen::Array<real, 2, 1> &l, Eigen::Array<real, 2, 1> &r)
    {
        a.setConstant(u);
        a.setMaxWith(s);
        a.setMinWith(s);
        a.dot(b, l, r);
        a.setConstant(s);
        a += b;
        a -= b;
        a *= s;
        a = b;
        a.addTo(b, s);
        a *= std::vector<real>{};
        a *= DV<1>{};
        a += u;
        a += s;
        a *= u;
        a *= b;
        a /= b;
        a.setAbs();
        a.norm2();
        a.componentWiseNorm1();
        a.min();
        a.dot(b);
    }
    inline void templ(RV<2> &a, Eigen::Matrix<real, Eigen::Dynamic, 2> &u)
    {
        a.setConstant(u);
        RV<2> b;
        real s = 1;
        Eigen::Array<real, 1, 2> r;
        a.setConstant(s);
        a += b;
        a -= b;
        a *= s;
        a *= std::vector<real>{};
        a *= DV<1>{};
        a *= r;
        a = b;
        a.addTo(b, r);
        a.addTo(b, s);
        a.norm2();
        a.dot(b);
        a.dotV(b);
    }
}
namespace DNDS::Euler
{
    template struct JacobianLocalLU<1>;
    template struct JacobianLocalLU<2>;
    template struct JacobianLocalLDLT<1>;
    template struct JacobianLocalLDLT<2>;
}
namespace DNDS::Direct
{
    template struct LocalLUBase<Euler::JacobianLocalLU<1>, Eigen::Matrix<real, 1, 1>, Euler::ArrayDOFV<1>>;
    template struct LocalLUBase<Euler::JacobianLocalLU<2>, Eigen::Matrix<real, 2, 2>, Euler::ArrayDOFV<2>>;
    template struct LocalLDLTBase<Euler::JacobianLocalLDLT<1>, Eigen::Matrix<real, 1, 1>, Euler::ArrayDOFV<1>>;
    template struct LocalLDLTBase<Euler::JacobianLocalLDLT<2>, Eigen::Matrix<real, 2, 2>, Euler::ArrayDOFV<2>>;
}
