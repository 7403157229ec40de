// Spellings of dense algebra the interpreter has to understand: run for real by tools/selftest_eigen.py and compared with the interpreter.
#include "DNDS/Defines.hpp"
#include "DNDS/EigenUtil.hpp"
#include "Geom/Geometric.hpp"
#include <Eigen/Dense>
#include <optional>
#include <numeric>
#include <utility>
#include <functional>
#include <tuple>
namespace SelfTest
{
    using DNDS::real;
    using M3 = Eigen::Matrix<real, 3, 3>;
    using V3 = Eigen::Vector<real, 3>;
    using VX = Eigen::Vector<real, Eigen::Dynamic>;
    using MX = Eigen::Matrix<real, Eigen::Dynamic, Eigen::Dynamic>;
#define T(n) inline void t##n(const M3 &a, const M3 &b, const V3 &u, const V3 &v, real s, M3 &o)
    T(1) { o = a * b; }
    T(2) { o.noalias() = a.lazyProduct(b); o += M3::Identity() * s; }
    T(3) { o = a.cwiseProduct(b) + a.array().square().matrix(); }
    T(4) { o = (a.array() * b.array() - s).matrix(); }
    T(5) { o.setZero(); o.diagonal() = u; o.col(1) += v; }
    T(6) { o = u.asDiagonal() * a; o = o * v.asDiagonal(); }
    T(7) { o = u * v.transpose() / u.squaredNorm(); }
    T(8) { o.row(0) = u.transpose(); o.row(1) = v.transpose(); o.row(2) = u.cross(v).transpose(); }
    T(9) { o.setConstant(u.dot(v)); o(0, 1) = u.norm(); o(1, 2) = u.sum() + a.trace() + a.determinant(); }
    T(10) { o = a.inverse() * b; }
    T(11) { o = a.partialPivLu().solve(b); }
    T(12) { Eigen::FullPivLU<M3> lu(a); o = lu.solve(b); }
    T(13) { o = a.transpose(); o.block(0, 0, 2, 2) = b.block<2, 2>(1, 1); }
    T(14) { o = a; o.topRows(1) = b.bottomRows(1); o.leftCols<1>() = u; }
    T(15) { o = a; o.array().colwise() *= u.array(); o.array().rowwise() += v.transpose().array(); }
    T(16) { o = a; o.colwise() -= u; o.rowwise() -= v.transpose(); }
    T(17) { o.setZero(); o.col(0) = a.colwise().sum().transpose(); o.col(1) = a.rowwise().sum(); o.col(2) = a.rowwise().squaredNorm(); }
    T(18) { o.setZero(); o(0, 0) = a.maxCoeff(); o(1, 1) = a.minCoeff(); o(2, 2) = a.cwiseAbs().maxCoeff(); }
    T(19) { o = a.cwiseMax(b); o = o.cwiseMin(s); }
    T(20) { o = a.array().max(b.array()).min(s).matrix(); }
    T(21) { o = (a.array() > b.array()).select(a, b); }
    T(22) { V3 w{1.0, s, 2.0}; o = w * w.transpose(); }
    T(23) { V3 w; w << u.head(2), s; M3 c; c << w, u, v; o = c; }
    T(24) { auto x = a * u; V3 y = x; o.setZero(); o.col(0) = y; o(0, 2) = y(Eigen::last); }
    T(25) { o = a(Eigen::all, {2, 1, 0}); o(Eigen::seq(0, 1), 2) = v(Eigen::seq(1, 2)); }
    T(26) { o = a; std::swap(o(0, 0), o(1, 1)); o.row(0).swap(o.row(2)); }
    T(27) { VX w = VX::Zero(3); for (int i = 0; i < w.size(); i++) w(i) = i + u[i]; o = w.replicate(1, 3); }
    T(28) { MX w(2, 3); w.row(0) = u.transpose(); w.row(1) = v.transpose(); o = w.transpose() * w; }
    T(29) { Eigen::Map<const Eigen::Matrix<real, 3, 3, Eigen::RowMajor>> m(a.data()); o = m; }
    T(30) { o = a.unaryExpr([&](real x) { return x * s + 1; }); }
    T(31) { o = a.binaryExpr(b, [](real x, real y) { return x - 2 * y; }); }
    T(32) { V3 w = u.normalized(); V3 z = v; z.normalize(); o = w * z.transpose(); }
    T(33) { o.setZero(); o(0, 0) = (u.array() * v.array()).sum(); o(0, 1) = u.cwiseProduct(v).sum(); o(0, 2) = (u.transpose() * v)(0); o(1, 0) = (u.transpose() * a * v).value(); }
    T(34) { o = a.triangularView<Eigen::Upper>(); }
    T(35) { auto f = [&](const auto &x, real w) -> M3 { M3 r = x; r *= w; return r; }; o = f(a, s) + f(b, 1 - s); }
    T(36) { M3 x = a, y = b; M3 *p = s > 0 ? &x : &y; *p *= 2; o = x + y; }
    T(37) { const auto &[x, y] = std::make_pair(u, v); o = x * y.transpose(); }
    T(38) { std::array<real, 3> w{u(0), u(1), s}; real acc = 0; for (auto x : w) acc += x; o.setConstant(acc); }
    T(39) { std::vector<V3> w; w.push_back(u); w.emplace_back(v); w.resize(3, u); o.setZero(); for (size_t i = 0; i < w.size(); i++) o.col(i) = w[i]; }
    T(40) { int i = 0; o.setZero(); while (true) { if (i >= 3) break; if (i == 1) { i++; continue; } o(i, i) = u(i); ++i; } }
    T(41) { o.setZero(); for (int i = 2; i >= 0; --i) for (int j = i; j < 3; j += 1) o(i, j) = i * 3 + j; }
    T(42) { o.setZero(); switch (int(s) + 2) { case 1: o(0, 0) = 1; break; case 3: o(1, 1) = 3; [[fallthrough]]; case 4: o(2, 2) = 4; break; default: o(0, 1) = 9; } }
    T(43) { real m = std::max({u(0), u(1), u(2)}), n = std::min(u(0), v(0)), c = std::clamp(s, -1.0, 1.0); o.setConstant(m * n + c); }
    T(44) { o.setConstant(std::pow(std::abs(s), 1.5) + std::hypot(u(0), u(1)) + std::sqrt(u.squaredNorm()) + std::exp(s) + std::fabs(-s) + std::cbrt(8.0)); }
    T(45) { o = a.array().abs().sqrt().matrix() + a.array().pow(2).matrix() + a.cwiseAbs2() + b.cwiseQuotient(a); }
    T(46) { o = -a + (-1.0) * b - a / 2 + 2 / (b.array()).matrix().array().matrix()(0, 0) * a; }
    T(47) { V3 w = u; w.array() += s; w.array() *= v.array(); w.array() /= (u.array() + 5); o = w * V3::Ones().transpose(); }
    T(48) { o = M3::NullaryExpr([&](Eigen::Index i, Eigen::Index j) { return i * s + j; }); }
    T(49) { V3 w = V3::Unit(1) * s + V3::UnitX(); o = w * V3::Constant(2.0).transpose(); }
    T(50) { M3 x = a; M3 y = std::move(x); o = y; o.transposeInPlace(); }
    T(51) { o = a; o.middleRows(1, 2) = b.middleRows<2>(0); o.col(2).segment<2>(1) = u.tail<2>(); o.col(1).head(1) = v.tail(1); }
    T(52) { o = a; o.rightCols(1).setZero(); o.bottomLeftCorner(2, 1).setConstant(s); o.topRightCorner<1, 1>()(0, 0) = 4; }
    T(53) { bool f = (a.array() > 0).all() || (u.array() < 0).any(); o.setConstant(f ? 1 : 2); o(0, 0) = a.hasNaN() || !a.allFinite() ? 3 : 5; }
    T(54) { o = DNDS::Geom::RotZ(0) * a; o += DNDS::Geom::CrossVecToMat(u); }
    T(55) { Eigen::RowVector<real, 3> r = u.transpose(); r *= s; V3 c = r.transpose(); o = c * r; }
    T(56) { real t = 0; int k = 3; do { t += k * s; } while (--k > 0); o.setConstant(t + (k ? 1 : 2)); }
    T(57) { struct L { real x, y; real f() const { return x * y; } }; L l{s, u(0)}; l.y += 1; o.setConstant(l.f()); }
    T(58) { std::tuple<real, V3> q = std::make_tuple(s, u); auto [p, w] = q; std::get<0>(q) += 1; o = std::get<0>(q) * w * V3::Ones().transpose() * p; }
    T(59) { std::optional<real> q; if (u(0) > 0) q = s; o.setConstant(q.has_value() ? *q : 1.0); }
    T(60) { std::function<real(int)> f = [&](int i) -> real { return i <= 0 ? s : f(i - 1) * 2 + u(i); }; o.setConstant(f(2)); }
    T(61) { auto x = u.array(); auto y = v.array(); o = ((x * y - y * s).matrix() * (x + y).matrix().transpose()); }
    T(62) { o = Eigen::AngleAxis<real>(0.0, V3::UnitZ()).toRotationMatrix() * a; }
    T(63) { Eigen::Matrix<real, 2, 3> w = a.topRows<2>(); auto g = w(Eigen::all, Eigen::seq(Eigen::fix<1>, Eigen::last)); o.setZero(); o.block(0, 0, 2, 2) = g * s; }
    T(64) { o = a.ldlt().vectorD().asDiagonal(); o.setIdentity(); o *= s; }
    T(65) { V3 w = a.col(0); for (auto &x : w) x = -x; std::accumulate(w.begin(), w.end(), 0.0); o = w.rowwise().replicate(3); o(0, 0) = std::accumulate(w.begin(), w.end(), 0.0); }
    T(66) { o = (a.rowwise().norm()).asDiagonal() * M3::Ones(); o.row(0) = a.colwise().norm(); o(0, 0) = a.lpNorm<1>() + a.lpNorm<Eigen::Infinity>() + u.stableNorm(); }
    T(67) { o = a.householderQr().solve(b); }
    T(68) { o = a.array().exp().matrix() + a.array().inverse().matrix() + a.cwiseInverse() + a.cwiseSqrt().cwiseAbs2() * 0; }
    T(69) { o = a.reshaped(3, 3); o.resize(3, 3); o.resizeLike(b); o.setZero(3, 3); o += a; o(Eigen::seqN(0, 2), 0) = u(Eigen::seqN(1, 2)); }
    T(70) { o = a; o.col(0) = o.col(1) + o.col(0); o(0, Eigen::all) *= s; o(Eigen::all, 2).setZero(); o.coeffRef(1, 1) += a.coeff(0, 0); }
    T(71) { if (real q = u(0) * s; q > 0) o = a * q; else if (q < -5) o = b; else o = a - b; }
    T(72) { unsigned k = 5; int j = 7; o.setConstant(real(j / 2) + real(k % 3) + (j >> 1) + (1 << 2) + (j & 3) + (j | 8) + (j ^ 1)); }
    T(73) { const real c[3] = {1., s, 3.}; real t = 0; for (const real &x : c) t = t * 2 + x; o.setConstant(t + sizeof(c) / sizeof(c[0])); }
    T(74) { static const real k = 0.25; constexpr int n = 2; o = a * k * n; o.array() -= k; }
    T(75) { real x = 1, y = 2; std::tie(x, y) = std::make_tuple(y + s, x); o.setConstant(x * 10 + y); auto z = std::exchange(x, 5.); o(0, 0) = z + x; }
    T(76) { o = a; auto r = o.row(1); r *= 2; auto c = o.col(2); c = u; V3 d = o.diagonal(); o(2, 0) = d.prod() + u.prod() + u.mean(); }
    T(77) { o = (a + b).eval().transpose().eval() * (s < 0 ? u : v).asDiagonal(); }
    T(78) { M3 x; x.fill(s); x.array() = x.array() + a.array() * (b.array() < 0).cast<real>(); o = x; }
    T(79) { o = a.selfadjointView<Eigen::Lower>(); }
    T(80) { auto lu = a.lu(); V3 w = lu.solve(u); o.setZero(); o.col(0) = w; o.col(1) = a.colPivHouseholderQr().solve(v); o.col(2) = a.inverse() * u; }
}
