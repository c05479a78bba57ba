// MON-variants: asan asan-debugstl
// MON-rule: sequences of 1-40 of 19 operations on a pool of padded vectors (double and float), coordinates zero, small (1e-12), ordinary and large (1e9), mirrored on plain 3-vectors in the same scalar; distinct by operations and coordinates
#include <cstdint>
#include <string>
#include <vector>
#include "arc_utilities/aligned_eigen_types.hpp"
#include "eig.hpp"
using namespace mon;
template <typename T>
static void run(Case& c) {
  typedef Eigen::Aligned4Vector3<T> A;
  typedef Eigen::Matrix<T, 3, 1> V;
  const double eps = std::numeric_limits<T>::epsilon();
  Rng& r = c.rng;
  const double scale = r.chance(0.3) ? 1e-12 : r.chance(0.2) ? 1e9 : 1;
  auto gen = [&] {
    V v;
    for (int i = 0; i < 3; i++) v(i) = r.chance(0.15) ? T(0) : (T)(scale * r.real(-2, 2));
    return v;
  };
  std::vector<A, Eigen::aligned_allocator<A>> a(3);
  std::vector<V> p(3, V::Zero());
  std::string hist;
  auto same = [&](const char* what) {
    for (int i = 0; i < 3; i++) {
      const double big = p[i].norm();
      for (int k = 0; k < 3; k++) c.check(std::abs((double)a[i](k) - (double)p[i](k)) <= 16 * eps * big, what, [&] { return str("coordinate ", k, " is ", a[i](k), " instead of ", p[i](k), " after ") + hist; });
      c.check(a[i].coeffs()(3) == T(1), "padding", [&] { return str("the padding is ", a[i].coeffs()(3), " after ") + hist; });
      p[i] = V(a[i](0), a[i](1), a[i](2));  // no drift
    }
  };
  same("fresh");
  const int n = 1 + (int)r.below(40);
  for (int s = 0; s < n; s++) {
    const int i = (int)r.below(3), j = (int)r.below(3), k = (int)r.below(3), op = (int)r.below(19);
    const V v = gen();
    const T f = (T)(r.chance(0.5) ? r.real(0.3, 3) : -r.real(0.3, 3));
    hist += str(" ", op, ":", i, j, k);
    c.note(op), c.note((double)v(0)), c.note((double)f);
    switch (op) {
      case 0: a[i] = A(v(0), v(1), v(2)), p[i] = v; break;
      case 1: a[i] = v, p[i] = v; break;
      case 2: a[i] = a[j], p[i] = p[j]; break;
      case 3: a[i] = A(v), p[i] = v; break;
      case 4: a[i] = a[j] + a[k], p[i] = V(p[j] + p[k]); break;
      case 5: a[i] = a[j] - a[k], p[i] = V(p[j] - p[k]); break;
      case 6: a[i] += a[j], p[i] += V(p[j]); break;
      case 7: a[i] -= a[j], p[i] -= V(p[j]); break;
      case 8: a[i] = a[j] * f, p[i] = p[j] * f; break;
      case 9: a[i] = f * a[j], p[i] = p[j] * f; break;
      case 10: a[i] *= f, p[i] *= f; break;
      case 11: a[i] = a[j] / f, p[i] = p[j] / f; break;
      case 12: a[i] /= f, p[i] /= f; break;
      case 13:
        if (p[i].norm() > 0) a[i].normalize(), p[i].normalize();
        break;
      case 14:
        if (p[j].norm() > 0) {
          const V q = p[j].normalized();
          a[i] = a[j].normalized(), p[i] = q;
        }
        break;
      case 15: {
        const double big = p[j].norm() * p[k].norm();
        const V q = p[j].cross(p[k]);
        a[i] = a[j].cross(a[k]);
        for (int x = 0; x < 3; x++) c.check(std::abs((double)a[i](x) - (double)q(x)) <= 8 * eps * big + 4 * (double)std::numeric_limits<T>::min(), "cross", "cross product");
        p[i] = V(a[i](0), a[i](1), a[i](2));
        break;
      }
      case 16: a[i] = A(2 * a[j].coeffs()), p[i] = V(2 * p[j]); break;
      case 17: {
        A b(a[j]);
        b.coeffRef((int)r.below(3)) = v(0);
        a[i] = b, p[i] = V(b(0), b(1), b(2));
        break;
      }
      case 18: {
        const V w = a[j];
        c.check(w == p[j], "to-plain", "the plain copy differs");
        a[i] = A(w), p[i] = w;
        break;
      }
    }
    same("operations");
    // stay where squares neither overflow nor vanish
    if (p[i].norm() > 1e12 || (p[i].norm() < 1e-13 && (p[i].array() != T(0)).any())) a[i] = A(v(0), v(1), v(2)), p[i] = v;
    // readings
    const A& x = a[j];
    const A& y = a[k];
    const V &px = p[j], &py = p[k];
    const double nx = px.template cast<double>().norm(), ny = py.template cast<double>().norm();
    const double d = (double)px(0) * py(0) + (double)px(1) * py(1) + (double)px(2) * py(2);
    if (nx < 1e15 && ny < 1e15) {
      c.check(std::abs((double)x.dot(y) - d) <= 8 * eps * nx * ny, "dot", [&] { return str(x.dot(y), " instead of ", d, " after ") + hist; });
      c.check(std::abs((double)x.sum() - ((double)px(0) + px(1) + px(2))) <= 8 * eps * nx, "sum", [&] { return str(x.sum()) + " after " + hist; });
      c.check(std::abs((double)x.squaredNorm() - nx * nx) <= 8 * eps * nx * nx, "squared-norm", [&] { return str(x.squaredNorm(), " instead of ", nx * nx); });
      c.check(std::abs((double)x.norm() - nx) <= 8 * eps * nx, "norm", [&] { return str(x.norm(), " instead of ", nx); });
      c.check(x.isApprox(px) && x.isApprox(x), "approx", "not approximately itself");
      if (nx > 0 && (double)(px - py).template cast<double>().norm() > 1e-3 * std::max(nx, ny)) c.check(!x.isApprox(py), "approx", "approximately another vector");
    }
    c.count("operations");
  }
  c.check(a[0].rows() == 3 && a[0].cols() == 1 && a[0].size() == 3, "size", "not three coordinates");
  c.nontrivial(n > 1);
}
int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("double", 6000, 250000, run<double>);
  m.group("float", 6000, 250000, run<float>);
  return m.finish();
}
