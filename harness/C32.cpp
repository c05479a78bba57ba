// MON-variants: asan asan-debugstl
// MON-libs: first_order_deformation
// MON-rule: grids of 1-30 by 1-30 pairs with random, banded, maze-like, empty and full validity; every query of the caller's check is recorded; distinct by grid
#include <cstdint>
#include <sys/types.h>
#include "arc_utilities/first_order_deformation.h"
#include <set>
#include "mon.hpp"
using namespace mon;
namespace F = arc_utilities::FirstOrderDeformation;
typedef std::vector<std::vector<char>> Grid;

static Grid grid(Rng& r, int most) {
  int rows = (int)r.range(1, r.chance(0.3) ? 4 : most), cols = (int)r.range(1, r.chance(0.3) ? 4 : most);
  if (r.chance(0.003)) (r.chance(0.5) ? rows : cols) = (int)r.range(120, 400);
  Grid g((size_t)rows, std::vector<char>((size_t)cols, 0));
  const int kind = (int)r.below(5);
  const double p = r.real(0.15, 0.95);
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++) {
      bool v = r.chance(p);
      if (kind == 1) v = std::abs(i * cols - j * rows) < (int)(p * rows * cols / 3) || r.chance(0.05);
      if (kind == 2) v = (i % 4 == 0) || (i % 8 == 2 ? j == cols - 1 : i % 8 == 6 ? j == 0 : (i % 2 && (i % 8 < 4 ? j == cols - 1 : j == 0)));  // a winding corridor
      if (kind == 3) v = (j % 4 == 0) || (j % 8 < 4 ? i == rows - 1 : i == 0);
      g[(size_t)i][(size_t)j] = v;
    }
  if (kind >= 2 && kind < 4 && r.chance(0.3)) g[r.below((uint64_t)rows)][r.below((uint64_t)cols)] ^= 1;
  if (r.chance(0.7)) g[0][0] = 1;
  if (r.chance(0.8)) g.back().back() = 1;
  return g;
}
int main(int argc, char** argv) {
  Monitor m(argc, argv);
  m.group("grids", 4000, 80000, [](Case& c) {
    const Grid g = grid(c.rng, c.m.thorough ? 60 : 30);
    const int rows = (int)g.size(), cols = (int)g[0].size();
    std::string pic;
    for (auto& r : g) {
      for (char v : r) pic += v ? '.' : '#';
      pic += '/';
    }
    c.note(pic);
    size_t queries = 0;
    bool outside = false;
    const auto check = [&](ssize_t i, ssize_t j) {
      queries++;
      if (i < 0 || j < 0 || i >= rows || j >= cols) {
        outside = true;
        return false;
      }
      return g[(size_t)i][(size_t)j] != 0;
    };
    const std::vector<F::ConfigType> path = F::GetFirstOrderDeformation(rows, cols, check);
    c.check(!outside, "a pair outside the grid is queried", pic);
    // reachability by flooding; the starting pair is taken as given
    std::set<std::pair<int, int>> seen{{0, 0}};
    std::vector<std::pair<int, int>> todo{{0, 0}};
    while (!todo.empty()) {
      const auto at = todo.back();
      todo.pop_back();
      for (int i = at.first - 1; i <= at.first + 1; i++)
        for (int j = at.second - 1; j <= at.second + 1; j++)
          if (i >= 0 && j >= 0 && i < rows && j < cols && g[(size_t)i][(size_t)j] && seen.insert({i, j}).second) todo.push_back({i, j});
    }
    const bool reach = seen.count({rows - 1, cols - 1}) != 0;
    c.check(path.empty() == !reach, reach ? "no deformation is found where there is one" : "a deformation is found where there is none", pic);
    c.check(queries <= (size_t)(9 * rows * cols), "pairs are queried again and again", [&] { return str(queries) + " queries for " + str(rows * cols) + " pairs"; });
    if (reach) {
      c.check(path.front() == F::ConfigType(0, 0) && path.back() == F::ConfigType(rows - 1, cols - 1), "a deformation does not lead from both starts to both ends", pic);
      std::set<F::ConfigType> once;
      for (size_t k = 0; k < path.size(); k++) {
        const ssize_t i = path[k].first, j = path[k].second;
        c.check(i >= 0 && j >= 0 && i < rows && j < cols && (k == 0 || g[(size_t)i][(size_t)j]), "a deformation passes a pair that fails the check", [&] { return pic + " at " + str(i) + "," + str(j); });
        c.check(once.insert(path[k]).second, "a deformation passes a pair twice", pic);
        if (k) c.check(std::abs(i - path[k - 1].first) <= 1 && std::abs(j - path[k - 1].second) <= 1, "a deformation jumps", pic);
        c.count("pairs on deformations");
      }
      c.count("deformations found");
    } else {
      c.count("grids without a deformation");
    }
    c.count("pairs queried", (int64_t)queries);
    c.nontrivial(rows > 2 && cols > 2);
    c.sample(pic.substr(0, 200));
  });
  return m.finish();
}
