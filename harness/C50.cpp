// MON-variants: asan
// MON-flags: -I$ROOT/stubs/cpp -I$REPO
// MON-rule: node names and argument lists of any content (empty, embedded spaces, long), every log level and levels outside, every combination of the switches by keyword, position or default, callbacks queued before and after; distinct by arguments
#include <cstring>
#include <stdexcept>
#include "pybind11/pybind11.h"
#include "ros/ros.h"
#include "src/roscpp_initializer.cpp"
#include "mon.hpp"
using namespace mon;

int main(int argc, char** argv) {
  Monitor m(argc, argv);
  pybind11::module_ mod;
  pybind11_init_roscpp_initializer(mod);
  m.group("initializing", 900, 20000, [&](Case& c) {
    Rng& r = c.rng;
    ros_stub::node().clear();
    ros_stub::running() = true;
    ros_stub::shutdowns() = 0;
    auto text = [&] {
      std::string s;
      for (size_t i = r.below(r.chance(0.1) ? 300 : 12); i > 0; i--) s += (char)(r.chance(0.1) ? 32 : 33 + r.below(90));
      return s;
    };
    const std::string name = "cpp_" + text();
    std::vector<std::string> args;
    for (size_t i = r.below(6); i > 0; i--) args.push_back(text());
    std::map<std::string, pybind11::Any> kw;
    kw["name"] = name;
    const bool gaveArgs = r.chance(0.7);
    if (gaveArgs) kw["argv"] = args;
    else args.clear();
    int level = 2;
    if (r.chance(0.7)) kw["log_level"] = level = (int)r.range(-2, 6);
    bool sw[3];
    const char* names[3] = {"anonymous", "disable_rosout", "disable_signals"};
    const uint32_t bits[3] = {ros::init_options::AnonymousName, ros::init_options::NoRosout, ros::init_options::NoSigintHandler};
    uint32_t want = 0;
    for (int i = 0; i < 3; i++) {
      sw[i] = false;
      if (r.chance(0.6)) kw[names[i]] = sw[i] = r.chance(0.5);
      if (sw[i]) want |= bits[i];
    }
    c.note(name);
    for (auto& a : args) c.note(a);
    c.note((uint64_t)(level + 9) * 8 + want);
    c.nontrivial(want != 0 || !args.empty());
    const bool bad = level < 0 || level > 4;
    bool threw = false;
    struct Stop {
      ~Stop() { spinner.reset(); }
    } stop;
    auto ranp = std::make_shared<std::atomic<int>>(0);
    auto& ran = *ranp;
    auto* q = ros::getGlobalCallbackQueue();
    if (!bad && r.chance(0.5)) q->addCallback([ranp] { ++*ranp; }, 1);
    else ran++;
    try {
      if (r.chance(0.3) && gaveArgs && kw.count("log_level")) {
        std::vector<pybind11::Any> pos{kw["name"], kw["argv"], kw["log_level"]};
        auto rest = kw;
        rest.erase("name"), rest.erase("argv"), rest.erase("log_level");
        mod.fns.at("init_node")(rest, pos);
      } else
        mod.fns.at("init_node")(kw);
    } catch (const std::invalid_argument&) {
      threw = true;
    }
    const auto& log = ros_stub::node();
    size_t inits = 0;
    for (auto& x : log) inits += x.what == "init";
    c.check(threw == bad, "level", [&] { return "level " + std::to_string(level) + (threw ? " rejected" : " accepted"); });
    if (bad) {
      c.check(inits == 0, "level", "initialized although the level was rejected");
      c.count("rejected");
      return;
    }
    c.check(inits == 1, "once", [&] { return std::to_string(inits) + " initializations"; });
    int levels = 0;
    for (auto& x : log) {
      if (x.what == "level") levels++, c.check(x.name == name && x.level == level, "level", [&] { return "logger " + x.name + " set to " + std::to_string(x.level) + " for " + std::to_string(level); });
      if (x.what == "init") {
        c.check(x.name == name, "name", [&] { return x.name + " for " + name; });
        c.check(x.argv == args, "arguments", [&] { return std::to_string(x.argv.size()) + " arguments, or others, for " + std::to_string(args.size()); });
        c.check(x.options == want, "options", [&] { return "options " + std::to_string(x.options) + " for " + std::to_string(want); });
      }
    }
    c.check(levels >= 1, "level", "log level never set");
    // the node is served: callbacks run without anybody spinning
    q->addCallback([ranp] { ++*ranp; }, 1);
    const auto t0 = std::chrono::steady_clock::now();
    while (ran < 2 && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(15)) std::this_thread::sleep_for(std::chrono::microseconds(200));
    c.check(ran == 2, "served", "callbacks are not run");
    c.check(ros_stub::shutdowns() == 0, "once", "shut down while starting");
    mod.fns.at("shutdown")({});
    c.check(ros_stub::shutdowns() == 1 && !ros::ok(), "shutdown", "not shut down");
    c.count("initializations");
  });
  return m.finish();
}
