#pragma once
#include <map>
#include <string>
#include <tuple>
#include <vector>
namespace collision_detection {
struct Contact { std::string body_name_1, body_name_2; double depth = 0; };
struct CollisionResult {
  typedef std::map<std::pair<std::string, std::string>, std::vector<Contact>> ContactMap;
  bool collision = false;
  double distance = 0;
  size_t contact_count = 0;
  ContactMap contacts;
};
}
