// recursion and shared ownership, adapted third-party records, containers treated as standard ones
#pragma once
#include "a.h"

namespace tp { // "third party"
struct Point {
    double x = 0, y = 0;
    std::string label;
};
struct Shape {
    std::vector<Point> points;
    Point center;
    std::map<std::string, Point> named;
};
} // namespace tp
REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(tp::Point);
REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(tp::Point);
REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(tp::Shape);
REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(tp::Shape);

namespace uni {
struct Node : public JsonSerializable<Node>, public BinarySerializable<Node> {
    std::string name;
    int v = 0;
    std::vector<Node> kids;
    std::unique_ptr<Node> left;
    std::shared_ptr<Node> next;
    std::vector<std::shared_ptr<Node>> links;
    std::map<std::string, std::shared_ptr<Small>> by;
};
struct Tree : public JsonSerializable<Tree>, public BinarySerializable<Tree> {
    std::string name;
    std::vector<Tree> kids;
    std::unique_ptr<Tree> left;
    std::optional<int> val;
};
struct Shareds : public JsonSerializable<Shareds>, public BinarySerializable<Shareds> {
    std::shared_ptr<int> a, b;
    std::shared_ptr<std::string> s;
    std::vector<std::shared_ptr<int>> vi;
    std::vector<std::shared_ptr<std::string>> vs;
    std::map<std::string, std::shared_ptr<Small>> m;
    std::optional<std::shared_ptr<Small>> o;
    std::pair<std::shared_ptr<Small>, std::shared_ptr<int>> p;
    std::variant<int, std::shared_ptr<std::string>> var;
    std::shared_ptr<std::vector<std::shared_ptr<int>>> nested;
};
struct Empty : public BinarySerializable<Empty> {
};
struct Wild : public BinarySerializable<Wild> {
    std::vector<std::shared_ptr<Empty>> v;
    std::shared_ptr<Empty> one;
    std::vector<std::shared_ptr<int>> i;
};
// a class that behaves like a map, set, ... without being a standard one
struct MyMap : public std::map<std::string, int> {
};
struct MyMulti : public std::multimap<std::string, int> {
};
struct MySet : public std::set<int> {
};
struct MyMultiSet : public std::multiset<std::string> {
};
struct Customs : public JsonSerializable<Customs>, public BinarySerializable<Customs> {
    MyMap map;
    MyMulti multi;
    MySet set;
    MyMultiSet mset;
    tp::Point point;
    std::vector<tp::Shape> shapes;
    int last = 12;
};
} // namespace uni
namespace ReflectiveRapidJSON {
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(uni::MyMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_MAP_OR_HASH(uni::MyMulti);
REFLECTIVE_RAPIDJSON_TREAT_AS_SET(uni::MySet);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_SET(uni::MyMultiSet);
} // namespace ReflectiveRapidJSON
