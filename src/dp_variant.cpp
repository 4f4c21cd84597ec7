// One implementation of the text/number conversions, under a namespace of its
// own so that all of them can be linked together.
#include <cstdint>
#include <string>
#define valijson CAT(valijson_, VARIANT)
#define CAT(a, b) CAT2(a, b)
#define CAT2(a, b) a##b
#include <valijson/internal/double_parser.hpp>
bool CAT(parseDouble_, VARIANT)(const std::string &t, double &d) { return valijson::internal::parseDouble(t, d); }
